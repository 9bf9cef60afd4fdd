-------------------------- MODULE Trace_Modulator --------------------------
(***************************************************************************)
(* Does a recorded run of the simulator follow the modulator machine?      *)
(* The machine of Modulator.tla is stepped along the recorded events; each *)
(* event gets a total verdict: "ok" or the name of the clause it breaks.   *)
(* Events:                                                                 *)
(*   step   one clock cycle of the reference run (all recording on); these  *)
(*          come first, so that cycle k of the run is event k               *)
(*   ret    what one call returned, with given recording flags             *)
(*   again  one cycle of another run (other chunking / other backend) that *)
(*          must coincide with cycle idx of the reference run              *)
(*   fail   the call raised                                                *)
(***************************************************************************)
EXTENDS Modulator, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, i, st
vars == <<tid, i, st>>

Sc == Traces[tid]
M == Sc.m
Hist == Sc.ev       \* cycle k of the reference run, for k up to st.n

Squeeze(s) == SelectSeq(s, LAMBDA d : d # 1)

(* --- step -------------------------------------------------------------- *)
StepVerdict(s, e) ==
  IF ~(IsVec(e.y, M.nq) /\ IsVec(e.v, M.nq) /\ IsVec(e.x, M.order)) THEN "not-a-vector"
  ELSE IF ~NearVec(e.y, OutY(M, s.x, e.u), ScaleY(M, s.x, e.u)) THEN "quantizer-input"
  ELSE IF \E q \in 1..M.nq : ~QuantOK(e.y[q], M.nlev[q], e.v[q]) THEN "quantizer-law"
  ELSE IF \E q \in 1..M.nq : ~(\E l \in Levels(M.nlev[q]) : DEq(l, e.v[q])) THEN "quantizer-level"
  ELSE IF ~NearVec(e.x, NextX(M, s.x, e.u, e.v), ScaleX(M, s.x, e.u, e.v)) THEN "next-state"
  ELSE "ok"

StepUpd(s, e) ==
  [s EXCEPT !.x = e.x, !.n = @ + 1,
            !.peak = [j \in 1..M.order |-> DMax(@[j], DAbs(e.x[j]))]]

(* --- ret --------------------------------------------------------------- *)
Tol(a) == IF Sc.exact THEN "0" ELSE DMul("1e-9", DAdd("1", DAbs(a)))
Same(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : DClose(a[j], b[j], Tol(b[j]))

RetVerdict(s, e) ==
  LET N == s.n IN
  IF e.vshape # Squeeze(<<M.nq, N>>) THEN "v-shape"
  ELSE IF Len(e.v) # N \/ \E k \in 1..N : ~Same(e.v[k], Hist[k].v) THEN "v-depends-on-flags"
  ELSE IF e.sxn /\ e.xnshape # Squeeze(<<M.order, N>>) THEN "xn-shape"
  ELSE IF e.sxn /\ (Len(e.xn) # N \/ \E k \in 1..N : ~Same(e.xn[k], Hist[k].x)) THEN "xn-contents"
  ELSE IF ~e.sxn /\ e.xnshape # Squeeze(<<M.order, 1>>) THEN "final-state-shape"
  ELSE IF ~e.sxn /\ ~(Len(e.xn) = 1 /\ Same(e.xn[1], s.x)) THEN "final-state"
  ELSE IF e.smax /\ Len(e.xmax) # M.order THEN "xmax-size"
  ELSE IF e.smax /\ ~Same(e.xmax, s.peak) THEN "xmax-contents"
  ELSE IF ~e.smax /\ e.xmax # <<>> THEN "xmax-not-null"
  ELSE IF e.sy /\ e.yshape # Squeeze(<<M.nq, N>>) THEN "y-shape"
  ELSE IF e.sy /\ (Len(e.y) # N \/ \E k \in 1..N : ~Same(e.y[k], Hist[k].y)) THEN "y-contents"
  ELSE IF ~e.sy /\ e.ysize # 0 THEN "y-not-null"
  ELSE "ok"

(* --- again ------------------------------------------------------------- *)
(* Away from the exact domain a comparison of two runs stops being          *)
(* meaningful when a quantizer input is within rounding distance of a       *)
(* decision threshold (an integer).                                         *)
NearThreshold(y) ==
  LET r == DFloor(DAdd(y, "0.5")) IN DClose(y, r, "1e-6")
AgainVerdict(s, e) ==
  IF ~s.alive THEN "ok"
  ELSE IF e.idx > s.n THEN "too-long"
  ELSE LET h == Hist[e.idx] IN
     IF ~Same(e.y, h.y) THEN "rerun-quantizer-input"
     ELSE IF ~Sc.exact /\ \E q \in 1..M.nq : NearThreshold(h.y[q]) THEN "ok"
     ELSE IF ~Same(e.v, h.v) THEN "rerun-output"
     ELSE IF ~Same(e.x, h.x) THEN "rerun-state"
     ELSE "ok"
AgainUpd(s, e) ==
  IF e.idx <= s.n /\ ~Sc.exact
     /\ \E q \in 1..M.nq : NearThreshold(Hist[e.idx].y[q])
  THEN [s EXCEPT !.alive = FALSE] ELSE s

Verdict(s, e) ==
  CASE e.op = "step" -> StepVerdict(s, e)
    [] e.op = "ret" -> RetVerdict(s, e)
    [] e.op = "again" -> AgainVerdict(s, e)
    [] e.op = "restart" -> "ok"
    [] e.op = "fail" -> "unexpected-exception"
    [] OTHER -> "unknown-event"

Upd(s, e) ==
  CASE e.op = "step" -> IF StepVerdict(s, e) = "not-a-vector" THEN s ELSE StepUpd(s, e)
    [] e.op = "again" -> AgainUpd(s, e)
    [] e.op = "restart" -> [s EXCEPT !.alive = TRUE]
    [] OTHER -> s

TraceInit == /\ tid \in 1..Len(Traces)
             /\ i = 0
             /\ st = [x |-> Traces[tid].x0, n |-> 0, alive |-> TRUE,
                      peak |-> [j \in 1..Len(Traces[tid].x0) |-> DAbs(Traces[tid].x0[j])]]
TraceNext == /\ i < Len(Sc.ev)
             /\ LET e == Sc.ev[i + 1]
                    v == Verdict(st, e)
                IN /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
                   /\ st' = Upd(st, e)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

---------------------------- MODULE Trace_Options ----------------------------
(* Recorded histories judged by the protocol.                                *)
EXTENDS Options, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, d
vars == <<tid, i, d>>
T == Traces[tid]

(* The sub-options of a group that can be seen at the sink: all of them but  *)
(* those that the sink does not know (listed by the driver in ev.seen).      *)
SameOn(want, got, S) == \A s \in S : s \in DOMAIN got /\ got[s] = want[s]

QuadVerdict(f, kw, ev) ==
  IF Len(ev.quad) = 0 THEN "integrator-not-reached"
  ELSE IF \A j \in 1..Len(ev.quad) : SameOn(QuadSink(d, f, kw), ev.quad[j], QO)
  THEN "ok" ELSE "integrator-options"

ConicVerdict(f, kw, ev) ==
  LET m == IF f = "fb_synth" THEN d["from_q0"]["modeler"] ELSE Modeler(d, f, kw)
      solver == IF f = "fb_synth" THEN "cvxopt" ELSE Solver(d, f, kw)
      want == ConicSink(d, f, kw)
  IN IF ev.conic.solver # solver THEN "wrong-solver"
     ELSE IF ev.conic.modeler # m THEN "wrong-modeler"
     ELSE IF ~SameOn(want, ev.conic.o, DOMAIN want) THEN "solver-options"
     ELSE IF ev.conic.show # Eff(d, f, kw, "show_progress") THEN "show-progress"
     ELSE IF m = "cvxpy" /\ solver = "cvxopt"
             /\ EffSub(d, f, kw, "cvxpy_opts", "override_kktsolver") = "True"
             /\ ev.conic.chol # "True"
          THEN "kktsolver"
     ELSE IF f \in {"from_q0", "fir_weighting", "hybrid"} /\ m = "cvxpy_old"
             /\ ev.conic.nan # (IF Eff(d, f, kw, "fix_pos") = "True" THEN 0 ELSE 1)
          THEN "fix-pos"
     ELSE "ok"

MinVerdict(f, kw, ev, o) ==
  IF ev.min.n = 0 THEN "optimizer-not-reached"
  ELSE IF ~SameOn(EffGroup(d, f, kw, o), ev.min.o, Subs(o)) THEN "optimizer-options"
  ELSE IF f = "clans" /\ ev.min.disp # Eff(d, f, kw, "show_progress") THEN "show-progress"
  ELSE "ok"

CallVerdict(ev) ==
  LET f == ev.f   kw == ev.kw   err == Errors(d, f, kw)
      (* Fixed modeler of the deprecated front end: only its plain use is    *)
      (* specified.                                                          *)
      free == f = "fb_synth" /\ d["from_q0"]["modeler"] # "cvxpy_old"
      (* A quadratic form that is not fixed may not be representable.        *)
      indef == f \in {"from_q0", "fir_weighting", "hybrid"} /\ err = {}
               /\ Eff(d, f, kw, "fix_pos") = "False" /\ Modeler(d, f, kw) # "cvxpy_old"
  IN IF ~ev.kwsame THEN "caller-dictionaries-altered"
     ELSE IF ev.after # d THEN "defaults-altered-by-call"
     ELSE IF free \/ indef THEN "ok"
     ELSE IF err # {} THEN (IF ev.exc \in err THEN "ok" ELSE "error-not-reported")
     ELSE IF ev.exc # "" THEN "valid-options-rejected"
     ELSE IF f \in QuadFns THEN QuadVerdict(f, kw, ev)
     ELSE IF f = "clans" THEN MinVerdict(f, kw, ev, "slsqp_opts")
     ELSE IF f = "spread" THEN MinVerdict(f, kw, ev, "L_BFGS_B_opts")
     ELSE IF f = "schreier" THEN
       (IF (ev.min.n > 0) = (Eff(d, f, kw, "use_optimizer") = "True")
        THEN "ok" ELSE "use-optimizer")
     ELSE IF f = "simulate" THEN
       (IF (ev.slow = 1) = (Eff(d, f, kw, "backend") = "scipy")
        THEN "ok" ELSE "backend")
     ELSE IF ConicVerdict(f, kw, ev) # "ok" THEN ConicVerdict(f, kw, ev)
     ELSE IF f \in WeightFns \cup {"fb_synth"} THEN QuadVerdict(f, kw, ev)
     ELSE "ok"

(* A change of the defaults of a function is seen there and only there.      *)
SetTo(ev) == IF ev.s = "" THEN [d EXCEPT ![ev.f][ev.o] = ev.v]
             ELSE [d EXCEPT ![ev.f][ev.o][ev.s] = ev.v]
SetVerdict(ev) == IF ev.after = SetTo(ev) THEN "ok" ELSE "defaults-shared"

(* digested_options.                                                         *)
DigestVerdict(ev) ==
  LET keys == {ev.keys[j] : j \in 1..Len(ev.keys)}
      multi == {ev.multi[j] : j \in 1..Len(ev.multi)}
      left == DigestLeft(ev.opts, keys, multi)
  IN IF ~ev.defsame THEN "defaults-altered-by-call"
     ELSE IF ~ev.argsame THEN "caller-dictionaries-altered"
     ELSE IF ev.ec /\ left # {} THEN (IF ev.exc = "TypeError" THEN "ok" ELSE "error-not-reported")
     ELSE IF ev.exc # "" THEN "valid-options-rejected"
     ELSE IF DOMAIN ev.out # keys \cup multi THEN "digested-keys"
     ELSE IF \E k \in keys : ev.out[k] # DigestOut(ev.opts, ev.defs, keys, multi)[k]
          THEN "digested-value"
     ELSE IF \E k \in multi : ev.out[k] # DigestMulti(ev.opts, ev.defs, multi)[k]
          THEN "digested-value"
     ELSE IF DOMAIN ev.left # left \/ (\E k \in left : ev.left[k] # ev.opts[k]) THEN "leftover-options"
     ELSE "ok"

Verdict(ev) == CASE ev.op = "call" -> CallVerdict(ev)
                 [] ev.op = "set" -> SetVerdict(ev)
                 [] ev.op = "digest" -> DigestVerdict(ev)

TraceInit == tid \in 1..Len(Traces) /\ i = 0 /\ d = Traces[tid].d0
TraceNext == /\ i < Len(T.ev)
             /\ LET v == Verdict(T.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ d' = IF T.ev[i + 1].op = "set" THEN SetTo(T.ev[i + 1]) ELSE d
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

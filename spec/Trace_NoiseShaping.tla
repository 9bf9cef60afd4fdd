------------------------- MODULE Trace_NoiseShaping -------------------------
EXTENDS NoiseShaping, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

(* Expanding the roots is done once per trace, in the initial state.       *)
VARIABLES tid, i, st
vars == <<tid, i, st>>
Sc == Traces[tid]

Verdict(s, e) ==
  IF e.op = "fail" THEN "unexpected-exception"
  ELSE IF e.op = "plain" THEN
    \* the same run without recording
    IF ~(Len(e.v) = Len(s.v) /\ \A k \in 1..Len(e.v) : DEq(e.v[k], s.v[k]))
    THEN "v-depends-on-flags" ELSE "ok"
  ELSE IF ~(DIsNum(e.y) /\ DIsNum(e.v)) THEN "not-a-number"
  ELSE IF ~QuantOK(e.y, Sc.nlev, e.v) THEN "quantizer-law"
  ELSE IF s.skip = 0 /\ ~DClose(DSub(e.y, e.u), PredictD(s.num, s.den, s.w, s.d),
                DMul(Sc.tol, ScaleD(s.num, s.den, s.w, s.d))) THEN "noise-shaping"
  ELSE "ok"

Upd(s, e) ==
  IF e.op # "step" THEN s
  ELSE [s EXCEPT !.w = Push(@, DSub(e.v, e.u)), !.d = Push(@, DSub(e.y, e.u)),
                 !.v = Append(@, e.v), !.skip = IF @ = 0 THEN 0 ELSE @ - 1]

TraceInit == /\ tid \in 1..Len(Traces)
             /\ i = 0
             /\ LET q == Len(Traces[tid].z)
                IN st = [num |-> RealPoly(Traces[tid].z), den |-> RealPoly(Traces[tid].p),
                         w |-> VZero(q), d |-> VZero(q), v |-> <<>>,
                         \* from a non-zero state the law holds after the transient
                         skip |-> IF Traces[tid].rest THEN 0 ELSE q]
TraceNext == /\ i < Len(Sc.ev)
             /\ LET e == Sc.ev[i + 1]
                    v == Verdict(st, e)
                IN /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
                   /\ st' = Upd(st, e)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

---------------------------- MODULE Trace_Inter ----------------------------
(* Outcomes of calls in progress together: those of the calls alone.         *)
EXTENDS Integers, History, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]
Near(a, b, tol) == IF DIsNum(a) /\ DIsNum(b) THEN DClose(a, b, DMul(tol, DAdd("1", DAbs(b)))) ELSE a = b
Verdict(e) ==
  IF e.c \notin Calls THEN "unknown-call"
  ELSE IF e.mutated THEN "argument-altered"
  ELSE IF e.exc # e.bexc THEN "outcome-depends-on-calls-in-progress"
  ELSE IF Len(e.y) # Len(e.by) \/ \E k \in 1..Len(e.y) : ~Near(e.y[k], e.by[k], e.tol)
    THEN "answer-depends-on-calls-in-progress"
  ELSE "ok"
(* After the last call, the environment is as before the first one.          *)
End == <<"end", 0>>
Last(e) ==
        IF e.marks # <<>> THEN "environment-altered"
        ELSE IF Len(Sc.ev) > Len(Sc.c) + 1 \/ \E k \in 1..(Len(Sc.ev) - 1) : Sc.ev[k].c # Sc.c[k] THEN "wrong-calls"
        ELSE "ok"
TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Sc.ev)
             /\ LET e == Sc.ev[i + 1]
                    v == IF e.c = End THEN Last(e) ELSE Verdict(e)
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

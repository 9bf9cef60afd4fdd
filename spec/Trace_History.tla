--------------------------- MODULE Trace_History ---------------------------
EXTENDS History, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]
Near(a, b, tol) == IF DIsNum(a) /\ DIsNum(b) THEN DClose(a, b, DMul(tol, DAdd("1", DAbs(b)))) ELSE a = b
Verdict(e) ==
  IF e.c = Scribble THEN "ok"
  ELSE IF e.c \notin Calls THEN "unknown-call"
  ELSE IF e.mutated THEN "argument-altered"
  ELSE IF e.marks # <<>> THEN "environment-altered"
  ELSE IF e.exc # e.bexc THEN "outcome-depends-on-history"
  ELSE IF Len(e.y) # Len(e.by) \/ \E k \in 1..Len(e.y) : ~Near(e.y[k], e.by[k], e.tol)
    THEN "answer-depends-on-history"
  ELSE IF e.warns # e.bwarns THEN "warnings-depend-on-history"
  ELSE "ok"
TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Sc.ev)
             /\ LET v == Verdict(Sc.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

---------------------------- MODULE Trace_SimArgs ----------------------------
EXTENDS SimArgs, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Traces[tid].ev)
             /\ LET v == Verdict(Traces[tid].r, Traces[tid].ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

----------------------------- MODULE Trace_Prog -----------------------------
EXTENDS Prog, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
P == Traces[tid].s.p
Tol(v) == DMul("1e-4", DAdd("1", DAbs(v)))
Dec(q) == [k \in 1..Len(q) |-> DOfInt(q[k])]
NumVerdict(a, e, G) ==
  IF Lacking(P, G) THEN (IF e.exc = "ValueError" THEN "ok" ELSE "parameter-without-value")
  ELSE IF e.exc # "" THEN "numbers-refused"
  ELSE IF ~Held(P, TLCEval(Dec(a.args)), "0") THEN (IF e.value = Nowhere(P) THEN "ok" ELSE "infeasible-arguments")
  ELSE IF DClose(e.value, Signed(P, Value(P, TLCEval(Dec(a.args)), G)), Tol(e.value)) THEN "ok" ELSE "value"
(* What is wrong must be told, with the right exception.                     *)
BadVerdict(a, e) == IF e.exc \in (CASE a.how \in {"nan", "shape", "turned"} -> {"ValueError"} [] a.how = "text" -> {"TypeError", "ValueError"} [] OTHER -> {"TypeError"}) THEN "ok" ELSE "bad-call-accepted"
(* Uses whose arguments are all numbers are numbers; if they are infinite no *)
(* program can be written with them.                                         *)
Infinite(o) == \E j \in 1..Len(o.uses) :
  /\ \A k \in 1..Len(o.uses[j].al) : o.uses[j].al[k] = 0 /\ o.uses[j].ga[k] = 0
  /\ ~Held(P, TLCEval(Dec(o.uses[j].be)), "0")
OuterVerdict(o, e, r, G) ==
  IF Lacking(P, G) THEN (IF e.exc = "ValueError" THEN "ok" ELSE "parameter-without-value")
  ELSE IF e.exc # "" THEN "program-refused"
  ELSE IF DLt(Room(P, o, r), "0") THEN (IF e.value = Nowhere(P) THEN "ok" ELSE "infeasible-program")
  ELSE IF ~DIsNum(e.value) \/ ~DIsNum(e.x) THEN "no-solution"
  ELSE IF DLt(e.x, DSub(DOfInt(o.lo), "1e-5")) \/ DLt(DAdd(DOfInt(o.hi), "1e-5"), e.x) \/ ~Kept(P, o, e.x, r, "1e-4") THEN "constraint"
  ELSE IF ~DClose(e.value, Signed(P, Whole(P, o, e.x, r, G)), Tol(e.value)) THEN "value-at-the-point"
  ELSE IF DLt(DAdd(Best(P, o, r, G), Tol(e.value)), Signed(P, e.value)) THEN "better-point"
  ELSE "ok"
RECURSIVE First(_)
First(q) == IF q = <<>> THEN "ok" ELSE IF Head(q) # "ok" THEN Head(q) ELSE First(Tail(q))
SolveVerdict(o, e, G) ==
  IF Infinite(o) THEN "ok"
  ELSE IF Lacking(P, G) /\ e.exc = "ValueError" THEN "ok"
  ELSE IF e.convex # <<>> /\ e.convex[1] # (P.act = "minimize") THEN "convex"
  ELSE IF e.concave # <<>> /\ e.concave[1] # (P.act = "maximize") THEN "concave"
  ELSE IF Len(e.runs) # Len(o.rs) THEN "program-refused"
  ELSE First([j \in 1..Len(o.rs) |-> OuterVerdict(o, e.runs[j], DOfInt(o.rs[j]), G)])
ClassVerdict(a, e) ==
  LET fit == Fit(P, a.kinds)
  IN IF e.exc # "" THEN "program-refused"
     ELSE IF e.convex # (fit /\ P.act = "minimize") THEN "convex"
     ELSE IF e.concave # (fit /\ P.act = "maximize") THEN "concave"
     ELSE "ok"
Verdict(a, e, G) ==
  IF e.altered THEN "program-altered"
  ELSE CASE a.op = "num" -> NumVerdict(a, e, G) [] a.op = "bad" -> BadVerdict(a, e) [] a.op = "solve" -> SolveVerdict(a, e, G) [] a.op = "class" -> ClassVerdict(a, e)
TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Traces[tid].ev)
             /\ LET v == Verdict(Traces[tid].s.h[i + 1], Traces[tid].ev[i + 1], Traces[tid].s.g[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

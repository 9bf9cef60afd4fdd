----------------------------- MODULE Trace_Expr -----------------------------
EXTENDS Expr, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, st
vars == <<tid, i, st>>
Sc == Traces[tid]
SetOf(q) == {q[k] : k \in 1..Len(q)}
Raised(r) == r.exc # ""
ExprVerdict(e, r) ==
  LET d == Den(e)
  IN IF r.mutated THEN "operand-altered"
     ELSE IF Ill(d) THEN (IF Raised(r) THEN "ok" ELSE "senseless-expression-accepted")
     ELSE IF Raised(r) THEN (IF d.k = "any" THEN "ok" ELSE "expression-refused")
     ELSE IF Void(d) THEN "ok"
     ELSE IF r.shape # <<d.m, d.n>> THEN "shape"
     ELSE IF \E a \in As : r.y[a] # Flat(d, a) THEN "value"
     ELSE IF SetOf(r.vars) # Vars(d) /\ d.k # "any" THEN "variables"
     ELSE IF SetOf(r.pars) # Pars(d) /\ d.k # "any" THEN "parameters"
     ELSE "ok"
CmpVerdict(e, r) ==
  LET a == Den(e[2])
      b == Den(e[3])
      soft == {a.k, b.k} \cap {"sp", "spa", "any"} # {}
      sh == CmpShape(a, b)
      n == sh[1] * sh[2]
  IN IF r.mutated THEN "operand-altered"
     ELSE IF Ill(a) \/ Ill(b) THEN (IF Raised(r) THEN "ok" ELSE "senseless-expression-accepted")
     ELSE IF Void(a) \/ Void(b) THEN "ok"
     ELSE IF ~CmpOk(a, b) THEN (IF Raised(r) \/ soft THEN "ok" ELSE "senseless-comparison-accepted")
     ELSE IF Raised(r) THEN (IF soft THEN "ok" ELSE "comparison-refused")
     ELSE IF Len(r.types) # n \/ \E k \in 1..n : r.types[k] # e[1] THEN "constraints"
     ELSE IF \E x \in As : r.left[x] # Side(a, sh, x) \/ r.right[x] # Side(b, sh, x) THEN "sides"
     ELSE IF SetOf(r.vars) # Vars(a) \cup Vars(b) THEN "variables"
     ELSE "ok"
(* Parameters: the outcome of each assignment and the state after it.        *)
ParVerdict(x, r, s) ==
  LET t == IF x.o = "value" THEN SetValue(s, x.a) ELSE SetAttr(s, x.a)
      refused == IF x.o = "value" THEN ~Admits(s.attr, x.a) ELSE x.a \notin Attrs
  IN IF refused # (r.exc = "ValueError") THEN "assignment"
     ELSE IF r.exc \notin {"", "ValueError"} THEN "exception"
     ELSE IF r.attr # t.attr THEN "attribute" ELSE IF r.val # t.val THEN "value" ELSE "ok"
Cells == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>>>
Swap == <<1, 3, 2, 4>>
EntryVal(v, a) == CASE v = "zero" -> 0 [] v = "five" -> 5 [] v = "x" -> <<2, -1>>[a]
SpVerdict(x, r, z) ==
  LET w == Put(z, x.c[1], x.c[2], x.a)
      want(a) == [k \in 1..4 |-> EntryVal(w[Cells[k]], a)]
  IN IF r.exc # "" THEN "assignment-refused"
     ELSE IF \E a \in As : r.y[a] # want(a) THEN "value"
     ELSE IF \E a \in As : r.got[a] # want(a) THEN "entries"
     ELSE IF \E a \in As : r.t[a] # [k \in 1..4 |-> want(a)[Swap[k]]] THEN "transpose"
     ELSE IF r.nnz # Cardinality(Stored(w)) THEN "nnz"
     ELSE IF SetOf(r.vars) # (IF \E c \in DOMAIN w : w[c] = "x" THEN {"x"} ELSE {}) THEN "variables"
     ELSE "ok"
Blank == [c \in {Cells[k] : k \in 1..4} |-> IF c \in {<<0, 0>>, <<1, 1>>} THEN "five" ELSE "zero"]
Start == CASE Sc.part = "param" -> Sc.h[1] [] Sc.part = "sparse" -> Blank [] OTHER -> 0
TraceInit == tid \in 1..Len(Traces) /\ i = 0 /\ st = Start
Verdict(r) ==
  CASE Sc.part = "param" -> ParVerdict(r.x, r, st)
    [] Sc.part = "sparse" -> SpVerdict(r.x, r, st)
    [] r.e[1] \in Relations -> CmpVerdict(r.e, r)
    [] OTHER -> ExprVerdict(r.e, r)
After(r) ==
  CASE Sc.part = "param" -> IF r.x.o = "value" THEN SetValue(st, r.x.a) ELSE SetAttr(st, r.x.a)
    [] Sc.part = "sparse" -> Put(st, r.x.c[1], r.x.c[2], r.x.a)
    [] OTHER -> st
TraceNext == /\ i < Len(Sc.ev)
             /\ LET v == Verdict(Sc.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ st' = After(Sc.ev[i + 1])
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

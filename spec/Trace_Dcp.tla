----------------------------- MODULE Trace_Dcp ------------------------------
EXTENDS Dcp, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]
ClassVerdict(e, r) ==
  IF ~Allowed(e) THEN (IF r.exc # "" THEN "ok" ELSE "product-of-variables-accepted")
  ELSE IF r.exc # "" THEN "expression-refused"
  ELSE IF r.affine # Aff(e) THEN "affine"
  ELSE IF r.convex # Convex(e) THEN "convex"
  ELSE IF r.concave # Concave(e) THEN "concave"
  ELSE IF r.dcp # (Convex(e) \/ Concave(e)) THEN "dcp"
  ELSE IF r.minimize # Convex(e) \/ r.maximize # Concave(e) THEN "program"
  ELSE IF r.solve # "" THEN "solve"
  ELSE "ok"
RelVerdict(e, r) ==
  IF ~Allowed(e[3]) \/ ~Allowed(e[4]) THEN "ok"
  ELSE IF r.exc # "" THEN "constraint-refused"
  ELSE IF r.dcp # ConstraintDcp(e[2], e[3], e[4]) THEN "constraint"
  ELSE IF r.minimize # r.dcp THEN "program"
  ELSE "ok"
(* Programs: e is minimized or maximized over lo <= x <= hi, y = kx + c and  *)
(* the constraint con, if there is one, with the values v of the parameters. *)
EnvAt(s, v, x) == [x |-> x, y |-> DAdd(DMul(s.k, x), s.c), p |-> v.p, n |-> v.n, m |-> v.m]
FAt(s, v, x) == Ev(s.e, EnvAt(s, v, x))
Room(s, v, x) == ConRoom(s.con, EnvAt(s, v, x))
NeedsParams(s) == Uses(s.e) \/ ConUses(s.con)
ProgramDcp(s) == /\ IF s.act = "minimize" THEN Convex(s.e) ELSE Concave(s.e)
                 /\ s.con[1] = "none" \/ ConstraintDcp(s.con[1], s.con[2], s.con[3])
Sgn(s, a) == IF s.act = "minimize" THEN a ELSE DNeg(a)
Infeasible(s) == IF s.act = "minimize" THEN "inf" ELSE "-inf"
Clip(s, q) == IF DLt(q, s.lo) THEN s.lo ELSE IF DLt(s.hi, q) THEN s.hi ELSE q
Grid(s) == TLCEval({DAdd(s.lo, DMul(DSub(s.hi, s.lo), DDiv(DOfInt(j), "16"))) : j \in 0..16})
(* Affine objectives over half lines.                                        *)
HalfLine(s, r) ==
  LET f0 == FAt(s, r.v, "0")
      g == Sgn(s, DSub(FAt(s, r.v, "1"), f0))
      end == IF s.lo = "-inf" THEN s.hi ELSE s.lo
      down == IF s.lo = "-inf" THEN g ELSE DNeg(g)
  IN CASE DLt("0", down) -> r.value = (IF s.act = "minimize" THEN "-inf" ELSE "inf")
       [] DLt(down, "0") -> DIsNum(r.value) /\ DClose(r.value, FAt(s, r.v, end), "1e-4")
       [] OTHER -> DIsNum(r.value) /\ DClose(r.value, f0, "1e-4")
Tol(a) == DMul("2e-5", DAdd("1", DAbs(a)))
Bounded(s, r) ==
  LET v == r.v
      ins == {q \in Grid(s) : DIsNum(FAt(s, v, q)) /\ DIsNum(Room(s, v, q))}
      strict == {q \in ins : DLe("1e-3", Room(s, v, q))}
  IN
  IF r.value = Infeasible(s) THEN (IF strict = {} THEN "ok" ELSE "feasible-program-declared-infeasible")
  ELSE IF ~DIsNum(r.value) \/ ~DIsNum(r.x) \/ ~DIsNum(r.y) THEN (IF strict = {} THEN "ok" ELSE "no-solution")
  ELSE
    LET slack == DMul("1e-4", DAdd("1", DAbs(s.hi)))
        x == Clip(s, r.x)
        d == DMul("2e-5", DAdd("1", DSub(s.hi, s.lo)))
        close == {Clip(s, DAdd(x, DMul(d, q))) : q \in {"0", "1", "-1", "0.3", "-0.3", "0.1", "-0.1", "0.03", "-0.03"}}
        near == {FAt(s, v, q) : q \in close} \ {"nan"}
        room == {Room(s, v, q) : q \in close}
        tol == Tol(r.value)
    IN IF DLt(r.x, DSub(s.lo, slack)) \/ DLt(DAdd(s.hi, slack), r.x) THEN "bounds"
       ELSE IF ~DClose(r.y, DAdd(DMul(s.k, r.x), s.c), DMul("1e-4", DAdd("1", DAbs(r.y)))) THEN "equality"
       ELSE IF "nan" \notin room /\ \A q \in room : DLt(q, "-1e-4") THEN "constraint"
       ELSE IF near # {} /\ \A q \in near : DLt(r.value, DSub(q, tol)) THEN "value-below-the-objective"
       ELSE IF near # {} /\ \A q \in near : DLt(DAdd(q, tol), r.value) THEN "value-above-the-objective"
       ELSE IF \E q \in strict : DLt(Sgn(s, FAt(s, v, q)), DSub(Sgn(s, r.value), tol)) THEN "not-optimal"
       ELSE "ok"
(* Programs that the solver has to find the solution of: linear and conic    *)
(* ones, and those with a smooth function or a root of a product.  Other     *)
(* ones can be too hard for it, what it says.                                *)
RECURSIVE Hard(_)
Hard(e) ==
  CASE e[1] = "fn" -> e[2] \in SmoothFn \cup {"gm", "gm3", "gm5", "det", "det3"} \/ \E k \in 1..Len(e[3]) : Hard(e[3][k])
    [] e[1] \in {"x", "y", "num"} \cup Params -> FALSE
    [] e[1] = "neg" -> Hard(e[2])
    [] OTHER -> Hard(e[2]) \/ Hard(e[3])
(* Functions given the same argument twice make the solver see constraints  *)
(* twice, which may leave it with singular systems.                         *)
RECURSIVE Twins(_, _, _)
Twins(e, n1, n2) ==
  CASE e[1] = "fn" -> \/ Len(e[3]) = 2 /\ Ev(e[3][1], n1) = Ev(e[3][2], n1) /\ Ev(e[3][1], n2) = Ev(e[3][2], n2)
                      \/ \E k \in 1..Len(e[3]) : Twins(e[3][k], n1, n2)
    [] e[1] \in {"x", "y", "num"} \cup Params -> FALSE
    [] e[1] = "neg" -> Twins(e[2], n1, n2)
    [] OTHER -> Twins(e[2], n1, n2) \/ Twins(e[3], n1, n2)
MustSolve(s, v) ==
  /\ s.con[1] = "none"
  /\ ~Twins(s.e, EnvAt(s, v, "0.375"), EnvAt(s, v, "1.9375"))
  /\ \/ ~Hard(s.e)
     \/ s.e[1] = "fn" /\ (\A k \in 1..Len(s.e[3]) : s.e[3][k][1] \in {"x", "y"})
                      /\ (Len(s.e[3]) = 2 => s.e[3][1] # s.e[3][2])
SolveVerdict(s, r) ==
  IF ~ProgramDcp(s) THEN (IF r.exc = "ValueError" THEN "ok" ELSE "program-that-is-not-dcp-solved")
  ELSE IF NeedsParams(s) /\ r.v.p = "nan" THEN (IF r.exc = "ValueError" THEN "ok" ELSE "parameters-without-value")
  ELSE IF r.exc # "" THEN (IF r.solver /\ ~MustSolve(s, r.v) THEN "ok" ELSE "program-refused")
  ELSE IF ~r.valid THEN (IF MustSolve(s, r.v) THEN "solver-failure" ELSE "ok")
  ELSE IF s.lo = "-inf" \/ s.hi = "inf" THEN (IF HalfLine(s, r) THEN "ok" ELSE "half-line")
  ELSE IF DLt(s.hi, s.lo) THEN (IF r.value = Infeasible(s) THEN "ok" ELSE "infeasible")
  ELSE Bounded(s, r)
(* Functions of numbers.                                                     *)
NumVerdict(e, r) ==
  LET w == Ev(e, [x |-> "0"])
  IN IF w = "nan" THEN (IF r.exc = "ValueError" \/ r.solver \/ r.value \in {"inf", "-inf", "nan"} THEN "ok" ELSE "number-out-of-domain")
     ELSE IF r.exc # "" THEN (IF e[2] \in {"gm3", "gm5", "det3"} /\ (r.exc = "ValueError" \/ r.solver) /\ DLe(w, "1e-9") THEN "ok" ELSE "number-refused")
     ELSE IF ~DIsNum(r.value) \/ ~DClose(r.value, w, Tol(w)) THEN "value"
     ELSE "ok"
Verdict(r) == CASE Sc.part = "solve" -> SolveVerdict(Sc.s, r)
                [] Sc.part = "num" -> NumVerdict(Sc.s, r)
                [] r.e[1] = "rel" -> RelVerdict(r.e, r)
                [] OTHER -> ClassVerdict(r.e, r)
TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Sc.ev)
             /\ LET v == Verdict(Sc.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

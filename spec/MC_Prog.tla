------------------------------ MODULE MC_Prog -------------------------------
(* Programs, calls of theirs and programs that call them; convexity of the   *)
(* value in the arguments.                                                   *)
EXTENDS Prog, TLC, Json
CONSTANTS K
VARIABLES s, fin
vars == <<s, fin>>
R(S) == RandomElement(S)
Seq1(n, S) == [i \in 1..n |-> RandomElement(S)]
Layouts == {<<"sv">>, <<"sp">>, <<"el">>, <<"v2">>, <<"r2">>, <<"p2">>, <<"m2">>, <<"sv", "sv">>, <<"sp", "sv">>, <<"v2", "sp">>, <<"sv", "v2">>,
            <<"el", "r2">>, <<"p2", "sv">>, <<"sp", "p2", "sv">>, <<"m2", "sp">>, <<"sv", "sp", "el">>, <<"r2", "v2">>}
Pars(fs) == {i \in 1..Width(fs) : IsPar(Owners(fs)[i])}
Term(fs, j) == [t |-> R(1..2), a |-> Seq1(Width(fs), (0 - 2)..2), b |-> R({0 - 2, 0 - 1, 0, 1, 1, 2}), m |-> IF R(1..3) = 1 THEN 0 ELSE R({0} \cup Pars(fs)), c |-> R((0 - 3)..3), g |-> R({0, 0, 0, 1, 0 - 1})]
Terms(fs, n) == [j \in 1..n |-> Term(fs, j)]
Range(j) == R({<<0 - 1, 2>>, <<0, 3>>, <<0 - 4, 0 - 1>>, <<1, 2>>, <<0 - 3, 5>>})
Caps(fs, j) == IF R(1..2) = 1 THEN <<>> ELSE <<[i |-> R(1..Width(fs)), d |-> R((0 - 2)..3), s |-> R({1, 0 - 1})]>>
Program(fs, k) == LET g == TLCEval(Range(k)) IN
  [act |-> R({"minimize", "maximize"}), fs |-> fs, terms |-> Terms(fs, R(1..3)), lo |-> g[1], hi |-> g[2], caps |-> Caps(fs, k)]
Numbers(fs, j) == [op |-> "num", args |-> Seq1(Width(fs), (0 - 3)..3), as |-> R({"matrix", "stack"})]
Use(fs, j) == LET w == Owners(fs) IN
  [al |-> [i \in 1..Len(w) |-> IF IsPar(w[i]) THEN 0 ELSE R((0 - 2)..2)], be |-> Seq1(Len(w), (0 - 2)..3), ga |-> IF R(1..2) = 1 THEN [i \in 1..Len(w) |-> 0] ELSE Seq1(Len(w), {0 - 1, 0, 1})]
Outer(fs, j) == LET g == TLCEval(Range(j)) IN
  [op |-> "solve", uses |-> [q \in 1..R({1, 1, 2}) |-> Use(fs, q)], k |-> R(1..2), c |-> R((0 - 2)..3), lo |-> g[1], hi |-> g[2],
   rs |-> IF R(1..2) = 1 THEN <<R((0 - 2)..2)>> ELSE <<R((0 - 2)..2), R((0 - 2)..2)>>]
Hows(fs) == {"few", "many", "none", "nan", "text", "ndarray", "shape", "formal"} \cup
            (IF \E i \in 1..Len(fs) : fs[i] \in {"v2", "r2", "p2"} THEN {"turned"} ELSE {}) \cup
            (IF \E i \in 1..Len(fs) : IsPar(fs[i]) THEN {"replace"} ELSE {})
Bad(fs, j) == [op |-> "bad", how |-> R(Hows(fs))]
Kinds(fs, j) == [i \in 1..Width(fs) |-> IF IsPar(Owners(fs)[i]) THEN "aff" ELSE R({"aff", "cvx", "ccv"})]
Class(fs, j) == [op |-> "class", kinds |-> Kinds(fs, j)]
Action(fs, j) == LET k == R(1..7) IN CASE k = 7 /\ \E i \in 1..Width(fs) : ~IsPar(Owners(fs)[i]) -> Class(fs, j) [] k = 7 -> Numbers(fs, j) [] k \in {1, 2} -> Numbers(fs, j) [] k \in {3, 4, 5} -> Outer(fs, j) [] k = 6 -> Bad(fs, j)
Histories == {<<"nan", "nan", "1", "-2">>, <<"nan", "0", "0", "3">>, <<"2", "-1.5", "-1.5", "0">>, <<"1", "1", "4", "-3">>, <<"-2", "2", "0.5", "1">>}
Scenario(k) == LET fs == TLCEval(R(Layouts)) IN [p |-> Program(fs, k), g |-> R(Histories), h |-> [j \in 1..4 |-> Action(fs, j)]]
Init == \E k \in 1..K : s = TLCEval(Scenario(k)) /\ fin = FALSE
Next == ~fin /\ fin' = TRUE /\ UNCHANGED s
Spec == Init /\ [][Next]_vars
(* Solvers want room, or clear infeasibility.                                *)
Clear(a) == a.op # "solve" \/ \A j \in 1..Len(a.rs) : LET m == Room(s.p, a, DOfInt(a.rs[j])) IN DLe(m, "-0.1") \/ DLe("0.1", m)
(* The value is convex in the arguments that are variables; the opposite is  *)
(* concave.                                                                  *)
Solves == {j \in 1..4 : s.h[j].op = "solve" /\ s.h[j].uses # <<>>}
ConvexInv == ~fin => \A j \in Solves :
  LET o == s.h[j]
      r == DOfInt(o.rs[1])
      V(x) == Value(s.p, TLCEval(Arg(o.uses[1], x, r)), "1")
  IN \A a \in {"-2", "0", "1.5"}, b \in {"-1", "3"} :
       DLe(DMul("2", V(DMul("0.5", DAdd(a, b)))), DAdd(DAdd(V(a), V(b)), "1e-20"))
(* What is found over the corners is not above what is found over a grid.    *)
CornersInv == ~fin => \A j \in Solves :
  LET F == TLCEval(Arg(s.h[j].uses[1], "0.5", "1"))
      q == TLCEval(Lines(s.p, F, "1"))
      v == TLCEval(Value(s.p, F, "1"))
  IN \A n \in 0..8 : DLe(v, DAdd(At(q, DAdd(DOfInt(s.p.lo), DMul(DOfInt(s.p.hi - s.p.lo), DDiv(DOfInt(n), "8")))), "1e-20"))
EmitInv == (~fin /\ \A j \in 1..4 : Clear(s.h[j])) => PrintT("SCEN" \o ToJson([part |-> "call", s |-> s]))
=============================================================================

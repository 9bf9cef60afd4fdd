-------------------------------- MODULE Prog --------------------------------
(***************************************************************************)
(* Programs of pydsm.cvxpy_tdr with formal arguments, called as functions. *)
(*                                                                         *)
(* A program P is a record: act ("minimize" or "maximize"), fs (kinds of   *)
(* the formals), terms, lo, hi, caps.  With F the sequence of the scalars  *)
(* that the formals are made of (row by row), its value is the least over  *)
(* lo <= w <= hi, with w a variable of its own, of                         *)
(*   sum_k t_k |a_k . F + (b_k + F[m_k]) w + c_k + g_k G| (m_k = 0: none)  *)
(* provided that F[i] <= d (s = 1) or F[i] >= d (s = -1) for all the caps  *)
(* [i, d, s]; if "maximize", it is the opposite of that.  Without points,  *)
(* the value is infinite.  G is a parameter that is not a formal: what it  *)
(* holds when the value is worked out counts.                              *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences, FiniteSets, TLC
Size(f) == CASE f \in {"sv", "sp", "el"} -> 1 [] f \in {"v2", "r2", "p2"} -> 2 [] f = "m2" -> 4
IsPar(f) == f \in {"sp", "p2"}
RECURSIVE Owners(_)
Owners(fs) == IF fs = <<>> THEN <<>> ELSE [j \in 1..Size(Head(fs)) |-> Head(fs)] \o Owners(Tail(fs))
Width(fs) == Len(Owners(fs))
(* Coefficients of w and of the rest in term k.                              *)
Slope(t, F) == IF t.m = 0 THEN DOfInt(t.b) ELSE DAdd(DOfInt(t.b), F[t.m])
Rest(t, F, G) == DAdd(DSum([i \in 1..Len(F) |-> DMul(DOfInt(t.a[i]), F[i])]), IF t.g = 0 THEN DOfInt(t.c) ELSE DAdd(DOfInt(t.c), DMul(DOfInt(t.g), G)))
Lines(P, F, G) == [k \in 1..Len(P.terms) |-> <<DOfInt(P.terms[k].t), Slope(P.terms[k], F), Rest(P.terms[k], F, G)>>]
Lacking(P, G) == G = "nan" /\ \E k \in 1..Len(P.terms) : P.terms[k].g # 0
(* Arguments that are not affine (kinds "cvx", "ccv") must be left out of    *)
(* the terms, and be limited in the right direction.                         *)
Fit(P, kinds) == \A i \in 1..Len(kinds) : kinds[i] # "aff" =>
  /\ \A k \in 1..Len(P.terms) : P.terms[k].a[i] = 0
  /\ \A j \in 1..Len(P.caps) : P.caps[j].i = i => P.caps[j].s = (IF kinds[i] = "cvx" THEN 1 ELSE 0 - 1)
At(q, w) == DSum([k \in 1..Len(q) |-> DMul(q[k][1], DAbs(DAdd(DMul(q[k][2], w), q[k][3])))])
(* A convex function that is linear between its corners is least at a corner *)
(* or at an end.                                                             *)
Corners(P, q) == {DOfInt(P.lo), DOfInt(P.hi)} \cup
                 {w \in {DDiv(DNeg(q[k][3]), q[k][2]) : k \in {j \in 1..Len(q) : ~DEq(q[j][2], "0")}} : DLe(DOfInt(P.lo), w) /\ DLe(w, DOfInt(P.hi))}
RECURSIVE Least(_)
Least(S) == LET x == CHOOSE x \in S : TRUE IN IF S = {x} THEN x ELSE DMin(x, Least(S \ {x}))
Held(P, F, slack) == \A j \in 1..Len(P.caps) : DLe(DMul(DOfInt(P.caps[j].s), F[P.caps[j].i]), DAdd(DOfInt(P.caps[j].s * P.caps[j].d), slack))
(* The value, but for the sign; it needs Held.                               *)
Value(P, F, G) == LET q == TLCEval(Lines(P, F, G)) IN Least({At(q, w) : w \in TLCEval(Corners(P, q))})
Signed(P, v) == IF P.act = "minimize" THEN v ELSE DNeg(v)
Nowhere(P) == IF P.act = "minimize" THEN "inf" ELSE "-inf"

(* A program that calls P: the sum of P(al x + be + ga r) over the uses, and *)
(* k |x - c| over lo <= x <= hi (or its opposite); r is a parameter.         *)
Arg(u, x, r) == [i \in 1..Len(u.al) |-> DAdd(DAdd(DMul(DOfInt(u.al[i]), x), DOfInt(u.be[i])), DMul(DOfInt(u.ga[i]), r))]
Whole(P, o, x, r, G) == DAdd(DSum([j \in 1..Len(o.uses) |-> Value(P, TLCEval(Arg(o.uses[j], x, r)), G)]), DMul(DOfInt(o.k), DAbs(DSub(x, DOfInt(o.c)))))
Kept(P, o, x, r, slack) == \A j \in 1..Len(o.uses) : Held(P, TLCEval(Arg(o.uses[j], x, r)), slack)
(* The points admitted: an interval.                                         *)
Limits(P, o, r) == UNION {{[al |-> P.caps[c].s * o.uses[j].al[P.caps[c].i],
                            be |-> DMul(DOfInt(P.caps[c].s), DSub(DOfInt(P.caps[c].d), DAdd(DOfInt(o.uses[j].be[P.caps[c].i]), DMul(DOfInt(o.uses[j].ga[P.caps[c].i]), r))))] :
                           c \in 1..Len(P.caps)} : j \in 1..Len(o.uses)}
Low(P, o, r) == DNeg(Least({DNeg(DOfInt(o.lo))} \cup {DDiv(l.be, DOfInt(0 - l.al)) : l \in {q \in Limits(P, o, r) : q.al < 0}}))
High(P, o, r) == Least({DOfInt(o.hi)} \cup {DDiv(l.be, DOfInt(l.al)) : l \in {q \in Limits(P, o, r) : q.al > 0}})
Barred(P, o, r) == \E l \in Limits(P, o, r) : l.al = 0 /\ DLt(l.be, "0")
Room(P, o, r) == IF Barred(P, o, r) THEN "-1" ELSE DSub(High(P, o, r), Low(P, o, r))
Grid(P, o, r) == LET L == Low(P, o, r) W == DSub(High(P, o, r), L) IN {DAdd(L, DMul(W, DDiv(DOfInt(j), "24"))) : j \in 0..24}
(* The grid brackets the optimum: the function is convex in x.               *)
Best(P, o, r, G) == Least({Whole(P, o, x, r, G) : x \in TLCEval(Grid(P, o, r))})
=============================================================================

------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* The expressions of the modeling language in pydsm.cvxpy_tdr: what an    *)
(* expression built out of variables, parameters, numbers, matrices and    *)
(* sparse matrices denotes.  Everything is affine in the leaves or a       *)
(* product by constants, and the leaves have small integer values, so the  *)
(* denotations are exact integers.                                         *)
(*                                                                         *)
(* An expression is a sequence: <<"x">> is a leaf, <<"add", a, b>> a sum.  *)
(* A denotation has a kind k, a shape m x n and entries e[i][j]; an entry  *)
(* has its value v[a] under each assignment a of the leaves, the leaves s  *)
(* it mentions (multiplying by the number 0 forgets them) and o, whether   *)
(* it is symbolic rather than a number.                                    *)
(*   num  a number             sca  a scalar object   arr  an array        *)
(*   mat  a numeric matrix     sp   a sparse matrix   spa  a sparse array  *)
(*   err  the operation makes no sense and must be refused                 *)
(*   any  may be refused, but if answered the answer must be right         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
As == 1..2
Num(c) == [v |-> [a \in As |-> c], s |-> {}, p |-> {}, o |-> FALSE]
Err == [k |-> "err", m |-> 0, n |-> 0, e |-> <<>>]
None == [k |-> "any", m |-> 0, n |-> 0, e |-> <<>>]
Mk(k, m, n, F(_, _)) == [k |-> k, m |-> m, n |-> n,
                         e |-> [i \in 1..m |-> [j \in 1..n |-> F(i, j)]]]
Sca(x) == [k |-> IF x.o THEN "sca" ELSE "num", m |-> 1, n |-> 1, e |-> <<<<x>>>>]
(* Leaves.                                                                 *)
Obj(name, v1, v2, isvar) == [v |-> <<v1, v2>>, s |-> IF isvar THEN {name} ELSE {},
                             p |-> IF isvar THEN {} ELSE {name}, o |-> TRUE]
Dig(i) == <<"0", "1", "2", "3">>[i]
Ent(name, i, j, isvar) ==
  Obj(name \o "[" \o Dig(i) \o "," \o Dig(j) \o "]",
      (CASE name = "X" -> 1 [] name = "S" -> 4 [] name = "L" -> 7 [] name = "U" -> 2 [] name = "V" -> -3
         [] name = "W" -> 5 [] name = "B" -> -6 [] OTHER -> 9) + 2 * i - 3 * j,
      (CASE name = "X" -> -2 [] name = "S" -> 3 [] name = "L" -> 1 [] name = "U" -> -7 [] name = "V" -> 8
         [] name = "W" -> -5 [] name = "B" -> 6 [] OTHER -> 11) - 5 * i + 4 * j, isvar)
Hi(i, j) == IF i < j THEN j ELSE i
Lo(i, j) == IF i < j THEN i ELSE j
MatV == <<<<1, -2>>, <<0, 3>>>>
MatN == <<<<2, 0, -1>>, <<4, 1, 0>>>>
MatC == <<<<3>>, <<-1>>>>
SpE == <<<<0, 3>>, <<0, -1>>>>
SpG == <<<<0, 2>>, <<5, 0>>, <<0, 0>>>>
Numbers == 0..6
NumVal(c) == <<0, 1, 2, -3, -1, 4, 10>>[c + 1]
LeafVal(e) ==
  CASE e[1] = "num" -> Sca(Num(NumVal(e[2])))
    [] e[1] = "x" -> Sca(Obj("x", 2, -1, TRUE))
    [] e[1] = "y" -> Sca(Obj("y", -3, 5, TRUE))
    [] e[1] = "p" -> Sca(Obj("p", 4, -2, FALSE))
    [] e[1] = "q" -> Sca(Obj("q", 3, 0, FALSE))
    [] e[1] = "X" -> Mk("arr", 2, 2, LAMBDA i, j : Ent("X", i, j, TRUE))
    [] e[1] = "S" -> Mk("arr", 2, 2, LAMBDA i, j : Ent("S", Hi(i, j), Lo(i, j), TRUE))
    [] e[1] = "L" -> Mk("arr", 2, 2, LAMBDA i, j : IF i >= j THEN Ent("L", i, j, TRUE) ELSE Num(0))
    [] e[1] = "U" -> Mk("arr", 2, 2, LAMBDA i, j : IF i <= j THEN Ent("U", i, j, TRUE) ELSE Num(0))
    [] e[1] = "V" -> Mk("arr", 2, 1, LAMBDA i, j : Ent("V", i, j, TRUE))
    [] e[1] = "W" -> Mk("arr", 1, 2, LAMBDA i, j : Ent("W", i, j, TRUE))
    [] e[1] = "B" -> Mk("arr", 2, 3, LAMBDA i, j : Ent("B", i, j, TRUE))
    [] e[1] = "P" -> Mk("arr", 2, 2, LAMBDA i, j : Ent("P", i, j, FALSE))
    [] e[1] = "M" -> Mk("mat", 2, 2, LAMBDA i, j : Num(MatV[i][j]))
    [] e[1] = "N" -> Mk("mat", 2, 3, LAMBDA i, j : Num(MatN[i][j]))
    [] e[1] = "C" -> Mk("mat", 2, 1, LAMBDA i, j : Num(MatC[i][j]))
    [] e[1] = "E" -> Mk("sp", 2, 2, LAMBDA i, j : Num(SpE[i][j]))
    [] e[1] = "G" -> Mk("sp", 3, 2, LAMBDA i, j : Num(SpG[i][j]))
Leaves == {"x", "y", "p", "q", "X", "S", "L", "U", "V", "W", "B", "P", "M", "N", "C", "E", "G"}
(* Entries.                                                                *)
IsNum0(x) == ~x.o /\ x.v[1] = 0
EAdd(x, y) == [v |-> [a \in As |-> x.v[a] + y.v[a]], s |-> x.s \cup y.s,
               p |-> x.p \cup y.p, o |-> x.o \/ y.o]
EMul(x, y) == IF IsNum0(x) \/ IsNum0(y) THEN Num(0)
              ELSE [v |-> [a \in As |-> x.v[a] * y.v[a]], s |-> x.s \cup y.s,
                    p |-> x.p \cup y.p, o |-> x.o \/ y.o]
EBad(x, y) == x.o /\ y.o /\ x.s # {} /\ y.s # {}
ENeg(x) == EMul(Num(-1), x)
(* Kinds.                                                                  *)
IsS(d) == d.k \in {"num", "sca"}
IsD(d) == d.k \in {"arr", "mat"}
IsZ(d) == d.k \in {"sp", "spa"}
Map(k, d, F(_)) == Mk(k, d.m, d.n, LAMBDA i, j : F(d.e[i][j]))
Re(d, k) == [d EXCEPT !.k = k]
Ill(d) == d.k = "err"
Void(d) == d.k = "any" /\ d.m = 0
SumKind(a, b) ==
  CASE IsS(a) /\ IsS(b) -> IF "sca" \in {a.k, b.k} THEN "sca" ELSE "num"
    [] IsS(a) /\ IsD(b) -> IF a.k = "num" THEN b.k ELSE "arr"
    [] IsD(a) /\ IsS(b) -> IF b.k = "num" THEN a.k ELSE "arr"
    [] IsD(a) /\ IsD(b) -> IF a.k = "mat" /\ b.k = "mat" THEN "mat" ELSE "arr"
    [] IsZ(a) /\ b.k = "arr" -> "arr"
    [] a.k = "arr" /\ IsZ(b) -> "arr"
    [] OTHER -> "any"
AddD(a, b) ==
  IF Ill(a) \/ Ill(b) THEN Err ELSE IF Void(a) \/ Void(b) THEN None
  ELSE LET k == SumKind(a, b)
       IN IF IsS(a) THEN Mk(k, b.m, b.n, LAMBDA i, j : EAdd(a.e[1][1], b.e[i][j]))
          ELSE IF IsS(b) THEN Mk(k, a.m, a.n, LAMBDA i, j : EAdd(a.e[i][j], b.e[1][1]))
          ELSE IF <<a.m, a.n>> = <<b.m, b.n>> THEN Mk(k, a.m, a.n, LAMBDA i, j : EAdd(a.e[i][j], b.e[i][j]))
          \* numpy stretches matrices and it is for it to say what fits
          ELSE IF k \in {"mat", "any"} THEN None ELSE Err
NegD(a) ==
  IF Ill(a) THEN Err ELSE IF Void(a) THEN None
  ELSE Map(IF IsZ(a) THEN "any" ELSE a.k, a, ENeg)
Dot(a, b, i, j) ==
  LET RECURSIVE G(_)
      G(k) == IF k = 0 THEN Num(0) ELSE EAdd(G(k - 1), EMul(a.e[i][k], b.e[k][j]))
  IN G(a.n)
DotBad(a, b) == \E i \in 1..a.m, j \in 1..b.n, k \in 1..a.n : EBad(a.e[i][k], b.e[k][j])
ScaleBad(x, d) == \E i \in 1..d.m, j \in 1..d.n : EBad(x, d.e[i][j])
ScaleKind(a, d) ==
  CASE d.k \in {"num", "sca"} -> "sca"
    [] d.k = "arr" -> "arr"
    [] d.k = "mat" -> IF a.k = "num" THEN "mat" ELSE "arr"
    [] d.k = "sp" -> IF a.k = "num" THEN "any" ELSE "spa"
    [] OTHER -> "any"
Scale(a, d) ==
  IF ScaleBad(a.e[1][1], d) THEN (IF ScaleKind(a, d) = "any" THEN None ELSE Err)
  ELSE IF IsS(d) THEN Sca(EMul(a.e[1][1], d.e[1][1]))
  ELSE Map(ScaleKind(a, d), d, LAMBDA x : EMul(a.e[1][1], x))
MulKind(a, b) ==
  CASE a.k = "mat" /\ b.k = "mat" -> "mat"
    [] IsD(a) /\ IsD(b) -> "arr"
    [] IsZ(a) /\ b.k = "arr" -> "arr"
    [] a.k = "arr" /\ IsZ(b) -> "arr"
    [] OTHER -> "any"
MulD(a, b) ==
  IF Ill(a) \/ Ill(b) THEN Err ELSE IF Void(a) \/ Void(b) THEN None
  ELSE IF IsS(a) THEN Scale(a, b) ELSE IF IsS(b) THEN Scale(b, a)
  ELSE LET k == MulKind(a, b)
       IN IF a.n # b.m \/ DotBad(a, b) THEN (IF k = "any" THEN None ELSE Err)
          ELSE LET r == Mk(k, a.m, b.n, LAMBDA i, j : Dot(a, b, i, j))
               IN IF k = "arr" /\ a.m = 1 /\ b.n = 1 THEN Sca(r.e[1][1]) ELSE r
TraD(a) ==
  IF Ill(a) THEN Err ELSE IF Void(a) THEN None
  ELSE Mk(IF a.k = "num" THEN "any" ELSE a.k, a.n, a.m, LAMBDA i, j : a.e[j][i])
DiffD(a, b) == AddD(a, Map(b.k, b, ENeg))
GetD(a, i, j) ==
  IF Ill(a) THEN Err ELSE IF Void(a) \/ IsS(a) THEN None
  ELSE IF i \notin 0..(a.m - 1) \/ j \notin 0..(a.n - 1)
    THEN (IF a.k \in {"arr", "spa"} \/ (i >= 0 /\ j >= 0 /\ a.k = "mat") THEN Err ELSE None)
  ELSE LET x == a.e[i + 1][j + 1]
       IN IF a.k \in {"arr", "mat", "spa"} THEN Sca(x) ELSE Re(Sca(x), "any")
(* Rows and columns: ranges lo..hi-1 with a step.                          *)
Rng(lo, hi, st) == {x \in lo..(hi - 1) : (x - lo) % st = 0}
RngSeq(lo, hi, st) == [k \in 1..Cardinality(Rng(lo, hi, st)) |-> lo + (k - 1) * st]
SliceD(a, r, c) ==
  IF Ill(a) THEN Err ELSE IF Void(a) \/ IsS(a) THEN None
  ELSE LET rs == RngSeq(r[1], r[2], r[3])
           cs == RngSeq(c[1], c[2], c[3])
       IN IF \E x \in 1..Len(rs) : rs[x] \notin 0..(a.m - 1) THEN (IF a.k \in {"arr", "spa"} THEN Err ELSE None)
          ELSE IF \E x \in 1..Len(cs) : cs[x] \notin 0..(a.n - 1) THEN (IF a.k \in {"arr", "spa"} THEN Err ELSE None)
          ELSE LET d == Mk(IF a.k = "sp" THEN "any" ELSE a.k, Len(rs), Len(cs),
                           LAMBDA i, j : a.e[rs[i] + 1][cs[j] + 1])
               IN IF a.k \in {"arr", "spa"} /\ d.m = 1 /\ d.n = 1 THEN Sca(d.e[1][1]) ELSE d
StackKind(a, b) == IF {a.k, b.k} \cap {"sp", "spa", "any"} # {} THEN "any"
                   ELSE IF {a.k, b.k} \subseteq {"num", "mat"} THEN "mat" ELSE "arr"
HstD(a, b) ==
  IF Ill(a) \/ Ill(b) THEN Err ELSE IF Void(a) \/ Void(b) THEN None
  ELSE IF a.m # b.m THEN (IF StackKind(a, b) = "any" THEN None ELSE Err)
  ELSE Mk(StackKind(a, b), a.m, a.n + b.n, LAMBDA i, j : IF j <= a.n THEN a.e[i][j] ELSE b.e[i][j - a.n])
VstD(a, b) ==
  IF Ill(a) \/ Ill(b) THEN Err ELSE IF Void(a) \/ Void(b) THEN None
  ELSE IF a.n # b.n THEN (IF StackKind(a, b) = "any" THEN None ELSE Err)
  ELSE Mk(StackKind(a, b), a.m + b.m, a.n, LAMBDA i, j : IF i <= a.m THEN a.e[i][j] ELSE b.e[i - a.m][j])
Total(d) ==
  LET RECURSIVE G(_)
      G(k) == IF k = 0 THEN Num(0)
              ELSE EAdd(G(k - 1), d.e[((k - 1) \div d.n) + 1][((k - 1) % d.n) + 1])
  IN G(d.m * d.n)
SumD(a) == IF Ill(a) THEN Err ELSE IF Void(a) THEN None ELSE IF IsS(a) THEN a
           ELSE IF IsD(a) THEN Sca(Total(a)) ELSE Re(Sca(Total(a)), "any")
DiagD(a) ==
  IF Ill(a) THEN Err ELSE IF Void(a) THEN None ELSE IF IsS(a) THEN a
  ELSE LET k == IF IsD(a) THEN a.k ELSE "any"
       IN IF a.m = 1 THEN Mk(k, a.n, a.n, LAMBDA i, j : IF i = j THEN a.e[1][i] ELSE Num(0))
          ELSE IF a.n = 1 THEN Mk(k, a.m, a.m, LAMBDA i, j : IF i = j THEN a.e[i][1] ELSE Num(0))
          ELSE IF a.m # a.n THEN (IF k = "any" THEN None ELSE Err)
          ELSE Mk(k, a.m, 1, LAMBDA i, j : a.e[i][i])
TrcD(a) ==
  IF Ill(a) THEN Err ELSE IF Void(a) THEN None ELSE IF IsS(a) THEN a
  ELSE IF a.m # a.n THEN (IF IsD(a) THEN Err ELSE None)
  ELSE LET t == Total(Mk(a.k, a.m, 1, LAMBDA i, j : a.e[i][i]))
       IN IF IsD(a) THEN Sca(t) ELSE Re(Sca(t), "any")
RshD(a, m, n) ==
  IF Ill(a) THEN Err ELSE IF Void(a) \/ IsS(a) THEN None
  ELSE IF m * n # a.m * a.n THEN (IF IsD(a) THEN Err ELSE None)
  ELSE Mk(IF IsD(a) THEN a.k ELSE "any", m, n, LAMBDA i, j :
          LET k == (j - 1) * m + i - 1 IN a.e[(k % a.m) + 1][(k \div a.m) + 1])
RECURSIVE Den(_)
Den(e) ==
  CASE e[1] = "add" -> AddD(Den(e[2]), Den(e[3]))
    [] e[1] = "sub" -> DiffD(Den(e[2]), Den(e[3]))
    [] e[1] = "mul" -> MulD(Den(e[2]), Den(e[3]))
    [] e[1] = "neg" -> NegD(Den(e[2]))
    [] e[1] = "T" -> TraD(Den(e[2]))
    [] e[1] = "get" -> GetD(Den(e[2]), e[3], e[4])
    [] e[1] = "slice" -> SliceD(Den(e[2]), e[3], e[4])
    [] e[1] = "hstack" -> HstD(Den(e[2]), Den(e[3]))
    [] e[1] = "vstack" -> VstD(Den(e[2]), Den(e[3]))
    [] e[1] = "sum" -> SumD(Den(e[2]))
    [] e[1] = "diag" -> DiagD(Den(e[2]))
    [] e[1] = "trace" -> TrcD(Den(e[2]))
    [] e[1] = "reshape" -> RshD(Den(e[2]), e[3], e[4])
    [] OTHER -> LeafVal(e)
Flat(d, a) == [k \in 1..(d.m * d.n) |-> d.e[((k - 1) \div d.n) + 1][((k - 1) % d.n) + 1].v[a]]
AllOf(d, F(_)) == UNION {F(d.e[i][j]) : i \in 1..d.m, j \in 1..d.n}
Vars(d) == AllOf(d, LAMBDA x : x.s)
Pars(d) == AllOf(d, LAMBDA x : x.p)
(* Comparisons: a constraint for each entry, with the two sides.           *)
Relations == {"equals", "leq", "geq"}
CmpShape(a, b) == IF IsS(a) THEN <<b.m, b.n>> ELSE <<a.m, a.n>>
CmpOk(a, b) == IsS(a) \/ IsS(b) \/ <<a.m, a.n>> = <<b.m, b.n>>
Side(a, sh, x) == LET n == sh[1] * sh[2]
                  IN IF IsS(a) THEN [k \in 1..n |-> a.e[1][1].v[x]] ELSE Flat(a, x)
(* Parameters: an attribute restricts the values that can be assigned;     *)
(* changing it forgets a value it rules out.                               *)
Attrs == {"none", "nonnegative", "nonpositive"}
Admits(t, v) == v = "nan" \/ t = "none" \/ (t = "nonnegative" /\ v # "neg") \/ (t = "nonpositive" /\ v # "pos")
SetValue(st, v) == IF Admits(st.attr, v) THEN [st EXCEPT !.val = v] ELSE st
SetAttr(st, t) == IF t \notin Attrs THEN st ELSE [attr |-> t, val |-> IF Admits(t, st.val) THEN st.val ELSE "nan"]
(* Sparse arrays: assignments, one after the other, to the entries.        *)
Put(z, i, j, v) == [z EXCEPT ![<<i, j>>] = v]
Stored(z) == {ij \in DOMAIN z : z[ij] # "zero"}
=============================================================================

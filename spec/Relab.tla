------------------------------- MODULE Relab -------------------------------
(***************************************************************************)
(* The elementary services: quantizer function, complex pairing, axis      *)
(* shifts, padding, partition of state-space matrices, decibels, spacing of *)
(* floating point numbers, rms, chopping, chained products.                 *)
(* Arrays are flat row-major sequences plus a shape.                        *)
(***************************************************************************)
EXTENDS Modulator, FiniteSets

(* ---- arrays ---------------------------------------------------------- *)
RECURSIVE SizeOf(_)
SizeOf(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * SizeOf(Tail(sh))
(* Multi-index (0-based) of the flat index f (0-based), and back. *)
Unrav(sh, f) == [d \in 1..Len(sh) |->
                   (f \div SizeOf(SubSeq(sh, d + 1, Len(sh)))) % sh[d]]
RECURSIVE Rav(_, _)
Rav(sh, mi) == IF sh = <<>> THEN 0
               ELSE mi[1] * SizeOf(Tail(sh)) + Rav(Tail(sh), Tail(mi))
ArrOK(a) == Len(a.v) = SizeOf(a.sh)
FirstBig(sh) == IF \E d \in 1..Len(sh) : sh[d] # 1
                THEN CHOOSE d \in 1..Len(sh) : sh[d] # 1 /\
                       \A e \in 1..(d - 1) : sh[e] = 1
                ELSE 1

(* ---- quantizer function ---------------------------------------------- *)
(* n: number of levels per quantizer; y has one row per quantizer.          *)
QuantizeOK(y, n, v) ==
  LET per == Len(y.v) \div Len(n)
  IN /\ v.sh = y.sh
     /\ Len(v.v) = Len(y.v)
     /\ \A k \in 1..Len(y.v) : QuantOK(y.v[k], n[((k - 1) \div per) + 1], v.v[k])

(* ---- complex pairs ---------------------------------------------------- *)
NearC(a, b, t) == /\ DLe(DAbs(DSub(a[1], b[1])), t)
                  /\ DLe(DAbs(DSub(a[2], b[2])), t)
Realish(z, tol) == DLe(DAbs(z[2]), DMul(tol, CAbs(z)))
PosC(z, tol) == ~Realish(z, tol) /\ DLt("0", z[2])
NegC(z, tol) == ~Realish(z, tol) /\ DLt(z[2], "0")
(* Can the values be grouped in conjugate pairs?  Meant for values that are *)
(* either much closer or much further than the tolerance.                   *)
Pairable(x, tol) ==
  LET up == {k \in 1..Len(x) : PosC(x[k], tol)}
      dn == {k \in 1..Len(x) : NegC(x[k], tol)}
      Same(v, set, cj) == Cardinality({k \in set :
            NearC(IF cj THEN CConj(x[k]) ELSE x[k], v, DMul(tol, CAbs(v)))})
  IN /\ \A k \in up : Same(x[k], up, FALSE) = Same(x[k], dn, TRUE)
     /\ \A k \in dn : Same(CConj(x[k]), up, FALSE) = Same(CConj(x[k]), dn, TRUE)
(* Is y an acceptable arrangement of x? *)
Arranged(x, y, tol) ==
  LET up == {k \in 1..Len(x) : PosC(x[k], tol)}
      np == Cardinality(up)
      Rad(v) == DMul(DMul("2", tol), CAbs(v))
      Around(s, v) == Cardinality({k \in 1..Len(s) : NearC(s[k], v, Rad(v))})
  IN /\ Len(y) = Len(x)
     /\ \A k \in 1..Len(y) : CIsNum(y[k])
     /\ \A k \in 1..np : /\ DLt(y[2 * k - 1][2], "0")
                         /\ CEq(y[2 * k], CConj(y[2 * k - 1]))
                         /\ k < np => DLe(y[2 * k][1], DAdd(y[2 * k + 2][1], Rad(y[2 * k])))
     /\ \A k \in (2 * np + 1)..Len(y) :
          /\ DEq(y[k][2], "0")
          /\ \E j \in 1..Len(x) : Realish(x[j], tol) /\ DEq(x[j][1], y[k][1])
          /\ k < Len(y) => DLe(y[k][1], y[k + 1][1])
     /\ \A k \in 1..Len(y) : Around(x, y[k]) = Around(y, y[k])

Slice(v, sh, d, others) ==
  [k \in 1..sh[d] |-> v[Rav(sh, [others EXCEPT ![d] = k - 1]) + 1]]
PairOutcome(e) ==
  LET sh == IF e.x.sh = <<>> THEN <<1>> ELSE e.x.sh
      d == IF e.dim = <<>> THEN FirstBig(sh)
           ELSE IF e.dim[1] >= 0 THEN e.dim[1] + 1 ELSE Len(sh) + e.dim[1] + 1
      rows == {[Unrav(sh, f) EXCEPT ![d] = 0] : f \in 0..(SizeOf(sh) - 1)}
      good == \A o \in rows : Pairable(Slice(e.x.v, sh, d, o), e.tol)
  IN IF good
     THEN IF e.exc # "" THEN "pairable-rejected"
          ELSE IF e.y.sh # sh \/ Len(e.y.v) # SizeOf(sh) THEN "pair-shape"
          ELSE IF \A o \in rows : Arranged(Slice(e.x.v, sh, d, o),
                                           Slice(e.y.v, sh, d, o), e.tol)
               THEN "ok" ELSE "pair-order"
     ELSE IF e.exc = "ValueError" THEN "ok" ELSE "unpairable-accepted"

(* Canonical arrangement of exact values (model only). *)
LexLe(a, b) == DLt(a[1], b[1]) \/ (DEq(a[1], b[1]) /\ DLe(a[2], b[2]))
RECURSIVE Insert(_, _)
Insert(s, z) == IF s = <<>> THEN <<z>>
                ELSE IF LexLe(z, Head(s)) THEN <<z>> \o s
                ELSE <<Head(s)>> \o Insert(Tail(s), z)
RECURSIVE SortC(_)
SortC(s) == IF s = <<>> THEN <<>> ELSE Insert(SortC(Tail(s)), Head(s))
Canon(x) ==
  LET up == SortC(SelectSeq(x, LAMBDA z : DLt("0", z[2])))
      re == SortC(SelectSeq(x, LAMBDA z : DEq(z[2], "0")))
  IN [k \in 1..(2 * Len(up)) |-> IF k % 2 = 1 THEN CConj(up[(k + 1) \div 2])
                                 ELSE up[k \div 2]] \o re

(* ---- axis shifts ------------------------------------------------------ *)
(* Requested shift: <<>> (automatic) or <<n>>.  Result: shape, shift, and    *)
(* for each flat output index the flat input index.                          *)
Lead(sh) == FirstBig(sh) - 1
ShiftBy(sh, req) ==
  LET n0 == IF req = <<>> THEN Lead(sh) ELSE req[1]
  IN IF n0 > 0 /\ Len(sh) > 0 THEN n0 % Len(sh) ELSE n0
Rot(s, n) == [k \in 1..Len(s) |-> s[((k - 1 + n) % Len(s)) + 1]]
ShiftShape(sh, req) ==
  LET n == ShiftBy(sh, req)
  IN IF n > 0 THEN IF n <= Lead(sh) THEN SubSeq(sh, n + 1, Len(sh)) ELSE Rot(sh, n)
     ELSE IF n < 0 THEN [k \in 1..(-n) |-> 1] \o sh
     ELSE sh
ShiftSrc(sh, req, f) ==
  LET n == ShiftBy(sh, req)
      osh == ShiftShape(sh, req)
      mi == Unrav(osh, f)
  IN IF n > Lead(sh) /\ n > 0
     THEN Rav(sh, [d \in 1..Len(sh) |-> mi[((d - 1 - n + Len(sh)) % Len(sh)) + 1]])
     ELSE f
ShiftOK(x, req, y, n) ==
  /\ y.sh = ShiftShape(x.sh, req)
  /\ n = ShiftBy(x.sh, req)
  /\ Len(y.v) = Len(x.v)
  /\ \A f \in 0..(Len(x.v) - 1) : DEq(y.v[f + 1], x.v[ShiftSrc(x.sh, req, f) + 1])

(* ---- padding ----------------------------------------------------------- *)
PadShape(sh, side, n) ==
  IF Len(sh) = 1 THEN <<n>>
  ELSE IF side \in {"l", "r"} THEN <<sh[1], n>> ELSE <<n, sh[2]>>
PadAt(x, side, n, val, f) ==
  LET osh == PadShape(x.sh, side, n)
      mi == Unrav(osh, f)
      ax == IF Len(x.sh) = 1 \/ side \in {"t", "b"} THEN 1 ELSE 2
      k == mi[ax]
      sz == x.sh[ax]
      src == IF side \in {"l", "t"} THEN k - (n - sz) ELSE k
  IN IF src < 0 \/ src >= sz THEN val
     ELSE x.v[Rav(x.sh, [mi EXCEPT ![ax] = src]) + 1]
PadOK(x, side, n, val, y) ==
  /\ y.sh = PadShape(x.sh, side, n)
  /\ Len(y.v) = SizeOf(y.sh)
  /\ \A f \in 0..(SizeOf(y.sh) - 1) : CEq(y.v[f + 1], PadAt(x, side, n, val, f))

(* ---- partition of ABCD -------------------------------------------------- *)
(* m: <<>> or <<number of inputs>>. *)
PartN(sh, m) == IF m = <<>> THEN (IF sh[1] < sh[2] THEN sh[1] ELSE sh[2]) - 1
                ELSE sh[2] - m[1]
Block(M, r0, r1, c0, c1) ==   \* rows r0+1..r1, columns c0+1..c1
  [sh |-> <<r1 - r0, c1 - c0>>,
   v |-> [f \in 1..((r1 - r0) * (c1 - c0)) |->
            M.v[(r0 + (f - 1) \div (c1 - c0)) * M.sh[2] + c0 + ((f - 1) % (c1 - c0)) + 1]]]
SameArr(a, b) == a.sh = b.sh /\ VEq(a.v, b.v)
PartOK(M, m, p) ==
  LET n == PartN(M.sh, m)
  IN /\ Len(p) = 4
     /\ SameArr(p[1], Block(M, 0, n, 0, n))
     /\ SameArr(p[2], Block(M, 0, n, n, M.sh[2]))
     /\ SameArr(p[3], Block(M, n, M.sh[1], 0, n))
     /\ SameArr(p[4], Block(M, n, M.sh[1], n, M.sh[2]))

(* ---- decibels ------------------------------------------------------------ *)
Ln10 == DLn("10")
Log10(x) == DDiv(DLn(x), Ln10)
Pow10(x) == DExp(DMul(x, Ln10))
DbScaled(k, x) == IF DEq(x, "0") THEN "-inf" ELSE DMul(k, Log10(x))
(* x is the magnitude of the argument *)
DbOf(f, x, R) ==
  IF f \in {"dbv"} THEN DbScaled("20", x)
  ELSE IF f \in {"dbp", "db-power"} THEN DbScaled("10", x)
  ELSE IF f = "dbm" THEN (IF DEq(x, "0") THEN "-inf"
                          ELSE DAdd("30", DMul("10", Log10(DDiv(DMul(x, x), R)))))
  ELSE \* db, voltage
       (IF DEq(x, "0") THEN "-inf" ELSE DMul("10", Log10(DDiv(DMul(x, x), R))))
UnDb(f, x, R) ==
  IF f = "undbv" THEN Pow10(DDiv(x, "20"))
  ELSE IF f = "undbp" THEN Pow10(DDiv(x, "10"))
  ELSE DSqrt(DMul(R, Pow10(DDiv(DSub(x, "30"), "10"))))
RelClose(a, b, rel) == IF b \in {"-inf", "inf"} THEN a = b
                       ELSE DClose(a, b, DMul(rel, DAdd("1", DAbs(b))))
RelClose0(a, b, rel) == DClose(a, b, DMul(rel, DAbs(b)))

(* ---- spacing of floating point numbers ------------------------------------ *)
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN "1" ELSE IF n > 0 THEN DMul("2", P2(n - 1)) ELSE DMul("0.5", P2(n + 1))
(* e is the distance from |x| to the next number of a format with p bits.   *)
SpacingOK(x, e, p) ==
  LET a == DAbs(x)
  IN /\ DLe(DMul(P2(p - 1), e), a) /\ DLt(a, DMul(P2(p), e))
     /\ \E n \in -160..40 : DEq(e, P2(n))

(* ---- rms, chopping, products ----------------------------------------------- *)
SumSq(x) == DSum([k \in 1..Len(x) |-> CAbs2(x[k])])
CMean(x) == <<DDiv(DSum([k \in 1..Len(x) |-> x[k][1]]), DOfInt(Len(x))),
              DDiv(DSum([k \in 1..Len(x) |-> x[k][2]]), DOfInt(Len(x)))>>
RmsOf(x, nodc) ==
  LET c == IF nodc THEN CMean(x) ELSE CZ
      y == [k \in 1..Len(x) |-> CSub(x[k], c)]
  IN DSqrt(DDiv(SumSq(y), DOfInt(Len(x))))
Chop1(a, tol) == IF DLt(DAbs(a), tol) THEN "0" ELSE a
MatMul(a, b) ==   \* arrays of rank 2
  [sh |-> <<a.sh[1], b.sh[2]>>,
   v |-> [f \in 1..(a.sh[1] * b.sh[2]) |->
            LET r == (f - 1) \div b.sh[2]
                c == (f - 1) % b.sh[2]
            IN DSum([k \in 1..a.sh[2] |-> DMul(a.v[r * a.sh[2] + k],
                                               b.v[(k - 1) * b.sh[2] + c + 1])])]]
RECURSIVE MatChain(_)
MatChain(s) == IF Len(s) = 1 THEN s[1]
               ELSE MatChain(<<MatMul(s[1], s[2])>> \o SubSeq(s, 3, Len(s)))
=============================================================================

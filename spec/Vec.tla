-------------------------------- MODULE Vec --------------------------------
(* Vectors, matrices, complex numbers and polynomials over Dec decimals.   *)
EXTENDS Dec, Integers, Sequences
(* TLCEval: TLC keeps functions unevaluated, and would evaluate their      *)
(* entries again at every use.                                             *)
LOCAL INSTANCE TLC

RECURSIVE SeqSumInt(_)
SeqSumInt(s) == IF s = <<>> THEN 0 ELSE Head(s) + SeqSumInt(Tail(s))

VZero(n) == [j \in 1..n |-> "0"]
VAdd(a, b) == TLCEval([j \in 1..Len(a) |-> DAdd(a[j], b[j])])
VSub(a, b) == TLCEval([j \in 1..Len(a) |-> DSub(a[j], b[j])])
VScale(k, a) == TLCEval([j \in 1..Len(a) |-> DMul(k, a[j])])
MatVec(m, v) == TLCEval([r \in 1..Len(m) |-> DDot(m[r], v)])
IsVec(s, n) == Len(s) = n /\ \A j \in 1..n : DIsNum(s[j])
VEq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : DEq(a[j], b[j])
Rev(s) == TLCEval([j \in 1..Len(s) |-> s[Len(s) + 1 - j]])

(* Complex numbers are pairs <<re, im>>. *)
CZ == <<"0", "0">>
COne == <<"1", "0">>
CAdd(a, b) == <<DAdd(a[1], b[1]), DAdd(a[2], b[2])>>
CSub(a, b) == <<DSub(a[1], b[1]), DSub(a[2], b[2])>>
CMul(a, b) == <<DSub(DMul(a[1], b[1]), DMul(a[2], b[2])),
                DAdd(DMul(a[1], b[2]), DMul(a[2], b[1]))>>
CConj(a) == <<a[1], DNeg(a[2])>>
CAbs2(a) == DAdd(DMul(a[1], a[1]), DMul(a[2], a[2]))
CAbs(a) == DSqrt(CAbs2(a))
CDiv(a, b) == LET d == CAbs2(b)
                  n == CMul(a, CConj(b))
              IN <<DDiv(n[1], d), DDiv(n[2], d)>>
CRnd(a, n) == <<DRound(a[1], n), DRound(a[2], n)>>
CScale(k, a) == <<DMul(k, a[1]), DMul(k, a[2])>>
CCis(f) == <<DCos2Pi(f), DSin2Pi(f)>>
CIsNum(a) == Len(a) = 2 /\ DIsNum(a[1]) /\ DIsNum(a[2])
CClose(a, b, tol) == DLe(CAbs2(CSub(a, b)), DMul(tol, tol))
CEq(a, b) == DEq(a[1], b[1]) /\ DEq(a[2], b[2])

(* Product of (z - r) over a sequence of complex roots. *)
RECURSIVE CProdFrom(_, _, _, _)
CProdFrom(rts, z, j, acc) ==
  IF j > Len(rts) THEN acc
  ELSE CProdFrom(rts, z, j + 1, TLCEval(CRnd(CMul(acc, CSub(z, rts[j])), 50)))
CProd(rts, z) == CProdFrom(rts, z, 1, COne)

(* Coefficients (highest power first) of the monic polynomial with given   *)
(* complex roots; result is a sequence of complex numbers.                  *)
RECURSIVE CPolyFrom(_, _, _)
CPolyFrom(rts, j, acc) ==
  IF j > Len(rts) THEN acc
  ELSE CPolyFrom(rts, j + 1,
         TLCEval([k \in 1..(Len(acc) + 1) |->
            CRnd(CSub(IF k <= Len(acc) THEN acc[k] ELSE CZ,
                 IF k > 1 THEN CMul(rts[j], acc[k - 1]) ELSE CZ), 50)]))
CPoly(rts) == CPolyFrom(rts, 1, <<COne>>)

(* Horner evaluation of a polynomial with complex coefficients.             *)
RECURSIVE CHornerFrom(_, _, _, _)
CHornerFrom(c, z, j, acc) ==
  IF j > Len(c) THEN acc
  ELSE CHornerFrom(c, z, j + 1, TLCEval(CRnd(CAdd(CMul(acc, z), c[j]), 50)))
CHorner(c, z) == CHornerFrom(c, z, 1, CZ)

RECURSIVE DPowFrom(_, _, _)
DPowFrom(a, n, acc) == IF n = 0 THEN acc
                       ELSE DPowFrom(a, n - 1, DRound(DMul(acc, a), 50))
DPow(a, n) == DPowFrom(a, n, "1")

Bool(b) == b   \* documentation only
=============================================================================

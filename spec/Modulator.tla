----------------------------- MODULE Modulator -----------------------------
(***************************************************************************)
(* The discrete-time Delta-Sigma modulator.                                *)
(*                                                                         *)
(* Structure m (a record): order, nu, nq, A, B, C, D, nlev.  B has nu+nq   *)
(* columns (inputs first, then quantizer outputs).  One clock cycle:       *)
(*        y  = C x + D u            quantizer inputs                       *)
(*        v  = Q(y)                 quantizer outputs                      *)
(*        x' = A x + B [u; v]       next state                             *)
(***************************************************************************)
EXTENDS Vec

(* Quantizer with n levels, step 2: mid-rise (odd outputs) for even n,     *)
(* mid-tread (even outputs) for odd n, saturating at +/-(n-1).             *)
Quant(y, n) ==
  LET half == "0.5"
      raw == IF n % 2 = 0
             THEN DAdd(DMul("2", DFloor(DMul(half, y))), "1")
             ELSE DMul("2", DFloor(DMul(half, DAdd(y, "1"))))
      top == DOfInt(n - 1)
  IN DMax(DNeg(top), DMin(raw, top))

QuantVec(m, y) == [q \in 1..m.nq |-> Quant(y[q], m.nlev[q])]

(* All the values a quantizer with n levels can deliver. *)
Levels(n) == {DOfInt(2 * k - (n - 1)) : k \in 0..(n - 1)}

OutY(m, x, u) == [q \in 1..m.nq |-> DAdd(DDot(m.C[q], x), DDot(m.D[q], u))]
NextX(m, x, u, v) ==
  [r \in 1..m.order |-> DAdd(DDot(m.A[r], x), DDot(m.B[r], u \o v))]

(* Magnitude of the terms of the two sums: scale for rounding errors.      *)
ScaleY(m, x, u) == [q \in 1..m.nq |-> DAdd(DAbsDot(m.C[q], x), DAbsDot(m.D[q], u))]
ScaleX(m, x, u, v) ==
  [r \in 1..m.order |-> DAdd(DAbsDot(m.A[r], x), DAbsDot(m.B[r], u \o v))]

(* Is the decimal a multiple of 2^-20 of moderate size?  For such values   *)
(* the floating point quantizer has no rounding at all.                     *)
Coarse(y) == LET t == DMul(y, "1048576") IN DEq(t, DFloor(t))
             /\ DLt(DAbs(y), "1000000")

(* Outputs allowed for the (recorded) quantizer input y: exact, unless y   *)
(* is within rounding distance of a decision threshold.                     *)
QuantOK(y, n, v) ==
  \/ DEq(v, Quant(y, n))
  \/ /\ ~Coarse(y)
     /\ LET d == DMul("1e-15", DAdd("1", DAbs(y)))
        IN DEq(v, Quant(DAdd(y, d), n)) \/ DEq(v, Quant(DSub(y, d), n))

TolRel == "1e-12"
NearVec(a, b, scale) ==
  \A j \in 1..Len(a) : DClose(a[j], b[j], DMul(TolRel, scale[j]))

(* Whole trajectory, as used by the bounded model. *)
StepRec(m, x, u) ==
  LET y == OutY(m, x, u)
      v == QuantVec(m, y)
  IN [u |-> u, y |-> y, v |-> v, x |-> NextX(m, x, u, v)]
=============================================================================

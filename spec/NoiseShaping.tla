---------------------------- MODULE NoiseShaping ----------------------------
(***************************************************************************)
(* Modulator specified by its noise transfer function H = N(z)/P(z) (monic *)
(* numerator and denominator of the same degree), unit signal transfer      *)
(* function:   P(z) (v - u) = N(z) (v - y),   v = Q(y).                     *)
(***************************************************************************)
EXTENDS Modulator

(* Real polynomial with given (conjugate closed) complex roots. *)
RealPoly(rts) == LET c == CPoly(rts) IN [k \in 1..Len(c) |-> c[k][1]]

(* State: previous w = v - u and d = y - u, most recent first (length order). *)
(* d_n = sum_{k>=1} (n_k - p_k) w_{n-k} - n_k d_{n-k}                        *)
(* obtained from P w = N (w - d).                                            *)
PredictD(num, den, w, d) ==
  LET q == Len(w)
  IN DSub(DSum([k \in 1..q |-> DMul(DSub(num[k + 1], den[k + 1]), w[k])]),
          DSum([k \in 1..q |-> DMul(num[k + 1], d[k])]))
ScaleD(num, den, w, d) ==
  LET q == Len(w)
  IN DAdd("1", DAdd(DSum([k \in 1..q |-> DAbs(DMul(num[k + 1], w[k]))]),
             DAdd(DSum([k \in 1..q |-> DAbs(DMul(den[k + 1], w[k]))]),
                  DSum([k \in 1..q |-> DAbs(DMul(num[k + 1], d[k]))]))))
Push(s, a) == IF Len(s) = 0 THEN s ELSE <<a>> \o SubSeq(s, 1, Len(s) - 1)
=============================================================================

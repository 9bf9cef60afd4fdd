------------------------------- MODULE MC_Ntf -------------------------------
(* Requests to the NTF designers, by class; a driver chooses the numbers.    *)
EXTENDS Ntf, TLC, Json
CONSTANTS Part, K
VARIABLE r
F0s == {"zero", "low", "edge", "band", "quarter", "high", "half", "over"}
Init ==
  CASE Part = "zeros" -> r \in [n : 1..(14 + K), opt : 0..2]
    [] Part = "schreier" ->
         r \in [order : 1..K, f0 : F0s, opt : 0..6, hinf : {"low", "mid", "high", "huge"},
                useopt : BOOLEAN]
         /\ (~r.useopt => r.opt \notin {3, 4})
         /\ (r.opt \in {3, 4} => r.hinf \in {"low", "mid"} /\ r.f0 # "half")
         /\ (r.f0 \in {"low", "over", "edge"} => r.hinf = "mid")
         /\ (r.opt = 6 => r.hinf = "mid")
    [] Part = "cheby" -> r \in [order : 1..K, f0 : {"zero", "band", "quarter", "high"},
                                hinf : {"low", "mid", "high"}]
    [] Part = "clans" -> r \in [order : 1..K, opt : 0..2, nq : {1, 3, 7}, rmax : {"tight", "loose"}]
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
EmitInv == PrintT("SCEN" \o ToJson(r))
(* The polynomial whose roots are the optimal zeros is orthogonal to those   *)
(* of lower degree, and changes sign in (0, 1) as many times as its degree.  *)
Grid == 200
OrthInv == Part = "zeros" /\ r.opt > 0 /\ r.n <= 14 =>
  LET j == FixedZeros(r.n, r.opt)
      m == Deg(r.n, r.opt)
      q == Orth(m, j)
      s == TLCEval([k \in 0..Grid |-> DLt("0", PEval(q, DDiv(DOfInt(k), DOfInt(Grid))))])
  IN /\ \A k \in 0..(m - 1) :
          DClose(PInner(q, [i \in 1..(k + 1) |-> IF i = k + 1 THEN "1" ELSE "0"], j), "0", "1e-25")
     /\ Cardinality({k \in 1..Grid : s[k] # s[k - 1]}) = m
(* Chebyshev polynomials: T_n(cos a) = cos(n a). *)
ChebInv == Part = "cheby" =>
  \A k \in 1..7 : DClose(ChebT(r.order, DCos2Pi(DDiv(DOfInt(k), "17"))),
                         DCos2Pi(DDiv(DOfInt(k * r.order), "17")), "1e-25")
=============================================================================

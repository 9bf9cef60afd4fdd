------------------------------- MODULE MC_Fir -------------------------------
(* Requests to the optimizing designers, by class (a driver chooses the      *)
(* numbers), and soundness of the bounds on small instances.                 *)
EXTENDS Fir, TLC, Json
CONSTANTS Part, K
VARIABLE r
Vals == {"-1", "-0.5", "0.5", "1.25"}
Init ==
  CASE Part = "weighted" ->
         r \in [order : 1..K, w : {"q0", "steps", "filter"}, hinf : {"low", "mid", "high"},
                poles : 0..2, norm : {"auto", "none", "real"}]
         /\ (r.poles > 0 => r.w = "filter" /\ r.hinf # "high" /\ r.poles <= r.order)
         /\ (r.norm # "auto" => r.hinf = "mid")
    [] Part = "minmax" ->
         r \in [order : 1..K, bands : {"lp", "bp", "quarter", "half", "two", "lpbp"},
                hinf : {"low", "mid", "high", "inf"}, zf : BOOLEAN]
         /\ (r.hinf = "inf" => r.order <= 4)
         /\ (r.bands \in {"two", "lpbp"} => r.order > 1)
    [] Part = "audio" ->
         r \in [order : {1, 2, 5, K}, aw : WNames \cup {"steps"}, hinf : {"low", "mid"}, fn : BOOLEAN]
    [] Part = "sound" ->
         r \in [q : {<<"1", "0.5", "0.25">>, <<"1", "-0.5", "0.75">>, <<"2", "0", "0">>},
                x1 : Vals, x2 : Vals \cup {"0"}, y1 : {"0", "-0.5"}, y2 : {"0", "0.5"},
                la : {"0", "0.125", "2"}, f1 : {"0.5"} \cup (IF K > 4 THEN {"0.15"} ELSE {}),
                s : {"-0.5"} \cup (IF K > 4 THEN {"0.25"} ELSE {}), H : {"2", "3.1"}]
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
EmitInv == Part # "sound" => PrintT("SCEN" \o ToJson(r))
(* Largest |X|^2 over all the frequencies, closed form for order 2:          *)
(* r0 + 2 r1 c + 2 r2 (2 c^2 - 1), c in [-1, 1].                             *)
Peak2(rx) ==
  LET g(c) == DAdd(rx[1], DAdd(DMul(DMul("2", rx[2]), c), DMul(DMul("2", rx[3]), DSub(DMul("2", Sq(c)), "1"))))
      c0 == IF DEq(rx[3], "0") THEN "1" ELSE DDiv(DNeg(rx[2]), DMul("4", rx[3]))
  IN DMax(DMax(g("1"), g("-1")), IF DLe(DAbs(c0), "1") THEN g(c0) ELSE "0")
X == <<"1", r.x1, r.x2>>
Hint == [la |-> <<r.la, "0.25">>, fa |-> <<r.f1, "0.3">>, nu |-> <<>>, fn |-> <<>>, s |-> <<>>,
         y |-> <<"1", r.y1, r.y2>>]
Feasible == DLe(Peak2(Auto(X)), Sq(r.H))
(* The gain computed from the autocorrelation is the gain.                   *)
GainInv == Part = "sound" =>
  \A k \in 0..4 : LET f == DDiv(DOfInt(k), "8")
    IN DClose(Gain2(Auto(X), f), CAbs2(CHorner(RealC(X), CCis(f))), "1e-20")
WeakInv == Part = "sound" /\ Feasible =>
  DLe(WBound(r.q, <<"1">>, r.H, Hint), DAdd(Quad(X, r.q), "1e-25"))
(* Same over a band, for functions with a zero at dc (x1 + x2 = -1).         *)
MinmaxInv == Part = "sound" =>
  LET x == <<"1", r.x1, DSub("-1", r.x1)>>
      b == <<<<"0", "0.1">>, <<"0.2", "0.3">>>>
      h == [Hint EXCEPT !.nu = <<"0.5", r.la, "1">>, !.fn = <<"0", "0.07", "0.22">>, !.s = <<r.s, "0.5">>]
  IN DLe(Peak2(Auto(x)), Sq(r.H)) =>
       DLe(MBound(b, 2, r.H, h, <<"0">>), DAdd(BandMax(Auto(x), b, 4, h.fn), "1e-25"))
=============================================================================

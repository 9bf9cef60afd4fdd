------------------------------ MODULE MC_Audio ------------------------------
(* Requests to the audio services; consistency of the contours.              *)
EXTENDS Audio, TLC, Json
CONSTANTS Part, K
VARIABLE r
Levels == {"0", "10", "20", "40", "60.5", "80", "90"}
Init ==
  CASE Part = "weights" ->
         r \in [aw : WNames, normal : {"yes", "no", "default"}, power : {"yes", "no", "default"},
                shape : {"scalar", "int", "numpy", "vector", "matrix"}]
    [] Part = "iso" ->
         r \in [fn : {"f", "alpha", "LU", "Tf", "Lp", "LN", "Af", "Bf", "contour", "itpl"},
                hfe : {"yes", "no", "default"}, lev : {"low", "mid", "high", "end", "bad", "default"}]
         /\ (r.fn \in {"f", "alpha", "LU", "Tf"} => r.lev = "mid")
         /\ (r.lev \in {"bad", "default"} => r.fn \in {"contour", "itpl"})
         /\ (r.lev = "default" => r.hfe # "no")
    [] Part = "sound" -> r \in [k : 1..K, ln : Levels]
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
EmitInv == Part # "sound" => PrintT("SCEN" \o ToJson(r))
(* The two directions are inverse of one another, to the accuracy of the     *)
(* constants of the standard; louder needs more pressure; levels in dB and   *)
(* in phon agree at 1 kHz.                                                   *)
RoundInv == Part = "sound" => DClose(Ln(r.k, Lp(r.k, r.ln)), r.ln, "0.06")
MonoInv == Part = "sound" => DLt(Lp(r.k, r.ln), Lp(r.k, DAdd(r.ln, "1")))
PhonInv == Part = "sound" /\ r.k = 18 => DClose(Lp(18, r.ln), r.ln, "0.06")
(* Weightings are one at 1 kHz, vanish at dc and never amplify much.         *)
UnitInv == Part = "sound" =>
  \A aw \in WNames : /\ DClose(Power(aw, "1000", TRUE), "1", "1e-5")
                     /\ DEq(Power(aw, "0", TRUE), "0")
                     /\ DLe(Power(aw, IsoF[r.k], TRUE), "25")
=============================================================================

------------------------------- MODULE Audio -------------------------------
(***************************************************************************)
(* Psychoacoustics: the A, B, C, D and F weightings, the equal loudness    *)
(* contours of ISO 226:2003, Dunn's zeros.                                 *)
(***************************************************************************)
EXTENDS Signal
LOCAL INSTANCE TLC

Sq(a) == DMul(a, a)
DP(a, n) == DPow(a, n)
R40(a) == DRound(a, 40)
(* ---- weightings as power gains at a real frequency f (Hz) --------------- *)
WNames == {"a", "b", "c", "d", "f"}
(* (f^2 - (s^2 + t^2))^2 + 4 s^2 f^2 = |jf - z|^2 |jf - z*|^2, z = -s + jt *)
Pair(s, t, f2) == R40(DAdd(Sq(DSub(f2, DAdd(Sq(s), Sq(t)))), DMul("4", DMul(Sq(s), f2))))
RawPower(aw, f) ==
  LET f2 == Sq(f)
      one(s) == DAdd(f2, Sq(s))
      hi == DDiv(Sq(Sq("12200")), Sq(one("12200")))
      lo == Sq(one("20.6"))
  IN CASE aw = "a" -> DDiv(DMul(hi, DP(f2, 4)), DMul(lo, DMul(one("107.7"), one("737.9"))))
       [] aw = "b" -> DDiv(DMul(hi, DP(f2, 3)), DMul(lo, one("158.5")))
       [] aw = "c" -> DDiv(DMul(hi, DP(f2, 2)), lo)
       [] aw = "d" ->
            LET h == DDiv(DAdd(Sq(DSub("1037918.48", f2)), DMul("1080768.16", f2)),
                          DAdd(Sq(DSub("9837328", f2)), DMul("11723776", f2)))
            IN DDiv(DMul(DDiv(f2, Sq("6.8966888496476e-5")), h),
                    DMul(DAdd(f2, "79919.29"), DAdd(f2, "1345600")))
       [] aw = "f" ->
            LET z2 == Pair("580", "1030", f2)
                z3 == Pair("3180", "8750", f2)
                p3 == Pair("2510", "3850", f2)
                p4 == Pair("6620", "14290", f2)
            \* per 1e12: frequencies here are in Hz, in kHz in the paper
            IN DDiv(DMul(DMul("2.536e-5", DP(f2, 3)), DMul(DDiv(z2, "1e12"), DP(DDiv(z3, "1e12"), 3))),
                    DMul(DMul(DP(one("180"), 3), DDiv(DP(one("1630"), 2), "1e12")),
                         DMul(DP(DDiv(p3, "1e12"), 4), DP(DDiv(p4, "1e17"), 20))))
Norm == TLCEval([aw \in WNames |-> DDiv("1", RawPower(aw, "1000"))])
(* D is always given with unit gain at 1 kHz. *)
Power(aw, f, normal) ==
  IF normal /\ aw # "d" THEN R40(DMul(RawPower(aw, f), Norm[aw])) ELSE R40(RawPower(aw, f))
(* A weighting y of frequency f, as a power or as an amplitude.             *)
WeightOK(aw, f, normal, power, y) ==
  LET e == Power(aw, f, normal)
      g == IF power THEN y ELSE DMul(y, y)
  IN DIsNum(y) /\ DLe("0", y) /\ DClose(g, e, DAdd(DMul("1e-11", e), "1e-290"))
(* The filter, normalized by its gain, has the same amplitude. *)
ZpkPower(z, p, k, f) ==
  LET s == <<"0", DMul(DMul("2", DPi), f)>>
  IN DRound(DDiv(DMul(Sq(k), CAbs2(CProd(z, s))), CAbs2(CProd(p, s))), 40)
(* The constants of the filters are rounded; those of F the most.           *)
ZTol == [a |-> "1e-10", b |-> "1e-10", c |-> "1e-10", d |-> "2e-6", f |-> "3e-4"]
FilterOK(aw, f, z, p, k, gain) ==
  LET e == Power(aw, f, TRUE)
      \* that of F is a power gain
      g == IF aw = "f" THEN gain ELSE Sq(gain)
  IN DClose(DMul(g, ZpkPower(z, p, k, f)), e, DMul(ZTol[aw], e))

(* ---- ISO 226:2003 ---------------------------------------------------------- *)
IsoF == <<"20", "25", "31.5", "40", "50", "63", "80", "100", "125", "160", "200", "250", "315",
  "400", "500", "630", "800", "1000", "1250", "1600", "2000", "2500", "3150", "4000", "5000",
  "6300", "8000", "10000", "12500">>
IsoA == <<"0.532", "0.506", "0.480", "0.455", "0.432", "0.409", "0.387", "0.367", "0.349", "0.330",
  "0.315", "0.301", "0.288", "0.276", "0.267", "0.259", "0.253", "0.250", "0.246", "0.244",
  "0.243", "0.243", "0.243", "0.242", "0.242", "0.245", "0.254", "0.271", "0.301">>
IsoL == <<"-31.6", "-27.2", "-23.0", "-19.1", "-15.9", "-13.0", "-10.3", "-8.1", "-6.2", "-4.5",
  "-3.1", "-2.0", "-1.1", "-0.4", "0.0", "0.3", "0.5", "0.0", "-2.7", "-4.1", "-1.0", "1.7",
  "2.5", "1.2", "-2.1", "-7.1", "-11.2", "-10.7", "-3.1">>
IsoT == <<"78.5", "68.7", "59.5", "51.1", "44.0", "37.5", "31.5", "26.5", "22.1", "17.9", "14.4",
  "11.4", "8.6", "6.2", "4.4", "3.0", "2.2", "2.4", "3.5", "1.7", "-1.3", "-4.2", "-6.0", "-5.4",
  "-1.5", "6.0", "12.6", "13.9", "12.3">>
N0 == 29
Pow10(a) == DExp(R40(DMul(DLn("10"), a)))
PowR(b, e) == DExp(R40(DMul(DLn(R40(b)), e)))
Log10(a) == DDiv(DLn(R40(a)), DLn("10"))
(* threshold term, the same in both directions *)
Thr(k) == PowR(DMul("0.4", Pow10(DSub(DDiv(DAdd(IsoT[k], IsoL[k]), "10"), "9"))), IsoA[k])
(* sound pressure level for a loudness of ln phon, at the k-th frequency    *)
Af(k, ln) == DAdd(DMul("4.47e-3", DSub(Pow10(DMul("0.025", ln)), "1.15")), Thr(k))
Lp(k, ln) == DAdd(DSub(DMul(DDiv("10", IsoA[k]), Log10(Af(k, ln))), IsoL[k]), "94")
(* loudness of a pressure level lp *)
Bf(k, lp) == DAdd(DSub(PowR(DMul("0.4", Pow10(DSub(DDiv(DAdd(lp, IsoL[k]), "10"), "9"))), IsoA[k]), Thr(k)), "0.005135")
Ln(k, lp) ==
  LET bf == Bf(k, lp)
  IN IF DLe(bf, "0") THEN "nan" ELSE DAdd(DMul("40", Log10(bf)), "94")
(* Extended tables repeat at 20 kHz what happens at 20 Hz. *)
Rows(hfe) == IF hfe THEN N0 + 1 ELSE N0
Row(k) == IF k > N0 THEN 1 ELSE k
FOf(k) == IF k > N0 THEN "20000" ELSE IsoF[k]
Same(y, e, tol) == IF e = "nan" THEN y \in {"nan", "-inf"} ELSE DClose(y, e, tol)

(* ---- Dunn's zeros (kHz, band of 22.05 kHz) ----------------------------------- *)
DunnBand == "22050"
DN == 300
DunnW == TLCEval([k \in 0..DN |->
           LET f == DDiv(DMul(DunnBand, DOfInt(k)), DOfInt(DN))
           IN DMul(DOfInt(IF k \in {0, DN} THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2), DRound(Power("f", f, TRUE), 25))])
(* Weighted noise with zeros at 0 (nz of them) and couples +-v, v relative. *)
DunnNoise(nz, v) ==
  DSum([i \in 1..(DN + 1) |->
     LET x2 == Sq(DDiv(DOfInt(i - 1), DOfInt(DN)))
         g == [q \in 1..Len(v) |-> Sq(DSub(x2, Sq(v[q])))]
         RECURSIVE pr(_, _)
         pr(q, acc) == IF q > Len(g) THEN acc ELSE pr(q + 1, DRound(DMul(acc, g[q]), 30))
     IN pr(1, DRound(DMul(DunnW[i - 1], DPow(x2, nz)), 30))])
(* z: n zeros, 0 for odd n and couples +-v: each free zero is optimal to    *)
(* the digits the table has (half of 1 Hz; 4 Hz are allowed).               *)
DunnOK(n, z) ==
  /\ IsVec(z, n)
  /\ LET pos == SelectSeq(z, LAMBDA a : DLt("0", a))
         neg == SelectSeq(z, LAMBDA a : DLt(a, "0"))
         nz == n % 2
         d == DDiv("4", DunnBand)
         mv(i, e) == [pos EXCEPT ![i] = DAdd(@, e)]
     IN /\ Len(pos) = (n - nz) \div 2 /\ Len(neg) = Len(pos)
        /\ \A i \in 1..Len(pos) : DLe(pos[i], "1") /\ \E j \in 1..Len(neg) : DEq(neg[j], DNeg(pos[i]))
        /\ \A i, j \in 1..Len(pos) : i < j => DLt(pos[i], pos[j])
        /\ LET j0 == DunnNoise(nz, pos)
           IN \A i \in 1..Len(pos) :
                DLt(j0, DunnNoise(nz, mv(i, d))) /\ DLt(j0, DunnNoise(nz, mv(i, DNeg(d))))
=============================================================================

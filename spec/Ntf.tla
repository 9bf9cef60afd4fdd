-------------------------------- MODULE Ntf --------------------------------
(***************************************************************************)
(* Noise transfer functions designed in closed form: zeros that minimize   *)
(* the in-band noise, maximally flat poles, Chebyshev type 2 functions,    *)
(* CLANS parametrization.  Frequencies are normalized to the clock.        *)
(***************************************************************************)
EXTENDS Signal
LOCAL INSTANCE TLC

Half(a) == DDiv(a, "2")
(* ---- signal band --------------------------------------------------------- *)
IsBP(osr, f0) == DLt(DDiv("0.25", osr), f0)
Band(osr, f0, quadrature) ==
  IF quadrature THEN <<DSub(f0, DDiv("0.5", osr)), DAdd(f0, DDiv("0.5", osr))>>
  ELSE IF IsBP(osr, f0) THEN <<DSub(f0, DDiv("0.25", osr)), DAdd(f0, DDiv("0.25", osr))>>
  ELSE <<"0", DDiv("0.5", osr)>>

(* Squared gain of a zpk function at frequency nu, and its band rms. *)
ZpkMagSq(z, p, nu) == LET e == TLCEval(CRnd(CCis(nu), 40))
                      IN DRound(DDiv(CAbs2(CProd(z, e)), CAbs2(CProd(p, e))), 40)
BandRms(z, p, f1, f2, N) ==
  DSqrt(DDiv(DSum([k \in 1..N |->
      ZpkMagSq(z, p, DAdd(f1, DRound(DDiv(DMul(DSub(f2, f1), DOfInt(k - 1)), DOfInt(N - 1)), 30)))]),
    DOfInt(N)))
Db20(a) == DDiv(DMul("20", DLn(DRound(a, 40))), DLn("10"))

(* ---- zeros minimizing the energy in the band ------------------------------ *)
(* The noise in [0, 1] of a function with n zeros at +-x_i (and one or two   *)
(* in the origin) near the band is the integral of x^(2j) q(x^2)^2, where    *)
(* j = 0 (all the zeros are free), 1 (n odd) or 2 (even, two zeros in the    *)
(* origin): q is the orthogonal polynomial for the weight t^(j-1/2), t=x^2.  *)
FixedZeros(n, opt) == IF n % 2 = 1 THEN 1 ELSE IF opt = 1 THEN 0 ELSE 2
Deg(n, opt) == (n - FixedZeros(n, opt)) \div 2
PMul(a, b) == Conv(a, b)               \* coefficients, lowest power first
PInner(a, b, j) ==
  LET c == Conv(a, b)
  IN DRound(DSum([k \in 1..Len(c) |-> DDiv(c[k], DAdd(DOfInt(k - 1 + j), "0.5"))]), 55)
PEval(a, t) == DDot(a, [k \in 1..Len(a) |-> DPow(t, k - 1)])
PDiff(a) == TLCEval([k \in 1..(Len(a) - 1) |-> DMul(DOfInt(k), a[k + 1])])
PRnd(a) == TLCEval([k \in 1..Len(a) |-> DRound(a[k], 55)])
(* Stieltjes recurrence *)
RECURSIVE OrthFrom(_, _, _, _, _)
OrthFrom(k, m, j, prev, cur) ==
  IF k = m THEN cur
  ELSE LET tc == <<"0">> \o cur
           nn == PInner(cur, cur, j)
           al == DDiv(PInner(tc, cur, j), nn)
           be == IF k = 0 THEN "0" ELSE DDiv(nn, PInner(prev, prev, j))
       IN OrthFrom(k + 1, m, j, cur,
            PRnd([i \in 1..Len(tc) |-> DSub(DSub(tc[i], DMul(al, At(cur, i))), DMul(be, At(prev, i)))]))
Orth(m, j) == OrthFrom(0, m, j, <<>>, <<"1">>)
ZeroPoly(n, opt) == Orth(Deg(n, opt), FixedZeros(n, opt))
(* z: zeros listed as 0 (odd n) and couples +a, -a.                         *)
OptZerosOK(n, opt, z) ==
  /\ IsVec(z, n)
  /\ LET o == n % 2
         h == (n - o) \div 2
         fx == FixedZeros(n, opt)
     IN /\ o = 1 => DEq(z[1], "0")
        /\ \A i \in 1..h : DEq(z[o + 2 * i], DNeg(z[o + 2 * i - 1])) /\ DLe("0", z[o + 2 * i - 1])
        /\ IF opt = 0 THEN \A i \in 1..n : DEq(z[i], "0")
           ELSE LET q == ZeroPoly(n, opt)
                    d == PDiff(q)
                    nz == SelectSeq([i \in 1..h |-> z[o + 2 * i - 1]], LAMBDA a : ~DEq(a, "0"))
                IN /\ Len(nz) = Deg(n, opt)
                   /\ \A i, k \in 1..Len(nz) : i < k => DLt(nz[i], DSub(nz[k], "1e-3"))
                   /\ \A i \in 1..Len(nz) :
                        LET t == DMul(nz[i], nz[i])
                        IN DLe(t, "1") /\ DLe(DAbs(PEval(q, t)), DMul("5e-5", DAbs(PEval(d, t))))

(* Zeros tried by the zero optimizer: x is relative to half the band.       *)
ObjZeros(x, np, osr, f0) ==
  LET zx == [k \in 1..Len(x) |-> CRnd(CCis(DAdd(f0, DDiv(DMul("0.5", x[k]), osr))), 40)]
      pad == IF DEq(f0, "0") THEN <<>>
             ELSE [k \in 1..(np \div 2 - Len(x)) |-> CRnd(CCis(f0), 40)]
      up == TLCEval(pad \o zx)
      both == up \o [k \in 1..Len(up) |-> CConj(up[k])]
  IN both \o [k \in 1..(np - Len(both)) |-> COne]
ObjOK(x, p, osr, f0, y) ==
  LET b == Band(osr, f0, FALSE)
      z == ObjZeros(x, Len(p), osr, f0)
  IN DClose(y, Db20(BandRms(z, p, b[1], b[2], 100)), "1e-6")

(* ---- sets of roots ---------------------------------------------------------- *)
CountNear(s, w, tol) == Cardinality({k \in 1..Len(s) : CClose(s[k], w, tol)})
SameRoots(a, b, tol) ==
  Len(a) = Len(b) /\ \A k \in 1..Len(a) : CountNear(a, b[k], tol) = CountNear(b, b[k], tol)
Conjugated(s, tol) ==
  \A k \in 1..Len(s) : CountNear(s, CConj(s[k]), tol) = CountNear(s, s[k], tol)
AllNum(s) == \A k \in 1..Len(s) : CIsNum(s[k])
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN COne ELSE CRnd(CMul(a, CPow(a, n - 1)), 45)

(* ---- maximally flat denominators -------------------------------------------- *)
(* (p + 1/p)/2 - c, zero when p is on the unit circle at the band center.   *)
FlatU(p, c) == LET q == CDiv(COne, p)
               IN CRnd(CSub(CScale("0.5", CAdd(p, q)), <<c, "0">>), 45)
(* The poles are the stable solutions of u^n = -(-1)^n v for one v > 0.     *)
FlatValue(n, u) == LET w == CPow(u, n) IN IF n % 2 = 0 THEN <<DNeg(w[1]), DNeg(w[2])>> ELSE w
FlatPoles(n, p, c, tol) ==
  /\ Len(p) = n /\ AllNum(p)
  /\ \A k \in 1..n : DLt(CAbs2(p[k]), "1") /\ ~DEq(CAbs2(p[k]), "0")
  /\ LET u == TLCEval([k \in 1..n |-> FlatU(p[k], c)])
         v == TLCEval([k \in 1..n |-> FlatValue(n, u[k])])
         m == CAbs(v[1])
         r == CAbs(u[1])
     IN /\ DLt("0", v[1][1])
        /\ \A k \in 1..n : DClose(v[k][1], m, DMul(tol, m)) /\ DLe(DAbs(v[k][2]), DMul(tol, m))
        /\ \A i, k \in 1..n : i < k =>
             DLe(DMul("0.99", DDiv(DMul("4", r), DOfInt(n))), CAbs(CSub(u[i], u[k])))
(* maxflat_fir_zeros(order, alpha): v = (1/2)^n / alpha *)
MaxFlatOK(n, alpha, p) ==
  /\ FlatPoles(n, p, "1", "1e-6")
  /\ LET v == FlatValue(n, FlatU(p[1], "1"))
         e == DDiv(DPow("0.5", n), alpha)
     IN DClose(v[1], e, DMul("1e-6", e))

(* ---- Schreier's synthesis ------------------------------------------------------ *)
(* A request r: order, osr, f0, opt (0..4, or 5 = explicit zeros zin, 6 =    *)
(* explicit zeros in the wrong number or arrangement), hinf.                 *)
EffF0(r) == IF DLt(r.f0, DDiv("0.25", r.osr)) THEN "0" ELSE r.f0
LowPass(r) == DEq(EffF0(r), "0")
HalfOrder(r) == IF LowPass(r) THEN r.order ELSE r.order \div 2
BandTop(r) == DLt("0.5", r.f0)
SchreierFaults(r) ==
  (IF BandTop(r) THEN {"Frequency f0 must be less than 0.5"} ELSE {})
  \cup (IF ~LowPass(r) /\ r.order % 2 = 1 THEN {"Order must be even for a bandpass modulator"} ELSE {})
  \cup (IF r.opt = 6 THEN {"The opt vector must be of length " \o ToString(r.order)} ELSE {})
  \cup (IF r.opt \in 1..4 /\ HalfOrder(r) > 14 THEN {"Optimized zeros for n>14 are not available."} ELSE {})
ZInf(r) == IF DLt("0.25", EffF0(r)) THEN COne ELSE <<"-1", "0">>
Center(r) == CRnd(CCis(EffF0(r)), 40)
(* Zeros from their positions relative to the band (w), as frequencies.     *)
PlacedZeros(r, w) ==
  LET n == HalfOrder(r)
  IN IF LowPass(r) THEN TLCEval([k \in 1..n |-> CRnd(CCis(DDiv(DMul("0.5", w[k]), r.osr)), 40)])
     ELSE LET up == TLCEval([k \in 1..n |-> CRnd(CCis(DAdd(r.f0, DDiv(DMul("0.25", w[k]), r.osr))), 40)])
          IN up \o [k \in 1..n |-> CConj(up[k])]
FarGain(r, z, p) == CDiv(CProd(z, ZInf(r)), CProd(p, ZInf(r)))[1]
(* Assigned zeros may be so far from the center that the gain exceeds H_inf *)
(* even with all the poles in the center of the band.                        *)
TooLow(r, z) ==
  LET c == Center(r)
      g == FarGain(r, z, [k \in 1..Len(z) |-> IF k % 2 = 1 THEN c ELSE CConj(c)])
  IN r.opt = 5 /\ DLt(r.hinf, DMul(g, "1.01"))
AllZero(p) == \A k \in 1..Len(p) : DEq(CAbs2(p[k]), "0")
InBand(r, z) ==    \* on the unit circle, inside the band
  LET b == Band(r.osr, EffF0(r), FALSE)
      lim == CCis(Half(DSub(b[2], b[1])))[1]      \* cosine of half the bandwidth
      mid == CCis(DAdd(b[1], Half(DSub(b[2], b[1]))))
      d(w) == CMul(w, CConj(mid))[1]
      edge == IF LowPass(r) THEN CCis(b[2])[1] ELSE lim
  IN \A k \in 1..Len(z) :
       /\ DClose(CAbs2(z[k]), "1", "1e-9")
       /\ IF LowPass(r) THEN DLe(DSub(edge, "1e-9"), z[k][1])
          ELSE DLe(DSub(lim, "1e-9"), d(z[k])) \/ DLe(DSub(lim, "1e-9"), d(CConj(z[k])))
SchreierZeros(r, z, tab) ==
  IF Len(z) # r.order \/ ~AllNum(z) THEN "zeros-number"
  ELSE IF ~Conjugated(z, "1e-12") THEN "zeros-not-conjugated"
  ELSE IF r.opt = 5 THEN (IF SameRoots(z, r.zin, "1e-9") THEN "ok" ELSE "zeros-not-those-given")
  ELSE IF r.opt <= 2 THEN
    IF ~OptZerosOK(HalfOrder(r), r.opt, tab) THEN "optimal-zeros"
    ELSE IF ~SameRoots(z, PlacedZeros(r, tab), "1e-9") THEN "zeros-misplaced" ELSE "ok"
  ELSE IF ~InBand(r, z) THEN "zeros-out-of-band"
  ELSE IF r.opt = 4 /\ CountNear(z, Center(r), "1e-9") = 0 /\ HalfOrder(r) % 2 = 0 THEN "no-zero-at-center"
  ELSE "ok"
SchreierPoles(r, z, p, warned) ==
  LET lim == FarGain(r, z, [k \in 1..Len(z) |-> CZ])
      below == DLt(r.hinf, DMul(lim, "0.999999999"))
      above == DLt(DMul(lim, "1.000000001"), r.hinf)
  IN IF Len(p) # r.order \/ ~AllNum(p) THEN "poles-number"
     ELSE IF ~Conjugated(p, "1e-12") THEN "poles-not-conjugated"
     ELSE IF AllZero(p) THEN
       (IF below THEN "gain-not-exploited" ELSE IF ~warned THEN "unwarned-gain" ELSE "ok")
     ELSE IF above THEN "gain-unachievable"
     ELSE IF warned /\ (r.opt \notin {3, 4} \/ DLt(r.hinf, DMul(lim, "0.9"))) THEN "undue-warning"
     ELSE IF ~DClose(FarGain(r, z, p), r.hinf, DMul("1e-6", r.hinf)) THEN "gain-missed"
     ELSE IF ~FlatPoles(r.order, p, Center(r)[1], "1e-5") THEN "poles-not-flat"
     ELSE "ok"
(* No optimization: the gain is largest at the far end.                     *)
PeakOK(r, z, p) ==
  \A k \in 0..24 :
     DLe(ZpkMagSq(z, p, DDiv(DOfInt(k), "48")), DMul("1.000004", DMul(FarGain(r, z, p), FarGain(r, z, p))))
NoiseOf(r, z, p) == LET b == Band(r.osr, EffF0(r), FALSE) IN BandRms(z, p, b[1], b[2], 40)

(* ---- Chebyshev synthesis ----------------------------------------------------- *)
Tan(f) == DRound(DDiv(DSin2Pi(Half(f)), DCos2Pi(Half(f))), 45)     \* tan(pi f)
RECURSIVE ChebT(_, _)
ChebT(n, x) == IF n = 0 THEN "1" ELSE IF n = 1 THEN x
  ELSE DRound(DSub(DMul(DMul("2", x), ChebT(n - 1, x)), ChebT(n - 2, x)), 45)
(* Frequency relative to the band edge: |x| = 1 at the edges, 0 in the      *)
(* middle, grows outside.                                                    *)
ChebX(r, f) ==
  LET b == Band(r.osr, r.f0, FALSE)
  IN IF DEq(r.f0, "0") THEN DDiv(Tan(f), Tan(b[2]))
     ELSE LET o1 == Tan(b[1])
              o2 == Tan(b[2])
          IN DDiv(DSub(DMul(Tan(f), Tan(f)), DMul(o1, o2)), DMul(DSub(o2, o1), Tan(f)))
(* Same shape as a type 2 Chebyshev function of peak gain h:                 *)
(*    |N|^2 = h^2 / (1 + 1/(eps^2 T(1/x)^2)), the far end has 1/x = 0 ...    *)
(* written in terms of t = T_n(1/y): see ChebOK.                             *)
ChebN(r) == IF DEq(r.f0, "0") THEN r.order ELSE r.order \div 2
(* The highpass (bandstop) function has, in its stopband |x| <= 1, ripples   *)
(* between 0 and the same peak; |N|^2 (1 + e2 T^2) = h^2 e2 T^2 with         *)
(* T = T_n(x), e2 fixed by the value at the band edge, where T^2 = 1.        *)
ChebOK(r, z, p, h, f) ==
  LET b == Band(r.osr, r.f0, FALSE)
      ge == ZpkMagSq(z, p, b[2])
      h2 == DMul(h, h)
      e2 == DRound(DDiv(ge, DSub(h2, ge)), 40)
      t == ChebT(ChebN(r), DRound(ChebX(r, f), 45))
      t2 == DMul(t, t)
      g == ZpkMagSq(z, p, f)
      lhs == DRound(DMul(g, DAdd("1", DMul(e2, t2))), 40)
      rhs == DRound(DMul(DMul(h2, e2), t2), 40)
  IN DClose(lhs, rhs, DMul(r.rel, DAdd(rhs, DMul(h2, e2))))

(* ---- CLANS ------------------------------------------------------------------- *)
RespNorm(z, p, m) ==
  LET h == Ir(FromZpk(z, p, "1"), m) IN DSum([k \in 1..m |-> DAbs(h[k])])
(* Bilinear map of second order sections: q = p / rmax,                      *)
(* (q-1)^2 + 2 zeta w (q-1)(q+1) ... with s = (q-1)/(q+1) solving            *)
(* s^2 + 2 zeta w s + w^2 = 0.                                               *)
SectionOK(q, zeta, w, tol) ==
  LET a == CSub(q, COne)
      b == CAdd(q, COne)
      t1 == CMul(a, a)
      t2 == CScale(DMul(DMul("2", zeta), w), CMul(a, b))
      t3 == CScale(DMul(w, w), CMul(b, b))
      sc == DAdd(DAdd(CAbs(t1), CAbs(t2)), DAdd(CAbs(t3), "1e-12"))
  IN DLe(CAbs(CAdd(CAdd(t1, t2), t3)), DMul(tol, sc))
ClansMapOK(x, n, rmax, p) ==
  /\ Len(p) = n /\ AllNum(p)
  /\ LET o == n % 2
         q == TLCEval([k \in 1..n |-> CRnd(<<DDiv(p[k][1], rmax), DDiv(p[k][2], rmax)>>, 40)])
     IN /\ o = 1 => LET s == DMul(x[1], x[1])
                        e == DDiv(DSub("1", s), DAdd("1", s))
                    IN DClose(q[1][1], e, "1e-10") /\ DEq(p[1][2], "0")
        /\ \A k \in {i \in (o + 1)..n : (i - o) % 2 = 1} :
             LET zeta == DMul(x[k], x[k])
                 w == DMul(x[k + 1], x[k + 1])
             IN /\ SectionOK(q[k], zeta, w, "1e-7") /\ SectionOK(q[k + 1], zeta, w, "1e-7")
                \* the two roots of the section: product of the s is w^2
                /\ LET s1 == CDiv(CSub(q[k], COne), CAdd(q[k], COne))
                       s2 == CDiv(CSub(q[k + 1], COne), CAdd(q[k + 1], COne))
                   IN CClose(CMul(s1, s2), <<DMul(w, w), "0">>, DMul("1e-6", DAdd(DMul(w, w), "1e-12")))
                /\ DLt(zeta, "1") => CClose(p[k + 1], CConj(p[k]), "1e-9")
=============================================================================

-------------------------------- MODULE Fir --------------------------------
(***************************************************************************)
(* Noise transfer functions that solve an optimization problem over their  *)
(* numerators: X(z) = x_0 + x_1 z^-1 + ... + x_n z^-n with x_0 = 1, given  *)
(* poles A(z), peak gain |X/A| <= H at every frequency, and                *)
(*   weighted: x'Qx is minimal, Q Toeplitz, from a noise weighting;        *)
(*   minmax:   the maximum of |X|^2 over the signal bands is minimal.      *)
(*                                                                         *)
(* Optimality is decided by weak duality.  Whatever lam_k >= 0, nu_k >= 0  *)
(* (sum nu = 1), and numbers s, the Lagrangian                             *)
(*   L(x) = x'Tx - H^2 sum lam_k |A(w_k)|^2 + sum s_j c_j.x                *)
(* with T Toeplitz, t_m = q_m + sum lam_k cos(m w_k), is convex and not    *)
(* above the objective at any feasible x.  Hence, for any y with y_0 = 1,  *)
(*   objective(x) >= L(y) - |grad L(y)| |x - y|                            *)
(* and |x|, |y| are bounded.  The multipliers and y are hints of unknown   *)
(* origin: any hint gives a valid bound.                                   *)
(***************************************************************************)
EXTENDS Audio
LOCAL INSTANCE TLC

Cosines(f, n) == TLCEval([m \in 1..(n + 1) |-> DRound(DCos2Pi(DMul(f, DOfInt(m - 1))), 30)])
Sines(f, n) == TLCEval([m \in 1..(n + 1) |-> DRound(DSin2Pi(DMul(f, DOfInt(m - 1))), 30)])
Toep(t, y) == TLCEval([i \in 1..Len(y) |->
                DSum([j \in 1..Len(y) |-> DMul(y[j], t[1 + (IF i >= j THEN i - j ELSE j - i)])])])
Norm2(v) == DSqrt(DRound(DDot(v, v), 40))
(* autocorrelation of x, and |X|^2 at a frequency *)
Auto(x) == TLCEval([m \in 1..Len(x) |-> DRound(RealCorr(x, m - 1), 40)])
Gain2(r, f) == LET c == Cosines(f, Len(r) - 1)
               IN DSub(DMul("2", DDot(r, c)), r[1])

(* ---- weightings: first row of Q ------------------------------------------ *)
(* q_m = 2 * integral over [0, 1/2] of w(f) cos(2 pi f m) *)
StepInt(a, b, m) ==
  IF m = 0 THEN DMul("2", DSub(b, a))
  ELSE DDiv(DSub(DSin2Pi(DMul(b, DOfInt(m))), DSin2Pi(DMul(a, DOfInt(m)))), DMul(DPi, DOfInt(m)))
QSteps(w, n) ==
  TLCEval([m \in 1..(n + 1) |->
     DRound(DSum([i \in 1..Len(w.l) |-> DMul(w.l[i], StepInt(w.e[i], w.e[i + 1], m - 1))]), 40)])
IrLen == 260
QFilter(w, n, a) ==
  LET g == Ir([num |-> w.b, den |-> Conv(w.a, a)], IrLen)
  IN TLCEval([m \in 1..(n + 1) |-> DRound(RealCorr(g, m - 1), 40)])
(* Audio weighting within the band, a floor elsewhere.  Simpson's rule, over *)
(* panels that follow the resolution of the weightings at low frequencies.   *)
SN == 160
SEdges == <<"0", "0.01", "0.1", "1">>
QAudio(w, n) ==
  LET top == DDiv("0.5", w.osr)
      fl == DExp(R40(DMul(DDiv(DNeg(w.attn), "10"), DLn("10"))))
      np == Len(SEdges) - 1
      st(p) == DDiv(DSub(SEdges[p + 1], SEdges[p]), DOfInt(SN))
      \* abscissae relative to the band, weights of the rule included
      x == TLCEval([p \in 1..np |-> TLCEval([k \in 0..SN |-> DAdd(SEdges[p], DMul(st(p), DOfInt(k)))])])
      g == TLCEval([p \in 1..np |-> TLCEval([k \in 0..SN |->
             LET v == DMax(Power(w.aw, DMul(w.band, x[p][k]), TRUE), fl)
             IN DRound(DMul(DMul(v, DDiv(st(p), "3")),
                            DOfInt(IF k \in {0, SN} THEN 1 ELSE IF k % 2 = 1 THEN 4 ELSE 2)), 25)])])
  IN TLCEval([m \in 1..(n + 1) |->
       DRound(DAdd(DMul(DMul("2", top),
                 DSum([p \in 1..np |-> DSum([i \in 1..(SN + 1) |->
                    DMul(g[p][i - 1], DCos2Pi(DMul(DOfInt(m - 1), DMul(top, x[p][i - 1]))))])])),
            DMul(fl, StepInt(top, "0.5", m - 1))), 40)])
QRow(w, n, a) ==
  CASE w.kind = "q0" -> w.q
    [] w.kind = "steps" -> QSteps(w, n)
    [] w.kind = "filter" -> QFilter(w, n, a)
    [] w.kind = "audio" -> QAudio(w, n)

(* ---- bounds ------------------------------------------------------------------ *)
RECURSIVE Binom2n(_, _, _)
Binom2n(n, k, acc) == IF k > n THEN acc
  ELSE Binom2n(n, k + 1, DDiv(DMul(acc, DOfInt(n + k)), DOfInt(k)))
L1(a) == DSum([k \in 1..Len(a) |-> DAbs(a[k])])
(* A zero out of the unit circle can be reflected, which scales |X| down at *)
(* every frequency: with all the zeros inside, |x|^2 <= binomial(2n, n).    *)
(* With a limited gain, |x|^2 = mean |X|^2 <= H^2 mean |A|^2.               *)
Radius(n, a, H) ==
  LET c == DSqrt(DRound(Binom2n(n, 1, "1"), 40))
  IN IF H = "inf" THEN c ELSE DMin(c, DMul(H, L1(a)))
(* d: hints [la, fa : peak multipliers and frequencies; nu, fn : those of   *)
(* the objective; s : multipliers of the zeros at zf; y].                   *)
DualOK(d, n) ==
  /\ \A k \in 1..Len(d.la) : DLe("0", d.la[k])
  /\ \A k \in 1..Len(d.nu) : DLe("0", d.nu[k])
  /\ IsVec(d.y, n + 1) /\ DEq(d.y[1], "1")
ZfRows(zf, n) ==   \* real equations that put zeros at the frequencies zf
  LET c == [k \in 1..Len(zf) |-> Cosines(zf[k], n)]
      s == [k \in 1..Len(zf) |-> Sines(zf[k], n)]
  IN TLCEval(c \o s)
Bound(q, a, H, d, zf) ==
  LET n == Len(d.y) - 1
      ca == TLCEval([k \in 1..Len(d.fa) |-> Cosines(d.fa[k], n)])
      cn == TLCEval([k \in 1..Len(d.fn) |-> Cosines(d.fn[k], n)])
      t == TLCEval([m \in 1..(n + 1) |-> DRound(DAdd(q[m],
             DAdd(DSum([k \in 1..Len(d.la) |-> DMul(d.la[k], ca[k][m])]),
                  DSum([k \in 1..Len(d.nu) |-> DMul(d.nu[k], cn[k][m])]))), 40)])
      rows == ZfRows(zf, n)
      v == TLCEval([m \in 1..(n + 1) |-> DSum([k \in 1..Len(d.s) |-> DMul(d.s[k], rows[k][m])])])
      ty == Toep(t, d.y)
      ra == Auto(a)
      pen == IF Len(d.la) = 0 THEN "0"
             ELSE DMul(Sq(H), DSum([k \in 1..Len(d.la) |-> DMul(d.la[k], Gain2(ra, d.fa[k]))]))
      L == DAdd(DSub(DDot(d.y, ty), pen), DDot(v, d.y))
      gr == [m \in 1..n |-> DAdd(DMul("2", ty[m + 1]), v[m + 1])]
  IN DRound(DSub(L, DMul(Norm2(gr), DAdd(Radius(n, a, H), Norm2(d.y)))), 30)
WBound(q, a, H, d) == Bound(q, a, H, d, <<>>)
(* minmax: weights nu sum to one, at frequencies of the signal bands *)
MBound(bands, n, H, d, zf) ==
  LET tot == DSum(d.nu)
      ok == DLt("0", tot) /\ \A k \in 1..Len(d.fn) : \E b \in 1..Len(bands) :
              DLe(bands[b][1], d.fn[k]) /\ DLe(d.fn[k], bands[b][2])
      z == [m \in 1..(n + 1) |-> "0"]
      sc(v) == TLCEval([k \in 1..Len(v) |-> DDiv(v[k], tot)])
  IN IF ok THEN Bound(z, <<"1">>, H, [d EXCEPT !.nu = sc(d.nu)], zf) ELSE "nan"

(* ---- the solutions ------------------------------------------------------------ *)
Num(z) == RealParts(CPoly(z))
PeakOK2(rx, ra, H, at, tol) ==
  H = "inf" \/ \A k \in 1..Len(at) :
     DLe(Gain2(rx, at[k]), DMul(DMul(Sq(H), Gain2(ra, at[k])), DAdd("1", tol)))
Grid(n) == [k \in 1..(4 * n + 9) |-> DDiv(DOfInt(k - 1), DOfInt(8 * n + 16))]
Quad2(q, x) == LET r == Auto(x) IN DSub(DMul("2", DDot(r, q)), DMul(r[1], q[1]))
(* Norms are compared, as it is a norm that the solvers minimize.           *)
NormClose(v, b, scale, rel, abs) ==
  DLe(DSqrt(DMax(v, "0")), DAdd(DMul(DSqrt(DMax(b, "0")), DAdd("1", rel)), DMul(abs, DSqrt(scale))))
(* bands of a min-max design *)
FBand(osr, f0) == IF DEq(f0, "0") THEN <<"0", DDiv("0.5", osr)>>
                  ELSE <<DSub(f0, DDiv("0.5", osr)), DAdd(f0, DDiv("0.5", osr))>>
BandMax(rx, bands, N, extra) ==
  LET g == TLCEval([b \in 1..Len(bands) |->
             LET at == TLCEval([k \in 1..(N + 1) |-> DRound(DAdd(bands[b][1],
                          DDiv(DMul(DSub(bands[b][2], bands[b][1]), DOfInt(k - 1)), DOfInt(N))), 25)]
                       \o SelectSeq(extra, LAMBDA f : DLe(bands[b][1], f) /\ DLe(f, bands[b][2])))
             IN [k \in 1..Len(at) |-> Gain2(rx, at[k])]])
      RECURSIVE mx(_, _, _)
      mx(b, k, acc) == IF b > Len(bands) THEN acc
                       ELSE IF k > Len(g[b]) THEN mx(b + 1, 1, acc)
                       ELSE mx(b, k + 1, DMax(acc, g[b][k]))
  IN mx(1, 1, "0")
=============================================================================

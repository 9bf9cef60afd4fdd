------------------------------- MODULE Signal -------------------------------
(***************************************************************************)
(* Discrete-time signals and linear filters: correlations, transfer        *)
(* functions, impulse responses, Fourier transforms, noise power gains.    *)
(* A filter is a record [num, den]: real coefficients, highest power of z   *)
(* first, aligned at the leading coefficient (pure delays are immaterial).  *)
(***************************************************************************)
EXTENDS Vec, FiniteSets
LOCAL INSTANCE TLC

At(s, k) == IF k >= 1 /\ k <= Len(s) THEN s[k] ELSE "0"
CAt(s, k) == IF k >= 1 /\ k <= Len(s) THEN s[k] ELSE CZ
CSum(s0) == LET s == TLCEval(s0) IN <<DSum([k \in 1..Len(s) |-> s[k][1]]), DSum([k \in 1..Len(s) |-> s[k][2]])>>
RealC(x) == TLCEval([k \in 1..Len(x) |-> <<x[k], "0">>])

(* ---- correlations (complex sequences, no conjugation) ------------------ *)
(* q(k) = sum_n y(n) x(n - k), k = 0..N *)
XCorr(x, y, N) ==
  TLCEval([k \in 1..(N + 1) |->
     CSum([n \in 1..Len(y) |-> CMul(y[n], CAt(x, n - (k - 1)))])])
ACorr(x, N) == XCorr(x, x, N)
CorrOK(x, y, N, q, rel) ==
  /\ Len(q) = N + 1
  /\ LET e == XCorr(x, y, N)
         sc == DMul(DSqrt(DSum([k \in 1..Len(x) |-> CAbs2(x[k])])),
                    DSqrt(DSum([k \in 1..Len(y) |-> CAbs2(y[k])])))
     IN \A k \in 1..(N + 1) : CIsNum(q[k]) /\ CClose(q[k], e[k], DMul(rel, DAdd(sc, "1e-300")))

(* ---- transfer functions -------------------------------------------------- *)
(* Sum of |c_k| |z|^k: magnitude of the terms of a polynomial.              *)
PolyScale(c, z) == LET a == DRound(CAbs(z), 30)
                   IN CHorner([k \in 1..Len(c) |-> <<CAbs(c[k]), "0">>], <<a, "0">>)[1]
RECURSIVE ProdScale(_, _, _, _)
ProdScale(r, z, j, acc) ==
  IF j > Len(r) THEN acc
  ELSE ProdScale(r, z, j + 1,
         DRound(DMul(acc, DAdd(DAbs(CAbs(z)), CAbs(r[j]))), 30))
RPolyOK(roots, z, k, y, rel) ==   \* finite roots only
  LET e == CMul(k, CProd(roots, z))
      sc == CAbs(e)
      cond == DMul(CAbs(k), ProdScale(roots, z, 1, "1"))
  IN CIsNum(y) /\ CClose(y, e, DAdd(DMul(rel, sc), DMul("1e-15", DAdd(DMul("1e-3", cond), "1e-300"))))
(* y = k prod(z - zz)/prod(z - pp) *)
ZpkOK(zz, pp, k, z, y, rel) ==
  LET n == CMul(k, CProd(zz, z))
      d == CProd(pp, z)
  IN CIsNum(y) /\ CClose(CMul(y, d), n, DMul(rel, DAdd(DAdd(CAbs(n), "1e-300"),
                       DMul("1e-3", DMul(CAbs(k), ProdScale(zz, z, 1, "1"))))))
BaOK(b, a, z, y, rel) ==
  LET n == CHorner(b, z)
      d == CHorner(a, z)
      sc == DAdd(PolyScale(b, z), DMul(CAbs(y), PolyScale(a, z)))
  IN CIsNum(y) /\ CClose(CMul(y, d), n, DMul(rel, DAdd(sc, "1e-300")))

(* ---- impulse response ------------------------------------------------------ *)
RealParts(c) == TLCEval([k \in 1..Len(c) |-> c[k][1]])
FromZpk(zz, pp, k) == [num |-> VScale(k, RealParts(CPoly(zz))), den |-> RealParts(CPoly(pp))]
(* sum_j den(j) h(n-j) = num(n) for every n *)
IrOK(f, h, rel) ==
  \A n \in 1..Len(h) :
    LET w == IF n < Len(f.den) THEN n ELSE Len(f.den)
        d == SubSeq(f.den, 1, w)
        p == [j \in 1..w |-> h[n + 1 - j]]
    IN /\ DIsNum(h[n])
       /\ DClose(DDot(d, p), At(f.num, n),
               DMul(rel, DAdd(DAbsDot(d, p), DAdd(DMaxAbs(f.num), "1e-300"))))
(* First m samples of the response, by the recurrence. *)
RECURSIVE IrFrom(_, _, _)
IrFrom(f, m, h) ==
  IF Len(h) >= m THEN h
  ELSE LET n == Len(h) + 1
           w == IF n < Len(f.den) THEN n ELSE Len(f.den)
           s == DDot([j \in 1..(w - 1) |-> f.den[j + 1]], [j \in 1..(w - 1) |-> h[n - j]])
       IN IrFrom(f, m, TLCEval(Append(h, DRound(DDiv(DSub(At(f.num, n), s), f.den[1]), 40))))
Ir(f, m) == IrFrom(f, m, <<>>)
Conv(a, b) == TLCEval([n \in 1..(Len(a) + Len(b) - 1) |->
                 DSum([k \in 1..Len(a) |-> DMul(a[k], At(b, n + 1 - k))])])
Cascade(f, g) == [num |-> Conv(f.num, g.num), den |-> Conv(f.den, g.den)]
Unit == [num |-> <<"1">>, den |-> <<"1">>]

(* Length guessed for the response: the slowest pole decays by db decibels. *)
(* pmax: largest pole radius (decimal, < 1).                                 *)
GuessOK(nz, pmax, db, m) ==
  LET t == IF DEq(pmax, "0") THEN "0"
           ELSE DDiv(DMul(DDiv(db, "20"), DLn("10")), DNeg(DLn(pmax)))
  IN /\ DLe(DAdd(DOfInt(nz + 1), DMul(t, "0.999999")), DOfInt(m))
     /\ DLe(DOfInt(m), DAdd(DOfInt(nz + 2), DMul(t, "1.000001")))

(* ---- Fourier transforms ------------------------------------------------------ *)
(* sum_n x(n) exp(-2 pi i f (n - t0)) with f normalized to the sample rate. *)
Dtft(x, f, t0) ==
  CSum([n \in 1..Len(x) |-> CMul(x[n], CCis(DNeg(DMul(f, DSub(DOfInt(n - 1), t0)))))])
DtftHerm(x, f) ==
  DAdd(x[1][1], DMul("2", DSum([n \in 1..(Len(x) - 1) |->
         CMul(x[n + 1], CCis(DNeg(DMul(f, DOfInt(n)))))[1]])))
AbsSum(x) == DSum([n \in 1..Len(x) |-> CAbs(x[n])])
Sinc(t) == IF DEq(t, "0") THEN "1"
           ELSE DDiv(DSin2Pi(DDiv(t, "2")), DMul(DPi, t))
(* Inverse transform, at time t, of the transform of x. *)
Idtft(x, t0, t) ==
  CSum([n \in 1..Len(x) |->
          CScale(Sinc(DSub(t, DSub(DOfInt(n - 1), t0))), x[n])])
(* Same for the transform of the symmetric extension of x. *)
IdtftHerm(x, t) ==
  DAdd(DMul(x[1][1], Sinc(t)),
       DSum([n \in 1..(Len(x) - 1) |->
               DMul(x[n + 1][1], DAdd(Sinc(DSub(t, DOfInt(n))), Sinc(DAdd(t, DOfInt(n)))))]))
(* Centered DFT: frequencies k fs/N for k = -floor(N/2) .. ceil(N/2)-1. *)
CenteredOK(x, fs, ff, X, rel) ==
  LET N == Len(x)
      k0 == -(N \div 2)
  IN /\ Len(ff) = N /\ Len(X) = N
     /\ \A j \in 1..N :
          LET k == k0 + j - 1
              nu == DDiv(DOfInt(k), DOfInt(N))
          IN /\ DClose(ff[j], DMul(nu, fs), DMul("1e-14", fs))
             /\ CClose(X[j], CSum([n \in 1..N |->
                  CMul(x[n], CCis(DNeg(DDiv(DOfInt((k * (n - 1)) % N), DOfInt(N)))))]),
                       DMul(rel, DAdd(AbsSum(x), "1e-300")))

(* ---- noise power gains --------------------------------------------------------- *)
SumSqr(h) == DDot(h, h)
RealCorr(h, k) == IF k >= Len(h) THEN "0"
                  ELSE DDot(SubSeq(h, k + 1, Len(h)), SubSeq(h, 1, Len(h) - k))
(* integral over [f1, f2] of |H|^2 for the FIR filter h *)
BandInt(h, f1, f2) ==
  DAdd(DMul(RealCorr(h, 0), DSub(f2, f1)),
       DSum([k \in 1..(Len(h) - 1) |->
               DDiv(DMul(RealCorr(h, k),
                         DSub(DSin2Pi(DMul(DOfInt(k), f2)), DSin2Pi(DMul(DOfInt(k), f1)))),
                    DMul(DPi, DOfInt(k)))]))
(* h' Toeplitz(q) h *)
Quad(h, q) == DSum([a \in 1..Len(h) |->
                DMul(h[a], DSum([b \in 1..Len(h) |->
                   DMul(h[b], At(q, 1 + (IF a >= b THEN a - b ELSE b - a)))]))])
MagSq(f, nu) ==   \* |F(exp(2 pi i nu))|^2
  LET z == TLCEval(CCis(nu))
  IN DDiv(CAbs2(CHorner(RealC(f.num), z)), CAbs2(CHorner(RealC(f.den), z)))
RmsGain(f, f1, f2, N) ==
  DSqrt(DDiv(DSum([k \in 1..N |->
      MagSq(f, IF N = 1 THEN f1 ELSE
               DAdd(f1, DDiv(DMul(DSub(f2, f1), DOfInt(k - 1)), DOfInt(N - 1))))]),
    DOfInt(N)))
=============================================================================

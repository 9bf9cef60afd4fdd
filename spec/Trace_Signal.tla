---------------------------- MODULE Trace_Signal ----------------------------
EXTENDS Signal, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]
Ok(b, clause) == IF b THEN "ok" ELSE clause
Filt(f) == IF f.form = "zpk" THEN FromZpk(f.z, f.p, f.k)
           ELSE [num |-> f.b, den |-> f.a]
(* A filter with all the poles in the origin, as a finite response.         *)
Fir(f) == Filt(f).num
RelOK(a, b, rel) == DClose(a, b, DMul(rel, DAbs(b)))

Verdict(e) ==
  IF e.mutated THEN "argument-altered"
  ELSE IF e.op = "badtype" THEN Ok(e.exc = "ValueError", "bad-specification-accepted")
  ELSE IF e.exc # "" THEN "unexpected-exception"
  ELSE IF e.op = "corr" THEN Ok(CorrOK(e.x, e.y, e.N, e.q, e.rel), "correlation")
  ELSE IF e.op = "rpoly" THEN
    Ok(Len(e.y) = Len(e.at) /\ e.ysh = e.atsh /\
       \A j \in 1..Len(e.at) : RPolyOK(e.roots, e.at[j], e.k, e.y[j], "1e-12"), "polynomial-value")
  ELSE IF e.op = "evaltf" THEN
    Ok(Len(e.y) = Len(e.at) /\ e.ysh = e.atsh /\
       \A j \in 1..Len(e.at) :
         IF e.form = "zpk" THEN ZpkOK(e.z, e.p, e.k, e.at[j], e.y[j], "1e-11")
         ELSE BaOK(e.z, e.p, e.at[j], e.y[j], "1e-12"), "transfer-function-value")
  ELSE IF e.op = "ir" THEN
    IF e.m # <<>> /\ Len(e.h) # e.m[1] THEN "response-length"
    ELSE IF e.m = <<>> /\ ~GuessOK(e.nz, e.pmax, e.db, Len(e.h)) THEN "response-length-guess"
    ELSE Ok(IrOK(Filt(e.f), e.h, e.rel), "impulse-response")
  ELSE IF e.op = "guess" THEN Ok(GuessOK(e.nz, e.pmax, e.db, e.y), "response-length-guess")
  ELSE IF e.op = "dtft" THEN
    Ok(CIsNum(e.y) /\ CClose(e.y, Dtft(e.x, e.f, e.t0), DMul("1e-11", DAdd(AbsSum(e.x), "1e-300"))), "dtft")
  ELSE IF e.op = "dtfth" THEN
    Ok(DClose(e.y, DtftHerm(e.x, e.f), DMul("1e-11", DAdd(AbsSum(e.x), "1e-300"))), "dtft-hermitian")
  ELSE IF e.op = "idtft" THEN
    Ok(Len(e.y) = Len(e.t) /\ \A j \in 1..Len(e.t) :
         CIsNum(e.y[j]) /\ CClose(e.y[j], Idtft(e.x, e.t0, e.t[j]), DMul("1e-7", DAdd(AbsSum(e.x), "1e-300"))),
       "idtft")
  ELSE IF e.op = "idtfth" THEN
    Ok(Len(e.y) = Len(e.t) /\ \A j \in 1..Len(e.t) :
         DClose(e.y[j], IdtftHerm(e.x, e.t[j]), DMul("1e-7", DAdd(AbsSum(e.x), "1e-300"))),
       "idtft-hermitian")
  ELSE IF e.op = "delayh" THEN
    Ok(Len(e.y) = Len(e.t) /\ \A j \in 1..Len(e.t) :
         DClose(e.y[j], Sinc(DSub(e.t[j], e.tau)), "1e-7"), "idtft-hermitian")
  ELSE IF e.op = "centered" THEN
    Ok(CenteredOK(e.x, e.fs, e.ff, e.X, "1e-12"), "centered-dft")
  ELSE IF e.op = "gain" THEN
    \* whole band, any filters: energy of the response of the cascade
    Ok(RelOK(e.y, DMul(e.c, SumSqr(Ir(Cascade(Filt(e.f), Filt(e.g)), e.m))), e.rel), "noise-gain")
  ELSE IF e.op = "bandgain" THEN
    LET h == Conv(Fir(e.f), Fir(e.g))
        v == BandInt(h, e.f1, e.f2)
    IN Ok(DClose(e.y, IF e.avg THEN DDiv(v, DSub(e.f2, e.f1)) ELSE DMul("2", v),
                 DMul(e.rel, DAdd(DAbs(e.y), DMul("1e-4", SumSqr(h))))), "noise-gain-in-band")
  ELSE IF e.op = "q0" THEN
    LET h == Ir(Filt(e.g), e.m)
    IN Ok(Len(e.q) = e.P + 1 /\ \A k \in 1..(e.P + 1) :
            DClose(e.q[k], DMul(e.c, RealCorr(h, k - 1)), DMul(e.rel, DMul(e.c, RealCorr(h, 0)))), "q0")
  ELSE IF e.op = "quadform" THEN
    Ok(RelOK(e.y, Quad(Fir(e.f), e.q), e.rel), "gain-is-quadratic-form")
  ELSE IF e.op = "mult" THEN
    Ok(Len(e.y) = Len(e.nu) /\ \A j \in 1..Len(e.nu) :
         LET RECURSIVE Pr(_)
             Pr(k) == IF k > Len(e.fs) THEN "1"
                      ELSE DRound(DMul(DMul(e.fs[k].c, MagSq(Filt(e.fs[k]), e.nu[j])), Pr(k + 1)), 40)
         IN DClose(e.y[j], Pr(1), DMul("1e-10", DAdd(Pr(1), "1e-12"))), "product-of-weightings")
  ELSE IF e.op = "rmsgain" THEN
    Ok(RelOK(e.y, RmsGain(Filt(e.f), e.f1, e.f2, e.N), e.rel), "rms-gain")
  ELSE IF e.op = "agree" THEN Ok(RelOK(e.y, e.y2, e.rel), "methods-agree")
  ELSE "unknown-event"

TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Sc.ev)
             /\ LET v == Verdict(Sc.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

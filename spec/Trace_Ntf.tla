----------------------------- MODULE Trace_Ntf -----------------------------
EXTENDS Ntf, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]
Ok(b, clause) == IF b THEN "ok" ELSE clause
Warned(e, text) == \E k \in 1..Len(e.warns) : e.warns[k] = text
Lowered(e) == Warned(e, "Creating a lowpass ntf.")
Unable(e) == Warned(e, "Unable to achieve specified Hinf, setting all NTF poles to zero")

Schreier(e) ==
  LET faults == SchreierFaults(e)
  IN IF faults # {} THEN
       (IF e.exc # "ValueError" THEN "bad-request-accepted"
        ELSE Ok(e.msg \in faults, "wrong-error"))
     ELSE IF e.exc # "" THEN "unexpected-exception"
     ELSE IF ~DEq(e.k, "1") THEN "gain-not-one"
     ELSE IF Lowered(e) # ~DEq(e.f0, EffF0(e)) THEN "lowpass-warning"
     ELSE IF Warned(e, "Iteration limit exceeded")
       THEN Ok(TooLow(e, e.z) /\ SchreierZeros(e, e.z, e.tab) = "ok" /\ Len(e.p) = e.order, "no-convergence")
     ELSE LET a == SchreierZeros(e, e.z, e.tab)
              b == SchreierPoles(e, e.z, e.p, Unable(e))
          IN IF a # "ok" THEN a ELSE IF b # "ok" THEN b
             ELSE IF e.opt = 0 /\ ~PeakOK(e, e.z, e.p) THEN "peak-gain"
             ELSE Ok(\A k \in 1..Len(e.refs) :
                        DLe(NoiseOf(e, e.z, e.p), DMul("1.05", NoiseOf(e, e.refs[k][1], e.refs[k][2]))),
                     "noise-not-optimized")

Cheby(e) ==
  IF ~DEq(e.f0, "0") /\ e.order % 2 = 1 THEN
    (IF e.exc # "ValueError" THEN "bad-request-accepted"
     ELSE Ok(e.msg = "Order must be even for a bandpass modulator.", "wrong-error"))
  ELSE IF e.exc # "" THEN "unexpected-exception"
  ELSE IF ~DEq(e.k, "1") THEN "gain-not-one"
  ELSE IF Len(e.z) # e.order \/ Len(e.p) # e.order \/ ~AllNum(e.z) \/ ~AllNum(e.p) THEN "roots-number"
  ELSE IF ~Conjugated(e.z, "1e-9") \/ ~Conjugated(e.p, "1e-9") THEN "roots-not-conjugated"
  ELSE IF \E k \in 1..e.order : ~DLt(CAbs2(e.p[k]), "1") THEN "unstable"
  ELSE IF ~InBand(e, e.z) THEN "zeros-out-of-band"
  ELSE LET far == CAbs(CDiv(CProd(e.z, <<"-1", "0">>), CProd(e.p, <<"-1", "0">>)))
           ge == ZpkMagSq(e.z, e.p, Band(e.osr, e.f0, FALSE)[2])
           \* the attenuation of the band is limited to 300 dB
           capped == DLt(DMul(ge, "1e29"), DMul(far, far))
       IN IF ~DLe(far, DMul("1.00001", e.hinf)) THEN "gain-exceeded"
          ELSE IF ~capped /\ ~DClose(far, e.hinf, DMul("1e-5", e.hinf)) THEN "gain-missed"
          ELSE Ok(\A k \in 1..Len(e.at) : ChebOK(e, e.z, e.p, far, e.at[k]), "not-chebyshev")

Clans(e) ==
  IF e.exc # "" THEN "unexpected-exception"
  ELSE IF ~DEq(e.k, "1") THEN "gain-not-one"
  ELSE IF Len(e.p) # e.order \/ ~AllNum(e.p) \/ ~AllNum(e.z) THEN "roots-number"
  ELSE IF ~SameRoots(e.z, e.refz, "1e-9") THEN "zeros-misplaced"
  ELSE IF ~Conjugated(e.p, "1e-9") THEN "poles-not-conjugated"
  ELSE IF \E k \in 1..e.order : ~DLe(CAbs(e.p[k]), DMul(e.rmax, "1.000000001")) THEN "pole-radius"
  ELSE LET w == Warned(e, "Unable to satisfy the constraint on the quantization levels")
           g == DSub(RespNorm(e.z, e.p, 100), "1")
           ee == DDiv("0.5", e.osr)
           edge == ZpkMagSq(e.z, e.p, ee)
       IN IF w /\ DLe(g, e.nq) THEN "undue-warning"
          ELSE IF ~w /\ DLt(DMul("1.0011", e.nq), g) THEN "constraint-violated"
          ELSE IF ~w /\ Len(e.refp) > 0
                  \* null poles are a singular point of the parametrization
                  /\ ~Unable(e)
                  /\ \A k \in 1..e.order : DLe(CAbs(e.refp[k]), DMul(e.rmax, "0.98"))
                  /\ DLe(DSub(RespNorm(e.refz, e.refp, 100), "1"), e.nq)
                  /\ ~DLe(edge, DMul("1.05", ZpkMagSq(e.refz, e.refp, ee)))
               THEN "worse-than-start"
          ELSE "ok"

Verdict(e) ==
  IF e.mutated THEN "argument-altered"
  ELSE IF e.op = "optz" THEN
    IF e.n > 14 /\ e.opt > 0 THEN Ok(e.exc = "ValueError", "bad-request-accepted")
    ELSE IF e.exc # "" THEN "unexpected-exception"
    ELSE Ok(OptZerosOK(e.n, e.opt, e.y), "optimal-zeros")
  ELSE IF e.op = "schreier" THEN Schreier(e)
  ELSE IF e.op = "cheby" THEN Cheby(e)
  ELSE IF e.op = "clans" THEN Clans(e)
  ELSE IF e.exc # "" THEN "unexpected-exception"
  ELSE IF e.op = "band" THEN
    LET b == Band(e.osr, e.f0, e.quad)
    IN Ok(Len(e.y) = 2 /\ DSeqClose(e.y, b, "1e-15"), "signal-band")
  ELSE IF e.op = "objf" THEN Ok(ObjOK(e.x, e.p, e.osr, e.f0, e.y), "objective")
  ELSE IF e.op = "maxflat" THEN Ok(MaxFlatOK(e.n, e.alpha, e.p), "maxflat-zeros")
  ELSE IF e.op = "spread" THEN
    IF Len(e.z) # e.n \/ ~AllNum(e.z) THEN "zeros-number"
    ELSE IF ~Conjugated(e.z, "1e-9") THEN "zeros-not-conjugated"
    ELSE IF e.n % 2 = 1 /\ CountNear(e.z, COne, "1e-12") = 0 THEN "no-zero-at-dc"
    ELSE IF \E k \in 1..e.n : \/ ~DClose(CAbs2(e.z[k]), "1", "1e-9")
                              \/ DLt(e.z[k][1], DSub(CCis(DDiv("0.5", e.osr))[1], "1e-9"))
         THEN "zeros-out-of-band"
    ELSE Ok(\A k \in 1..Len(e.refs) :
             DLe(BandRms(e.z, <<>>, "0", DDiv("0.5", e.osr), 100),
                 DMul("1.01", BandRms(e.refs[k], <<>>, "0", DDiv("0.5", e.osr), 100))), "noise-not-optimized")
  ELSE IF e.op = "clansmap" THEN
    Ok(SameRoots(e.z, e.hz, "1e-12") /\ DEq(e.k, "1") /\ ClansMapOK(e.x, e.n, e.rmax, e.p), "clans-map")
  ELSE "unknown-event"

TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Sc.ev)
             /\ LET v == Verdict(Sc.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

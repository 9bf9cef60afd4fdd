---------------------------- MODULE Trace_Relab ----------------------------
EXTENDS Relab, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]

AllK(n, P(_)) == \A k \in 1..n : P(k)
Ok(b, clause) == IF b THEN "ok" ELSE clause

Verdict(e) ==
  IF e.op = "fail" THEN "unexpected-exception"
  ELSE IF e.mutated THEN "argument-altered"
  ELSE IF e.op = "pair" THEN PairOutcome(e)
  ELSE IF e.exc # "" THEN "unexpected-exception"
  ELSE IF e.op = "quant" THEN Ok(QuantizeOK(e.y, e.n, e.v), "quantizer-law")
  ELSE IF e.op = "shift" THEN Ok(ShiftOK(e.x, e.req, e.y, e.n), "axis-shift")
  ELSE IF e.op = "pad" THEN Ok(PadOK(e.x, e.side, e.n, e.val, e.y), "padding")
  ELSE IF e.op = "part" THEN Ok(PartOK(e.x, e.m, e.p), "partition")
  ELSE IF e.op = "db" THEN
    Ok(e.y.sh = e.x.sh /\ Len(e.y.v) = Len(e.x.v) /\
       AllK(Len(e.x.v), LAMBDA k : RelClose(e.y.v[k], DbOf(e.f, DAbs(e.x.v[k]), e.R), "1e-13")),
       "decibel-law")
  ELSE IF e.op = "undb" THEN
    Ok(e.y.sh = e.x.sh /\ Len(e.y.v) = Len(e.x.v) /\
       AllK(Len(e.x.v), LAMBDA k : RelClose0(e.y.v[k], UnDb(e.f, e.x.v[k], e.R), "1e-12")),
       "decibel-inverse-law")
  ELSE IF e.op = "roundtrip" THEN
    Ok(AllK(Len(e.x.v), LAMBDA k : RelClose(e.y.v[k], e.x.v[k], "1e-12")), "decibel-round-trip")
  ELSE IF e.op = "eps" THEN
    Ok(e.y.sh = e.x.sh /\ AllK(Len(e.x.v), LAMBDA k : SpacingOK(e.x.v[k], e.y.v[k], e.bits)),
       "spacing")
  ELSE IF e.op = "rms" THEN
    Ok(DClose(e.y, RmsOf(e.x, e.nodc), DMul("1e-12", DAdd("1e-300", RmsOf(e.x, FALSE)))), "rms")
  ELSE IF e.op = "negl" THEN
    Ok(e.y.sh = e.x.sh /\ AllK(Len(e.x.v), LAMBDA k : e.y.v[k] = DLt(CAbs(e.x.v[k]), e.tol)),
       "negligible")
  ELSE IF e.op = "chop" THEN
    Ok(e.y.sh = e.x.sh /\ AllK(Len(e.x.v), LAMBDA k :
         DEq(e.y.v[k][1], Chop1(e.x.v[k][1], e.tol)) /\
         DEq(e.y.v[k][2], Chop1(e.x.v[k][2], e.tol))), "chop")
  ELSE IF e.op = "mdot" THEN Ok(SameArr(e.y, MatChain(e.s)), "chained-product")
  ELSE "unknown-event"

TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Sc.ev)
             /\ LET v == Verdict(Sc.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

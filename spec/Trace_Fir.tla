----------------------------- MODULE Trace_Fir -----------------------------
EXTENDS Fir, TLC, Json, IOUtils
N == INSTANCE Trace_Ntf WITH tid <- 1, i <- 0
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]
Ok(b, clause) == IF b THEN "ok" ELSE clause
AllNum(s) == \A k \in 1..Len(s) : CIsNum(s[k])
First(s) == LET bad == SelectSeq(s, LAMBDA v : v # "ok") IN IF bad = <<>> THEN "ok" ELSE Head(bad)

PeakTol == "2e-5"
Form(e, s) ==      \* shape of an answer
  IF s.exc # "" THEN "unexpected-exception"
  ELSE IF ~DEq(s.k, "1") THEN "gain-not-one"
  ELSE IF Len(s.z) # e.n \/ ~AllNum(s.z) THEN "zeros-number"
  ELSE IF Len(s.p) # e.n \/ ~AllNum(s.p) THEN "poles-number"
  ELSE IF \E k \in 1..e.n : ~CEq(s.p[k], e.poles[k]) THEN "poles-altered"
  ELSE IF \E k \in 1..(e.n + 1) : ~DClose(CPoly(s.z)[k][2], "0", DMul("1e-9", DAdd("1", CAbs(CPoly(s.z)[k]))))
    THEN "not-real"
  ELSE "ok"

Weighted(e) ==
  LET a == TLCEval(RealParts(CPoly(e.poles)))
      q == TLCEval(QRow(e.w, e.n, a))
      lb == TLCEval(IF e.d = <<>> THEN "nan" ELSE IF DualOK(e.d[1], e.n) THEN WBound(q, a, e.H, e.d[1]) ELSE "nan")
      ra == Auto(a)
      one(s) ==
        LET f == Form(e, s)
        IN IF f # "ok" THEN f
           ELSE LET x == Num(s.z)
                    rx == Auto(x)
                IN IF ~PeakOK2(rx, ra, e.H, Grid(e.n) \o s.at, PeakTol) THEN "peak-gain"
                   ELSE Ok(NormClose(Quad2(q, x), lb, DMul(q[1], DOfInt(e.n + 1)), e.rel, e.abs), "not-optimal")
  IN First([k \in 1..Len(e.sols) |-> one(e.sols[k])])

(* Infeasible: no function of order n has the zeros and the gain, as its     *)
(* mean square gain is at least one, or by duality over all the frequencies. *)
Infeasible(e) ==
  \/ e.H # "inf" /\ DLt(e.H, "1")
  \/ e.H # "inf" /\ e.zf # <<>> /\ e.inf # <<>> /\ DualOK(e.inf[1], e.n)
     /\ DLt(DMul(Sq(e.H), "1.000001"), MBound(<< <<"0", "0.5">> >>, e.n, "inf", e.inf[1], e.zf))
Minmax(e) ==
  IF Len(e.osr) # Len(e.f0) THEN
    First([k \in 1..Len(e.sols) |-> Ok(e.sols[k].exc = "ValueError"
             /\ e.sols[k].msg = "Incorrect multiband specification", "bad-request-accepted")])
  ELSE IF Infeasible(e) THEN
    First([k \in 1..Len(e.sols) |-> Ok(e.sols[k].exc # "", "impossible-request-accepted")])
  ELSE
  LET bands == TLCEval([b \in 1..Len(e.f0) |-> FBand(e.osr[b], e.f0[b])])
      lb == TLCEval(IF e.d = <<>> THEN "nan" ELSE IF DualOK(e.d[1], e.n) THEN MBound(bands, e.n, e.H, e.d[1], e.zf) ELSE "nan")
      one(s) ==
        LET f == Form(e, s)
        IN IF f # "ok" THEN f
           ELSE LET rx == Auto(Num(s.z))
                IN IF ~PeakOK2(rx, <<"1">>, e.H, Grid(e.n) \o s.at, PeakTol) THEN "peak-gain"
                   ELSE IF \E k \in 1..Len(e.zf) : ~DLe(CAbs(CProd(s.z, CCis(e.zf[k]))), "1e-6") THEN "no-zero-at-center"
                   ELSE Ok(DLe(BandMax(rx, bands, 16, s.at), DAdd(DMul(lb, DAdd("1", e.rel)), e.abs)), "not-optimal")
  IN First([k \in 1..Len(e.sols) |-> one(e.sols[k])])

Verdict(e) ==
  IF e.mutated THEN "argument-altered"
  ELSE IF e.op = "weighted" THEN Weighted(e)
  ELSE IF e.op = "minmax" THEN Minmax(e)
  ELSE IF e.op = "refused" THEN
    Ok(e.exc = "ValueError" /\ (e.text = "" \/ e.msg = e.text), "bad-request-accepted")
  ELSE IF e.op = "dunnz" THEN
    IF e.n > 8 THEN Ok(e.exc = "ValueError", "bad-request-accepted")
    ELSE IF e.exc # "" THEN "unexpected-exception" ELSE Ok(DunnOK(e.n, e.y), "optimal-zeros")
  ELSE IF e.op = "schreier" THEN N!Schreier(e)
  ELSE IF e.exc # "" THEN "unexpected-exception"
  ELSE IF e.op = "dunnc" THEN
    Ok(DunnOK(e.n, e.tab) /\ Len(e.y) = e.n
       /\ \A k \in 1..e.n : CClose(e.y[k], CCis(DDiv(DMul("0.5", e.tab[k]), e.osr)), "1e-12"), "zeros-misplaced")
  ELSE "unknown-event"

TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Sc.ev)
             /\ LET v == Verdict(Sc.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

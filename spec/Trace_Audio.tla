---------------------------- MODULE Trace_Audio ----------------------------
EXTENDS Audio, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]
Ok(b, clause) == IF b THEN "ok" ELSE clause
Is(y, e, tol) == Len(y) = Len(e) /\ \A k \in 1..Len(e) : Same(y[k], e[k], tol)
Tab(name, hfe) ==
  [k \in 1..Rows(hfe) |-> CASE name = "f" -> FOf(k)
                            [] name = "alpha" -> IsoA[Row(k)]
                            [] name = "LU" -> IsoL[Row(k)]
                            [] name = "Tf" -> IsoT[Row(k)]]
LpTab(ln, hfe) == TLCEval([k \in 1..Rows(hfe) |-> Lp(Row(k), ln)])
LnTab(lp, hfe) == TLCEval([k \in 1..Rows(hfe) |-> Ln(Row(k), lp)])
AfTab(ln, hfe) == TLCEval([k \in 1..Rows(hfe) |-> Af(Row(k), ln)])
BfTab(lp, hfe) == TLCEval([k \in 1..Rows(hfe) |-> Bf(Row(k), lp)])
(* intermediate quantities span decades: relative accuracy, on the scale of *)
(* the constant they add                                                    *)
IsRel(y, e) == Len(y) = Len(e) /\ \A k \in 1..Len(e) :
  DLe(DAbs(DSub(y[k], e[k])), DMul("1e-9", DAdd(DAbs(e[k]), "5e-3")))
OutOfRange(ln) == DLt(ln, "0") \/ DLt("90", ln)
(* linear interpolation *)
Lin(hfe, y, f) ==
  LET n == Rows(hfe)
      q == CHOOSE k \in 1..(n - 1) : DLe(FOf(k), f) /\ DLe(f, FOf(k + 1))
      t == DDiv(DSub(f, FOf(q)), DSub(FOf(q + 1), FOf(q)))
  IN DAdd(y[q], DMul(t, DSub(y[q + 1], y[q])))
(* Splines of degree k: knots at the nodes (odd k) or half way (even k),     *)
(* the first and the last ones left out; between knots a polynomial of       *)
(* degree k, whose derivatives up to k-1 go through the knots.               *)
NKnots(n, k) == n - k - 1
Knot(n, k, j) ==
  IF j = 0 THEN FOf(1) ELSE IF j > NKnots(n, k) THEN FOf(n)
  ELSE IF k % 2 = 1 THEN FOf((k + 1) \div 2 + j)
  ELSE DDiv(DAdd(FOf(k \div 2 + j), FOf(k \div 2 + j + 1)), "2")
RECURSIVE Prod(_, _)
Prod(q, k) == IF k = 0 THEN "1" ELSE DMul(q[k], Prod(q, k - 1))
RECURSIVE Total(_, _)
Total(q, k) == IF k = 0 THEN "0" ELSE DAdd(q[k], Total(q, k - 1))
(* the polynomial through the first m samples, at x *)
Thru(xs, ys, m, x) ==
  Total([a \in 1..m |-> DMul(ys[a], Prod([b \in 1..m |-> IF b = a THEN "1"
    ELSE DDiv(DSub(x, xs[b]), DSub(xs[a], xs[b]))], m))], m)
Inside(q, lo, hi) == \A a \in 1..Len(q) : DLt(lo, q[a]) /\ DLt(q[a], hi)
SplineOK(n, k, c) ==
  LET t == Knot(n, k, c.j)
      lo == Knot(n, k, c.j - 1)
      hi == Knot(n, k, c.j + 1)
      d == DDiv(DMin(DSub(t, lo), DSub(hi, t)), "2")
      L(x) == Thru(c.lx, c.ly, k + 1, x)
      R(x) == Thru(c.rx, c.ry, k + 1, x)
      J(x) == DSub(R(x), L(x))
      at(h) == DAdd(t, DMul(h, d))
      sgn == IF k % 2 = 1 THEN "-1" ELSE "1"
      half == Prod([a \in 1..k |-> "0.5"], k)
      one == J(at("1"))
  IN /\ Inside(c.lx, lo, t) /\ Inside(c.rx, t, hi)
     /\ DClose(L(c.lx[k + 2]), c.ly[k + 2], "1e-7") /\ DClose(R(c.rx[k + 2]), c.ry[k + 2], "1e-7")
     /\ DClose(J(t), "0", "1e-6")
     /\ DClose(J(at("-1")), DMul(sgn, one), "1e-6")
     /\ DClose(J(at("0.5")), DMul(half, one), "1e-6")
     /\ DClose(J(at("-0.5")), DMul(sgn, DMul(half, one)), "1e-6")
Verdict(e) ==
  IF e.mutated THEN "argument-altered"
  ELSE IF e.op \in {"contour", "itpl"} /\ OutOfRange(e.ln) THEN
    Ok(e.exc = "ValueError", "bad-request-accepted")
  ELSE IF e.exc # "" THEN "unexpected-exception"
  ELSE IF e.op = "weight" THEN
    IF e.sh # e.shy \/ Len(e.y) # Len(e.f) THEN "wrong-shape"
    ELSE Ok(\A k \in 1..Len(e.f) : WeightOK(e.aw, e.f[k], e.normal, e.power, e.y[k]), "wrong-weight")
  ELSE IF e.op = "filter" THEN
    Ok(\A k \in 1..Len(e.f) : FilterOK(e.aw, e.f[k], e.z, e.p, e.k, e.gain), "filter-differs")
  ELSE IF e.op = "table" THEN Ok(Is(e.y, Tab(e.name, e.hfe), "1e-12"), "wrong-table")
  ELSE IF e.op = "Lp" THEN Ok(Is(e.y, LpTab(e.lev, e.hfe), "1e-8"), "wrong-pressure")
  ELSE IF e.op = "LN" THEN Ok(Is(e.y, LnTab(e.lev, e.hfe), "1e-8"), "wrong-loudness")
  ELSE IF e.op = "Af" THEN Ok(IsRel(e.y, AfTab(e.lev, e.hfe)), "wrong-table")
  ELSE IF e.op = "Bf" THEN Ok(IsRel(e.y, BfTab(e.lev, e.hfe)), "wrong-table")
  ELSE IF e.op = "contour" THEN
    Ok(Is(e.f, Tab("f", e.hfe), "1e-12") /\ Is(e.y, LpTab(e.ln, e.hfe), "1e-8"), "wrong-contour")
  ELSE IF e.op = "itpl" THEN
    LET y == LpTab(e.ln, e.hfe)
    IN IF ~Is(e.nodes, y, "1e-7") THEN "interpolation-misses-nodes"
       ELSE Ok(e.k # 1 \/ \A j \in 1..Len(e.at) : DClose(e.y[j], Lin(e.hfe, y, e.at[j]), "1e-7"),
               "wrong-interpolation")
  ELSE IF e.op = "spline" THEN
    Ok(\A j \in 1..Len(e.cuts) : SplineOK(Rows(e.hfe), e.k, e.cuts[j]), "not-the-spline")
  ELSE "unknown-event"
TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Sc.ev)
             /\ LET v == Verdict(Sc.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

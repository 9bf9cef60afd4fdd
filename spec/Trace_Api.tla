----------------------------- MODULE Trace_Api -----------------------------
(* A call must be what the full call of the function that it stands for is,  *)
(* with a warning if and only if the entry point is deprecated, every time.  *)
EXTENDS Vec, Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]
CloseR(a, b, tol) == a = b \/ (DIsNum(a) /\ DIsNum(b) /\ DLe(DAbs(DSub(a, b)), DMul(tol, DAdd("1", DAbs(b)))))
CloseC(a, b, tol) == CloseR(a[1], b[1], tol) /\ CloseR(a[2], b[2], tol)
Agree(a, b, tol) == /\ a.exc = b.exc /\ a.form = b.form /\ Len(a.vals) = Len(b.vals)
                    /\ \A k \in 1..Len(a.vals) : CloseC(a.vals[k], b.vals[k], tol)
(* Arguments that are not in the signature are refused.                      *)
Verdict(s, e) ==
  IF s.opts # <<>> /\ s.opts[1][1] = "no_such_option" /\ e.r.exc # "TypeError" THEN "unknown-argument-accepted"
  ELSE IF ~Agree(e.r, e.full, s.tol) THEN "differs-from-the-full-call"
  ELSE IF ~Agree(e.again, e.r, s.tol) THEN "differs-when-called-again"
  ELSE IF s.old /\ e.r.exc = "" /\ (e.r.dep = 0 \/ e.again.dep = 0) THEN "no-deprecation-warning"
  ELSE IF ~s.old /\ e.r.dep + e.again.dep > 0 THEN "deprecation-warning"
  ELSE IF e.full.dep > 0 THEN "deprecation-warning-of-the-replacement"
  ELSE "ok"
(* Filters: H = k (z - z1)(z - z2) / (z (z - p)), whose impulse response is  *)
(* taken to T terms, after which it is negligible.                           *)
T == 100
RECURSIVE Pw(_, _)
Pw(a, n) == IF n = 0 THEN "1" ELSE DMul(a, Pw(a, n - 1))
Imp(H) ==
  LET b == <<H.k, DNeg(DMul(H.k, DAdd(H.z[1], H.z[2]))), DMul(H.k, DMul(H.z[1], H.z[2]))>>
      pw == TLCEval([n \in 1..T |-> Pw(H.p, n - 1)])
  IN TLCEval([n \in 1..T |-> DRound(DAdd(DMul(b[1], pw[n]), DAdd(IF n > 1 THEN DMul(b[2], pw[n - 1]) ELSE "0",
                                                  IF n > 2 THEN DMul(b[3], pw[n - 2]) ELSE "0")), 40)])
At(h, k) == IF k \in 1..Len(h) THEN h[k] ELSE "0"
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN "0" ELSE DAdd(Head(q), Sum(Tail(q)))
Through(n, h) == TLCEval([k \in 1..(T + Len(n)) |-> Sum([j \in 1..Len(n) |-> DMul(n[j], At(h, k + 1 - j))])])
GainOf(n, h) == LET y == Through(n, h) IN DDot(y, y)
Acorr(h, P) == [j \in 1..(P + 1) |-> Sum([k \in 1..(T + 1 - j) |-> DMul(h[k], h[k + j - 1])])]
Refused(s) == s.f \notin {"q0l"} /\ (s.form = "hz" \/ (s.form = "mag" /\ s.f \in {"conv", "convl"}))
Close(a, b, tol) == DIsNum(a) /\ DIsNum(b) /\ DLe(DAbs(DSub(a, b)), DMul(tol, DAdd("1e-3", DAbs(b))))
FilterVerdict(s, e) ==
  LET h == Imp(s.H)
      w == IF s.f \in {"gain", "conv", "convl"} THEN <<GainOf(s.ntf, h)>> ELSE IF s.f = "synth" THEN <<>> ELSE Acorr(h, s.P)
  IN IF Refused(s) THEN (IF e.r.exc = "ValueError" THEN "ok" ELSE "unknown-form-accepted")
     ELSE IF e.r.exc # "" THEN "filter-refused"
     ELSE IF s.f \in {"convl", "q0l"} /\ e.r.dep > 0 THEN "deprecation-warning"
     ELSE IF s.f \notin {"convl", "q0l"} /\ e.r.dep = 0 THEN "no-deprecation-warning"
     ELSE IF s.f = "synth" THEN (IF Agree(e.r, e.full, "1e-3") THEN "ok" ELSE "design-differs")
     ELSE IF Len(e.r.vals) # Len(w) THEN "form-of-result"
     ELSE IF \E k \in 1..Len(w) : ~Close(e.r.vals[k][1], w[k], IF s.f \in {"conv", "convl"} THEN "1e-4" ELSE "1e-6")
                                   \/ e.r.vals[k][2] \notin {"0", "0.0"} THEN "value-for-the-filter"
     ELSE "ok"
TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext ==
  /\ i < Len(Sc.ev)
  /\ LET v == IF Sc.part = "filter" THEN FilterVerdict(Sc.s, Sc.ev[i + 1]) ELSE Verdict(Sc.s, Sc.ev[i + 1])
     IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
  /\ i' = i + 1
  /\ tid' = tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

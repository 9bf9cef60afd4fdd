----------------------------- MODULE Trace_Plot -----------------------------
EXTENDS Plot, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i
vars == <<tid, i>>
Sc == Traces[tid]

LabelVerdict(s, e) ==
  LET w == Indexes(s.incr, Len(s.pts))
  IN IF ~e.kept THEN "points-altered"
     ELSE IF s.bad # "" THEN (IF e.exc = "TypeError" THEN "ok" ELSE "increment-accepted")
     ELSE IF e.exc # "" THEN "labels-refused"
     ELSE IF ~e.strings \/ e.long > 13 THEN "labels-form"
     ELSE IF Len(e.labels) # Len(w) THEN "labels-number"
     ELSE IF \E k \in 1..Len(w) : ~DEq(e.labels[k], Shown(s.pts[w[k] + 1])) THEN "label"
     ELSE "ok"

OptOf(s, n, d) == LET q == SelectSeq(s.opts, LAMBDA o : o[1] = n) IN IF q = <<>> THEN d ELSE q[1][2]
Colors(s) == CASE OptOf(s, "color", "'b'") = "'b'" -> <<"#0000ff", "#0000ff">>
               [] OptOf(s, "color", "'b'") = "'r'" -> <<"#ff0000", "#ff0000">>
               [] OTHER -> <<"#008000", "#ff0000">>
Tol(s) == IF s.form = "nd" THEN "1e-5" ELSE "1e-12"
(* The texts under a title list the roots in the upper half plane, the real  *)
(* ones with one number, to four decimals.                                   *)
ListOk(t, title, roots) ==
  LET q == Listed(roots)
  IN /\ t.title = title
     /\ \A k \in 1..Len(t.items) : Len(t.items[k]) = (IF t.pm[k] THEN 2 ELSE 1)
     /\ Matches([k \in 1..Len(q) |-> <<q[k][1], q[k][2]>>], [k \in 1..Len(t.items) |-> IF t.pm[k] THEN <<t.items[k][1], t.items[k][2]>> ELSE <<t.items[k][1], "0">>], "0.0001")
(* The axes cross the whole of the plot: all of the roots and the circle are *)
(* between their ends.  The plot is symmetric with respect to the real axis, *)
(* as the roots are.                                                         *)
Within(w, x) == DLe(w[1], x) /\ DLe(x, w[2])
Spans(s, w) ==
  LET q == s.z \o s.p \o <<<<"1", "0">>, <<"-1", "0">>, <<"0", "0.99">>, <<"0", "-0.99">>>>
  IN /\ \A k \in 1..Len(q) : Within(w.h, q[k][1]) /\ Within(w.v, q[k][2])
     /\ DLe(DAbs(DAdd(w.v[1], w.v[2])), DMul("0.02", DSub(w.v[2], w.v[1])))
PlotVerdict(s, e) ==
  IF s.bad THEN (IF e.exc = "ValueError" THEN "ok" ELSE "roots-without-conjugates-accepted")
  ELSE IF e.exc # "" THEN "plot-refused"
  ELSE IF e.other THEN "plot-elsewhere"
  ELSE IF ~Matches(s.p, e.p, Tol(s)) THEN "poles"
  ELSE IF ~Matches(s.z, e.z, Tol(s)) THEN "zeros"
  ELSE IF e.joined THEN "roots-joined"
  ELSE IF (s.p # <<>> /\ e.pc # <<Colors(s)[1]>>) \/ (s.z # <<>> /\ e.zc # <<Colors(s)[2]>>) THEN "colors"
  ELSE IF e.size # <<>> /\ (Len(e.size) # 1 \/ ~DEq(e.size[1], OptOf(s, "markersize", "5"))) THEN "marker-size"
  ELSE IF ~e.circle THEN "unit-circle"
  ELSE IF e.axes # 2 THEN "axes"
  ELSE IF DOMAIN e.spans # {"h", "v"} \/ ~Spans(s, e.spans) THEN "axes-not-on-the-plot"
  ELSE IF ~s.list THEN (IF e.texts = <<>> THEN "ok" ELSE "unwanted-text")
  ELSE IF Len(e.texts) # (IF s.z = <<>> THEN 1 ELSE 2) THEN "texts"
  ELSE IF ~ListOk(e.texts[1], "Poles:", s.p) \/ (s.z # <<>> /\ ~ListOk(e.texts[2], "Zeros:", s.z)) THEN "texts"
  ELSE "ok"

RunVerdict(s, e) ==
  LET has == s.kind = "test" \/ s.mod \in {"pydsm", "pydsm.delsig", "pydsm.NTFdesign"}
      mark == CASE s.label \in {"", "fast"} -> "not slow" [] s.label = "full" -> "" [] OTHER -> s.label
      what == IF s.tests = <<>> THEN <<s.mod>> ELSE IF s.tests[1] = "str" THEN <<s.tests[2]>> ELSE s.tests
  IN IF ~has THEN "ok"
     ELSE IF ~e.has THEN "no-runner"
     ELSE IF e.exc # "" THEN "runner-failed"
     ELSE IF e.calls # 1 THEN "number-of-runs"
     ELSE IF e.ret # (IF s.code \in {"0", "exit0"} THEN "True" ELSE "False") THEN "result"
     ELSE IF e.glob # <<IF s.kind = "test" THEN "**/benchmark_*.py" ELSE "**/test_*.py">> THEN "kind-of-tests"
     ELSE IF e.mark # mark THEN "label"
     ELSE IF e.doc # s.doc THEN "doctests"
     ELSE IF e.verbose # (IF s.verbose > 1 THEN s.verbose ELSE 1) - 2 THEN "verbosity"
     ELSE IF s.dur >= 0 /\ e.dur # ToString(s.dur) THEN "durations"
     ELSE IF s.dur < 0 /\ e.dur # "" THEN "durations"
     ELSE IF ~e.pyargs \/ e.what # what THEN "what-is-tested"
     ELSE IF (s.extra = <<"-x">>) # (e.maxfail = 1) \/ e.key # (IF Len(s.extra) = 2 THEN "name" ELSE "") THEN "extra-arguments"
     ELSE "ok"

Verdict(e) == CASE Sc.part = "labels" -> LabelVerdict(Sc.s, e)
                [] Sc.part = "plots" -> PlotVerdict(Sc.s, e)
                [] OTHER -> RunVerdict(Sc.s, e)
TraceInit == tid \in 1..Len(Traces) /\ i = 0
TraceNext == /\ i < Len(Sc.ev)
             /\ LET v == Verdict(Sc.ev[i + 1])
                IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", tid, i + 1, v>>)
             /\ i' = i + 1
             /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================

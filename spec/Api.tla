-------------------------------- MODULE Api --------------------------------
(* The interface of the package: what functions exist, the parameters that   *)
(* they take, in order, and the documented defaults of the optional ones.    *)
(* Arguments are written as Python expressions.  A call that omits optional  *)
(* arguments, or gives them by name, is the call that gives all of them in   *)
(* order.  An entry point is the function it stands for; deprecated ones     *)
(* say so with a warning at every call, and no other function does.          *)
EXTENDS Dec, Integers, Sequences, FiniteSets

CONSTANT Slow     \* whether calls that take minutes are made

(* Parameters: name, values to try, default ("" if it has to be given).      *)
Req(n, vs) == [n |-> n, vs |-> vs, d |-> ""]
Opt(n, vs, d) == [n |-> n, vs |-> vs, d |-> d]
Fn(f, ps) == [f |-> f, to |-> f, old |-> FALSE, ps |-> ps, opts |-> <<>>, tol |-> "0", slow |-> ""]
With(r, opts, tol) == [r EXCEPT !.opts = opts, !.tol = tol]
Alias(f, to, r) == [r EXCEPT !.f = f, !.to = to, !.old = TRUE]
Same(f, to, r) == [r EXCEPT !.f = f, !.to = to]

PDb == <<Req("x", <<"10.", "np.array([.3, -4., 1.])", "2+1j">>), Opt("signal_type", <<"'power'", "'voltage'", "'foo'">>, "'voltage'"), Opt("R", <<"50.", "2">>, "1")>>
PCplx == <<Req("x", <<"np.array([1+1j, 3, 1-1j])", "np.array([1+1j, 1-(1+1E-12)*1j])", "np.array([1+1j, 1-1.0000001j, 2.])">>), Opt("tol", <<"1E-3", "1E-15">>, "100*EPS")>>
PEval == <<Req("tf", <<"([1, .5j, -.5j], [.2, .3, -.1], 1)", "([1., 2.], [1., .5])">>), Req("x", <<".5", "np.array([1., 1j])">>)>>
PNtf == <<Opt("order", <<"2", "4", "5">>, "3"), Opt("osr", <<"32", "40.5", "100">>, "64"), Opt("opt", <<"1", "2">>, "0"),
          Opt("H_inf", <<"1.3", "2.">>, "1.5"), Opt("f0", <<".1", ".25">>, "0.")>>
PCheb == <<Opt("order", <<"2", "4", "5">>, "3"), Opt("osr", <<"32", "40.5">>, "64"), Opt("opt", <<"1">>, "0"),
           Opt("H_inf", <<"1.3", "2.">>, "1.5"), Opt("f0", <<".1", ".25">>, "0.")>>
PClans == <<Opt("order", <<"3", "2">>, "4"), Opt("osr", <<"32", "40.5">>, "64"), Opt("nq", <<"4", "6.">>, "5"),
            Opt("rmax", <<".9", ".97">>, "0.95"), Opt("opt", <<"1">>, "0")>>
PDunn == <<Opt("order", <<"2", "4", "9">>, "3"), Opt("osr", <<"32", "100">>, "64"), Opt("H_inf", <<"1.3", "2.">>, "1.5")>>
FirOpts == <<<<"show_progress", <<"False">>>>>>
PFirW(w) == <<Req("order", <<"2", "3">>), Req(w, <<"lambda f: 1./(1.+100*f**2)", "([.5], [.2], 1.)", "([1., .5], [1., -.3])">>),
              Opt("H_inf", <<"1.3", "2.">>, "1.5"), Opt("normalize", <<"1.", "2.5">>, "'auto'")>>
PFirQ == <<Req("q0", <<"np.array([1., .5, .2])", "np.array([2., -.5, .1, .05])">>),
           Opt("H_inf", <<"1.3", "2.">>, "1.5"), Opt("normalize", <<"1.", "2.5">>, "'auto'")>>
PHyb == <<Req("order", <<"2", "3">>), Req("w", <<"lambda f: 1./(1.+100*f**2)", "([1., .5], [1., -.3])">>),
          Opt("H_inf", <<"1.3", "2.">>, "1.5"), Opt("poles", <<"[.3]", "[.2+.1j, .2-.1j]">>, "[]"),
          Opt("normalize", <<"1.", "2.5">>, "'auto'")>>
PAud(d) == <<Req("order", <<"3", "4">>), Req("osr", <<"8", "16">>),
             Opt("audio_weighting", <<"pydsm.audio_weightings.a_weighting", "pydsm.audio_weightings.c_weighting">>, d),
             Opt("audio_band", <<"20E3", "18000">>, "22.05E3"), Opt("max_attn", <<"60", "90.">>, "120"),
             Opt("H_inf", <<"1.3", "2.">>, "1.5"), Opt("normalize", <<"1.", "2.5">>, "'auto'")>>
PMm == <<IF Slow THEN Opt("order", <<"4", "6">>, "32") ELSE Req("order", <<"4", "6">>), Opt("osr", <<"16", "8">>, "32"), Opt("H_inf", <<"1.3", "2.">>, "1.5"),
         Opt("f0", <<".1", ".25">>, "0"), Opt("zf", <<"True">>, "False")>>
PQ0 == <<Req("P", <<"3", "5">>), Req("w", <<"lambda f: 1./(1.+100*f**2)", "([.5], [.2], 1.)", "([1., .5], [1., -.3])">>)>>
QuadOpts == <<<<"quad_opts", <<"{'epsabs': 1E-6}", "{'limit': 60, 'points': [.2]}", "{}">>>>>>
NtfFir == <<"([1., .5j, -.5j], [0., 0., 0.], 1.)", "([1., -1.2, .4], [1., 0., 0.])">>
PGain == <<Req("NTF", NtfFir), Opt("w", <<"lambda f: 1./(1.+100*f**2)", "([.5], [.2], 1.)">>, "None"),
           Opt("bounds", <<"(0, .1)", "(.2, .4)">>, "(0, 0.5)")>>
PConv == <<Req("NTF", NtfFir), Req("H", <<"([.5], [.2], 1.)", "([1., .5], [1., -.3])", "np.array([1., .5, .25])">>),
           Opt("H_type", <<"'ba'", "'imp'", "'mag'", "'zpk'">>, "'zpk'"), Opt("db", <<"40", "120">>, "80")>>
PSim == <<Req("u", <<"np.array([.1, .2, -.3, .45, .5, .1])", "np.array([[.1, .2, .3], [-.1, .5, .4]])">>),
          Req("arg2", <<"([1., 1.], [.5, .25], 1.)", "([1., -1.2, .4], [1., -.1, 0.])">>),
          Opt("nlev", <<"3", "np.array([4])">>, "2"), Opt("x0", <<"np.array([.5, -.25])", "np.array([[.5], [.125]])">>, "0"),
          Opt("store_xn", <<"True">>, "False"), Opt("store_xmax", <<"True">>, "False"), Opt("store_y", <<"True">>, "False")>>
PQuant == <<Req("y", <<"np.array([[.1, -.5, 1.5]])", "np.array([[0., 2.5], [-3., .25]])">>), Req("n", <<"2", "np.array([3])", "np.array([3, 4])">>)>>
PWt == <<Req("f", <<"1000.", "np.array([20., 440., 15E3])", "0">>), Opt("normal", <<"False", "True">>, "True"), Opt("power", <<"False", "True">>, "True")>>
PF1F2 == <<Opt("osr", <<"32", "48">>, "64"), Opt("f0", <<".1", ".25">>, "0"), Opt("complex_flag", <<"True", "False">>, "False")>>
PPad == <<Req("x", <<"np.array([1., 2.])", "np.array([[1., 2.], [3., 4.]])">>), Req("n", <<"3", "5">>), Opt("val", <<"7", "-1.5">>, "0")>>
PRms == <<Req("x", <<"np.array([1., 2., 4.])", "np.array([[1., 2.], [3., -4.]])">>), Opt("no_dc", <<"True", "False">>, "False")>>
PIso == <<Opt("L_N", <<"20", "63.5", "90">>, "40"), Opt("hfe", <<"True", "False">>, "False")>>
PItp == <<Opt("L_N", <<"20", "63.5", "90">>, "40"), Opt("hfe", <<"True", "False">>, "False"), Opt("k", <<"1", "2">>, "3")>>
PHfe == <<Opt("hfe", <<"True", "False">>, "False")>>
PLHfe(n) == <<Req(n, <<"40", "np.full(29, 60.)", "np.full(30, 60.)">>), Opt("hfe", <<"True", "False">>, "False")>>
PDtft == <<Req("x", <<"np.array([1., 2., -1.])", "np.array([1., 2., 3., 4.])">>), Opt("fs", <<"2.", "10">>, "1"), Opt("t0", <<"1", "-.5">>, "0")>>
PDtftH == <<Req("x", <<"np.array([1., 2., -1.])", "np.array([1., 2j])">>), Opt("fs", <<"2.", "10">>, "1")>>
PFft == <<Req("x", <<"np.array([1., 2., -1.])", "np.array([1., 2., 3., 4.])">>), Opt("fs", <<"2.", "10">>, "1")>>
PIdtft == <<Req("Ff", <<"lambda f: np.cos(f)", "lambda f: 1+np.exp(-2j*np.pi*f)">>), Req("tt", <<"np.array([0., 1., 2.])", "np.array([.5])">>), Opt("fs", <<"2.", "1">>, "1")>>
PIr == <<Req("h", <<"([1., .5], [.9, .2], 1.)", "([1., .5], [1., -.3])">>), Opt("m", <<"5", "12">>, "None"), Opt("db", <<"40", "100.">>, "80")>>
PChop == <<Req("x", <<"np.array([1., 1E-13, 1E-14+1E-15j])", "1E-13", "3E-15">>), Opt("tol", <<"1E-12", "1E-15">>, "100*EPS")>>
PSpread == <<Req("order", <<"2", "3">>), Req("OSR", <<"32", "16">>), Req("cf", <<"cost0", "cost2">>),
             Opt("cf_args", <<"[.5, .25]">>, "[]"), Opt("cf_kwargs", <<"{'c': .25}">>, "{}")>>

R(m, r) == [r EXCEPT !.f = "pydsm." \o m \o @, !.to = "pydsm." \o m \o @]
D == "pydsm.delsig."
N == "pydsm.NTFdesign."
Db == R("relab.", Fn("db", PDb))
Cplx == Fn("pydsm.relab.cplxpair", PCplx)
Schreier == With(Fn(D \o "synthesizeNTF", PNtf), <<<<"use_optimizer", <<"False", "True">>>>>>, "1e-9")
Cheb == With(Fn(D \o "synthesizeChebyshevNTF", PCheb), <<>>, "1e-9")
Clans == With(Fn(D \o "clans", PClans), <<<<"show_progress", <<"False">>>>, <<"slsqp_opts", <<"{'maxiter': 80}">>>>>>, "1e-9")
Dunn == With(Fn(N \o "ntf_dunn", PDunn), <<>>, "1e-9")
FirW(w) == With(Fn(N \o "ntf_fir_weighting", PFirW(w)), FirOpts \o QuadOpts, "1e-4")
FirQ == With(Fn(N \o "weighting.ntf_fir_from_q0", PFirQ), FirOpts, "1e-4")
Hyb == With(Fn(N \o "ntf_hybrid_weighting", PHyb), FirOpts, "1e-4")
Aud(d) == With(Fn(N \o "ntf_fir_audio_weighting", PAud(d)), FirOpts, "1e-3")
Mm == [With(Fn(N \o "ntf_fir_minmax", PMm), <<<<"modeler", <<"'cvxpy'">>>>>>, "1e-3") EXCEPT !.slow = "order"]
Q0 == With(Fn(N \o "weighting.q0_weighting", PQ0), QuadOpts, "1e-9")
Gain == With(Fn(N \o "quantization_noise_gain", PGain), QuadOpts, "1e-9")
ByConv == With(Fn(N \o "legacy.quantization_noise_gain_by_conv", PConv), <<>>, "1e-9")
Sim == Fn(D \o "simulateDSM", PSim)
Quant == Fn(D \o "ds_quantize", PQuant)

(* Deprecated and alternative entry points.                                  *)
Entries == <<
  Alias("pydsm.utilities.db", Db.f, Db),
  Alias("pydsm.utilities.cplxpair", Cplx.f, Cplx),
  Alias(N \o "delsig.synthesizeNTF", Schreier.f, Schreier),
  Alias(N \o "delsig.synthesizeChebyshevNTF", Cheb.f, Cheb),
  Alias(N \o "delsig.clans", Clans.f, Clans),
  Alias(N \o "weighting.q0_from_noise_weighting", Q0.f, Q0),
  Alias(N \o "weighting.synthesize_ntf_from_q0", FirQ.f, FirQ),
  Alias(N \o "weighting.synthesize_ntf_from_noise_weighting", FirW("w").f, FirW("noise_weighting")),
  Alias(N \o "weighting.quantization_weighted_noise_gain", Gain.f, Gain),
  Alias(N \o "minmax.synthesize_ntf_minmax", Mm.f, Mm),
  Alias(N \o "psychoacoustic.synthesize_ntf_dunn", Dunn.f, Dunn),
  Alias(N \o "psychoacoustic.synthesize_ntf_from_audio_weighting", Aud("").f, Aud("pydsm.audio_weightings.f_weighting")),
  Alias(N \o "filter_based.quantization_noise_gain_by_conv", ByConv.f, ByConv),
  Same(N \o "delsig.ntf_schreier", Schreier.f, Schreier), Same(N \o "ntf_schreier", Schreier.f, Schreier),
  Same(N \o "delsig.ntf_chebyshev", Cheb.f, Cheb), Same(N \o "ntf_chebyshev", Cheb.f, Cheb),
  Same(N \o "delsig.ntf_clans", Clans.f, Clans), Same(N \o "ntf_clans", Clans.f, Clans),
  Same(N \o "psychoacoustic.ntf_dunn", Dunn.f, Dunn),
  Same(N \o "minmax.ntf_fir_minmax", Mm.f, Mm),
  Same(N \o "weighting.ntf_fir_weighting", FirW("w").f, FirW("w")),
  Same(N \o "weighting.ntf_hybrid_weighting", Hyb.f, Hyb),
  Same(N \o "merit_factors.quantization_noise_gain", Gain.f, Gain),
  Same("pydsm.simulation.simulateDSM", Sim.f, Sim), Same("pydsm.simulation.ds_quantize", Quant.f, Quant)>>
(* Functions with optional arguments.                                        *)
Functions == <<
  Db, Cplx, Schreier, Cheb, Clans, Dunn, FirW("w"), FirQ, Hyb, Aud("'f'"), Mm, Q0, ByConv, Sim, Quant,
  [Gain EXCEPT !.ps = Append(@, Opt("avg", <<"True">>, "False"))],
  R("audio_weightings.", Fn("a_weighting", PWt)), R("audio_weightings.", Fn("b_weighting", PWt)),
  R("audio_weightings.", Fn("c_weighting", PWt)), R("audio_weightings.", Fn("d_weighting", PWt)),
  R("audio_weightings.", Fn("f_weighting", PWt)),
  R("delsig.", Fn("ds_f1f2", PF1F2)),
  R("delsig.", Fn("ds_optzeros", <<Req("n", <<"3", "4", "14", "15">>), Opt("opt", <<"0", "2">>, "1")>>)),
  R("delsig.", Fn("evalRPoly", <<Req("roots", <<"np.array([.5, -.25])">>), Req("x", <<"2.", "np.array([1., 1j])">>), Opt("k", <<"2.5", "-1">>, "1")>>)),
  R("delsig.", Fn("evalTF", PEval)),
  R("delsig.", Fn("padl", PPad)), R("delsig.", Fn("padr", PPad)), R("delsig.", Fn("padt", PPad)), R("delsig.", Fn("padb", PPad)),
  R("delsig.", Fn("partitionABCD", <<Req("ABCD", <<"np.arange(12.).reshape(3, 4)", "np.arange(9.).reshape(3, 3)">>), Opt("m", <<"1", "2">>, "None")>>)),
  R("delsig.", Fn("rms", PRms)),
  R("delsig.", Fn("rmsGain", <<Req("H", <<"([1., .5], [.9, .2], 1.)">>), Req("f1", <<"0.", ".1">>), Req("f2", <<".25", ".5">>), Opt("N", <<"10", "333">>, "100")>>)),
  R("delsig.", Fn("dbm", <<Req("v", <<"1.", "np.array([.5, 2.])">>), Opt("R", <<"1", "75.">>, "50.")>>)),
  R("delsig.", Fn("undbm", <<Req("x", <<"1.", "np.array([-5, 20.])">>), Opt("R", <<"1", "75.">>, "50.")>>)),
  R("relab.", Fn("eps", <<Opt("x", <<"2.", "np.float32(1)", "1E-3">>, "1.")>>)),
  R("relab.", Fn("shiftdim", <<Req("x", <<"np.arange(6).reshape(1, 2, 3)", "np.arange(4).reshape(1, 1, 4)">>), Opt("n", <<"1", "-1">>, "None"), Opt("nargout", <<"1">>, "2")>>)),
  R("utilities.", Fn("chop", PChop)), R("utilities.", Fn("is_negligible", PChop)),
  R("iso226.", Fn("iso226_spl_contour", PIso)), R("iso226.", Fn("tabled_f", PHfe)), R("iso226.", Fn("tabled_alpha_f", PHfe)),
  R("iso226.", Fn("tabled_L_U", PHfe)), R("iso226.", Fn("tabled_T_f", PHfe)),
  R("iso226.", Fn("tabled_L_p", <<Req("L_N", <<"40", "60.">>), Opt("hfe", <<"True", "False">>, "False")>>)),
  R("iso226.", Fn("tabled_L_N", PLHfe("L_p"))),
  R("ft.", Fn("dtft", PDtft)), R("ft.", Fn("dtft_hermitian", PDtftH)), R("ft.", Fn("fft_centered", PFft)),
  With(R("ft.", Fn("idtft", PIdtft)), QuadOpts, "1e-9"), With(R("ft.", Fn("idtft_hermitian", PIdtft)), QuadOpts, "1e-9"),
  R("iso226.", Fn("iso226_spl_itpl", PItp)),
  R("ir.", Fn("impulse_response", PIr)), R("ir.", Fn("guess_ir_length", <<PIr[1], PIr[3]>>)),
  With(R("NTFdesign.helpers.", Fn("spread_fir_uc_zeros", PSpread)), <<>>, "1e-6")>>

(* A call: for every parameter the position of the value that it gets (0 for *)
(* none), how many are given in order, and the options.                      *)
Given(r, v) == {k \in 1..Len(r.ps) : v[k] # 0}
Vectors(r) == {v \in [1..Len(r.ps) -> 0..4] : \A k \in 1..Len(r.ps) : v[k] <= Len(r.ps[k].vs) /\ (r.ps[k].d = "" => v[k] # 0)}
Value(r, v, k) == IF v[k] # 0 THEN r.ps[k].vs[v[k]] ELSE r.ps[k].d
Full(r, v) == [k \in 1..Len(r.ps) |-> Value(r, v, k)]
InOrder(r, v) == CHOOSE n \in 0..Len(r.ps) : (\A k \in 1..n : v[k] # 0) /\ (n = Len(r.ps) \/ v[n + 1] = 0)
=============================================================================

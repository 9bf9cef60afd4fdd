------------------------------ MODULE Options ------------------------------
(***************************************************************************)
(* The protocol of optional parameters.                                     *)
(*                                                                         *)
(* Every function taking **options owns a table of defaults.  An option is  *)
(* either a plain value or a GROUP, i.e. a dictionary of sub-options that   *)
(* is overlaid on the default dictionary entry by entry.  A call            *)
(*   - uses, for each (sub-)option, the value passed or else the default of *)
(*     the called function at the time of the call;                         *)
(*   - fails with TypeError for an option that does not apply;              *)
(*   - never alters the defaults nor the dictionaries it is passed.         *)
(* Tables belong to one function: changing one does not affect another.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

QO == {"epsabs", "epsrel", "limit", "points"}
CO == {"maxiters", "abstol", "reltol", "feastol"}
PO == {"override_kktsolver", "solver"}
SO == {"max_iters", "eps", "alpha", "normalize", "use_indirect"}
LB == {"ftol", "gtol", "maxcor", "maxiter", "maxfun", "eps"}
SL == {"maxiter", "ftol", "eps"}

Subs(o) == CASE o = "quad_opts" -> QO
             [] o = "cvxopt_opts" -> CO
             [] o = "cvxpy_opts" -> PO
             [] o = "scs_opts" -> SO
             [] o = "L_BFGS_B_opts" -> LB
             [] o = "slsqp_opts" -> SL
             [] OTHER -> {}
IsGroup(o) == Subs(o) # {}

QuadFns == {"idtft", "idtft_hermitian", "q0_weighting", "noise_gain",
            "fb_noise_gain", "fb_q0"}
DesignFns == {"from_q0", "fir_weighting", "hybrid", "audio", "minmax"}
WeightFns == {"fir_weighting", "hybrid", "audio"}
Fns == QuadFns \cup DesignFns \cup
       {"fb_synth", "clans", "spread", "schreier", "simulate"}

Solvers == {"cvxpy_opts", "cvxopt_opts", "scs_opts"}
(* The options documented for each function.                                *)
Opts(f) == CASE f \in QuadFns -> {"quad_opts"}
             [] f = "from_q0" -> {"modeler", "show_progress", "fix_pos"} \cup Solvers
             [] f = "minmax" -> {"modeler", "show_progress"} \cup Solvers
             [] f \in WeightFns -> {"modeler", "show_progress", "fix_pos",
                                    "quad_opts"} \cup Solvers
             [] f = "fb_synth" -> {"show_progress", "cvxopt_opts", "quad_opts"}
             [] f = "clans" -> {"show_progress", "slsqp_opts"}
             [] f = "spread" -> {"L_BFGS_B_opts"}
             [] f = "schreier" -> {"use_optimizer"}
             [] f = "simulate" -> {"backend"}

Modelers == {"cvxpy_old", "cvxpy", "picos"}

(* Effective value of an option of function f: d is the table of defaults   *)
(* (function -> option -> value or group), kw what the caller passed.       *)
Eff(d, f, kw, o) == IF o \in DOMAIN kw THEN kw[o] ELSE d[f][o]
EffSub(d, f, kw, o, s) ==
  IF o \in DOMAIN kw /\ s \in DOMAIN kw[o] THEN kw[o][s] ELSE d[f][o][s]
EffGroup(d, f, kw, o) == [s \in DOMAIN d[f][o] |-> EffSub(d, f, kw, o, s)]

(* The solver reached by a design function.                                 *)
Modeler(d, f, kw) == Eff(d, f, kw, "modeler")
Solver(d, f, kw) ==
  IF Modeler(d, f, kw) = "cvxpy"
  THEN EffSub(d, f, kw, "cvxpy_opts", "solver") ELSE "cvxopt"

(* Options that apply to a call.                                            *)
Applicable(d, f, kw) ==
  IF f \in DesignFns
  THEN (Opts(f) \ Solvers) \cup
       (IF Modeler(d, f, kw) = "cvxpy" THEN {"cvxpy_opts"} ELSE {}) \cup
       (IF Solver(d, f, kw) = "scs" THEN {"scs_opts"} ELSE {"cvxopt_opts"})
  ELSE Opts(f)

BadModeler(d, f, kw) == f \in DesignFns /\ Modeler(d, f, kw) \notin Modelers
(* The errors that may be reported for a call; none if it is well formed.   *)
Errors(d, f, kw) ==
  (IF BadModeler(d, f, kw) THEN {"ValueError"} ELSE {}) \cup
  (IF (IF BadModeler(d, f, kw) THEN DOMAIN kw \ Opts(f) # {}
       ELSE DOMAIN kw \ Applicable(d, f, kw) # {}) THEN {"TypeError"} ELSE {})

(***************************************************************************)
(* What arrives at the numerical back ends (integrator, optimizers).        *)
(***************************************************************************)
Sub2(g, S) == [s \in (S \cap DOMAIN g) |-> g[s]]
QuadSink(d, f, kw) == EffGroup(d, f, kw, "quad_opts")

(* Conic solver reached through one of the modelers.                        *)
ConicSink(d, f, kw) ==
  LET m == IF f = "fb_synth" THEN d["from_q0"]["modeler"] ELSE Modeler(d, f, kw)
  IN IF f # "fb_synth" /\ Solver(d, f, kw) = "scs"
     THEN EffGroup(d, f, kw, "scs_opts")
     ELSE EffGroup(d, f, kw, "cvxopt_opts")

(* digested_options itself, on abstract dictionaries.                        *)
DigestOut(opts, defs, keys, multi) ==
  [k \in keys |-> IF k \in DOMAIN opts THEN opts[k] ELSE defs[k]]
DigestMulti(opts, defs, multi) ==
  [k \in multi |-> IF k \in DOMAIN opts
     THEN [s \in DOMAIN defs[k] \cup DOMAIN opts[k] |->
              IF s \in DOMAIN opts[k] THEN opts[k][s] ELSE defs[k][s]]
     ELSE defs[k]]
DigestLeft(opts, keys, multi) == DOMAIN opts \ (keys \cup multi)
=============================================================================

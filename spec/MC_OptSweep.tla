---------------------------- MODULE MC_OptSweep ----------------------------
(* Every option of every function, changed in the defaults and then passed,  *)
(* under every way of making it matter.                                       *)
EXTENDS Options, TLC, Json
VARIABLE r
NoKw == [x \in {} |-> 0]
(* Ways of selecting a back end by arguments.                                 *)
Sel(f) == IF f \notin DesignFns THEN {NoKw}
          ELSE {[modeler |-> m] : m \in Modelers} \cup
               {[modeler |-> "cvxpy", cvxpy_opts |-> [solver |-> sv]]
                 : sv \in {"cvxopt", "scs"}}
Val(o, s) == CASE s = "solver" -> "scs"
               [] o = "modeler" -> "picos"
               [] o = "backend" -> "scipy"
               [] o \in {"show_progress", "fix_pos", "use_optimizer"} \/
                  s \in {"override_kktsolver", "normalize", "use_indirect"} -> "F"
               [] OTHER -> "b"
Slot(o) == IF IsGroup(o) THEN {<<o, s>> : s \in Subs(o)} ELSE {<<o, "">>}
With(k, o, s) ==
  [x \in DOMAIN k \cup {o} |->
     IF x # o THEN k[x]
     ELSE IF s = "" THEN Val(o, s)
     ELSE IF o \in DOMAIN k THEN [y \in DOMAIN k[o] \cup {s} |->
             IF y = s /\ y \notin DOMAIN k[o] THEN Val(o, s) ELSE k[o][y]]
     ELSE [y \in {s} |-> Val(o, s)]]
Init == \E f \in Fns : \E k \in Sel(f) : \E o \in Opts(f) : \E sl \in Slot(o) :
  r = [h |-> <<[op |-> "set", f |-> f, o |-> o, s |-> sl[2], v |-> Val(o, sl[2])],
               [op |-> "call", f |-> f, kw |-> k],
               [op |-> "call", f |-> f, kw |-> With(k, o, sl[2])],
               [op |-> "call", f |-> f, kw |-> NoKw]>>]
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
EmitInv == PrintT("SCEN" \o ToJson(r))
=============================================================================

----------------------------- MODULE MC_Options -----------------------------
(* Histories of changes of the defaults and of calls.                        *)
EXTENDS Options, TLC, Json
CONSTANTS K       \* length of the histories
VARIABLES h,      \* history so far (sequence of commands)
          d,      \* tables of defaults (symbolic values)
          last    \* outcome of the last call
vars == <<h, d, last>>

Vals(o) == CASE o = "modeler" -> {"cvxpy_old", "cvxpy", "picos", "bogus"}
             [] o = "backend" -> {"scipy", "auto"}
             [] o \in {"show_progress", "fix_pos", "use_optimizer"} -> {"T", "F"}
             [] OTHER -> {}
SubVals(o, s) == CASE s = "solver" -> {"cvxopt", "scs"}
                   [] s \in {"override_kktsolver", "normalize", "use_indirect"} -> {"T", "F"}
                   [] OTHER -> {"a", "b"}
Def(f, o) == IF IsGroup(o) THEN [s \in Subs(o) |-> IF s = "solver" THEN "cvxopt" ELSE "dflt"]
             ELSE IF o = "modeler" THEN "cvxpy_old" ELSE "dflt"
Init == /\ h = <<>> /\ last = "none"
        /\ d = [f \in Fns |-> [o \in Opts(f) |-> Def(f, o)]]

Set1(f) == \E o \in Opts(f) :
  IF IsGroup(o)
  THEN \E s \in Subs(o) : \E v \in SubVals(o, s) :
         /\ d' = [d EXCEPT ![f][o][s] = v]
         /\ h' = Append(h, [op |-> "set", f |-> f, o |-> o, s |-> s, v |-> v])
         /\ UNCHANGED last
  ELSE \E v \in Vals(o) :
         /\ d' = [d EXCEPT ![f][o] = v]
         /\ h' = Append(h, [op |-> "set", f |-> f, o |-> o, s |-> "", v |-> v])
         /\ UNCHANGED last

(* One value for an option: a plain value, or a partial group.               *)
Choice(o) == IF o = "zzz" THEN {"a"}
             ELSE IF IsGroup(o)
             THEN UNION {{[s \in {t} |-> v] : v \in SubVals(o, t)} : t \in Subs(o)}
             ELSE Vals(o)
(* At most two options passed in a call.                                     *)
NoKw == [x \in {} |-> 0]
KW(n, p, q, c1, c2) == IF n = 0 THEN NoKw
                       ELSE IF n = 1 \/ p = q THEN [o \in {p} |-> c1]
                       ELSE [o \in {p, q} |-> IF o = p THEN c1 ELSE c2]
Names(f) == Opts(f) \cup (IF RandomElement(1..4) = 1 THEN {"zzz"} ELSE {})
Call1(f) ==
  \E n \in {RandomElement(0..2)} :
  \E p \in {RandomElement(Names(f))} : \E q \in {RandomElement(Names(f))} :
  \E c1 \in {RandomElement(Choice(p))} : \E c2 \in {RandomElement(Choice(q))} :
    LET k == KW(n, p, q, c1, c2)
    IN /\ h' = Append(h, [op |-> "call", f |-> f, kw |-> k])
       /\ last' = IF Errors(d, f, k) # {} THEN "error" ELSE "ok"
       /\ UNCHANGED d

(* A history concentrates on one function and possibly a second one.        *)
Focus == IF h = <<>> THEN Fns ELSE {h[1].f}
Next == /\ Len(h) < K
        /\ \E f \in Focus : \E g \in {f, RandomElement(Fns)} :
             IF RandomElement(1..10) <= (IF Len(h) = K - 1 THEN 0 ELSE 4)
             THEN Set1(g) ELSE Call1(f)
Spec == Init /\ [][Next]_vars
EmitInv == Len(h) = K => PrintT("SCEN" \o ToJson([h |-> h]))

(* The defaults a function sees are those set for it and nothing else.       *)
RECURSIVE Replay(_, _)
Replay(j, t) == IF j > Len(h) THEN t
  ELSE Replay(j + 1,
     IF h[j].op # "set" THEN t
     ELSE IF h[j].s = "" THEN [t EXCEPT ![h[j].f][h[j].o] = h[j].v]
     ELSE [t EXCEPT ![h[j].f][h[j].o][h[j].s] = h[j].v])
OwnDefaults == d = Replay(1, [f \in Fns |-> [o \in Opts(f) |-> Def(f, o)]])
=============================================================================

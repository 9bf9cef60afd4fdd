------------------------------ MODULE MC_Inter ------------------------------
(***************************************************************************)
(* Calls that are in progress together.  Two calls run in threads of which *)
(* one advances at any time, and are switched after any of their steps; or *)
(* the second one is made by a function given to the first.                *)
(*                                                                         *)
(* A call installs the settings it works with at some step and uses them   *)
(* at a later one, then puts back what it found.  Where = "own": in a      *)
(* place of its own.  Where = "shared": in one that all the calls share.   *)
(* The former only makes UseInv and LeaveInv true, whatever the schedule;  *)
(* the services of the package must behave so.                             *)
(***************************************************************************)
EXTENDS Integers, History, TLC, Json
CONSTANTS Part, Where, Slices, Grain, Switches
VARIABLES c, kind, pos, cur, sched, place, found, used
vars == <<c, kind, pos, cur, sched, place, found, used>>
Threads == {1, 2}
Other(t) == 3 - t
Succ(v, n) == (v % n) + 1
(* Pairs of calls of the same service, equal or with different arguments.   *)
Related == {p \in Calls \X Calls : p[1][1] = p[2][1] /\ (p[2][2] = p[1][2] \/ p[2][2] = Succ(p[1][2], Families[p[1][1]]))}
Taking == {c2 \in Calls : c2[1] \in {"gain", "q0", "mult", "helpers", "firold", "fircvx", "hybrid", "ft"}}
Callback == {p \in Taking \X Calls : p[2][2] = 1}
Itself == {p \in Taking \X Calls : p[1][1] = p[2][1]}
Pairs == CASE Part = "related" -> Related
           [] Part = "callback" -> Callback
           [] Part = "itself" -> Itself
           [] Part = "solvers" -> {<<"firold", 5>>, <<"modeling", 1>>} \X {<<"modeling", 2>>, <<"firold", 1>>}
           [] OTHER -> Calls \X Calls
(* The steps at which settings are installed and used.                      *)
SetAt == Slices \div 3
UseAt == (2*Slices) \div 3
Init == /\ c \in Pairs
        /\ kind \in (CASE Part \in {"callback", "itself"} -> {"nested"}
                       [] c[1] = c[2] -> {"shared", "threads"}
                       [] OTHER -> {"threads"})
        /\ pos = [t \in Threads |-> 0] /\ cur = 1 /\ sched = <<>>
        /\ place = [own |-> [t \in Threads |-> 0], shared |-> 0]
        /\ found = [t \in Threads |-> 0] /\ used = [t \in Threads |-> 0]
Held(t) == IF Where = "own" THEN place.own[t] ELSE place.shared
Put(t, v) == IF Where = "own" THEN [place EXCEPT !.own[t] = v] ELSE [place EXCEPT !.shared = v]
Passes(t, p, q) == pos[t] < p /\ p <= q
Done(t) == pos[t] = Slices
(* Thread cur advances to position q, and the other one goes on.            *)
Run(q) ==
  /\ q > pos[cur]
  /\ LET s == Passes(cur, SetAt, q)
         u == Passes(cur, UseAt, q)
         e == Passes(cur, Slices, q)
         f == IF s THEN Held(cur) ELSE found[cur]
         held == IF s THEN cur ELSE Held(cur)
     IN /\ found' = [found EXCEPT ![cur] = f]
        /\ used' = IF u THEN [used EXCEPT ![cur] = held] ELSE used
        /\ place' = IF e THEN Put(cur, f) ELSE IF s THEN Put(cur, cur) ELSE place
  /\ pos' = [pos EXCEPT ![cur] = q]
  /\ sched' = Append(sched, <<cur, q>>)
  /\ UNCHANGED <<c, kind>>
Next ==
  /\ \E t \in Threads : ~Done(t)
  /\ IF Done(Other(cur)) THEN Run(Slices) /\ UNCHANGED cur
     ELSE IF Len(sched) >= Switches THEN Run(Slices) /\ cur' = Other(cur)
     ELSE \E q \in {g \in 1..(Slices - 1) : g % Grain = 0} \cup (IF sched = <<>> THEN {} ELSE {Slices}) :
            /\ kind = "nested" /\ sched # <<>> => q = Slices
            /\ Run(q) /\ cur' = Other(cur)
Spec == Init /\ [][Next]_vars
AllDone == \A t \in Threads : Done(t)
UseInv == \A t \in Threads : Done(t) => used[t] = t
LeaveInv == AllDone => place.shared = 0
(* With settings in a shared place the two hold for Switches = 1 (one call  *)
(* within the other) and for no more.                                       *)
EmitInv == AllDone => PrintT("SCEN" \o ToJson([c |-> c, kind |-> kind, s |-> sched]))
=============================================================================

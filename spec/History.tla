------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Services without memory.  A session is a sequence of actions:           *)
(*   call <<f, v>>  : variant v of the call of a service of family f;      *)
(*   scribble       : the caller overwrites what the last call returned    *)
(*                    and what it gave to it (it owns both).               *)
(* The answer to a call depends on the call alone: it is the one that a    *)
(* fresh session would give.  No call leaves a mark on the environment     *)
(* (error handling, random generator, working directory, warning filters,  *)
(* print options, options of the solvers).                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Dec
(* Variants of the calls in each family: the first differs from each of the *)
(* others in an argument; some fail.                                        *)
Families ==
  [sim |-> 8, sims |-> 4, simb |-> 4, quantize |-> 3, evaltf |-> 4, schreier |-> 8, cheby |-> 5, clans |-> 4,
   optzeros |-> 4, pad |-> 5, rms |-> 4, dbs |-> 6, relab |-> 7, ir |-> 4, corr |-> 4, ft |-> 6,
   gain |-> 6, q0 |-> 4, mult |-> 3, helpers |-> 5, digest |-> 4, audio |-> 6, iso |-> 9,
   dunn |-> 5, firold |-> 10, fircvx |-> 5, firpicos |-> 4, hybrid |-> 6, minmaxold |-> 6,
   minmaxcvx |-> 3, firaudio |-> 4, old |-> 6, modeling |-> 6, linear |-> 4,
   allzeros |-> 14, oldies |-> 12, small |-> 18, atoms |-> 10]
Names == DOMAIN Families
Calls == {<<f, v>> : f \in Names, v \in 1..20} \cap {c \in Names \X (1..20) : c[2] <= Families[c[1]]}
Scribble == <<"scribble", 0>>
(* The machine: what a session has in memory that later answers depend on.  *)
(* For services without memory, nothing.                                    *)
Answer(c) == c
=============================================================================

------------------------------ MODULE MC_Api ------------------------------
(* Calls of entry points: arguments given or omitted, in order or by name.   *)
EXTENDS Api, TLC, Json, Randomization
CONSTANTS Part, K
VARIABLES s, fin
vars == <<s, fin>>
Table == IF Part = "alias" THEN Entries ELSE Functions
(* Every optional argument omitted, every one given alone, all given, and a  *)
(* sample of the rest.                                                       *)
Pick(S, n) == RandomSubset(IF Cardinality(S) < n THEN Cardinality(S) ELSE n, S)
Slows(r, v) == \E k \in 1..Len(r.ps) : r.ps[k].n = r.slow /\ v[k] = 0
Few(r) == LET V == Vectors(r)
              opt == {k \in 1..Len(r.ps) : r.ps[k].d # ""}
              fast == {v \in V : ~Slows(r, v)}
              one(k) == {v \in V : Given(r, v) \cap opt = {k}}
          IN Pick({v \in V : Given(r, v) \cap opt = {}}, 2) \cup UNION {Pick(one(k) \cap fast, 1) : k \in opt}
             \cup Pick({v \in V : opt \subseteq Given(r, v)}, 1) \cup Pick(fast, K)
Call(r, v, m, o) ==
  [f |-> r.f, to |-> r.to, old |-> r.old, tol |-> r.tol,
   pos |-> [k \in 1..m |-> Value(r, v, k)],
   kw |-> LET q == SelectSeq([k \in 1..Len(r.ps) |-> k], LAMBDA k : k > m /\ v[k] # 0)
          IN [k \in 1..Len(q) |-> <<r.ps[q[k]].n, Value(r, v, q[k])>>],
   full |-> Full(r, v), opts |-> o]
OptSets(r, v) == (IF Slows(r, v) THEN {} ELSE {<<>>}) \cup UNION {{<<<<r.opts[k][1], r.opts[k][2][j]>>>> : j \in 1..Len(r.opts[k][2])} : k \in 1..Len(r.opts)}
Calls == UNION {UNION {{Call(r, v, m, o) : m \in Pick(0..InOrder(r, v), 1), o \in Pick(OptSets(r, v), 1)} : v \in Few(r)} : r \in {Table[k] : k \in 1..Len(Table)}}
         \cup UNION {{Call(r, v, InOrder(r, v), <<<<"no_such_option", "1">>>>) : v \in Pick(Vectors(r), 1)} : r \in {Table[k] : k \in 1..Len(Table)}}
(* Gains and correlations of filters, given in every form.  The NTF is FIR   *)
(* with the given coefficients; H has two real zeros, or two real zeros and  *)
(* a pole, and a gain.                                                       *)
Hs == {[z |-> z, p |-> p, k |-> k] : z \in {<<"0.5", "-0.25">>, <<"1", "-1">>, <<"0", "0.75">>}, p \in {"0", "0.5", "-0.25"}, k \in {"1", "-0.5"}}
Ns == {<<"1">>, <<"1", "-1">>, <<"1", "-1.5", "0.75">>, <<"1", "0.5", "-0.25", "0.125">>}
Forms == {"zpk", "ba", "imp", "mag", "hz"}
Filters == {[f |-> f, form |-> t, H |-> h, ntf |-> n, P |-> q] :
            f \in {"gain", "conv", "q0", "convl", "q0l"}, t \in Forms, h \in Pick(Hs, K), n \in Pick(Ns, 2), q \in {3, 6}}
           \cup {[f |-> "synth", form |-> t, H |-> h, ntf |-> <<"1">>, P |-> q] : t \in Forms, h \in Pick(Hs, IF K < 6 THEN 2 ELSE 5), q \in {3, 6}}
Init == s \in (IF Part = "filter" THEN Filters ELSE Calls) /\ fin = FALSE
Next == fin = FALSE /\ fin' = TRUE /\ s' = s
Spec == Init /\ [][Next]_vars
(* The effective arguments are the given ones where given.                   *)
FullInv == Part = "filter" \/ (Len(s.full) >= Len(s.pos) /\ (\A k \in 1..Len(s.pos) : s.full[k] = s.pos[k]) /\ \A k \in 1..Len(s.full) : s.full[k] # "")
EmitInv == fin => PrintT("SCEN" \o ToJson([part |-> Part, s |-> s]))
=============================================================================

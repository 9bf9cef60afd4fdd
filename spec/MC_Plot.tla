------------------------------ MODULE MC_Plot ------------------------------
EXTENDS Plot, TLC, Json, Randomization
CONSTANTS Part, K
VARIABLES s, fin
vars == <<s, fin>>
Pick(S, n) == RandomSubset(IF Cardinality(S) < n THEN Cardinality(S) ELSE n, S)
Pts == {"0", "1", "-2.5", "0.0000005", "-0.00000099", "0.0000011", "123456.75", "1234567.25", "-0.001220703125", "1e9", "3.14159265", "100", "1e-5"}
Points == UNION {Pick([1..n -> Pts], K) : n \in {0, 1, 2, 5, 7}}
Incrs == {<<1>>, <<2>>, <<3>>, <<9>>} \cup {<<a, b>> : a \in {0, 1, 2, 7}, b \in {1, 2, 3}}
Bad == {"1.5", "'2'", "(1, 2.)", "(1, 2, 3)", "None", "[]", "(1,)"}
Labels == {[pts |-> p, incr |-> i, bad |-> "", as |-> t] : p \in Points, i \in Incrs, t \in {"list", "array", "matrix"}}
          \cup {[pts |-> <<"1", "2", "3">>, incr |-> <<1>>, bad |-> b, as |-> "list"] : b \in Bad}
(* Sets of roots, closed under conjugation.                                  *)
Ups == {<<"0.5", "0.25">>, <<"-0.125", "0.75">>, <<"0", "1">>, <<"0.9375", "0.0625">>, <<"0.25", "0.0005">>}
Reals == {<<"1", "0">>, <<"-0.5", "0">>, <<"0", "0">>, <<"0.75", "0">>, <<"3", "0">>}
RECURSIVE Conjs(_)
Conjs(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<c, CConj(c)>> \o Conjs(S \ {c})
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : TRUE IN <<c>> \o Seq1(S \ {c})
Roots == {Conjs(u) \o Seq1(r) : u \in SUBSET Ups, r \in SUBSET Reals}
Small == {q \in Roots : Len(q) <= 5}
Lone == {<<<<"0.5", "0.25">>>>, <<<<"0.5", "0.25">>, <<"0.5", "0.125">>>>}
Opts == {<<>>} \cup {<<<<"color", c>>>> : c \in {"'r'", "['g', 'r']"}} \cup {<<<<"markersize", "8">>>>}
Plots == {[z |-> z, p |-> p, form |-> f, list |-> l, opts |-> o, bad |-> FALSE] :
          z \in Pick(Small, K) \cup {<<>>}, p \in Pick(Small \ {<<>>}, K), f \in {"zpk", "nd", "arrays"}, l \in BOOLEAN, o \in Opts}
         \cup {[z |-> z, p |-> <<>>, form |-> "zpk", list |-> l, opts |-> <<>>, bad |-> FALSE] : z \in Pick(Small, 2), l \in BOOLEAN}
         \cup {[z |-> z, p |-> p, form |-> "zpk", list |-> l, opts |-> <<>>, bad |-> TRUE] : z \in Lone, p \in Pick(Small, 2), l \in BOOLEAN}
         \cup {[z |-> z, p |-> p, form |-> "zpk", list |-> l, opts |-> <<>>, bad |-> TRUE] : p \in Lone, z \in Pick(Small, 2), l \in BOOLEAN}
(* Calls of test() and bench().                                              *)
Runs == {[mod |-> m, kind |-> k, label |-> l, verbose |-> v, extra |-> x, doc |-> d, dur |-> u, tests |-> t, code |-> c] :
         m \in {"pydsm", "pydsm.delsig", "pydsm.NTFdesign", "pydsm.NTFdesign.weighting", "pydsm.NTFdesign.minmax", "pydsm.NTFdesign.legacy"},
         k \in {"test", "bench"}, l \in {"", "fast", "full", "slow and not fast"}, v \in 0..3,
         x \in {<<>>, <<"-x">>, <<"-k", "name">>}, d \in BOOLEAN, u \in {0 - 1, 0, 5},
         t \in {<<>>, <<"pydsm.relab">>, <<"pydsm.relab", "pydsm.ir">>, <<"str", "pydsm.relab">>}, c \in {"0", "1", "exit0", "exit2"}}
Init == s \in (CASE Part = "labels" -> Labels [] Part = "plots" -> Plots [] OTHER -> Pick(Runs, 40 * K)) /\ fin = FALSE
Next == fin = FALSE /\ fin' = TRUE /\ s' = s
Spec == Init /\ [][Next]_vars
(* Roots listed stand for all of them.                                       *)
RootsInv == (Part = "plots" /\ ~s.bad) => Len(s.z) <= 2 * Len(Listed(s.z))
StepsInv == Part = "labels" => LET q == Indexes(s.incr, Len(s.pts)) IN \A k \in 1..Len(q) : q[k] < Len(s.pts) /\ (k > 1 => q[k] > q[k - 1])
EmitInv == fin => PrintT("SCEN" \o ToJson([part |-> Part, s |-> s]))
=============================================================================

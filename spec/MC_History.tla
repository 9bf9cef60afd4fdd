----------------------------- MODULE MC_History -----------------------------
(* Sessions: all the pairs of variants in a family and of families, with the *)
(* caller overwriting or not; long random sessions (simulation).             *)
EXTENDS History, TLC, Json
CONSTANTS Part, K
VARIABLES h, ans, fin
Pairs == {<<<<f, v>>, <<f, w>>>> : f \in Names, v \in 1..20, w \in 1..20}
InFam == {p \in Pairs : p[1][2] <= Families[p[1][1]] /\ p[2][2] <= Families[p[2][1]]}
Cross == {<<<<f, 1>>, <<g, 1>>>> : f \in Names, g \in Names}
Last(f) == <<f, Families[f]>>
Cross2 == {<<Last(f), Last(g)>> : f \in Names, g \in Names}
Init ==
  /\ fin = FALSE
  /\ CASE Part = "family" -> /\ \E p \in InFam : h \in {p, <<p[1], Scribble, p[2]>>}
                          /\ ans = <<>>
    [] Part = "cross" -> /\ \E p \in Cross \cup (IF K > 0 THEN Cross2 ELSE {}) : h = <<p[1], Scribble, p[2]>>
                         /\ ans = <<>>
    [] Part = "walk" -> h = <<>> /\ ans = <<>>
Next == \/ Part = "walk" /\ Len(h) = K /\ ~fin /\ fin' = TRUE /\ UNCHANGED <<h, ans>>
        \/ /\ Part = "walk" /\ Len(h) < K /\ UNCHANGED fin
           /\ \/ \E c \in Calls : h' = Append(h, c) /\ ans' = Append(ans, Answer(c))
              \/ /\ h # <<>> /\ h[Len(h)] # Scribble
                 /\ h' = Append(h, Scribble) /\ ans' = Append(ans, Scribble)
Spec == Init /\ [][Next]_<<h, ans, fin>>
(* Equal calls, equal answers, wherever they are in a session.               *)
PureInv == \A i, j \in 1..Len(ans) : h[i] = h[j] => ans[i] = ans[j]
EmitInv == (Part # "walk" \/ fin) => PrintT("SCEN" \o ToJson(h))
=============================================================================

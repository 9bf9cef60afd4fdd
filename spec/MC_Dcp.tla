------------------------------- MODULE MC_Dcp -------------------------------
(* Expressions to classify, programs to solve; the rules are sound.          *)
EXTENDS Dcp, Json
CONSTANTS Part, K
VARIABLES e, d
vars == <<e, d>>
X == <<"x">>
Y == <<"y">>
N(k) == <<"num", k>>
Consts == {N(0), N(2), N(3), <<"p">>, <<"n">>, <<"m">>, <<"mul", <<"n">>, <<"m">>>>, <<"add", <<"n">>, N(2)>>,
           <<"sub", <<"m">>, <<"n">>>>, <<"neg", <<"m">>>>, <<"mul", <<"p">>, <<"p">>>>}
Affs == {X, <<"sub", X, Y>>, <<"mul", N(2), X>>, <<"mul", <<"p">>, X>>, <<"add", X, N(2)>>, <<"neg", X>>, <<"mul", N(0), X>>}
App1(f, a) == <<"fn", f, <<a>>>>
App2(f, a, b) == <<"fn", f, <<a, b>>>>
(* One use of each function.                                                 *)
Plain == {App1(f, X) : f \in Fun1} \cup {App2(f, X, Y) : f \in Fun2}
FnSet == {App1(f, a) : f \in Fun1, a \in Affs \ {<<"mul", N(0), X>>}}
         \cup {App2(f, a, b) : f \in Fun2 \cup Fun2x, a \in {X, <<"sub", X, Y>>, <<"add", Y, <<"p">>>>}, b \in {Y, X, N(2), <<"n">>, <<"neg", X>>}}
Inner == Plain \cup {<<"neg", f>> : f \in Plain} \cup {<<"mul", <<"m">>, f>> : f \in Plain}
Scaled(f) == {<<"mul", c, f>> : c \in Consts} \cup {<<"mul", f, c>> : c \in Consts} \cup {<<"neg", f>>}
Nest(g) == {App1(f, g) : f \in Fun1} \cup {App2(f, g, b) : f \in Fun2, b \in {X, g}} \cup {App2(f, Y, g) : f \in Fun2} \cup {App2(f, g, X) : f \in Fun2x}
Rels == {"equals", "leq", "geq"}
Init ==
  /\ d = 0
  /\ CASE Part = "lin" -> \E o \in {"add", "sub", "mul"}, a \in Consts \cup Affs, b \in Consts \cup Affs : e = <<o, a, b>>
       [] Part = "fn" -> e \in FnSet
       [] Part = "scale" -> \E f \in Plain : e \in Scaled(f) \cup UNION {{<<"add", f, g>>, <<"sub", f, g>>} : g \in Plain \cup Affs \cup Consts}
       [] Part = "scale2" -> \E f \in Plain, c \in Consts, q \in Consts, o \in {"add", "sub", "mul"} :
                               e \in {<<"mul", q, <<"mul", c, f>>>>, <<"mul", q, <<o, f, c>>>>, <<"mul", <<o, f, c>>, q>>}
       [] Part = "prod" -> \E f \in Plain \cup Affs, g \in Plain \cup Affs : e = <<"mul", f, g>>
       [] Part = "nest" -> \E g \in Inner : e \in Nest(g)
       [] Part = "nest2" -> \E g \in Inner : \E q \in Nest(g) : Allowed(q) /\ (Convex(q) \/ Concave(q)) /\ e \in Nest(q)
       [] Part = "rel" -> \E r \in Rels, a \in Inner \cup Affs \cup Consts, b \in Plain \cup Affs \cup Consts : e = <<"rel", r, a, b>>
       [] Part = "walk" -> e \in Plain \cup Affs
Next ==
  \/ /\ Part = "walk" /\ d < K /\ d' = d + 1
     /\ LET g == RandomElement(Plain \cup Affs \cup Consts)
            f1 == RandomElement(Fun1)
            f2 == RandomElement(Fun2 \cup Fun2x)
            c == RandomElement(Consts)
        IN e' \in {q \in {<<"add", e, g>>, <<"sub", e, g>>, <<"sub", g, e>>, <<"mul", c, e>>, <<"mul", e, c>>, <<"neg", e>>,
                          App1(f1, e), App2(f2, e, X), App2(f2, e, g), App2(f2, g, e)} : Allowed(q) /\ Proper(q)}
  \/ /\ Part = "walk" /\ d = K /\ d' = K + 1 /\ UNCHANGED e
Spec == Init /\ [][Next]_vars
(* Soundness of the rules: on a lattice, what they call convex does not      *)
(* exceed the chord at midpoints, what they call concave exceeds it.         *)
Xs == {"-3", "-1", "0", "0.5", "2", "3"}
Env(x, y, pv) == [x |-> x, y |-> y, p |-> pv, n |-> "1.5", m |-> "-0.5"]
Pairs == {<<"-3", "2">>, <<"-1", "0.5">>, <<"0", "3">>, <<"0.5", "2">>, <<"2", "3">>, <<"-3", "-1">>}
Mid(a, b) == Half(DAdd(a, b))
Chord(f, c) ==
  \A xs \in Pairs, ys \in Pairs \cup {<<"2", "2">>, <<"3", "0.5">>}, pv \in {"-2"} :
    LET u == Ev(f, Env(xs[1], ys[1], pv))
        v == Ev(f, Env(xs[2], ys[2], pv))
        w == Ev(f, Env(Mid(xs[1], xs[2]), Mid(ys[1], ys[2]), pv))
    IN (DIsNum(u) /\ DIsNum(v) /\ DIsNum(w)) =>
         DLe("-1e-20", DMul(IF c = 1 THEN "1" ELSE "-1", DSub(Mid(u, v), w)))
SoundInv ==
  (Part \notin {"rel", "prod", "walk"} /\ Proper(e) /\ Allowed(e)) =>
    /\ Convex(e) => Chord(e, 1)
    /\ Concave(e) => Chord(e, -1)
(* and what is left out is left out for a reason in simple cases: functions  *)
(* of x are not of the other curvature.                                      *)
TightInv == (Part = "fn" /\ e[2] \in Fun1 /\ e[3][1] = X /\ e[2] \notin {"pos1", "pow1"}) =>
              ~Chord(e, IF IsConvexFn(e[2]) THEN -1 ELSE 1)
Emits == CASE Part = "rel" -> Proper(e[3]) /\ Proper(e[4])
           [] Part = "walk" -> d = K + 1
           [] OTHER -> Proper(e)
EmitInv == Emits => PrintT("SCEN" \o ToJson([e |-> e]))
=============================================================================

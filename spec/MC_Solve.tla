------------------------------ MODULE MC_Solve ------------------------------
(* Programs to solve, with the values which the parameters go through, and   *)
(* functions to work out on numbers.                                         *)
EXTENDS Dcp, Json, Randomization, FiniteSets
CONSTANTS Part, K
VARIABLES s, h, fin
vars == <<s, h, fin>>
X == <<"x">>
Y == <<"y">>
N(k) == <<"num", k>>
App1(f, a) == <<"fn", f, <<a>>>>
App2(f, a, b) == <<"fn", f, <<a, b>>>>
Plain == {App1(f, X) : f \in Fun1} \cup {App2(f, X, Y) : f \in Fun2 \cup Fun2x} \cup {App2(f, Y, X) : f \in {"qol", "kl", "Q2"}}
Lin == {X, Y, <<"neg", X>>, <<"sub", X, Y>>, <<"mul", N(2), X>>, <<"mul", <<"p">>, X>>, <<"add", X, N(2)>>, <<"sub", <<"mul", <<"n">>, Y>>, N(3)>>,
        <<"add", Y, <<"mul", <<"p">>, <<"p">>>>>>}
Cst == {N(0), N(2), N(3), N(4), N(5), <<"p">>, <<"n">>, <<"m">>, <<"add", <<"n">>, N(1)>>, <<"mul", <<"m">>, <<"n">>>>}
OfAff == {App1(f, a) : f \in Fun1, a \in Lin} \cup {App2(f, a, b) : f \in Fun2 \cup Fun2x, a \in Lin, b \in Lin}
Pick(S, n) == RandomSubset(IF Cardinality(S) < n THEN Cardinality(S) ELSE n, S)
Ok(S) == {e \in S : Allowed(e) /\ Proper(e) /\ (Convex(e) \/ Concave(e))}
Combos ==
  LET P == Plain \cup Pick(OfAff, 20)
  IN Ok({<<"mul", c, f>> : c \in Cst, f \in P} \cup {<<"mul", f, c>> : c \in Cst, f \in P} \cup {<<"neg", f>> : f \in P}
        \cup {<<o, f, g>> : o \in {"add", "sub"}, f \in P, g \in P \cup Lin \cup Cst}
        \cup {<<o, g, f>> : o \in {"add", "sub"}, f \in P, g \in Lin \cup Cst})
Nests ==
  LET G == Pick(Combos, 30) \cup Plain \cup {<<"neg", f>> : f \in Plain}
  IN Ok({App1(f, g) : f \in Fun1, g \in G} \cup {App2(f, g, b) : f \in Fun2, g \in G, b \in {X, N(2)}}
        \cup {App2(f, Y, g) : f \in Fun2, g \in G})
Boxes == {<<"-2", "3">>, <<"0.5", "2.5">>, <<"-3", "-1">>, <<"0.25", "6">>, <<"-0.75", "1">>}
Lines == {<<"1", "0">>, <<"-1", "2">>, <<"0.5", "1">>, <<"0", "1.5">>}
Values == {[p |-> a, n |-> b, m |-> c] : a \in {"-2", "0", "1.5"}, b \in {"0", "0.5", "2"}, c \in {"0", "-1", "-2.5"}}
Unset == [p |-> "nan", n |-> "nan", m |-> "nan"]
None == <<"none">>
(* A program: act(ion) on e over lo <= x <= hi, y = kx + c and, unless it is *)
(* None, the constraint con: a <= b or a >= b.                               *)
Prog(e, act, con) ==
  CHOOSE q \in {[e |-> e, act |-> act, lo |-> b[1], hi |-> b[2], k |-> l[1], c |-> l[2], con |-> con] :
               b \in {RandomElement(Boxes)}, l \in {RandomElement(Lines)}} : TRUE
Acts(e) == (IF Convex(e) THEN {"minimize"} ELSE {}) \cup (IF Concave(e) THEN {"maximize"} ELSE {})
Of(S) == {Prog(e, a, None) : e \in S, a \in {"minimize", "maximize"}}
ConOf(f) == IF Convex(f) THEN {<<"leq", f, RandomElement({N(1), N(2), X, <<"n">>, <<"add", Y, N(2)>>})>>,
                               <<"geq", RandomElement({N(1), N(2), <<"neg", X>>, <<"add", Y, N(1)>>}), f>>}
            ELSE {<<"geq", f, RandomElement({N(0), N(1), N(3), <<"m">>, <<"sub", X, N(2)>>})>>,
                  <<"leq", RandomElement({N(0), N(4), <<"neg", Y>>, <<"m">>}), f>>}
Objs == Lin \cup {App1("square", X), App2("norm2", X, Y), App1("abs", Y)}
(* Membership of sets, of points with repeated entries too.                  *)
Affs == {X, Y, N(1), N(2), N(5), <<"neg", X>>, <<"sub", X, Y>>, <<"n">>, <<"add", Y, N(2)>>, <<"mul", <<"n">>, X>>}
SetArity(t) == IF t \in {"lncdfh", "ppos2", "ppos3"} THEN 2 ELSE 3
Memberships == UNION {{<<"in", t, q>> : q \in {<<a, b>> : a \in Affs \ {N(1), N(2), N(5)}, b \in Affs}} : t \in {"lncdfh", "ppos2", "ppos3"}}
               \cup UNION {{<<"in", t, q>> : q \in {<<a, b, c>> : a \in Affs, b \in Affs, c \in Affs}} : t \in {u \in Sets : SetArity(u) = 3}}
(* Boxes that are empty, or that have no end.                                *)
Odd(e, a) == {[Prog(e, a, None) EXCEPT !.lo = b[1], !.hi = b[2]] :
              b \in (IF e[1] # "fn" THEN {<<"-inf", "2">>, <<"-1", "inf">>} ELSE {}) \cup {<<"2", "1">>, <<"3", "-3">>}}
Solves ==
  CASE Part = "plain" -> Of(Ok(Plain \cup (IF K = 0 THEN Pick(OfAff, 300) ELSE OfAff)))
    [] Part = "combo" -> Of(Pick(Combos, K))
    [] Part = "nest" -> Of(Pick(Nests, K))
    [] Part = "con" -> UNION {{Prog(o, IF Convex(o) THEN a ELSE "maximize", con) :
                               o \in {RandomElement(Objs)}, a \in {"minimize"}, con \in ConOf(f)} : f \in Ok(Plain) \cup Pick(Nests, K) \cup Pick(Combos, K)}
                       \cup UNION {{Prog(o, "maximize", con) : o \in {RandomElement(Lin)}, con \in ConOf(f)} : f \in Ok(Plain) \cup Pick(Nests, K)}
    [] Part = "set" -> UNION {{Prog(o, a, con) : o \in {RandomElement(Lin)}, a \in {RandomElement({"minimize", "maximize"})}} : con \in Pick(Memberships, K)}
    [] Part = "odd" -> UNION {Odd(e, a) : e \in (Lin \ {<<"mul", <<"p">>, X>>}) \cup {App1("abs", X), App1("square", Y), App2("norm2", X, Y)}, a \in {"minimize", "maximize"}}
Init ==
  /\ fin = FALSE
  /\ IF Part = "num" THEN s \in {App1(f, a) : f \in Fun1, a \in {N(k) : k \in 0..5}} \cup {App2(f, a, b) : f \in Fun2 \cup Fun2x, a \in {N(k) : k \in 0..5}, b \in {N(k) : k \in 0..5}}
     ELSE \E q \in Solves : q.act \in Acts(q.e) /\ s = q
  /\ h = IF Part = "num" \/ ~(Uses(s.e) \/ s.con # None) THEN <<RandomElement(Values)>>
         ELSE IF RandomElement(1..2) = 1 THEN <<RandomElement(Values), RandomElement(Values)>>
         ELSE <<Unset, RandomElement(Values), RandomElement(Values)>>
Next == ~fin /\ fin' = TRUE /\ UNCHANGED <<s, h>>
Spec == Init /\ [][Next]_vars
(* Programs with smooth functions are given to a solver that finds solutions *)
(* when there are points inside the constraints, and nothing else.           *)
Env(q, x) == [x |-> x, y |-> DAdd(DMul(s.k, x), s.c), p |-> q.p, n |-> q.n, m |-> q.m]
Step(j) == DAdd(s.lo, DMul(DSub(s.hi, s.lo), DDiv(DOfInt(j), "16")))
Inside(q, x) ==
  /\ DIsNum(Ev(s.e, Env(q, x)))
  /\ LET r == ConRoom(s.con, Env(q, x)) IN DIsNum(r) /\ (ConSmooth(s.con) => DLe("0.01", r))
Defined(q) == LET G == TLCEval([j \in 1..15 |-> Inside(q, Step(j))]) IN \E j \in 1..14 : G[j] /\ G[j + 1]
Good == Part \in {"num", "odd"} \/ \A k \in 1..Len(h) : h[k] = Unset \/ Defined(h[k])
EmitInv == (~fin /\ Good) => PrintT("SCEN" \o ToJson([part |-> IF Part = "num" THEN "num" ELSE "solve", s |-> s, h |-> h]))
=============================================================================

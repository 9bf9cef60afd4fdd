------------------------------ MODULE MC_Expr ------------------------------
(* Expressions to build, histories of parameters and of sparse arrays.       *)
EXTENDS Expr, TLC, Json, Randomization
CONSTANTS Part, K
VARIABLES e, d, h, st
vars == <<e, d, h, st>>
Two == {"add", "sub", "mul", "hstack", "vstack"}
One == {"neg", "T", "sum", "diag", "trace"}
Atoms == {<<l>> : l \in Leaves} \cup {<<"num", c>> : c \in Numbers}
Few == {<<l>> : l \in {"x", "p", "X", "V", "M", "C", "E"}} \cup {<<"num", c>> : c \in {0, 1, 3}}
Tiny == {<<l>> : l \in {"x", "q", "X", "W", "M", "E"}} \cup {<<"num", 3>>}
Some == IF K = 0 THEN Tiny ELSE Few
Indices == {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 2>>, <<2, 1>>, <<-1, 0>>, <<0, -1>>}
Ranges == {<<0, 1, 1>>, <<0, 2, 1>>, <<1, 2, 1>>, <<0, 2, 2>>, <<0, 3, 2>>, <<1, 4, 1>>}
Shapes == {<<2, 2>>, <<4, 1>>, <<1, 4>>, <<3, 2>>, <<6, 1>>, <<2, 3>>, <<1, 2>>, <<2, 1>>, <<3, 3>>}
Unary(a) == {<<o, a>> : o \in One} \cup {<<"get", a, i[1], i[2]>> : i \in Indices}
            \cup {<<"slice", a, r, c>> : r \in Ranges, c \in Ranges} \cup {<<"reshape", a, s[1], s[2]>> : s \in Shapes}
Values == {"neg", "zero", "pos", "nan"}
Cells == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}
Entries == {"zero", "five", "x"}
Blank == [c \in Cells |-> IF c \in {<<0, 0>>, <<1, 1>>} THEN "five" ELSE "zero"]
ParOps == [o : {"value"}, a : Values] \cup [o : {"attr"}, a : Attrs \cup {"positive"}]
SpOps == [o : {"put"}, c : Cells, a : Entries]
ParStep(s, x) == IF x.o = "value" THEN SetValue(s, x.a) ELSE SetAttr(s, x.a)
ExprInit ==
  \/ Part = "unary" /\ \E a \in Atoms : e \in {a} \cup Unary(a)
  \/ Part = "binary" /\ \E o \in Two \cup Relations, a \in Atoms, b \in Atoms : e = <<o, a, b>>
  \/ Part = "left" /\ \E o \in Two \ {"hstack"}, w \in Two, a, b, c \in Some : e = <<w, <<o, a, b>>, c>>
  \/ Part = "right" /\ \E o \in Two \ {"hstack"}, w \in Two, a, b, c \in Some : e = <<w, a, <<o, b, c>>>>
  \/ Part = "wrap" /\ \E o \in {"add", "sub", "mul"}, a \in Few, b \in Few :
        e \in {<<w, <<o, a, b>>>> : w \in One} \cup {<<o, <<w, a>>, b>> : w \in One} \cup {<<o, a, <<w, b>>>> : w \in One}
  \/ Part = "cmp" /\ \E o \in {"add", "sub", "mul"}, w \in Relations, a, b, c \in Tiny :
        e \in {<<w, <<o, a, b>>, c>>, <<w, c, <<o, a, b>>>>}
  \/ Part \in {"walk", "laws"} /\ e \in Atoms
Init ==
  /\ d = 0
  /\ IF Part = "param" THEN /\ st \in [attr : Attrs, val : {"nan"}] /\ h = <<st>> /\ e = <<>>
     ELSE IF Part = "sparse" THEN st = Blank /\ h = <<>> /\ e = <<>>
     ELSE ExprInit /\ h = <<>> /\ st = 0
Next ==
  \/ /\ Part = "param" /\ Len(h) <= K
     /\ \E x \in ParOps : h' = Append(h, x) /\ st' = ParStep(st, x)
     /\ UNCHANGED <<e, d>>
  \/ /\ Part = "sparse" /\ Len(h) < K
     /\ \E x \in SpOps : h' = Append(h, x) /\ st' = Put(st, x.c[1], x.c[2], x.a)
     /\ UNCHANGED <<e, d>>
  \/ /\ Part = "walk" /\ d < K
     /\ d' = d + 1
     /\ \/ \E o \in Two, a \in RandomSubset(2, Atoms) : e' \in {<<o, e, a>>, <<o, a, e>>}
        \/ e' \in RandomSubset(6, Unary(e))
        \/ e' \in {<<o, e>> : o \in {"neg", "T"}}
     /\ LET v == Den(e') IN ~Ill(v) /\ ~Void(v) /\ v.m * v.n <= 9
     /\ UNCHANGED <<h, st>>
  \/ /\ Part = "walk" /\ d = K /\ d' = K + 1 /\ UNCHANGED <<e, h, st>>
Spec == Init /\ [][Next]_vars
(* A parameter never holds a value its attribute rules out.                  *)
ParInv == Part = "param" => Admits(st.attr, st.val)
(* Algebraic laws of the denotations.                                        *)
SameV(a, b) == Ill(a) \/ Ill(b) \/ Void(a) \/ Void(b)
               \/ (<<a.m, a.n>> = <<b.m, b.n>> /\ \A x \in As : Flat(a, x) = Flat(b, x))
LawInv ==
  Part = "laws" =>
    /\ SameV(Den(<<"T", <<"T", e>>>>), Den(e))
    /\ SameV(Den(<<"neg", <<"neg", e>>>>), Den(e))
    /\ SameV(Den(<<"trace", e>>), Den(<<"sum", <<"diag", e>>>>))
    /\ \A a \in Atoms :
         /\ SameV(Den(<<"add", e, a>>), Den(<<"add", a, e>>))
         /\ SameV(Den(<<"sub", e, a>>), Den(<<"neg", <<"sub", a, e>>>>))
         /\ SameV(Den(<<"T", <<"mul", e, a>>>>), Den(<<"mul", <<"T", a>>, <<"T", e>>>>))
         /\ SameV(Den(<<"T", <<"hstack", e, a>>>>), Den(<<"vstack", <<"T", e>>, <<"T", a>>>>))
         /\ \A b \in Atoms :
              \* a scalar is added to all the entries: nothing to distribute then
              IsS(Den(e)) # IsS(Den(a)) \/ IsS(Den(b)) \/
              SameV(Den(<<"mul", <<"add", e, a>>, b>>), Den(<<"add", <<"mul", e, b>>, <<"mul", a, b>>>>))
EmitInv ==
  CASE Part = "param" -> Len(h) = K + 1 => PrintT("SCEN" \o ToJson([part |-> "param", h |-> h]))
    [] Part = "sparse" -> Len(h) = K => PrintT("SCEN" \o ToJson([part |-> "sparse", h |-> h]))
    [] Part = "walk" -> d = K + 1 => PrintT("SCEN" \o ToJson([part |-> "expr", e |-> e]))
    [] Part = "laws" -> TRUE
    [] OTHER -> PrintT("SCEN" \o ToJson([part |-> "expr", e |-> e]))
=============================================================================

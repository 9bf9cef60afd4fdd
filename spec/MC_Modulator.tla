--------------------------- MODULE MC_Modulator ---------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of the modulator machine: every input    *)
(* sequence of length K over a small alphabet, from every listed initial   *)
(* state, for a catalogue of modulators (low pass, band pass, multi-bit,   *)
(* two inputs, two quantizers).  Every complete behaviour is printed as a  *)
(* scenario to be replayed on the implementation.                          *)
(***************************************************************************)
EXTENDS Modulator, TLC, Json

CONSTANTS K, Emit

Cat == <<
  [name |-> "mod1", order |-> 1, nu |-> 1, nq |-> 1, A |-> <<<<"1">>>>,
   B |-> <<<<"1", "-1">>>>, C |-> <<<<"1">>>>, D |-> <<<<"1">>>>,
   nlev |-> <<2>>, h |-> <<"1", "-1">>],
  [name |-> "none", order |-> 0, nu |-> 1, nq |-> 2, A |-> <<>>, B |-> <<>>,
   C |-> <<<<>>, <<>>>>, D |-> <<<<"1">>, <<"-2">>>>, nlev |-> <<3, 4>>, h |-> <<>>],
  [name |-> "mod2", order |-> 2, nu |-> 1, nq |-> 1,
   A |-> <<<<"1", "0">>, <<"1", "1">>>>, B |-> <<<<"1", "-1">>, <<"2", "-2">>>>,
   C |-> <<<<"0", "1">>>>, D |-> <<<<"1">>>>, nlev |-> <<2>>, h |-> <<"1", "-2", "1">>],
  [name |-> "mod2t", order |-> 2, nu |-> 1, nq |-> 1,
   A |-> <<<<"1", "0">>, <<"1", "1">>>>, B |-> <<<<"1", "-1">>, <<"2", "-2">>>>,
   C |-> <<<<"0", "1">>>>, D |-> <<<<"1">>>>, nlev |-> <<5>>, h |-> <<"1", "-2", "1">>],
  [name |-> "mod2d", order |-> 2, nu |-> 1, nq |-> 1,
   A |-> <<<<"1", "0">>, <<"1", "1">>>>, B |-> <<<<"1", "-1">>, <<"0", "-2">>>>,
   C |-> <<<<"0", "1">>>>, D |-> <<<<"0">>>>, nlev |-> <<3>>, h |-> <<>>],
  [name |-> "bp2", order |-> 2, nu |-> 1, nq |-> 1,
   A |-> <<<<"0", "-1">>, <<"1", "0">>>>, B |-> <<<<"1", "1">>, <<"0", "0">>>>,
   C |-> <<<<"1", "0">>>>, D |-> <<<<"1">>>>, nlev |-> <<4>>, h |-> <<>>],
  [name |-> "two-in", order |-> 2, nu |-> 2, nq |-> 1,
   A |-> <<<<"1", "0">>, <<"1", "1">>>>,
   B |-> <<<<"1", "0", "-1">>, <<"0", "1", "-2">>>>,
   C |-> <<<<"0", "1">>>>, D |-> <<<<"0", "1">>>>, nlev |-> <<3>>, h |-> <<>>],
  [name |-> "two-q", order |-> 2, nu |-> 1, nq |-> 2,
   A |-> <<<<"1", "0">>, <<"0", "1">>>>,
   B |-> <<<<"1", "-1", "0">>, <<"0.5", "1", "-1">>>>,
   C |-> <<<<"1", "0">>, <<"1", "1">>>>, D |-> <<<<"0">>, <<"1">>>>,
   nlev |-> <<2, 5>>, h |-> <<>>],
  [name |-> "mash", order |-> 2, nu |-> 2, nq |-> 2,
   A |-> <<<<"1", "0">>, <<"1", "1">>>>,
   B |-> <<<<"1", "0", "-1", "0">>, <<"0", "-1", "-1", "-1">>>>,
   C |-> <<<<"1", "0">>, <<"0", "1">>>>, D |-> <<<<"1", "0">>, <<"0", "-1">>>>,
   nlev |-> <<4, 3>>, h |-> <<>>] >>

Alpha1 == {"-1", "-0.5", "0", "0.75", "1"}
Alpha2 == {<<"-1", "0.5">>, <<"0", "0">>, <<"1", "-1">>}
Inputs(m) == IF m.nu = 1 THEN {<<a>> : a \in Alpha1} ELSE Alpha2

X0(m) == {VZero(m.order)} \cup {[j \in 1..m.order |-> IF j = 1 THEN "1.5" ELSE "-1"]}

VARIABLES mi, x0, x, hist
vars == <<mi, x0, x, hist>>

Init == /\ mi \in 1..Len(Cat)
        /\ x0 \in X0(Cat[mi])
        /\ x = x0
        /\ hist = <<>>

Cycle(u) == LET r == StepRec(Cat[mi], x, u)
            IN /\ hist' = Append(hist, r)
               /\ x' = r.x
               /\ UNCHANGED <<mi, x0>>

Next == Len(hist) < K /\ \E u \in Inputs(Cat[mi]) : Cycle(u)
Spec == Init /\ [][Next]_vars

(* Quantizer outputs are legitimate levels. *)
LevelsInv == \A i \in 1..Len(hist) : \A q \in 1..Cat[mi].nq :
                hist[i].v[q] \in Levels(Cat[mi].nlev[q])

(* Rounding to the nearest level: no overload => |v - y| <= 1. *)
NoOverloadInv == \A i \in 1..Len(hist) : \A q \in 1..Cat[mi].nq :
    LET y == hist[i].y[q]
        v == hist[i].v[q]
        n == Cat[mi].nlev[q]
    IN DLe(DAbs(y), DOfInt(n)) => DLe(DAbs(DSub(v, y)), "1")

(* Noise shaping: from rest, v = u + h * e with e = v - y. *)
ShapingInv ==
  LET m == Cat[mi]
      e == [i \in 1..Len(hist) |-> DSub(hist[i].v[1], hist[i].y[1])]
      Term(i, k) == IF i - k + 1 >= 1 THEN DMul(m.h[k], e[i - k + 1]) ELSE "0"
  IN (m.h # <<>> /\ x0 = VZero(m.order)) =>
       \A i \in 1..Len(hist) :
          DEq(hist[i].v[1], DAdd(hist[i].u[1], DSum([k \in 1..Len(m.h) |-> Term(i, k)])))

(* First and second order single/multi-bit modulators: classical bounds.   *)
BoundInv == (Cat[mi].name = "mod1" /\ x0 = VZero(1)) =>
               \A i \in 1..Len(hist) : DLe(DAbs(hist[i].y[1]), "2")

EmitInv == (Emit /\ Len(hist) = K) =>
   PrintT("SCEN" \o ToJson([m |-> Cat[mi], x0 |-> x0,
                            u |-> [i \in 1..K |-> hist[i].u],
                            v |-> [i \in 1..K |-> hist[i].v]]))
=============================================================================

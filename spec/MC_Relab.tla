------------------------------ MODULE MC_Relab ------------------------------
(* Enumeration of the arguments of the elementary services, and sanity of   *)
(* their specification.                                                     *)
EXTENDS Relab, TLC, Json
CONSTANTS Part, K
VARIABLE s

CZs == {<<0, 0>>, <<2, 0>>, <<-1, 0>>, <<1, 1>>, <<1, -1>>, <<1, 2>>, <<1, -2>>,
        <<-1, 1>>, <<-1, -1>>}
Dims == 1..3
Items == CASE Part = "pair" -> CZs [] Part = "quant" -> (-20)..20
           [] Part = "shift" -> Dims [] Part = "part" -> 1..5
           [] OTHER -> {}
(* words of at most K items *)
Init == s = <<>>
Next == /\ Len(s) < K
        /\ \E e \in Items : s' = Append(s, e)
Spec == Init /\ [][Next]_s

ToC(z) == <<DOfInt(z[1]), DOfInt(z[2])>>
XC == [k \in 1..Len(s) |-> ToC(s[k])]
Rec == CASE Part = "pair" -> [x |-> s, ok |-> Pairable(XC, "1e-10")]
         [] Part = "quant" -> [y |-> s]
         [] Part = "shift" -> [sh |-> s]
         [] Part = "part" -> [sh |-> s]
EmitInv == s # <<>> => PrintT("SCEN" \o ToJson(Rec))

(* An acceptable arrangement exists exactly for the values that pair up, and *)
(* pairing is insensitive to the order of the values.                        *)
PairInv == (Part = "pair" /\ s # <<>>) =>
             /\ (Pairable(XC, "1e-10") <=>
                   (\A z \in CZs : Cardinality({k \in 1..Len(s) : s[k] = z /\ z[2] # 0}) =
                                   Cardinality({k \in 1..Len(s) : s[k] = <<z[1], -z[2]>> /\ z[2] # 0})))
             /\ (Pairable(XC, "1e-10") => Arranged(XC, Canon(XC), "1e-10"))
(* The axis shift is a bijection on the entries, and shifting back by the    *)
(* shift restores the original shape when the dropped axes have length one.  *)
ShiftInv == (Part = "shift" /\ s # <<>>) =>
   \A r \in {<<>>} \cup {<<n>> : n \in -2..(Len(s) + 1)} :
      /\ {ShiftSrc(s, r, f) : f \in 0..(SizeOf(s) - 1)} = 0..(SizeOf(s) - 1)
      /\ SizeOf(ShiftShape(s, r)) = SizeOf(s)
      /\ r = <<>> => ShiftShape(ShiftShape(s, r), <<-ShiftBy(s, r)>>) = s
QuantInv == (Part = "quant" /\ s # <<>>) =>
   \A k \in 1..Len(s) : \A n \in 1..5 :
      LET y == DDiv(DOfInt(s[k]), "4")
          v == Quant(y, n)
      IN /\ v \in Levels(n) \/ \E w \in Levels(n) : DEq(v, w)
         /\ \A w \in Levels(n) : DLe(DAbs(DSub(y, v)), DAbs(DSub(y, w)))
=============================================================================

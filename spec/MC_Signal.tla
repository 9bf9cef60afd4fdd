------------------------------ MODULE MC_Signal ------------------------------
(* Pairs of short integer sequences, and the laws the specification of the  *)
(* signal services must satisfy on them.                                    *)
EXTENDS Signal, TLC, Json
CONSTANTS K, Wide
VARIABLES x, y
Vals == IF Wide THEN {-2, -1, 0, 1, 3} ELSE {-1, 0, 2}

Init == x = <<>> /\ y = <<>>
Next == \/ /\ Len(x) < K /\ y = <<>>
           /\ \E v \in Vals : x' = Append(x, v)
           /\ UNCHANGED y
        \/ /\ Len(y) < K /\ x # <<>>
           /\ \E v \in Vals : y' = Append(y, v)
           /\ UNCHANGED x
Spec == Init /\ [][Next]_<<x, y>>

D(s) == [k \in 1..Len(s) |-> DOfInt(s[k])]
C(s) == RealC(D(s))
Both == x # <<>> /\ y # <<>>
(* zero-lag of a convolution is Parseval's identity; the quadratic form of  *)
(* the autocorrelation is the energy of the cascade.                        *)
ParsevalInv == Both =>
   /\ DEq(Quad(D(x), [k \in 1..Len(y) |-> RealCorr(D(y), k - 1)]),
          SumSqr(Conv(D(x), D(y))))
   /\ DClose(DMul("2", BandInt(D(x), "0", "0.5")), SumSqr(D(x)), "1e-20")
CorrInv == Both =>
   /\ \A k \in 0..(Len(x) - 1) : DEq(ACorr(C(x), Len(x))[k + 1][1], RealCorr(D(x), k))
   /\ \A k \in 1..Len(x) : DLe(DAbs(ACorr(C(x), Len(x))[k + 1][1]), ACorr(C(x), 0)[1][1])
IrInv == (Both /\ y[1] # 0) =>
   IrOK([num |-> D(x), den |-> D(y)], Ir([num |-> D(x), den |-> D(y)], 6), "1e-25")
EmitInv == Both => PrintT("SCEN" \o ToJson([x |-> x, y |-> y]))
=============================================================================

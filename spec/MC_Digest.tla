------------------------------ MODULE MC_Digest ------------------------------
(* digested_options enumerated over small dictionaries.                      *)
EXTENDS Options, TLC, Json
VARIABLE r
Parts(S, V) == UNION {[T -> V] : T \in SUBSET S}
Init == \E keys \in SUBSET {"a", "b"} : \E multi \in SUBSET {"g"} :
        \E ec \in BOOLEAN : \E plain \in Parts({"a", "b", "z"}, {"1"}) :
        \E gs \in {"absent", "x", "y", "xy", "w", "none"} :
          r = [keys |-> keys, multi |-> multi, ec |-> ec, plain |-> plain, gs |-> gs]
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
EmitInv == PrintT("SCEN" \o ToJson(r))
=============================================================================

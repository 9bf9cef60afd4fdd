----------------------------- MODULE MC_SimArgs -----------------------------
(* Enumerates simulation requests with at most F malformed aspects.         *)
EXTENDS SimArgs, TLC, Json
CONSTANTS F
VARIABLE r
N(b) == IF b THEN 1 ELSE 0
Weight(q) == N(q.backend \notin Backends) + N(NlevBad(q)) + N(UBad(q))
             + N(q.struc \notin {"abcd", "zpk"}) + N(q.extra # 0)
             + N(q.x0 \in {"short", "long", "cube", "str", "scalar"})
Init == /\ r \in [backend : Backends \cup {"matlab"}, order : {1, 2, 3},
                  nlev : {"scalar", "vec1", "vec2", "mat", "str"},
                  u : {"vec", "row", "two", "cube", "str"},
                  struc : {"abcd", "zpk", "zpklist", "abcd1d", "abcdstr", "zpk2d"},
                  nu : {1, 2}, nq : {1, 2}, extra : {-1, 0, 1},
                  x0 : {"zero", "ok", "col", "short", "long", "cube", "str", "scalar"}]
        /\ Weight(r) <= F
        /\ (r.struc # "abcd" => r.nu = 1 /\ r.nq = 1 /\ r.extra = 0)
        /\ (r.order = 1 => r.x0 # "short")
        /\ States(r) >= 1
Next == UNCHANGED r
Spec == Init /\ [][Next]_r
EmitInv == PrintT("SCEN" \o ToJson(r))
(* A request with no malformed aspect and matching sizes is valid.          *)
Sane == (Weight(r) = 0 /\ r.struc = "abcd" /\ r.nu = URows(r) /\ r.nq = NQ(r)) => Valid(r)
=============================================================================

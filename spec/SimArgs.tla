------------------------------ MODULE SimArgs ------------------------------
(***************************************************************************)
(* The argument contract of the modulator simulator.                       *)
(* A request is a record                                                    *)
(*   backend  name of the requested simulator engine                        *)
(*   order    order of the well formed modulator                            *)
(*   nlev     "scalar" "vec1" "vec2" "mat" "str"                            *)
(*   u        "vec" "row" "two" "cube" "str"  (1-D, 1 row, 2 rows, 3-D)     *)
(*   struc    "abcd" modulator matrix, "zpk" NTF tuple, "zpklist" the same  *)
(*            as a list, "abcd1d" "abcdstr" "zpk2d" malformed variants      *)
(*   nu, nq   inputs / quantizers for which an abcd matrix is made          *)
(*   extra    columns added (negative: removed) to the matrix               *)
(*   x0       "zero" "ok" "col" "short" "long" "cube" "str" "scalar"        *)
(* The faults of a request determine which errors may be reported.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Backends == {"scipy", "scipy_blas", "cblas", "auto"}

URows(r) == CASE r.u = "two" -> 2 [] r.u \in {"vec", "row"} -> 1 [] OTHER -> 0
NQ(r) == CASE r.nlev = "vec2" -> 2 [] r.nlev \in {"scalar", "vec1"} -> 1 [] OTHER -> 0

NlevBad(r) == r.nlev \in {"mat", "str"}
UBad(r) == r.u \in {"cube", "str"}
StrucBad(r) ==
  \/ r.struc \in {"abcd1d", "abcdstr", "zpk2d", "zpklist"}
  \/ r.struc = "zpk" /\ (URows(r) # 1 \/ NQ(r) # 1)
  \* columns = states + nu + nq must equal rows + actual number of inputs
  \/ r.struc = "abcd" /\ r.order + r.nu + r.nq + r.extra # r.order + r.nq + URows(r)
(* States the simulator has to assume: rows minus quantizers. *)
States(r) == IF r.struc = "abcd" THEN r.order + r.nq - NQ(r) ELSE r.order
X0Len(r) == CASE r.x0 \in {"ok", "col"} -> r.order
              [] r.x0 = "short" -> r.order - 1
              [] r.x0 = "long" -> r.order + 1
              [] r.x0 = "scalar" -> 1
              [] OTHER -> 0
X0Bad(r) == \/ r.x0 \in {"cube", "str"}
            \/ r.x0 # "zero" /\ X0Len(r) # States(r)
            \/ States(r) < 0

MsgN == "Invalid argument: nlev must be convertible into a 1D int array"
MsgU == "Invalid argument: u must be convertible into a 2D float array"
MsgS == "Incorrect modulator specification"
MsgX == "Incorrect initial condition specification"

Faults(r) ==
  (IF r.backend \notin Backends
   THEN {<<"RuntimeError", "Unsupported simulator backend " \o r.backend>>} ELSE {})
  \cup (IF NlevBad(r) THEN {<<"ValueError", MsgN>>} ELSE {})
  \cup (IF UBad(r) THEN {<<"ValueError", MsgU>>} ELSE {})
  \cup (IF StrucBad(r) THEN {<<"ValueError", MsgS>>} ELSE {})
  \cup (IF X0Bad(r) THEN {<<"ValueError", MsgX>>} ELSE {})

Valid(r) == Faults(r) = {}

Verdict(r, e) ==
  IF e.mutated THEN "argument-altered"
  ELSE IF Valid(r) /\ e.exc # "" THEN "valid-request-rejected"
  ELSE IF ~Valid(r) /\ e.exc = "" THEN "malformed-request-accepted"
  ELSE IF ~Valid(r) /\ <<e.exc, e.msg>> \notin Faults(r) THEN "wrong-error"
  ELSE "ok"
=============================================================================

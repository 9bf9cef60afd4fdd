------------------------------- MODULE Plot -------------------------------
(* Labels of axes, plots of poles and zeros, runs of the test suites.        *)
EXTENDS Vec, FiniteSets

(* Labels: the points with indexes start, start + step, ... (0, 1, ...),     *)
(* to six significant digits, those under a millionth in size shown as 0.    *)
RECURSIVE Steps(_, _, _)
Steps(start, step, n) == IF start >= n THEN <<>> ELSE <<start>> \o Steps(start + step, step, n)
Indexes(incr, n) == IF Len(incr) = 1 THEN Steps(0, incr[1], n) ELSE Steps(incr[1], incr[2], n)
Shown(x) == IF DLt(DAbs(x), "1e-6") THEN "0" ELSE DRound(x, 6)

(* Points to draw, whatever the order: multisets.                            *)
RECURSIVE Matches(_, _, _)
Drop(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Matches(a, b, tol) ==
  IF a = <<>> THEN b = <<>>
  ELSE LET m == {k \in 1..Len(b) : CClose(Head(a), b[k], tol)}
       IN m # {} /\ Matches(Tail(a), Drop(b, CHOOSE k \in m : \A j \in m : k <= j), tol)
Listed(q) == SelectSeq(q, LAMBDA c : ~DLt(c[2], "0"))
(* The text for a root: its real part, and its imaginary part if not real.   *)
TextOf(c) == IF DEq(c[2], "0") THEN <<DRound(c[1], 30)>> ELSE <<c[1], c[2]>>
=============================================================================

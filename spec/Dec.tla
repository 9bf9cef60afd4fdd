-------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* Exact decimal arithmetic for TLC.                                       *)
(*                                                                         *)
(* TLC's integers have 32 bits, so the real numbers that cross the         *)
(* boundary between the implementation and the specification are carried   *)
(* as STRINGS holding a decimal literal ("-0.125", "3e-7").  Every IEEE    *)
(* double is exactly representable this way, hence nothing is lost on the  *)
(* way in.  "nan", "inf" and "-inf" are admitted as values: they are not   *)
(* numbers and every comparison with them is FALSE, except that DIsNum can *)
(* be used to recognise them.                                              *)
(*                                                                         *)
(* The operators below are overridden by java/tlc2/module/Dec.java         *)
(* (java.math.BigDecimal).  +, -, * and comparisons are EXACT.  Division,  *)
(* square root are correctly rounded to 60 significant digits.             *)
(* The transcendental primitives are evaluated to about 30 digits by       *)
(* power series.                                                           *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

Undefined == CHOOSE x : x \notin {}

DAdd(a, b) == Undefined      \* a + b
DSub(a, b) == Undefined      \* a - b
DMul(a, b) == Undefined      \* a * b
DDiv(a, b) == Undefined      \* a / b  ("nan" when b = 0)
DNeg(a)    == Undefined      \* -a
DAbs(a)    == Undefined      \* |a|
DLe(a, b)  == Undefined      \* a <= b
DLt(a, b)  == Undefined      \* a < b
DEq(a, b)  == Undefined      \* a = b as numbers
DMax(a, b) == Undefined
DMin(a, b) == Undefined
DFloor(a)  == Undefined      \* largest integer <= a, as a decimal string
DToInt(a)  == Undefined      \* TLC integer; a must be integral and < 2^31
DOfInt(i)  == Undefined      \* decimal string of a TLC integer
DIsNum(a)  == Undefined      \* a is a string holding a finite number
DSqrt(a)   == Undefined
DSum(s)    == Undefined      \* sum of a sequence of decimals
DDot(s, t) == Undefined      \* sum of s[i]*t[i]; lengths must agree
DAbsDot(s, t) == Undefined   \* sum of |s[i]*t[i]|
DMaxAbs(s) == Undefined      \* max |s[i]|, "0" for the empty sequence
DRound(a, n) == Undefined    \* a rounded to n significant digits
DCos2Pi(f) == Undefined      \* cos(2*pi*f)
DSin2Pi(f) == Undefined      \* sin(2*pi*f)
DExp(a)    == Undefined
DLn(a)     == Undefined      \* natural logarithm, "nan" for a <= 0
DPi        == Undefined
DClose(a, b, tol) == Undefined   \* |a-b| <= tol, FALSE if any is not a number
DSeqClose(s, t, tol) == Undefined  \* same length and DClose elementwise
=============================================================================

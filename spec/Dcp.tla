-------------------------------- MODULE Dcp --------------------------------
(***************************************************************************)
(* Disciplined convex programming in pydsm.cvxpy_tdr: which expressions    *)
(* the rules declare convex, concave or affine, what the expressions are   *)
(* worth, and what it means that a program has been solved.                *)
(*                                                                         *)
(* <<"num", k>>, <<"x">>, <<"y">>, parameters <<"p">> (any sign), <<"n">>  *)
(* (nonnegative), <<"m">> (nonpositive), <<"add", a, b>>, <<"sub", a, b>>, *)
(* <<"mul", a, b>>, <<"neg", a>>, <<"fn", name, <<args>>>>.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Dec
NumVal(k) == <<"0", "1", "2", "-1", "0.5", "-3">>[k + 1]
Params == {"p", "n", "m"}
(* The functions: curvature and, for each argument, whether the function   *)
(* grows with it ("up"), decreases with it ("down") or neither ("aff").    *)
Fun1 == {"abs", "square", "sqrt", "exp", "log", "huber", "huber2", "pos1", "pos2", "pos3", "pabs1", "pabs3", "pow1",
         "pow2", "lncdf", "Q1", "Q3", "Q4"}
Fun2 == {"max", "min", "norm1", "norm2", "norminf", "qol", "lse", "gm", "kl", "lmax", "lmin", "qform", "nuc", "det",
         "spec", "Q2"}
(* The same on more entries than two, on other matrices, or entry by entry. *)
Fun2x == {"gm3", "gm5", "lse3", "max3", "min3", "n2x", "n1x", "qf2", "kl2", "lmax3", "lmin3", "nucs", "specs", "det3",
          "sqs", "exps", "logs", "pos2s", "hubs", "abss", "sqrts"}
Funs == Fun1 \cup Fun2 \cup Fun2x
IsConvexFn(f) == f \notin {"sqrt", "log", "min", "gm", "lmin", "det", "lncdf", "Q4", "gm3", "gm5", "min3", "lmin3", "det3", "logs",
                               "sqrts"}
IsConcaveFn(f) == ~IsConvexFn(f)
Mono(f, k) ==
  CASE f \in {"exp", "sqrt", "log", "pos1", "pos2", "pos3", "max", "min", "lse", "gm", "lncdf", "Q2", "gm3", "gm5", "lse3", "max3",
              "min3", "exps", "logs", "pos2s", "sqrts"} -> "up"
    [] f = "qol" /\ k = 2 -> "down"
    [] OTHER -> "aff"
(* Numbers are combined at once; a product by the number 0 is 0.           *)
RECURSIVE NumOf(_)
NumOf(e) ==
  CASE e[1] = "num" -> NumVal(e[2])
    [] e[1] = "neg" -> DNeg(NumOf(e[2]))
    [] e[1] = "add" -> DAdd(NumOf(e[2]), NumOf(e[3]))
    [] e[1] = "sub" -> DSub(NumOf(e[2]), NumOf(e[3]))
    [] e[1] = "mul" -> IF NumOf(e[2]) = "nan" THEN (IF DEq(NumOf(e[3]), "0") THEN "0" ELSE "nan")
                       ELSE IF DEq(NumOf(e[2]), "0") THEN "0" ELSE DMul(NumOf(e[2]), NumOf(e[3]))
    [] OTHER -> "nan"
IsNum(e) == DIsNum(NumOf(e))
(* Constants: no variables.  Signs that are known without knowing the      *)
(* values of the parameters.                                               *)
RECURSIVE IsConst(_)
IsConst(e) ==
  CASE e[1] \in {"x", "y"} -> FALSE
    [] e[1] \in {"num"} \cup Params -> TRUE
    [] e[1] = "neg" -> IsConst(e[2])
    [] e[1] = "fn" -> \A k \in 1..Len(e[3]) : IsConst(e[3][k])
    [] OTHER -> IsNum(e) \/ (IsConst(e[2]) /\ IsConst(e[3]))
(* s = 1: surely >= 0; s = -1: surely <= 0.                                *)
RECURSIVE HasSign(_, _)
HasSign(e, s) ==
  IF IsNum(e) THEN (IF s = 1 THEN DLe("0", NumOf(e)) ELSE DLe(NumOf(e), "0"))
  ELSE CASE e[1] = "n" -> s = 1
         [] e[1] = "m" -> s = -1
         [] e[1] = "neg" -> HasSign(e[2], -s)
         [] e[1] = "add" -> HasSign(e[2], s) /\ HasSign(e[3], s)
         [] e[1] = "sub" -> HasSign(e[2], s) /\ HasSign(e[3], -s)
         [] e[1] = "mul" -> (HasSign(e[2], 1) /\ HasSign(e[3], s)) \/ (HasSign(e[2], -1) /\ HasSign(e[3], -s))
         [] OTHER -> FALSE
(* Products of expressions which both have variables are not allowed.      *)
RECURSIVE Allowed(_)
Allowed(e) ==
  CASE e[1] \in {"x", "y", "num"} \cup Params -> TRUE
    [] e[1] = "neg" -> Allowed(e[2])
    [] e[1] = "fn" -> \A k \in 1..Len(e[3]) : Allowed(e[3][k])
    [] OTHER -> Allowed(e[2]) /\ Allowed(e[3])
                /\ (e[1] = "mul" => IsConst(e[2]) \/ IsConst(e[3]) \/ IsNum(e[2]) \/ IsNum(e[3]))
(* Functions of constants are left out: they are worked out numerically    *)
(* when the arguments are numbers.  Numbers out of the domain are left out *)
(* too.                                                                    *)
RECURSIVE Proper(_)
Proper(e) ==
  CASE e[1] \in {"x", "y", "num"} \cup Params -> TRUE
    [] e[1] = "neg" -> Proper(e[2])
    [] e[1] = "fn" -> /\ \E k \in 1..Len(e[3]) : ~IsConst(e[3][k])
                      /\ \A k \in 1..Len(e[3]) : Proper(e[3][k]) /\ (IsNum(e[3][k]) => DLt("0", NumOf(e[3][k])))
    [] OTHER -> Proper(e[2]) /\ Proper(e[3])
RECURSIVE Aff(_)
Aff(e) ==
  IF IsNum(e) \/ IsConst(e) THEN TRUE
  ELSE CASE e[1] \in {"x", "y"} -> TRUE
         [] e[1] = "neg" -> Aff(e[2])
         [] e[1] = "fn" -> FALSE
         [] OTHER -> Aff(e[2]) /\ Aff(e[3])
(* c = 1: convex by the rules; c = -1: concave.                            *)
RECURSIVE Curv(_, _)
Curv(e, c) ==
  IF Aff(e) THEN TRUE
  ELSE CASE e[1] = "neg" -> Curv(e[2], -c)
         [] e[1] = "add" -> Curv(e[2], c) /\ Curv(e[3], c)
         [] e[1] = "sub" -> Curv(e[2], c) /\ Curv(e[3], -c)
         [] e[1] = "mul" ->
              LET k == IF IsConst(e[2]) THEN e[2] ELSE e[3]
                  f == IF IsConst(e[2]) THEN e[3] ELSE e[2]
              IN (HasSign(k, 1) /\ Curv(f, c)) \/ (HasSign(k, -1) /\ Curv(f, -c))
         [] e[1] = "fn" -> /\ c = IF IsConvexFn(e[2]) THEN 1 ELSE -1
                           /\ \A k \in 1..Len(e[3]) :
                                CASE Mono(e[2], k) = "up" -> Curv(e[3][k], c)
                                  [] Mono(e[2], k) = "down" -> Curv(e[3][k], -c)
                                  [] OTHER -> Aff(e[3][k])
Convex(e) == Curv(e, 1)
Concave(e) == Curv(e, -1)
(* Constraints: a relation, or <<"in", set, <<args>>>>.                     *)
Sets == {"soc", "soc3", "sdc", "sdc3", "sdcn", "exp", "gmc", "gmc3", "klc", "klc2", "lncdfh", "ppos2", "ppos3"}
SmoothSets == {"exp", "klc", "klc2", "lncdfh", "ppos2", "ppos3"}
ConstraintDcp(rel, a, b) ==
  CASE rel = "equals" -> Aff(a) /\ Aff(b)
    [] rel = "leq" -> Convex(a) /\ Concave(b)
    [] rel = "geq" -> Concave(a) /\ Convex(b)
    [] rel = "in" -> \A k \in 1..Len(b) : Aff(b[k])
(* Values.  "nan" out of the domain.                                       *)
Sq(a) == DMul(a, a)
Pos(a) == DMax(a, "0")
Half(a) == DDiv(a, "2")
RECURSIVE PhiSum(_, _, _, _)
(* sum of (-1)^k a^(2k+1) / (2^k k! (2k+1)), the k-th power in t            *)
PhiSum(a, k, t, acc) ==
  IF k = 60 THEN acc
  ELSE PhiSum(a, k + 1, DRound(DDiv(DMul(t, DNeg(Sq(a))), DOfInt(2 * (k + 1))), 60),
              DAdd(acc, DDiv(t, DOfInt(2 * k + 1))))
Phi(a) == DAdd("0.5", DDiv(PhiSum(a, 0, a, "0"), DSqrt(DMul("2", DPi))))
Huber(a, M) == IF DLe(DAbs(a), M) THEN Sq(a) ELSE DSub(DMul(DMul("2", M), DAbs(a)), Sq(M))
(* Largest eigenvalue of ((a, 1), (1, b)).                                 *)
Eig(a, b, s) == DAdd(Half(DAdd(a, b)), DMul(s, DSqrt(DAdd(Sq(Half(DSub(a, b))), "1"))))
Fn1(f, a) ==
  CASE f = "abs" -> DAbs(a)
    [] f = "square" -> Sq(a)
    [] f = "sqrt" -> IF DLt(a, "0") THEN "nan" ELSE DSqrt(a)
    [] f = "exp" -> DExp(a)
    [] f = "log" -> DLn(a)
    [] f = "huber" -> Huber(a, "1")
    [] f = "huber2" -> Huber(a, "2")
    [] f = "pos1" -> Pos(a)
    [] f = "pos2" -> Sq(Pos(a))
    [] f = "pos3" -> DMul(Pos(a), Sq(Pos(a)))
    [] f = "pabs1" -> DAbs(a)
    [] f = "pabs3" -> DMul(DAbs(a), Sq(a))
    [] f = "pow1" -> IF DLt(a, "0") THEN "nan" ELSE a
    [] f = "pow2" -> IF DLt(a, "0") THEN "nan" ELSE Sq(a)
    [] f = "lncdf" -> IF DLe(DAbs(a), "4") THEN DLn(Phi(a)) ELSE "nan"
    \* programs used as functions
    [] f = "Q1" -> DAbs(a)
    [] f = "Q3" -> IF DLe(DAbs(a), "0.5") THEN Sq(a) ELSE DSub(DAbs(a), "0.25")
    [] f = "Q4" -> DMin(a, DSub("2", a))
RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN "1" ELSE DMul(Head(q), Product(Tail(q)))
Root(q, n) == IF \E k \in 1..Len(q) : DLt(q[k], "0") THEN "nan"
              ELSE IF DEq(Product(q), "0") THEN "0" ELSE DExp(DDiv(DLn(Product(q)), DOfInt(n)))
Fn2(f, a, b) ==
  CASE f = "max" -> DMax(a, b)
    [] f = "min" -> DMin(a, b)
    [] f = "norm1" -> DAdd(DAbs(a), DAbs(b))
    [] f = "norm2" -> DSqrt(DAdd(Sq(a), Sq(b)))
    [] f = "norminf" -> DMax(DAbs(a), DAbs(b))
    [] f = "qol" -> IF DLe(b, "0") THEN "nan" ELSE DDiv(Sq(a), b)
    [] f = "lse" -> DLn(DAdd(DExp(a), DExp(b)))
    [] f = "gm" -> IF DLt(a, "0") \/ DLt(b, "0") THEN "nan" ELSE DSqrt(DMul(a, b))
    [] f = "kl" -> IF DLe(a, "0") \/ DLe(b, "0") THEN "nan" ELSE DAdd(DSub(DMul(a, DLn(DDiv(a, b))), a), b)
    [] f = "lmax" -> Eig(a, b, "1")
    [] f = "lmin" -> Eig(a, b, "-1")
    [] f = "qform" -> DMul("2", DAdd(DAdd(Sq(a), Sq(b)), DMul(a, b)))
    [] f = "nuc" -> DAdd(DAbs(a), DAbs(b))
    [] f = "spec" -> DMax(DAbs(a), DAbs(b))
    [] f = "det" -> IF DLt(a, "0") \/ DLt(b, "0") \/ DLt(DMul(a, b), "1") THEN "nan"
                    ELSE DSqrt(DSub(DMul(a, b), "1"))
    [] f = "Q2" -> DAdd(DMul("2", a), b)
    [] f = "gm3" -> Root(<<a, b, a>>, 3)
    [] f = "gm5" -> Root(<<a, b, a, b, a>>, 5)
    [] f = "lse3" -> DLn(DAdd(DMul("2", DExp(a)), DExp(b)))
    [] f = "max3" -> DMax(a, b)
    [] f = "min3" -> DMin(a, b)
    [] f = "n2x" -> DSqrt(DAdd(DMul("2", Sq(a)), Sq(b)))
    [] f = "n1x" -> DAdd(DMul("2", DAbs(a)), DAbs(b))
    [] f = "qf2" -> Sq(DAdd(a, b))
    [] f = "kl2" -> IF DLe(a, "0") \/ DLe(b, "0") THEN "nan" ELSE DMul(DSub(a, b), DLn(DDiv(a, b)))
    [] f = "lmax3" -> DMax(a, Eig(a, b, "1"))
    [] f = "lmin3" -> DMin(a, Eig(a, b, "-1"))
    [] f = "nucs" -> DAdd(DAbs(DAdd(a, b)), DAbs(DSub(a, b)))
    [] f = "specs" -> DMax(DAbs(DAdd(a, b)), DAbs(DSub(a, b)))
    [] f = "det3" -> IF DLt(a, "0") \/ DLt(b, "0") \/ DLt(DMul(a, b), "1") THEN "nan" ELSE Root(<<a, DSub(DMul(a, b), "1")>>, 3)
    [] f = "sqs" -> DAdd(Sq(a), Sq(b))
    [] f = "exps" -> DAdd(DExp(a), DExp(b))
    [] f = "logs" -> IF DLe(a, "0") \/ DLe(b, "0") THEN "nan" ELSE DAdd(DLn(a), DLn(b))
    [] f = "pos2s" -> DAdd(Sq(Pos(a)), Sq(Pos(b)))
    [] f = "hubs" -> DAdd(Huber(a, "1"), Huber(b, "1"))
    [] f = "abss" -> DAdd(DAbs(a), DAbs(b))
    [] f = "sqrts" -> IF DLt(a, "0") \/ DLt(b, "0") THEN "nan" ELSE DAdd(DSqrt(a), DSqrt(b))
RECURSIVE Ev(_, _)
Ev(e, env) ==
  CASE e[1] = "num" -> NumVal(e[2])
    [] e[1] \in {"x", "y"} \cup Params -> env[e[1]]
    [] e[1] = "neg" -> DNeg(Ev(e[2], env))
    [] e[1] = "add" -> LET a == Ev(e[2], env) b == Ev(e[3], env) IN IF DIsNum(a) /\ DIsNum(b) THEN DAdd(a, b) ELSE "nan"
    [] e[1] = "sub" -> LET a == Ev(e[2], env) b == Ev(e[3], env) IN IF DIsNum(a) /\ DIsNum(b) THEN DSub(a, b) ELSE "nan"
    [] e[1] = "mul" -> LET a == Ev(e[2], env) b == Ev(e[3], env) IN IF DIsNum(a) /\ DIsNum(b) THEN DMul(a, b) ELSE "nan"
    [] e[1] = "fn" -> LET q == [k \in 1..Len(e[3]) |-> TLCEval(Ev(e[3][k], env))]
                      IN IF \E k \in 1..Len(q) : ~DIsNum(q[k]) THEN "nan"
                         ELSE IF \E k \in 1..Len(q) : ~DLe(DAbs(q[k]), "200") THEN "nan"
                         ELSE DRound(IF Len(q) = 1 THEN Fn1(e[2], DRound(q[1], 40))
                                     ELSE Fn2(e[2], DRound(q[1], 40), DRound(q[2], 40)), 40)
(* Smallest eigenvalue of ((a, b), (b, c)).                                *)
EigMin(a, b, c) == DDiv(DSub(DAdd(a, c), DSqrt(DAdd(Sq(DSub(a, c)), DMul("4", Sq(b))))), "2")
(* How far inside of a set a point is: at least 0 when it is in the set.    *)
SetRoom(set, q) ==
  CASE set = "soc" -> DSub(q[3], Fn2("norm2", q[1], q[2]))
    [] set = "soc3" -> DSub(q[3], Fn2("n2x", q[1], q[2]))
    [] set = "sdc" -> EigMin(q[1], q[2], q[3])
    [] set = "sdcn" -> DMin(q[2], EigMin(q[1], "1", q[3]))
    [] set = "sdc3" -> DMin(q[1], EigMin(q[1], q[2], q[3]))
    [] set = "exp" -> IF DLe(q[2], "0") \/ ~DLe(DAbs(DDiv(q[1], q[2])), "200") THEN "nan" ELSE DSub(q[3], DMul(q[2], DExp(DDiv(q[1], q[2]))))
    [] set = "gmc" -> LET g == Fn2("gm", q[1], q[2]) IN IF g = "nan" THEN "nan" ELSE DSub(g, q[3])
    [] set = "gmc3" -> LET g == Fn2("gm3", q[1], q[2]) IN IF g = "nan" THEN "nan" ELSE DSub(g, q[3])
    [] set = "klc" -> LET g == Fn2("kl", q[1], q[2]) IN IF g = "nan" THEN "nan" ELSE DSub(q[3], g)
    [] set = "klc2" -> LET g == Fn2("kl2", q[1], q[2]) IN IF g = "nan" THEN "nan" ELSE DSub(q[3], g)
    [] set = "lncdfh" -> LET g == Fn1("lncdf", q[1]) IN IF g = "nan" THEN "nan" ELSE DSub(g, q[2])
    [] set = "ppos2" -> IF DLe(q[1], "0") THEN "nan" ELSE DSub(q[2], Sq(q[1]))
    [] set = "ppos3" -> IF DLe(q[1], "0") THEN "nan" ELSE DSub(q[2], DMul(q[1], Sq(q[1])))
(* The same for constraints.                                                *)
ConRoom(con, env) ==
  IF con[1] = "none" THEN "1"
  ELSE IF con[1] = "in" THEN
    LET q == [k \in 1..Len(con[3]) |-> TLCEval(Ev(con[3][k], env))]
    IN IF \E k \in 1..Len(q) : ~DIsNum(q[k]) THEN "nan" ELSE SetRoom(con[2], [k \in 1..Len(q) |-> DRound(q[k], 40)])
  ELSE LET a == Ev(con[2], env)
           b == Ev(con[3], env)
       IN IF ~DIsNum(a) \/ ~DIsNum(b) THEN "nan" ELSE IF con[1] = "leq" THEN DSub(b, a) ELSE DSub(a, b)
RECURSIVE Uses(_)
Uses(e) ==
  CASE e[1] \in Params -> TRUE
    [] e[1] \in {"x", "y", "num"} -> FALSE
    [] e[1] = "neg" -> Uses(e[2])
    [] e[1] = "fn" -> \E k \in 1..Len(e[3]) : Uses(e[3][k])
    [] e[1] = "mul" /\ IsNum(e) -> FALSE
    [] OTHER -> Uses(e[2]) \/ Uses(e[3])
ConUses(con) ==
  CASE con[1] = "none" -> FALSE
    [] con[1] = "in" -> \E k \in 1..Len(con[3]) : Uses(con[3][k])
    [] OTHER -> Uses(con[2]) \/ Uses(con[3])
(* Functions that are not given to the conic solver.                        *)
SmoothFn == {"exp", "log", "lncdf", "pos2", "pos3", "pabs3", "pow2", "lse", "kl", "lse3", "kl2", "exps", "logs", "pos2s"}
RECURSIVE Smooth(_)
Smooth(e) ==
  CASE e[1] = "fn" -> e[2] \in SmoothFn \/ \E k \in 1..Len(e[3]) : Smooth(e[3][k])
    [] e[1] \in {"x", "y", "num"} \cup Params -> FALSE
    [] e[1] = "neg" -> Smooth(e[2])
    [] OTHER -> Smooth(e[2]) \/ Smooth(e[3])
ConSmooth(con) ==
  CASE con[1] = "none" -> FALSE
    [] con[1] = "in" -> con[2] \in SmoothSets
    [] OTHER -> Smooth(con[2]) \/ Smooth(con[3])
=============================================================================

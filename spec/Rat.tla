---------------------------------- MODULE Rat ----------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  A rational is a string, "3", "-7/16" or a    *)
(* decimal; "nan", "inf" and "-inf" stand for the IEEE values.  A float64   *)
(* recorded from the implementation is written as the exact rational it     *)
(* denotes, so nothing is lost between the code and the specification.      *)
(*                                                                         *)
(* TLC evaluates these operators with the Java override java/Rat.java       *)
(* (BigInteger); the definitions below only give their arity.               *)
(***************************************************************************)
EXTENDS Naturals
LOCAL Need == CHOOSE x \in {} : TRUE
RAdd(a, b) == Need
RSub(a, b) == Need
RMul(a, b) == Need
RDiv(a, b) == Need
RNeg(a) == Need
RAbs(a) == Need
RLe(a, b) == Need      \* FALSE if either is nan
RLt(a, b) == Need
REq(a, b) == Need
RMax(a, b) == Need
RMin(a, b) == Need
RNum(a) == Need        \* an integer as a rational; canonical form of a rational
RFinite(a) == Need
RIsNaN(a) == Need
RIsNum(a) == Need      \* does this string denote a finite number
RSum(s) == Need        \* sum of a sequence
RSumSq(s) == Need      \* sum of squares of a sequence
RDot(s, t) == Need     \* inner product of two sequences
RClose(a, b, atol, rtol) == Need \* |a-b| <= atol + rtol*max(|a|,|b|)
RLog2(a) == Need       \* to double precision
RLn(a) == Need
RExp(a) == Need
RSqrt(a) == Need
RAtan(a) == Need
RRound(a) == Need      \* nearest double
================================================================================

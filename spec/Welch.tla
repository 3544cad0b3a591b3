--------------------------------- MODULE Welch ---------------------------------
(***************************************************************************)
(* Welch's test of two groups of numbers, the test that artificial contrast *)
(* selection (ACE) decides with.  A group is a sequence of rationals.       *)
(* Everything but the tail of Student's distribution is exact; the tail has *)
(* a closed form for whole degrees of freedom, and lies between those of    *)
(* the whole numbers around otherwise.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Rat

MeanOf(x) == RDiv(RSum(x), Len(x))
VarOf(x) == RDiv(RSub(RSumSq(x), RDiv(RMul(RSum(x), RSum(x)), Len(x))), Len(x) - 1)
Share(x) == RDiv(VarOf(x), Len(x))
Spread(a, b) == RAdd(Share(a), Share(b))
(* is there anything to divide by *)
Tested(a, b) == Len(a) > 1 /\ Len(b) > 1 /\ RLt("0", Spread(a, b))
Delta(a, b) == RSub(MeanOf(a), MeanOf(b))
(* the square of t, and whether t is above 0 *)
T2(a, b) == RDiv(RMul(Delta(a, b), Delta(a, b)), Spread(a, b))
Above(a, b) == RLt("0", Delta(a, b))
Df(a, b) == RDiv(RMul(Spread(a, b), Spread(a, b)),
                 RAdd(RDiv(RMul(Share(a), Share(a)), Len(a) - 1), RDiv(RMul(Share(b), Share(b)), Len(b) - 1)))

(* ---- the probability that |t| is not exceeded, for n degrees of freedom ---- *)
(* c is the square of the cosine of the angle whose tangent is t / sqrt n       *)
RECURSIVE Series(_, _, _, _, _)
(* term + term * num/(num+1) * c + ... *)
Series(term, num, last, c, acc) ==
  IF num > last THEN RAdd(acc, term)
  ELSE Series(RMul(term, RMul(RDiv(num, num + 1), c)), num + 2, last, c, RAdd(acc, term))
Inside(t2, n) ==
  LET y == RDiv(t2, RAdd(t2, n))      \* squared sine
      c == RSub("1", y)
  IN IF n % 2 = 0 THEN RMul(RSqrt(y), Series("1", 1, n - 3, c, "0"))
     ELSE LET angle == RAtan(RSqrt(RDiv(t2, n)))
              more == IF n = 1 THEN "0" ELSE RMul(RSqrt(RMul(y, c)), Series("1", 2, n - 3, c, "0"))
          IN RMul(RDiv("2", "3.141592653589793115997963468544185161590576171875"), RAdd(angle, more))
(* the probability of a larger t *)
TailP(t2, above, n) == IF above THEN RDiv(RSub("1", Inside(t2, n)), "2") ELSE RDiv(RAdd("1", Inside(t2, n)), "2")

RECURSIVE FloorFrom(_, _)
FloorFrom(x, k) == IF RLt(x, k + 1) THEN k ELSE FloorFrom(x, k + 1)
Floor(x) == FloorFrom(x, 0)
(* the lowest and the highest probability there can be *)
POf(a, b) ==
  LET d == Df(a, b)
      f == Floor(d)
      p(n) == TailP(T2(a, b), Above(a, b), n)
  IN IF RClose(d, RNum(f), "1e-12", "0") THEN <<p(f), p(f)>>
     ELSE IF RClose(d, RNum(f + 1), "1e-12", "0") THEN <<p(f + 1), p(f + 1)>>
     ELSE <<RMin(p(f), p(f + 1)), RMax(p(f), p(f + 1))>>
================================================================================

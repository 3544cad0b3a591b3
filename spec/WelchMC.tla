-------------------------------- MODULE WelchMC --------------------------------
(***************************************************************************)
(* C90: the test on every pair of small groups.  Pooled = TRUE has the      *)
(* degrees of freedom of a test that takes the variances for equal, Biased  *)
(* = TRUE divides by n, TwoSided = TRUE doubles the tail: each breaks one   *)
(* of the facts.  The second half grows a choice of features: a step tests  *)
(* one feature against its contrast, and the kept ones are exactly those    *)
(* that pass.                                                               *)
(***************************************************************************)
EXTENDS Welch, FiniteSets
CONSTANTS MaxVal, MaxLen, Pooled, Biased, TwoSided, Crossed

VARIABLES a, b, imps, i, kept
vars == <<a, b, imps, i, kept>>
Groups == UNION {[1..n -> 0..MaxVal] : n \in 2..MaxLen}
Rationals(x) == [k \in DOMAIN x |-> RNum(x[k])]

Var(x) == IF Biased THEN RDiv(RMul(VarOf(x), Len(x) - 1), Len(x)) ELSE VarOf(x)
S(x) == RDiv(Var(x), Len(x))
D(x, y) == IF Pooled THEN RNum(Len(x) + Len(y) - 2)
           ELSE RDiv(RMul(RAdd(S(x), S(y)), RAdd(S(x), S(y))), RAdd(RDiv(RMul(S(x), S(x)), Len(x) - 1), RDiv(RMul(S(y), S(y)), Len(y) - 1)))
P(x, y, n) ==
  LET t == TailP(RDiv(RMul(Delta(x, y), Delta(x, y)), RAdd(S(x), S(y))), Above(x, y), n)
  IN IF TwoSided THEN RMul("2", RMin(t, RSub("1", t))) ELSE t

(* three features, each with its contrast and two forests of importances *)
Cutoff == "1/4"
Feats == 1..2
Pairs == [Feats -> [1..2 -> 0..2]]
Init == \/ /\ a \in {Rationals(g) : g \in Groups} /\ b \in {Rationals(g) : g \in Groups}
           /\ imps = <<>> /\ i = 0 /\ kept = {}
        \/ /\ a = <<>> /\ b = <<>> /\ i = 1 /\ kept = {}
           /\ imps \in {<<p, q>> : p \in Pairs, q \in Pairs}
Real(f) == Rationals(imps[1][f])
Fake(f) == Rationals(imps[2][IF Crossed THEN (f % 2) + 1 ELSE f])
Passes(x, y) == Tested(x, y) /\ RLt(P(x, y, Floor(D(x, y))), Cutoff) /\ RLt("0", MeanOf(x))
Test == /\ i \in Feats
        /\ kept' = IF Passes(Real(i), Fake(i)) THEN kept \cup {i} ELSE kept
        /\ i' = i + 1 /\ UNCHANGED <<a, b, imps>>
Next == Test
Spec == Init /\ [][Next]_vars

On == a # <<>> /\ Tested(a, b)
(* exchanging the groups turns the tail around *)
Sides == On => \A n \in 1..4 : RClose(RAdd(P(a, b, n), P(b, a, n)), IF Delta(a, b) = "0" THEN RMul("2", P(a, b, n)) ELSE "1", "1e-12", "0")
Chance == On => \A n \in 1..4 : RLe("0", P(a, b, n)) /\ RLe(P(a, b, n), "1") /\ (RLt("0", Delta(a, b)) => RLt(P(a, b, n), "1/2"))
(* the more is known, the thinner the tail *)
Thinner == On => \A n \in 1..6 : IF Above(a, b) THEN RLe(P(a, b, n + 1), RAdd(P(a, b, n), "1e-15")) ELSE RLe(P(a, b, n), RAdd(P(a, b, n + 1), "1e-15"))
Known2 == On => (Len(a) = 2 => REq(RMul("2", Var(a)), RMul(RSub(a[1], a[2]), RSub(a[1], a[2]))))
Bounds == On => RLe(RNum((IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) - 1), D(a, b)) /\ RLe(D(a, b), RNum(Len(a) + Len(b) - 2))
(* a group without spread adds no freedom *)
Still == On /\ RLe(VarOf(b), "0") => REq(D(a, b), RNum(Len(a) - 1))
Shift(x) == [k \in DOMAIN x |-> RAdd(x[k], "7")]
Scale(x) == [k \in DOMAIN x |-> RMul(x[k], "1/3")]
Same == On => /\ REq(D(Shift(a), Shift(b)), D(a, b)) /\ REq(D(Scale(a), Scale(b)), D(a, b))
              /\ \A n \in 1..2 : REq(P(Scale(a), Scale(b), n), P(a, b, n)) /\ REq(P(Shift(a), Shift(b), n), P(a, b, n))
(* known values: t = 1 with one degree, t*t = 2 with two *)
Table == /\ RClose(TailP("1", TRUE, 1), "1/4", "1e-12", "0")
         /\ RClose(TailP("2", FALSE, 2), "0.85355339059327376", "1e-12", "0")
         /\ RClose(TailP("9", TRUE, 3), "0.028834442811081", "1e-9", "0")
         /\ RClose(TailP("4", TRUE, 10), "0.036694017385370", "1e-9", "0")
         /\ RClose(TailP("4", TRUE, 9), "0.038276411835550", "1e-9", "0")
(* a kept feature beats its own contrast; one that is never more important than its contrast isn't kept *)
Least(x) == RMin(x[1], x[2])
Most(x) == RMax(x[1], x[2])
Own(f) == Rationals(imps[2][f])
Beaten == a = <<>> /\ i > 2 => \A f \in Feats : RLe(Most(Real(f)), Least(Own(f))) => f \notin kept
================================================================================

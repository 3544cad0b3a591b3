-------------------------------- MODULE BoostMC --------------------------------
(***************************************************************************)
(* Rounds of adaptive boosting with arbitrary trees: a tree may tell each   *)
(* case anything or nothing.  Variant is "ok" or a way of getting it wrong. *)
(***************************************************************************)
EXTENDS Boost
CONSTANTS N, Rounds, Variant, WithCost
VARIABLES D, w, margin, last, k
vars == <<D, w, margin, last, k>>

Labels == {"a", "b"}
None == [P |-> <<>>, e |-> "0", a |-> "0"]
Start(D0) == IF Variant = "missing" THEN [c \in 1..N |-> RDiv("1", RNum(N))] ELSE Even(D0)
Init == /\ D \in {[type |-> "ada", n |-> N, val |-> v, miss |-> m, cost |-> [c \in 1..N |-> IF WithCost /\ v[c] = "a" THEN x ELSE "1"]] :
                    v \in {f \in [1..N -> Labels] : f[1] = "a"}, m \in {f \in [1..N -> BOOLEAN] : ~f[1] /\ ~f[2]}, x \in IF WithCost THEN {"2", "0"} ELSE {"1"}}
        /\ w = Start(D) /\ margin = [c \in 1..N |-> "0"] /\ last = None /\ k = 0

Useless(e) == ~RLt(e, "1/2")
Err(P) == IF Variant = "missing" THEN RSum([c \in 1..N |-> IF P[c] # <<>> /\ (D.miss[c] \/ P[c][1] # D.val[c]) THEN w[c] ELSE "0"])
          ELSE AdaErr(D, w, P)
Raw(P, a) == TLCEval([c \in 1..N |-> IF c \in Wrong(D, P) THEN RMul(w[c], RExp(a))
                                     ELSE IF c \in Reached(D, P) THEN RMul(w[c], RExp(RNeg(a))) ELSE w[c]])
After(P, a, B) == CASE Variant = "nonorm" -> Raw(P, a)
                    [] Variant = "inverted" -> AdaNext(D, w, P, RNeg(a))
                    [] Variant = "bagonly" -> AdaNext(D, w, [c \in 1..N |-> IF c \in B THEN P[c] ELSE <<>>], a)
                    [] OTHER -> AdaNext(D, w, P, a)
(* a tree grown on the cases B and applied to all *)
Told == [1..N -> {<<>>} \cup {<<l>> : l \in Labels}]
Bags == IF Variant = "bagonly" THEN SUBSET (1..N) ELSE {1..N}
Round(P, B) == /\ k < Rounds
               /\ k' = k + 1
               /\ LET e == Err(P)
                      a == IF Useless(e) THEN "0" ELSE AdaWeight(e)
                  IN /\ w' = IF Useless(e) /\ Variant # "worse" THEN w ELSE After(P, IF Variant = "worse" THEN AdaWeight(e) ELSE a, B)
                     /\ margin' = [c \in 1..N |-> IF c \notin Reached(D, P) THEN margin[c] ELSE IF c \in Wrong(D, P) THEN RSub(margin[c], a) ELSE RAdd(margin[c], a)]
                     /\ last' = [P |-> P, e |-> e, a |-> a]
               /\ UNCHANGED D
Boosted == \E P \in Told, B \in Bags : Round(P, B)
Next == Boosted
Spec == Init /\ [][Next]_vars

Nonneg == \A c \in 1..N : RFinite(w[c]) /\ RLe("0", w[c])
SumOne == RClose(Total(D, w), "1", "1e-9", "0")
MissingZero == \A c \in 1..N : D.miss[c] => REq(w[c], "0")
(* half of the weight is on what the last tree got wrong *)
Half == (~WithCost /\ last # None /\ Reached(D, last.P) = KnownOf(D) /\ RLt("1e-6", last.e) /\ ~Useless(last.e))
          => RClose(SumSel(D, Wrong(D, last.P), w), "1/2", "1e-9", "0")
(* the weights are those the votes of all trees so far call for *)
Margins == ~WithCost => \A c, d \in KnownOf(D) : RClose(RMul(w[c], RExp(margin[c])), RMul(w[d], RExp(margin[d])), "1e-9", "1e-7")
TreeWeight == RFinite(last.a) /\ RLe("0", last.a)
================================================================================

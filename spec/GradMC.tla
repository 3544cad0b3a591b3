--------------------------------- MODULE GradMC ---------------------------------
(***************************************************************************)
(* Rounds of gradient boosting with arbitrary trees: grown on some of the   *)
(* cases, predicting anything, reaching any of the cases; a case whose      *)
(* target is missing is told predictions too.  What is saved is the trees   *)
(* with their weights and the intercept; what is trained on is the          *)
(* residuals.  Variant is "ok" or a way of getting it wrong.                *)
(***************************************************************************)
EXTENDS Boost
CONSTANTS N, Rounds, Types, Vals, PredVals, Variant
VARIABLES D, table, res, saved, k
vars == <<D, table, res, saved, k>>

Zero == [c \in 1..N |-> "0"]
Columns(t) == IF t = "grad" THEN Vals ELSE {"yes", "no"}
Proper(d) == d.type = "grad" \/ ((\E c \in KnownOf(d) : d.val[c] = d.pos) /\ (\E c \in KnownOf(d) : d.val[c] # d.pos))
Init == /\ \E t \in Types : D \in {d \in {[type |-> t, n |-> N, val |-> v, miss |-> m, lr |-> l, pos |-> "yes"] :
                              v \in [1..N -> Columns(t)], m \in {f \in [1..N -> BOOLEAN] : ~f[1]}, l \in {"1/2", "1"}} : Proper(d)}
        /\ res = Residuals(D, Zero)
        /\ table = IF Variant = "shared" THEN res ELSE D.val
        /\ saved = [intercept |-> IF Variant = "nointercept" THEN "0" ELSE Intercept(D), trees |-> <<>>] /\ k = 0

Told == [1..N -> {<<>>} \cup {<<p>> : p \in PredVals}]
Bags == IF Variant = "bagonly" THEN SUBSET (1..N) ELSE {1..N}
SumTo(trees, c) == RSum([i \in DOMAIN trees |-> IF trees[i].P[c] = <<>> THEN "0" ELSE RMul(trees[i].weight, trees[i].P[c][1])])
Round(P, B) ==
  /\ k < Rounds /\ k' = k + 1
  /\ LET t == Append(saved.trees, [P |-> P, weight |-> IF Variant = "noweight" THEN "1" ELSE D.lr])
         s == [c \in 1..N |-> SumTo([i \in DOMAIN t |-> [t[i] EXCEPT !.weight = D.lr]], c)]
     IN /\ saved' = [saved EXCEPT !.trees = t]
        (* the residual is moved a step at a time, as the implementation does *)
        /\ res' = TLCEval([c \in 1..N |-> IF D.miss[c] \/ P[c] = <<>> \/ (Variant = "bagonly" /\ c \notin B) THEN res[c]
                             ELSE IF D.type = "grad" THEN RSub(res[c], RMul(D.lr, P[c][1])) ELSE Residual(D, s, c)])
        /\ table' = IF Variant = "shared" THEN res' ELSE table
  /\ UNCHANGED D
Boosted == \E P \in Told, B \in Bags : Round(P, B)
Next == Boosted
Spec == Init /\ [][Next]_vars

(* what the saved forest tells a case *)
Applied(c) == RAdd(saved.intercept, SumTo(saved.trees, c))
Left(c) == IF D.type = "grad" THEN RSub(D.val[c], Applied(c)) ELSE RSub(IF D.val[c] = D.pos THEN "1" ELSE "0", Expit(Applied(c)))
Keeps == \A c \in KnownOf(D) : RClose(res[c], Left(c), "1e-12", "1e-9")
Untouched == table = D.val
(* the mean of the residuals starts at zero, and a tree that tells everyone the mean residual brings it back to zero *)
Centred == k = 0 => RClose(RSum([c \in 1..N |-> IF D.miss[c] THEN "0" ELSE res[c]]), "0", "1e-12", "0")
================================================================================

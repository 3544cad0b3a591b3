-------------------------------- MODULE SearchMC --------------------------------
(***************************************************************************)
(* The scan the numeric search performs, over every small column and        *)
(* target: sorted values, equal ones skipped, every other gap evaluated,    *)
(* the threshold halfway between its neighbours.  When it ends it has found *)
(* a split no allowed split beats, and its threshold produces exactly the   *)
(* groups that were evaluated.                                              *)
(***************************************************************************)
EXTENDS SplitSearch, TLC
CONSTANTS MaxN, FeatVals, TargVals, StopEarly, HighThreshold

VARIABLES fv, tv, leaf, i, last, best, thr, done
vars == <<fv, tv, leaf, i, last, best, thr, done>>

N == Len(fv)
Col == [kind |-> "num", val |-> fv, miss |-> [k \in 1..N |-> FALSE]]
T == [type |-> "num", val |-> tv, miss |-> [k \in 1..N |-> FALSE], cats |-> <<>>, par |-> <<>>]
All == [k \in 1..N |-> k]
Sorted(s) == \A k \in 1..(Len(s) - 1) : RLe(s[k], s[k + 1])

Init == /\ \E n \in 2..MaxN : fv \in {s \in [1..n -> FeatVals] : Sorted(s)} /\ tv \in [1..n -> TargVals]
        /\ leaf \in 1..2 /\ i = leaf /\ last = 0 /\ best = "0" /\ thr = "none" /\ done = FALSE

(* i cases would go left *)
Gain(k) == CHOOSE x \in Gains(T, All, SubSeq(All, 1, k), SubSeq(All, k + 1, N), <<>>) : TRUE
Stop == IF StopEarly THEN N - leaf - 1 ELSE N - leaf
Skip == ~done /\ i <= Stop /\ fv[i + 1] = fv[i] /\ i' = i + 1 /\ UNCHANGED <<fv, tv, leaf, last, best, thr, done>>
Eval == /\ ~done /\ i <= Stop /\ fv[i + 1] # fv[i]
        /\ i' = i + 1 /\ last' = i
        /\ IF RLt(best, Gain(i))
           THEN best' = Gain(i) /\ thr' = (IF HighThreshold THEN fv[i + 1] ELSE RDiv(RAdd(fv[i], fv[i + 1]), "2"))
           ELSE UNCHANGED <<best, thr>>
        /\ UNCHANGED <<fv, tv, leaf, done>>
End == ~done /\ i > Stop /\ done' = TRUE /\ UNCHANGED <<fv, tv, leaf, i, last, best, thr>>
Next == Skip \/ Eval \/ End
Spec == Init /\ [][Next]_vars

GainOf(L) == CHOOSE x \in Gains(T, All, LeftOf(Col, All, L), RightOf(Col, All, L), <<>>) : TRUE
Optimal == done => \A L \in Allowed(Col, All, leaf) : RLe(GainOf(L), best)
Faithful == done /\ thr # "none" =>
   LET L == {v \in {fv[k] : k \in 1..N} : RLe(v, thr)}
   IN L \in Allowed(Col, All, leaf) /\ GainOf(L) = best
================================================================================

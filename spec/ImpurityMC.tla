------------------------------- MODULE ImpurityMC -------------------------------
(***************************************************************************)
(* The split search keeps running totals while it moves cases from the      *)
(* right group to the left one.  This module is that bookkeeping: category  *)
(* counters and sums, (re)started from scratch for a node and then only     *)
(* updated with the cases that moved.  Checked: the totals always give the  *)
(* impurity computed from scratch, whatever is moved in whatever order and  *)
(* however often the allocations are reused; and splitting never increases  *)
(* impurity.                                                                *)
(***************************************************************************)
EXTENDS Impurity, TLC
CONSTANTS MaxN, CatNames, NumVals, Forget

VARIABLES catv, numv, l, r, lc, rc, ls, rs, lq, rq
vars == <<catv, numv, l, r, lc, rc, ls, rs, lq, rq>>

Ncase == Len(catv)
TC == [type |-> "gini", val |-> catv, miss |-> [i \in 1..Ncase |-> FALSE], cats |-> <<"a", "b">>, par |-> <<>>]
TN == [type |-> "num", val |-> numv, miss |-> [i \in 1..Ncase |-> FALSE], cats |-> <<>>, par |-> <<>>]

SetToSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] < s[j]
Counts(g) == [k \in CatNames |-> Cnt(TC, g, k)]
Sum(g) == RSum(Vals(TN, g))
Sq(g) == RSumSq(Vals(TN, g))

Init == /\ \E n \in 2..MaxN : catv \in [1..n -> CatNames] /\ numv \in [1..n -> NumVals]
        /\ l = {} /\ r = {} /\ lc = [k \in CatNames |-> 0] /\ rc = lc
        /\ ls = "0" /\ rs = "0" /\ lq = "0" /\ rq = "0"

Start == \E L \in SUBSET (1..Ncase), R \in SUBSET (1..Ncase) :
  /\ L # {} /\ R # {} /\ L \cap R = {}
  /\ l' = L /\ r' = R
  /\ lc' = Counts(SetToSeq(L)) /\ rc' = Counts(SetToSeq(R))
  /\ ls' = Sum(SetToSeq(L)) /\ rs' = Sum(SetToSeq(R))
  /\ lq' = Sq(SetToSeq(L)) /\ rq' = Sq(SetToSeq(R))
  /\ UNCHANGED <<catv, numv>>

Move == \E S \in SUBSET r :
  /\ S # {} /\ S # r
  /\ LET m == SetToSeq(S)
         d == Counts(m)
     IN /\ l' = l \cup S /\ r' = r \ S
        /\ lc' = [k \in CatNames |-> lc[k] + d[k]]
        /\ rc' = [k \in CatNames |-> rc[k] - (IF Forget THEN 0 ELSE d[k])]
        /\ ls' = RAdd(ls, Sum(m)) /\ rs' = RSub(rs, Sum(m))
        /\ lq' = RAdd(lq, Sq(m)) /\ rq' = RSub(rq, Sq(m))
  /\ UNCHANGED <<catv, numv>>

Next == Start \/ Move
Spec == Init /\ [][Next]_vars

GiniOf(c, n) == RSub("1", RDiv(RSum([i \in 1..2 |-> LET k == TC.cats[i] IN c[k] * c[k]]), n * n))
SseOf(s, q, n) == RSub(q, RDiv(RMul(s, s), n))
nl == Cardinality(l)
nr == Cardinality(r)
Wt(x, y) == RDiv(RAdd(RMul(nl, x), RMul(nr, y)), nl + nr)

Started == l # {}
GiniAgrees == Started => SImps(TC, SetToSeq(l), SetToSeq(r), <<>>) = {Wt(GiniOf(lc, nl), GiniOf(rc, nr))}
SseAgrees == Started => SImps(TN, SetToSeq(l), SetToSeq(r), <<>>) = {Wt(SseOf(ls, lq, nl), SseOf(rs, rq, nr))}
(* the one pass formula is the sum of squared distances from the mean *)
SseIsSse == Started => LET xs == Vals(TN, SetToSeq(l)) IN SumSqErr(xs) = SqErr(xs, Mean(xs))
NeverWorse == Started =>
   /\ \A x \in Imps(TC, SetToSeq(l \cup r)), y \in SImps(TC, SetToSeq(l), SetToSeq(r), <<>>) : RLe(y, x)
   /\ \A x \in Imps(TN, SetToSeq(l \cup r)), y \in SImps(TN, SetToSeq(l), SetToSeq(r), <<>>) : RLe(y, x)
Inv == GiniAgrees /\ SseAgrees /\ SseIsSse /\ NeverWorse
================================================================================

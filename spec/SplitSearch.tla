------------------------------- MODULE SplitSearch -------------------------------
(***************************************************************************)
(* The search for the best split of one feature: what an allowed split is,  *)
(* what it gains, and the left-to-right scan over sorted numeric values.    *)
(***************************************************************************)
EXTENDS Impurity

CONSTANT Tie                      \* values no further apart than this are one value

(* the groups of a list of cases under a rule: the column's missing cases are a group of their own *)
Present(col, cases) == SelectSeq(cases, LAMBDA c : ~col.miss[c])
Absent(col, cases) == SelectSeq(cases, LAMBDA c : col.miss[c])

(* adding doubles rounds: what is no tie must differ by more than the rounding *)
Apart(x) == IF Tie = "0" THEN "0" ELSE RAdd(Tie, RMul(RAbs(x), "1e-15"))

(* candidate splits of a column on a list of cases: sets of values that go left *)
Candidates(col, cases) ==
  LET K == Present(col, cases)
      V == {col.val[K[i]] : i \in DOMAIN K}
  IN IF col.kind = "cat" THEN {L \in SUBSET V : L # {} /\ L # V}
     ELSE {{w \in V : RLe(w, v)} :
            v \in {x \in V : (\E y \in V : RLt(x, y)) /\ (\A y \in V : RLt(x, y) => RLt(RAdd(x, Apart(x)), y))}}

LeftOf(col, cases, L) == SelectSeq(Present(col, cases), LAMBDA c : col.val[c] \in L)
RightOf(col, cases, L) == SelectSeq(Present(col, cases), LAMBDA c : col.val[c] \notin L)

Allowed(col, cases, leaf) ==
  {L \in Candidates(col, cases) : Len(LeftOf(col, cases, L)) >= leaf /\ Len(RightOf(col, cases, L)) >= leaf}

(* permitted gains of splitting a list into l and r: a score to maximise, or a decrease of impurity *)
Gains(T, all, l, r, m) ==
  IF Maximised(T)
  THEN {RMul(RDiv(Len(l) + Len(r), Len(all)), s) : s \in SImps(T, l, r, <<>>)}
  ELSE {RSub(p, s) : p \in Imps(T, all), s \in SImps(T, l, r, m)}
================================================================================

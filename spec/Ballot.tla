--------------------------------- MODULE Ballot --------------------------------
(***************************************************************************)
(* Ballot boxes.  Votes for a case are a label (or a number) with a weight. *)
(* kind "cat": the tally is a label of greatest total weight.               *)
(* kind "num": the tally is the weighted mean.                              *)
(* kind "sum": the tally is the weighted sum.                               *)
(* The box is kept as running totals; CastVote is the only action that      *)
(* changes it.                                                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Rat

Tol == "1/1000000000"

(* an empty box over n cases *)
EmptyBox(n) == [c \in 1..n |-> [w |-> "0", s |-> "0", abs |-> "0", lab |-> <<>>]]

(* total weight of a label: lab is a sequence of <<label, weight>> *)
LabelSum(lab, l) == IF \E k \in DOMAIN lab : lab[k][1] = l
                    THEN lab[CHOOSE k \in DOMAIN lab : lab[k][1] = l][2] ELSE "0"
AddLabel(lab, l, w) ==
  IF \E k \in DOMAIN lab : lab[k][1] = l
  THEN [k \in DOMAIN lab |-> IF lab[k][1] = l THEN <<l, RAdd(lab[k][2], w)>> ELSE lab[k]]
  ELSE Append(lab, <<l, w>>)

(* a vote that is not a number means nothing to a numeric box; an infinite one (a density of equal values) does *)
IsVote(pred) == RIsNum(pred) \/ pred \in {"inf", "-inf"}
CastVote(kind, box, c, pred, w) ==
  IF kind = "cat" THEN [box EXCEPT ![c].lab = AddLabel(@, pred, w), ![c].w = RAdd(@, w)]
  ELSE IF ~IsVote(pred) THEN box
  ELSE [box EXCEPT ![c].w = RAdd(@, w), ![c].s = RAdd(@, RMul(w, pred)), ![c].abs = RMax(@, RAbs(RMul(w, pred)))]

Voted(box, c) == RLt("0", box[c].w)

RECURSIVE MaxW(_, _)
MaxW(lab, k) == IF k = 0 THEN "0" ELSE RMax(lab[k][2], MaxW(lab, k - 1))
(* labels of greatest weight; float accumulation may separate exact ties *)
Winners(box, c) ==
  LET lab == box[c].lab
      m == MaxW(lab, Len(lab))
  IN {lab[k][1] : k \in {j \in DOMAIN lab : RLt("0", lab[j][2]) /\ RClose(lab[j][2], m, "0", "1/1000000000000")}}

NumTally(kind, box, c) == IF kind = "num" THEN RDiv(box[c].s, box[c].w) ELSE box[c].s

(* is r a correct tally (as text) of case c *)
TallyOk(kind, box, c, r) ==
  CASE kind = "cat" -> IF Voted(box, c) THEN r \in Winners(box, c) ELSE r = "NA"
    [] kind = "num" -> 
         IF ~Voted(box, c) THEN r = "NA"
         ELSE IF RFinite(NumTally(kind, box, c)) THEN RIsNum(r) /\ RClose(r, NumTally(kind, box, c), Tol, Tol) ELSE ~RIsNum(r)
    [] kind = "sum" -> RIsNum(r) /\ RClose(r, NumTally(kind, box, c), RMul(Tol, RAdd("1", box[c].abs)), Tol)

(* ---- error tallies against a column of true values ---- *)
Known(col) == {c \in DOMAIN col.miss : ~col.miss[c]}
(* balanced error: 1 - mean over the classes that occur of the fraction right. *)
(* with tied votes a case may count either way                                 *)
ClassesOf(col) == {col.val[c] : c \in Known(col)}
Must(box, col, l) == {c \in Known(col) : col.val[c] = l /\ Voted(box, c) /\ Winners(box, c) = {l}}
May(box, col, l) == {c \in Known(col) : col.val[c] = l /\ Voted(box, c) /\ l \in Winners(box, c)}
Of(col, l) == {c \in Known(col) : col.val[c] = l}
SumOver(S, F(_)) == LET f[T \in SUBSET S] == IF T = {} THEN "0" ELSE LET x == CHOOSE x \in T : TRUE IN RAdd(F(x), f[T \ {x}]) IN f[S]
Frac(a, b) == RDiv(RNum(Cardinality(a)), RNum(Cardinality(b)))
BalancedOk(box, col, e) ==
  LET cl == ClassesOf(col)
      n == RNum(Cardinality(cl))
      lo(l) == Frac(Must(box, col, l), Of(col, l))
      hi(l) == Frac(May(box, col, l), Of(col, l))
      worst == RSub("1", RDiv(SumOver(cl, lo), n))
      best == RSub("1", RDiv(SumOver(cl, hi), n))
  IN cl = {} \/ (RLe(RSub(best, Tol), e) /\ RLe(e, RAdd(worst, Tol)))

Sq(x) == RMul(x, x)
Scored(box, col) == {c \in Known(col) : Voted(box, c)}
SqErr(box, col) ==
  LET S == Scored(box, col)
      d(c) == Sq(RSub(col.val[c], NumTally("num", box, c)))
  IN RDiv(SumOver(S, d), RNum(Cardinality(S)))
Variance(col) ==
  LET S == Known(col)
      v(c) == col.val[c]
      m == RDiv(SumOver(S, v), RNum(Cardinality(S)))
      d(c) == Sq(RSub(col.val[c], m))
  IN RDiv(SumOver(S, d), RNum(Cardinality(S)))
================================================================================

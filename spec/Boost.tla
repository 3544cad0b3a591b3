--------------------------------- MODULE Boost ---------------------------------
(***************************************************************************)
(* Boosting.  After each tree every case of the training data is told a     *)
(* prediction by the tree (or none), and the target moves its state:        *)
(*   ada, adacost  a weight for each case, moved by what the tree got wrong *)
(*   numada        a weight for each case, moved by how far off the tree is *)
(*   grad          a residual for each case                                 *)
(*   gradclass     a residual of the probability the log odds f stand for   *)
(* D is the data: [type, n, val, miss, cost, lr, pos]; val and cost are     *)
(* sequences over the cases.  P says what the tree tells: P[c] is <<>> or   *)
(* <<prediction>>.                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Rat, TLC

KnownOf(D) == {c \in 1..D.n : ~D.miss[c]}
Reached(D, P) == {c \in KnownOf(D) : P[c] # <<>>}
Wrong(D, P) == {c \in Reached(D, P) : P[c][1] # D.val[c]}
SumSel(D, S, w) == RSum([c \in 1..D.n |-> IF c \in S THEN w[c] ELSE "0"])
Total(D, w) == RSum([c \in 1..D.n |-> w[c]])
Normal(D, w) == LET s == Total(D, w) IN TLCEval([c \in 1..D.n |-> RRound(RDiv(w[c], s))])

(* ---- adaptive boosting -------------------------------------------------- *)
Least == "1e-7"
Even(D) == LET k == KnownOf(D) IN [c \in 1..D.n |-> IF c \in k THEN RDiv("1", RNum(Cardinality(k))) ELSE "0"]
(* the weighted error of a tree, by its own predictions *)
AdaErr(D, w, P) == RSum([c \in 1..D.n |-> IF c \in Wrong(D, P) THEN RMul(w[c], D.cost[c]) ELSE "0"])
AdaWeight(e) == LET x == RMax(e, Least) IN RDiv(RLn(RDiv(RSub("1", x), x)), "2")
(* the weights after a tree of weight a *)
AdaNext(D, w, P, a) ==
  LET up == RExp(a)
      dn == RExp(RNeg(a))
      bad == Wrong(D, P)
      on == Reached(D, P)
      x == TLCEval([c \in 1..D.n |-> IF c \in bad THEN RMul(RMul(w[c], up), D.cost[c])
                                     ELSE IF c \in on THEN RMul(RMul(w[c], dn), D.cost[c]) ELSE w[c]])
  IN IF REq(Total(D, x), "0") THEN w ELSE Normal(D, x)

(* ---- adaptive boosting of numbers ----------------------------------------- *)
Off(D, c, p) == RAbs(RSub(D.val[c], p))
MeanOf(D) == LET k == KnownOf(D) IN IF k = {} THEN "0" ELSE RDiv(RSum([c \in 1..D.n |-> IF c \in k THEN D.val[c] ELSE "0"]), RNum(Cardinality(k)))
(* what a constant prediction is off in total *)
Worst(D) == LET m == MeanOf(D) IN RSum([c \in 1..D.n |-> IF D.miss[c] THEN "0" ELSE Off(D, c, m)])
NumErr(D, w, P) == RSum([c \in 1..D.n |-> IF c \in Reached(D, P) THEN RMul(w[c], Off(D, c, P[c][1])) ELSE "0"])
NumWeight(D, e) == LET s == Worst(D) IN IF RLe(e, RMul(Least, s)) THEN RNeg(RLn(Least)) ELSE RLn(RDiv(s, e))
NumNext(D, w, P, e, a) ==
  LET x == TLCEval([c \in 1..D.n |-> IF c \in Reached(D, P) THEN RMul(a, RSub(Off(D, c, P[c][1]), e)) ELSE "0"])
      live == {c \in 1..D.n : RLt("0", w[c])}
      top == x[CHOOSE c \in live : \A d \in live : RLe(x[d], x[c])]
  IN IF live = {} THEN w
     ELSE Normal(D, TLCEval([c \in 1..D.n |-> IF c \in live THEN RMul(w[c], RExp(RRound(RSub(x[c], top)))) ELSE "0"]))

(* ---- gradient boosting ------------------------------------------------------ *)
Expit(x) == RDiv("1", RAdd("1", RExp(RNeg(x))))
Prior(D) == LET p == Cardinality({c \in KnownOf(D) : D.val[c] = D.pos}) IN RLn(RDiv(RNum(p), RNum(Cardinality(KnownOf(D)) - p)))
Intercept(D) == IF D.type = "grad" THEN MeanOf(D) ELSE Prior(D)
(* s[c] is the sum of what the trees so far told the case, times the learning rate *)
Step(D, s, P) == TLCEval([c \in 1..D.n |-> IF P[c] # <<>> THEN RAdd(s[c], RMul(D.lr, P[c][1])) ELSE s[c]])
Residual(D, s, c) == IF D.type = "grad" THEN RSub(RSub(D.val[c], Intercept(D)), s[c])
                     ELSE RSub(IF D.val[c] = D.pos THEN "1" ELSE "0", Expit(RRound(RAdd(Intercept(D), s[c]))))
Residuals(D, s) == TLCEval([c \in 1..D.n |-> IF D.miss[c] THEN "0" ELSE Residual(D, s, c)])
(* what a leaf with the cases S predicts from residuals r *)
LeafOf(D, r, S) ==
  IF D.type = "grad" THEN RDiv(RSum([c \in 1..D.n |-> IF c \in S THEN r[c] ELSE "0"]), RNum(Cardinality(S)))
  ELSE LET y == [c \in 1..D.n |-> IF D.val[c] = D.pos THEN "1" ELSE "0"]
           q == [c \in 1..D.n |-> RSub(y[c], r[c])]
           den == RSum([c \in 1..D.n |-> IF c \in S THEN RMul(q[c], RSub("1", q[c])) ELSE "0"])
       IN IF REq(den, "0") THEN "0" ELSE RDiv(RSum([c \in 1..D.n |-> IF c \in S THEN r[c] ELSE "0"]), den)
================================================================================

------------------------------- MODULE BoostTrace -------------------------------
(***************************************************************************)
(* Trace validation for C18 and C19.  A trace carries the data Tr.data and  *)
(* either direct rounds (leaves and predictions handed to the target, and   *)
(* what the target holds afterwards) or the trees of a forest, through      *)
(* which this specification routes every case itself.  st is the state the  *)
(* boosting must be in: weights, or learn rate times the predictions so far.*)
(***************************************************************************)
EXTENDS TraceBase, Boost, Routing

VARIABLES st, k
bvars == <<tid, pos, st, k, tree, data, todo, arrived, dropped>>
Unused == /\ tree = <<>> /\ data = <<>> /\ todo = <<>> /\ arrived = <<>> /\ dropped = {}
Rest == UNCHANGED <<tree, data, todo, arrived, dropped>>
B == Tr.data
Grad == B.type \in {"grad", "gradclass"}
Zeros == [c \in 1..B.n |-> "0"]

Slack == IF B.type = "grad" \/ B.type = "numada" THEN Tr.slack ELSE "1e-11"
AllClose(x, y) == \A c \in 1..B.n : RFinite(x[c]) /\ RClose(x[c], y[c], Slack, "1e-7")

(* all the values are the same: what is off is nothing but rounding *)
Level(s) == RLe(s, RMul("1/1000000000000", RSum([c \in 1..B.n |-> IF B.miss[c] THEN "0" ELSE RAbs(B.val[c])])))
(* ---- one round ---------------------------------------------------------------- *)
(* the tree's own weight *)
WeightOk(P, a) ==
  /\ Chk("tree weight is not a number", RFinite(a))
  /\ CASE st = <<>> -> Chk("tree weight", RLe("0", a))
       [] Grad -> Chk("tree weight is the learn rate", REq(a, B.lr))
       [] B.type \in {"ada", "adacost"} ->
            LET e == TLCEval(AdaErr(B, st, P))
            IN Chk("tree weight", IF RLt("500000001/1000000000", e) THEN REq(a, "0")
                                  ELSE IF RLt(e, "1e-6") THEN RLe("6", a)
                                  ELSE RClose(a, AdaWeight(e), "1e-7", "1e-7") \/ (RLt("499999999/1000000000", e) /\ RClose(a, "0", "1e-7", "0")))
       [] OTHER ->
            LET e == TLCEval(NumErr(B, st, P))
                s == TLCEval(Worst(B))
            IN Chk("tree weight", IF (\A c \in KnownOf(B) : P[c] = <<>>) \/ Level(s) THEN RLe("0", a)
                                  ELSE IF RLt(RMul(s, "100000001/100000000"), e) THEN REq(a, "0")
                                  ELSE IF RLe(e, RMul("1e-6", s)) THEN RLe("13", a)
                                  ELSE RClose(a, NumWeight(B, e), "1e-6", "1e-6"))
(* a round that is no better than chance changes nothing; it is told by its weight *)
StateAfter(P, a) ==
  CASE st = <<>> -> st
    [] Grad -> Step(B, st, P)
    [] REq(a, "0") -> st
    [] B.type \in {"ada", "adacost"} -> AdaNext(B, st, P, a)
    [] OTHER -> NumNext(B, st, P, NumErr(B, st, P), a)

(* what must hold of the weights whatever the formulas *)
Distribution(P, a, w) ==
  /\ Chk("a negative weight", \A c \in 1..B.n : RFinite(w[c]) /\ RLe("0", w[c]))
  /\ Chk("weights do not sum to one", RClose(RSum(w), "1", "1e-9", "0") \/ KnownOf(B) = {})
  /\ B.type \in {"ada", "adacost"} => Chk("a case without a class has weight", \A c \in 1..B.n : B.miss[c] => REq(w[c], "0"))
  /\ (B.type = "ada" /\ P # <<>> /\ RLt("0", a) /\ Reached(B, P) = KnownOf(B)) =>
        Chk("half of the weight", LET e == AdaErr(B, st, P) IN RLt(e, "1e-6") \/ RClose(SumSel(B, Wrong(B, P), w), "1/2", "1e-7", "0"))

(* the tree of a leaf per case, from the leaves of a partition *)
FromLeaves(leaves, preds) ==
  TLCEval([c \in 1..B.n |-> LET L == {i \in DOMAIN leaves : InSeq(c, leaves[i])}
                            IN IF L = {} THEN <<>> ELSE <<preds[CHOOSE i \in L : TRUE]>>])

Start == /\ IsEvent("start") /\ Consume /\ Rest /\ k' = 0
         /\ IF Grad THEN /\ Chk("intercept", RClose(Ev.num, Intercept(B), Slack, "1e-9"))
                         /\ Chk("residuals before the first tree", AllClose(Ev.state, Residuals(B, Zeros)))
                         /\ st' = Zeros
            ELSE /\ Distribution(<<>>, "0", Ev.state)
                 /\ Chk("cases do not start with the same weight", \A c, d \in KnownOf(B) : REq(Ev.state[c], Ev.state[d]))
                 /\ st' = Ev.state
Round == /\ IsEvent("round") /\ Consume /\ Rest /\ k' = k + 1
         /\ LET P == FromLeaves(Ev.leaves, Ev.preds)
            IN /\ WeightOk(P, Ev.weight)
               /\ LET nx == TLCEval(StateAfter(P, Ev.weight))
                  IN IF Grad THEN /\ Chk("residual plus predictions is not the target", AllClose(Ev.state, Residuals(B, nx)))
                                  /\ st' = nx
                     ELSE /\ Distribution(P, Ev.weight, Ev.state)
                          /\ Chk("weights after the round", AllClose(Ev.state, nx))
                          /\ st' = Ev.state
After == /\ IsEvent("after") /\ Consume /\ Rest /\ UNCHANGED <<st, k>>
         /\ Chk("training changed the data", Ev.same)

(* ---- forests ---------------------------------------------------------------------- *)
Exit == /\ IsEvent("exit") /\ Consume /\ Rest /\ UNCHANGED <<st, k>>
        /\ Chk("the run did not finish", ~Ev.hung)
        /\ Chk("the run failed", Ev.ok)
Begin == IsEvent("begin") /\ Consume /\ Rest /\ k' = 0 /\ st' = Ev.state
Header == /\ IsEvent("header") /\ Consume /\ Rest /\ UNCHANGED <<st, k>>
          /\ Chk("a header where none belongs", k = 0 /\ Grad)
          /\ Chk("intercept of the forest", RClose(Ev.num, Intercept(B), Slack, "1e-9"))
Told(nodes) == TLCEval([c \in 1..B.n |-> PredOf(nodes, Tr.cols, c)])
(* weights that range over many orders of magnitude hang on the last digits of the errors: no longer followed *)
Followed(w) == IF B.type = "numada" /\ w # <<>> /\ \E c \in 1..B.n : RLt(w[c], "1e-30") THEN <<>> ELSE w
(* a leaf fits the residuals: exactly if it was made from all the cases that reach it *)
Leafs(nodes) == TLCEval([c \in 1..B.n |-> Route(nodes, Tr.cols, c)])
LeafOk(nodes) ==
  LET at == Leafs(nodes)
      r == TLCEval(Residuals(B, st))
  IN \A i \in DOMAIN nodes : nodes[i].kind = "leaf" =>
       LET S == {c \in KnownOf(B) : at[c] = i}
           one == {LeafOf(B, r, {c}) : c \in S}
           (* a case predicted with certainty leaves nothing to divide by *)
           even == B.type = "grad" \/ \A c \in S : LET q == RAbs(r[c]) IN RLe("1/1000000", q) /\ RLe(q, "999999/1000000")
       IN (S # {} /\ even) => IF Tr.bag = "all" THEN RClose(nodes[i].pred, LeafOf(B, r, S), Slack, "1e-6")
                    ELSE /\ \E x \in one : RLe(x, RAdd(nodes[i].pred, Slack)) \/ RClose(x, nodes[i].pred, Slack, "1e-6")
                         /\ \E x \in one : RLe(nodes[i].pred, RAdd(x, Slack)) \/ RClose(x, nodes[i].pred, Slack, "1e-6")
Tree == /\ IsEvent("tree") /\ Consume /\ Rest /\ k' = k + 1
        /\ Chk("trees numbered one after another", Ev.no = k)
        /\ Chk("an incomplete tree", Len(Ev.nodes) > 0 /\ WellFormed(Ev.nodes))
        /\ Chk("no weight saved with the tree", Ev.weight # "none")
        /\ LET P == Told(Ev.nodes)
           IN /\ WeightOk(P, Ev.weight)
              /\ Grad => Chk("leaf does not fit the residuals", LeafOk(Ev.nodes))
              /\ st' = Followed(TLCEval(StateAfter(P, Ev.weight)))
End == /\ IsEvent("end") /\ Consume /\ Rest /\ UNCHANGED <<st, k>>
       /\ Chk("not the requested number of trees", k = Tr.want)
(* what the saved forest says about the training data *)
Applied == /\ IsEvent("applied") /\ Consume /\ Rest /\ UNCHANGED <<st, k>>
           /\ Chk("a row for every case in order", [i \in DOMAIN Ev.rows |-> Ev.rows[i][1]] = Tr.labels)
           /\ Chk("prediction of a training case", \A c \in 1..B.n :
                RClose(Ev.rows[c][2], LET x == RAdd(Intercept(B), st[c]) IN IF Ev.expit THEN Expit(RRound(x)) ELSE x, Slack, "1e-7"))

TraceInit == BaseInit /\ st = <<>> /\ k = 0 /\ Unused
TraceNext == \/ Start \/ Begin \/ Round \/ After \/ Exit \/ Header \/ Tree \/ End \/ Applied
             \/ (Accept /\ Rest /\ UNCHANGED <<st, k>>)
TraceSpec == TraceInit /\ [][TraceNext]_bvars
================================================================================

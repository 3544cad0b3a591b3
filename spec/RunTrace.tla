--------------------------------- MODULE RunTrace --------------------------------
(***************************************************************************)
(* One run of growforest: the forest it saved, the out of bag and test      *)
(* results it reported and its importance file, against the training data.  *)
(* The trees come in the order of the file; the specification routes every  *)
(* case through every tree and casts the votes into boxes of its own:       *)
(*   sure  votes of trees that certainly did not train on the case          *)
(*   may   votes of trees that may or may not have trained on it            *)
(*   all   votes of all trees on the data the forest is tested on           *)
(* What a tree trained on shows in the tree itself: where every leaf is     *)
(* pure, a case that is told its own unique value was in the bag (Tr.bag =  *)
(* "exact"), and one that is told another's class was not ("bound").        *)
(* Tr.judge names the results that are judged.                              *)
(***************************************************************************)
EXTENDS TraceBase, Ballot, Routing

VARIABLES sure, may, all, k
rvars == <<tid, pos, sure, may, all, k, tree, data, todo, arrived, dropped>>
Unused == /\ tree = <<>> /\ data = <<>> /\ todo = <<>> /\ arrived = <<>> /\ dropped = {}
Rest == UNCHANGED <<tree, data, todo, arrived, dropped>>
Same == Rest /\ UNCHANGED <<sure, may, all, k>>

Judged(x) == \E j \in DOMAIN Tr.judge : Tr.judge[j] = x
Kind == Tr.kind
WeightOf(e) == IF e.weight = "none" THEN "1" ELSE e.weight

(* what each case is told by a tree: a sequence of at most one prediction *)
Told(nodes, cols, n) == TLCEval([c \in 1..n |-> PredOf(nodes, cols, c)])
Own(c, p) == IF Kind = "num" THEN REq(p, Tr.target.val[c]) ELSE p = Tr.target.val[c]
SurelyOut(c, p) == Tr.target.miss[c] \/ (Tr.bag \in {"exact", "bound"} /\ ~Own(c, p))
PerhapsOut(c, p) == Tr.bag = "bound" /\ ~SurelyOut(c, p)
Cast(box, P, w, Take(_, _)) ==
  TLCEval([c \in DOMAIN box |-> IF P[c] # <<>> /\ Take(c, P[c][1]) THEN CastVote(Kind, box, c, P[c][1], w)[c] ELSE box[c]])
Always(c, p) == TRUE

Exit == /\ IsEvent("exit") /\ Consume /\ Same
        /\ Chk("the run did not finish", ~Ev.hung)
        /\ Chk("a data race", ~Ev.race)
        /\ Chk("the run failed", Ev.ok)
(* lines between or inside trees that are none: there is no action for "garbled" *)
Header == /\ IsEvent("header") /\ Consume /\ Same
          /\ Chk("a header where none belongs", k = 0 /\ Tr.header)
          /\ Chk("target of the forest", Ev.target = Tr.target.name)
InnerOk(nodes) == \A i \in DOMAIN nodes : nodes[i].kind # "leaf" => nodes[i].l # 0 /\ nodes[i].r # 0
(* trained on a permutation of the targets (or of the one feature): with leaves of one case every tree tells *)
(* the cases one permutation of their targets, the same for all trees                                        *)
FirstTree == Tr.ev[CHOOSE i \in DOMAIN Tr.ev : Tr.ev[i].op = "tree" /\ \A j \in 1..(i - 1) : Tr.ev[j].op # "tree"]
PermutedTree(nodes) ==
  LET P == Told(nodes, Tr.cols, Tr.n)
      v == Tr.target.val
  IN /\ Chk("a case without a prediction", \A c \in 1..Tr.n : P[c] # <<>>)
     /\ Chk("not a permutation of the targets", \A c \in 1..Tr.n :
               Cardinality({d \in 1..Tr.n : P[d] = P[c]}) = 1 /\ \E d \in 1..Tr.n : Own(d, P[c][1]))
     /\ IF Judged("still") THEN Chk("permuted although nothing is to be", \A c \in 1..Tr.n : Own(c, P[c][1]))
        ELSE Chk("not permuted at all", \E c \in 1..Tr.n : ~Own(c, P[c][1]))
     /\ Chk("another permutation for another tree", P = Told(FirstTree.nodes, Tr.cols, Tr.n))

TreeStep ==
  /\ IsEvent("tree") /\ Consume /\ Rest
  /\ Chk("trees numbered one after another", Ev.no = k)
  /\ Chk("target of the tree", Ev.target = Tr.target.name)
  /\ Chk("an incomplete tree", Len(Ev.nodes) > 0 /\ WellFormed(Ev.nodes) /\ InnerOk(Ev.nodes))
  /\ Chk("weight of the tree", Tr.weights = (Ev.weight # "none"))
  /\ Judged("elig") => Chk("a feature that is not eligible",
       \A i \in DOMAIN Ev.nodes : Ev.nodes[i].kind # "leaf" => InSeq(Ev.nodes[i].feat, Tr.eligible))
  /\ Judged("perm") => PermutedTree(Ev.nodes)
  /\ LET P == IF Judged("oob") THEN Told(Ev.nodes, Tr.cols, Tr.n) ELSE <<>>
         Q == IF Judged("test") THEN IF Tr.test = <<>> /\ Judged("oob") THEN P
                                     ELSE IF Tr.test = <<>> THEN Told(Ev.nodes, Tr.cols, Tr.n)
                                     ELSE Told(Ev.nodes, Tr.test[1].cols, Tr.test[1].n)
              ELSE <<>>
         InBag == {c \in 1..Tr.n : ~Tr.target.miss[c] /\ P[c] # <<>> /\ Own(c, P[c][1])}
         Lost == {c \in 1..Tr.n : ~Tr.target.miss[c] /\ P[c] = <<>>}
     IN /\ sure' = IF Judged("oob") THEN Cast(sure, P, WeightOf(Ev), SurelyOut) ELSE sure
        /\ may' = IF Judged("oob") /\ Tr.bag = "bound" THEN Cast(may, P, WeightOf(Ev), PerhapsOut) ELSE may
        /\ all' = IF Judged("test") THEN Cast(all, Q, WeightOf(Ev), Always) ELSE all
        /\ Judged("oob") /\ Tr.bag = "exact" =>
             /\ Chk("more cases in the bag than sampled", Cardinality(InBag) <= Tr.nsamples)
             /\ Chk("unbagged sample of another size",
                    Tr.unbagged => Cardinality(InBag) <= Tr.nsamples /\ Tr.nsamples <= Cardinality(InBag) + Cardinality(Lost))
  /\ k' = k + 1
End == /\ IsEvent("end") /\ Consume /\ Same
       /\ Chk("not the requested number of trees", k = Tr.want)
       /\ Judged("elig") => Chk("an eligible feature that is never used", \A j \in DOMAIN Tr.must :
            \E t \in DOMAIN Tr.ev : Tr.ev[t].op = "tree" /\
              \E i \in DOMAIN Tr.ev[t].nodes : Tr.ev[t].nodes[i].kind # "leaf" /\ Tr.ev[t].nodes[i].feat = Tr.must[j])

(* how many features there are to choose from *)
Features == /\ IsEvent("features") /\ Consume /\ Same
            /\ Chk("number of eligible features", Judged("elig") => Ev.n = Len(Tr.eligible))
(* the table of the contrast analysis: real features only, one row each *)
AceTable == /\ IsEvent("ace") /\ Consume /\ Same
            /\ Chk("a row for every real feature in order", [i \in DOMAIN Ev.rows |-> Ev.rows[i].name] = Tr.features)
            /\ Chk("target of the analysis", \A i \in DOMAIN Ev.rows : Ev.rows[i].target = Tr.target.name)
            /\ Chk("a perfect feature does no better than its contrast", \A i \in DOMAIN Ev.rows :
                 InSeq(Ev.rows[i].name, Tr.must) => RLt(Ev.rows[i].p, "1/2") /\ RLt("0", Ev.rows[i].m))
            /\ Chk("importance of a feature that is not eligible", \A i \in DOMAIN Ev.rows :
                 ~InSeq(Ev.rows[i].name, Tr.eligible) => REq(Ev.rows[i].m, "0"))

(* ---- out of bag results -------------------------------------------------------- *)
MaxSure(c, l) == LET lab == sure[c].lab
                     o == SelectSeq(lab, LAMBDA x : x[1] # l)
                 IN MaxW(o, Len(o))
RowOk(c, r) ==
  IF Tr.bag # "bound" THEN TallyOk(Kind, sure, c, r)
  ELSE IF r = "NA" THEN ~Voted(sure, c)
  ELSE LET most == RAdd(LabelSum(sure[c].lab, r), LabelSum(may[c].lab, r))
       IN RLt("0", most) /\ ~RLt(RMul(most, "1000000000001/1000000000000"), MaxSure(c, r))
ErrorOk(box, col, e) ==
  IF Kind = "cat" THEN BalancedOk(box, col, e)
  ELSE \/ Scored(box, col) = {} \/ Variance(col) = "0"
       \/ LET q == SqErr(box, col)      \* a density estimated from equal values only is infinite
          IN IF RFinite(q) THEN RClose(RMul(e, Variance(col)), q, Tol, "1/10000000") ELSE ~RFinite(e)
Progress == /\ IsEvent("progress") /\ Consume /\ Same
            /\ Chk("progress counts the trees", Ev.no = k)
            /\ Chk("error after this tree", Tr.bag = "exact" => ErrorOk(sure, Tr.target, Ev.e))
Rows == /\ IsEvent("oobpreds") /\ Consume /\ Same
        /\ Chk("a row for every case in order", Len(Ev.rows) = Tr.n /\ \A c \in 1..Tr.n : Ev.rows[c][1] = Tr.labels[c])
        /\ Chk("actual value of a case", \A c \in 1..Tr.n :
               IF Tr.target.miss[c] THEN Ev.rows[c][3] = "NA"
               ELSE IF Kind = "num" THEN REq(Ev.rows[c][3], Tr.target.val[c]) ELSE Ev.rows[c][3] = Tr.target.val[c])
        /\ Judged("oob") => Chk("out of bag prediction", \A c \in 1..Tr.n : RowOk(c, Ev.rows[c][2]))
        (* the reported error is that of these predictions *)
(* the predictions reported, one vote each: their squared error over the variance of the target *)
Reported == LET S == {i \in DOMAIN Tr.ev : Tr.ev[i].op = "oobpreds"} IN IF S = {} THEN <<>> ELSE Tr.ev[CHOOSE i \in S : TRUE].rows
AsBox(rs) == [c \in 1..Tr.n |-> IF rs[c][2] = "NA" THEN EmptyBox(1)[1] ELSE CastVote("num", EmptyBox(1), 1, rs[c][2], "1")[1]]
TellsError(e) ==
  LET rs == Reported IN
  (rs # <<>> /\ \A c \in 1..Tr.n : rs[c][2] = "NA" \/ RIsNum(rs[c][2])) => ErrorOk(TLCEval(AsBox(rs)), Tr.target, e)
OobError == /\ IsEvent("ooberror") /\ Consume /\ Same
            /\ Chk("out of bag error", (Judged("oob") /\ Tr.bag = "exact") => ErrorOk(sure, Tr.target, Ev.e))
            /\ Chk("error of the predictions reported", (Judged("rows") /\ Kind = "num") => TellsError(Ev.e))

(* ---- test results ---------------------------------------------------------------- *)
TCol == IF Tr.test = <<>> THEN Tr.target ELSE Tr.test[1].target
Right(l) == Must(all, TCol, l)
MayBeRight(l) == May(all, TCol, l)
TestError == /\ IsEvent("testerror") /\ Consume /\ Same
             /\ Chk("test error", ErrorOk(all, TCol, Ev.e))
Classified == /\ IsEvent("classified") /\ Consume /\ Same
              /\ Chk("number of classified cases", Ev.n = Cardinality(Known(TCol)))
              /\ Chk("number of cases classified correctly",
                     /\ Cardinality({c \in Known(TCol) : Voted(all, c) /\ Winners(all, c) = {TCol.val[c]}}) <= Ev.c
                     /\ Ev.c <= Cardinality({c \in Known(TCol) : Voted(all, c) /\ TCol.val[c] \in Winners(all, c)}))
              /\ Chk("number of cases without a prediction",
                     Ev.nas = Cardinality({c \in Known(TCol) : ~Voted(all, c)}))
Label == /\ IsEvent("label") /\ Consume /\ Same
         /\ LET sureN == Cardinality({c \in Known(TCol) : Voted(all, c) /\ Winners(all, c) = {Ev.label}})
                mayN == Cardinality({c \in Known(TCol) : Voted(all, c) /\ Ev.label \in Winners(all, c)})
            IN /\ Chk("cases predicted to be of the label", sureN <= Ev.pred /\ Ev.pred <= mayN)
               /\ Chk("cases of the label", Ev.actual = Cardinality(Of(TCol, Ev.label)))
               /\ Chk("wrongly predicted and missed", Ev.pred - Ev.wrong = Ev.actual - Ev.missed /\ Ev.wrong >= 0 /\ Ev.missed >= 0)
               /\ Chk("right predictions of the label",
                      /\ Cardinality(Right(Ev.label)) <= Ev.actual - Ev.missed
                      /\ Ev.actual - Ev.missed <= Cardinality(MayBeRight(Ev.label)))

(* ---- importance --------------------------------------------------------------------- *)
TreeEvents == SelectSeq(Tr.ev, LAMBDA e : e.op = "tree")
Uses(nodes, f) == Cardinality({i \in DOMAIN nodes : nodes[i].kind # "leaf" /\ nodes[i].feat = f})
RECURSIVE MinDepth(_, _, _, _)
(* depth of the shallowest split on f at or below node i, a large number if there is none *)
MinDepth(nodes, f, i, d) ==
  IF i = 0 \/ nodes[i].kind = "leaf" THEN 1000000
  ELSE IF nodes[i].feat = f THEN d
  ELSE LET S == {MinDepth(nodes, f, nodes[i].l, d + 1), MinDepth(nodes, f, nodes[i].r, d + 1), MinDepth(nodes, f, nodes[i].m, d + 1)}
       IN CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
ImpRow(r) ==
  LET T == TreeEvents
      count == Total([i \in DOMAIN T |-> Uses(T[i].nodes, r.name)])
      using == SelectSeq(T, LAMBDA e : Uses(e.nodes, r.name) > 0)
      depth == Total([i \in DOMAIN using |-> MinDepth(using[i].nodes, r.name, 1, 0)])
  IN /\ Chk("number of splits on the feature", RClose(r.count, RNum(count), Tol, Tol))
     /\ Chk("number of trees using the feature", RClose(r.uses, RNum(Len(using)), Tol, Tol))
     /\ Chk("mean of the shallowest depth", Len(using) > 0 => RClose(RMul(r.depth, RNum(Len(using))), RNum(depth), Tol, "1e-9"))
     /\ Chk("importance per tree", RIsNum(r.mean) => RClose(RMul(r.pertree, RNum(Tr.want)), RMul(r.mean, RNum(count)), Tol, "1e-9"))
     /\ Chk("importance per tree using it", (RIsNum(r.mean) /\ Len(using) > 0) =>
              RClose(RMul(r.peruse, RNum(Len(using))), RMul(r.mean, RNum(count)), Tol, "1e-9"))
     /\ Chk("importance of a feature never used", count = 0 => REq(r.mean, "0"))
Importance == /\ IsEvent("importance") /\ Consume /\ Same
              /\ Chk("a row for every feature in order", [i \in DOMAIN Ev.rows |-> Ev.rows[i].name] = Tr.features)
              /\ \A i \in DOMAIN Ev.rows : ImpRow(Ev.rows[i])

(* the same command with a fixed seed again *)
Again == /\ IsEvent("same") /\ Consume /\ Same
         /\ Chk("two runs with one seed differ", Ev.first = Ev.second)

TraceInit == /\ BaseInit /\ Unused /\ k = 0
             /\ sure = EmptyBox(Tr.n) /\ may = EmptyBox(Tr.n)
             /\ all = EmptyBox(IF Tr.test = <<>> THEN Tr.n ELSE Tr.test[1].n)
TraceNext == \/ Exit \/ Header \/ TreeStep \/ End \/ Progress \/ Rows \/ OobError \/ TestError \/ Classified \/ Label
             \/ Importance \/ Again \/ Features \/ AceTable \/ (Accept /\ Same)
TraceSpec == TraceInit /\ [][TraceNext]_rvars
================================================================================

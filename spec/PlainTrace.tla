-------------------------------- MODULE PlainTrace -------------------------------
(***************************************************************************)
(* Forests saved by growforest without bagging (C27, C20, C90): the cases   *)
(* every tree was trained on are known, so each tree is judged like one     *)
(* grown through the library, under the target and the limits the options   *)
(* ask for; the importances reported at the end are the gains of exactly    *)
(* the splits of all trees.                                                 *)
(***************************************************************************)
EXTENDS UseTrace, Options

Zero(f) == cum[f].n = 0
PlainTree ==
  /\ IsEvent("grow") /\ Consume
  /\ LET w == TLCEval(Walk(1, Ev.cases, 0))
     IN /\ Chk("leaf size asked for", Ev.leaf = LeafSize(Ev.leafopt, Len(Ev.cases), Ev.numeric))
        /\ Structure(w)
        /\ ((Ev.all /\ MTry(Ev.tryopt, Ev.eligible) >= Len(Ev.cands)) => Greedy(w))
        /\ cum' = TLCEval([f \in Feats |-> AddAll(Uses(w, f), cum[f])])
Sum(u, s, slack) == RIsNum(s) /\ RLe(RSub(u.lo, slack), s) /\ RLe(s, RAdd(u.hi, slack))
(* Ev.rows: feature, number of splits (-1: not reported), sum of the gains *)
TotalRow(r) ==
  LET u == cum[r.f]
      slack == RMul(RNum(u.n + 1), RAdd(Slack(T), RMul("1e-8", RAbs(u.hi))))
  IN /\ Chk("number of splits on the feature", r.count = -1 \/ r.count = u.n)
     /\ Chk("importance is not the gains of the splits", Sum(u, r.sum, slack))
Total == /\ IsEvent("total") /\ Consume /\ cum' = cum
         /\ Chk("a row for every feature", Feats = {r.f : r \in Range1(Ev.rows)})
         /\ \A r \in Range1(Ev.rows) : TotalRow(r)
(* what was said about the run *)
Said == /\ IsEvent("said") /\ Consume /\ cum' = cum
        /\ Chk("number of trees", Ev.trees = Ev.want)
        /\ Chk("leaf size said", Ev.leaf = LeafSize(Ev.leafopt, Ev.known, Ev.numeric))
        /\ Chk("mTry said", Ev.mtry = MTry(Ev.tryopt, Ev.eligible))

(* the sizes of a run, before and after features are selected *)
Sizes == /\ IsEvent("sizes") /\ Consume /\ cum' = cum
         /\ Chk("cases with a known target", Ev.said.known = Ev.known)
         /\ Chk("eligible features", Ev.said.features = Ev.eligible)
         /\ Chk("leaf size said", Ev.said.leaf = IF Ev.boost THEN BoostedLeaf(Ev.leafopt, Ev.known) ELSE LeafSize(Ev.leafopt, Ev.known, Ev.numeric))
         /\ Chk("number of samples said", Ev.said.samples = Samples(Ev.samopt, Ev.known))
         /\ Chk("mTry said", Ev.said.mtry = MTry(Ev.tryopt, Ev.eligible))
         /\ Chk("mTry of the features kept", Len(Ev.kept) = (IF Ev.cut THEN 1 ELSE 0)
                 /\ \A i \in DOMAIN Ev.kept : Ev.kept[i].mtry = MTry(Ev.tryopt, Ev.kept[i].features))

PlainNext == PlainTree \/ Total \/ Said \/ Sizes \/ (Accept /\ cum' = cum)
PlainSpec == UseInit /\ [][PlainNext]_uvars
================================================================================

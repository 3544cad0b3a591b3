-------------------------------- MODULE JudgeTrace --------------------------------
(***************************************************************************)
(* Trace validation for C29: forests of one tree that growforest grew and   *)
(* the importance it reported, where the cases the tree trained on are      *)
(* known: all of them, or those without an out of bag prediction.           *)
(***************************************************************************)
EXTENDS TraceBase, Judge

tvars == <<tid, pos>>
MinGain == "1e-7"
T == Tr.target
ColNamed(f) == CHOOSE c \in Range1(Tr.cols) : c.name = f

(* the inner nodes at and below i, each with the cases it holds *)
RECURSIVE Inner(_, _, _)
Inner(nodes, i, g) ==
  IF i = 0 \/ nodes[i].kind = "leaf" THEN <<>>
  ELSE LET col == ColNamed(nodes[i].feat)
       IN <<[s |-> nodes[i], on |-> IF Ev.evaloob THEN Ev.oob ELSE g]>>
          \o Inner(nodes, nodes[i].l, LeftOn(nodes[i], col, g))
          \o Inner(nodes, nodes[i].r, RightOn(nodes[i], col, g))
          \o Inner(nodes, nodes[i].m, Absent(col, g))

Lowest(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
GainsAt(x) == {y \in GainOn(T, x.s, ColNamed(x.s.feat), x.on) : RIsNum(y)}

(* a row of the importance file: the mean decrease of the splits on the feature *)
Row(splits, r) ==
  LET N == SelectSeq(splits, LAMBDA x : x.s.feat = r.name)
      k == Len(N)
      low == RSum([i \in DOMAIN N |-> Lowest(GainsAt(N[i]))])
      high == RSum([i \in DOMAIN N |-> Greatest(GainsAt(N[i]))])
      got == RMul(r.mean, RNum(k))
      tol == RMul(RNum(k), RAdd(Slack(T), RAdd("1e-9", RMul("1e-8", RAdd(RAbs(low), RAbs(high))))))
  IN k > 0 =>
     /\ Chk("mean decrease", RLe(got, RAdd(high, tol)) /\ (~Ev.vet => RLe(RSub(low, tol), got)))
     /\ (Ev.vet /\ Ev.few /\ k = 1) =>
          Chk("decrease less that of the shuffled target",
              \E g \in GainsAt(N[1]), b \in VetGains(T, ColNamed(r.name), N[1].on, Ev.leaf) :
                 RClose(r.mean, RSub(g, b), RAdd(Slack(T), "2e-7"), "1e-6"))

Judged ==
  /\ IsEvent("judged")
  /\ LET splits == TLCEval(Inner(Ev.nodes, 1, Ev.bag))
     IN /\ Chk("a split that is no improvement where it was judged",
               \A i \in DOMAIN splits : \E g \in GainsAt(splits[i]) : RLt(RSub(MinGain, Slack(T)), g))
        /\ \A i \in DOMAIN Ev.rows : Row(splits, Ev.rows[i])

(* several trees of at most one split of the only feature: which cases each trained on is not known, but how many is *)
RECURSIVE Totals(_, _)
Totals(splits, outs) ==
  IF splits = <<>> THEN {"0"}
  ELSE LET g == UNION {GainOn(T, Head(splits), ColNamed(Head(splits).feat), SelectSeq(Ev.known, LAMBDA c : c \in O)) : O \in outs}
           good == {x \in g : RIsNum(x) /\ RLt(RSub(MinGain, Slack(T)), x)}
           rest == TLCEval(Totals(Tail(splits), outs))
       IN {RAdd(x, y) : x \in good, y \in rest}
Several ==
  /\ IsEvent("several")
  /\ LET roots == [i \in DOMAIN Ev.trees |-> Ev.trees[i][1]]
         splits == SelectSeq(roots, LAMBDA x : x.kind # "leaf")
         outs == {O \in SUBSET Range1(Ev.known) : Cardinality(O) = Len(Ev.known) - Ev.m}
     IN /\ Chk("more than one split", \A i \in DOMAIN Ev.trees : Len(Ev.trees[i]) <= 4)
        /\ Len(splits) > 0 =>
             Chk("decreases on no choice of cases out of the bags",
                 \E x \in Totals(splits, outs) :
                    RClose(RMul(Ev.mean, RNum(Len(splits))), x, RAdd(Slack(T), "1e-9"), "1e-7"))

(* judged on many cases that all tell the same, the one split that is worth anything is made *)
Made == /\ IsEvent("made")
        /\ Chk("a split that is an improvement was not made", Len(Ev.nodes) > 1)
        /\ Chk("a split on another feature", Ev.nodes[1].feat \in Range1(Ev.feats))

TraceInit == BaseInit
TraceNext == ((Judged \/ Several \/ Made) /\ Consume) \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

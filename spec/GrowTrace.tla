-------------------------------- MODULE GrowTrace --------------------------------
(***************************************************************************)
(* Trees grown by the implementation, judged against the training cases     *)
(* they were grown from (C03, C05, C20).  A trace holds the target, the     *)
(* columns and one event per tree: the cases, the candidates, the limits    *)
(* and the nodes of the tree in preorder.  The specification routes the     *)
(* training cases through the tree itself; what a node must look like       *)
(* follows from the cases that reach it.                                    *)
(***************************************************************************)
EXTENDS TraceBase, SplitSearch

tvars == <<tid, pos>>
T == Tr.target
MinGain == "1e-7"
ColOf(name) == CHOOSE c \in Range1(Tr.cols) : c.name = name
HasCol(name) == \E c \in Range1(Tr.cols) : c.name = name
Node(i) == Ev.nodes[i]
Internal(i) == Node(i).kind # "leaf"
GoesLeft(n, v) == IF n.kind = "num" THEN RLe(v, n.value) ELSE \E k \in DOMAIN n.left : n.left[k] = v

(* what reaches every node: node, cases, depth and the groups the cases are split into *)
RECURSIVE Walk(_, _, _)
Walk(i, g, d) ==
  IF i = 0 THEN {}
  ELSE IF ~Internal(i) \/ ~HasCol(Node(i).feat) \/ Node(i).l = 0 \/ Node(i).r = 0
  THEN {[i |-> i, g |-> g, d |-> d, l |-> <<>>, r |-> <<>>, m |-> <<>>]}
  ELSE LET col == ColOf(Node(i).feat)
           present == Present(col, g)
           l == SelectSeq(present, LAMBDA c : GoesLeft(Node(i), col.val[c]))
           r == SelectSeq(present, LAMBDA c : ~GoesLeft(Node(i), col.val[c]))
           m == Absent(col, g)
       IN {[i |-> i, g |-> g, d |-> d, l |-> l, r |-> r, m |-> m]} \cup Walk(Node(i).l, l, d + 1)
            \cup Walk(Node(i).r, r, d + 1) \cup Walk(Node(i).m, m, d + 1)

(* a node of a jungle is reached from several parents: its cases are those of all its copies *)
RECURSIVE Join(_, _)
Join(S, k) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN x[k] \o Join(S \ {x}, k)
Merged(w) ==
  IF \A x, y \in w : Node(x.i).id = Node(y.i).id => x = y THEN w
  ELSE {LET S == {y \in w : Node(y.i).id = Node(x.i).id}
        IN [i |-> x.i, d |-> x.d, g |-> Join(S, "g"), l |-> Join(S, "l"), r |-> Join(S, "r"), m |-> Join(S, "m")]
        : x \in {x \in w : \A y \in w : Node(y.i).id = Node(x.i).id => x.i <= y.i}}

Inner(w) == {w2 \in w : Internal(w2.i)}
Leaves(w) == {w2 \in w : ~Internal(w2.i)}

SamePred(x, n) == IF PredKind(T) = "num"
                  THEN IF RFinite(x) THEN RClose(x, n.num, Slack(T), "1e-9") ELSE ~RFinite(n.num)
                  ELSE x = n.pred

(* no candidate could have split these cases to any use *)
NoUse(col, g) ==
  \A C \in Allowed(col, g, Ev.leaf) :
     LET l == LeftOf(col, g, C)
         r == RightOf(col, g, C)
         m == Absent(col, g)
         little(x) == ~RLt(RAdd(MinGain, Slack(T)), x)
     IN (\E x \in Gains(T, l \o r, l, r, <<>>) : little(x)) \/ (\E x \in Gains(T, g, l, r, m) : little(x))

Structure(w) ==
  /\ Chk("a splitter on something that is no candidate", \A x \in Inner(w) : \E k \in DOMAIN Ev.cands : Ev.cands[k] = Node(x.i).feat)
  /\ Chk("an internal node without both children", \A x \in Inner(w) : Node(x.i).l # 0 /\ Node(x.i).r # 0)
  /\ Chk("a leaf with children", \A x \in Leaves(w) : Node(x.i).l = 0 /\ Node(x.i).r = 0 /\ Node(x.i).m = 0)
  /\ Chk("depth limit", Ev.depth > 0 => \A x \in Inner(w) : x.d < Ev.depth)
  /\ Chk("leaf size", \A x \in Inner(w) : Len(x.l) >= Ev.leaf /\ Len(x.r) >= Ev.leaf)
  /\ Chk("a missing branch not asked for", ~Ev.missing => \A x \in Inner(w) : Node(x.i).m = 0)
  /\ Chk("missing branch iff missing cases",
         Ev.missing => \A x \in Inner(w) : (Node(x.i).m # 0) = (Len(x.m) > 0))
  /\ Chk("prediction of a leaf", \A x \in Leaves(w) : Len(x.g) > 0 /\ \E p \in Preds(T, x.g) : SamePred(p, Node(x.i)))

Greedy(w) ==
  /\ Chk("a node that could be split was left a leaf",
         \A x \in Leaves(w) : (Len(x.g) >= 2 * Ev.leaf /\ (Ev.depth <= 0 \/ x.d < Ev.depth)) =>
            \A k \in DOMAIN Ev.cands : NoUse(ColOf(Ev.cands[k]), x.g))
  /\ Chk("a split of no use",
         \A x \in Inner(w) : \E y \in Gains(T, x.g, x.l, x.r, x.m) : RLt(RSub(MinGain, Slack(T)), y))

Grow == /\ IsEvent("grow")
        /\ LET w == Merged(Walk(1, Ev.cases, 0))
           IN /\ Structure(w)
              /\ (Ev.full => Greedy(w))
        (* the same run on fresh objects *)
        /\ Chk("left over state changed the tree", "again" \in DOMAIN Ev => Ev.again = Ev.nodes)

TraceInit == BaseInit
TraceNext == (Grow /\ Consume) \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

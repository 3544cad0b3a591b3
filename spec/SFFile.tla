--------------------------------- MODULE SFFile --------------------------------
(***************************************************************************)
(* The saved forest (.sf) file as a sequence of lines                       *)
(*    [k |-> "forest", target, num]       num: intercept, "0" if none       *)
(*    [k |-> "tree",   target, num]       num: weight, "none" if none       *)
(*    [k |-> "node",   node]              node: path and what is there      *)
(*    [k |-> "bad"]                       a malformed line                  *)
(*    [k |-> "badtree"], [k |-> "badforest"]   a malformed header           *)
(* The writer turns a forest into lines; a reader walks the lines.  The     *)
(* value of a file, Denote, is defined without the reader.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

FLine(t, i) == [k |-> "forest", target |-> t, num |-> i, node |-> <<>>]
TLine(t, w) == [k |-> "tree", target |-> t, num |-> w, node |-> <<>>]
NLine(n) == [k |-> "node", target |-> "", num |-> "", node |-> n]
BadLine(k) == [k |-> k, target |-> "", num |-> "", node |-> <<>>]
BadKinds == {"bad", "badtree", "badforest"}

(* ---- writing: a forest is [target, num, trees], a tree [target, num, nodes]; *)
(* nodes are listed parents before children                                    *)
WriteTree(t) == <<TLine(t.target, t.num)>> \o [i \in 1..Len(t.nodes) |-> NLine(t.nodes[i])]
RECURSIVE WriteTrees(_)
WriteTrees(ts) == IF ts = <<>> THEN <<>> ELSE WriteTree(Head(ts)) \o WriteTrees(Tail(ts))
WriteForest(f, header) == (IF header THEN <<FLine(f.target, f.num)>> ELSE <<>>) \o WriteTrees(f.trees)

(* ---- reading tree by tree, from line p --------------------------------------- *)
EndOfTree(ls, p) == LET E == {q \in (p + 1)..Len(ls) : ls[q].k \in {"tree", "forest", "badtree", "badforest"}}
                    IN IF E = {} THEN Len(ls) + 1 ELSE CHOOSE q \in E : \A r \in E : q <= r
NextTree(ls, p) ==
  LET hashdr == p <= Len(ls) /\ ls[p].k = "forest"
      p1 == IF hashdr THEN p + 1 ELSE p
      hdr == IF hashdr THEN <<[target |-> ls[p].target, num |-> ls[p].num]>> ELSE <<>>
      none == [hdr |-> hdr, tree |-> <<>>, next |-> p1, err |-> "", done |-> FALSE]
  IN IF p1 > Len(ls) THEN [none EXCEPT !.err = "eof", !.next = Len(ls) + 1]
     ELSE CASE ls[p1].k = "forest" -> none
            [] ls[p1].k = "badforest" /\ hashdr -> none
            [] ls[p1].k \in BadKinds \cup {"node"} -> [none EXCEPT !.err = "bad"]
            [] ls[p1].k = "tree" ->
                 LET q == EndOfTree(ls, p1)
                     body == [i \in 1..(q - p1 - 1) |-> ls[p1 + i]]
                 IN IF \E i \in DOMAIN body : body[i].k = "bad" THEN [none EXCEPT !.err = "bad", !.next = q]
                    ELSE [none EXCEPT !.tree = <<[target |-> ls[p1].target, num |-> ls[p1].num,
                                                  nodes |-> [i \in DOMAIN body |-> body[i].node]]>>,
                                      !.next = q]

(* ---- reading forest by forest: a forest ends where a header follows ----------- *)
RECURSIVE Gather(_, _, _)
Gather(ls, p, f) ==
  IF p > Len(ls) \/ (ls[p].k \in {"forest", "badforest"} /\ f # <<>>) THEN [forest |-> f, next |-> p, err |-> ""]
  ELSE LET t == NextTree(ls, p)
           f1 == IF f # <<>> THEN f
                 ELSE IF t.hdr # <<>> THEN <<[target |-> t.hdr[1].target, num |-> t.hdr[1].num, trees |-> <<>>]>>
                 ELSE IF t.tree # <<>> THEN <<[target |-> t.tree[1].target, num |-> "0", trees |-> <<>>]>>
                 ELSE <<>>
           f2 == IF t.tree = <<>> THEN f1 ELSE <<[f1[1] EXCEPT !.trees = @ \o t.tree]>>
       IN IF t.err = "bad" THEN [forest |-> f2, next |-> t.next, err |-> "bad"]
          ELSE Gather(ls, t.next, f2)
NextForest(ls, p) == IF p > Len(ls) THEN [forest |-> <<>>, next |-> p, err |-> "eof"] ELSE Gather(ls, p, <<>>)

(* ---- what a well formed file means, said without a reader ---------------------- *)
Headers(ls) == {q \in DOMAIN ls : ls[q].k = "forest"}
TreeLines(ls) == {q \in DOMAIN ls : ls[q].k = "tree"}
NthOf(S, n) == CHOOSE q \in S : Cardinality({r \in S : r < q}) = n - 1
TreeAt(ls, q) == [target |-> ls[q].target, num |-> ls[q].num,
                  nodes |-> [i \in 1..(EndOfTree(ls, q) - q - 1) |-> ls[q + i].node]]
AllTrees(ls) == [n \in 1..Cardinality(TreeLines(ls)) |-> TreeAt(ls, NthOf(TreeLines(ls), n))]
Starts(ls) == Headers(ls) \cup (IF ls # <<>> /\ 1 \notin Headers(ls) THEN {1} ELSE {})
ForestAt(ls, n) ==
  LET s == NthOf(Starts(ls), n)
      e == IF n = Cardinality(Starts(ls)) THEN Len(ls) + 1 ELSE NthOf(Starts(ls), n + 1)
      T == {q \in TreeLines(ls) : s <= q /\ q < e}
      ts == [i \in 1..Cardinality(T) |-> TreeAt(ls, NthOf(T, i))]
  IN IF ls[s].k = "forest" THEN [target |-> ls[s].target, num |-> ls[s].num, trees |-> ts]
     ELSE [target |-> ls[s].target, num |-> "0", trees |-> ts]
Denote(ls) == [n \in 1..Cardinality(Starts(ls)) |-> ForestAt(ls, n)]
Clean(ls) == /\ \A q \in DOMAIN ls : ls[q].k \notin BadKinds
             /\ \A q \in DOMAIN ls : ls[q].k = "node" => \E r \in TreeLines(ls) : r < q /\ q < EndOfTree(ls, r)
================================================================================

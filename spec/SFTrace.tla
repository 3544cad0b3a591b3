--------------------------------- MODULE SFTrace -------------------------------
(***************************************************************************)
(* Trace validation for C07 and C08.  A node is a record                    *)
(* [path, kind, feat, value, left, pred]; left is sorted.                   *)
(***************************************************************************)
EXTENDS TraceBase, SFFile, Rat
VARIABLES at, ended
tvars == <<tid, pos, at, ended>>

SameNum(a, b) == a = b \/ (RIsNum(a) /\ RIsNum(b) /\ REq(a, b))
SameNodes(m, n) == Len(m) = Len(n) /\ {m[i] : i \in DOMAIN m} = {n[i] : i \in DOMAIN n}
SameTree(a, b) == a.target = b.target /\ SameNum(a.num, b.num) /\ SameNodes(a.nodes, b.nodes)
SameForest(f, g) == /\ f.target = g.target /\ SameNum(f.num, g.num) /\ Len(f.trees) = Len(g.trees)
                    /\ \A i \in DOMAIN f.trees : SameTree(f.trees[i], g.trees[i])

(* ---- C08: calls on a reader over Tr.lines ---- *)
ReadTree ==
  /\ IsEvent("readtree") /\ Consume /\ ended = ""
  /\ LET t == NextTree(Tr.lines, at) IN
     IF t.err = "bad"
     THEN /\ Chk("the malformed line is reported", Ev.err = "error")
          /\ at' = at /\ ended' = "bad"
     ELSE /\ Chk("a forest header is delivered with the tree after it", Len(Ev.hdr) = Len(t.hdr) /\
                 (t.hdr # <<>> => Ev.hdr[1].target = t.hdr[1].target /\ SameNum(Ev.hdr[1].num, t.hdr[1].num)))
          /\ Chk("the next tree is delivered", Len(Ev.tree) = Len(t.tree) /\ (t.tree # <<>> => SameTree(Ev.tree[1], t.tree[1])))
          (* end of input may come with the last tree or after it, not before *)
          /\ Chk("end of input is reported exactly at the end",
                 \/ Ev.err = "" /\ t.err # "eof"
                 \/ Ev.err = "eof" /\ t.next > Len(Tr.lines))
          /\ at' = t.next
          /\ ended' = IF Ev.err = "eof" THEN "eof" ELSE ""
ReadForest ==
  /\ IsEvent("readforest") /\ Consume /\ ended = ""
  /\ LET f == NextForest(Tr.lines, at) IN
     IF f.err = "bad"
     THEN /\ Chk("the malformed line is reported", Ev.err = "error")
          /\ at' = at /\ ended' = "bad"
     ELSE /\ Chk("the next forest is delivered",
                 Len(Ev.forest) = Len(f.forest) /\ (f.forest # <<>> => SameForest(Ev.forest[1], f.forest[1])))
          /\ Chk("end of input is reported once everything was delivered", Ev.err = f.err)
          /\ at' = f.next /\ ended' = f.err
(* a caller reads until it is told to stop *)
Stop == /\ IsEvent("stop") /\ Consume /\ UNCHANGED <<at, ended>>
        /\ Chk("the reader stops", ended # "")
        /\ Chk("everything was delivered", ended = "eof" => at > Len(Tr.lines))
(* after the end there is nothing *)
Again == /\ IsEvent("again") /\ Consume /\ UNCHANGED <<at, ended>>
         /\ Chk("nothing follows the end", ended = "eof" => Ev.err = "eof" /\ Ev.n = 0)

(* ---- C07: a forest, the lines written for it, the forest read back ---- *)
Wrote == /\ IsEvent("wrote") /\ Consume /\ UNCHANGED <<at, ended>>
         /\ Chk("the file says what the forest is",
                LET d == Denote(Ev.lines) IN Len(d) = 1 /\ SameForest(d[1], Tr.forest))
         /\ Chk("parents are written before children", \A q \in DOMAIN Ev.lines :
                Ev.lines[q].k = "node" /\ Ev.lines[q].node.path # "*" =>
                  \E r \in 1..(q - 1) : Ev.lines[r].k = "node" /\ Ev.lines[r].node.path = Ev.lines[q].node.parent)
Read == /\ IsEvent("read") /\ Consume /\ UNCHANGED <<at, ended>>
        /\ Chk("no error", Ev.err = "")
        /\ Chk("the forest reads back the same", Len(Ev.forest) = 1 /\ SameForest(Ev.forest[1], Tr.forest))
Votes == /\ IsEvent("votes") /\ Consume /\ UNCHANGED <<at, ended>>
         /\ Chk("the read back forest votes alike", Ev.before = Ev.after)

TraceInit == BaseInit /\ at = 1 /\ ended = ""
TraceNext == ReadTree \/ ReadForest \/ Stop \/ Again \/ Wrote \/ Read \/ Votes \/ (Accept /\ UNCHANGED <<at, ended>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

--------------------------------- MODULE GrowMC ---------------------------------
(***************************************************************************)
(* C03: growing a tree depth first over every small table, twice into the   *)
(* same node objects with different limits.  A node is a path; growing      *)
(* visits the nodes on a stack, and each becomes a leaf or is split by any  *)
(* feature that leaves enough cases on both sides.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NC, NF, Depths, LeafSizes, ClearLeaf, PruneMissing

VARIABLES tab, tree, todo, opt, round
vars == <<tab, tree, todo, opt, round>>

Cs == 1..NC
Fs == 1..NF
Val(f, c) == tab[f][c]                  \* 0, 1, or 2 for missing
L(f, g) == {c \in g : Val(f, c) = 0}
R(f, g) == {c \in g : Val(f, c) = 1}
M(f, g) == {c \in g : Val(f, c) = 2}
Opts == [leaf : LeafSizes, depth : Depths, missing : BOOLEAN]

NoTree == [p \in {} |-> 0]
Init == /\ tab \in [Fs -> [Cs -> 0..2]]
        /\ opt \in Opts /\ round = 1
        /\ tree = NoTree /\ todo = <<[p |-> <<>>, g |-> Cs]>>

Under(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Put(t, p, n) == [q \in (DOMAIN t) \cup {p} |-> IF q = p THEN n ELSE t[q]]
Drop(t, S) == [q \in (DOMAIN t) \ S |-> t[q]]

Top == Head(todo)
Full == (opt.depth = 0 \/ Len(Top.p) < opt.depth) /\ Cardinality(Top.g) >= 2 * opt.leaf
Split(f) ==
  /\ todo # <<>> /\ Full
  /\ Cardinality(L(f, Top.g)) >= opt.leaf /\ Cardinality(R(f, Top.g)) >= opt.leaf
  /\ LET pl == Append(Top.p, "L")
         pr == Append(Top.p, "R")
         pm == Append(Top.p, "M")
         gone == {q \in DOMAIN tree : q = pm \/ Under(pm, q)}
         t1 == Put(Drop(tree, gone), Top.p, [f |-> f, g |-> Top.g])
         blank == [f |-> 0, g |-> {}]
         t2 == IF pl \in DOMAIN t1 /\ pr \in DOMAIN t1 THEN t1 ELSE Put(Put(t1, pl, blank), pr, blank)
         grows == opt.missing /\ (M(f, Top.g) # {} \/ ~PruneMissing)
         t3 == IF grows THEN Put(t2, pm, blank) ELSE t2
     IN /\ tree' = t3
        /\ todo' = <<[p |-> pl, g |-> L(f, Top.g)], [p |-> pr, g |-> R(f, Top.g)]>> \o
                   (IF grows /\ M(f, Top.g) # {} THEN <<[p |-> pm, g |-> M(f, Top.g)]>> ELSE <<>>) \o Tail(todo)
  /\ UNCHANGED <<tab, opt, round>>
Leaf ==
  /\ todo # <<>>
  /\ tree' = Put(IF ClearLeaf THEN Drop(tree, {q \in DOMAIN tree : Under(Top.p, q)}) ELSE tree, Top.p, [f |-> 0, g |-> Top.g])
  /\ todo' = Tail(todo) /\ UNCHANGED <<tab, opt, round>>
Again == /\ todo = <<>> /\ round = 1 /\ round' = 2 /\ opt' \in Opts
         /\ todo' = <<[p |-> <<>>, g |-> Cs]>> /\ UNCHANGED <<tab, tree>>
Next == (\E f \in Fs : Split(f)) \/ Leaf \/ Again
Spec == Init /\ [][Next]_vars

Done == todo = <<>>
Kid(p, s) == Append(p, s) \in DOMAIN tree
Reach(p) ==                          \* cases that reach a path of the finished tree
  LET ok(c) == \A k \in 1..Len(p) :
                 LET v == Val(tree[SubSeq(p, 1, k - 1)].f, c)
                 IN (p[k] = "L" /\ v = 0) \/ (p[k] = "R" /\ v = 1) \/ (p[k] = "M" /\ v = 2)
  IN {c \in Cs : ok(c)}
Contract ==
  Done => \A p \in DOMAIN tree :
    IF tree[p].f = 0
    THEN /\ \A s \in {"L", "R", "M"} : ~Kid(p, s)
         /\ tree[p].g = Reach(p) /\ tree[p].g # {}
    ELSE /\ Kid(p, "L") /\ Kid(p, "R")
         /\ opt.depth > 0 => Len(p) < opt.depth
         /\ Cardinality(Reach(Append(p, "L"))) >= opt.leaf /\ Cardinality(Reach(Append(p, "R"))) >= opt.leaf
         /\ Kid(p, "M") <=> (opt.missing /\ Reach(Append(p, "M")) # {})
================================================================================

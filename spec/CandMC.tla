--------------------------------- MODULE CandMC ---------------------------------
(***************************************************************************)
(* C05: the search over candidate features while a tree grows depth first.  *)
(* One array of candidates is shared by all nodes.  A node inherits the     *)
(* number nc of features known to be constant, which are the last nc of the *)
(* array.  Its search draws from the others, swaps what it drew to the      *)
(* front, and moves what it finds constant to the end.  The children inherit*)
(* the new number; a sibling inherits the number its parent had after its   *)
(* own search.  The model keeps, for every node on the stack, the set of    *)
(* features its ancestors really found constant, and compares.              *)
(*                                                                         *)
(* Order = "depth" is Tree.Grow; "breadth" searches level by level with the *)
(* same counting, which is wrong because the ends of the array belong to    *)
(* different nodes.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS N, MaxDepth, Order, Guarded, Restore

VARIABLES cans,     \* the shared array
          todo,     \* nodes to visit: records [d, nc, known]
          cur,      \* the node being searched, or "none"
          last, drawn, nc, j, found, tried, mTry, force, ended

vars == <<cans, todo, cur, last, drawn, nc, j, found, tried, mTry, force, ended>>
NoNode == [d |-> 99, nc |-> 0, known |-> {}]
Perms == {s \in [1..N -> 1..N] : Cardinality({s[i] : i \in 1..N}) = N}
Swap(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
Tail_(s, n) == {s[i] : i \in (N - n + 1)..N}

Init == /\ cans = [i \in 1..N |-> i]
        /\ todo = <<[d |-> 0, nc |-> 0, known |-> {}]>>
        /\ cur = NoNode /\ last = 0 /\ drawn = 0 /\ nc = 0 /\ j = 0 /\ found = {} /\ tried = <<>>
        /\ mTry \in 1..(N + 1) /\ force \in BOOLEAN /\ ended = FALSE

Visit == /\ cur = NoNode /\ todo # <<>>
         /\ cur' = Head(todo) /\ todo' = Tail(todo)
         /\ last' = 0 /\ drawn' = 0 /\ nc' = Head(todo).nc /\ j' = 0 /\ found' = {} /\ tried' = <<>> /\ ended' = FALSE
         /\ UNCHANGED <<cans, mTry, force>>

Out == IF Guarded THEN nc + last >= N ELSE nc >= N
Going == ~ended /\ cur # NoNode /\ (j < mTry \/ (force /\ j <= drawn)) /\ ~Out

(* draw position last+1 .. N-drawn; beyond N-nc lies a known constant *)
Skip == /\ Going
        /\ N > drawn + last
        /\ \E i \in (last + 1)..(N - drawn) : i > N - nc
        /\ drawn' = drawn + 1 /\ j' = j + 1
        /\ UNCHANGED <<cans, todo, cur, last, nc, found, tried, mTry, force, ended>>

Try(isConst, swapped) ==
  LET f == swapped[last + 1]
  IN /\ tried' = Append(tried, f)
     /\ j' = j + 1
     /\ IF isConst
        THEN /\ nc' = nc + 1 /\ drawn' = drawn + 1 /\ last' = last
             /\ cans' = Swap(swapped, N - nc, last + 1)
             /\ found' = found \cup {f}
        ELSE /\ last' = last + 1 /\ cans' = swapped /\ UNCHANGED <<nc, drawn, found>>
     /\ UNCHANGED <<todo, cur, mTry, force, ended>>

Draw == /\ Going
        /\ \E c \in BOOLEAN :
             IF N > drawn + last
             THEN \E i \in (last + 1)..(N - drawn) : i <= N - nc /\ Try(c, Swap(cans, i, last + 1))
             ELSE IF last < N /\ N - nc >= 1 THEN Try(c, cans) ELSE FALSE

(* the search is over *)
Stop == /\ cur # NoNode /\ ~ended /\ ~Going
        /\ ended' = TRUE
        /\ UNCHANGED <<cans, todo, cur, last, drawn, nc, j, found, tried, mTry, force>>

Kids == <<[d |-> cur.d + 1, nc |-> nc, known |-> cur.known \cup found]>>
Split == /\ ended /\ cur # NoNode /\ cur.d < MaxDepth
         /\ LET k == [d |-> cur.d + 1, nc |-> nc, known |-> cur.known \cup found]
                todo2 == IF Restore THEN todo ELSE [q \in DOMAIN todo |-> [todo[q] EXCEPT !.nc = nc]]
            IN todo' = IF Order = "depth" THEN <<k, k>> \o todo2 ELSE todo \o <<k, k>>
         /\ cur' = NoNode /\ ended' = FALSE
         /\ UNCHANGED <<cans, last, drawn, nc, j, found, tried, mTry, force>>
Leaf == /\ ended /\ cur # NoNode /\ cur' = NoNode /\ ended' = FALSE
        /\ UNCHANGED <<cans, todo, last, drawn, nc, j, found, tried, mTry, force>>

Next == Visit \/ Skip \/ Draw \/ Stop \/ Split \/ Leaf
Spec == Init /\ [][Next]_vars

(* ---- what is required ---------------------------------------------------- *)
Permutation == cans \in Perms
InRange == Going => last < N /\ (N > drawn + last \/ N > last)
Once == \A a, b \in DOMAIN tried : a # b => tried[a] # tried[b]
NotKnown == cur # NoNode => \A a \in DOMAIN tried : tried[a] \notin cur.known
Accounted == cur # NoNode => /\ nc = Cardinality(cur.known \cup found)
                             /\ Tail_(cans, nc) = cur.known \cup found
Enough ==
  ended =>
    LET rest == (1..N) \ (cur.known \cup {tried[a] : a \in DOMAIN tried})
    IN /\ rest = {} \/ Len(tried) + Cardinality(cur.known) >= mTry
       /\ ~force => Len(tried) <= mTry
       /\ (force /\ Len(tried) > mTry) => \A a \in 1..(Len(tried) - 1) : tried[a] \in found
       /\ (force /\ rest # {}) => \E a \in DOMAIN tried : tried[a] \notin found
================================================================================

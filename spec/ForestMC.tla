--------------------------------- MODULE ForestMC --------------------------------
(***************************************************************************)
(* How growforest grows one forest on several cores.  Every worker holds a  *)
(* tree object and grows it again and again; a grown tree votes for its out *)
(* of bag cases, then, under the recording lock, is written to the file     *)
(* (a header line, then its nodes), kept for the test at the end, and       *)
(* counted; the worker goes on while fewer trees were started than asked    *)
(* for.  Clamp, Lock and Fresh switch the three precautions of the design:  *)
(* no more workers than trees, the lock, and a new tree object once the old *)
(* one is kept.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Cores, NTrees, Clamp, Lock, Fresh, Keep

Workers == 1..(IF Clamp /\ Cores > NTrees THEN NTrees ELSE Cores)

VARIABLES started, finished, owner,
          object,      \* object[w]: the tree object of a worker
          grown,       \* grown[o]: which tree an object holds, 0 none
          nobjects, ngrown,
          votes,       \* the trees whose votes were cast, in order
          file,        \* lines <<"tree", number>> and <<"nodes", grown tree>>
          kept,        \* tree objects kept for the test
          seen,        \* progress[i]: votes in the box when tree i was reported
          pc, reg      \* reg[w]: a value read before it is written back
vars == <<started, finished, owner, object, grown, nobjects, ngrown, votes, file, kept, seen, pc, reg>>

MaxTrees == NTrees + Cores
Init == /\ started = Cardinality(Workers) /\ finished = 0 /\ owner = 0
        /\ object = [w \in Workers |-> w] /\ nobjects = Cardinality(Workers)
        /\ grown = [o \in 1..(MaxTrees + Cores) |-> 0] /\ ngrown = 0
        /\ votes = <<>> /\ file = <<>> /\ kept = <<>> /\ seen = <<>>
        /\ pc = [w \in Workers |-> "grow"] /\ reg = [w \in Workers |-> 0]

Go(w, from, to) == pc[w] = from /\ pc' = [pc EXCEPT ![w] = to]

Grow(w) == /\ Go(w, "grow", "vote")
           /\ ngrown' = ngrown + 1
           /\ grown' = [grown EXCEPT ![object[w]] = ngrown + 1]
           /\ UNCHANGED <<started, finished, owner, object, nobjects, votes, file, kept, seen, reg>>
Vote(w) == /\ Go(w, "vote", "lock")
           /\ votes' = Append(votes, grown[object[w]])
           /\ UNCHANGED <<started, finished, owner, object, grown, nobjects, ngrown, file, kept, seen, reg>>
Acquire(w) == /\ Go(w, "lock", "head")
              /\ Lock => owner = 0
              /\ owner' = IF Lock THEN w ELSE owner
              /\ reg' = [reg EXCEPT ![w] = finished]
              /\ UNCHANGED <<started, finished, object, grown, nobjects, ngrown, votes, file, kept, seen>>
WriteHead(w) == /\ Go(w, "head", "body")
                /\ file' = Append(file, <<"tree", finished>>)
                /\ UNCHANGED <<started, finished, owner, object, grown, nobjects, ngrown, votes, kept, seen, reg>>
WriteBody(w) == /\ Go(w, "body", "keep")
                /\ file' = Append(file, <<"nodes", grown[object[w]]>>)
                /\ UNCHANGED <<started, finished, owner, object, grown, nobjects, ngrown, votes, kept, seen, reg>>
KeepTree(w) == /\ Go(w, "keep", "count")
               /\ IF Keep
                  THEN /\ kept' = Append(kept, object[w])
                       /\ IF Fresh /\ started < NTrees
                          THEN object' = [object EXCEPT ![w] = nobjects + 1] /\ nobjects' = nobjects + 1
                          ELSE UNCHANGED <<object, nobjects>>
                  ELSE UNCHANGED <<kept, object, nobjects>>
               /\ UNCHANGED <<started, finished, owner, grown, ngrown, votes, file, seen, reg>>
CountTree(w) == /\ Go(w, "count", "next")
                /\ finished' = reg[w] + 1
                /\ seen' = Append(seen, Len(votes))
                /\ reg' = [reg EXCEPT ![w] = started]
                /\ UNCHANGED <<started, owner, object, grown, nobjects, ngrown, votes, file, kept>>
NextTree(w) == /\ pc[w] = "next"
               /\ IF reg[w] < NTrees
                  THEN started' = reg[w] + 1 /\ pc' = [pc EXCEPT ![w] = "grow"]
                  ELSE started' = started /\ pc' = [pc EXCEPT ![w] = "done"]
               /\ owner' = IF Lock THEN 0 ELSE owner
               /\ UNCHANGED <<finished, object, grown, nobjects, ngrown, votes, file, kept, seen, reg>>
Step(w) == Grow(w) \/ Vote(w) \/ Acquire(w) \/ WriteHead(w) \/ WriteBody(w) \/ KeepTree(w) \/ CountTree(w) \/ NextTree(w)
AllDone == \A w \in Workers : pc[w] = "done"
Next == (\E w \in Workers : Step(w)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Step(w))
Bounded == ngrown <= MaxTrees

(* ---- what a user relies on ---------------------------------------------------- *)
Requested == AllDone => ngrown = NTrees /\ finished = NTrees
(* the file: headers 0, 1, 2, ... each followed by the nodes of one tree, none twice *)
FileOk == AllDone => /\ Len(file) = 2 * NTrees
                     /\ \A i \in 1..NTrees : file[2 * i - 1] = <<"tree", i - 1>> /\ file[2 * i][1] = "nodes"
                     /\ {file[2 * i][2] : i \in 1..NTrees} = 1..NTrees
(* the trees that are tested are those of the file *)
KeptOk == AllDone /\ Keep => {grown[kept[i]] : i \in DOMAIN kept} = 1..NTrees /\ Len(kept) = NTrees
(* every tree voted once *)
VotesOk == AllDone => {votes[i] : i \in DOMAIN votes} = 1..NTrees /\ Len(votes) = NTrees
(* a progress report covers at least the trees counted so far; with one core exactly those *)
SeenOk == \A i \in DOMAIN seen : seen[i] >= i /\ (Cardinality(Workers) = 1 => seen[i] = i)
Ends == <>AllDone
================================================================================

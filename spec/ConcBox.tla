--------------------------------- MODULE ConcBox -------------------------------
(***************************************************************************)
(* A categorical ballot box used by several goroutines.  A vote registers   *)
(* its label in the shared label table (read the length, then append) and   *)
(* adds to a case's total (read, then write); a tally reads a case and then *)
(* looks the winner's label up.  RegLock and CaseLock say whether the code  *)
(* holds the table's, respectively the case's, lock across the two steps.   *)
(* A running mean and a sparse counter are the same machine with one label. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Cases, Labels, NOps, RegLock, CaseLock

VARIABLES back, num,          \* label table: index -> label, label -> index (0: none)
          box,                \* box[c][index]
          regOwner, caseOwner,
          pc, op, loc, left,
          cast                \* history: how many votes for c and label have been completed
vars == <<back, num, box, regOwner, caseOwner, pc, op, loc, left, cast>>

None == "none"
MaxIdx == Cardinality(Labels) + 1
Init == /\ back = <<>> /\ num = [l \in Labels |-> 0]
        /\ box = [c \in Cases |-> [i \in 1..MaxIdx |-> 0]]
        /\ regOwner = None /\ caseOwner = [c \in Cases |-> None]
        /\ pc = [t \in Threads |-> "idle"]
        /\ op = [t \in Threads |-> <<CHOOSE c \in Cases : TRUE, CHOOSE l \in Labels : TRUE>>]
        /\ loc = [t \in Threads |-> [n |-> 0, idx |-> 0, v |-> 0, win |-> {}]]
        /\ left = [t \in Threads |-> NOps]
        /\ cast = [c \in Cases |-> [l \in Labels |-> 0]]

Go(t, from, to) == pc[t] = from /\ pc' = [pc EXCEPT ![t] = to]
Best(f, S) == {x \in S : f[x] > 0 /\ \A y \in S : f[y] <= f[x]}

StartVote(t) == /\ left[t] > 0 /\ Go(t, "idle", "lookup")
                /\ \E c \in Cases, l \in Labels : op' = [op EXCEPT ![t] = <<c, l>>]
                /\ left' = [left EXCEPT ![t] = @ - 1]
                /\ UNCHANGED <<back, num, box, regOwner, caseOwner, loc, cast>>
Lookup(t) == /\ Go(t, "lookup", "register")
             /\ RegLock => regOwner = None
             /\ regOwner' = IF RegLock THEN t ELSE regOwner
             /\ loc' = [loc EXCEPT ![t].idx = num[op[t][2]], ![t].n = Len(back)]
             /\ UNCHANGED <<back, num, box, caseOwner, op, left, cast>>
Register(t) == /\ Go(t, "register", "read")
               /\ LET l == op[t][2] IN
                  IF loc[t].idx # 0 THEN UNCHANGED <<back, num, loc>>
                  ELSE /\ num' = [num EXCEPT ![l] = loc[t].n + 1]
                       /\ back' = SubSeq(back, 1, loc[t].n) \o <<l>>
                       /\ loc' = [loc EXCEPT ![t].idx = loc[t].n + 1]
               /\ regOwner' = IF RegLock THEN None ELSE regOwner
               /\ UNCHANGED <<box, caseOwner, op, left, cast>>
Lock(t, c) == /\ CaseLock => caseOwner[c] = None
              /\ caseOwner' = IF CaseLock THEN [caseOwner EXCEPT ![c] = t] ELSE caseOwner
Unlock(t, c) == caseOwner' = IF CaseLock THEN [caseOwner EXCEPT ![c] = None] ELSE caseOwner
ReadCase(t) == /\ Go(t, "read", "write") /\ Lock(t, op[t][1])
               /\ loc' = [loc EXCEPT ![t].v = box[op[t][1]][loc[t].idx]]
               /\ UNCHANGED <<back, num, box, regOwner, op, left, cast>>
WriteCase(t) == /\ Go(t, "write", "idle") /\ Unlock(t, op[t][1])
                /\ box' = [box EXCEPT ![op[t][1]][loc[t].idx] = loc[t].v + 1]
                /\ cast' = [cast EXCEPT ![op[t][1]][op[t][2]] = @ + 1]
                /\ UNCHANGED <<back, num, regOwner, op, loc, left>>
StartTally(t) == /\ left[t] > 0 /\ Go(t, "idle", "tread")
                 /\ \E c \in Cases : op' = [op EXCEPT ![t] = <<c, op[t][2]>>]
                 /\ left' = [left EXCEPT ![t] = @ - 1]
                 /\ UNCHANGED <<back, num, box, regOwner, caseOwner, loc, cast>>
(* the case's lock is taken and released within the step, so it needs to be free *)
TallyRead(t) == /\ Go(t, "tread", "tname") /\ (CaseLock => caseOwner[op[t][1]] = None)
                /\ \E i \in IF Best(box[op[t][1]], 1..MaxIdx) = {} THEN {0} ELSE Best(box[op[t][1]], 1..MaxIdx) :
                     loc' = [loc EXCEPT ![t].idx = i, ![t].win = Best(cast[op[t][1]], Labels)]
                /\ UNCHANGED <<back, num, box, regOwner, caseOwner, op, left, cast>>
TallyName(t) == /\ Go(t, "tname", "idle") /\ (RegLock => regOwner = None)
                /\ Assert(loc[t].idx = 0 \/ loc[t].idx <= Len(back), "the winner has no name")
                /\ Assert(IF loc[t].idx = 0 THEN loc[t].win = {} ELSE back[loc[t].idx] \in loc[t].win,
                          "the tally is not the plurality")
                /\ UNCHANGED <<back, num, box, regOwner, caseOwner, op, loc, left, cast>>
Step(t) == \/ StartVote(t) \/ Lookup(t) \/ Register(t) \/ ReadCase(t) \/ WriteCase(t)
           \/ StartTally(t) \/ TallyRead(t) \/ TallyName(t)
AllDone == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Quiet == \A t \in Threads : pc[t] = "idle"
NothingLost == Quiet => \A c \in Cases, l \in Labels : IF num[l] = 0 THEN cast[c][l] = 0 ELSE box[c][num[l]] = cast[c][l]
TableOk == regOwner = None /\ Quiet => /\ \A l \in Labels : num[l] # 0 => num[l] <= Len(back) /\ back[num[l]] = l
                                       /\ \A i, j \in DOMAIN back : back[i] = back[j] => i = j
(* no two threads between the steps of conflicting accesses: what a race detector looks for *)
RegExclusive == \A s, t \in Threads : s # t => ~(pc[s] = "register" /\ pc[t] = "register")
CaseExclusive == \A s, t \in Threads : s # t => ~(pc[s] = "write" /\ pc[t] = "write" /\ op[s][1] = op[t][1])
Ends == <>AllDone
Symmetric == Permutations(Threads)
================================================================================

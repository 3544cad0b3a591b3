--------------------------------- MODULE LeafMC ---------------------------------
(***************************************************************************)
(* leafcount's threads.  A feeder hands out forest files one at a time over *)
(* a channel; a worker that has a file counts every pair of cases that ends *)
(* in a leaf together (reading the count, then writing it back), and then   *)
(* reports; the output is written when as many reports have arrived as      *)
(* there are files.  Variant: "ok"; "nolock" (counts are not guarded);      *)
(* "early" (the output waits for one report per worker instead).            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Files, Variant
VARIABLES next, at, count, lock, reports, out
vars == <<next, at, count, lock, reports, out>>

Pairs == 1..2
(* the pairs that meet in the trees of each file, in the order they are counted *)
Work == <<<<1, 2>>, <<1>>, <<2, 1, 1>>>>
Idle == [pc |-> "idle", f |-> 0, i |-> 0, v |-> 0]
Init == /\ next = 1 /\ at = [t \in Threads |-> Idle] /\ count = [p \in Pairs |-> 0]
        /\ lock = 0 /\ reports = 0 /\ out = <<>>
Take(t) == /\ at[t].pc = "idle" /\ next <= Files
           /\ at' = [at EXCEPT ![t] = [pc |-> "add", f |-> next, i |-> 1, v |-> 0]]
           /\ next' = next + 1 /\ UNCHANGED <<count, lock, reports, out>>
Read(t) == /\ at[t].pc = "add" /\ at[t].i <= Len(Work[at[t].f])
           /\ Variant = "nolock" \/ lock = 0
           /\ lock' = IF Variant = "nolock" THEN 0 ELSE t
           /\ at' = [at EXCEPT ![t].pc = "write", ![t].v = count[Work[at[t].f][at[t].i]]]
           /\ UNCHANGED <<next, count, reports, out>>
Write(t) == /\ at[t].pc = "write"
            /\ count' = [count EXCEPT ![Work[at[t].f][at[t].i]] = at[t].v + 1]
            /\ lock' = IF lock = t THEN 0 ELSE lock
            /\ at' = [at EXCEPT ![t].pc = "add", ![t].i = @ + 1]
            /\ UNCHANGED <<next, reports, out>>
Report(t) == /\ at[t].pc = "add" /\ at[t].i > Len(Work[at[t].f])
             /\ reports' = reports + 1 /\ at' = [at EXCEPT ![t] = Idle]
             /\ UNCHANGED <<next, count, lock, out>>
Need == IF Variant = "early" /\ Cardinality(Threads) < Files THEN Cardinality(Threads) ELSE Files
Output == /\ reports = Need /\ out = <<>> /\ out' = <<count>>
          /\ UNCHANGED <<next, at, count, lock, reports>>
Worker == \E t \in Threads : Take(t) \/ Read(t) \/ Write(t) \/ Report(t)
Next == (\E t \in Threads : Take(t) \/ Read(t) \/ Write(t) \/ Report(t)) \/ Output
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Occurs(p) == LET n(f) == Cardinality({i \in DOMAIN Work[f] : Work[f][i] = p})
             IN n(1) + (IF Files >= 2 THEN n(2) ELSE 0) + (IF Files >= 3 THEN n(3) ELSE 0)
Exact == out # <<>> => \A p \in Pairs : out[1][p] = Occurs(p)
Ends == <>(out # <<>>)
================================================================================

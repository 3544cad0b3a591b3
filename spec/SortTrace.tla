------------------------------- MODULE SortTrace -------------------------------
(***************************************************************************)
(* Trace validation for C25: the arrays before and after a call.  cs0, vs0  *)
(* and cs1, vs1 are the whole arrays; n is the length of the sorted slice.  *)
(***************************************************************************)
EXTENDS TraceBase, Rat
tvars == <<tid, pos>>

Key(cs, vs, k) == <<cs[k], vs[k]>>
Sort == /\ IsEvent("sort")
        /\ LET n == Ev.n IN
           /\ Chk("values in non-decreasing order", \A k \in 1..(n - 1) : RLe(Ev.vs1[k], Ev.vs1[k + 1]))
           /\ Chk("no pair lost or altered", {Key(Ev.cs1, Ev.vs1, k) : k \in 1..n} = {Key(Ev.cs0, Ev.vs0, k) : k \in 1..n})
           \* with distinct cases equal sets of pairs suffice; with repeated ones count them
           /\ Chk("no pair duplicated", Ev.dups => SameBag([k \in 1..n |-> Key(Ev.cs1, Ev.vs1, k)], [k \in 1..n |-> Key(Ev.cs0, Ev.vs0, k)]))
           /\ Chk("elements beyond the slice untouched",
                  /\ Len(Ev.cs1) = Len(Ev.cs0) /\ Len(Ev.vs1) = Len(Ev.vs0)
                  /\ \A k \in (n + 1)..Len(Ev.cs0) : Ev.cs1[k] = Ev.cs0[k]
                  /\ \A k \in (n + 1)..Len(Ev.vs0) : Ev.vs1[k] = Ev.vs0[k])
        /\ Consume
TraceSpec == BaseInit /\ [][Sort \/ Accept]_tvars
================================================================================

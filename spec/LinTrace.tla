-------------------------------- MODULE LinTrace -------------------------------
(***************************************************************************)
(* Linearisability of small concurrent histories recorded from the code.    *)
(* inv and ret events are ordered by a shared atomic counter; between them  *)
(* an operation takes effect once, in the silent action Lin.  The effect of *)
(* an operation on a ballot box is Ballot's.                                *)
(***************************************************************************)
EXTENDS TraceBase, Ballot
VARIABLES box, pend   \* pend: operations called and not yet returned: id -> record
lvars == <<box, pend>>
tvars == <<tid, pos, lvars>>

Inv == /\ IsEvent("inv") /\ Consume /\ box' = box
       /\ pend' = pend \cup {[o |-> Ev.o, done |-> FALSE, snap |-> [w |-> "0", s |-> "0", abs |-> "0", lab |-> <<>>]]}
OpOf(id) == Tr.ops[id]
Lin == /\ More
       /\ \E p \in pend :
            /\ ~p.done
            /\ LET o == OpOf(p.o) IN
               /\ box' = IF o.op = "vote" THEN CastVote(Tr.kind, box, o.c, o.pred, o.w) ELSE box
               /\ pend' = (pend \ {p}) \cup {[p EXCEPT !.done = TRUE, !.snap = box[o.c]]}
       /\ UNCHANGED <<tid, pos>>
(* what a tally returned must be the tally of the box as it was at its linearisation point *)
RetOk(p) == LET o == OpOf(p.o)
                one == [c \in {o.c} |-> p.snap]
            IN CASE o.op = "vote" -> TRUE
                 [] o.op = "tally" -> TallyOk(Tr.kind, one, o.c, o.got)
                 [] o.op = "read" -> /\ RClose(o.count, p.snap.w, Tol, Tol)
                                     /\ Voted(one, o.c) => RClose(o.mean, NumTally("num", one, o.c), RMul(Tol, RAdd("1", p.snap.abs)), Tol)
Ret == /\ IsEvent("ret") /\ Consume /\ box' = box
       /\ \E p \in pend : p.o = Ev.o /\ p.done /\ RetOk(p) /\ pend' = pend \ {p}

TraceInit == BaseInit /\ box = EmptyBox(Tr.n) /\ pend = {}
TraceNext == Inv \/ Lin \/ Ret \/ (Accept /\ UNCHANGED lvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

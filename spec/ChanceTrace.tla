------------------------------- MODULE ChanceTrace -------------------------------
(***************************************************************************)
(* Trace validation for C91.  An event holds how often every result came    *)
(* out of N independent repetitions.  The count c of a result of            *)
(* probability p must satisfy                                               *)
(*         (c - N p)^2 <= 60 (N p (1-p) + |c - N p| / 3),                   *)
(* which by Bernstein's inequality a correct implementation fails with      *)
(* probability below 2 exp(-30), and a result the law excludes must not     *)
(* come out at all.  Everything is computed in exact rationals.             *)
(***************************************************************************)
EXTENDS TraceBase, Chance

tvars == <<tid, pos>>
Near(c, n, p) ==
  LET m == RMul(n, p) d == RAbs(RSub(c, m))
  IN RLe(RMul(d, d), RMul(60, RAdd(RMul(m, RSub(1, p)), RDiv(d, 3))))
(* how the driver writes a result of several draws: every draw's members, each followed by a blank, and a bar *)
RECURSIVE Row(_), Key(_)
Row(r) == IF r = <<>> THEN "|" ELSE ToString(r[1]) \o " " \o Row(SubSeq(r, 2, Len(r)))
Key(rs) == IF Len(rs) = 0 THEN "" ELSE Row(rs[1]) \o Key(SubSeq(rs, 2, Len(rs)))
Got(k) == IF k \in DOMAIN Ev.counts THEN Ev.counts[k] ELSE 0

(* results of Ev.t successive draws of one scheme *)
Chances ==
  /\ IsEvent("chances")
  /\ LET S == [1..Ev.t -> Support(Ev.s)]
         keys == {Key(r) : r \in S}
     IN /\ Chk(Ev.what \o ": impossible result", DOMAIN Ev.counts \subseteq keys)
        /\ Chk(Ev.what, \A r \in S : Near(Got(Key(r)), Ev.n, Joint(Ev.s, r)))

(* one draw of which only the label of the case is seen *)
RECURSIVE SumLaw(_, _)
SumLaw(s, S) == IF S = {} THEN "0" ELSE LET r == CHOOSE r \in S : TRUE IN RAdd(Law(s, r), SumLaw(s, S \ {r}))
Seen ==
  /\ IsEvent("seen")
  /\ LET L == {Ev.see[r[1]] : r \in Support(Ev.s)}
     IN /\ Chk(Ev.what \o ": impossible result", DOMAIN Ev.counts \subseteq L)
        /\ Chk(Ev.what, \A l \in L : Near(Got(l), Ev.n, SumLaw(Ev.s, {r \in Support(Ev.s) : Ev.see[r[1]] = l})))

TraceInit == BaseInit
TraceNext == ((Chances \/ Seen) /\ Consume) \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

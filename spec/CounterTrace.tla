------------------------------ MODULE CounterTrace -----------------------------
(* A sparse counter: the table written at the end holds, for every pair, the   *)
(* sum of all additions, whoever made them and in whatever order.              *)
EXTENDS TraceBase
VARIABLE cnt   \* sequence of <<i, j, total>>
tvars == <<tid, pos, cnt>>
At(i, j) == {k \in DOMAIN cnt : cnt[k][1] = i /\ cnt[k][2] = j}
Add == /\ IsEvent("add") /\ Consume
       /\ LET K == At(Ev.i, Ev.j) IN
          IF K = {} THEN cnt' = Append(cnt, <<Ev.i, Ev.j, Ev.v * Ev.times>>)
          ELSE cnt' = [cnt EXCEPT ![CHOOSE k \in K : TRUE] = <<Ev.i, Ev.j, @[3] + Ev.v * Ev.times>>]
Dump == /\ IsEvent("dump") /\ Consume /\ cnt' = cnt
        /\ Chk("every line is a total", \A k \in DOMAIN Ev.rows : \E m \in DOMAIN cnt : cnt[m] = Ev.rows[k])
        /\ Chk("every total has a line", \A m \in DOMAIN cnt : \E k \in DOMAIN Ev.rows : cnt[m] = Ev.rows[k])
        /\ Chk("no pair twice", Len(Ev.rows) = Len(cnt))
TraceInit == BaseInit /\ cnt = <<>>
TraceNext == Add \/ Dump \/ (Accept /\ cnt' = cnt)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

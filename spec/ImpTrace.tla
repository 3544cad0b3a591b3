-------------------------------- MODULE ImpTrace --------------------------------
(***************************************************************************)
(* Trace validation for C06 and C26.  The trace carries the target; the     *)
(* state is the current left, right and missing group of the split being    *)
(* evaluated, so that an incremental update is judged by what the groups    *)
(* have become.                                                             *)
(***************************************************************************)
EXTENDS TraceBase, Impurity

VARIABLES l, r, m
tvars == <<tid, pos, l, r, m>>
T == Tr.target

OneOf(S, got) == \E x \in S : IF x = "pure" THEN RLe(got, "1.1e-7") /\ RLe("-1e-6", got)
                              ELSE IF RFinite(x) THEN Near(T, x, got) ELSE ~RFinite(got)

(* the total of sums in double arithmetic is subject to more rounding when updated *)
Imp == /\ IsEvent("imp")
       /\ Chk("impurity of the group", OneOf(Imps(T, Ev.cases), Ev.got))
       /\ UNCHANGED <<l, r, m>>
(* impurity computed from the counters another computation left behind *)
FromCounts == /\ IsEvent("counts")
              /\ Chk("impurity from the counts", OneOf(Imps(T, Ev.cases), Ev.got))
              /\ UNCHANGED <<l, r, m>>
Start == /\ IsEvent("start")
         /\ Chk("impurity of the split", OneOf(SImps(T, Ev.l, Ev.r, Ev.m), Ev.got))
         /\ l' = Ev.l /\ r' = Ev.r /\ m' = Ev.m

Without(s, t) == SelectSeq(s, LAMBDA c : ~ \E i \in DOMAIN t : t[i] = c)
Move == /\ IsEvent("move")
        /\ l' = l \o Ev.moved /\ r' = Without(r, Ev.moved) /\ m' = m
        /\ Chk("updated impurity", OneOf(SImps(T, l', r', m), Ev.got))

Pred == /\ IsEvent("pred")
        /\ Chk("prediction", LET P == Preds(T, Ev.cases)
                             IN IF PredKind(T) = "num"
                                THEN \E x \in P : IF RFinite(x) THEN RClose(x, Ev.num, Slack(T), "1e-9")
                                                  ELSE ~RFinite(Ev.num)
                                ELSE Ev.got \in P)
        /\ Chk("prediction depends on the order of the cases",
               IF PredKind(T) = "num" THEN RClose(Ev.num, Ev.numagain, Slack(T), "1e-9") \/ (~RFinite(Ev.num) /\ ~RFinite(Ev.numagain))
               ELSE Ev.got = Ev.again)
        /\ UNCHANGED <<l, r, m>>
(* what the target holds after all of this *)
After == /\ IsEvent("after")
         /\ Chk("the data changed", Ev.same)
         /\ UNCHANGED <<l, r, m>>

TraceInit == BaseInit /\ l = <<>> /\ r = <<>> /\ m = <<>>
TraceNext == \/ ((Imp \/ FromCounts \/ Start \/ Move \/ Pred \/ After) /\ Consume)
             \/ (Accept /\ UNCHANGED <<l, r, m>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

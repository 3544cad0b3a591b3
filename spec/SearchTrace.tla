------------------------------- MODULE SearchTrace -------------------------------
(***************************************************************************)
(* Trace validation for C04: searches of one column against one target,     *)
(* one after another on the same allocations.                               *)
(***************************************************************************)
EXTENDS TraceBase, SplitSearch

tvars == <<tid, pos>>
T == Tr.target
MinGain == "1e-7"

GoesLeft(v) == IF Tr.col.kind = "num" THEN RLe(v, Ev.value) ELSE \E k \in DOMAIN Ev.left : Ev.left[k] = v
L == SelectSeq(Present(Tr.col, Ev.cases), LAMBDA c : GoesLeft(Tr.col.val[c]))
R == SelectSeq(Present(Tr.col, Ev.cases), LAMBDA c : ~GoesLeft(Tr.col.val[c]))
M == Absent(Tr.col, Ev.cases)
Inner(l, r) == Gains(T, l \o r, l, r, <<>>)      \* gain among the cases whose value is present

(* no candidate gains more than the bound: a candidate's gain is the least permitted one *)
Unbeaten(bound) ==
  \A C \in Allowed(Tr.col, Ev.cases, Ev.leaf) :
     \E x \in Inner(LeftOf(Tr.col, Ev.cases, C), RightOf(Tr.col, Ev.cases, C)) :
        ~RLt(RAdd(bound, Slack(T)), x)

(* a split must decrease impurity both among the present cases and overall *)
Worthless ==
  \A C \in Allowed(Tr.col, Ev.cases, Ev.leaf) :
     LET l == LeftOf(Tr.col, Ev.cases, C)
         r == RightOf(Tr.col, Ev.cases, C)
         little(x) == ~RLt(RAdd(MinGain, Slack(T)), x)
     IN \/ \E x \in Inner(l, r) : little(x)
        \/ \E x \in Gains(T, Ev.cases, l, r, M) : little(x)

Search ==
  /\ IsEvent("search")
  /\ Chk("the search only permutes the cases", SameBag(Ev.cases, Ev.after))
  /\ IF Ev.found
     THEN /\ Chk("both sides hold the minimum leaf size", Len(L) >= Ev.leaf /\ Len(R) >= Ev.leaf)
          /\ Chk("reported decrease is that of the groups", \E x \in Gains(T, Ev.cases, L, R, M) : Near(T, x, Ev.dec))
          /\ Chk("a better split exists", Ev.optimal => \E x \in Inner(L, R) : Unbeaten(x))
     ELSE Chk("a split that decreases impurity was not found", Ev.optimal => Worthless)
  /\ Chk("called constant although it can be split", Ev.constant /\ Ev.optimal => Allowed(Tr.col, Ev.cases, Ev.leaf) = {})

TraceInit == BaseInit
TraceNext == (Search /\ Consume) \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

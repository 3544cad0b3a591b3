------------------------------- MODULE SplitTrace ------------------------------
(***************************************************************************)
(* Trace validation for C02: a column, the readable splitter decoded from   *)
(* a split, and what each way of applying the split did to lists of cases.  *)
(***************************************************************************)
EXTENDS TraceBase, Routing

UnusedR == tree = <<>> /\ data = <<>> /\ todo = <<>> /\ arrived = <<>> /\ dropped = {}
tvars == <<tid, pos, wvars>>

Grp(cases, s) == SelectSeq(cases, LAMBDA c : Side(Tr.split, Tr.data, c) = s)
Bag(s) == [x \in Range1(s) |-> Count(s, x)]

(* l, m and r are the groups of the input list; after is the list afterwards *)
Parted(cases, l, m, r, after) ==
  /\ Chk("left group", SameBag(l, Grp(cases, "L")))
  /\ Chk("right group", SameBag(r, Grp(cases, "R")))
  /\ Chk("missing group", SameBag(m, Grp(cases, "M")))
  /\ Chk("reordering only permutes", SameBag(after, cases))

Split == /\ \E o \in {"split", "splitter"} : IsEvent(o)
         /\ Parted(Ev.cases, Ev.l, Ev.m, Ev.r, Ev.after)
         /\ Chk("the groups are the list's front, middle and back", Ev.l \o Ev.m \o Ev.r = Ev.after)

Points == /\ IsEvent("points")
          /\ Chk("points are in range", 0 <= Ev.li /\ Ev.li <= Ev.ri /\ Ev.ri <= Len(Ev.after))
          /\ Parted(Ev.cases, SubSeq(Ev.after, 1, Ev.li), SubSeq(Ev.after, Ev.li + 1, Ev.ri),
                    SubSeq(Ev.after, Ev.ri + 1, Len(Ev.after)), Ev.after)

TraceInit == BaseInit /\ UnusedR
TraceNext == \/ ((Split \/ Points) /\ Consume /\ UNCHANGED wvars)
             \/ (Accept /\ UNCHANGED wvars)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

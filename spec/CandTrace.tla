-------------------------------- MODULE CandTrace --------------------------------
(***************************************************************************)
(* Trace validation for C05 and C29: what a search over candidate features tried,   *)
(* found constant, and returned.  "search" is one search on its own with    *)
(* the array before and after; "visit" is one node of a tree grown depth    *)
(* first, where only the tries are seen and the constants a node inherits   *)
(* follow from the cases: its ancestors are the visited nodes whose cases   *)
(* contain its own.                                                         *)
(***************************************************************************)
EXTENDS TraceBase, Judge

VARIABLE stack        \* of [cases, known]
tvars == <<tid, pos, stack>>
MinGain == "1e-7"

Feats(tries) == {tries[i].f : i \in DOMAIN tries}
Constant(tries) == {tries[i].f : i \in {k \in DOMAIN tries : tries[k].constant}}
LastOf(s, n) == {s[i] : i \in (Len(s) - n + 1)..Len(s)}

Tries(tries, all, known) ==
  /\ Chk("a candidate was tried twice", Cardinality(Feats(tries)) = Len(tries))
  /\ Chk("something that is no candidate was tried", Feats(tries) \subseteq all)
  /\ Chk("a known constant was tried again", Feats(tries) \cap known = {})
  /\ Chk("more were tried than requested",
         Len(tries) <= Ev.mtry \/ (Ev.force /\ \A i \in 1..(Len(tries) - 1) : tries[i].constant))
  /\ Chk("fewer were tried than requested",
         \/ all \ known = Feats(tries)
         \/ (Len(tries) + Cardinality(known) >= Ev.mtry /\ (Ev.force => \E i \in DOMAIN tries : ~tries[i].constant)))

(* only a feature that no split of the cases, of at least the leaf size on either side, can be made on is constant *)
Splittable(col, cases) ==
  LET known == SelectSeq(cases, LAMBDA c : ~col.miss[c])
      n == Len(known)
      on(S) == Len(SelectSeq(known, LAMBDA c : col.val[c] \in S))
  IN IF col.kind = "num" THEN \E c, d \in Range1(known) : ~RLe(RSub(col.val[c], col.val[d]), "1.1e-7")
     ELSE \E S \in SUBSET {col.val[c] : c \in Range1(known)} : on(S) >= Ev.leaf /\ n - on(S) >= Ev.leaf
ReallyConstant(tries, cases) ==
  Chk("a feature that could be split on set aside",
      \A i \in DOMAIN tries : tries[i].constant => ~Splittable(CHOOSE c \in Range1(Tr.cols) : c.name = tries[i].name, cases))

Best(tries) ==
  LET good == {i \in DOMAIN tries : RLt(MinGain, tries[i].dec)}
  IN IF good = {} THEN Chk("returned split nobody found", ~Ev.found)
     ELSE /\ Chk("found split not returned", Ev.found)
          /\ Chk("not the best of those tried",
                 \E i \in good : /\ tries[i].f = Ev.fi /\ tries[i].dec = Ev.dec /\ tries[i].code = Ev.code
                                 /\ \A k \in good : RLe(tries[k].dec, tries[i].dec))

(* A split is judged on the out of bag cases where that is asked for, and against the best split of a shuffled copy
   of the target on the cases it is judged on.  A try whose own decrease is no better than the best so far need not
   be judged. *)
On == IF Ev.mode \in {"oob", "both"} THEN Ev.oob ELSE Ev.cases
ColOf(split) == CHOOSE c \in Range1(Tr.cols) : c.name = split.feat
Gain(T, split) == GainOn(T, split, ColOf(split), On)

Shuffled(v) == [Plain(Tr.target) EXCEPT !.val = v.vals]
VetOk(v) ==
  /\ Chk("vetted on other cases", SameBag(v.cases, On))
  /\ Chk("vetted against other than the target's values",
         LET g == SelectSeq([i \in DOMAIN v.vals |-> i], LAMBDA i : i \in Range1(On))
         IN SameBag([i \in DOMAIN g |-> v.vals[g[i]]], [i \in DOMAIN g |-> Tr.target.val[g[i]]]))
  /\ Chk("decrease of the shuffled target",
         \/ RLe(v.dec, MinGain)     \* nothing found
         \/ \E x \in Gain(Shuffled(v), v.split[1]) : Near(Shuffled(v), x, v.dec))

Unvetted(t) == IF Ev.mode \in {"oob", "both"} THEN Gain(Tr.target, t.split[1]) ELSE {t.dec}
Scores(t) ==
  IF Ev.mode \in {"plain", "oob"} THEN Unvetted(t)
  ELSE IF t.vet = <<>> THEN {} ELSE {RSub(x, t.vet[1].dec) : x \in Unvetted(t)}
Bound == RAdd(IF Ev.found THEN Ev.dec ELSE MinGain, Slack(Tr.target))
NoBetter(S) == S = {} \/ \E x \in S : ~RIsNum(x) \/ ~RLt(Bound, x)

Judged(tries) ==
  /\ \A i \in DOMAIN tries : tries[i].vet # <<>> => VetOk(tries[i].vet[1])
  /\ (Ev.found =>
        /\ Chk("returned split nobody found",
               \E i \in DOMAIN tries : tries[i].f = Ev.fi /\ RLt(MinGain, tries[i].dec) /\ tries[i].code = Ev.code)
        /\ Chk("decrease on the judging cases",
               RLt(MinGain, Ev.dec) /\ \E i \in DOMAIN tries : /\ tries[i].f = Ev.fi
                                                             /\ \E x \in Scores(tries[i]) : Near(Tr.target, x, Ev.dec)))
  /\ Chk("not the best of those judged",
         \A i \in DOMAIN tries :
            (RLt(Bound, tries[i].dec) /\ Both(tries[i].split[1], ColOf(tries[i].split[1]), On)) =>
              IF Ev.mode \in {"vet", "both"} /\ tries[i].vet = <<>> THEN NoBetter(Unvetted(tries[i]))
              ELSE NoBetter(Scores(tries[i])))

Search ==
  /\ IsEvent("search")
  /\ Chk("candidate list changed", SameBag(Ev.before, Ev.after))
  /\ LET known == LastOf(Ev.before, Ev.nc)
     IN /\ Chk("the constants set aside were disturbed", LastOf(Ev.after, Ev.nc) = known)
        /\ IF Ev.pure THEN Chk("a pure node was searched", Ev.tries = <<>> /\ ~Ev.found /\ Ev.ncafter = Ev.nc)
           ELSE /\ Tries(Ev.tries, Range1(Ev.before), known)
                /\ Chk("the number of constants", Ev.ncafter = Cardinality(known \cup Constant(Ev.tries)))
                /\ Chk("set aside other than found",
                       LastOf(Ev.after, Ev.ncafter) = known \cup Constant(Ev.tries))
                /\ (Ev.real => ReallyConstant(Ev.tries, Ev.cases))
                /\ IF Ev.mode = "plain" THEN Best(Ev.tries)
                   ELSE Judged(Ev.tries)
  /\ UNCHANGED stack

RECURSIVE Above(_, _)
Above(s, g) == IF s = <<>> THEN <<>> ELSE IF g \subseteq s[Len(s)].cases THEN s ELSE Above(SubSeq(s, 1, Len(s) - 1), g)
Visit ==
  /\ IsEvent("visit")
  /\ LET g == Range1(Ev.cases)
         up == Above(stack, g)
         known == IF up = <<>> THEN {} ELSE up[Len(up)].known
     IN /\ Tries(Ev.tries, Range1(Tr.cands), known)
        /\ ReallyConstant(Ev.tries, Ev.cases)
        /\ stack' = Append(up, [cases |-> g, known |-> known \cup Constant(Ev.tries)])

(* first tries over many searches: every candidate gets its share *)
Fair ==
  /\ IsEvent("fair")
  /\ Chk("a candidate is hardly ever tried",
         \A i \in DOMAIN Ev.counts : 3 * Ev.n * Ev.counts[i] >= Ev.reps * Ev.mtry)
  /\ UNCHANGED stack

TraceInit == BaseInit /\ stack = <<>>
TraceNext == ((Search \/ Visit \/ Fair) /\ Consume) \/ (Accept /\ UNCHANGED stack)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

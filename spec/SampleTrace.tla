------------------------------- MODULE SampleTrace -------------------------------
(***************************************************************************)
(* Trace validation for C13: single samples are judged exactly; the shares  *)
(* of many samples must be within a factor of three of the exact            *)
(* probability (the number of draws makes a larger deviation by chance      *)
(* practically impossible).                                                 *)
(***************************************************************************)
EXTENDS TraceBase, Rat

tvars == <<tid, pos>>
Members(s) == Range1(s)
(* got out of reps, when a share a/b is expected *)
InShare(got, reps, a, b) == 3 * b * got >= reps * a /\ b * got <= 3 * reps * a

Repl == /\ IsEvent("repl")
        /\ Chk("sample size", Len(Ev.got) = Ev.n)
        /\ Chk("source of the sample", \A i \in DOMAIN Ev.got : Ev.got[i] \in 1..Ev.total)
ReplShare == /\ IsEvent("replshare")
             /\ Chk("a case has an unequal chance", \A i \in DOMAIN Ev.counts : InShare(Ev.counts[i], Ev.draws, 1, Len(Ev.counts)))
             /\ Chk("drawing with replacement", InShare(Ev.dupes, Ev.samples, 1, Len(Ev.counts)))

First == /\ IsEvent("first")
         /\ Chk("the deck is not permuted", SameBag(Ev.before, Ev.after))
         /\ Chk("set aside entries moved", \A i \in (Len(Ev.before) - Ev.k + 1)..Len(Ev.before) : Ev.after[i] = Ev.before[i])
         /\ Chk("sample is not the front of the deck", Ev.got = SubSeq(Ev.after, 1, Len(Ev.got)))
         /\ LET free == Len(Ev.before) - Ev.k
                want == IF Ev.n < free THEN Ev.n ELSE free
            IN Chk("size of the sample", IF Ev.k = 0 THEN Len(Ev.got) = want
                                         ELSE Len(Ev.got) <= want /\ Len(Ev.got) + Ev.k >= want)
FirstShare == /\ IsEvent("firstshare")
              /\ Chk("a card has an unequal chance", \A i \in DOMAIN Ev.counts : InShare(Ev.counts[i], Ev.reps, Ev.n, Ev.len))
              /\ Chk("a card at a place", \A p \in DOMAIN Ev.places : \A i \in DOMAIN Ev.places[p] :
                        InShare(Ev.places[p][i], Ev.reps, 1, Ev.len))

Size(c) == Cardinality({i \in DOMAIN Ev.cls : Ev.cls[i] = c})
Classes == {Ev.cls[i] : i \in DOMAIN Ev.cls} \ {"NA"}
Balanced == /\ IsEvent("balanced")
            /\ Chk("sample size", Len(Ev.got) = Ev.n)
            /\ Chk("source of the sample", \A i \in DOMAIN Ev.got : Ev.got[i] \in DOMAIN Ev.cls /\ Ev.cls[Ev.got[i]] # "NA")
BalShare == /\ IsEvent("balshare")
            /\ Chk("a case has an unbalanced chance",
                   \A i \in DOMAIN Ev.cls : IF Ev.cls[i] = "NA" THEN Ev.counts[i] = 0
                     ELSE InShare(Ev.counts[i], Ev.draws, 1, Cardinality(Classes) * Size(Ev.cls[i])))

Ok(i) == Ev.cls[i] # "NA" /\ Ev.str[i] # "NA"
Cases == {i \in DOMAIN Ev.cls : Ok(i)}
In(s) == {i \in Cases : Ev.str[i] = s}
Cell(c, s) == {i \in In(s) : Ev.cls[i] = c}
Secondary == /\ IsEvent("secondary")
             /\ Chk("sample size", Len(Ev.got) = Ev.n)
             /\ Chk("source of the sample", \A i \in DOMAIN Ev.got : Ev.got[i] \in DOMAIN Ev.cls /\ Ok(Ev.got[i]))
SecShare == /\ IsEvent("secshare")
            /\ Chk("a case has an unbalanced chance",
                   \A i \in DOMAIN Ev.cls :
                     IF ~Ok(i) THEN Ev.counts[i] = 0
                     ELSE LET s == Ev.str[i]
                              k == Cardinality({Ev.cls[j] : j \in In(s)})
                          IN InShare(Ev.counts[i], Ev.draws, Cardinality(In(s)), Cardinality(Cases) * k * Cardinality(Cell(Ev.cls[i], s))))
(* the sample a tree of a forest was grown from, as its leaves show it *)
Bag == /\ IsEvent("bag")
       /\ Chk("sample size", Len(Ev.got) = Ev.n)
       /\ Chk("a case without a target was sampled", \A i \in DOMAIN Ev.got : ~Ev.miss[Ev.got[i]])
BagShare == /\ IsEvent("bagshare")
            /\ LET known == Cardinality({i \in DOMAIN Ev.miss : ~Ev.miss[i]})
               IN Chk("a case has an unequal chance",
                      \A i \in DOMAIN Ev.miss : IF Ev.miss[i] THEN Ev.counts[i] = 0 ELSE InShare(Ev.counts[i], Ev.draws, 1, known))

TraceInit == BaseInit
TraceNext == ((Repl \/ ReplShare \/ First \/ FirstShare \/ Balanced \/ BalShare \/ Secondary \/ SecShare \/ Bag \/ BagShare) /\ Consume) \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

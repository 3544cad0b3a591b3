------------------------------- MODULE WelchTrace -------------------------------
(***************************************************************************)
(* Trace validation for C90.  "ttest" is a call of the library; "ace" a run *)
(* of growforest with artificial contrasts: the importances of every        *)
(* feature and of its contrast in every forest, the contrasts' values, what *)
(* was reported, and the features the last forest splits on.                *)
(***************************************************************************)
EXTENDS TraceBase, Welch

tvars == <<tid, pos>>
Largest(x) == LET RECURSIVE m(_)
                  m(k) == IF k = 0 THEN "0" ELSE RMax(RAbs(x[k]), m(k - 1))
              IN m(Len(x))
Size(a, b) == RMax(Largest(a), Largest(b))
(* rounding of the inputs' sums, as a share of the spread of the means *)
Noise(a, b) == RDiv(RMul("1e-14", RMul(Len(a) + Len(b), Size(a, b))), RSqrt(Spread(a, b)))
Crisp(a, b) == Tested(a, b) /\ RLt(Noise(a, b), "1e-3")
PTol(a, b) == RAdd("1e-9", RMul("2", Noise(a, b)))

ChkT(a, b, t) ==
  Chk("t value", /\ RIsNum(t)
                 /\ RClose(RMul(t, t), T2(a, b), RMul(PTol(a, b), RAdd("1", RAbs(t))), "1e-7")
                 /\ ~(RLt(RMul(Noise(a, b), "2"), t) /\ ~Above(a, b))
                 /\ ~(RLt(t, RNeg(RMul(Noise(a, b), "2"))) /\ ~RLt(Delta(a, b), "0")))
ChkP(a, b, p) ==
  LET lim == POf(a, b)
  IN Chk("p value", /\ RIsNum(p)
                    /\ RLe(RSub(lim[1], RAdd(PTol(a, b), RMul("1e-6", lim[1]))), p)
                    /\ RLe(p, RAdd(lim[2], RAdd(PTol(a, b), RMul("1e-6", lim[2])))))
ChkMean(x, m) == Chk("mean", RIsNum(m) /\ RClose(m, MeanOf(x), RMul("1e-12", Largest(x)), "1e-12"))

Ttest == /\ IsEvent("ttest")
         /\ Chk("the groups changed", Ev.a = Ev.a1 /\ Ev.b = Ev.b1)
         /\ ChkMean(Ev.a, Ev.am) /\ ChkMean(Ev.b, Ev.bm)
         /\ Chk("size", REq(Ev.bn, RNum(Len(Ev.b))))
         /\ Chk("variance", RIsNum(Ev.bv) /\ RClose(Ev.bv, VarOf(Ev.b), RMul("1e-24", RMul(Largest(Ev.b), Largest(Ev.b))), "1e-7"))
         /\ Crisp(Ev.a, Ev.b) =>
              /\ ChkT(Ev.a, Ev.b, Ev.t)
              /\ Chk("degrees of freedom", RIsNum(Ev.v) /\ RClose(Ev.v, Df(Ev.a, Ev.b), "0", "1e-6"))
              /\ ChkP(Ev.a, Ev.b, Ev.p)

(* ---- growforest -ace ---- *)
(* every forest has a contrast of its own, a permutation of the feature's values *)
Contrast == /\ IsEvent("contrast")
            /\ \A k \in DOMAIN Ev.fakes : Chk("a contrast is no permutation", SameBag(Ev.cells, Ev.fakes[k]))
            /\ Chk("contrasts are not shuffled", Ev.distinct < 9 \/ Len(Ev.fakes) < 2 \/ \E k \in 2..Len(Ev.fakes) : Ev.fakes[k] # Ev.fakes[1])
(* importances: Ev.real[i], Ev.fake[i] over the forests; Ev.rows: what was reported for feature i *)
Eligible(i) == Ev.eligible[i]
Report(i) ==
  LET a == Ev.real[i]
      b == Ev.fake[i]
  IN /\ Chk("row", Ev.rows[i].name = Ev.names[i] /\ Ev.rows[i].target = Ev.target)
     /\ ChkMean(a, Ev.rows[i].m)
     /\ (Crisp(a, b) => ChkP(a, b, Ev.rows[i].p))
     /\ Chk("importance of a feature that is out", Eligible(i) \/ (Largest(a) = "0" /\ Largest(b) = "0"))
Near(x, y) == RClose(x, y, "1e-9", "1e-9")
(* is feature i kept: yes, no, or too close to call *)
Verdict(i) ==
  LET a == Ev.real[i]
      b == Ev.fake[i]
      lim == POf(a, b)
      tol == PTol(a, b)
  IN IF ~Eligible(i) \/ ~RLt("0", MeanOf(a)) THEN "no"
     ELSE IF ~Crisp(a, b) THEN "open"
     ELSE IF RLt(RAdd(lim[2], tol), Ev.cutoff) THEN "yes" ELSE IF RLt(Ev.cutoff, RSub(lim[1], tol)) THEN "no"
     (* between whole degrees of freedom the reported value, found right, decides *)
     ELSE IF ~Ev.reported \/ Near(Ev.rows[i].p, Ev.cutoff) THEN "open" ELSE IF RLt(Ev.rows[i].p, Ev.cutoff) THEN "yes" ELSE "no"
Feats == DOMAIN Ev.names
Verdicts(v) == Cardinality({i \in Feats : Verdict(i) = v})
Ace == /\ IsEvent("ace")
       /\ Chk("number of forests", \A i \in Feats : Len(Ev.real[i]) = Ev.forests /\ Len(Ev.fake[i]) = Ev.forests)
       /\ (Ev.reported => (Chk("number of rows", Len(Ev.rows) = Len(Ev.names)) /\ \A i \in Feats : Report(i)))
       /\ (Ev.cutoff # "0" =>
            /\ \A u \in Range1(Ev.used) : Chk("the last forest splits on a feature that failed", \E i \in Feats : Ev.names[i] = u /\ Verdict(i) # "no")
            /\ Chk("number of features kept", Verdicts("yes") <= Ev.kept /\ Ev.kept <= Verdicts("yes") + Verdicts("open"))
            /\ Chk("a kept feature is not used", (Ev.must /\ Verdicts("open") = 0) => \A i \in Feats : Verdict(i) = "yes" => Ev.names[i] \in Range1(Ev.used)))
       /\ (Ev.cutoff = "0" =>
            /\ Chk("importance without a split", \A i \in Feats : Ev.real[i][Ev.forests] # "0" => Ev.names[i] \in Range1(Ev.used))
            /\ Chk("split without importance", \A i \in Feats : Ev.names[i] \in Range1(Ev.used) => Ev.real[i][Ev.forests] # "0"))

TraceInit == BaseInit
TraceNext == ((Ttest \/ Contrast \/ Ace) /\ Consume) \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

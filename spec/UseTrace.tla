---------------------------------- MODULE UseTrace -------------------------------
(***************************************************************************)
(* Importance accounting of tree growth (C20): after every tree the         *)
(* recorded means and counts are those of exactly the splits of the trees   *)
(* grown so far, and the depth vector of the tree those of its splits.      *)
(***************************************************************************)
EXTENDS GrowTrace

VARIABLE cum      \* per feature: number of splits, least and greatest sum of their permitted gains, are gains known
uvars == <<tid, pos, cum>>
Feats == {c.name : c \in Range1(Tr.cols)}

Least(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
Most(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
RECURSIVE AddAll(_, _)
AddAll(S, u) ==
  IF S = {} THEN u
  ELSE LET x == CHOOSE y \in S : TRUE
           g == Gains(T, x.g, x.l, x.r, x.m)
       IN AddAll(S \ {x}, [u EXCEPT !.n = @ + 1, !.lo = RAdd(@, Least(g)), !.hi = RAdd(@, Most(g))])
Uses(w, f) == {x \in Inner(w) : Node(x.i).feat = f}
Depths(w, f) == {x.d : x \in Uses(w, f)}

RowOk(r, u, w) ==
  /\ Chk("number of splits on the feature", r.count = u.n)
  /\ Chk("mean importance", (u.known /\ u.n > 0) =>
        LET s == RMul(r.mean, RNum(u.n))
            slack == RMul(RNum(u.n), RAdd(Slack(T), RMul("1e-9", RAbs(u.hi))))
        IN RIsNum(r.mean) /\ RLe(RSub(u.lo, slack), s) /\ RLe(s, RAdd(u.hi, slack)))
  /\ Chk("importance of a feature never used", u.n = 0 => r.mean = "0")
  /\ Chk("depth of the shallowest split",
         IF Depths(w, r.f) = {} THEN r.depth = 0
         ELSE r.depth = 1 + CHOOSE d \in Depths(w, r.f) : \A e \in Depths(w, r.f) : d <= e)

Use == /\ IsEvent("grow") /\ Consume
       /\ LET w == TLCEval(Merged(Walk(1, Ev.cases, 0)))
          IN /\ cum' = TLCEval([f \in Feats |-> [AddAll(Uses(w, f), cum[f]) EXCEPT !.known = @ /\ Ev.plain]])
             /\ Chk("a row for every feature", Feats \subseteq {Ev.imp[i].f : i \in DOMAIN Ev.imp})
             /\ \A i \in DOMAIN Ev.imp : Ev.imp[i].f \in Feats => RowOk(Ev.imp[i], cum'[Ev.imp[i].f], w)

UseInit == BaseInit /\ cum = [f \in Feats |-> [n |-> 0, lo |-> "0", hi |-> "0", known |-> TRUE]]
UseNext == Use \/ (Accept /\ cum' = cum)
UseSpec == UseInit /\ [][UseNext]_uvars
================================================================================

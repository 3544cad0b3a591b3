-------------------------------- MODULE ThreeWay -------------------------------
(***************************************************************************)
(* The in-place three way partition every split uses: left cases are moved  *)
(* to the front, right cases to the back, missing cases stay in between.    *)
(* One action per iteration of the loop.  A case is its own position in the *)
(* original list; side[c] is what the splitter says about it.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT MaxLen
VARIABLES side, cs, i, ll, lr
pvars == <<side, cs, i, ll, lr>>

Sides == {"L", "R", "M"}
Init == /\ \E n \in 0..MaxLen : /\ side \in [1..n -> Sides]
                                /\ cs = [k \in 1..n |-> k]
                                /\ lr = n + 1
        /\ i = 1 /\ ll = 0

Swap(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
Running == i < lr

SkipMissing == Running /\ side[cs[i]] = "M" /\ i' = i + 1 /\ UNCHANGED <<side, cs, ll, lr>>
KeepLeft == Running /\ side[cs[i]] = "L" /\ i = ll + 1 /\ ll' = ll + 1 /\ i' = i + 1 /\ UNCHANGED <<side, cs, lr>>
MoveLeft == Running /\ side[cs[i]] = "L" /\ i # ll + 1 /\ ll' = ll + 1 /\ cs' = Swap(cs, i, ll + 1)
            /\ UNCHANGED <<side, i, lr>>
MoveRight == Running /\ side[cs[i]] = "R" /\ lr' = lr - 1 /\ cs' = Swap(cs, i, lr - 1) /\ UNCHANGED <<side, i, ll>>

Next == SkipMissing \/ KeepLeft \/ MoveLeft \/ MoveRight
Spec == Init /\ [][Next]_pvars /\ WF_pvars(Next)

Perm == {cs[k] : k \in DOMAIN cs} = DOMAIN cs
Front == \A k \in 1..ll : side[cs[k]] = "L"
Back == \A k \in lr..Len(cs) : side[cs[k]] = "R"
Between == ~Running => \A k \in (ll + 1)..(lr - 1) : side[cs[k]] = "M"
Terminates == <>~Running
================================================================================

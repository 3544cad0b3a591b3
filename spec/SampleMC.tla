-------------------------------- MODULE SampleMC --------------------------------
(***************************************************************************)
(* C13: drawing the first n cards of a deck whose last k are set aside.     *)
(* Every step draws uniformly from the cards not drawn yet, set aside ones  *)
(* included; one of those is counted but not taken.  P is the exact         *)
(* probability of a result, summed over every sequence of draws, so that    *)
(* fairness is decided, not sampled.  Naive = TRUE draws every time from    *)
(* the whole deck; Short = TRUE never reaches the last card.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Rat
CONSTANTS MaxLen, Naive, Short

VARIABLES cards, len, n, k, last, drawn, i
vars == <<cards, len, n, k, last, drawn, i>>

Deck(m) == [x \in 1..m |-> x]
Swap(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
Init == /\ len \in 1..MaxLen /\ n \in 0..(MaxLen + 1) /\ k \in 0..len
        /\ cards = Deck(len) /\ last = 0 /\ drawn = 0 /\ i = 0

Going(j) == j < n /\ j < len - k
(* the positions a draw can hit *)
Positions(l, d) ==
  IF Naive THEN 1..(len - k)
  ELSE LET top == len - d - (IF Short /\ len - d > l + 1 THEN 1 ELSE 0) IN (l + 1)..top

Draw(p) ==
  /\ Going(i) /\ p \in Positions(last, drawn)
  /\ i' = i + 1
  /\ IF p > len - k
     THEN drawn' = drawn + 1 /\ UNCHANGED <<cards, last>>
     ELSE cards' = Swap(cards, p, last + 1) /\ last' = last + 1 /\ UNCHANGED drawn
  /\ UNCHANGED <<len, n, k>>
Next == \E p \in 1..len : Draw(p)
Spec == Init /\ [][Next]_vars

Perm == Cardinality({cards[x] : x \in 1..len}) = len
Aside == \A x \in (len - k + 1)..len : cards[x] = x
Sizes == ~Going(i) => /\ last <= n /\ last + drawn = IF n < len - k THEN n ELSE len - k
                      /\ k = 0 => last = (IF n < len THEN n ELSE len)
NoRoom == Going(i) => Positions(last, drawn) # {}

(* probability that drawing from this state on yields the cards in res *)
RECURSIVE P(_, _, _, _, _)
P(c, l, d, j, res) ==
  IF ~Going(j) THEN IF SubSeq(c, 1, l) = res THEN "1" ELSE "0"
  ELSE LET ps == Positions(l, d)
           hit(p) == IF p > len - k THEN P(c, l, d + 1, j + 1, res) ELSE P(Swap(c, p, l + 1), l + 1, d, j + 1, res)
           s == [x \in 1..len |-> IF x \in ps THEN hit(x) ELSE "0"]
       IN RDiv(RSum(s), Cardinality(ps))

Results(m) == {r \in [1..m -> 1..(len - k)] : Cardinality({r[x] : x \in 1..m}) = m}
Least == IF n < len - k THEN n ELSE len - k
(* all results of one size are equally likely, and every size down to the number of draws less k can happen *)
Fair == i = 0 => \A m \in 0..Least : \A r, q \in Results(m) : P(cards, 0, 0, 0, r) = P(cards, 0, 0, 0, q)
Total == i = 0 => RSum([m \in 1..(Least + 1) |->
            LET R == Results(m - 1) IN IF R = {} THEN "0" ELSE RMul(Cardinality(R), P(cards, 0, 0, 0, CHOOSE r \in R : TRUE))]) = "1"
================================================================================

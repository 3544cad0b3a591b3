-------------------------------- MODULE IntroSort ------------------------------
(***************************************************************************)
(* The hybrid sort of sortby: quicksort with a three way partition around   *)
(* the median of three, insertion sort for short ranges (at most Short      *)
(* elements), heapsort once the recursion budget is spent.  vs are the      *)
(* values, cs the cases travelling with them; positions Len..  are beyond   *)
(* the sorted slice.  One action per swap or scan step.                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANTS N,        \* longest slice
          Values,   \* a set of integers
          Short,    \* insertion sort threshold
          Depth,    \* recursion budget
          Extra     \* elements beyond the slice

VARIABLES vs0, vs, cs, n, stack, pc, lo, hi, a, b, c, d, i, j
svars == <<vs0, vs, cs, n, stack, pc, lo, hi, a, b, c, d, i, j>>

Idx == 0..(n + Extra - 1)
SwapF(f, x, y) == [f EXCEPT ![x] = f[y], ![y] = f[x]]
Zero == lo' = 0 /\ hi' = 0 /\ a' = 0 /\ b' = 0 /\ c' = 0 /\ d' = 0 /\ i' = 0 /\ j' = 0

Init == /\ \E k \in 0..N : /\ n = k
                           /\ vs0 \in [0..(k + Extra - 1) -> Values]
                           /\ cs = [x \in 0..(k + Extra - 1) |-> x]
                           /\ stack = <<<<0, k, Depth>>>>
        /\ vs = vs0
        /\ pc = "quick" /\ lo = 0 /\ hi = 0 /\ a = 0 /\ b = 0 /\ c = 0 /\ d = 0 /\ i = 0 /\ j = 0

Top == Head(stack)

(* ---- quicksort ---- *)
Finished == /\ pc = "quick" /\ stack # <<>> /\ Top[2] - Top[1] <= 1
            /\ stack' = Tail(stack) /\ UNCHANGED <<vs0, vs, cs, n, pc, lo, hi, a, b, c, d, i, j>>
ToInsertion == /\ pc = "quick" /\ stack # <<>> /\ Top[2] - Top[1] \in 2..Short
               /\ pc' = "ins" /\ lo' = Top[1] /\ hi' = Top[2] /\ i' = Top[1] + 1 /\ j' = Top[1] + 1
               /\ stack' = Tail(stack) /\ UNCHANGED <<vs0, vs, cs, n, a, b, c, d>>
ToHeap == /\ pc = "quick" /\ stack # <<>> /\ Top[2] - Top[1] > Short /\ Top[3] = 0
          /\ pc' = "build" /\ lo' = Top[1] /\ hi' = Top[2] /\ i' = (Top[2] - Top[1] - 1) \div 2 /\ j' = i'
          /\ stack' = Tail(stack) /\ UNCHANGED <<vs0, vs, cs, n, a, b, c, d>>

(* median of three, as three conditional exchanges of positions *)
CX(p, x, y) == IF p[1][x] < p[1][y] THEN <<SwapF(p[1], x, y), SwapF(p[2], x, y)>> ELSE p
Median(p, x, y, z) == CX(CX(CX(p, x, y), z, x), x, y)   \* median ends at x

ToPartition == /\ pc = "quick" /\ stack # <<>> /\ Top[2] - Top[1] > Short /\ Top[3] > 0
               /\ LET l == Top[1] h == Top[2]
                      p == Median(<<vs, cs>>, l, l + (h - l) \div 2, h - 1)
                  IN /\ vs' = p[1] /\ cs' = p[2] /\ lo' = l /\ hi' = h
                     /\ a' = l + 1 /\ b' = l + 1 /\ c' = h /\ d' = h
               /\ pc' = "scanup" /\ UNCHANGED <<vs0, n, stack, i, j>>

Pivot == vs[lo]
UpLess == pc = "scanup" /\ b < c /\ vs[b] < Pivot /\ b' = b + 1 /\ UNCHANGED <<vs0, vs, cs, n, stack, pc, lo, hi, a, c, d, i, j>>
UpEqual == /\ pc = "scanup" /\ b < c /\ vs[b] = Pivot
           /\ vs' = SwapF(vs, a, b) /\ cs' = SwapF(cs, a, b) /\ a' = a + 1 /\ b' = b + 1
           /\ UNCHANGED <<vs0, n, stack, pc, lo, hi, c, d, i, j>>
UpDone == pc = "scanup" /\ (b >= c \/ vs[b] > Pivot) /\ pc' = "scandown" /\ UNCHANGED <<vs0, vs, cs, n, stack, lo, hi, a, b, c, d, i, j>>
DownMore == pc = "scandown" /\ b < c /\ vs[c - 1] > Pivot /\ c' = c - 1 /\ UNCHANGED <<vs0, vs, cs, n, stack, pc, lo, hi, a, b, d, i, j>>
DownEqual == /\ pc = "scandown" /\ b < c /\ vs[c - 1] = Pivot
             /\ c' = c - 1 /\ d' = d - 1 /\ vs' = SwapF(vs, c - 1, d - 1) /\ cs' = SwapF(cs, c - 1, d - 1)
             /\ UNCHANGED <<vs0, n, stack, pc, lo, hi, a, b, i, j>>
Exchange == /\ pc = "scandown" /\ b < c /\ vs[c - 1] < Pivot
            /\ c' = c - 1 /\ b' = b + 1 /\ vs' = SwapF(vs, b, c - 1) /\ cs' = SwapF(cs, b, c - 1)
            /\ pc' = "scanup" /\ UNCHANGED <<vs0, n, stack, lo, hi, a, d, i, j>>
Min(x, y) == IF x < y THEN x ELSE y
(* move the two runs of pivots to the middle *)
SwapRange(f, x, y, k) == [p \in DOMAIN f |-> IF p >= x /\ p < x + k THEN f[y + (p - x)]
                                             ELSE IF p >= y /\ p < y + k THEN f[x + (p - y)] ELSE f[p]]
Gather == /\ pc = "scandown" /\ b >= c
          /\ LET k1 == Min(b - a, a - lo)
                 k2 == Min(hi - d, d - c)
                 F(f) == SwapRange(SwapRange(f, lo, b - k1, k1), c, hi - k2, k2)
             IN vs' = F(vs) /\ cs' = F(cs)
          /\ stack' = <<<<lo, lo + b - a, Top[3] - 1>>, <<hi - (d - c), hi, Top[3] - 1>>>> \o Tail(stack)
          /\ pc' = "quick" /\ Zero /\ UNCHANGED <<vs0, n>>

(* ---- insertion sort ---- *)
InsSwap == /\ pc = "ins" /\ i < hi /\ j > lo /\ vs[j] < vs[j - 1]
           /\ vs' = SwapF(vs, j, j - 1) /\ cs' = SwapF(cs, j, j - 1) /\ j' = j - 1
           /\ UNCHANGED <<vs0, n, stack, pc, lo, hi, a, b, c, d, i>>
InsNext == /\ pc = "ins" /\ i < hi /\ ~(j > lo /\ vs[j] < vs[j - 1])
           /\ i' = i + 1 /\ j' = i + 1 /\ UNCHANGED <<vs0, vs, cs, n, stack, pc, lo, hi, a, b, c, d>>
InsDone == pc = "ins" /\ i = hi /\ pc' = "quick" /\ Zero /\ UNCHANGED <<vs0, vs, cs, n, stack>>

(* ---- heapsort: i is the outer index, j the root being sifted ---- *)
HN == IF pc = "build" THEN hi - lo ELSE i          \* heap size
Kid == LET k == 2 * j + 1 IN IF k + 1 < HN /\ vs[lo + k] < vs[lo + k + 1] THEN k + 1 ELSE k
CanSift == 2 * j + 1 < HN /\ vs[lo + j] < vs[lo + Kid]
Sift == /\ pc \in {"build", "pop"} /\ CanSift
        /\ vs' = SwapF(vs, lo + j, lo + Kid) /\ cs' = SwapF(cs, lo + j, lo + Kid) /\ j' = Kid
        /\ UNCHANGED <<vs0, n, stack, pc, lo, hi, a, b, c, d, i>>
BuildNext == /\ pc = "build" /\ ~CanSift /\ i > 0 /\ i' = i - 1 /\ j' = i - 1
             /\ UNCHANGED <<vs0, vs, cs, n, stack, pc, lo, hi, a, b, c, d>>
PopLargest(k) == vs' = SwapF(vs, lo, lo + k) /\ cs' = SwapF(cs, lo, lo + k) /\ i' = k /\ j' = 0
BuildDone == /\ pc = "build" /\ ~CanSift /\ i = 0 /\ pc' = "pop" /\ PopLargest(hi - lo - 1)
             /\ UNCHANGED <<vs0, n, stack, lo, hi, a, b, c, d>>
PopNext == /\ pc = "pop" /\ ~CanSift /\ i > 0 /\ PopLargest(i - 1)
           /\ UNCHANGED <<vs0, n, stack, pc, lo, hi, a, b, c, d>>
HeapDone == pc = "pop" /\ ~CanSift /\ i = 0 /\ pc' = "quick" /\ Zero /\ UNCHANGED <<vs0, vs, cs, n, stack>>

Next == \/ Finished \/ ToInsertion \/ ToHeap \/ ToPartition
        \/ UpLess \/ UpEqual \/ UpDone \/ DownMore \/ DownEqual \/ Exchange \/ Gather
        \/ InsSwap \/ InsNext \/ InsDone \/ Sift \/ BuildNext \/ BuildDone \/ PopNext \/ HeapDone
Spec == Init /\ [][Next]_svars /\ WF_svars(Next)

Done == pc = "quick" /\ stack = <<>>
Pairs == \A k \in Idx : vs[k] = vs0[cs[k]]                    \* every case keeps its value
Permutes == {cs[k] : k \in Idx} = Idx                         \* nothing lost or duplicated
Beyond == \A k \in n..(n + Extra - 1) : cs[k] = k /\ vs[k] = vs0[k]
Sorted == Done => \A k \in 0..(n - 2) : vs[k] <= vs[k + 1]
PivotInv == pc \in {"scanup", "scandown"} =>
   /\ \A k \in lo..(a - 1) : vs[k] = Pivot
   /\ \A k \in a..(b - 1) : vs[k] < Pivot
   /\ \A k \in c..(d - 1) : vs[k] > Pivot
   /\ \A k \in d..(hi - 1) : vs[k] = Pivot
Terminates == <>Done
================================================================================

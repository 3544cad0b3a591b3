-------------------------------- MODULE ChanceMC --------------------------------
(***************************************************************************)
(* C91: the drawing procedures as sequences of uniform choices.  h is what  *)
(* was chosen so far; Options(s, h) are the equally likely next choices     *)
(* (with repetition), Out(s, h) the result when no choice is left.  P is    *)
(* the exact probability of a result, summed over all runs, and must be the *)
(* law of Chance.tla.  Flaw names a plausible mistake in a procedure:       *)
(*   naive    every swap of a shuffle draws from the whole deck             *)
(*   cyclic   a shuffle never leaves a card where it is                     *)
(*   short    the last card is never drawn                                  *)
(*   skipped  a draw that hits a card set aside is drawn again              *)
(*   strata   strata are drawn equally, not at their rate                   *)
(*   cases    a case is drawn of all with a class, not of a class           *)
(*   shared   one draw decides both the class and the case                  *)
(*   modulo   a case without a target is replaced by its neighbour          *)
(*   own      the feature to copy is drawn once more per copy, never the last*)
(*   open     the last place to cut is never drawn                          *)
(*   low      the last thing is never parted from the first                 *)
(***************************************************************************)
EXTENDS Chance, TLC
CONSTANTS Flaw, Len1, Draw1
Cls == <<"a", "b">>

VARIABLES s, h
vars == <<s, h>>

Deck(n) == [x \in 1..n |-> x]
Swap(q, a, b) == [q EXCEPT ![a] = q[b], ![b] = q[a]]
Asc(S) == CHOOSE q \in [1..Cardinality(S) -> S] : Injective(q) /\ Sorted(q)
Range(q) == Img(q)
Last(q) == q[Len(q)]

(* shuffling: choice j is the place swapped with place j *)
RECURSIVE Shuffled(_, _, _)
Shuffled(q, c, j) == IF j > Len(c) THEN q ELSE Shuffled(Swap(q, j, c[j]), c, j + 1)
Places(n, j) == IF Flaw = "naive" THEN Deck(n)
                ELSE IF Flaw = "cyclic" /\ j < n THEN [x \in 1..(n - j) |-> j + x]
                ELSE [x \in 1..(n - j + 1) |-> j - 1 + x]

(* the deck: replay of the choices gives [q, last, drawn] *)
Aside(d, p) == p > d.s.len - d.s.k
RECURSIVE Deal(_, _)
Deal(d, c) ==
  IF c = <<>> THEN d
  ELSE LET p == c[1]
           e == IF Aside(d, p)
                THEN [d EXCEPT !.drawn = @ + (IF Flaw = "skipped" THEN 0 ELSE 1), !.j = @ + (IF Flaw = "skipped" THEN 0 ELSE 1)]
                ELSE [d EXCEPT !.q = Swap(@, p, d.last + 1), !.last = @ + 1, !.j = @ + 1]
       IN Deal(e, SubSeq(c, 2, Len(c)))
DealtBy(t, c) == Deal([s |-> t, q |-> Deck(t.len), last |-> 0, drawn |-> 0, j |-> 0], c)
DealMore(t, d) == IF t.kind = "first" THEN d.j < t.n /\ d.j < Free(t) ELSE d.j < t.n /\ d.last < Free(t)
DealPlaces(t, d) ==
  LET top == t.len - d.drawn - (IF Flaw = "short" /\ t.len - d.drawn > d.last + 1 THEN 1 ELSE 0)
      all == [x \in 1..(top - d.last) |-> d.last + x]
  IN IF Flaw = "naive" THEN Deck(Free(t))
     ELSE IF Flaw = "skipped" THEN SelectSeq(all, LAMBDA p : p <= Free(t)) ELSE all

(* drawing the case of a class: the choice of the case out of the members *)
Members(S) == IF Flaw = "shared" THEN <<Asc(S)[1]>> ELSE Asc(S)

Options(t, c) ==
  CASE t.kind = "repl" -> IF Len(c) = t.n THEN <<>> ELSE IF Flaw = "short" /\ t.len > 1 THEN Deck(t.len - 1) ELSE Deck(t.len)
    [] t.kind \in {"known", "knownbag"} ->
         IF Len(c) = t.n THEN <<>>
         ELSE IF Flaw = "modulo"
              THEN [x \in DOMAIN t.miss |-> CHOOSE y \in Known(t) : \A z \in Known(t) :
                      ((y - x + Len(t.miss)) % Len(t.miss)) <= ((z - x + Len(t.miss)) % Len(t.miss))]
              ELSE Asc(Known(t))
    [] t.kind = "part" ->
         LET m == Cardinality(Known(t)) IN
         IF Len(c) = Lesser(t.n, m) THEN <<>>
         ELSE IF Flaw = "short" /\ Len(c) + 1 < m THEN [x \in 1..(m - Len(c) - 1) |-> Len(c) + x]
         ELSE [x \in 1..(m - Len(c)) |-> Len(c) + x]
    [] t.kind \in {"first", "search"} ->
         LET d == DealtBy(t, c) IN IF DealMore(t, d) THEN DealPlaces(t, d) ELSE <<>>
    [] t.kind = "balanced" ->
         IF Len(c) = 2 * t.n THEN <<>>
         ELSE IF Flaw = "cases" THEN Asc(UNION {Class(t, k) : k \in Named(t)})
         ELSE IF Len(c) % 2 = 0 THEN [x \in 1..Cardinality(Named(t)) |-> x]
         ELSE Members(Class(t, Cls[Last(c)]))
    [] t.kind = "secondary" ->
         IF Len(c) = 3 * t.n THEN <<>>
         ELSE IF Len(c) % 3 = 0 THEN IF Flaw = "strata"
              THEN Asc({CHOOSE x \in Stratum(t, k) : TRUE : k \in {t.str[x] : x \in Both(t)}})
              ELSE Asc(Both(t))
         ELSE IF Len(c) % 3 = 1 THEN LET k == t.str[Last(c)] IN
              IF Flaw = "cases" THEN Asc(Stratum(t, k))
              ELSE Asc({CHOOSE x \in Cell(t, k, m) : TRUE : m \in ClassesIn(t, k)})
         ELSE Members(Cell(t, t.str[c[Len(c) - 1]], t.cls[Last(c)]))
    [] t.kind = "perm" -> IF Len(c) = t.len THEN <<>> ELSE Places(t.len, Len(c) + 1)
    [] t.kind = "contrasts" ->
         IF c = <<>> THEN IF Flaw = "own" /\ t.len > 1 THEN Deck(t.len - 1) ELSE Deck(t.len)
         ELSE IF Len(c) = t.n + 1 THEN <<>> ELSE Places(t.n, Len(c))
    [] t.kind = "extra" ->
         IF Len(c) = 1 THEN <<>>
         ELSE LET m == t.len - 2 * t.n + 1 IN
              [x \in 1..(IF Flaw = "open" /\ m > 1 THEN m - 1 ELSE m) |-> t.n - 1 + x]
    [] t.kind = "parts" ->
         IF Len(c) = 1 THEN <<>> ELSE Deck(Pow(2, IF Flaw = "low" THEN t.len - 2 ELSE t.len - 1) - 1)

(* a number as a division in two parts: thing x+1 is apart from the first if bit x is set *)
Bit(b, x) == IF x = 1 THEN 0 ELSE (b \div Pow(2, x - 2)) % 2
With(b, x, y) == IF Bit(b, x) = Bit(b, y) THEN 1 ELSE 0

Tail_(c) == SubSeq(c, 2, Len(c))
SortSeq_(q) == CHOOSE f \in [1..Len(q) -> Range(q)] : Sorted(f) /\ \A x \in Range(q) : Times(f, x) = Times(q, x)
Out(t, c) ==
  CASE t.kind \in {"repl", "known"} -> c
    [] t.kind = "knownbag" -> SortSeq_(c)
    [] t.kind = "part" -> SortSeq_(SubSeq(Shuffled(Asc(Known(t)), c, 1), 1, Len(c)))
    [] t.kind \in {"first", "search"} -> LET d == DealtBy(t, c) IN SubSeq(d.q, 1, d.last)
    [] t.kind = "balanced" -> [x \in 1..t.n |-> c[2 * x]]
    [] t.kind = "secondary" -> [x \in 1..t.n |-> c[3 * x]]
    [] t.kind = "perm" -> Shuffled(Deck(t.len), c, 1)
    [] t.kind = "contrasts" -> <<c[1]>> \o Shuffled(Deck(t.n), Tail_(c), 1)
    [] t.kind = "extra" -> c
    [] t.kind = "parts" -> <<With(c[1], t.watch[1], t.watch[2]), With(c[1], t.watch[1], t.watch[3])>>

RECURSIVE P(_, _, _)
P(t, c, r) == LET o == Options(t, c) IN
  IF o = <<>> THEN IF Out(t, c) = r THEN "1" ELSE "0"
  ELSE RDiv(RSum([x \in DOMAIN o |-> P(t, Append(c, o[x]), r)]), Len(o))

Schemes ==
  [kind : {"repl"}, len : 1..Len1, n : 0..Draw1]
  \cup [kind : {"known", "knownbag", "part"}, miss : UNION {[1..m -> BOOLEAN] : m \in 1..Len1}, n : 0..Draw1]
  \cup [kind : {"first", "search"}, len : 1..Len1, n : 0..(Len1 + 1), k : 0..Len1]
  \cup [kind : {"balanced"}, cls : UNION {[1..m -> {"NA", "a", "b"}] : m \in 1..Len1}, n : 1..Draw1]
  \cup [kind : {"secondary"}, cls : [1..Len1 -> {"NA", "a", "b"}], str : [1..Len1 -> {"NA", "p", "q"}], n : {1}]
  \cup [kind : {"perm"}, len : 1..Len1]
  \cup [kind : {"contrasts"}, len : 1..2, n : 1..(Len1 - 1)]
  \cup [kind : {"extra"}, len : 2..(2 * Len1), n : 1..Len1]
  \cup UNION {[kind : {"parts"}, len : {m}, watch : Ordered(3, 1..m)] : m \in 3..(Len1 + 1)}
Sensible(t) ==
  CASE t.kind \in {"known", "knownbag"} -> Known(t) # {}
    [] t.kind \in {"first", "search"} -> t.k <= t.len
    [] t.kind = "balanced" -> Named(t) # {} /\ \A i \in DOMAIN Cls : (i <= Cardinality(Named(t))) = (Cls[i] \in Named(t))
    [] t.kind = "secondary" -> Both(t) # {}
    [] t.kind = "extra" -> 2 * t.n <= t.len
    [] OTHER -> TRUE

Init == s \in Schemes /\ Sensible(s) /\ h = <<>>
Choose(x) == LET o == Options(s, h) IN x \in DOMAIN o /\ h' = Append(h, o[x]) /\ s' = s
Next == \E x \in 1..Pow(2, Len1 + 1) : Choose(x)
Spec == Init /\ [][Next]_vars

Possible == Options(s, h) = <<>> => Out(s, h) \in Support(s)
Exact == h = <<>> => \A r \in Support(s) : P(s, h, r) = RNum(Law(s, r))
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN "0" ELSE LET r == CHOOSE r \in S : TRUE IN RAdd(Law(s, r), Sum(S \ {r}))
Whole == h = <<>> => Sum(Support(s)) = "1"
(* drawing again whenever a case without a target was hit is what the law says *)
Rejecting == (h = <<>> /\ s.kind = "known" /\ s.n > 0) =>
  \A r \in Support(s) :
    LET rest == IF s.n = 1 THEN "1" ELSE Law([s EXCEPT !.n = s.n - 1], SubSeq(r, 2, Len(r)))
        one(x) == IF s.miss[x] THEN Law(s, r) ELSE IF r[1] = x THEN rest ELSE "0"
    IN REq(Law(s, r), RDiv(RSum([x \in DOMAIN s.miss |-> one(x)]), Len(s.miss)))
================================================================================

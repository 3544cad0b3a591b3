--------------------------------- MODULE Chance ---------------------------------
(***************************************************************************)
(* C91: the probability of every result of the random draws.                *)
(* A scheme s is a record; Support(s) are its possible results (sequences)  *)
(* and Law(s, r) the exact probability of one of them:                      *)
(*   repl       n cases out of 1..len with replacement                      *)
(*   known      n cases with replacement out of those with a known target   *)
(*   knownbag   the same, known only as a sorted sequence                   *)
(*   part       n of those cases without replacement, sorted                *)
(*   first      the first n of a deck of len whose last k are set aside;    *)
(*              at most len-k draws are made                                *)
(*   search     the same, but draws go on until n were made or every card   *)
(*              that is not set aside has been taken                        *)
(*   balanced   n cases, a class first and then a case of the class         *)
(*   secondary  n cases, strata at their rate, then a class of the stratum, *)
(*              then a case                                                 *)
(*   perm       a permutation of len things                                 *)
(*   contrasts  one shuffled copy of a feature drawn among len, of n cases  *)
(*   extra      the number of cases left of a random cut of len cases,      *)
(*              at least n on each side                                     *)
(*   parts      of len things divided in two parts, neither empty, whether  *)
(*              the second and the third watched one are with the first (1) *)
(* Draws of one scheme that follow one another are independent: a result of *)
(* several has the product of the probabilities (Joint).                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Rat

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE IF n < k THEN 0 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE RPow2(_)
RPow2(n) == IF n = 0 THEN "1" ELSE RMul(2, RPow2(n - 1))
RECURSIVE RProd(_)
RProd(q) == IF q = <<>> THEN "1" ELSE RMul(q[1], RProd(SubSeq(q, 2, Len(q))))
Over(a, b) == RDiv(a, b)

Img(f) == {f[x] : x \in DOMAIN f}
Injective(f) == Cardinality(Img(f)) = Cardinality(DOMAIN f)
Ordered(m, S) == {f \in [1..m -> S] : Injective(f)}
Sorted(f) == \A x \in 1..(Len(f) - 1) : f[x] <= f[x + 1]
Lesser(a, b) == IF a < b THEN a ELSE b

Free(s) == s.len - s.k
(* how many draws are made at most *)
Draws(s) == IF s.kind = "first" THEN Lesser(s.n, Free(s)) ELSE Lesser(s.n, s.len)
Known(s) == {x \in DOMAIN s.miss : ~s.miss[x]}
Class(s, c) == {x \in DOMAIN s.cls : s.cls[x] = c}
Named(s) == {s.cls[x] : x \in DOMAIN s.cls} \ {"NA"}
Both(s) == {x \in DOMAIN s.cls : s.cls[x] # "NA" /\ s.str[x] # "NA"}
Stratum(s, t) == {x \in Both(s) : s.str[x] = t}
ClassesIn(s, t) == {s.cls[x] : x \in Stratum(s, t)}
Cell(s, t, c) == {x \in Stratum(s, t) : s.cls[x] = c}

Support(s) ==
  CASE s.kind = "repl" -> [1..s.n -> 1..s.len]
    [] s.kind = "known" -> [1..s.n -> Known(s)]
    [] s.kind = "knownbag" -> {f \in [1..s.n -> Known(s)] : Sorted(f)}
    [] s.kind = "part" -> {f \in [1..Lesser(s.n, Cardinality(Known(s))) -> Known(s)] : Sorted(f) /\ Injective(f)}
    [] s.kind \in {"first", "search"} ->
         UNION {Ordered(m, 1..Free(s)) : m \in {m \in 0..Lesser(Draws(s), Free(s)) : m + s.k >= Draws(s)}}
    [] s.kind = "balanced" -> [1..s.n -> UNION {Class(s, c) : c \in Named(s)}]
    [] s.kind = "secondary" -> [1..s.n -> Both(s)]
    [] s.kind = "perm" -> Ordered(s.len, 1..s.len)
    [] s.kind = "contrasts" -> {<<o>> \o p : o \in 1..s.len, p \in Ordered(s.n, 1..s.n)}
    [] s.kind = "extra" -> {<<m>> : m \in s.n..(s.len - s.n)}
    [] s.kind = "parts" -> [1..2 -> {0, 1}]

Times(r, x) == Cardinality({i \in DOMAIN r : r[i] = x})
Law(s, r) ==
  CASE s.kind = "repl" -> Over(1, Pow(s.len, s.n))
    [] s.kind = "known" -> Over(1, Pow(Cardinality(Known(s)), s.n))
    [] s.kind = "knownbag" ->
         RDiv(Over(Fact(s.n), Pow(Cardinality(Known(s)), s.n)),
              RProd([x \in DOMAIN s.miss |-> Over(Fact(Times(r, x)), 1)]))
    [] s.kind = "part" -> Over(1, Cardinality(Support(s)))
    [] s.kind \in {"first", "search"} ->
         LET m == Len(r) d == Draws(s)
         IN RDiv(Over(Binom(Free(s), m) * Binom(s.k, d - m), Binom(s.len, d)),
                 Over(Cardinality(Ordered(m, 1..Free(s))), 1))
    [] s.kind = "balanced" ->
         RProd([x \in DOMAIN r |-> Over(1, Cardinality(Named(s)) * Cardinality(Class(s, s.cls[r[x]])))])
    [] s.kind = "secondary" ->
         RProd([x \in DOMAIN r |-> LET t == s.str[r[x]] IN
            Over(Cardinality(Stratum(s, t)),
                 Cardinality(Both(s)) * Cardinality(ClassesIn(s, t)) * Cardinality(Cell(s, t, s.cls[r[x]])))])
    [] s.kind = "perm" -> Over(1, Fact(s.len))
    [] s.kind = "contrasts" -> Over(1, s.len * Fact(s.n))
    [] s.kind = "extra" -> Over(1, s.len - 2 * s.n + 1)
    [] s.kind = "parts" ->
         RDiv(RSub(RPow2(s.len - 3), IF r = <<1, 1>> THEN 1 ELSE 0), RSub(RPow2(s.len - 1), 1))

Joint(s, rs) == RProd([x \in DOMAIN rs |-> Law(s, rs[x])])
================================================================================

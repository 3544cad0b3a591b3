-------------------------------- MODULE Impurity --------------------------------
(***************************************************************************)
(* What every target computes for a group of cases: its impurity, the       *)
(* impurity of a split into groups, and its prediction.                     *)
(*                                                                         *)
(* A target T is [type, val, miss, cats, par]: the values (category names   *)
(* or rationals) and missing marks of the cases, the category names, and    *)
(* the parameters of its type.  A group is a sequence of case numbers.      *)
(* Where a majority vote is tied the definitions leave the choice open, so  *)
(* they give sets of permitted results.                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Rat

Cnt(T, g, k) == Cardinality({i \in DOMAIN g : T.val[g[i]] = k})
CatsOf(T) == {T.cats[i] : i \in DOMAIN T.cats}
Over(f) == RSum(f)                                   \* sum of a sequence of rationals
Vals(T, g) == [i \in 1..Len(g) |-> T.val[g[i]]]
Known(T, g) == SelectSeq(g, LAMBDA c : ~T.miss[c])

(* the categories with the greatest score *)
ArgMax(S, Score(_)) == {k \in S : \A j \in S : RLe(Score(j), Score(k))}
(* scores that differ by rounding only count as tied *)
NearMax(S, Score(_)) == {k \in S : \A j \in S : RLe(Score(j), Score(k)) \/ RClose(Score(j), Score(k), "0", "1e-12")}
Majority(T, g) == ArgMax(CatsOf(T), LAMBDA k : Cnt(T, g, k))

Mean(xs) == RDiv(RSum(xs), Len(xs))
SumSqErr(xs) == RSub(RSumSq(xs), RDiv(RMul(RSum(xs), RSum(xs)), Len(xs)))
AbsErr(xs, m) == RSum([i \in DOMAIN xs |-> RAbs(RSub(xs[i], m))])
SqErr(xs, m) == RSum([i \in DOMAIN xs |-> RMul(RSub(xs[i], m), RSub(xs[i], m))])

Gini(T, g) == RSub("1", RDiv(RSum([i \in DOMAIN T.cats |-> LET n == Cnt(T, g, T.cats[i]) IN n * n]), Len(g) * Len(g)))
EntropyW(T, g, W(_)) ==
  RNeg(RSum([i \in DOMAIN T.cats |->
     LET n == Cnt(T, g, T.cats[i])
         p == RDiv(n, Len(g))
     IN IF n = 0 THEN "0" ELSE RMul(W(T.cats[i]), RMul(p, RLn(p)))]))

(* length of the line segment, or number of categories, a group covers in a column *)
Span(col, g) ==
  LET known == {col.val[g[i]] : i \in {j \in DOMAIN g : ~col.miss[g[j]]}}
  IN IF col.kind = "cat" THEN RNum(Cardinality(known))
     ELSE IF known = {} THEN "0"
     ELSE RSub(CHOOSE x \in known : \A y \in known : RLe(y, x), CHOOSE x \in known : \A y \in known : RLe(x, y))

RECURSIVE Product(_)
Product(xs) == IF xs = <<>> THEN "1" ELSE RMul(Head(xs), Product(Tail(xs)))

Volume(cols, g) == Product([i \in DOMAIN cols |-> Span(cols[i], g)])
PosVolume(cols, g) == Product([i \in DOMAIN cols |-> LET s == Span(cols[i], g) IN IF RLe(s, "0") THEN "1" ELSE s])

(* weight of the cases a majority vote gets wrong, times their cost *)
Wrong(T, g, m, W(_)) == RSum([i \in DOMAIN g |-> IF T.val[g[i]] = m THEN "0" ELSE W(g[i])])

NPScore(T, g, k) == IF k = T.par.pos THEN RDiv(Cnt(T, g, k), T.par.alpha) ELSE RNum(Cnt(T, g, k))
Modes(T, g) == LET K == Known(T, g)
                   V == {T.val[K[i]] : i \in DOMAIN K}
               IN ArgMax(V, LAMBDA v : Cnt(T, K, v))
BaseGini(T, g) == Gini(T, g)

(* the permitted impurities of a non empty group *)
Imps(T, g) ==
  CASE T.type = "gini" -> {Gini(T, g)}
    [] T.type = "num" -> {SumSqErr(Vals(T, g))}
    [] T.type = "mdl" -> {RDiv(RAdd(SumSqErr(Vals(T, g)), T.par.c), Len(g))}   \* a target of the checks, not of the library
    [] T.type = "entropy" -> {EntropyW(T, g, LAMBDA k : "1")}
    [] T.type = "dentropy" -> {EntropyW(T, g, LAMBDA k : T.par.cost[k])}
    [] T.type = "l1" -> LET xs == Vals(T, Known(T, g)) IN {RDiv(AbsErr(xs, Mean(xs)), Len(xs))}
    [] T.type = "ordinal" -> LET xs == Vals(T, Known(T, g)) IN IF xs = <<>> THEN {"nan"} ELSE {RDiv(SqErr(xs, m), Len(xs)) : m \in Modes(T, g)}
    [] T.type = "wrf" ->
         LET w == [i \in DOMAIN T.cats |-> RMul(Cnt(T, g, T.cats[i]), T.par.w[T.cats[i]])]
         IN {RSub("1", RDiv(RSumSq(w), RMul(RSum(w), RSum(w))))}
    [] T.type = "regret" ->
         LET cc(k) == RMul(Cnt(T, g, k), T.par.cost[k])
         IN {RDiv(RSub(RSum([i \in DOMAIN T.cats |-> cc(T.cats[i])]), cc(k)), Len(g)) : k \in ArgMax(CatsOf(T), cc)}
    [] T.type = "np" ->
         LET sc(k) == NPScore(T, g, k)
             pos == Cnt(T, g, T.par.pos)
             fp == RSub(RDiv(Len(g) - pos, Len(g)), T.par.alpha)
         IN {IF k = T.par.pos THEN RMul(T.par.kappa, IF RLe(fp, "0") THEN "0" ELSE fp) ELSE RDiv(pos, Len(g)) :
              k \in NearMax(CatsOf(T), sc)}
    [] T.type = "ada" -> {Wrong(T, g, m, LAMBDA c : T.par.weights[c]) : m \in Majority(T, g)}
    [] T.type = "adacost" -> {Wrong(T, g, m, LAMBDA c : RMul(T.par.weights[c], T.par.cost[T.val[c]])) : m \in Majority(T, g)}
    [] T.type = "numada" ->
         LET K == Known(T, g)
             xs == Vals(T, K)
             m == Mean(xs)
         IN {RSum([i \in DOMAIN K |-> RMul(T.par.weights[K[i]], RAbs(RSub(xs[i], m)))])}
    [] T.type = "hdist" -> {"-1"}
    [] T.type = "gradboost" ->
         LET e == SumSqErr(Vals(T, g))
         IN (IF RLe(e, "0.00000011") THEN {"pure"} ELSE {}) \cup (IF RLe("0.00000009", e) THEN {"-1"} ELSE {})
    [] T.type = "density" ->
         {RDiv(RDiv(Len(g) * Len(g), T.par.n * T.par.n), Volume(T.par.cols, g))}
    [] T.type = "trans" ->
         {RAdd(Gini(T, g), RMul(T.par.alpha, RDiv(PosVolume(T.par.cols, g), Len(g) * Len(g))))}

(* targets whose split score is to be maximised, not an impurity to be minimised *)
Maximised(T) == T.type \in {"hdist", "gradboost"}

Hellinger(T, l, r) ==
  LET k0 == T.cats[1]
      k1 == T.cats[2]
      t0 == Cnt(T, l, k0) + Cnt(T, r, k0)
      t1 == Cnt(T, l, k1) + Cnt(T, r, k1)
      d(g) == RSub(RDiv(Cnt(T, g, k0), t0), RDiv(Cnt(T, g, k1), t1))
  IN IF t0 = 0 \/ t1 = 0 THEN "nan" ELSE RAdd(RMul(d(l), d(l)), RMul(d(r), d(r)))

Friedman(T, l, r) ==
  LET d == RSub(Mean(Vals(T, l)), Mean(Vals(T, r)))
  IN RDiv(RMul(RMul(d, d), Len(l) * Len(r)), Len(l) + Len(r))

Weighted(x, y, z, l, r, m) ==
  RDiv(RAdd(RAdd(RMul(Len(l), x), RMul(Len(r), y)), IF Len(m) = 0 THEN "0" ELSE RMul(Len(m), z)), Len(l) + Len(r) + Len(m))

(* the permitted impurities of a split into non empty groups l and r and a possibly empty group m *)
SImps(T, l, r, m) ==
  CASE T.type = "hdist" -> {Hellinger(T, l, r)}
    [] T.type = "gradboost" -> {Friedman(T, l, r)}
    [] OTHER ->
         IF Len(m) = 0 THEN {Weighted(x, y, "0", l, r, m) : x \in Imps(T, l), y \in Imps(T, r)}
         ELSE {Weighted(x, y, z, l, r, m) : x \in Imps(T, l), y \in Imps(T, r), z \in Imps(T, m)}

(* permitted predictions: category names, or one number *)
PredKind(T) == IF T.type \in {"num", "mdl", "l1", "ordinal", "numada", "hdist", "dentropy", "gradboost", "gradclass", "density"} THEN "num" ELSE "cat"
Preds(T, g) ==
  CASE T.type \in {"num", "mdl", "l1", "numada", "gradboost"} -> {Mean(Vals(T, Known(T, g)))}
    [] T.type = "ordinal" -> Modes(T, g)
    [] T.type \in {"gini", "entropy", "ada", "adacost"} -> ArgMax(CatsOf(T), LAMBDA k : Cnt(T, Known(T, g), k))
    [] T.type = "wrf" -> NearMax(CatsOf(T), LAMBDA k : RMul(Cnt(T, Known(T, g), k), T.par.w[k]))
    [] T.type = "regret" -> NearMax(CatsOf(T), LAMBDA k : RMul(Cnt(T, g, k), T.par.cost[k]))
    [] T.type = "np" -> NearMax(CatsOf(T), LAMBDA k : NPScore(T, g, k))
    [] T.type = "hdist" -> {RDiv(Cnt(T, g, T.par.pos), Len(g))}
    [] T.type = "dentropy" ->
         {RDiv(IF "True" \in CatsOf(T) THEN RMul(Cnt(T, g, "True"), T.par.cost["True"]) ELSE "0",
               RSum([i \in DOMAIN g |-> T.par.cost[T.val[g[i]]]]))}
    [] T.type = "density" -> {RDiv(RDiv(Len(g), T.par.n), Volume(T.par.cols, g))}
    [] T.type = "trans" -> NearMax(CatsOf(T), LAMBDA k : IF k = T.par.unlabeled THEN RMul(Cnt(T, g, k), T.par.beta) ELSE RNum(Cnt(T, g, k)))
    [] T.type = "gradclass" ->
         LET r == Vals(T, g)
             p == [i \in DOMAIN g |-> RSub(T.par.actual[g[i]], r[i])]
         IN {RDiv(RSum(r), RSum([i \in DOMAIN g |-> RMul(p[i], RSub("1", p[i]))]))}

(* rounding allowed to the implementation: double arithmetic on these values *)
Numeric(T) == T.type \in {"num", "mdl", "l1", "ordinal", "numada", "gradboost", "gradclass"}
Slack(T) ==
  IF Numeric(T)
  THEN LET xs == [i \in DOMAIN T.val |-> IF T.miss[i] THEN "0" ELSE T.val[i]]
       IN RAdd("1e-11", RMul("1e-13", RMul(Len(xs), RSumSq(xs))))
  ELSE "1e-10"
Near(T, a, b) == RClose(a, b, Slack(T), "1e-9")
================================================================================

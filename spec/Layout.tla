---------------------------------- MODULE Layout ----------------------------------
(***************************************************************************)
(* How a table may be laid out in a file of each format, and what options   *)
(* of the utilities may do to it.  Used by the trace specifications of      *)
(* readers, writers, toafm and nfold.                                       *)
(***************************************************************************)
EXTENDS Format, Rat

Elems(s) == {s[i] : i \in DOMAIN s}
Known(f) == {i \in DOMAIN f.cells : f.cells[i] # <<>>}
Labels(f) == {f.cells[i][1] : i \in Known(f)}
CountOf(f, l) == Cardinality({i \in Known(f) : f.cells[i][1] = l})
Modes(f) == {l \in Labels(f) : \A m \in Labels(f) : CountOf(f, m) <= CountOf(f, l)}
RECURSIVE Added(_, _)
Added(f, S) == IF S = {} THEN "0" ELSE LET i == CHOOSE i \in S : TRUE IN RAdd(f.cells[i][1], Added(f, S \ {i}))
MeanOk(f, v) == RIsNum(v) /\ RClose(RMul(v, RNum(Cardinality(Known(f)))), Added(f, Known(f)), "1e-9", "1e-9")

SameCells(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
SameCols(a, b) == /\ Len(a) = Len(b)
                  /\ \A j \in DOMAIN a : a[j].name = b[j].name /\ a[j].kind = b[j].kind /\ SameCells(a[j].cells, b[j].cells)

(* what a format can say *)
Expresses(fmt, t) ==
  CASE fmt = "afm" -> /\ \A j \in DOMAIN t.cols : KindOf(t.cols[j].name) = t.cols[j].kind
                      /\ t.labels # <<>> => \A p \in {"N:", "C:", "B:"} : ~Starts(t.labels[1], p)
    [] fmt = "arff" -> \A j \in DOMAIN t.cols : ~HasChar(t.cols[j].name, "\n")
    [] OTHER -> TRUE

(* ---- libSVM: the target, then numbers, categories as 0/1 columns, missing ones imputed ------ *)
Width(f) == IF f.kind = "num" \/ f.ncats <= 2 THEN 1 ELSE f.ncats
RECURSIVE Offset(_, _)
Offset(fs, k) == IF k = 1 THEN 0 ELSE Offset(fs, k - 1) + Width(fs[k - 1])
Others(t, tname) == SelectSeq(t.cols, LAMBDA f : f.name # tname)
Target(t, tname) == t.cols[CHOOSE j \in DOMAIN t.cols : t.cols[j].name = tname]
ValAt(r, j, i) == IF j + 1 <= Len(r.cols) THEN r.cols[j + 1].cells[i] ELSE <<"0">>   \* trailing zeros need not be written
BlockOk(f, o, r, cases) ==
  LET n == Len(cases)
      w == Width(f)
      known == {i \in 1..n : f.cells[cases[i]] # <<>>}
      lab(i) == f.cells[cases[i]][1]
      v(i, k) == ValAt(r, o + k, i)
      hot(i) == CHOOSE k \in 1..w : v(i, k) = <<"1">>
  IN IF f.kind = "num"
     THEN \A i \in 1..n : /\ v(i, 1) # <<>>
                          /\ IF i \in known THEN REq(v(i, 1)[1], lab(i))
                             ELSE IF Known(f) = {} THEN v(i, 1)[1] = "0" ELSE MeanOk(f, v(i, 1)[1])
     ELSE IF w = 1
     THEN /\ \A i \in 1..n : v(i, 1) \in {<<"0">>, <<"1">>} \/ Labels(f) = {}
          /\ \A i, j \in known : lab(i) = lab(j) <=> v(i, 1) = v(j, 1)
          /\ \A i \in (1..n) \ known, j \in known : (lab(j) \notin Modes(f) => v(i, 1) # v(j, 1)) /\ (Modes(f) = {lab(j)} => v(i, 1) = v(j, 1))
     ELSE /\ \A i \in 1..n : Cardinality({k \in 1..w : v(i, k) = <<"1">>}) = 1 /\ \A k \in 1..w : v(i, k) \in {<<"0">>, <<"1">>}
          /\ \A i, j \in known : lab(i) = lab(j) <=> hot(i) = hot(j)
          /\ \A i \in (1..n) \ known, j \in known : (lab(j) \notin Modes(f) => hot(i) # hot(j)) /\ (Modes(f) = {lab(j)} => hot(i) = hot(j))
SvmRowsOk(t, tname, cases, r) ==
  LET fs == Others(t, tname) IN
  /\ Len(r.labels) = Len(cases)
  /\ cases # <<>> => /\ Len(r.cols) <= 1 + Offset(fs, Len(fs) + 1)
                     /\ \A k \in DOMAIN fs : BlockOk(fs[k], Offset(fs, k), r, cases)
SvmTargetOk(t, tname, cases, r, Nil(_)) ==     \* Nil: what may be written for a missing value
  LET y == Target(t, tname)
      known == {i \in DOMAIN cases : y.cells[cases[i]] # <<>>}
      lab(i) == y.cells[cases[i]][1]
  IN cases # <<>> =>
     IF y.kind = "num"
     THEN 1 \in known =>     \* the first value tells the type
            /\ r.cols[1].kind = "num"
            /\ \A i \in DOMAIN cases : IF i \in known THEN r.cols[1].cells[i] = <<lab(i)>> ELSE Nil(r.cols[1].cells[i])
     ELSE /\ r.cols[1].kind = "cat"
          /\ \A i, j \in known : r.cols[1].cells[i] # <<>> /\ (lab(i) = lab(j) <=> r.cols[1].cells[i] = r.cols[1].cells[j])

(* ---- toafm: a prefix for the type, and anonymity --------------------------------------------- *)
Prefixed(c) == IF c.kind = "num" THEN IF Starts(c.name, "N:") THEN c.name ELSE "N:" \o c.name
               ELSE IF Starts(c.name, "C:") \/ Starts(c.name, "B:") THEN c.name ELSE "C:" \o c.name
Without(t, black) == [t EXCEPT !.cols = SelectSeq(@, LAMBDA c : c.name \notin black)]
Annotated(t) == [t EXCEPT !.cols = [j \in DOMAIN t.cols |-> [t.cols[j] EXCEPT !.name = Prefixed(t.cols[j])]]]
(* the target first, everything named by its number, categories too; one to one *)
AnonOk(t, tname, r) ==
  LET n == Len(t.labels)
      S == {j \in DOMAIN t.cols : t.cols[j].name = tname}
      ti == IF S = {} THEN 1 ELSE CHOOSE j \in S : TRUE
      from(j) == IF j = 1 THEN ti ELSE IF j = ti THEN 1 ELSE j
  IN /\ r.labels = Counted(n) /\ Len(r.cols) = Len(t.cols)
     /\ \A j \in DOMAIN r.cols :
          LET a == t.cols[from(j)]
              b == r.cols[j]
          IN /\ b.kind = a.kind /\ b.name = (IF a.kind = "num" THEN "N:" ELSE "C:") \o ToString(j - 1)
             /\ \A i \in 1..n : (a.cells[i] = <<>>) <=> (b.cells[i] = <<>>)
             /\ IF a.kind = "num" THEN SameCells(a.cells, b.cells)
                ELSE \A i, k \in 1..n : a.cells[i] # <<>> /\ a.cells[k] # <<>> => (a.cells[i] = a.cells[k] <=> b.cells[i] = b.cells[k])
             /\ a.kind = "cat" => \A i \in 1..n : b.cells[i] # <<>> => b.cells[i][1] \in {ToString(x) : x \in 0..n}
================================================================================

---------------------------------- MODULE Table ----------------------------------
(***************************************************************************)
(* Features as users see them, and what every operation may do to them.     *)
(*   feature  [name, kind, cells, has, cats]                                *)
(*     cells  one per case: <<v>>, or <<>> when the value is missing        *)
(*     has    its answer to "has it missing values?"                        *)
(*     cats   its category labels in order (none for a number)              *)
(* An operation is a record e with e.op and its arguments, B and A are the  *)
(* sequences of all features before and after it; features are never        *)
(* removed, new ones are appended.                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Rat

MissingTokens == {"", "?", "NA", "na", "Na", "nA", "NaN", "nan", "NAN", "Nan", "null", "NULL", "Null"}

Elems(s) == {s[i] : i \in DOMAIN s}
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
BagEq(s, t) == Len(s) = Len(t) /\ \A x \in Elems(s) : Times(s, x) = Times(t, x)
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]

Cases(f) == 1..Len(f.cells)
Miss(f, i) == f.cells[i] = <<>>
Present(f) == {i \in Cases(f) : ~Miss(f, i)}

(* every label once, every value a label *)
Coded(f) == /\ \A i, j \in DOMAIN f.cats : f.cats[i] = f.cats[j] => i = j
            /\ f.kind = "cat" => \A i \in Present(f) : f.cells[i][1] \in Elems(f.cats)
(* "no missing values" is never said wrongly *)
HasOk(f) == (\E i \in Cases(f) : Miss(f, i)) => f.has

Alike(f, g) == f.kind = g.kind /\ f.cells = g.cells /\ f.cats = g.cats
Same(f, g) == f.name = g.name /\ Alike(f, g)

News(B, A) == [i \in 1..(Len(A) - Len(B)) |-> A[Len(B) + i]]

(* ---- who may change ---------------------------------------------------------------- *)
Touched(e) ==
  CASE e.op \in {"put", "putstr", "append", "putmissing", "impute", "shuffle", "shufflecases"} -> {e.o}
    [] e.op = "copyinto" -> {e.p}
    [] e.op = "imputeall" -> Elems(e.os)
    [] OTHER -> {}
Frame(e, B, A) == Len(B) <= Len(A) /\ \A o \in DOMAIN B : o \notin Touched(e) => Same(B[o], A[o])
Adds(e, B, A) ==
  CASE e.op \in {"copy", "shuffledcopy"} -> Len(A) = Len(B) + 1
    [] e.op = "addcontrasts" -> Len(A) = Len(B) + e.n
    [] e.op = "contrastall" -> Len(A) = Len(B) + Len(e.os)
    [] e.op \in {"encode", "onehot"} -> TRUE
    [] OTHER -> Len(A) = Len(B)

(* ---- copies ------------------------------------------------------------------------ *)
CopyOk(e, B, A) == /\ e.op = "copy" => Same(B[e.o], A[Len(A)])
                   /\ e.op = "copyinto" => A[e.p].cells = B[e.o].cells /\ A[e.p].name = B[e.p].name

(* ---- setting values ---------------------------------------------------------------- *)
(* the cell a text becomes; the number a text denotes is e.want (<<>> if it is none) *)
Cell(f, e) == IF e.op = "putmissing" THEN <<>>
              ELSE IF e.op = "put" THEN <<e.v>>
              ELSE IF f.kind = "num" THEN e.want
              ELSE IF e.v \in MissingTokens THEN <<>> ELSE <<e.v>>
SetOk(e, f, g) ==
  /\ g.name = f.name /\ g.kind = f.kind
  /\ g.cells = IF e.op = "append" THEN Append(f.cells, Cell(f, e)) ELSE [f.cells EXCEPT ![e.i] = Cell(f, e)]
  /\ IsPrefix(f.cats, g.cats)
  /\ \A k \in DOMAIN g.cats : k > Len(f.cats) => <<g.cats[k]>> = Cell(f, e)
RECURSIVE Added(_, _)
Added(f, S) == IF S = {} THEN "0" ELSE LET i == CHOOSE i \in S : TRUE IN RAdd(f.cells[i][1], Added(f, S \ {i}))
CountOf(f, l) == Cardinality({i \in Present(f) : f.cells[i][1] = l})
MeanOk(f, v) == RClose(RMul(v, RNum(Cardinality(Present(f)))), Added(f, Present(f)), "1e-9", "1e-9")
MostOk(f, v) == v \in Elems(f.cats) /\ \A l \in Elems(f.cats) : CountOf(f, l) <= CountOf(f, v)
ImputedOk(f, g) ==
  /\ g.name = f.name /\ g.kind = f.kind /\ g.cats = f.cats /\ Len(g.cells) = Len(f.cells)
  /\ \A i \in Present(f) : g.cells[i] = f.cells[i]
  /\ Present(f) # {} => Present(g) = Cases(g)
  /\ \A i \in Cases(g) : Miss(f, i) /\ ~Miss(g, i) =>
       IF f.kind = "num" THEN Present(f) # {} /\ MeanOk(f, g.cells[i][1]) ELSE MostOk(f, g.cells[i][1])
SettingOk(e, B, A) ==
  /\ e.op \in {"put", "putstr", "append", "putmissing"} => SetOk(e, B[e.o], A[e.o])
  /\ e.op = "impute" => ImputedOk(B[e.o], A[e.o])
  /\ e.op = "imputeall" => \A o \in Elems(e.os) : ImputedOk(B[o], A[o])

(* ---- encodings ----------------------------------------------------------------------- *)
Agree(gs, i, j) == \A k \in DOMAIN gs : gs[k].cells[i] = gs[k].cells[j]
Yes(kind) == IF kind = "num" THEN <<"1">> ELSE <<"true">>
No(kind) == IF kind = "num" THEN <<"0">> ELSE <<"false">>
EncodedOk(f, gs, kind) ==
  /\ gs # <<>>
  /\ \A k \in DOMAIN gs : Len(gs[k].cells) = Len(f.cells) /\ gs[k].kind = kind /\ \A i \in Cases(f) : Miss(gs[k], i) = Miss(f, i)
  /\ \A i, j \in Present(f) : f.cells[i] = f.cells[j] <=> Agree(gs, i, j)
  /\ IF Len(f.cats) <= 2 THEN Len(gs) = 1 /\ gs[1].name = f.name
     ELSE /\ Len(gs) = Len(f.cats)
          /\ \A l \in Elems(f.cats) : \E k \in DOMAIN gs :
               /\ gs[k].name = f.name \o "==" \o l
               /\ \A i \in Present(f) : gs[k].cells[i] = IF f.cells[i] = <<l>> THEN Yes(kind) ELSE No(kind)
  /\ Len(f.cats) <= 2 /\ kind = "cat" => gs[1].cells = f.cells
EncodingOk(e, B, A) ==
  /\ e.op = "encode" => EncodedOk(B[e.o], News(B, A), "num")
  /\ e.op = "onehot" => EncodedOk(B[e.o], News(B, A), "cat")

(* ---- shuffles ------------------------------------------------------------------------ *)
PermutedOk(f, g, name) == g.name = name /\ g.kind = f.kind /\ g.cats = f.cats /\ BagEq(f.cells, g.cells)
Contrast(f) == f.name \o ":SHUFFLED"
ShufflingOk(e, B, A) ==
  /\ e.op = "shuffle" => PermutedOk(B[e.o], A[e.o], B[e.o].name)
  /\ e.op = "shufflecases" => /\ PermutedOk(B[e.o], A[e.o], B[e.o].name)
                              /\ \A i \in Cases(B[e.o]) : i \notin Elems(e.cases) => A[e.o].cells[i] = B[e.o].cells[i]
  /\ e.op = "shuffledcopy" => PermutedOk(B[e.o], A[Len(A)], Contrast(B[e.o]))
  /\ e.op = "contrastall" => \A k \in DOMAIN e.os : PermutedOk(B[e.os[k]], A[Len(B) + k], Contrast(B[e.os[k]]))
  /\ e.op = "addcontrasts" => \A k \in 1..e.n : \E o \in Elems(e.os) : PermutedOk(B[o], A[Len(B) + k], Contrast(B[o]))
================================================================================

------------------------------- MODULE TableTrace --------------------------------
(***************************************************************************)
(* A history of operations on features and a matrix of them, recorded with  *)
(* everything users can see after each.  Tr.judge names the properties that *)
(* are judged: "C15" copies and read-only operations, "C16" encodings,      *)
(* "C17" setting and imputing, "C24" shuffles and contrasts.                *)
(***************************************************************************)
EXTENDS TraceBase, Table

VARIABLES objs, mat   \* the features; which of them the matrix holds, its labels and lookup
tvars == <<tid, pos, objs, mat>>

Judged(x) == \E j \in DOMAIN Tr.judge : Tr.judge[j] = x
Of(e) == CASE e.op \in {"put", "putstr", "append", "putmissing", "impute", "imputeall", "strings", "center"} -> "C17"
           [] e.op \in {"encode", "onehot", "matrix"} -> "C16"
           [] e.op \in {"shuffle", "shufflecases", "shuffledcopy", "contrastall", "addcontrasts", "stirred"} -> "C24"
           [] OTHER -> "C15"

Step(e, A) ==
  /\ Judged("C15") =>
       /\ Chk("an operation changed what it should leave alone", Frame(e, objs, A))
       /\ Chk("features appeared or vanished", Adds(e, objs, A))
       /\ Chk("the copy differs", CopyOk(e, objs, A))
       /\ Chk("labels lead to other categories", \A o \in DOMAIN A : A[o].agree)
       /\ Chk("the matrix itself changed", 
            IF e.op \in {"contrastall", "addcontrasts"} THEN IsPrefix(mat.order, e.matrix.order) /\ e.matrix.labels = mat.labels
            ELSE e.matrix = mat)
  /\ Judged("C16") => Chk("the encoding says something else", EncodingOk(e, objs, A))
  /\ Judged("C17") =>
       /\ Chk("another value than was set or imputed", SettingOk(e, objs, A))
       /\ Chk("missing values denied", \A o \in DOMAIN A : HasOk(A[o]))
       /\ Chk("labels and codes", \A o \in DOMAIN A : Coded(A[o]))
  /\ Judged("C24") =>
       /\ Chk("not a permutation of the values", ShufflingOk(e, objs, A))
       /\ Chk("the original changed", e.op \in {"shuffledcopy", "contrastall", "addcontrasts"} => Frame(e, objs, A) /\ Adds(e, objs, A))
       /\ Chk("names lead to other features", e.op \in {"contrastall", "addcontrasts"} =>
                /\ \A k \in DOMAIN e.matrix.lookup : e.names[e.matrix.lookup[k][2]] = e.matrix.lookup[k][1]
                /\ {e.names[i] : i \in DOMAIN e.names} = {e.matrix.lookup[k][1] : k \in DOMAIN e.matrix.lookup})

Operate == /\ More /\ "snap" \in DOMAIN Ev
           /\ Step(Ev, Ev.snap) /\ Consume /\ objs' = Ev.snap /\ mat' = Ev.matrix
(* a panic ends the trace; it counts against the property of the operation *)
Panic == /\ IsEvent("panic") /\ Chk(Ev.msg, ~Judged(Of([op |-> Ev.of]))) /\ Consume /\ UNCHANGED <<objs, mat>>

(* what an object says in words *)
Strings == /\ IsEvent("strings") /\ Consume /\ UNCHANGED <<objs, mat>>
           /\ LET f == objs[Ev.o]
              IN Chk("values as text", Judged("C17") => /\ Len(Ev.s) = Len(f.cells)
                   /\ \A i \in Cases(f) : IF Miss(f, i) THEN Ev.s[i] = "NA"
                                          ELSE IF f.kind = "num" THEN REq(Ev.num[i], f.cells[i][1]) ELSE Ev.s[i] = f.cells[i][1])
(* the mean or mode of some cases *)
Center == /\ IsEvent("center") /\ Consume /\ UNCHANGED <<objs, mat>>
          /\ LET f == objs[Ev.o]
                 g == [f EXCEPT !.cells = [k \in DOMAIN Ev.cases |-> f.cells[Ev.cases[k]]]]
             IN Chk("mean or mode of the cases", (Judged("C17") /\ Present(g) # {}) =>
                      IF f.kind = "num" THEN MeanOk(g, Ev.v) ELSE MostOk(g, Ev.v))

(* an encoded matrix: for every feature of the original in order the columns that stand for it *)
RECURSIVE Cols(_, _, _)
Cols(fs, gs, kind) ==
  IF fs = <<>> THEN gs = <<>>
  ELSE LET f == Head(fs)
           k == IF f.kind = "num" \/ Len(f.cats) <= 2 THEN 1 ELSE Len(f.cats)
       IN /\ Len(gs) >= k
          /\ IF f.kind = "num" THEN gs[1].name = f.name /\ gs[1].kind = "num" /\ gs[1].cells = f.cells
             ELSE EncodedOk(f, SubSeq(gs, 1, k), kind)
          /\ Cols(Tail(fs), SubSeq(gs, k + 1, Len(gs)), kind)
Matrix == /\ IsEvent("matrix") /\ Consume /\ UNCHANGED <<objs, mat>>
          /\ Chk("the encoded table says something else",
                 Judged("C16") => Cols([k \in DOMAIN Ev.os |-> objs[Ev.os[k]]], Ev.cols, Ev.kind))
          /\ Chk("names lead to other columns", Judged("C16") =>
                   /\ \A k \in DOMAIN Ev.lookup : Ev.cols[Ev.lookup[k][2]].name = Ev.lookup[k][1]
                   /\ {Ev.cols[i].name : i \in DOMAIN Ev.cols} = {Ev.lookup[k][1] : k \in DOMAIN Ev.lookup})
          /\ Chk("case labels", Judged("C16") => Ev.labels = Tr.labels)

(* every value turns up in every place when shuffled often enough *)
Stirred == /\ IsEvent("stirred") /\ Consume /\ UNCHANGED <<objs, mat>>
           /\ Chk("a value that never moves to some place", Judged("C24") =>
                    \A i, j \in 1..Ev.n : \E k \in DOMAIN Ev.orders : Ev.orders[k][i] = j)
           /\ Chk("not permutations", Judged("C24") => \A k \in DOMAIN Ev.orders : {Ev.orders[k][i] : i \in 1..Ev.n} = 1..Ev.n /\ Len(Ev.orders[k]) = Ev.n)

TraceInit == BaseInit /\ objs = Tr.init /\ mat = Tr.matrix0
TraceNext == Operate \/ Panic \/ Strings \/ Center \/ Matrix \/ Stirred \/ (Accept /\ UNCHANGED <<objs, mat>>)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

-------------------------------- MODULE FoldTrace --------------------------------
(***************************************************************************)
(* Runs of nfold (C22).  The specification reads the matrix and every file  *)
(* nfold wrote off their text.  The column N:id, different for every case   *)
(* and never changed by an option, tells whose line it is.                  *)
(***************************************************************************)
EXTENDS TraceBase, Layout

VARIABLES tab, tests, trains
fvars == <<tid, pos, tab, tests, trains>>
O == Tr.opts   \* target, folds, strat, black, maxcats, impute, onehot, num, formats
TraceNum(t) == IF t \in DOMAIN Tr.nums THEN Tr.nums[t] ELSE "nan"
Sized(t) == [t EXCEPT !.cols = TLCEval([j \in DOMAIN @ |-> [name |-> @[j].name, kind |-> @[j].kind, cells |-> @[j].cells,
                                                   ncats |-> IF @[j].kind = "num" THEN 0 ELSE Cardinality(Labels(@[j]))]])]
Kept(t) == [t EXCEPT !.cols = SelectSeq(@, LAMBDA c : /\ c.name \notin (Range1(O.black) \ {O.target})
                                                      /\ O.maxcats = -1 \/ c.ncats <= O.maxcats)]
N == Len(tab.labels)
Has == \E j \in DOMAIN tab.cols : tab.cols[j].name = O.target
Strat == O.strat /\ Has /\ Target(tab, O.target).kind = "cat"
Exit == IsEvent("exit") /\ Chk("nfold failed", Ev.ok) /\ Consume /\ UNCHANGED <<tab, tests, trains>>
File == /\ IsEvent("file") /\ Consume /\ tab' = TLCEval(Kept(Sized(Reading("afm", Ev.text)))) /\ UNCHANGED <<tests, trains>>

(* ---- one feature in the files ------------------------------------------------------- *)
Encoded(f) == (O.num \/ O.onehot) /\ f.kind = "cat" /\ f.name # O.target
Wide(f) == IF Encoded(f) THEN Width(f) ELSE 1
RECURSIVE From(_)
From(k) == IF k = 1 THEN 0 ELSE From(k - 1) + Wide(tab.cols[k - 1])
Starting == [k \in 1..(Len(tab.cols) + 1) |-> From(k)]
ImputedCell(f, c) == IF Known(f) = {} THEN TRUE
                     ELSE c # <<>> /\ IF f.kind = "num" THEN MeanOk(f, c[1]) ELSE c[1] \in Modes(f)
Yes == IF O.num THEN "1" ELSE "true"
No == IF O.num THEN "0" ELSE "false"
(* the columns b of the file hold what feature f says of the cases *)
PlainOk(f, c, cases) ==
  /\ c.name = f.name
  /\ c.kind = f.kind
  /\ \A i \in DOMAIN cases :
       IF f.cells[cases[i]] # <<>> THEN c.cells[i] = f.cells[cases[i]]
       ELSE IF f.name = O.target THEN (c.cells[i] = <<>> /\ TRUE) \/ (O.impute /\ ImputedCell(f, c.cells[i]))
       ELSE IF O.impute THEN ImputedCell(f, c.cells[i]) ELSE c.cells[i] = <<>>
PairOk(f, c, cases) ==
  LET known == {i \in DOMAIN cases : f.cells[cases[i]] # <<>>} IN
  /\ c.name = f.name
  /\ \A i \in known : c.cells[i] # <<>>
  /\ \A i, j \in known : f.cells[cases[i]] = f.cells[cases[j]] <=> c.cells[i] = c.cells[j]
  /\ \A i \in known : IF O.num THEN c.cells[i][1] \in {"0", "1"} ELSE c.cells[i] = f.cells[cases[i]]
  /\ \A i \in (DOMAIN cases) \ known :
       IF ~O.impute THEN c.cells[i] = <<>>
       ELSE \A j \in known : (f.cells[cases[j]][1] \notin Modes(f) => c.cells[i] # c.cells[j]) /\ (Modes(f) = {f.cells[cases[j]][1]} => c.cells[i] = c.cells[j])
ManyOk(f, b, cases) ==
  /\ {b[k].name : k \in DOMAIN b} = {f.name \o "==" \o l : l \in Labels(f)}
  /\ \A i \in DOMAIN cases :
       LET x == f.cells[cases[i]]
           says(l) == \A k \in DOMAIN b : b[k].cells[i] = <<(IF b[k].name = f.name \o "==" \o l THEN Yes ELSE No)>>
       IN IF x # <<>> THEN says(x[1])
          ELSE IF O.impute THEN \E l \in Modes(f) : says(l) ELSE \A k \in DOMAIN b : b[k].cells[i] = <<>>
FeatureOk(k, r, cases) ==
  LET f == tab.cols[k]
      b == SubSeq(r.cols, Starting[k] + 1, Starting[k + 1])
  IN IF ~Encoded(f) THEN PlainOk(f, b[1], cases) ELSE IF Width(f) = 1 THEN PairOk(f, b[1], cases) ELSE ManyOk(f, b, cases)
(* in libSVM files a missing category of an encoded feature is nothing in particular *)
SvmBlock(f, o, r, cases) ==
  IF Encoded(f) /\ ~O.impute
  THEN LET sel == SelectSeq(Upto(Len(cases)), LAMBDA i : f.cells[cases[i]] # <<>>)
       IN BlockOk(f, o, [r EXCEPT !.cols = [j \in DOMAIN @ |-> [@[j] EXCEPT !.cells = [i \in DOMAIN sel |-> @[sel[i]]]]]], [i \in DOMAIN sel |-> cases[sel[i]]])
  ELSE BlockOk(f, o, r, cases)

(* ---- whose lines ---------------------------------------------------------------------- *)
IdCol == CHOOSE k \in DOMAIN tab.cols : tab.cols[k].name = "N:id"
IdIn(fmt, r) == IF fmt = "svm"
                THEN LET fs == Others(tab, O.target)
                         k == CHOOSE k \in DOMAIN fs : fs[k].name = "N:id"
                     IN r.cols[Offset(fs, k) + 2].cells
                ELSE r.cols[Starting[IdCol] + 1].cells
Who(cell) == LET S == {c \in 1..N : tab.cols[IdCol].cells[c] = cell} IN IF S = {} THEN 0 ELSE CHOOSE c \in S : TRUE
Broad(fmt, r) == IF fmt = "svm" THEN r.labels = <<>> \/ Len(r.cols) >= 2 ELSE Len(r.cols) = Starting[Len(tab.cols) + 1]
IdFits(fmt, r) == fmt = "svm" /\ r.labels # <<>> =>
                    LET fs == Others(tab, O.target)
                        k == CHOOSE k \in DOMAIN fs : fs[k].name = "N:id"
                    IN Len(r.cols) >= Offset(fs, k) + 2
CasesOf(fmt, r) == IF r.labels = <<>> THEN <<>> ELSE LET ids == IdIn(fmt, r) IN [i \in DOMAIN ids |-> Who(ids[i])]
(* the class a test file gives its cases *)
ClassesIn(fmt, r) == IF r.labels = <<>> THEN <<>>
                     ELSE IF fmt = "svm" THEN r.cols[1].cells
                     ELSE IF ~Has THEN [i \in DOMAIN r.labels |-> <<>>]
                     ELSE r.cols[Starting[CHOOSE k \in DOMAIN tab.cols : tab.cols[k].name = O.target] + 1].cells
NoTarget(x) == x = <<>> \/ (O.impute /\ ImputedCell(Target(tab, O.target), x))
Faithful(what, fmt, r, cases) ==
  /\ Chk(what \o ": lines of cases that are none", \A i \in DOMAIN cases : cases[i] # 0)
  /\ IF fmt = "svm"
     THEN LET fs == Others(tab, O.target) IN
          /\ Chk(what \o ": values in libSVM", \A k \in DOMAIN fs : cases # <<>> => SvmBlock(fs[k], Offset(fs, k), r, cases))
          /\ Chk(what \o ": target in libSVM", SvmTargetOk(tab, O.target, cases, r, NoTarget))
     ELSE /\ Chk(what \o ": values", \A k \in DOMAIN tab.cols : FeatureOk(k, r, cases))
          /\ Chk(what \o ": case labels", fmt = "afm" => r.labels = [i \in DOMAIN cases |-> tab.labels[cases[i]]])
Fold == /\ IsEvent("fold") /\ Consume /\ UNCHANGED tab
        /\ LET a == TLCEval(Reading(Ev.fmt, Ev.test))
               b == TLCEval(Reading(Ev.fmt, Ev.train))
           IN /\ Chk("columns", Broad(Ev.fmt, a) /\ Broad(Ev.fmt, b) /\ IdFits(Ev.fmt, a) /\ IdFits(Ev.fmt, b))
              /\ LET ca == TLCEval(CasesOf(Ev.fmt, a))
                     cb == TLCEval(CasesOf(Ev.fmt, b))
                 IN /\ Faithful("test", Ev.fmt, a, ca) /\ Faithful("train", Ev.fmt, b, cb)
                    /\ tests' = Append(tests, [i |-> Ev.i, fmt |-> Ev.fmt, cases |-> ca, class |-> ClassesIn(Ev.fmt, a)])
                    /\ trains' = Append(trains, [i |-> Ev.i, fmt |-> Ev.fmt, cases |-> cb])

(* ---- all folds together ------------------------------------------------------------------ *)
Must == IF Strat THEN Known(Target(tab, O.target)) ELSE 1..N
May == IF Strat /\ ~O.impute THEN Must ELSE 1..N
Of(s, fmt) == SelectSeq(s, LAMBDA x : x.fmt = fmt)
Occurs(s, c) == Cardinality({<<k, i>> \in UNION {{<<k, i>> : i \in DOMAIN s[k].cases} : k \in DOMAIN s} : s[k].cases[i] = c})
Set(x) == Range1(x.cases)
ClassSize(x, l) == Cardinality({i \in DOMAIN x.class : x.class[i] = l})
AllClasses(s) == UNION {Range1(s[k].class) : k \in DOMAIN s}
Done == /\ IsEvent("done") /\ Consume /\ UNCHANGED <<tab, tests, trains>>
        /\ \A fmt \in Range1(O.formats) :
             LET te == Of(tests, fmt)
                 tr == Of(trains, fmt)
             IN /\ Chk("a fold missing", [k \in DOMAIN te |-> te[k].i] = Upto(O.folds))
                /\ Chk("cases tested exactly once", \A c \in 1..N : Occurs(te, c) \in (IF c \in Must THEN {1} ELSE IF c \in May THEN {0, 1} ELSE {0}))
                /\ Chk("trained on every other fold", \A k \in DOMAIN te : \A c \in 1..N :
                         Cardinality({i \in DOMAIN tr[k].cases : tr[k].cases[i] = c}) = IF Occurs(te, c) = 1 /\ c \notin Set(te[k]) THEN 1 ELSE 0)
                /\ Chk("fold sizes", IF Strat THEN \A l \in AllClasses(te) : \A j, k \in DOMAIN te : ClassSize(te[j], l) <= ClassSize(te[k], l) + 1
                                     ELSE \A j, k \in DOMAIN te : Len(te[j].cases) <= Len(te[k].cases) + 1)
                /\ Chk("the formats differ in their folds", \A k \in DOMAIN te : Set(te[k]) = Set(Of(tests, O.formats[1])[k]))

TraceInit == BaseInit /\ tab = [cols |-> <<>>, labels |-> <<>>] /\ tests = <<>> /\ trains = <<>>
TraceNext == Exit \/ File \/ Fold \/ Done \/ (Accept /\ UNCHANGED <<tab, tests, trains>>)
TraceSpec == TraceInit /\ [][TraceNext]_fvars
================================================================================

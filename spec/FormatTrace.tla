------------------------------- MODULE FormatTrace -------------------------------
(***************************************************************************)
(* Files read and written by the library and by toafm (C14).  What a file   *)
(* says is read off its text by the specification itself.                   *)
(*   file    a text whose table is the one at hand from now on               *)
(*   parse   a text and the table the library made of it                     *)
(*   write   cases of the table at hand written in a format                  *)
(*   toafm   the output of toafm for the table at hand                       *)
(***************************************************************************)
EXTENDS TraceBase, Layout

VARIABLE tab
fvars == <<tid, pos, tab>>
TraceNum(t) == IF t \in DOMAIN Tr.nums THEN Tr.nums[t] ELSE "nan"

(* the number of labels of a column, for encodings *)
Sized(t) == [t EXCEPT !.cols = TLCEval([j \in DOMAIN @ |-> [name |-> @[j].name, kind |-> @[j].kind, cells |-> @[j].cells,
                                                   ncats |-> IF @[j].kind = "num" THEN 0 ELSE Cardinality(Labels(@[j]))]])]
Panic == /\ IsEvent("panic") /\ Chk(Ev.msg, FALSE) /\ Consume /\ UNCHANGED tab
File == IsEvent("file") /\ Consume /\ tab' = TLCEval(Sized(Reading(Ev.fmt, Ev.text)))
Parse == /\ IsEvent("parse") /\ Consume
         /\ IF Ev.again /\ ~Expresses(Ev.fmt, tab) THEN UNCHANGED tab ELSE
            LET r == TLCEval(Reading(Ev.fmt, Ev.text)) IN
            /\ Chk("number of features", Len(Ev.table.cols) = Len(r.cols))
            /\ Chk("names and types", \A j \in DOMAIN r.cols : Ev.table.cols[j].name = r.cols[j].name /\ Ev.table.cols[j].kind = r.cols[j].kind)
            /\ Chk("case labels", Ev.table.labels = r.labels)
            /\ Chk("values", \A j \in DOMAIN r.cols : SameCells(Ev.table.cols[j].cells, r.cols[j].cells))
            /\ Chk("names lead to other features", Range1(Ev.table.lookup) = {<<r.cols[j].name, j>> : j \in DOMAIN r.cols})
            /\ tab' = IF Ev.keep THEN Sized(r) ELSE tab
Write == /\ IsEvent("write") /\ Consume /\ UNCHANGED tab
         /\ LET want == TLCEval(Only(tab, Ev.cases)) IN
            Expresses(Ev.fmt, tab) =>
              LET r == TLCEval(Reading(Ev.fmt, Ev.text)) IN
              IF Ev.fmt = "svm"
              THEN /\ Chk("a line for every case, a column for every value", SvmRowsOk(tab, Ev.target, Ev.cases, r))
                   /\ Chk("target values", SvmTargetOk(tab, Ev.target, Ev.cases, r, LAMBDA x : x = <<>>))
              ELSE /\ Chk("case labels written", r.labels = IF Ev.fmt = "afm" THEN want.labels ELSE Counted(Len(Ev.cases)))
                   /\ Chk("features written", Len(r.cols) = Len(want.cols) /\ \A j \in DOMAIN r.cols : r.cols[j].name = want.cols[j].name /\ r.cols[j].kind = want.cols[j].kind)
                   /\ Chk("values written", \A j \in DOMAIN r.cols : SameCells(r.cols[j].cells, want.cols[j].cells))
Toafm == /\ IsEvent("toafm") /\ Consume /\ UNCHANGED tab
         /\ Chk("toafm failed", Ev.ok)
         /\ LET t == TLCEval(Without(tab, Range1(Ev.black) \ {Ev.svm, Ev.anon}))
            IN IF Ev.svm # ""
               THEN LET r == TLCEval(Reading("svm", Ev.text)) IN
                    /\ Chk("libSVM lines and columns", SvmRowsOk(t, Ev.svm, Upto(Len(t.labels)), r))
                    /\ Chk("libSVM target", SvmTargetOk(t, Ev.svm, Upto(Len(t.labels)), r, LAMBDA x : x = <<>>))
               ELSE LET r == TLCEval(Reading("afm", Ev.text)) IN
                    IF Ev.anon # "" THEN Chk("anonymous table", AnonOk(t, Ev.anon, r))
                    ELSE /\ Chk("toafm: case labels", r.labels = t.labels)
                         /\ Chk("toafm: features", SameCols(r.cols, Annotated(t).cols))

TraceInit == BaseInit /\ tab = [cols |-> <<>>, labels |-> <<>>]
TraceNext == Panic \/ File \/ Parse \/ Write \/ Toafm \/ (Accept /\ UNCHANGED tab)
TraceSpec == TraceInit /\ [][TraceNext]_fvars
================================================================================

-------------------------------- MODULE FormatMC --------------------------------
(***************************************************************************)
(* Tables are written in one of the formats and read back character by      *)
(* character; what comes back is what was written.  Variant is "ok" or a    *)
(* way of getting it wrong.                                                  *)
(***************************************************************************)
EXTENDS Format
CONSTANTS NumVals, CatVals, Variant
VARIABLES tab, fmt, head, text, pos, st, out
vars == <<tab, fmt, head, text, pos, st, out>>

NumText(v) == CASE v = "3/2" -> "1.5" [] v = "-10" -> "-10" [] OTHER -> "0"
NumHere(t) == CASE t = "1.5" -> "3/2" [] t = "-10" -> "-10" [] t = "0" -> "0" [] OTHER -> "nan"

SomeVals == {"a", "7", " d\"e,"}
MoreVals == SomeVals \cup {"b\tc", "p\nq", "%"}
OddVals == {"a", "\"d"}

Names == {"N:x", "N:x's y"}
NumCol == [name |-> "N:x", kind |-> "num", cells |-> <<>>]
CatCol == [name |-> "C:k", kind |-> "cat", cells |-> <<>>]
Values(S) == {<<>>} \cup {<<v>> : v \in S}
Tables == {[cols |-> IF o THEN <<[NumCol EXCEPT !.cells = a, !.name = nm], [CatCol EXCEPT !.cells = b]>> ELSE <<[CatCol EXCEPT !.cells = b], [NumCol EXCEPT !.cells = a, !.name = nm]>>,
            labels |-> <<"s 1", "s2">>] : a \in [1..2 -> Values(NumVals)], b \in [1..2 -> Values(CatVals)], o \in BOOLEAN, nm \in Names}

(* ---- writers ------------------------------------------------------------------------ *)
Doubled(s) == FoldLeft(LAMBDA a, i : a \o (IF At(s, i) = "\"" THEN "\"\"" ELSE At(s, i)), "", Upto(Len(s)))
Quoted(s, comma) == IF Variant # "rawquotes" /\ (HasChar(s, comma) \/ HasChar(s, "\"") \/ HasChar(s, "\n") \/ Starts(s, " ") \/ Starts(s, "%"))
                    THEN "\"" \o Doubled(s) \o "\"" ELSE s
Join(fs, comma) == FoldLeft(LAMBDA a, i : IF i = 1 THEN Quoted(fs[i], comma) ELSE a \o comma \o Quoted(fs[i], comma), "", Upto(Len(fs)))
Text(c, i, na) == IF c.cells[i] = <<>> THEN na ELSE IF c.kind = "num" THEN NumText(c.cells[i][1]) ELSE c.cells[i][1]
Rows(t, na) == <<(<<".">> \o t.labels)>> \o [j \in DOMAIN t.cols |-> <<t.cols[j].name>> \o [i \in DOMAIN t.labels |-> Text(t.cols[j], i, na)]]
Turned(rows) == [i \in DOMAIN rows[1] |-> [j \in DOMAIN rows |-> rows[j][i]]]
Data(t, na) == [i \in DOMAIN t.labels |-> [j \in DOMAIN t.cols |-> Text(t.cols[j], i, na)]]
SvmRow(t, i) == <<IF t.cols[1].kind = "num" THEN NumText(t.cols[1].cells[i][1]) \o (IF HasChar(NumText(t.cols[1].cells[i][1]), ".") THEN "" ELSE ".0")
                  ELSE t.cols[1].cells[i][1]>>
                \o (IF t.cols[2].cells[i][1] = "0" THEN <<>> ELSE <<(IF Variant = "zerobased" THEN "0:" ELSE "1:") \o NumText(t.cols[2].cells[i][1])>>)
(* libSVM knows no missing values; the target comes first and, here, one number follows *)
Fits(t, f) == IF f # "svm" THEN TRUE
              ELSE /\ t.cols[2].kind = "num"
                   /\ \A j \in 1..2, i \in 1..2 : t.cols[j].cells[i] # <<>>
                   /\ \A i \in 1..2 : t.cols[1].cells[i][1] = "a" \/ t.cols[1].cells[i][1] = "7"
Written(t, f, na) ==
  CASE f = "afm" -> [i \in 1..Len(Rows(t, na)) |-> Join(Rows(t, na)[i], "\t")]
    [] f = "afmcols" -> [i \in 1..3 |-> Join(Turned(Rows(t, na))[i], "\t")]
    [] f = "arff" -> [i \in 1..2 |-> Join(Data(t, na)[i], ",")]
    [] OTHER -> [i \in 1..2 |-> Join(SvmRow(t, i), " ")]
Final(ls, nl) == IF nl THEN Joined(ls) ELSE LET s == Joined(ls) IN SubSeq(s, 1, Len(s) - 1)
ArffName(n) == IF Variant = "rawnames" \/ Words(n) = <<n>> THEN n
               ELSE "'" \o FoldLeft(LAMBDA a, i : a \o (IF At(n, i) = "'" THEN "\\'" ELSE At(n, i)), "", Upto(Len(n))) \o "'"
Header(t) == <<"@RELATION r", "">> \o [j \in DOMAIN t.cols |-> "@ATTRIBUTE " \o ArffName(t.cols[j].name) \o (IF t.cols[j].kind = "num" THEN " NUMERIC" ELSE " {a,b c}")]
             \o <<"", "@DATA">>

Comma == CASE fmt = "arff" -> "," [] fmt = "svm" -> " " [] OTHER -> "\t"
Init == /\ tab \in Tables /\ fmt \in {"afm", "afmcols", "arff", "svm"} /\ Fits(tab, fmt)
        /\ head = IF fmt = "arff" THEN Header(tab) ELSE <<>>
        /\ \E na \in {"", "NA", "nAn", "?"}, nl \in BOOLEAN :
              /\ text = TLCEval(Final(Written(tab, fmt, na), nl))
              /\ (\A j \in 1..2, i \in 1..2 : tab.cols[j].cells[i] # <<>>) => na = "NA"
        /\ pos = 1 /\ st = CsvStart /\ out = <<>>
Read == /\ pos <= Len(text) /\ out = <<>>
        /\ st' = LET s == CsvStep(st, At(text, pos), Comma, fmt = "arff")
                 IN IF Variant = "blankskipped" /\ st.m = "start" /\ At(text, pos) = Comma THEN st ELSE s
        /\ pos' = pos + 1 /\ UNCHANGED <<tab, fmt, head, text, out>>
Records == IF Variant = "nofinal" THEN st.rs ELSE CsvEnd(st)
AfmRead(rs) == IF Variant = "sniffless" THEN [cols |-> [j \in 1..(Len(rs) - 1) |-> Column(rs[j + 1][1], KindOf(rs[j + 1][1]), Tail(rs[j + 1]))], labels |-> Tail(rs[1])]
               ELSE AfmTable(rs)
Finish == /\ pos > Len(text) /\ out = <<>>
          /\ out' = <<CASE fmt = "arff" -> ArffTable(ArffAttr(head, ArffHeader(head)), Records)
                       [] fmt = "svm" -> SvmTable(Records)
                       [] OTHER -> AfmRead(Records)>>
          /\ UNCHANGED <<tab, fmt, head, text, pos, st>>
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars

CellsOf(t) == [j \in DOMAIN t.cols |-> t.cols[j].cells]
RoundTrip == out # <<>> =>
  LET r == out[1]
  IN IF fmt = "svm"
     THEN /\ Len(r.labels) = 2 /\ r.cols[1].kind = tab.cols[1].kind /\ r.cols[1].cells = tab.cols[1].cells
          /\ IF Len(r.cols) = 1 THEN tab.cols[2].cells = <<(<<"0">>), (<<"0">>)>> ELSE Len(r.cols) = 2 /\ r.cols[2].cells = tab.cols[2].cells
     ELSE r.cols = tab.cols /\ (fmt = "arff" \/ r.labels = tab.labels)
(* a record per line, whatever the line holds *)
LineByLine == Len(st.rs) = Cardinality({i \in 1..(pos - 1) : At(text, i) = "\n" /\ Cardinality({j \in 1..(i - 1) : At(text, j) = "\""}) % 2 = 0})
================================================================================

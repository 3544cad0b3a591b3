---------------------------------- MODULE Format ----------------------------------
(***************************************************************************)
(* What a text says: AFM in either orientation, ARFF and libSVM, read       *)
(* character by character into a table                                      *)
(*   [cols |-> << [name, kind, cells] >>, labels |-> << >>]                 *)
(* where a cell is <<v>>, or <<>> when the value is missing.  NumOf(t) is   *)
(* the number a text denotes (an exact rational), "nan" if it is none.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
CONSTANT NumOf(_)

At(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> At(s, i)]
Upto(n) == [i \in 1..n |-> i]
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Big == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Small == "abcdefghijklmnopqrstuvwxyz"
Low == [c \in {At(Big, i) : i \in 1..26} |-> At(Small, CHOOSE i \in 1..26 : At(Big, i) = c)]
LowChar(c) == IF c \in DOMAIN Low THEN Low[c] ELSE c
Lower(s) == FoldLeft(LAMBDA a, i : a \o LowChar(At(s, i)), "", Upto(Len(s)))
White(c) == c \in {" ", "\t", "\r"}
HasChar(s, c) == \E i \in 1..Len(s) : At(s, i) = c

(* ---- lines and words -------------------------------------------------------------- *)
CutLine(a, c) == IF c = "\n" THEN [done |-> Append(a.done, a.cur), cur |-> ""]
                 ELSE IF c = "\r" THEN a ELSE [a EXCEPT !.cur = @ \o c]
Lines(t) == LET a == FoldLeft(LAMBDA b, i : CutLine(b, At(t, i)), [done |-> <<>>, cur |-> ""], Upto(Len(t)))
            IN IF a.cur = "" THEN a.done ELSE Append(a.done, a.cur)
CutWord(a, c) == IF White(c) THEN IF a.cur = "" THEN a ELSE [done |-> Append(a.done, a.cur), cur |-> ""]
                 ELSE [a EXCEPT !.cur = @ \o c]
Words(t) == LET a == FoldLeft(LAMBDA b, i : CutWord(b, At(t, i)), [done |-> <<>>, cur |-> ""], Upto(Len(t)))
            IN IF a.cur = "" THEN a.done ELSE Append(a.done, a.cur)

(* ---- separated values, as a machine over characters --------------------------------- *)
(* m  where in a field: "start", "in", within quotes "quoted", after a quote in quotes "quote", "comment" *)
(* f  the field so far, r the record so far, rs the records *)
CsvStart == [m |-> "start", f |-> "", r |-> <<>>, rs |-> <<>>]
EndField(s) == [s EXCEPT !.m = "start", !.f = "", !.r = Append(@, s.f)]
EndRecord(s) == [m |-> "start", f |-> "", r |-> <<>>, rs |-> Append(s.rs, Append(s.r, s.f))]
CsvStep(s, c, comma, arff) ==
  IF c = "\r" THEN s
  ELSE CASE s.m = "comment" -> IF c = "\n" THEN [s EXCEPT !.m = "start"] ELSE s
    [] s.m = "start" -> IF c = comma THEN EndField(s)
                        ELSE IF c = "\n" THEN IF s.r = <<>> THEN s ELSE EndRecord(s)
                        ELSE IF c = "\"" THEN [s EXCEPT !.m = "quoted"]
                        ELSE IF arff /\ White(c) THEN s
                        ELSE IF arff /\ c = "%" /\ s.r = <<>> THEN [s EXCEPT !.m = "comment"]
                        ELSE [s EXCEPT !.m = "in", !.f = c]
    [] s.m = "in" -> IF c = comma THEN EndField(s) ELSE IF c = "\n" THEN EndRecord(s) ELSE [s EXCEPT !.f = @ \o c]
    [] s.m = "quoted" -> IF c = "\"" THEN [s EXCEPT !.m = "quote"] ELSE [s EXCEPT !.f = @ \o c]
    [] OTHER -> IF c = "\"" THEN [s EXCEPT !.m = "quoted", !.f = @ \o "\""]
                ELSE IF c = comma THEN EndField(s) ELSE IF c = "\n" THEN EndRecord(s) ELSE [s EXCEPT !.f = @ \o c]
CsvEnd(s) == IF s.m = "comment" \/ (s.m = "start" /\ s.r = <<>>) THEN s.rs ELSE EndRecord(s).rs
Csv(t, comma, arff) == CsvEnd(FoldLeft(LAMBDA s, i : CsvStep(s, At(t, i), comma, arff), CsvStart, Upto(Len(t))))

(* ---- values ------------------------------------------------------------------------ *)
Blank(v) == Len(v) <= 4 /\ Lower(v) \in {"", "?", "nan", "na", "null"}
Cell(kind, v) == IF kind = "num" THEN IF NumOf(v) = "nan" THEN <<>> ELSE <<NumOf(v)>>
                 ELSE IF Blank(v) THEN <<>> ELSE <<v>>
KindOf(name) == IF Starts(name, "N:") THEN "num" ELSE "cat"
Column(name, kind, vals) == [name |-> name, kind |-> kind, cells |-> TLCEval([i \in DOMAIN vals |-> Cell(kind, vals[i])])]
Counted(n) == [i \in 1..n |-> ToString(i - 1)]

(* ---- AFM ----------------------------------------------------------------------------- *)
InColumns(rs) == Len(rs) > 0 /\ Len(rs[1]) > 1 /\ \E p \in {"N:", "C:", "B:"} : Starts(rs[1][2], p)
AfmTable(rs) ==
  IF rs = <<>> THEN [cols |-> <<>>, labels |-> <<>>]
  ELSE IF InColumns(rs)
  THEN [cols |-> TLCEval([j \in 1..(Len(rs[1]) - 1) |-> Column(rs[1][j + 1], KindOf(rs[1][j + 1]), [i \in 1..(Len(rs) - 1) |-> rs[i + 1][j + 1]])]),
        labels |-> [i \in 1..(Len(rs) - 1) |-> rs[i + 1][1]]]
  ELSE [cols |-> TLCEval([j \in 1..(Len(rs) - 1) |-> Column(rs[j + 1][1], KindOf(rs[j + 1][1]), Tail(rs[j + 1]))]), labels |-> Tail(rs[1])]
Afm(t) == AfmTable(Csv(t, "\t", FALSE))

(* ---- ARFF ---------------------------------------------------------------------------- *)
Keyword(l, w) == Len(l) >= Len(w) /\ Lower(SubSeq(l, 1, Len(w))) = w
ArffHeader(ls) == SelectInSeq(ls, LAMBDA l : Keyword(l, "@data"))   \* the first such line

(* a declaration: @attribute, a name that may be quoted, and a type *)
RECURSIVE SkipWhite(_)
SkipWhite(t) == IF t # "" /\ White(At(t, 1)) THEN SkipWhite(SubSeq(t, 2, Len(t))) ELSE t
QuotedName(t) == FoldLeft(LAMBDA a, i : LET c == At(t, i) IN
                    IF a.m = "end" THEN [a EXCEPT !.rest = @ \o c]
                    ELSE IF a.m = "escaped" THEN [a EXCEPT !.m = "in", !.name = @ \o c]
                    ELSE IF c = "\\" THEN [a EXCEPT !.m = "escaped"]
                    ELSE IF c = At(t, 1) THEN [a EXCEPT !.m = "end"]
                    ELSE [a EXCEPT !.name = @ \o c],
                  [m |-> "in", name |-> "", rest |-> ""], [i \in 1..(Len(t) - 1) |-> i + 1])
Typed(name, t) == [name |-> name, kind |-> IF Lower(t) \in {"numeric", "real", "integer"} THEN "num" ELSE "cat"]
Attribute(l) == LET t == SkipWhite(SubSeq(l, Len("@attribute") + 1, Len(l)))
                IN IF At(t, 1) \in {"'", "\""} THEN Typed(QuotedName(t).name, Words(QuotedName(t).rest)[1])
                   ELSE Typed(Words(t)[1], Words(t)[2])
ArffAttr(ls, k) == LET a == SelectSeq(SubSeq(ls, 1, k), LAMBDA l : Keyword(l, "@attribute"))
                   IN TLCEval([j \in DOMAIN a |-> TLCEval(Attribute(a[j]))])
ArffTable(attr, rs) == [cols |-> TLCEval([j \in DOMAIN attr |-> Column(attr[j].name, attr[j].kind, [i \in DOMAIN rs |-> rs[i][j]])]),
                        labels |-> Counted(Len(rs))]
Joined(ls) == FoldLeft(LAMBDA a, i : a \o ls[i] \o "\n", "", Upto(Len(ls)))
Arff(t) == LET ls == Lines(t)
               k == ArffHeader(ls)
           IN ArffTable(ArffAttr(ls, k), Csv(Joined(SubSeq(ls, k + 1, Len(ls))), ",", TRUE))

(* ---- libSVM ---------------------------------------------------------------------------- *)
(* a word  index:value  apart *)
Colon(w) == CHOOSE i \in 1..Len(w) : At(w, i) = ":"
NatOf(s) == FoldLeft(LAMBDA a, i : 10 * a + (CHOOSE d \in 0..9 : ToString(d) = At(s, i)), 0, Upto(Len(s)))
Pair(w) == [at |-> NatOf(SubSeq(w, 1, Colon(w) - 1)), v |-> SubSeq(w, Colon(w) + 1, Len(w))]
SvmTable(ws) ==
  LET n == Len(ws)
      pairs == TLCEval([i \in 1..n |-> TLCEval([k \in 1..(Len(ws[i]) - 1) |-> TLCEval(Pair(ws[i][k + 1]))])])
      all == {0} \cup {pairs[i][k].at : <<i, k>> \in UNION {{<<i, k>> : k \in DOMAIN pairs[i]} : i \in 1..n}}
      width == CHOOSE m \in all : \A x \in all : x <= m
      val(i, j) == LET S == {k \in DOMAIN pairs[i] : pairs[i][k].at = j}
                   IN IF S = {} THEN "0" ELSE pairs[i][CHOOSE k \in S : \A x \in S : x <= k].v
      kind == IF HasChar(ws[1][1], ".") THEN "num" ELSE "cat"
  IN IF n = 0 THEN [cols |-> <<>>, labels |-> <<>>]
     ELSE [cols |-> TLCEval([j \in 1..(width + 1) |-> IF j = 1 THEN Column("0", kind, [i \in 1..n |-> ws[i][1]])
                                              ELSE Column(ToString(j - 1), "num", [i \in 1..n |-> val(i, j - 1)])]),
           labels |-> Counted(n)]
Svm(t) == LET ls == Lines(t)
          IN SvmTable(SelectSeq(TLCEval([i \in DOMAIN ls |-> Words(ls[i])]), LAMBDA w : w # <<>>))

Reading(fmt, t) == CASE fmt = "afm" -> Afm(t) [] fmt = "arff" -> Arff(t) [] OTHER -> Svm(t)

(* ---- relations between tables -------------------------------------------------------------- *)
Only(tab, cases) == [cols |-> TLCEval([j \in DOMAIN tab.cols |-> [tab.cols[j] EXCEPT !.cells = TLCEval([i \in DOMAIN cases |-> tab.cols[j].cells[cases[i]]])]]),
                     labels |-> [i \in DOMAIN cases |-> tab.labels[cases[i]]]]
================================================================================

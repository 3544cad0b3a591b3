------------------------------- MODULE ApplyTrace -------------------------------
(***************************************************************************)
(* Runs of applyforest and leafcount on saved forests (C21, C23).  The      *)
(* specification routes every case of the data through every tree of the    *)
(* files itself.  Tr.mode is the way votes are to be tallied: "cat", "num"  *)
(* or "sum".                                                                *)
(***************************************************************************)
EXTENDS TraceBase, Ballot, Routing

VARIABLES box, ends, path
avars == <<tid, pos, box, ends, path, tree, data, todo, arrived, dropped>>
Unused == /\ tree = <<>> /\ data = <<>> /\ todo = <<>> /\ arrived = <<>> /\ dropped = {}
Rest == UNCHANGED <<tree, data, todo, arrived, dropped>>
Same == Rest /\ UNCHANGED <<box, ends, path>>
N == Tr.n
WeightOf(e) == IF e.weight = "none" THEN "1" ELSE e.weight

Exit == /\ IsEvent("exit") /\ Consume /\ Same
        /\ Chk("the run did not finish", ~Ev.hung)
        /\ Chk("a data race", ~Ev.race)
        /\ Chk("the run failed", Ev.ok)

(* the nodes a case passes on its way, the last one included *)
RECURSIVE Passed(_, _, _)
Passed(nodes, c, i) ==
  LET nd == nodes[i]
  IN IF nd.kind = "leaf" THEN <<i>>
     ELSE LET k == ChildOn(nd, Side(nd, Tr.cols, c)) IN IF k = 0 THEN <<i>> ELSE <<i>> \o Passed(nodes, c, k)
SplitOn(nodes, p, f) == Cardinality({j \in DOMAIN p : nodes[p[j]].kind # "leaf" /\ nodes[p[j]].feat = f})
Names == [f \in DOMAIN Tr.cols |-> Tr.cols[f].name]

Tree == /\ IsEvent("tree") /\ Consume /\ Rest
        /\ box' = IF Tr.judge = "apply"
                  THEN TLCEval([c \in 1..N |-> LET p == PredOf(Ev.nodes, Tr.cols, c)
                                               IN IF p = <<>> THEN box[c] ELSE CastVote(Tr.mode, box, c, p[1], WeightOf(Ev))[c]])
                  ELSE box
        /\ ends' = IF Tr.judge = "leaves" THEN Append(ends, TLCEval([c \in 1..N |-> Route(Ev.nodes, Tr.cols, c)])) ELSE ends
        /\ path' = IF Tr.judge = "leaves"
                   THEN TLCEval([c \in 1..N |-> LET p == Passed(Ev.nodes, c, 1)
                                                IN [f \in DOMAIN Names |-> path[c][f] + SplitOn(Ev.nodes, p, Names[f])]])
                   ELSE path

(* ---- applyforest ------------------------------------------------------------- *)
Expit(x) == RDiv("1", RAdd("1", RExp(RNeg(RRound(x)))))
Sum(c) == RAdd(Tr.intercept, box[c].s)
RowOk(c, r) ==
  IF Tr.mode = "cat" THEN TallyOk("cat", box, c, r)
  ELSE IF Tr.mode = "num" /\ Tr.intercept = "0" THEN TallyOk("num", box, c, r)
  ELSE IF Tr.mode = "num"      (* the mean forced on an additive forest comes on top of its intercept *)
  THEN IF ~Voted(box, c)     (* and a case no tree votes for has the intercept, or nothing *)
       THEN RIsNum(r) => RClose(r, IF Tr.expit THEN Expit(Tr.intercept) ELSE Tr.intercept, Tol, "1e-7")
       ELSE IF RFinite(NumTally("num", box, c))
       THEN LET x == RAdd(Tr.intercept, NumTally("num", box, c)) IN RIsNum(r) /\ RClose(r, IF Tr.expit THEN Expit(x) ELSE x, Tol, "1e-7")
       ELSE ~RIsNum(r)
  ELSE /\ RIsNum(r)
       /\ IF Tr.expit THEN RClose(r, Expit(Sum(c)), "1e-9", "1e-7") ELSE RClose(r, Sum(c), RMul(Tol, RAdd("1", box[c].abs)), Tol)
Preds == /\ IsEvent("preds") /\ Consume /\ Same
         /\ Chk("a row for every case in order", [i \in DOMAIN Ev.rows |-> Ev.rows[i][1]] = Tr.labels)
         /\ Chk("prediction", \A c \in 1..N : RowOk(c, Ev.rows[c][2]))
         /\ Chk("actual value", \A c \in 1..N :
                IF Tr.target = <<>> \/ Tr.target[1].miss[c] THEN Ev.rows[c][3] = "NA"
                ELSE IF Tr.target[1].kind = "num" THEN REq(Ev.rows[c][3], Tr.target[1].val[c]) ELSE Ev.rows[c][3] = Tr.target[1].val[c])
Votes == /\ IsEvent("votes") /\ Consume /\ Same
         /\ Chk("one column per label", \A i, j \in DOMAIN Ev.labels : i # j => Ev.labels[i] # Ev.labels[j])
         /\ Chk("a row for every case in order", [i \in DOMAIN Ev.rows |-> Ev.rows[i].case] = Tr.labels)
         /\ Chk("votes of a case", \A c \in 1..N :
                /\ Len(Ev.rows[c].votes) = Len(Ev.labels)
                /\ \A i \in DOMAIN Ev.labels : RClose(Ev.rows[c].votes[i], LabelSum(box[c].lab, Ev.labels[i]), Tol, Tol)
                /\ \A k \in DOMAIN box[c].lab : InSeq(box[c].lab[k][1], Ev.labels))
Error == /\ IsEvent("error") /\ Consume /\ Same
         /\ Chk("reported error",
                CASE Tr.mode = "cat" -> BalancedOk(box, Tr.target[1], Ev.e)
                  [] Tr.mode = "num" -> LET col == Tr.target[1]
                                        IN \/ Scored(box, col) = {} \/ Variance(col) = "0"
                                           \/ RClose(RMul(Ev.e, Variance(col)), SqErr(box, col), Tol, "1/10000000")
                  [] OTHER -> TRUE)

(* ---- leafcount ------------------------------------------------------------------ *)
Together(c, d) == Cardinality({t \in DOMAIN ends : ends[t][c] # 0 /\ ends[t][c] = ends[t][d]})
Once(rows) == \A i, j \in DOMAIN rows : i # j => <<rows[i][1], rows[i][2]>> # <<rows[j][1], rows[j][2]>>
Given(rows, a, b) == LET S == {i \in DOMAIN rows : rows[i][1] = a /\ rows[i][2] = b}
                     IN IF S = {} THEN 0 ELSE rows[CHOOSE i \in S : TRUE][3]
Leaves == /\ IsEvent("leaves") /\ Consume /\ Same
          /\ Chk("a pair of cases listed twice", Once(Ev.rows))
          /\ Chk("a pair of cases that are none", \A i \in DOMAIN Ev.rows : Ev.rows[i][1] \in 1..N /\ Ev.rows[i][2] \in 1..N)
          /\ Chk("how often two cases share a leaf", \A c, d \in 1..N : Given(Ev.rows, c, d) = Together(c, d))
Branches == /\ IsEvent("branches") /\ Consume /\ Same
            /\ Chk("a case and feature listed twice", Once(Ev.rows))
            /\ Chk("a case or feature that is none", \A i \in DOMAIN Ev.rows : Ev.rows[i][1] \in 1..N /\ Ev.rows[i][2] \in DOMAIN Names)
            /\ Chk("how often a case passes a split", \A c \in 1..N, f \in DOMAIN Names : Given(Ev.rows, c, f) = path[c][f])
(* what the trees split on, as the file lists it: numbers, and sets of categories *)
Trees == SelectSeq(Tr.ev, LAMBDA e : e.op = "tree")
RECURSIVE SumUp(_, _)
SumUp(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumUp(s, k - 1)
NumTotal(f, v) == SumUp([t \in DOMAIN Trees |-> Cardinality({i \in DOMAIN Trees[t].nodes :
                     LET x == Trees[t].nodes[i] IN x.kind = "num" /\ x.feat = f /\ REq(x.value, v)})], Len(Trees))
CatTotal(f, s) == SumUp([t \in DOMAIN Trees |-> Cardinality({i \in DOMAIN Trees[t].nodes :
                     LET x == Trees[t].nodes[i] IN x.kind = "cat" /\ x.feat = f /\ Range1(x.left) = Range1(s)})], Len(Trees))
AllSplits(f) == SumUp([t \in DOMAIN Trees |-> Cardinality({i \in DOMAIN Trees[t].nodes : Trees[t].nodes[i].kind # "leaf" /\ Trees[t].nodes[i].feat = f})], Len(Trees))
Splits == /\ IsEvent("splits") /\ Consume /\ Same
          /\ Chk("splits on a feature no tree splits on", \A j \in DOMAIN Ev.by : AllSplits(Ev.by[j].name) > 0)
          /\ Chk("number of splits on a feature", \A t \in DOMAIN Trees : \A i \in DOMAIN Trees[t].nodes :
                 LET x == Trees[t].nodes[i]
                 IN x.kind # "leaf" => \E j \in DOMAIN Ev.by : Ev.by[j].name = x.feat /\ Len(Ev.by[j].at) = AllSplits(x.feat))
          /\ Chk("where a feature is split", \A j \in DOMAIN Ev.by : LET b == Ev.by[j] IN
                 IF b.kind = "num" THEN \A i \in DOMAIN b.at : Cardinality({k \in DOMAIN b.at : REq(b.at[k], b.at[i])}) = NumTotal(b.name, b.at[i])
                 ELSE \A i \in DOMAIN b.at : Cardinality({k \in DOMAIN b.at : Range1(b.at[k]) = Range1(b.at[i])}) = CatTotal(b.name, b.at[i]))

TraceInit == /\ BaseInit /\ Unused /\ box = EmptyBox(Tr.n) /\ ends = <<>>
             /\ path = [c \in 1..Tr.n |-> [f \in DOMAIN Tr.cols |-> 0]]
TraceNext == \/ Exit \/ Tree \/ Preds \/ Votes \/ Error \/ Leaves \/ Branches \/ Splits
             \/ (Accept /\ Rest /\ UNCHANGED <<box, ends, path>>)
TraceSpec == TraceInit /\ [][TraceNext]_avars
================================================================================

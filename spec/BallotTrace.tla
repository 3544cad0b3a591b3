------------------------------- MODULE BallotTrace -----------------------------
(* Trace validation for C09 (and the serial part of C10): calls on one box.    *)
EXTENDS TraceBase, Ballot
VARIABLE box
tvars == <<tid, pos, box>>
Kind == Tr.kind

Vote == /\ IsEvent("vote") /\ Consume
        /\ box' = CastVote(Kind, box, Ev.c, Ev.pred, Ev.w)
(* the same vote cast many times, by one of several goroutines *)
VoteMany == /\ IsEvent("votes") /\ Consume
            /\ box' = CastVote(Kind, box, Ev.c, Ev.pred, RMul(Ev.w, Ev.times))
Tally == /\ IsEvent("tally") /\ Consume /\ box' = box
         /\ Chk("tally", TallyOk(Kind, box, Ev.c, Ev.got))
TallyNum == /\ IsEvent("tallynum") /\ Consume /\ box' = box
            /\ Chk("numeric tally", (Kind = "num" /\ ~Voted(box, Ev.c))
                    \/ RClose(Ev.got, NumTally(Kind, box, Ev.c), RMul(Tol, RAdd("1", box[Ev.c].abs)), Tol))
Balanced == /\ IsEvent("error") /\ Kind = "cat" /\ Consume /\ box' = box
            /\ Chk("balanced error", BalancedOk(box, Tr.truth, Ev.got))
SqE == /\ IsEvent("sqerr") /\ Consume /\ box' = box
       /\ Chk("squared error", Scored(box, Tr.truth) = {} \/ RClose(Ev.got, SqErr(box, Tr.truth), Tol, "1/10000000"))
NumErr == /\ IsEvent("error") /\ Kind = "num" /\ Consume /\ box' = box
          /\ Chk("relative squared error", Scored(box, Tr.truth) = {} \/ Variance(Tr.truth) = "0"
                 \/ RClose(RMul(Ev.got, Variance(Tr.truth)), SqErr(box, Tr.truth), Tol, "1/10000000"))
R2 == /\ IsEvent("r2") /\ Consume /\ box' = box
      /\ Chk("R2", Scored(box, Tr.truth) = {} \/ Variance(Tr.truth) = "0"
             \/ RClose(RMul(RSub("1", Ev.got), Variance(Tr.truth)), SqErr(box, Tr.truth), Tol, "1/10000000"))

(* a RunningMean on its own: the mean and the weight added so far *)
Read == /\ IsEvent("read") /\ Consume /\ box' = box
        /\ Chk("running count", RClose(Ev.count, box[1].w, Tol, Tol))
        /\ Chk("running mean", ~Voted(box, 1) \/ RClose(Ev.mean, NumTally("num", box, 1), RMul(Tol, RAdd("1", box[1].abs)), Tol))

TraceInit == BaseInit /\ box = EmptyBox(Tr.n)
TraceNext == Vote \/ VoteMany \/ Tally \/ TallyNum \/ Balanced \/ SqE \/ NumErr \/ R2 \/ Read \/ (Accept /\ box' = box)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
================================================================================

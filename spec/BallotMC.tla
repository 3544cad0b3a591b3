-------------------------------- MODULE BallotMC -------------------------------
(* The box as a state machine over a small set of votes: whatever the order,   *)
(* the same votes give the same tally, and tallying changes nothing.           *)
EXTENDS Ballot, TLC
CONSTANTS Kind, NC, MaxVotes
Preds == IF Kind = "cat" THEN {"a", "b", "NA"} ELSE {"1", "-2", "1/2"}
Weights == {"1", "1/2", "0"}
VARIABLES box, votes, last
bvars == <<box, votes, last>>
Init == box = EmptyBox(NC) /\ votes = <<>> /\ last = <<0, "">>
Vote == /\ Len(votes) < MaxVotes
        /\ \E c \in 1..NC, p \in Preds, w \in Weights :
             /\ box' = CastVote(Kind, box, c, p, w)
             /\ votes' = Append(votes, <<c, p, w>>)
        /\ last' = <<0, "">>
TallyA == \E c \in 1..NC :
            /\ last' = <<c, IF Kind = "cat" THEN IF Voted(box, c) THEN CHOOSE l \in Winners(box, c) : TRUE ELSE "NA"
                            ELSE IF Voted(box, c) \/ Kind = "sum" THEN NumTally(Kind, box, c) ELSE "NA">>
            /\ UNCHANGED <<box, votes>>
Spec == Init /\ [][Vote \/ TallyA]_bvars

(* definitions of plurality, mean and sum straight from the votes *)
For(c) == SelectSeq(votes, LAMBDA v : v[1] = c)
TotalOf(c, l) == RSum([k \in 1..Len(SelectSeq(For(c), LAMBDA v : v[2] = l)) |-> SelectSeq(For(c), LAMBDA v : v[2] = l)[k][3]])
Plurality == \A c \in 1..NC : Kind = "cat" =>
   Winners(box, c) = {l \in Preds : RLt("0", TotalOf(c, l)) /\ \A m \in Preds : RLe(TotalOf(c, m), TotalOf(c, l))}
SumOf(c) == RSum([k \in 1..Len(For(c)) |-> RMul(For(c)[k][2], For(c)[k][3])])
WeightOf(c) == RSum([k \in 1..Len(For(c)) |-> For(c)[k][3]])
Additive == \A c \in 1..NC : Kind # "cat" => box[c].s = SumOf(c) /\ box[c].w = WeightOf(c)
NoVoteNoTally == \A c \in 1..NC : (Kind # "sum" /\ last[1] = c) => (last[2] = "NA" <=> (WeightOf(c) = "0" \/ (Kind = "cat" /\ last[2] = "NA")))
TallyIsOk == last[1] # 0 => TallyOk(Kind, box, last[1], last[2])
================================================================================

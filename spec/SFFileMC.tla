-------------------------------- MODULE SFFileMC -------------------------------
(* Both readers on every file of up to MaxLines lines: what they deliver, step  *)
(* by step, is what the file means, and the first malformed line stops them.    *)
EXTENDS SFFile, TLC
CONSTANT MaxLines
Alphabet == {FLine("t", "0"), FLine("u", "1"), TLine("t", "none"), TLine("u", "2"), NLine("*"), NLine("*L"), BadLine("bad"), BadLine("badtree"), BadLine("badforest")}
VARIABLES file, api, at, trees, hdrs, forests, err
rvars == <<file, api, at, trees, hdrs, forests, err>>
Init == /\ \E n \in 0..MaxLines : file \in [1..n -> Alphabet]
        /\ api \in {"tree", "forest"} /\ at = 1 /\ trees = <<>> /\ hdrs = 0 /\ forests = <<>> /\ err = ""
CallTree == /\ api = "tree" /\ err = ""
            /\ LET t == NextTree(file, at) IN
               /\ trees' = trees \o t.tree /\ hdrs' = hdrs + Len(t.hdr)
               /\ at' = t.next /\ err' = t.err
            /\ UNCHANGED <<file, api, forests>>
CallForest == /\ api = "forest" /\ err = ""
              /\ LET f == NextForest(file, at) IN
                 /\ forests' = IF f.err = "" THEN forests \o f.forest ELSE forests
                 /\ at' = f.next /\ err' = f.err
              /\ UNCHANGED <<file, api, trees, hdrs>>
Spec == Init /\ [][CallTree \/ CallForest]_rvars /\ WF_rvars(CallTree \/ CallForest)

AllTreesDelivered == (api = "tree" /\ err = "eof") => Clean(file) /\ trees = AllTrees(file) /\ hdrs = Cardinality(Headers(file))
AllForestsDelivered == (api = "forest" /\ err = "eof") => Clean(file) /\ forests = Denote(file)
Reported == err = "bad" => ~Clean(file)
(* nothing is delivered twice or out of order on the way *)
PrefixT == Clean(file) /\ api = "tree" => trees = SubSeq(AllTrees(file), 1, Len(trees))
PrefixF == Clean(file) /\ api = "forest" => forests = SubSeq(Denote(file), 1, Len(forests))
Stops == <>(err # "")

(* writing and reading back, headers where the format asks for one *)
SmallTrees == {[target |-> t, num |-> w, nodes |-> n] : t \in {"t"}, w \in {"none", "2"}, n \in {<<"*">>, <<"*", "*L", "*R">>}}
SmallForests == {[target |-> "t", num |-> i, trees |-> ts] : i \in {"0", "1"}, ts \in UNION {[1..n -> SmallTrees] : n \in 1..2}}
ASSUME \A f \in SmallForests : Denote(WriteForest(f, f.num # "0")) = <<f>>
ASSUME \A f, g \in SmallForests : Denote(WriteForest(f, f.num # "0") \o WriteForest(g, TRUE)) = <<f, g>>
================================================================================

--------------------------------- MODULE TableMC ---------------------------------
(***************************************************************************)
(* How features are held: values (codes of labels for a category), missing  *)
(* marks, a table of labels and the has-missing flag, all of them objects   *)
(* that could be shared.  Every operation on this representation must do    *)
(* to what users see what Table says.  Variant names a mistake.             *)
(***************************************************************************)
EXTENDS Table

CONSTANTS Kind, Texts, MaxObj, MaxCopies, MaxLen, MaxImpute, Variant
VARIABLES data, miss, labs, feat, last, imputed
vars == <<data, miss, labs, feat, last, imputed>>

(* what users see of feature record f *)
See(f, D, M, L) ==
  [name |-> f.name, kind |-> f.kind, has |-> f.has, cats |-> IF f.kind = "cat" THEN L[f.l] ELSE <<>>,
   cells |-> [i \in 1..Len(M[f.m]) |-> IF M[f.m][i] THEN <<>> ELSE <<IF f.kind = "cat" THEN L[f.l][D[f.d][i]] ELSE D[f.d][i]>>]]
All == [o \in DOMAIN feat |-> See(feat[o], data, miss, labs)]
Objs == DOMAIN feat
N(o) == Len(miss[feat[o].m])
Zero == IF Kind = "cat" THEN 1 ELSE "0"

Code(L, v) == CHOOSE k \in DOMAIN L : L[k] = v
WithLabel(L, v) == IF v \in Elems(L) THEN L ELSE Append(L, v)
Flag(o, b) == [feat EXCEPT ![o].has = b]
Parse(v) == IF v \in MissingTokens THEN <<>> ELSE <<v>>

Init == /\ data = << <<Zero, Zero>> >> /\ miss = << <<TRUE, TRUE>> >> /\ labs = << <<>> >>
        /\ feat = << [name |-> "f", kind |-> Kind, has |-> TRUE, d |-> 1, m |-> 1, l |-> 1] >>
        /\ last = [op |-> "init"] /\ imputed = 0

Store(o, i, v) ==
  LET f == feat[o]
      L == IF Kind = "cat" THEN WithLabel(labs[f.l], v) ELSE labs[f.l]
  IN /\ labs' = [labs EXCEPT ![f.l] = L]
     /\ data' = [data EXCEPT ![f.d][i] = IF Kind = "cat" THEN Code(L, v) ELSE v]
     /\ miss' = [miss EXCEPT ![f.m][i] = IF Variant = "staysmissing" THEN @ ELSE FALSE]
     /\ feat' = feat
PutStr(o, i, v) ==
  /\ last' = [op |-> "putstr", o |-> o, i |-> i, v |-> v, want |-> Parse(v)]
  /\ IF Parse(v) = <<>>
     THEN /\ miss' = [miss EXCEPT ![feat[o].m][i] = TRUE] /\ UNCHANGED <<data, labs>>
          /\ feat' = IF Variant = "noflag" THEN feat ELSE Flag(o, TRUE)
     ELSE Store(o, i, v)
  /\ UNCHANGED imputed
PutMissing(o, i) ==
  /\ last' = [op |-> "putmissing", o |-> o, i |-> i]
  /\ miss' = [miss EXCEPT ![feat[o].m][i] = TRUE] /\ feat' = Flag(o, TRUE) /\ UNCHANGED <<data, labs, imputed>>
AppendStr(o, v) ==
  LET f == feat[o]
      L == IF Kind = "cat" /\ Parse(v) # <<>> THEN WithLabel(labs[f.l], v) ELSE labs[f.l]
  IN /\ N(o) < MaxLen
     /\ last' = [op |-> "append", o |-> o, v |-> v, want |-> Parse(v)]
     /\ labs' = [labs EXCEPT ![f.l] = L]
     /\ data' = [data EXCEPT ![f.d] = Append(@, IF Parse(v) = <<>> THEN Zero ELSE IF Kind = "cat" THEN Code(L, v) ELSE v)]
     /\ miss' = [miss EXCEPT ![f.m] = Append(@, Parse(v) = <<>>)]
     /\ feat' = IF Parse(v) = <<>> THEN Flag(o, TRUE) ELSE feat
     /\ UNCHANGED imputed

NewFeat(f, name, has) == [f EXCEPT !.name = name, !.has = has, !.d = Len(data) + 1, !.m = Len(miss) + 1, !.l = Len(labs) + 1]
Copy(o) ==
  LET f == feat[o]
  IN /\ Len(feat) < MaxCopies
     /\ last' = [op |-> "copy", o |-> o]
     /\ data' = Append(data, data[f.d]) /\ miss' = Append(miss, miss[f.m]) /\ labs' = Append(labs, labs[f.l])
     /\ feat' = Append(feat, [NewFeat(f, f.name, f.has) EXCEPT
                  !.m = IF Variant = "sharemissing" THEN f.m ELSE @, !.l = IF Variant = "sharelabels" THEN f.l ELSE @])
     /\ UNCHANGED imputed
CopyInTo(o, p) ==
  /\ o # p /\ N(o) = N(p) /\ IsPrefix(labs[feat[o].l], labs[feat[p].l])
  /\ last' = [op |-> "copyinto", o |-> o, p |-> p]
  /\ data' = [data EXCEPT ![feat[p].d] = data[feat[o].d]] /\ miss' = [miss EXCEPT ![feat[p].m] = miss[feat[o].m]]
  /\ feat' = IF Variant = "intonoflag" THEN feat ELSE Flag(p, feat[o].has)
  /\ UNCHANGED <<labs, imputed>>

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Perm(s, q) == [i \in DOMAIN s |-> s[q[i]]]
Perms(n, S) == {q \in [1..n -> 1..n] : (\A i, j \in 1..n : q[i] = q[j] => i = j) /\ \A i \in 1..n : i \notin S => q[i] = i}
ShuffleCases(o, S) ==
  \E q \in Perms(N(o), S) :
    /\ last' = [op |-> "shufflecases", o |-> o, cases |-> SetSeq(S)]
    /\ data' = [data EXCEPT ![feat[o].d] = Perm(@, q)]
    /\ miss' = IF Variant = "shufflemarks" THEN miss ELSE [miss EXCEPT ![feat[o].m] = Perm(@, q)]
    /\ UNCHANGED <<labs, feat, imputed>>
ShuffledCopy(o) ==
  LET f == feat[o]
  IN /\ Len(feat) < MaxCopies
     /\ last' = [op |-> "shuffledcopy", o |-> o]
     /\ \E q \in Perms(N(o), 1..N(o)) : data' = Append(data, Perm(data[f.d], q)) /\ miss' = Append(miss, Perm(miss[f.m], q))
     /\ labs' = Append(labs, labs[f.l])
     /\ feat' = Append(feat, NewFeat(f, f.name \o ":SHUFFLED", f.has))
     /\ UNCHANGED imputed

(* the mean of the known numbers, or a label most of the known values have *)
Fill(o) == LET f == feat[o]
               K == {i \in 1..N(o) : ~miss[f.m][i]}
           IN IF Kind = "num" THEN IF K = {} THEN {} ELSE {RDiv(Added(All[o], K), RNum(Cardinality(K)))}
              ELSE {c \in DOMAIN labs[f.l] : \A x \in DOMAIN labs[f.l] :
                      Cardinality({i \in K : data[f.d][i] = x}) <= Cardinality({i \in K : data[f.d][i] = c})}
Impute(o) ==
  LET f == feat[o]
  IN /\ imputed < MaxImpute /\ imputed' = imputed + 1
     /\ last' = [op |-> "impute", o |-> o]
     /\ IF Fill(o) = {} THEN UNCHANGED <<data, miss, feat>>
        ELSE \E v \in Fill(o) :
               /\ data' = [data EXCEPT ![f.d] = [i \in DOMAIN @ |-> IF miss[f.m][i] \/ Variant = "imputeall" THEN v ELSE @[i]]]
               /\ miss' = [miss EXCEPT ![f.m] = [i \in DOMAIN @ |-> FALSE]]
               /\ feat' = Flag(o, FALSE)
     /\ UNCHANGED labs

(* numeric codes, or an indicator for every label *)
Encode(o) ==
  LET f == feat[o]
      L == labs[f.l]
      k == IF Len(L) <= 2 THEN 1 ELSE IF Variant = "droplast" THEN Len(L) - 1 ELSE Len(L)
      New(j) == [name |-> IF Len(L) <= 2 THEN f.name ELSE f.name \o "==" \o L[j], kind |-> "num", has |-> f.has,
                 d |-> Len(data) + j, m |-> IF Variant = "encodeshares" THEN f.m ELSE Len(miss) + j, l |-> Len(labs) + j]
  IN /\ Kind = "cat" /\ f.kind = "cat" /\ Len(feat) + k <= MaxObj
     /\ last' = [op |-> "encode", o |-> o]
     /\ data' = data \o [j \in 1..k |-> [i \in DOMAIN data[f.d] |->
                  IF Len(L) <= 2 THEN RNum(data[f.d][i] - 1) ELSE IF data[f.d][i] = j THEN "1" ELSE "0"]]
     /\ miss' = miss \o [j \in 1..k |-> miss[f.m]]
     /\ labs' = labs \o [j \in 1..k |-> <<>>]
     /\ feat' = feat \o [j \in 1..k |-> New(j)]
     /\ UNCHANGED imputed

CanSet(o) == feat[o].kind = Kind
PutText == \E o \in Objs : CanSet(o) /\ \E i \in 1..N(o), v \in Texts : PutStr(o, i, v)
Clear == \E o \in Objs : \E i \in 1..N(o) : PutMissing(o, i)
Extend == \E o \in Objs, v \in Texts : CanSet(o) /\ AppendStr(o, v)
CopyOne == \E o \in Objs : Copy(o)
CopyShuffled == \E o \in Objs : ShuffledCopy(o)
EncodeOne == \E o \in Objs : Encode(o)
ImputeOne == \E o \in Objs : CanSet(o) /\ Impute(o)
Into == \E o, p \in Objs : CanSet(o) /\ CanSet(p) /\ CopyInTo(o, p)
ShuffleSome == \E o \in Objs : \E S \in SUBSET (1..N(o)) : Cardinality(S) > 1 /\ ShuffleCases(o, S)
Next == PutText \/ Clear \/ Extend \/ CopyOne \/ CopyShuffled \/ EncodeOne \/ ImputeOne \/ Into \/ ShuffleSome
Spec == Init /\ [][Next]_vars
View == <<[o \in Objs |-> feat[o]], data, miss, labs, imputed>>

(* states with this many features are looked at but not left *)
Few == Len(feat) = 1
(* ---- what must hold --------------------------------------------------------------------- *)
AllCoded == \A o \in Objs : Coded(All[o])
NeverDenied == \A o \in Objs : HasOk(All[o])
After == [o \in DOMAIN feat' |-> See(feat'[o], data', miss', labs')]
Framed == [][Frame(last', All, After) /\ Adds(last', All, After)]_vars
Copied == [][CopyOk(last', All, After)]_vars
SetRight == [][SettingOk(last', All, After)]_vars
Encoded == [][EncodingOk(last', All, After)]_vars
Shuffled == [][ShufflingOk(last', All, After)]_vars
================================================================================

------------------------------ MODULE AltFreq ------------------------------
(* Lists of alternative frequencies (IEC 62106-2, 0A block 3 and 14A).       *)
EXTENDS RdsBits, FiniteSets

NewAf == [exp |-> 0, rec |-> 0, lf |-> FALSE, arr |-> [k \in 1..25 |-> 0]]

FmKHz(c) == 87500 + 100 * c
LfKHz(c) == IF c <= 15 THEN 144 + 9 * c ELSE 522 + 9 * (c - 15)
ValidFm(c) == c >= 1 /\ c <= 204
ValidLf(c) == c >= 1 /\ c <= 135

AfClear(l) == [l EXCEPT !.exp = 0, !.rec = 0]

\* One AF code is received
AfInsert(l0, c) ==
    LET l == [l0 EXCEPT !.lf = FALSE]
        isFreq == IF l0.lf THEN ValidLf(c) ELSE ValidFm(c)
    IN IF isFreq /\ l.exp > 0
       THEN IF l.rec < l.exp
            THEN [l EXCEPT !.arr[l.rec + 1] = IF l0.lf THEN LfKHz(c) ELSE FmKHz(c), !.rec = @ + 1]
            ELSE AfClear(l)
       ELSE IF c = 205 \/ c = 224 THEN l                        \* filler; no AF exists
       ELSE IF c >= 225 /\ c <= 249 THEN [l EXCEPT !.exp = c - 224, !.rec = 0]
       ELSE IF c = 250 THEN [l EXCEPT !.lf = TRUE]               \* LF/MF frequency follows
       ELSE AfClear(l)

AfComplete(l) == l.exp = l.rec /\ l.rec > 0
AfList(l) == SubSeq(l.arr, 1, l.rec)

\* Pairs that each contain the tuned (first) frequency
MethodB(l) ==
    /\ l.exp % 2 = 1 /\ l.rec >= 3
    /\ \A k \in 1..(l.rec - 1) : (k % 2 = 1) => (l.arr[k + 1] = l.arr[1] \/ l.arr[k + 2] = l.arr[1])

\* The other frequencies of a complete method B list, as <<same programme, regional>>
PairOther(l, k) == LET f1 == l.arr[2 * k] f2 == l.arr[2 * k + 1] IN IF f1 = l.arr[1] THEN f2 ELSE f1
PairAscends(l, k) == l.arr[2 * k] < l.arr[2 * k + 1]
NPairs(l) == l.rec \div 2
RECURSIVE Others(_, _, _, _)
Others(l, asc, k, acc) ==
    IF k > NPairs(l) THEN acc
    ELSE Others(l, asc, k + 1, IF PairAscends(l, k) = asc THEN Append(acc, PairOther(l, k)) ELSE acc)
SameProgramme(l) == Others(l, TRUE, 1, <<>>)
Regional(l) == Others(l, FALSE, 1, <<>>)
Range(q) == {q[k] : k \in 1..Len(q)}
\* as many distinct frequencies (counted separately in the two lists) as there are pairs
NoDuplicates(l) == Cardinality(Range(SameProgramme(l))) + Cardinality(Range(Regional(l))) = NPairs(l)
=============================================================================

------------------------------- MODULE MC_Fec -------------------------------
(* The code: all 1024 remainders, for every expected offset, with and        *)
(* without error correction.  By linearity what happens to a word depends on *)
(* its remainder only, so this covers all 2^26 words.                        *)
EXTENDS BlockSync
VARIABLES row, r, o, fec
vars == <<row, r, o, fec>>
Init == row \in 0..31 /\ r = 0 /\ o = 0 /\ fec = FALSE
Next == row >= 0 /\ row' = -1 /\ r' \in (32 * row)..(32 * row + 31) /\ o' \in Offsets /\ fec' \in BOOLEAN
Spec == Init /\ [][Next]_vars

Word == r                                       \* a word with remainder r: its low ten bits alone
W(d) == d * 1024 + (RemDef(d * 1024) ^^ r)      \* the word with data d and remainder r
BurstRem == [e \in Bursts |-> RemDef(e)]
Datas == {0, 1, 21845, 43690, 65535, 32768}
\* the tables used by the specification are the definitions
TablesTrue == OffsetOf(Word) = OffsetDef(r) /\ BurstOf(r) = BurstDef(r) /\ \A d \in Datas : Rem(W(d)) = r
\* offset words, and single and double errors, are told apart
Linear == (r # 0) \/ \A e \in Bursts, d \in Datas : RemDef(W(d) ^^ e) = (RemDef(W(d)) ^^ BurstRem[e])
Separate == (r # 0) \/ \A e, f \in Bursts : BurstRem[e] = BurstRem[f] => e = f
NotAnOffset == (r # 0) \/ \A e \in Bursts : BurstRem[e] # 0
\* a block is delivered only if it is within a correctable error of a word with the expected offset,
\* and then carries that word's data
Delivered == \A d \in Datas :
    LET w == W(d)
        a == Accept(w, o, fec)
        \* the remainder of w ^^ e is r ^^ that of e
        near == {e \in Bursts : (r ^^ BurstRem[e]) = OffsetWord[o + 1]} \cup (IF r = OffsetWord[o + 1] THEN {0} ELSE {})
    IN /\ Cardinality(near) <= 1
       /\ a # <<>> <=> (IF fec THEN near # {} ELSE r = OffsetWord[o + 1])
       /\ a # <<>> => \E e \in near : a = <<DataOf(w ^^ e)>>
\* whatever was sent, short errors are undone
Corrects == r # 0 \/ \A d \in Datas, e \in Bursts : Accept(Encode(d, o) ^^ e, o, TRUE) = <<d>>
\* offset words are so far apart that no word is intact at two offsets
Distinct == Cardinality({OffsetWord[k] : k \in 1..5}) = 5
=============================================================================

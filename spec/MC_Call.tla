------------------------------ MODULE MC_Call ------------------------------
(* Call signs for all 65536 PI codes, from the other side: the PI codes that *)
(* NRSC-4 assigns to a call sign lead back to it.                            *)
EXTENDS Callsign, Sequences, FiniteSets
VARIABLE pi
Init == pi \in 0..65535
Next == FALSE /\ UNCHANGED pi
Spec == Init /\ [][Next]_pi

LetterNo(c) == CHOOSE k \in 0..25 : Letters[k + 1] = c
\* four-letter call sign -> PI
Assigned(cs) == (IF SubSeq(cs, 1, 1) = "K" THEN 4096 ELSE 21672) + 676 * LetterNo(SubSeq(cs, 2, 2))
                + 26 * LetterNo(SubSeq(cs, 3, 3)) + LetterNo(SubSeq(cs, 4, 4))
\* PI codes are transmitted with zeros in the second nibble, or the last two, moved to the front
Transmitted(p) == IF p % 256 = 0 THEN (IF (p \div 256) % 16 = 0 /\ p \div 4096 < 10 THEN 44960 + p \div 4096 ELSE 44800 + p \div 256)
                  ELSE IF (p \div 256) % 16 = 0 THEN 40960 + ((p \div 4096) * 256) + (p % 256) ELSE p
FourLetter == pi \in 4096..39247
RoundTrip == FourLetter => LET cs == CallSign(pi) IN Len(cs) = 4 /\ Assigned(cs) = pi
Exceptions == (FourLetter /\ Transmitted(pi) # pi) => CallSign(Transmitted(pi)) = CallSign(pi)
KorW == (CallSign(pi) # "" /\ FourLetter) => SubSeq(CallSign(pi), 1, 1) = (IF pi <= 21671 THEN "K" ELSE "W")
ThreeLetter == (pi \in 39248..40703 /\ CallSign(pi) # "") => Len(CallSign(pi)) = 3
Linked == (pi \div 4096 \in {11, 13, 14}) => \A r \in 0..15 : CallSign(pi) = CallSign((pi \div 4096) * 4096 + (r * 256) + (pi % 256))
NoSign == (pi < 4096 \/ pi \div 4096 \in {12, 15}) => CallSign(pi) = ""
OnlyOnes == Uncertain(pi) <=> (pi >= 4096 /\ pi < 8192)
=============================================================================

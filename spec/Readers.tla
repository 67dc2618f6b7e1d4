------------------------------ MODULE Readers ------------------------------
(* The text input formats.  A line is a sequence of character codes.         *)
EXTENDS RdsBits

Blank == 32
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE -1

\* The block that q's k-th to k+3-rd characters make up, -1 if it is not one
Block4(q, k) ==
    IF k + 3 > Len(q) THEN -1
    ELSE IF \E i \in 0..3 : HexVal(q[k + i]) < 0 THEN -1
    ELSE ((HexVal(q[k]) * 16 + HexVal(q[k + 1])) * 16 + HexVal(q[k + 2])) * 16 + HexVal(q[k + 3])

Missing(b) == (IF b[1] < 0 THEN 1 ELSE 0) + (IF b[2] < 0 THEN 1 ELSE 0)
              + (IF b[3] < 0 THEN 1 ELSE 0) + (IF b[4] < 0 THEN 1 ELSE 0)
TextGroup(b, stream) == [b |-> b, cp |-> FALSE, nooff |-> TRUE, stream |-> stream, err |-> Missing(b)]

\* RDS Spy: <<>> (line skipped) or <<group>>
HexLine(q) ==
    IF Len(q) < 16 THEN <<>>
    ELSE LET tagged == Len(q) >= 20 /\ q[1] = 35 /\ q[2] = 83 /\ q[3] \in {49, 50, 51} /\ q[4] = Blank
             body   == SelectSeq(IF tagged THEN SubSeq(q, 5, Len(q)) ELSE q, LAMBDA c : c # Blank)
         IN <<TextGroup(<<Block4(body, 1), Block4(body, 5), Block4(body, 9), Block4(body, 13)>>,
                        IF tagged THEN q[3] - 48 ELSE 0)>>

\* TEF6686: pi is the PI code pending from a 'P' line, or -1.  Returns [pi, groups].
\* A number is read up to the first character that is not a hex digit; there must be one.
RECURSIVE HexPrefix(_, _, _, _)
HexPrefix(q, k, n, acc) ==
    IF n = 0 \/ k > Len(q) \/ HexVal(q[k]) < 0 THEN acc
    ELSE HexPrefix(q, k + 1, n - 1, 16 * (IF acc < 0 THEN 0 ELSE acc) + HexVal(q[k]))

TefLine(pi, q) ==
    IF Len(q) > 0 /\ q[1] = 80                                       \* P
    THEN LET v == HexPrefix(q, 2, 4, -1) IN [pi |-> IF v < 0 THEN pi ELSE v, groups |-> <<>>]
    ELSE IF Len(q) >= 15 /\ q[1] = 82                                \* R
    THEN LET v(k) == HexPrefix(q, 4 * k - 6, 4, -1)                  \* k = 2..4 at 2, 6, 10
             e == HexPrefix(q, 14, 2, -1)
             ok == v(2) >= 0 /\ v(3) >= 0 /\ v(4) >= 0 /\ e >= 0
             blk(k) == IF ok /\ Bits(e, 2, 2 * (4 - k)) = 0 THEN v(k) ELSE -1
         IN [pi |-> -1, groups |-> <<TextGroup(<<pi, blk(2), blk(3), blk(4)>>, 0)>>]
    ELSE [pi |-> pi, groups |-> <<>>]

TefFlush(pi) == IF pi < 0 THEN <<>> ELSE <<TextGroup(<<pi, -1, -1, -1>>, 0)>>
=============================================================================

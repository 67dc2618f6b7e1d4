------------------------------- MODULE MC_Hex -------------------------------
(* Hex lines: what is written for any group is read back as the same group;  *)
(* and reading is tolerant in the stated ways.  TEF6686 lines likewise.      *)
EXTENDS Walk, Readers

Opt == [BaseOpt EXCEPT !.hex = TRUE]
VARIABLE x       \* <<stream, lost blocks, contents>>
Samples == << <<0, 65535, 4660, 43981>>, <<24577, 4951, 57005, 61166>>, <<49374, 8, 256, 36863>>, <<2571, 3085, 3599, 16>> >>

CharCode == ("0" :> 48) @@ ("1" :> 49) @@ ("2" :> 50) @@ ("3" :> 51) @@ ("4" :> 52) @@ ("5" :> 53) @@ ("6" :> 54) @@ ("7" :> 55)
            @@ ("8" :> 56) @@ ("9" :> 57) @@ ("A" :> 65) @@ ("B" :> 66) @@ ("C" :> 67) @@ ("D" :> 68) @@ ("E" :> 69) @@ ("F" :> 70)
            @@ ("#" :> 35) @@ ("S" :> 83) @@ ("-" :> 45) @@ (" " :> 32)
Codes(s) == [k \in 1..Len(s) |-> CharCode[SubSeq(s, k, k)]]
G == LET full == Samples[x[3]]
         b == [k \in 1..4 |-> IF Bit(x[2], k - 1) THEN -1 ELSE full[k]]
     IN [b |-> b, cp |-> FALSE, nooff |-> TRUE, stream |-> x[1], err |-> MissingOf(b)]
Written == LET l == Line(ChannelStep(Opt, NoEnv, NewChannel, G)) IN IF l = Nothing THEN <<>> ELSE Codes(Value(l, "hex", "_")[2])

Empty(g) == \A k \in 1..4 : g.b[k] < 0
RoundTrip == IF Empty(G) THEN Written = <<>> ELSE HexLine(Written) = <<G>>

\* the line q without its tag: its digits are at 1-4, 6-9, 11-14, 16-19
Tag == IF x[1] > 0 THEN 4 ELSE 0
Insert(q, k, c) == SubSeq(q, 1, k - 1) \o <<c>> \o SubSeq(q, k, Len(q))
Low1(c) == IF c >= 65 /\ c <= 70 THEN c + 32 ELSE c
LoseIn(g, k) == LET b == [g.b EXCEPT ![k] = -1] IN [g EXCEPT !.b = b, !.err = MissingOf(b)]
Odd == {33, 45, 46, 71, 103, 120, 95, 58, 64, 96, 47, 34, 9, 255, 0}
Tolerant == ~Empty(G) =>
    LET q == Written
        n == Len(q)
        body == {k \in (Tag + 1)..n : q[k] # Blank}
        blockAt(k) == ((k - Tag - 1) \div 5) + 1
        head == IF Tag = 0 THEN <<>> ELSE SubSeq(q, 1, 4)
        packed == head \o SelectSeq(SubSeq(q, Tag + 1, n), LAMBDA c : c # Blank)
    IN /\ \A k \in (Tag + 1)..(n + 1) : HexLine(Insert(q, k, Blank)) = <<G>>
       /\ (Len(packed) >= 16) => HexLine(packed) = <<G>>
       /\ HexLine(head \o [k \in 1..(n - Tag) |-> Low1(q[k + Tag])]) = <<G>>
       /\ \A k \in body, c \in Odd : HexLine([q EXCEPT ![k] = c]) = <<LoseIn(G, blockAt(k))>>
       /\ \A c \in Odd \cup {48, 70} : HexLine(Append(q, c)) = <<G>>
       /\ \A k \in 16..(n - 1) : HexLine(SubSeq(q, 1, k)) = << LET cut == ((k - Tag) \div 5) + 1
                                                                   gone == {j \in 1..4 : 5 * j - 1 > k - Tag}
                                                                   b == [j \in 1..4 |-> IF j \in gone THEN -1 ELSE G.b[j]]
                                                                   tag == Tag = 0 \/ k >= 20
                                                               IN IF tag THEN [G EXCEPT !.b = b, !.err = MissingOf(b)]
                                                                  ELSE HexLine(SubSeq(q, 1, k))[1] >>
       /\ \A k \in 0..15 : HexLine(SubSeq(q, 1, k)) = <<>>

\* TEF6686: P line, then R line with error bits e
Digits(v) == Codes(Hex4(v))
Tef == x[1] # 0 \/ \A e \in 0..255 :
    LET c == Samples[x[3]]
        p == TefLine(-1, <<80>> \o Digits(c[1]))
        r == TefLine(p.pi, <<82>> \o Digits(c[2]) \o Digits(c[3]) \o Digits(c[4]) \o Codes(Hex2(e)))
        want == <<c[1], IF (e \div 16) % 4 = 0 THEN c[2] ELSE -1, IF (e \div 4) % 4 = 0 THEN c[3] ELSE -1, IF e % 4 = 0 THEN c[4] ELSE -1>>
    IN /\ p.groups = <<>> /\ r.pi = -1
       /\ r.groups = <<[b |-> want, cp |-> FALSE, nooff |-> TRUE, stream |-> 0, err |-> MissingOf(want)]>>

Init == x \in (0..3) \X (0..15) \X (1..4) /\ ch = 0 /\ gh = 0 /\ verdict = "todo"
Next == verdict = "todo" /\ verdict' = "ok" /\ UNCHANGED <<ch, gh, x>>
Spec == Init /\ [][Next]_<<ch, gh, verdict, x>>
Fine == verdict = "ok" => (RoundTrip /\ Tolerant /\ Tef)
=============================================================================

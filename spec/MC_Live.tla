------------------------------ MODULE MC_Live ------------------------------
(* What redsea prints is settled by the input so far.  The input arrives in  *)
(* pieces of any kind; after each one the decoder goes as far as it can and  *)
(* prints (`lines').  Claims, after every piece:                             *)
(*   - a decoder given everything so far at once prints the same lines, and  *)
(*     at most one more when told that the input has ended;                  *)
(*   - the piece that completes a group brings a line, any other none.       *)
EXTENDS Redsea, IOUtils

Kind == IOEnv.RDS_WHICH          \* hex, tef or bits
Opt == [partial |-> FALSE, rbds |-> FALSE, streams |-> FALSE, ts |-> FALSE, raw |-> TRUE,
        bler |-> TRUE, hex |-> FALSE, fec |-> TRUE, nchan |-> 1, chan |-> 0]
NoEnv == [keys |-> Nothing, dbs |-> Nothing, info |-> <<>>]

\* lines of text (character codes)
Digit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Word(v) == <<Digit(v \div 4096), Digit((v \div 256) % 16), Digit((v \div 16) % 16), Digit(v % 16)>>
Sp == <<32>>
HexGrp(a, b, c, d) == Word(a) \o Sp \o Word(b) \o Sp \o Word(c) \o Sp \o Word(d)
Pi == 24577
\* [t: text, g: number of lines printed (2: any)]
HexAlpha == << [t |-> HexGrp(Pi, 1024, 57549, 16706), g |-> 1],
               [t |-> HexGrp(Pi, 1025, 57549, 17220), g |-> 1],
               [t |-> HexGrp(Pi, 8192, 16706, 17220), g |-> 1],
               [t |-> Word(Pi) \o Sp \o <<45, 45, 45, 45>> \o Sp \o Word(1) \o Sp \o Word(2), g |-> 1],
               [t |-> <<45, 45, 45, 45, 32, 45, 45, 45, 45, 32, 45, 45, 45, 45, 32, 45, 45, 45, 45>>, g |-> 0],
               [t |-> <<60, 103, 62>>, g |-> 0], [t |-> <<>>, g |-> 0],
               [t |-> <<35, 83, 49, 32>> \o HexGrp(Pi, 1026, 0, 0), g |-> 1] >>
\* (an R line alone brings a line unless the PI is missed for the second time: left open)
TefAlpha == << [t |-> <<80>> \o Word(Pi), g |-> 0],
               [t |-> <<82>> \o Word(1024) \o Word(57549) \o Word(16706) \o <<48, 48>>, g |-> 2],
               [t |-> <<82>> \o Word(1025) \o Word(57549) \o Word(17220) \o <<48, 48>>, g |-> 2],
               [t |-> <<82>> \o Word(8192) \o Word(57549) \o Word(17220) \o <<48, 50>>, g |-> 2],
               [t |-> <<83, 49>>, g |-> 0], [t |-> <<>>, g |-> 0] >>
TextPreamble == IF Kind = "hex" THEN [k \in 1..3 |-> HexGrp(Pi, 24576, 0, 0)]
                ELSE [k \in 1..6 |-> IF k % 2 = 1 THEN TefAlpha[1].t ELSE TefAlpha[2].t]

\* bits: the same group over and over, in units of 13 bits
Blocks == <<Encode(Pi, 0), Encode(1024, 1), Encode(57549, 2), Encode(16706, 4)>>
HalfBits(u) == LET w == Blocks[u \div 2 + 1] IN [k \in 1..13 |-> Bits(w, 1, (IF u % 2 = 0 THEN 26 ELSE 13) - k)]
RECURSIVE Units(_, _)
Units(u, n) == IF n = 0 THEN <<>> ELSE HalfBits(u % 8) \o Units(u + 1, n - 1)
Noise(n) == [k \in 1..n |-> IF k \in {1, 2, 5, 9, 11, 12} THEN 1 ELSE 0]

\* words of 26 bits, as Redsea wants them
RECURSIVE Pack(_, _, _)
PackOne(b, i) == FoldL(LAMBDA a, k : 2 * a + (IF k <= Len(b) THEN b[k] ELSE 0), 0, [j \in 1..26 |-> i + j], 1)
Pack(b, i, acc) == IF i >= Len(b) + 26 THEN acc ELSE Pack(b, i + 26, Append(acc, PackOne(b, i)))
Inp(f) == IF Kind = "bits" THEN [kind |-> "bits", n |-> Len(f), items |-> Pack(f, 0, <<>>)]
          ELSE [kind |-> Kind, items |-> f]

VARIABLES fed, unit, d, lines, verdict
vars == <<fed, unit, d, lines, verdict>>

\* as far as possible without knowing whether there is more
CanStep(inp, s) == IF Kind = "bits" /\ s.sync.sync THEN s.pos + 26 <= inp.n ELSE s.pos < Size(inp)
RECURSIVE Go(_, _, _)
Go(inp, s, acc) == IF ~CanStep(inp, s) THEN [s |-> s, out |-> acc]
                   ELSE LET r == DecoderStep(Opt, NoEnv, inp, s) IN Go(inp, r.s, acc \o r.out)
RECURSIVE All(_, _, _)
All(inp, s, acc) == IF s.end THEN acc ELSE LET r == DecoderStep(Opt, NoEnv, inp, s) IN All(inp, r.s, acc \o r.out)

Begin == IF Kind = "bits" THEN Units(0, 32) ELSE TextPreamble
Init == LET r == Go(Inp(Begin), NewDecoder(Opt), <<>>) IN
        fed = Begin /\ unit = 0 /\ d = r.s /\ lines = r.out /\ verdict = "ok"

IsPrefix2(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Give(piece, u, due) ==
    LET f   == fed \o piece
        r   == Go(Inp(f), d, lines)
        all == All(Inp(f), NewDecoder(Opt), <<>>)
    IN /\ fed' = f /\ unit' = u /\ d' = r.s /\ lines' = r.out
       /\ verdict' = IF ~(IsPrefix2(r.out, all) /\ Len(all) <= Len(r.out) + 1) THEN "what is printed depends on when the input arrives"
                     ELSE IF due < 2 /\ Len(r.out) - Len(lines) # due THEN "a line is not printed at the moment its group is complete"
                     ELSE "ok"
NextText == LET alpha == IF Kind = "hex" THEN HexAlpha ELSE TefAlpha IN
            \E i \in 1..Len(alpha) : Give(<<alpha[i].t>>, 0, alpha[i].g)
\* unit: the next 13 bits of the group, + 100 * k if k of them have been sent
NextBits ==
    IF unit >= 100
    THEN LET k == unit \div 100
             u == unit % 100
         IN Give(SubSeq(HalfBits(u), k + 1, 13) \o Units(u + 1, 1), (u + 2) % 8, (u + 2) \div 8)
    ELSE \/ \E n \in {1, 3, 8} : Give(Units(unit, n), (unit + n) % 8, (unit + n) \div 8)
         \/ unit \in {2, 6} /\ Give(Noise(26), (unit + 2) % 8, (unit + 2) \div 8)
         \/ \E k \in {1, 5, 12} : Give(SubSeq(HalfBits(unit), 1, k), unit + 100 * k, 0)
Next == IF Kind = "bits" THEN NextBits ELSE NextText
Spec == Init /\ [][Next]_vars
Bound == IF "RDS_BOUND" \in DOMAIN IOEnv THEN atoi(IOEnv.RDS_BOUND) ELSE 3
Bounded == TLCGet("level") <= Bound
Holds == verdict = "ok"
Show == [pieces |-> Len(fed), unit |-> unit, lines |-> Len(lines), verdict |-> verdict]
=============================================================================

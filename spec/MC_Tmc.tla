------------------------------- MODULE MC_Tmc -------------------------------
(* Assembly of TMC messages: the parts of messages with two continuity       *)
(* indices, in any order, repeated or lost.                                  *)
EXTENDS Walk

Opt == BaseOpt
Filler == 61166                                       \* four separators
\* message m: event 100 + m; the part after which n more are to come has supplementary code 10 * n + m
First(m, v) == Grp(16, m, 32768 + 2048 + (100 + m + v), 500 + m)
Second(m, left) == Grp(16, m, 16384 + left * 4096 + 6 * 256 + (10 * left + m), Filler)
Later(m, left) == Grp(16, m, left * 4096 + 6 * 256 + (10 * left + m), Filler)
Single(m) == Grp(16, 8 + m, 2048 + 100 + m, 500 + m)
Alphabet == <<First(1, 0), First(1, 10), Second(1, 0), Second(1, 1), Second(1, 3), Later(1, 2), Later(1, 1), Later(1, 0),
              First(2, 0), Second(2, 1), Later(2, 0), Single(3),
              Lose(First(1, 0), 3), Lose(Later(2, 0), 4), Lose(Second(1, 1), 2)>>
Prelude == Preamble(Pi1) \o <<Grp(6, 16, 64, 52550)>>                 \* 8A is TMC, location table 1

\* gh.ci: continuity index of the message under way; gh.first: event of its first part (0: not received);
\* gh.second: how many are to follow its second part (-1: not received); gh.later: the others received
NoMessage == [ci |-> 0, first |-> 0, second |-> -1, later |-> {}]
Init == /\ ch = After(Opt, NoEnv, Prelude) /\ gh = NoMessage /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"tmc">>, Prelude, Alphabet)

All(g) == \A k \in 2..4 : g.b[k] >= 0
IsMulti(g) == All(g) /\ g.b[2] % 32 < 8
Left(g) == Bits(g.b[3], 2, 12)
IsEnd(g) == ~Bit(g.b[3], 15) /\ Left(g) = 0
With(h, g) ==
    LET h1 == IF g.b[2] % 8 = h.ci THEN h ELSE [NoMessage EXCEPT !.ci = g.b[2] % 8] IN
    IF Bit(g.b[3], 15) THEN [h1 EXCEPT !.first = Bits(g.b[3], 11, 0)]
    ELSE IF Bit(g.b[3], 14) THEN [h1 EXCEPT !.second = Left(g)]
    ELSE [h1 EXCEPT !.later = @ \cup {Left(g)}]
\* nothing remains of a message that ended
Hear(h, g) == IF ~IsMulti(g) THEN h ELSE IF IsEnd(g) THEN NoMessage ELSE With(h, g)

\* the supplementary codes to expect: those of the parts from the second on, up to the first one missing
RECURSIVE CodesFrom(_, _)
CodesFrom(h, left) == IF left < 0 \/ left \notin h.later THEN <<>> ELSE <<10 * left + h.ci>> \o CodesFrom(h, left - 1)
CodesOf(h) == IF h.second < 0 THEN <<>> ELSE <<10 * h.second + h.ci>> \o CodesFrom(h, h.second - 1)

Claims(h0, g, line) ==
    LET ev == Value(line, "tmc", "message.event_codes")
        su == Value(line, "tmc", "message.supplementary_codes")
        h  == With(h0, g)
    IN << <<"a message is reported when its last part arrives and its first was received",
            IsMulti(g) => ((ev # <<>>) = (IsEnd(g) /\ h.first # 0))>>,
          <<"a single-group message is reported", (All(g) /\ g.b[2] % 32 >= 8) => ev = AI(<<103>>) /\ su = <<>> >>,
          <<"a group with lost blocks reports nothing", ~All(g) => ev = <<>> >>,
          <<"the event and location are those of the first part", (IsMulti(g) /\ ev # <<>>) =>
              ev = AI(<<h.first>>) /\ Value(line, "tmc", "message.location") = I(500 + h.ci)>>,
          <<"the further fields are those of the parts of this message, from the second on up to a gap",
            (IsMulti(g) /\ ev # <<>>) => su = (IF CodesOf(h) = <<>> THEN <<>> ELSE AI(CodesOf(h)))>> >>

Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, NoEnv, ch, Alphabet[i])
    IN /\ ch' = r.ch /\ gh' = Hear(gh, Alphabet[i])
       /\ verdict' = Judge(Claims(gh, Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE MC_Bler ------------------------------
(* The block error rate over any sequence of groups with any number of bad   *)
(* blocks, including groups that print nothing and a change of station.      *)
EXTENDS Walk

Opt == [BaseOpt EXCEPT !.bler = TRUE]
Whole == Grp(24, 1, 2, 3)
Alphabet == <<Whole, Lose(Whole, 4), Lose(Lose(Whole, 2), 3), Lose(Whole, 1), Raw(<<-1, -1, -1, -1>>, 0),
              GrpOf(Pi2, 24, 1, 2, 3)>>
Prelude == Preamble(Pi1)

\* gh: bad blocks of all groups so far, newest first (at most 12)
Init == /\ ch = After(Opt, NoEnv, Prelude) /\ gh = <<>> /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"bler">>, Prelude, Alphabet)
Hear(h, g) == SubSeq(<<Len(SelectSeq(g.b, LAMBDA x : x < 0))>> \o h, 1, IF Len(h) < 12 THEN Len(h) + 1 ELSE 12)
Total(h) == SumFrom(h, 1, 0)
Claims(h, g, line) ==
    LET v == Value(line, "bler", "_")
        n == CHOOSE n \in 0..100 : I(n) = v
    IN << <<"every line has the rate", line # Nothing => \E n1 \in 0..100 : v = I(n1)>>,
          <<"it is the percentage of the bad blocks of the last 12 groups", line # Nothing =>
              (96 * n - 48 <= 200 * Total(h) /\ 200 * Total(h) < 96 * n + 48)>> >>
Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, NoEnv, ch, Alphabet[i])
        h == Hear(gh, Alphabet[i])
    IN /\ ch' = r.ch /\ gh' = h
       /\ verdict' = Judge(Claims(h, Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

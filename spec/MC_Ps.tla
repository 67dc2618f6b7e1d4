------------------------------- MODULE MC_Ps -------------------------------
(* A station sends the segments of three PS names in any order and any       *)
(* number, and any block may get lost.                                       *)
EXTENDS Walk

Opt == [BaseOpt EXCEPT !.partial = TRUE]
NameX == <<65, 66, 67, 68, 69, 70, 71, 72>>
NameY == <<97, 98, 99, 100, 101, 102, 103, 104>>
NameZ == <<49, 50, 51, 52, 53, 13, 54, 55>>           \* ends at its sixth character
Names == <<NameX, NameY, NameZ>>
SegOf(n, s) == <<Names[n][2 * s + 1], Names[n][2 * s + 2]>>
PsGroup(n, s) == Grp(1, s, Pi1, Two(SegOf(n, s)[1], SegOf(n, s)[2]))
Whole == [k \in 1..8 |-> PsGroup((k - 1) \div 4 + 1, (k - 1) % 4)] \o <<PsGroup(3, 2)>>
Alphabet == Whole \o [k \in 1..4 |-> Lose(Whole[k], 4)] \o <<Lose(Whole[1], 3), Lose(Whole[2], 2), Lose(Whole[3], 1)>>
Prelude == Preamble(Pi1)

\* gh.latest: the segments as last received (<<>> if never); gh.since: the segments received since
\* the last first segment; gh.chain: how many came in unbroken order after it (4: all)
Init == /\ ch = After(Opt, NoEnv, Prelude)
        /\ gh = [latest |-> [s \in 0..3 |-> <<>>], since |-> {}, chain |-> 0, alive |-> FALSE]
        /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"ps", "partial_ps">>, Prelude, Alphabet)

\* groups for which nothing is printed (no PI twice in succession) are not heard
Received(g, line) == line # Nothing /\ g.b[2] >= 0 /\ g.b[3] >= 0 /\ g.b[4] >= 0
Hear(h, g, line) ==
    LET s == Bits(g.b[2], 2, 0) IN
    IF ~Received(g, line) THEN h
    ELSE [latest |-> [h.latest EXCEPT ![s] = <<Hi(g.b[4]), Lo(g.b[4])>>],
          since  |-> IF s = 0 THEN {0} ELSE h.since \cup {s},
          chain  |-> IF s = 0 THEN 1 ELSE IF h.alive /\ s = h.chain THEN s + 1 ELSE h.chain,
          alive  |-> IF s = 0 THEN TRUE ELSE h.alive /\ s = h.chain /\ s < 3]

Bytes(h) == h.latest[0] \o h.latest[1] \o h.latest[2] \o h.latest[3]
\* the name as transmitted: up to the terminator
EndOf(bs) == IF \E k \in 1..Len(bs) : bs[k] = 13 THEN CHOOSE k \in 1..Len(bs) : bs[k] = 13 /\ \A j \in 1..(k - 1) : bs[j] # 13
             ELSE Len(bs)
\* segments needed for everything up to the terminator of what is stored
Known(h) == {s \in 0..3 : h.latest[s] # <<>>}
Term(h) == {s \in Known(h) : 13 \in {h.latest[s][1], h.latest[s][2]}}
Need(h) == IF Term(h) = {} THEN 0..3 ELSE 0..(CHOOSE s \in Term(h) : \A r \in Term(h) : s <= r)
Claims(h, g, line) ==
    LET v == Value(line, "ps", "_")
        p == Value(line, "partial_ps", "_")
        known == Need(h) \subseteq Known(h)
        all   == [s \in 0..3 |-> IF h.latest[s] = <<>> THEN <<SP, SP>> ELSE h.latest[s]]
        bs    == all[0] \o all[1] \o all[2] \o all[3]
        shown == [k \in 1..EndOf(bs) |-> IF bs[k] = 13 THEN SP ELSE bs[k]]
    IN << <<"a name is printed only with a group that carries a segment", v # <<>> => Received(g, line)>>,
          <<"a name is printed only when every segment up to the end was received since the first one",
            v # <<>> => known /\ Need(h) \subseteq h.since>>,
          <<"a printed name is the latest transmitted characters", v # <<>> => v = Tx(shown)>>,
          <<"a name received in order is printed", (Received(g, line) /\ h.chain = 4) => v # <<>> >>,
          <<"either the name or the partial name", Received(g, line) => (v = <<>>) = (p # <<>>)>>,
          <<"the partial name has only received characters", p # <<>> =>
              \A k \in 1..Len(p[2]) : p[2][k] # SP => ((k - 1) \div 2) \in Known(h) /\ p[2][k] = bs[k]>> >>

Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, NoEnv, ch, Alphabet[i])
        h == Hear(gh, Alphabet[i], Line(r))
    IN /\ ch' = r.ch /\ gh' = h
       /\ verdict' = Judge(Claims(h, Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE MC_Tdc -------------------------------
(* Transparent data channel: a short text (three segments, ends in the       *)
(* third) whose segments come in any order, and 5B groups in between.        *)
EXTENDS Walk

Opt == BaseOpt
Seg(a, b3, b4) == Grp(10, a, b3, b4)
Alphabet == <<Seg(0, 16706, 17220), Seg(1, 17734, 18248), Seg(2, 18762, Two(75, 13)), Seg(3, 30840, 30840), Seg(0, 24930, 25444),
              Grp(11, 1, 0, 12345), Lose(Seg(1, 17734, 18248), 3), Lose(Seg(2, 18762, Two(75, 13)), 4), Seg(31, 22874, 22874)>>
Prelude == Preamble(Pi1)

\* gh.now: the segments as last received;  gh.chain: received in a row after the first one
Init == /\ ch = After(Opt, NoEnv, Prelude) /\ gh = [now |-> [s \in 0..2 |-> <<>>], since |-> {}, chain |-> 0] /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"transparent_data">>, Prelude, Alphabet)
Adr(g) == g.b[2] % 32
IsA(g) == g.b[2] \div 2048 = 10
Heard(g) == g.b[3] >= 0 /\ g.b[4] >= 0
Four(g) == <<Hi(g.b[3]), Lo(g.b[3]), Hi(g.b[4]), Lo(g.b[4])>>
Hear(h, g) ==
    IF ~IsA(g) \/ ~Heard(g) THEN h
    ELSE LET a == Adr(g) IN
         [now |-> IF a <= 2 THEN [h.now EXCEPT ![a] = Four(g)] ELSE h.now,
          since |-> IF a = 0 THEN {0} ELSE h.since \cup {a},
          chain |-> IF a = 0 THEN 1 ELSE IF h.chain = a THEN a + 1 ELSE 0]
Claims(h0, h, g, line) ==
    LET v(p) == Value(line, "transparent_data", p)
        bs   == h.now[0] \o h.now[1] \o h.now[2]
    IN << <<"address and bytes are shown", (~IsA(g) \/ Heard(g)) =>
              (v("address") = I(Adr(g)) /\ v("raw") = S(BytesHex(IF IsA(g) THEN Four(g) ELSE <<Hi(g.b[4]), Lo(g.b[4])>>)))>>,
          <<"nothing is shown of a group with a loss", ~Heard(g) => ~Printed(line, "transparent_data")>>,
          <<"the full text is shown only with all its segments since the first", v("full_text") # <<>> =>
              ({0, 1, 2} \subseteq h.since /\ v("full_text") = Tx(SubSeq(bs, 1, 11) \o <<SP>>))>>,
          <<"a text received in order is shown", (h.chain = 3 /\ h0.chain = 2 /\ IsA(g) /\ Heard(g)) => v("full_text") # <<>> >>,
          <<"5B groups do not add to it", ~IsA(g) => v("full_text") = <<>> >> >>
Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, NoEnv, ch, Alphabet[i])
        h == Hear(gh, Alphabet[i])
    IN /\ ch' = r.ch /\ gh' = h
       /\ verdict' = Judge(Claims(gh, h, Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

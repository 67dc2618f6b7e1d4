------------------------------- MODULE MC_Pi -------------------------------
(* Confirmation and change of station: three stations send the two segments  *)
(* of their programme type names; groups may also come without a PI.         *)
EXTENDS Walk

Opt == BaseOpt
Pi3 == 24595
Part(pi, seg) == LET c == IF pi = Pi1 THEN 65 ELSE IF pi = Pi2 THEN 97 ELSE 48 IN Two(c + seg, c + seg)
Ptyn(pi, seg) == GrpOf(pi, 20, seg, Part(pi, seg), Part(pi, seg))
Alphabet == <<Ptyn(Pi1, 0), Ptyn(Pi1, 1), Ptyn(Pi2, 0), Ptyn(Pi2, 1), Ptyn(Pi3, 1),
              Lose(Ptyn(Pi3, 0), 1), Lose(Ptyn(Pi1, 1), 3), Lose(Lose(Ptyn(Pi1, 1), 1), 2)>>
Prelude == <<>>

\* gh.last: the last PI codes received (newest first);  gh.conf: the one that last came three times running;
\* gh.segs: the segments received from then on
Init == /\ ch = NewChannel /\ gh = [last |-> <<0, 0, 0>>, conf |-> 0, segs |-> [k \in 0..1 |-> -1]] /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"pi", "pty_name">>, Prelude, Alphabet)

Hear(h, g, line) ==
    LET last == IF g.b[1] < 0 THEN h.last ELSE <<g.b[1], h.last[1], h.last[2]>>
        trip == g.b[1] >= 0 /\ last[1] = last[2] /\ last[2] = last[3]
        conf == IF trip THEN last[1] ELSE h.conf
        segs == IF conf # h.conf THEN [k \in 0..1 |-> -1] ELSE h.segs
        got  == conf # 0 /\ line # Nothing /\ \A k \in 2..4 : g.b[k] >= 0
    IN [last |-> last, conf |-> conf, segs |-> IF got THEN [segs EXCEPT ![g.b[2] % 2] = g.b[4]] ELSE segs]

Claims(h0, h, g, line) ==
    LET n == Value(line, "pty_name", "_")
        w(k) == <<Hi(h.segs[k]), Lo(h.segs[k]), Hi(h.segs[k]), Lo(h.segs[k])>>
    IN << <<"nothing is printed before a PI was confirmed", h.conf = 0 => line = Nothing>>,
          <<"the PI printed is the last one confirmed", line # Nothing => Value(line, "pi", "_") = S(PHex4(h.conf))>>,
          <<"lines are printed for a confirmed station", (h.conf # 0 /\ g.b[1] >= 0) => line # Nothing>>,
          <<"a name consists of what was received from this station", n # <<>> =>
              h.segs[0] >= 0 /\ h.segs[1] >= 0 /\ n = Tx(w(0) \o w(1))>> >>

Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, NoEnv, ch, Alphabet[i])
        h == Hear(gh, Alphabet[i], Line(r))
    IN /\ ch' = r.ch /\ gh' = h
       /\ verdict' = Judge(Claims(gh, h, Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

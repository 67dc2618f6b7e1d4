------------------------------- MODULE MC_Rt -------------------------------
(* RadioText and RadioText+: an A message and a B message with terminators,  *)
(* an A message without one, and RT+ groups whose toggle and running bits    *)
(* change; anything may be repeated, left out or lost.                       *)
EXTENDS Walk

Opt == [BaseOpt EXCEPT !.partial = TRUE]
RtA == <<65, 66, 67, 68, 69, 70, 13, 32>>           \* ABCDEF, flag A
RtB == <<97, 98, 99, 100, 101, 102, 13, 32>>        \* abcdef, flag B
RtC == <<75, 76, 77, 78, 79, 80, 81, 82>>           \* KLMNOPQR without end, flag A
Msgs == <<RtA, RtB, RtC>>
FlagOf == <<0, 1, 0>>
RtGroup(m, seg) == Grp(4, FlagOf[m] * 16 + seg, Two(Msgs[m][4 * seg + 1], Msgs[m][4 * seg + 2]), Two(Msgs[m][4 * seg + 3], Msgs[m][4 * seg + 4]))
\* tags: (type 1, start 1, length 2) and (type 4, start 3, length 3)
Plus(tog, run) == LET t1 == 1 t2 == 4 IN
    Grp(22, tog * 16 + run * 8 + t1 \div 8, (t1 % 8) * 8192 + 1 * 128 + (2 - 1) * 2 + t2 \div 32, (t2 % 32) * 2048 + 3 * 32 + (3 - 1))
Alphabet == [k \in 1..6 |-> RtGroup((k - 1) \div 2 + 1, (k - 1) % 2)]
            \o <<Lose(RtGroup(1, 1), 3), Lose(RtGroup(2, 0), 4), Plus(0, 0), Plus(1, 0), Plus(0, 1), Lose(Plus(0, 0), 4)>>
Prelude == Preamble(Pi1) \o <<Grp(6, 22, 0, RtPlusApp)>>

\* gh.flag: A/B flag; gh.segs: segments received since it (or the item) changed; gh.full: the text last received whole since
\* then (<<>>: none); gh.item: toggle and running bits;
\* gh.dirty: the station changed the text without changing the flag (then tags are not judged)
Init == /\ ch = After(Opt, NoEnv, Prelude)
        /\ gh = [flag |-> 0, segs |-> [k \in 0..1 |-> <<>>], full |-> <<>>, item |-> <<FALSE, FALSE>>, dirty |-> FALSE]
        /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"radiotext", "partial_radiotext", "rt_ab", "radiotext_plus">>, Prelude, Alphabet)

Heard(g) == g.b[2] >= 0 /\ g.b[3] >= 0 /\ g.b[4] >= 0
IsRt(g) == g.b[2] \div 2048 = 4
Upto(bs) == IF \E k \in 1..Len(bs) : bs[k] = 13 THEN SubSeq(bs, 1, (CHOOSE k \in 1..Len(bs) : bs[k] = 13 /\ \A j \in 1..(k - 1) : bs[j] # 13) - 1) ELSE bs
Trim(bs) == Rtrim(bs)
InSet(bs, q) == \A k \in 1..Len(bs) : bs[k] = SP \/ \E j \in 1..Len(q) : q[j] = bs[k]

Hear(h, g, line) ==
    IF IsRt(g)
    THEN IF ~Heard(g) THEN h
         ELSE LET f    == Bits(g.b[2], 1, 4)
                  h1   == IF f # h.flag THEN [h EXCEPT !.flag = f, !.segs = [k \in 0..1 |-> <<>>], !.full = <<>>, !.dirty = FALSE] ELSE h
                  segs == [h1.segs EXCEPT ![g.b[2] % 2] = <<Hi(g.b[3]), Lo(g.b[3]), Hi(g.b[4]), Lo(g.b[4])>>]
                  v    == Value(line, "radiotext", "_")
                  whole == segs[0] # <<>> /\ segs[1] # <<>> /\ 13 \in {segs[1][k] : k \in 1..4}
              IN [h1 EXCEPT !.segs = segs,
                            !.dirty = @ \/ (h1.segs[g.b[2] % 2] # <<>> /\ h1.segs[g.b[2] % 2] # segs[g.b[2] % 2]),
                            \* a text with an end, printed: that is the complete text
                            !.full = IF v # <<>> /\ whole /\ v[2] = Trim(Upto(segs[0] \o segs[1])) THEN Upto(segs[0] \o segs[1]) \o <<SP>> ELSE @]
    ELSE LET it == <<Bit(g.b[2], 4), Bit(g.b[2], 3)>> IN
         IF it # h.item THEN [h EXCEPT !.item = it, !.full = <<>>, !.dirty = FALSE, !.segs = [k \in 0..1 |-> <<>>]] ELSE h

TagText(h, start, len) == IF start + len <= Len(h.full) THEN Trim(SubSeq(h.full, start + 1, start + len)) ELSE <<>>
Claims(h0, h, g, line) ==
    LET v  == Value(line, "radiotext", "_")
        p  == Value(line, "partial_radiotext", "_")
        d0 == Value(line, "radiotext_plus", "tags.0.data")
        d1 == Value(line, "radiotext_plus", "tags.1.data")
        seg == g.b[2] % 2
        whole == h.segs[0] # <<>> /\ h.segs[1] # <<>>
        all == h.segs[0] \o h.segs[1]
    IN << <<"a text is printed with RadioText groups only", (v # <<>> \/ p # <<>>) => IsRt(g) /\ Heard(g)>>,
          <<"a printed text never mixes an A and a B message", v # <<>> => InSet(v[2], RtB) \/ InSet(v[2], RtA \o RtC)>>,
          <<"a printed text is what was received since the A/B change, or an unterminated one ends", v # <<>> =>
              \/ (whole /\ 13 \in {all[k] : k \in 1..Len(all)} /\ v[2] = Trim(Upto(all)))
              \/ (seg = 0)>>,
          <<"an old text is printed only together with the first segment of the next", (v # <<>> /\ h.flag = 1 /\ ~InSet(v[2], RtB)) => seg = 0 /\ h0.flag = 0>>,
          <<"a text received in order is printed", (IsRt(g) /\ Heard(g) /\ seg = 1 /\ whole /\ g.b[4] % 256 = SP
               /\ h0.segs[0] # <<>> /\ h0.segs[1] = <<>>) => v # <<>> >>,
          <<"a partial text never mixes either", p # <<>> => InSet(p[2], RtB) \/ InSet(p[2], RtA \o RtC)>>,
          <<"a partial text is of the current message", p # <<>> => InSet(p[2], IF h.flag = 1 THEN RtB ELSE RtA \o RtC)>>,
          <<"tags are cut from the text last received whole", \/ (d0 = <<>>) \/ h.dirty
              \/ (d0[2] = TagText(h, 1, 2) /\ (d1 = <<>> \/ d1[2] = TagText(h, 3, 3)))
              \/ (d0[2] = TagText(h, 3, 3) /\ d1 = <<>>)>>,
          <<"tags are printed if there is such a text", (~IsRt(g) /\ Heard(g) /\ h.full # <<>> /\ ~h.dirty) => d0 # <<>> /\ d1 # <<>> >>,
          <<"tags are not printed after the item changed", (~IsRt(g) /\ h.item # h0.item) => d0 = <<>> >> >>

Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, NoEnv, ch, Alphabet[i])
        h == Hear(gh, Alphabet[i], Line(r))
    IN /\ ch' = r.ch /\ gh' = h
       /\ verdict' = Judge(Claims(gh, h, Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

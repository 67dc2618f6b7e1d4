------------------------------- MODULE MC_Mix -------------------------------
(* One group of every kind, complete or with a block lost, on all streams.   *)
(* Next to the decoder itself gh runs: the same with other options (par:     *)
(* partial data shown, RBDS the same; ext: raw data, error rate and streams  *)
(* shown) and one that never sees streams 1-3 (main).                        *)
EXTENDS Walk

Opt == BaseOpt
OptPar == [BaseOpt EXCEPT !.partial = TRUE]
OptExt == [BaseOpt EXCEPT !.raw = TRUE, !.bler = TRUE, !.streams = TRUE]
OptHex == [BaseOpt EXCEPT !.hex = TRUE]

Txt == 16706
Base == <<Grp(0, 7, Two(225, 10), Txt), Grp(1, 4, Pi1, Txt), Grp(2, 5, 4096 + 5, 2048 + 65), Grp(4, 0, Txt, Two(67, 13)), Grp(4, 16, Txt, Txt),
          Grp(6, 22, 1, RtPlusApp), Grp(6, 26, 1, ErtApp), Grp(8, 1, 53000, 4660), Grp(10, 3, Txt, Txt), Grp(12, 9, 5, 6),
          Grp(16, 9, 2148, 77), Grp(20, 16, Txt, Txt), Grp(22, 8, 8192, 2048), Grp(24, 3, 1, 2), Grp(26, 0, Txt, Two(67, 13)),
          Grp(28, 4, Two(225, 30), 12289), Grp(29, 8, 0, 12289), Grp(30, 0, Txt, Two(67, 13)), Grp(31, 31, Pi1, 63519)>>
Streams == <<Raw(<<32768, 65346, 0, 5>>, 1), Raw(<<8192, 65, Txt, Txt>>, 2), Raw(<<16384 + 256, 1, 2, 3>>, 3), Raw(<<Pi2, 1, 2, 3>>, 1)>>
NB == Len(Base)
Alphabet == Base \o [k \in 1..NB |-> Lose(Base[k], 3)] \o [k \in 1..NB |-> Lose(Base[k], 4)] \o Streams
            \o <<Lose(Base[1], 2), Lose(Base[4], 1), Lose(Streams[2], 1), Grp(6, 16, 64, 52550)>>
Prelude == Preamble(Pi1)

Pre(o) == After(o, NoEnv, Prelude)
Init == /\ ch = Pre(Opt) /\ gh = [par |-> Pre(OptPar), ext |-> Pre(OptExt), main |-> Pre(Opt)] /\ verdict = "ok"
        /\ EmitSetup(OptPar, <<"*">>, Prelude, Alphabet)

Without(line, keys) == [k \in DOMAIN line \ keys |-> line[k]]
PartialKeys == {"rt_ab", "partial_ps", "partial_radiotext", "partial_long_ps", "partial_alt_frequencies"}
ExtKeys == {"raw_data", "bler", "stream"}
FullOf == ("partial_ps" :> {"ps"}) @@ ("partial_radiotext" :> {"radiotext"}) @@ ("partial_long_ps" :> {"long_ps"})
          @@ ("partial_alt_frequencies" :> {"alt_frequencies_a", "alt_frequencies_b"})

\* fields that a group with everything received prints; what a loss leaves must be among them
Same(st1, st2) == [st1 EXCEPT !.errs = <<>>] = [st2 EXCEPT !.errs = <<>>]
Claims(g, line, p, x, m, p1, x1, m1, c1) ==
    << <<"partial data: the rest of the line is the same", Without(p, PartialKeys) = line>>,
       <<"partial data: the decoder is the same", p1 = c1>>,
       <<"a partial field is not shown next to the complete one", \A k \in DOMAIN FullOf \cap DOMAIN p : FullOf[k] \cap DOMAIN p = {}>>,
       <<"raw data, error rate and stream number are only added", Without(x, ExtKeys) = line /\ (line # Nothing => ExtKeys \subseteq DOMAIN x)>>,
       <<"and change nothing in the decoder", Same(x1, c1)>>,
       <<"streams 1-3 do not disturb stream 0", g.stream = 0 => Without(m, {}) = line>>,
       <<"nor the station", [m1.st EXCEPT !.rft = c1.st.rft, !.pipe = c1.st.pipe] = c1.st /\ m1.pi = c1.pi>>,
       <<"groups of streams 1-3 are of type C and carry no PI", g.stream # 0 =>
           line = Nothing \/ (Value(line, "group", "_") = S("C") /\ ~Printed(line, "pi"))>> >>

Next == \E i \in 1..Len(Alphabet) :
    LET g == Alphabet[i]
        r == ChannelStep(Opt, NoEnv, ch, g)
        p == ChannelStep(OptPar, NoEnv, gh.par, g)
        x == ChannelStep(OptExt, NoEnv, gh.ext, g)
        m == IF g.stream = 0 THEN ChannelStep(Opt, NoEnv, gh.main, g) ELSE [ch |-> gh.main, out |-> <<>>]
    IN /\ ch' = r.ch /\ gh' = [par |-> p.ch, ext |-> [x.ch EXCEPT !.errs = [k \in 1..BlerWindow |-> 0]], main |-> m.ch]
       /\ verdict' = Judge(Claims(g, Line(r), Line(p), Line(x), Line(m), p.ch, x.ch, m.ch, r.ch), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

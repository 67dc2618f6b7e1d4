------------------------------- MODULE MC_Eon -------------------------------
(* Other networks: what is said of one network never depends on what is sent *)
(* about another.  gh holds, for each network, a decoder that only ever sees *)
(* the groups about that network.                                            *)
EXTENDS Walk

Opt == BaseOpt
On1 == 12289   \* 3001
On2 == 12545   \* 3101 (the same country and number, another region)
OnSeg(on, s) == LET c == IF on = On1 THEN 65 ELSE 97 IN Grp(28, s, Two(c + 2 * s, c + 2 * s + 1), on)
OnAf(on, a, b) == Grp(28, 4, Two(a, b), on)
Alphabet == <<OnSeg(On1, 0), OnSeg(On1, 1), OnSeg(On1, 2), OnSeg(On1, 3),
              OnSeg(On2, 0), OnSeg(On2, 1), OnSeg(On2, 2), OnSeg(On2, 3),
              OnAf(On1, 226, 10), OnAf(On1, 20, 205), OnAf(On2, 226, 30), OnAf(On2, 40, 205),
              Grp(28, 5, Two(10, 50), On1), Grp(28, 13, 2049, On2), Grp(29, 8, 0, On1), Lose(OnSeg(On1, 1), 3), Lose(OnSeg(On2, 1), 4)>>
Prelude == Preamble(Pi1)
About(g, on) == g.b[4] = on

Init == /\ ch = After(Opt, NoEnv, Prelude)
        /\ gh = [a |-> After(Opt, NoEnv, Prelude), b |-> After(Opt, NoEnv, Prelude)] /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"other_network">>, Prelude, Alphabet)

Claims(g, line, l1, l2) ==
    << <<"a group about a network tells its PI", (g.b[4] >= 0) => Value(line, "other_network", "pi") = S(PHex4(g.b[4]))>>,
       <<"without block 4 nothing is said of other networks", g.b[4] < 0 => ~Printed(line, "other_network")>>,
       <<"what is said of network 1 does not depend on network 2", About(g, On1) => line = l1>>,
       <<"what is said of network 2 does not depend on network 1", About(g, On2) => line = l2>>,
       <<"a name is that of the network", Value(line, "other_network", "ps") # <<>> =>
           Value(line, "other_network", "ps") = Tx([k \in 1..8 |-> (IF About(g, On1) THEN 64 ELSE 96) + k])>>,
       <<"a list is that of the network", Value(line, "other_network", "alt_frequencies") # <<>> =>
           Value(line, "other_network", "alt_frequencies") = AI(IF About(g, On1) THEN <<88500, 89500>> ELSE <<90500, 91500>>)>> >>

Next == \E i \in 1..Len(Alphabet) :
    LET g  == Alphabet[i]
        r  == ChannelStep(Opt, NoEnv, ch, g)
        r1 == IF About(g, On1) THEN ChannelStep(Opt, NoEnv, gh.a, g) ELSE [ch |-> gh.a, out |-> <<>>]
        r2 == IF About(g, On2) THEN ChannelStep(Opt, NoEnv, gh.b, g) ELSE [ch |-> gh.b, out |-> <<>>]
    IN /\ ch' = r.ch /\ gh' = [a |-> r1.ch, b |-> r2.ch]
       /\ verdict' = Judge(Claims(g, Line(r), Line(r1), Line(r2)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

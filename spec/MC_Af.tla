------------------------------- MODULE MC_Af -------------------------------
(* Alternative frequencies: any sequence of pairs of AF codes (0A), blocks   *)
(* being lost.                                                               *)
EXTENDS Walk

Opt == [BaseOpt EXCEPT !.partial = TRUE]
\* announcements of 1, 2, 3 and 5 frequencies; three frequencies; filler; LF/MF marker; no AF; invalid
Codes == <<225, 226, 227, 229, 10, 20, 30, 205, 250, 224, 0, 206>>
NCodes == Len(Codes)
AfGroup(a, b) == Grp(0, 0, Two(a, b), 0)
Alphabet == [k \in 1..(NCodes * NCodes) |-> AfGroup(Codes[((k - 1) \div NCodes) + 1], Codes[((k - 1) % NCodes) + 1])]
            \o <<Lose(AfGroup(10, 20), 3), Lose(AfGroup(10, 20), 2), Lose(AfGroup(10, 205), 4)>>
Prelude == Preamble(Pi1)

\* gh.want: number announced (0: no list under way);  gh.list: frequencies since then;
\* gh.lf: the code just before was the LF/MF marker
Init == /\ ch = After(Opt, NoEnv, Prelude) /\ gh = [want |-> 0, list |-> <<>>, lf |-> FALSE] /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"alt_frequencies_a", "alt_frequencies_b", "partial_alt_frequencies">>, Prelude, Alphabet)

None == [want |-> 0, list |-> <<>>, lf |-> FALSE]
Code(h, c) ==
    CASE c \in 225..249 -> [want |-> c - 224, list |-> <<>>, lf |-> FALSE]
      [] c = 205 \/ c = 224 -> [h EXCEPT !.lf = FALSE]
      [] c = 250 -> [h EXCEPT !.lf = TRUE]
      [] (IF h.lf THEN c \in 1..135 ELSE c \in 1..204) ->
           IF h.want = 0 \/ Len(h.list) = h.want THEN None
           ELSE [h EXCEPT !.list = Append(@, IF ~h.lf THEN 87500 + 100 * c ELSE IF c <= 15 THEN 144 + 9 * c ELSE 387 + 9 * c), !.lf = FALSE]
      [] OTHER -> None
\* a list as a user would read it: complete if as long as announced
Full(h) == h.want > 0 /\ Len(h.list) = h.want
SetOf(q) == {q[k] : k \in 1..Len(q)}
\* method B: an odd number, in pairs that contain the first frequency
LooksB(q, want) == want % 2 = 1 /\ Len(q) >= 3 /\ \A k \in 1..((Len(q) - 1) \div 2) : q[1] \in {q[2 * k], q[2 * k + 1]}
Strings(q) == [k \in 1..Len(q) |-> "i:" \o ToString(q[k])]

Claims(h0, h, g, line) ==
    LET a  == Value(line, "alt_frequencies_a", "_")
        bt == Value(line, "alt_frequencies_b", "tuned_frequency")
        bs == Value(line, "alt_frequencies_b", "same_programme")
        br == Value(line, "alt_frequencies_b", "regional_variants")
        p  == Value(line, "partial_alt_frequencies", "_")
        heard == line # Nothing /\ g.b[2] >= 0 /\ g.b[3] >= 0
        mb == LooksB(h.list, h.want)
        members(v) == IF v = <<>> THEN {} ELSE SetOf(v[2])
    IN << <<"only complete lists are printed", (a # <<>> \/ bt # <<>>) => heard /\ Full(h)>>,
          <<"a list printed by method A is the list received, in order", a # <<>> => a = AI(h.list) /\ ~mb>>,
          <<"a complete list is printed", (heard /\ Full(h)) => (a # <<>> \/ mb)>>,
          <<"a method B list is printed whole", bt # <<>> =>
              /\ mb /\ bt = I(h.list[1])
              /\ SetOf(Strings(h.list)) \subseteq members(bs) \cup members(br) \cup {"i:" \o ToString(h.list[1])}
              /\ members(bs) \cup members(br) \subseteq SetOf(Strings(h.list))>>,
          <<"a partial list is a list not yet complete", p # <<>> => heard /\ ~Full(h) /\ p = AI(h.list)>> >>

\* once printed the list begins anew; losing block 3 spoils a method B list
Hear(h, g, line) ==
    IF line = Nothing \/ g.b[2] < 0 THEN h
    ELSE IF g.b[3] < 0 THEN (IF LooksB(h.list, h.want) THEN [None EXCEPT !.lf = h.lf] ELSE h)
    ELSE Code(Code(IF Full(h) THEN [None EXCEPT !.lf = h.lf] ELSE h, Hi(g.b[3])), Lo(g.b[3]))

Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, NoEnv, ch, Alphabet[i])
        h == Hear(gh, Alphabet[i], Line(r))
    IN /\ ch' = r.ch /\ gh' = h
       /\ verdict' = Judge(Claims(gh, h, Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

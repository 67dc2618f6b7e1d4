------------------------------ MODULE Channel ------------------------------
(* One channel: confirmation of the station, block error rate, output.       *)
(* g.err: number of blocks of the group that were missing or had errors      *)
EXTENDS Station, PiCache

BlerWindow == 12
NewChannel == [pi |-> NewPi, has |-> FALSE, st |-> NewStation(0), errs |-> [k \in 1..BlerWindow |-> 0]]

RECURSIVE SumFrom(_, _, _)
SumFrom(q, k, acc) == IF k > Len(q) THEN acc ELSE SumFrom(q, k + 1, acc + q[k])
\* percentage of bad blocks among 4 * 12, rounded to nearest (halves up)
BlerPercent(errs) == (200 * SumFrom(errs, 1, 0) + 4 * BlerWindow) \div (2 * 4 * BlerWindow)

\* Process a group.  Returns [ch, out].
ChannelStep(opt, env, ch, g) ==
    LET errs == IF opt.bler THEN Append(Tail(ch.errs), g.err) ELSE ch.errs
        p    == IF HasPi(g) THEN PiUpdate(ch.pi, PiOf(g)) ELSE [new |-> FALSE, c |-> ch.pi]
        st   == IF p.new THEN NewStation(PiOf(g)) ELSE ch.st
        has  == ch.has \/ p.new
        bler == IF opt.bler THEN BlerPercent(errs) ELSE -1
        ch1  == [ch EXCEPT !.errs = errs, !.pi = p.c, !.has = has, !.st = st]
    IN IF opt.hex
       THEN [ch |-> ch1,
             out |-> IF IsEmptyGroup(g) THEN <<>>
                     ELSE <<K("hex", S((IF g.stream > 0 THEN "#S" \o ToString(g.stream) \o " " ELSE "") \o RawHex(g)))>>]
       ELSE IF ~has THEN [ch |-> ch1, out |-> <<>>]
       ELSE LET r == StationStep(opt, env, st, g, bler) IN [ch |-> [ch1 EXCEPT !.st = r.st], out |-> r.out]
=============================================================================

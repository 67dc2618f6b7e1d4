------------------------------ MODULE MC_Loss ------------------------------
(* Every group type, every value of the last five bits of block 2, every set *)
(* of lost blocks, in four situations of the decoder: fresh, with open data  *)
(* applications assigned to all types that may have one, with texts and      *)
(* lists under way, and with offset words (bits) instead of without.         *)
(* A line for a group with losses says nothing that the line for the whole   *)
(* group does not say.                                                       *)
EXTENDS Walk

Opt == BaseOpt
Apps == <<RtPlusApp, ErtApp, DabApp, 4660, ErtPlusApp>>
OdaTypes == {10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 21, 22, 23, 24, 25, 26, 27, 30} \cup {7, 9}
Fresh == Preamble(Pi1)
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o SetSeq(s \ {m})
Assign == Fresh \o [k \in 1..20 |-> Grp(6, SetSeq(OdaTypes)[k], 1, Apps[((k - 1) % 5) + 1])]
TmcOn == Fresh \o <<Grp(6, 16, 64, 52550), Grp(16, 1, 32768 + 101, 4660)>>
Half == Fresh \o <<Grp(0, 4, Two(226, 10), 16706), Grp(4, 0, 16706, 17220), Grp(20, 0, 16706, 17220), Grp(30, 0, 16706, 17220),
                   Grp(28, 0, 16706, 12289), Grp(28, 4, Two(225, 30), 12289)>>
Starts == <<Fresh, Assign, TmcOn, Half>>
From == [k \in 1..4 |-> After(Opt, NoEnv, Starts[k])]

VARIABLE at      \* <<situation, type, offsets?>>
Samples == <<<<Pi1, 24930, 25444>>, <<Pi1, 57610, 12289>>, <<Pi1, 2148, 0>>>>
\* the group of type tc with the given low bits, losses and contents
G(tc, low, c, mask, bits) ==
    LET full == <<c[1], (tc * 2048) + (low * 1), c[2], c[3]>>
        b    == [k \in 1..4 |-> IF Bit(mask, k - 1) THEN -1 ELSE full[k]]
    IN [b |-> b, cp |-> bits /\ tc % 2 = 1 /\ b[3] >= 0, nooff |-> ~bits, stream |-> 0, err |-> MissingOf(b)]

\* fields that show what there is of the blocks, including gaps
Gappy == {"in_house_data", "unknown_oda"}
Sub(a, b) == \A k \in DOMAIN a : k \in Gappy \/ (k \in DOMAIN b /\ \A p \in DOMAIN a[k] : p \in DOMAIN b[k] /\ b[k][p] = a[k][p])
Types == {"i", "s", "b", "t", "a", "g", "f", "*"}
Proper(l) == \A k \in DOMAIN l : \A p \in DOMAIN l[k] : l[k][p][1] \in Types
Ask(x, low, mask, c) ==
    LET tc == x[2]
        full == Line(ChannelStep(Opt, NoEnv, From[x[1]], G(tc, low, c, 0, x[3])))
        r    == ChannelStep(Opt, NoEnv, From[x[1]], G(tc, low, c, mask, x[3]))
        some == Line(r)
    IN << <<"a complete group prints a line with the PI, the type, TP and PTY",
             full # Nothing /\ {"pi", "group", "tp", "prog_type"} \subseteq DOMAIN full>>,
          <<"values have types", Proper(full) /\ Proper(some)>>,
          <<"losses only leave out", Sub(some, full)>>,
          <<"without block 2 nothing is decoded (except 15B with C')", (Bit(mask, 1) /\ ~(x[3] /\ tc % 2 = 1)) =>
              DOMAIN some \subseteq {"pi"}>>,
          <<"a group without block 2 leaves the station as it is", Bit(mask, 1) =>
              [r.ch.st EXCEPT !.hadPi = FALSE] = [From[x[1]].st EXCEPT !.hadPi = FALSE]>> >>

Init == at \in (1..4) \X (0..31) \X BOOLEAN /\ ch = 0 /\ gh = 0 /\ verdict = "todo"
Lows == IF "RDS_SMALL" \in DOMAIN IOEnv THEN {4, 13, 31} ELSE 0..31
AllOk(x) == \A low \in Lows, mask \in 0..15, k \in 1..3 : Judge(Ask(x, low, mask, Samples[k]), 1) = "ok"
FirstBad(x) == LET w == CHOOSE w \in Lows \X (0..15) \X (1..3) : Judge(Ask(x, w[1], w[2], Samples[w[3]]), 1) # "ok"
               IN <<w, Judge(Ask(x, w[1], w[2], Samples[w[3]]), 1)>>
Next == verdict = "todo" /\ UNCHANGED <<at, ch>>
        /\ IF AllOk(at) THEN verdict' = "ok" /\ gh' = 0 ELSE verdict' = "bad" /\ gh' = FirstBad(at)
Spec == Init /\ [][Next]_<<ch, gh, verdict, at>>
Fine == verdict # "bad"
=============================================================================

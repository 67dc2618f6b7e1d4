------------------------------ MODULE MC_Word ------------------------------
(* Fields that come from a single 16-bit word, for all 65536 values of it:   *)
(* block 2 (type, TP, PTY, and the switching flags), slow labelling codes    *)
(* and programme item numbers, and 5, 6 and 12 of the other networks.        *)
EXTENDS Walk

Opt == BaseOpt
VARIABLE w
Base == After(Opt, NoEnv, Preamble(Pi1))
LineOf(b, cp, nooff) == Line(ChannelStep(Opt, NoEnv, Base, [b |-> b, cp |-> cp, nooff |-> nooff, stream |-> 0, err |-> MissingOf(b)]))

T2(v) == v \div 2048
PtyOf(v) == (v \div 32) % 32
Flagged(v) == T2(v) \in {0, 1, 31}
Block2 ==
    LET l == LineOf(<<Pi1, w, 0, 0>>, FALSE, TRUE)
        x == LineOf(<<Pi1, w, 0, 0>>, TRUE, FALSE)         \* with offset C'
        y == LineOf(<<Pi1, w, 0, 0>>, FALSE, FALSE)        \* with offset C
        basic(q) == /\ Value(q, "tp", "_") = B((w \div 1024) % 2 = 1)
                    /\ Value(q, "prog_type", "_") = S(PtyName(PtyOf(w), FALSE))
        named == S(TypeOf(T2(w)))
    IN /\ basic(l) /\ basic(x) /\ basic(y)
       /\ Value(l, "group", "_") = named /\ Value(x, "group", "_") = named
       /\ Value(y, "group", "_") = (IF T2(w) % 2 = 0 THEN named ELSE <<>>)
       /\ Flagged(w) => /\ Value(l, "ta", "_") = B((w \div 16) % 2 = 1)
                        /\ Value(l, "is_music", "_") = B((w \div 8) % 2 = 1)
                        /\ DOMAIN l["di"] = {DiName[(w % 4) + 1]}
                        /\ l["di"][DiName[(w % 4) + 1]] = B((w \div 4) % 2 = 1)
       /\ ~Flagged(w) => {"ta", "is_music", "di"} \cap DOMAIN l = {}
       /\ T2(w) % 2 = 1 => (DOMAIN y \subseteq {"pi", "tp", "prog_type"})

\* 15B without block 2, from block 4
Block4 ==
    LET l == LineOf(<<Pi1, -1, Pi1, w>>, TRUE, FALSE)
        k == LineOf(<<Pi1, -1, Pi1, w>>, FALSE, FALSE)
    IN /\ DOMAIN k \subseteq {"pi"}
       /\ IF T2(w) = 31
          THEN /\ Value(l, "group", "_") = S("15B") /\ Value(l, "tp", "_") = B((w \div 1024) % 2 = 1)
               /\ Value(l, "prog_type", "_") = S(PtyName(PtyOf(w), FALSE))
               /\ Value(l, "ta", "_") = B((w \div 16) % 2 = 1)
          ELSE DOMAIN l \subseteq {"pi"}

Day(v) == v \div 2048
Hour(v) == (v \div 64) % 32
Minute(v) == v % 64
PinSet(v) == Day(v) > 0 /\ Hour(v) <= 24 /\ Minute(v) < 60
Clock2(v) == S((IF Hour(v) < 10 THEN "0" ELSE "") \o ToString(Hour(v)) \o ":" \o (IF Minute(v) < 10 THEN "0" ELSE "") \o ToString(Minute(v)))
PinIn(f, num, day, time) == IF PinSet(w) THEN num = I(w) /\ day = I(Day(w)) /\ time = Clock2(w) ELSE num = <<>> /\ day = <<>> /\ time = <<>>
ItemNumber ==
    LET a == LineOf(<<Pi1, 4096, 0, w>>, FALSE, TRUE)
        b == LineOf(<<Pi1, 6144, Pi1, w>>, FALSE, TRUE)
        e == LineOf(<<Pi1, 28 * 2048 + 14, w, 12289>>, FALSE, TRUE)
        top(l) == PinIn(0, Value(l, "prog_item_number", "_"), Value(l, "prog_item_started", "day"), Value(l, "prog_item_started", "time"))
    IN /\ top(a) /\ top(b)
       /\ PinIn(0, Value(e, "other_network", "prog_item_number"), Value(e, "other_network", "prog_item_started.day"),
                Value(e, "other_network", "prog_item_started.time"))

Items == {"country", "tmc_id", "language", "slc_broadcaster_bits", "ews"}
Labelling ==
    LET l == LineOf(<<Pi1, 4096, w, 0>>, FALSE, TRUE)
        v == (w \div 4096) % 8
        has == Items \cap DOMAIN l
    IN /\ Value(l, "has_linkage", "_") = B(w >= 32768)
       /\ has = CASE v = 0 -> IF w % 256 = 0 THEN {} ELSE {"country"} [] v = 1 -> {"tmc_id"} [] v = 3 -> {"language"}
                  [] v = 6 -> {"slc_broadcaster_bits"} [] v = 7 -> {"ews"} [] OTHER -> {}
       /\ v = 1 => Value(l, "tmc_id", "_") = I(w % 4096)
       /\ v = 7 => Value(l, "ews", "_") = I(w % 4096)
       /\ (({"has_linkage"} \cup Items) \cap DOMAIN LineOf(<<Pi1, 6144, w, 0>>, FALSE, TRUE)) = {}

Other ==
    LET e(v) == LineOf(<<Pi1, 28 * 2048 + v, w, 12289>>, FALSE, TRUE)
        f == w % 256
    IN /\ \A v \in 5..9 : Value(e(v), "other_network", "kilohertz") = IF f \in 1..204 THEN I(87500 + 100 * f) ELSE <<>>
       /\ Value(e(12), "other_network", "has_linkage") = B(w >= 32768)
       /\ Value(e(12), "other_network", "linkage_set") = IF w > 32768 /\ w % 4096 # 0 THEN I(w % 4096) ELSE <<>>
       /\ Value(e(13), "other_network", "ta") = B(w % 2 = 1)
       /\ Value(e(13), "other_network", "prog_type") = S(PtyName(w \div 2048, FALSE))
       /\ Value(e(15), "other_network", "broadcaster_data") = S(Hex4(w))

Which == IOEnv.RDS_WHICH
Init == w \in 0..255 /\ ch = 0 /\ gh = 0 /\ verdict = "todo"
Test == CASE Which = "flags" -> Block2 /\ Block4 [] Which = "slc" -> Labelling /\ ItemNumber [] Which = "eon" -> Other
\* from each of the 256 initial states all words with that low byte
Next == /\ verdict = "todo" /\ verdict' = "ok" /\ UNCHANGED <<ch, gh>>
        /\ \E h \in 0..255 : w' = 256 * h + w
Spec == Init /\ [][Next]_<<ch, gh, verdict, w>>
Fine == Test
=============================================================================

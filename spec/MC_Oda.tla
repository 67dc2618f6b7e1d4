------------------------------- MODULE MC_Oda -------------------------------
(* Assignment of open data applications: 3A groups (some lost) and groups of *)
(* the types concerned, in any order.                                        *)
EXTENDS Walk

Opt == BaseOpt
Free == 22                                  \* 11A, for open data only
Prim == 10                                  \* 5A, transparent data unless assigned
Fixed == 4                                  \* 2A, never open data
Unknown == 4660
Assign(tc, app) == Grp(6, tc, 0, app)
Types == <<Free, Prim, Fixed>>
Apps == <<RtPlusApp, DabApp, Unknown, 52550>>
Use(tc) == Grp(tc, 0, 16705, 16705)
Alphabet == [k \in 1..12 |-> Assign(Types[(k - 1) \div 4 + 1], Apps[((k - 1) % 4) + 1])]
            \o <<Use(Free), Use(Prim), Use(Fixed), Lose(Assign(Free, DabApp), 3), Lose(Assign(Prim, RtPlusApp), 4),
                 Lose(Assign(Free, Unknown), 2), Lose(Use(Free), 3), Use(Free + 1)>>
Prelude == Preamble(Pi1)

\* gh: group type -> application of the last complete 3A for it
Init == /\ ch = After(Opt, NoEnv, Prelude) /\ gh = [t \in {Free, Free + 1, Prim, Fixed} |-> 0] /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"open_data_app", "unknown_oda", "radiotext_plus", "dab", "transparent_data", "tmc", "radiotext">>, Prelude, Alphabet)

TC(g) == IF g.b[2] < 0 THEN -1 ELSE g.b[2] \div 2048
All(g) == \A k \in 2..4 : g.b[k] >= 0
Hear(h, g) == IF TC(g) = 6 /\ All(g) THEN [h EXCEPT ![g.b[2] % 32] = g.b[4]] ELSE h
Claims(h, g, line) ==
    LET tc == TC(g)
        a  == IF tc \in DOMAIN h THEN h[tc] ELSE 0
        apps == {k \in {"unknown_oda", "radiotext_plus", "dab", "transparent_data"} : Printed(line, k)}
    IN << <<"a complete 3A group is reported", (tc = 6 /\ All(g)) = Printed(line, "open_data_app")>>,
          <<"a 3A group tells type and application", (tc = 6 /\ All(g)) =>
              /\ Value(line, "open_data_app", "oda_group") = S(TypeOf(g.b[2] % 32))
              /\ Value(line, "open_data_app", "app_name") = S(AppName(g.b[4]))>>,
          <<"fixed group types are never open data", tc \in {Fixed, 6} => apps = {}>>,
          <<"an assigned type is decoded as the application", (tc \in {Free, Prim} /\ a # 0 /\ All(g)) =>
              CASE a = RtPlusApp -> apps = {"radiotext_plus"}
                [] a = DabApp -> apps = {"dab"}
                [] a = Unknown -> apps = {"unknown_oda"} /\ Value(line, "unknown_oda", "app_id") = S("1234")
                [] OTHER -> apps = {}>>,
          <<"a type that was not assigned is not guessed", (tc \in {Free, Free + 1, Prim} /\ a = 0) =>
              CASE tc = Prim -> apps = {"transparent_data"}
                [] OTHER -> apps = {"unknown_oda"} /\ Value(line, "unknown_oda", "app_id") = <<>> >> >>

Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, NoEnv, ch, Alphabet[i])
        h == Hear(gh, Alphabet[i])
    IN /\ ch' = r.ch /\ gh' = h
       /\ verdict' = Judge(Claims(h, Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

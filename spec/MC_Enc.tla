------------------------------- MODULE MC_Enc -------------------------------
(* Encrypted TMC: system information, administration groups and messages in  *)
(* any order.  The key table has entries 3 and 5.                            *)
EXTENDS Walk

Opt == BaseOpt
KeyRows == <<<<3, 165, 4, 7>>, <<5, 255, 0, 0>>>>
Env == [NoEnv EXCEPT !.keys = (3 :> [xor |-> 165, start |-> 4, rot |-> 7]) @@ (5 :> [xor |-> 255, start |-> 0, rot |-> 0])]
Sys(ltn) == Grp(6, 16, ltn * 64, 52550)
Admin(encid, ltn) == Grp(16, 0, 32 + encid, ltn * 1024)
Loc == 4321
Single == Grp(16, 9, 2048 + 101, Loc)
First == Grp(16, 1, 32768 + 2048 + 101, Loc)
Last == Grp(16, 1, 16384, 0)
Alphabet == <<Sys(0), Sys(2), Admin(3, 2), Admin(5, 9), Admin(7, 2), Single, First, Last,
              Lose(Admin(5, 9), 3), Lose(Sys(0), 4), Lose(Single, 4)>>
Prelude == Preamble(Pi1)

\* gh.init: system information seen; gh.enc: the service is encrypted; gh.encid: last encryption id (-1: none);
\* gh.first: a multi-group message is under way, and whether the service was encrypted when it began
Init == /\ ch = After(Opt, Env, Prelude) /\ gh = [init |-> FALSE, enc |-> FALSE, encid |-> -1, first |-> "no"] /\ verdict = "ok"
        /\ EmitSetupWith(Opt, <<"tmc">>, Prelude, Alphabet, KeyRows)

All(g) == \A k \in 2..4 : g.b[k] >= 0
KindOf(g) == IF ~All(g) THEN "lost" ELSE IF g.b[2] \div 2048 = 6 THEN "sys"
             ELSE CASE g.b[2] % 32 = 0 -> "admin" [] g.b[2] % 32 = 9 -> "single"
                    [] OTHER -> IF Bit(g.b[3], 15) THEN "first" ELSE "last"
Ready(h) == h.init /\ (h.enc => h.encid >= 0)
Hear(h, g) ==
    CASE KindOf(g) = "sys" -> [h EXCEPT !.init = TRUE, !.enc = g.b[3] \div 64 = 0]
      [] KindOf(g) = "admin" -> IF h.init THEN [h EXCEPT !.encid = g.b[3] % 32] ELSE h
      [] KindOf(g) = "first" -> IF Ready(h) THEN [h EXCEPT !.first = IF h.first # "no" THEN @ ELSE IF h.enc THEN "enc" ELSE "clear"] ELSE h
      [] KindOf(g) = "last" -> IF Ready(h) THEN [h EXCEPT !.first = "no"] ELSE h
      [] OTHER -> h
RotL(v, n) == ((v * 2^n) % 65536) + (v * 2^n) \div 65536
Plain(encid) == IF encid = 3 THEN RotL(Loc ^^ (165 * 16), 7) ELSE Loc ^^ 255

Claims(h0, g, line) ==
    LET k    == KindOf(g)
        msg  == Value(line, "tmc", "message.event_codes") # <<>>
        loc  == Value(line, "tmc", "message.location")
        eloc == Value(line, "tmc", "message.encrypted_location")
        enc  == IF k = "single" THEN h0.enc ELSE h0.first = "enc"
    IN << <<"messages need system information, and an encryption id if encrypted",
            msg = (Ready(h0) /\ (k = "single" \/ (k = "last" /\ h0.first # "no")))>>,
          <<"a clear message has its location in clear", (msg /\ ~enc) => loc = I(Loc) /\ eloc = <<>> >>,
          <<"an encrypted location is shown as it is", (msg /\ enc) => eloc = I(Loc)>>,
          <<"it is decrypted only with the key of the current encryption id", (msg /\ enc) =>
              \/ (loc = <<>>)
              \/ (h0.encid \in {3, 5} /\ loc = I(Plain(h0.encid)))>>,
          <<"it is decrypted if there is such a key", (msg /\ enc /\ h0.enc /\ h0.encid \in {3, 5}) => loc # <<>> >> >>

Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, Env, ch, Alphabet[i])
    IN /\ ch' = r.ch /\ gh' = Hear(gh, Alphabet[i])
       /\ verdict' = Judge(Claims(gh, Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

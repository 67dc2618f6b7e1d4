------------------------------- MODULE MC_Sync -------------------------------
(* Acquisition and loss of synchronisation.  A transmitter sends the blocks  *)
(* A B C D over and over; a step is a run of good blocks, of spoilt blocks,  *)
(* of blocks with one wrong bit, a slip of one bit, or a jump in the cycle.  *)
(* Without error correction, so that nothing is delivered by accident.       *)
EXTENDS BlockSync, TLCExt

VARIABLES s, gh, verdict
vars == <<s, gh, verdict>>
Cfg == [win |-> 50, max |-> 42, fec |-> FALSE]

Data == <<24577, 0, 4660, 43981>>
Good == [k \in 0..3 |-> Encode(Data[k + 1], IF k = 3 THEN 4 ELSE k)]
One == [k \in 0..3 |-> Good[k] ^^ 4096]
Spoilt == 45678901
\* steps: sequences of <<kind, how many>>
Steps == << <<"good", 1>>, <<"good", 2>>, <<"good", 3>>, <<"good", 9>>, <<"bad", 1>>, <<"bad", 5>>, <<"bad", 42>>, <<"one", 2>>, <<"slip", 1>>, <<"jump", 2>> >>

\* gh.phase: next block of the cycle
\* gh.shift: how far the cycle was shifted by jumps
\* gh.seen: for the last 13 blocks since the last slip, whether they came intact and the shift then
\* gh.win: the blocks since synchronisation (TRUE: failed), at most 50
LastOf(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, Len(q) - n + 1, Len(q))
Intact(q) == Len(SelectSeq(q, LAMBDA x : x))
Aligned(q, sh) == Len(SelectSeq(q, LAMBDA x : x[1] /\ x[2] = sh))

\* bits of a word into the receiver: returns [s, groups]
RECURSIVE Receive(_, _, _, _)
Receive(r, w, k, acc) ==                       \* k: bits left
    IF k = 0 THEN [s |-> r, groups |-> acc]
    ELSE IF r.sync /\ k = 26 THEN LET x == SyncBlock(Cfg, r, w) IN [s |-> x.s, groups |-> acc \o x.groups]
    ELSE LET x == HuntBit(Cfg, r, Bits(w, 1, k - 1)) IN
         Receive(x.s, w, k - 1, acc \o x.groups)

Ok(c, name, v) == IF v # "ok" THEN v ELSE IF c THEN "ok" ELSE name
\* one block of the transmitter: [s, gh, verdict]
Block(st, w, intact) ==
    LET h  == st.gh
        r  == Receive(st.s, w, 26, <<>>)
        seen == LastOf(Append(h.seen, <<intact, h.shift>>), 13)
        was  == st.s.sync
        now  == r.s.sync
        win  == IF was THEN LastOf(Append(h.win, ~intact), 50) ELSE IF now THEN <<~intact>> ELSE <<>>
        bad  == Len(win) - Intact([k \in 1..Len(win) |-> ~win[k]])
        h1   == [h EXCEPT !.phase = (@ + 1) % 4, !.seen = seen, !.win = IF now THEN win ELSE <<>>]
        ends == h.phase = 3
        full == \A g \in {r.groups[k] : k \in 1..Len(r.groups)} : \A k \in 1..4 : g.b[k] \in {-1, Data[k]}
        v1 == Ok(~(now /\ ~was) \/ (intact /\ Aligned(seen, h.shift) >= 3), "synchronised without three good blocks", st.verdict)
        v2 == Ok(~(~was /\ Len(seen) >= 3 /\ \A k \in (Len(seen) - 2)..Len(seen) : seen[k] = <<TRUE, h.shift>>) \/ now, "three good blocks in a row do not synchronise", v1)
        v3 == Ok(~was \/ (now <=> bad <= 42), "synchronisation is lost if, and only if, more than 42 of 50 blocks fail", v2)
        v4 == Ok(full, "a group carries a block that was not sent there", v3)
        v5 == Ok((Len(r.groups) = 1) = (now /\ ends), "groups end with block D, once each", v4)
    IN [s |-> r.s, gh |-> h1, verdict |-> v5]

RECURSIVE Run(_, _, _)
Run(st, kind, n) ==
    IF n = 0 THEN st
    ELSE LET p == st.gh.phase IN
         CASE kind = "good" -> Run(Block(st, Good[p], TRUE), kind, n - 1)
           [] kind = "one" -> Run(Block(st, One[p], FALSE), kind, n - 1)
           [] kind = "bad" -> Run(Block(st, Spoilt, FALSE), kind, n - 1)
           [] kind = "jump" -> [st EXCEPT !.gh.phase = (p + n) % 4, !.gh.shift = (@ + n) % 4]
           [] kind = "slip" -> [st EXCEPT !.s = HuntBit(Cfg, st.s, 0).s, !.gh.seen = <<>>]

\* slips and jumps only while out of sync, where their effect is clear; in sync the receiver loses
\* synchronisation first (by the errors that follow)
Init == s = NewSync(Cfg) /\ gh = [phase |-> 0, shift |-> 0, seen |-> <<>>, win |-> <<>>] /\ verdict = "ok"
        /\ ("RDS_EMIT" \in DOMAIN IOEnv => PrintT("SETUP " \o ToJson([good |-> <<Good[0], Good[1], Good[2], Good[3]>>,
               one |-> <<One[0], One[1], One[2], One[3]>>, bad |-> Spoilt, steps |-> Steps])))
Next == \E i \in 1..Len(Steps) :
    /\ s.sync => Steps[i][1] \notin {"slip", "jump"}
    /\ LET x == Run([s |-> s, gh |-> gh, verdict |-> "ok"], Steps[i][1], Steps[i][2]) IN
       s' = x.s /\ gh' = x.gh /\ verdict' = x.verdict
    /\ ("RDS_EMIT" \in DOMAIN IOEnv => PrintT("EDGE " \o ToString(TLCFP(<<s, gh>>)) \o " " \o ToString(i) \o " " \o ToString(TLCFP(<<s', gh'>>))))
Spec == Init /\ [][Next]_vars
Bound == IF "RDS_BOUND" \in DOMAIN IOEnv THEN atoi(IOEnv.RDS_BOUND) ELSE 7
Bounded == TLCGet("level") <= Bound
Holds == verdict = "ok"
Show == [gh |-> gh, verdict |-> verdict]
=============================================================================

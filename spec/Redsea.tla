------------------------------- MODULE Redsea -------------------------------
(* The whole decoder for one channel: input in one of the text formats (or   *)
(* as groups), output as lines.                                              *)
(* inp: [kind |-> "groups", items |-> seq of groups]                         *)
(*      [kind |-> "hex" / "tef", items |-> seq of lines (character codes)]    *)
(*      [kind |-> "bits", items |-> seq of 26-bit words, n |-> number of bits]*)
(*      [kind |-> "mpx", items |-> the groups transmitted, lockin, need]     *)
(* State s: [pos, ch, sync, pi, end, info, cut]                              *)
EXTENDS Channel, BlockSync, Readers, LocationDb

SyncCfg(opt) == [win |-> 50, max |-> 42, fec |-> opt.fec]

NewDecoder(opt) == [pos |-> 0, ch |-> NewChannel, sync |-> NewSync(SyncCfg(opt)), pi |-> -1, end |-> FALSE, info |-> 0, cut |-> 0]

Size(inp) == IF inp.kind = "bits" THEN inp.n ELSE Len(inp.items)

\* bits p+1 .. p+26 of packed bits
BitAt(inp, p) == Bits(inp.items[p \div 26 + 1], 1, 25 - (p % 26))
WordAt(inp, p) ==
    LET r == p % 26 IN
    IF r = 0 THEN inp.items[p \div 26 + 1]
    ELSE (inp.items[p \div 26 + 1] % P2[26 - r]) * P2[r] + inp.items[p \div 26 + 2] \div P2[26 - r]

\* Hunt through at most n bits.  Returns [s (a sync state), used, groups]
RECURSIVE Hunt(_, _, _, _, _)
Hunt(cfg, inp, s, p, n) ==
    IF n = 0 \/ p >= inp.n THEN [s |-> s, pos |-> p, groups |-> <<>>]
    ELSE LET r == HuntBit(cfg, s, BitAt(inp, p)) IN
         IF r.s.sync \/ Len(r.groups) > 0 THEN [s |-> r.s, pos |-> p + 1, groups |-> r.groups]
         ELSE Hunt(cfg, inp, r.s, p + 1, n - 1)

\* Everything up to the next event.  Returns [s, groups]; groups has 0 or 1 elements
ReadStep(opt, inp, s) ==
    IF s.pos >= Size(inp)
    THEN [s |-> [s EXCEPT !.end = TRUE],
          groups |-> IF inp.kind = "bits" THEN FlushGroup(s.sync)
                     ELSE IF inp.kind = "tef" THEN TefFlush(s.pi) ELSE <<>>]
    ELSE CASE inp.kind = "mpx" ->
                LET g == inp.items[s.pos + 1] IN
                [s |-> [s EXCEPT !.pos = @ + 1, !.cut = 0],
                 groups |-> <<[g EXCEPT !.b = [k \in 1..4 |-> IF k <= s.cut THEN -1 ELSE g.b[k]]]>>]
           [] inp.kind = "groups" -> [s |-> [s EXCEPT !.pos = @ + 1], groups |-> <<inp.items[s.pos + 1]>>]
           [] inp.kind = "hex" -> [s |-> [s EXCEPT !.pos = @ + 1], groups |-> HexLine(inp.items[s.pos + 1])]
           [] inp.kind = "tef" ->
                LET r == TefLine(s.pi, inp.items[s.pos + 1]) IN
                [s |-> [s EXCEPT !.pos = @ + 1, !.pi = r.pi], groups |-> r.groups]
           [] inp.kind = "bits" ->
                IF ~s.sync.sync
                THEN LET r == Hunt(SyncCfg(opt), inp, s.sync, s.pos, 64) IN
                     [s |-> [s EXCEPT !.pos = r.pos, !.sync = r.s], groups |-> r.groups]
                ELSE IF s.pos + 26 > inp.n
                THEN [s |-> [s EXCEPT !.pos = inp.n], groups |-> <<>>]       \* not a whole block left
                ELSE LET r == SyncBlock(SyncCfg(opt), s.sync, WordAt(inp, s.pos)) IN
                     [s |-> [s EXCEPT !.pos = @ + 26, !.sync = r.s], groups |-> r.groups]

\* One step of the decoder.  Returns [s, out]; out has 0 or 1 lines
InfoLine(i) == O("location_table_info", ("ltn" :> I(i.ltn)) @@ ("num_points" :> I(i.points))
                                        @@ ("num_roads" :> I(i.roads)) @@ ("num_names" :> I(i.names)))
DecoderStep(opt, env, inp, s) ==
    IF ~opt.hex /\ s.info < Len(env.info)         \* location tables are announced first
    THEN [s |-> [s EXCEPT !.info = @ + 1], out |-> <<InfoLine(env.info[s.info + 1])>>]
    ELSE
    LET r == ReadStep(opt, inp, s) IN
    IF r.groups = <<>> THEN [s |-> r.s, out |-> <<>>]
    ELSE LET c == ChannelStep(opt, env, s.ch, r.groups[1]) IN
         [s |-> [r.s EXCEPT !.ch = c.ch], out |-> c.out]
=============================================================================

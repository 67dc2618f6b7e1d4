----------------------------- MODULE BlockSync -----------------------------
(* From a stream of bits to groups (IEC 62106-2 annexes B and C): offset     *)
(* words, syndromes, correction of short bursts, acquisition and loss of     *)
(* synchronisation.                                                          *)
(* cfg: [win |-> length of the error window, max |-> errors tolerated in it, *)
(*       fec |-> whether errors are corrected]                               *)
EXTENDS RdsBits, Bitwise, FiniteSets, Json, IOUtils

\* Offsets: 0 A, 1 B, 2 C, 3 C', 4 D; NoOffset if the syndrome is none of these
NoOffset == 9
Offsets  == 0..4
OffsetWord == <<252, 408, 360, 848, 436>>     \* 0FC 198 168 350 1B4, added to the checkword
BlockOf(o) == CASE o = 0 -> 0 [] o = 1 -> 1 [] o \in {2, 3} -> 2 [] o = 4 -> 3
NextOffset(o) == CASE o = 0 -> 1 [] o = 1 -> 2 [] o \in {2, 3} -> 4 [] o = 4 -> 0

-----------------------------------------------------------------------------
(* The code: generator x^10 + x^8 + x^7 + x^5 + x^4 + x^3 + 1.                *)
(* Syndromes are computed by the shift register of the standard: multiply by *)
(* x^325 modulo g, here simply as the remainder of a polynomial division.    *)
Gen == 1465                                   \* 101 1011 1001

RECURSIVE PowMod(_)                           \* x^n mod g
PowMod(n) == IF n = 0 THEN 1
             ELSE LET d == 2 * PowMod(n - 1) IN IF d >= 1024 THEN d ^^ Gen ELSE d
Pow == [n \in 0..25 |-> PowMod(n)]

RECURSIVE RemSum(_, _, _)
RemSum(v, k, acc) == IF k > 25 THEN acc ELSE RemSum(v, k + 1, IF Bit(v, k) THEN acc ^^ Pow[k] ELSE acc)
\* remainder of the 26-bit word w; 0 for code words.  The definition:
RemDef(w) == RemSum(w, 0, 0)
\* and the same by table look-up (MC_Fec checks that the tables agree with the definitions)
CodeTables == JsonDeserialize(IOEnv.RDS_CODE)
Rem(w) == CodeTables.remLo[(w % 8192) + 1] ^^ CodeTables.remHi[(w \div 8192) + 1]

\* The block that carries v at offset o
Encode(v, o) == v * 1024 + (Rem(v * 1024) ^^ OffsetWord[o + 1])
DataOf(w) == w \div 1024

OffsetDef(r) == IF \E o \in Offsets : OffsetWord[o + 1] = r THEN CHOOSE o \in Offsets : OffsetWord[o + 1] = r ELSE NoOffset
OffsetOf(w) == CodeTables.offset[Rem(w) + 1]

\* Errors that are corrected: one bit, or two adjacent bits
Bursts == {P2[k] : k \in 0..25} \cup {P2[k] + P2[k + 1] : k \in 0..24}
\* remainder -> burst (0: none); well defined because the code separates them (see MC_Fec)
BurstDef(r) == IF \E e \in Bursts : RemDef(e) = r THEN CHOOSE e \in Bursts : RemDef(e) = r ELSE 0
BurstOf(r) == CodeTables.burst[r + 1]

\* What becomes of word w where offset o is expected: <<>> or <<data>>
Accept(w, o, fec) ==
    IF OffsetOf(w) = o THEN <<DataOf(w)>>
    ELSE LET e == BurstOf(Rem(w) ^^ OffsetWord[o + 1]) IN
         IF fec /\ e # 0 THEN <<DataOf(w ^^ e)>> ELSE <<>>

-----------------------------------------------------------------------------
(* Synchronisation.  The state:                                              *)
(*   reg     the last 26 bits;  n  number of bits seen                       *)
(*   sync    in sync;  exp  offset expected next                             *)
(*   pulses  the last four offset words seen while out of sync               *)
(*   win     which of the last blocks failed (newest last), nfail how many   *)
(*   cur     the group being received                                        *)
EmptyGroup == [b |-> <<-1, -1, -1, -1>>, cp |-> FALSE, nooff |-> FALSE, stream |-> 0, err |-> 4]
NoPulse == <<NoOffset, 0>>
NewSync(cfg) == [reg |-> 0, n |-> 0, sync |-> FALSE, exp |-> 0,
                 pulses |-> <<NoPulse, NoPulse, NoPulse, NoPulse>>,
                 win |-> [k \in 1..cfg.win |-> 0], nfail |-> 0, cur |-> EmptyGroup]

\* Pulse p can come after pulse q in an uninterrupted sequence of blocks
Follows(p, q) ==
    /\ p[1] # NoOffset /\ q[1] # NoOffset
    /\ (p[2] - q[2]) % 26 = 0
    /\ (p[2] - q[2]) \div 26 <= 6
    /\ (BlockOf(q[1]) + (p[2] - q[2]) \div 26) % 4 = BlockOf(p[1])
Rhythm(ps) == \E i, j \in 1..3 : i < j /\ Follows(ps[4], ps[j]) /\ Follows(ps[j], ps[i])

\* The 26 bits in the register are a block.  Returns [s, groups]
TakeBlock(cfg, s0) ==
    LET w    == s0.reg
        o    == OffsetOf(w)
        exp  == IF s0.exp = 2 /\ o = 3 THEN 3 ELSE s0.exp
        fail == o # exp
        win  == Append(Tail(s0.win), IF fail THEN 1 ELSE 0)
        nf   == s0.nfail - Head(s0.win) + (IF fail THEN 1 ELSE 0)
        lost == nf > cfg.max
        got  == Accept(w, exp, cfg.fec)
        k    == BlockOf(exp) + 1
        cur  == IF got = <<>> THEN s0.cur
                ELSE [s0.cur EXCEPT !.b[k] = got[1],
                                    !.cp = IF k = 3 THEN exp = 3 ELSE @,
                                    !.err = IF fail THEN @ ELSE @ - 1]
        nx   == NextOffset(exp)
    IN IF lost
       THEN [s |-> [s0 EXCEPT !.sync = FALSE, !.exp = exp, !.win = [i \in 1..cfg.win |-> 0], !.nfail = 0], groups |-> <<>>]
       ELSE [s |-> [s0 EXCEPT !.exp = nx, !.win = win, !.nfail = nf, !.cur = IF nx = 0 THEN EmptyGroup ELSE cur],
             groups |-> IF nx = 0 THEN <<cur>> ELSE <<>>]

\* One more bit while out of sync
HuntBit(cfg, s0, bit) ==
    LET reg == (s0.reg % P2[25]) * 2 + bit
        n   == s0.n + 1
        o   == OffsetOf(reg)
        ps  == IF o = NoOffset THEN s0.pulses ELSE Append(Tail(s0.pulses), <<o, n>>)
        s1  == [s0 EXCEPT !.reg = reg, !.n = n, !.pulses = ps]
    IN IF o # NoOffset /\ Rhythm(ps)
       THEN TakeBlock(cfg, [s1 EXCEPT !.sync = TRUE, !.exp = o, !.cur = EmptyGroup])
       ELSE [s |-> s1, groups |-> <<>>]

\* Twenty-six more bits while in sync
SyncBlock(cfg, s0, word) == TakeBlock(cfg, [s0 EXCEPT !.reg = word, !.n = @ + 26])

\* What remains at the end of the input
FlushGroup(s) == IF \A k \in 1..4 : s.cur.b[k] < 0 THEN <<>> ELSE <<s.cur>>
=============================================================================

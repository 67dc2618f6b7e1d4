------------------------------- MODULE MC_Rft -------------------------------
(* RDS2 file transfer on two pipes: announcements of two sizes, segments in  *)
(* two versions and with both toggle values, in any order, repeated or lost. *)
EXTENDS Walk

Opt == [BaseOpt EXCEPT !.streams = TRUE]
\* pipe p: file of 7 or 12 bytes (2 or 3 segments)
Size(p, n) == Raw(<<32768 + p, 65346, 0, n>>, 1)                     \* assignment of pipe p, variant 0
SegBytes(p, a, v) == [k \in 1..5 |-> 16 * p + 8 * v + a + 32 * k]
Seg(p, t, a, v) == LET q == SegBytes(p, a, v) IN Raw(<<8192 + p * 256 + t * 128, a * 256 + q[1], Two(q[2], q[3]), Two(q[4], q[5])>>, 2)
Alphabet == <<Size(0, 7), Size(0, 12), Seg(0, 0, 0, 0), Seg(0, 0, 1, 0), Seg(0, 0, 2, 0), Seg(0, 1, 0, 1), Seg(0, 1, 1, 1),
              Seg(0, 0, 1, 1), Size(1, 7), Seg(1, 0, 0, 0), Seg(1, 0, 1, 0), Seg(1, 1, 1, 0),
              Lose(Seg(0, 0, 0, 0), 3), Lose(Size(0, 7), 4), Seg(0, 0, 100, 0)>>
Prelude == Preamble(Pi1)
Pipes == {0, 1}

\* per pipe: size announced, toggle, segments since it changed or the file was printed, bytes as last received
NoFile == [size |-> 0, tog |-> 0, got |-> {}, data |-> [a \in {0, 1, 2, 100} |-> <<>>]]
Init == /\ ch = After(Opt, NoEnv, Prelude) /\ gh = [p \in Pipes |-> NoFile] /\ verdict = "ok"
        /\ EmitSetup(Opt, <<"rft">>, Prelude, Alphabet)

All(g) == \A k \in 1..4 : g.b[k] >= 0
IsSize(g) == All(g) /\ g.b[1] \div 16384 = 2
IsSeg(g) == All(g) /\ g.b[1] \div 16384 = 0
PipeOf(g) == IF IsSize(g) THEN g.b[1] % 64 ELSE (g.b[1] \div 256) % 16
Addr(g) == (g.b[1] % 128) * 256 + g.b[2] \div 256
Tog(g) == (g.b[1] \div 128) % 2
FileBytes(f) == LET n == IF f.size = 7 THEN 2 ELSE 3
                    all == f.data[0] \o f.data[1] \o (IF n = 3 THEN f.data[2] ELSE <<>>)
                IN SubSeq(all, 1, f.size)
Has1(f) == f.size > 0 /\ (IF f.size = 7 THEN {0, 1} ELSE {0, 1, 2}) \subseteq f.got
WithSeg(f, g) == [size |-> f.size, tog |-> Tog(g), got |-> (IF Tog(g) # f.tog THEN {} ELSE f.got) \cup {Addr(g)},
                  data |-> [f.data EXCEPT ![Addr(g)] = <<Lo(g.b[2]), Hi(g.b[3]), Lo(g.b[3]), Hi(g.b[4]), Lo(g.b[4])>>]]
Heard(h, g) == IF IsSize(g) THEN [h EXCEPT ![PipeOf(g)].size = g.b[4]]
               ELSE IF IsSeg(g) THEN [h EXCEPT ![PipeOf(g)] = WithSeg(@, g)] ELSE h
Hear(h, g) == LET x == Heard(h, g) IN
              IF IsSeg(g) /\ Has1(x[PipeOf(g)]) THEN [x EXCEPT ![PipeOf(g)].got = {}] ELSE x

Claims(h, g, line) ==
    LET c == Value(line, "rft", "data.file_contents")
        p == PipeOf(g)
    IN << <<"contents are printed with the segment that completes the file, and only then",
            (c # <<>>) = (IsSeg(g) /\ Has1(h[p]))>>,
          <<"the contents are the bytes last received, exactly as many as announced", c # <<>> => c = Tx(FileBytes(h[p]))>>,
          <<"a segment tells its pipe", IsSeg(g) => Value(line, "rft", "data.pipe") = I(p)>>,
          <<"lost blocks: nothing is decoded", ~All(g) => ~Printed(line, "rft")>> >>

Next == \E i \in 1..Len(Alphabet) :
    LET r == ChannelStep(Opt, NoEnv, ch, Alphabet[i])
    IN /\ ch' = r.ch /\ gh' = Hear(gh, Alphabet[i])
       /\ verdict' = Judge(Claims(Heard(gh, Alphabet[i]), Alphabet[i], Line(r)), 1)
       /\ Edge(i)
Spec == Init /\ [][Next]_vars
=============================================================================

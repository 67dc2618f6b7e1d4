-------------------------------- MODULE Rft --------------------------------
(* RDS2 file transfer: one file per pipe.                                    *)
EXTENDS RdsBits, FiniteSets

\* size: announced size in bytes, 0 if unknown (or impossible)
\* data: address -> five bytes, as last received;  got: addresses received since the last restart
\* (both in chunks of 256 addresses: chunk -> address within it -> ...)
NoData == [x \in {} |-> <<>>]
ChunkLen == 256
NewFile == [size |-> 0, toggle |-> 0, data |-> NoData, got |-> NoData]

MaxFile == 32768 * 5
FileSize(f, n) == [f EXCEPT !.size = IF n <= MaxFile THEN n ELSE 0]

Chunk(d, c, none) == IF c \in DOMAIN d THEN d[c] ELSE none
Segment(f, toggle, addr, bytes) ==
    LET c == addr \div ChunkLen
        k == addr % ChunkLen
        g == IF toggle # f.toggle THEN NoData ELSE f.got
    IN [f EXCEPT !.toggle = toggle,
                 !.data = (c :> ((k :> bytes) @@ Chunk(@, c, NoData))) @@ @,
                 !.got = (c :> (Chunk(g, c, {}) \cup {k})) @@ g]

NSegments(f) == (f.size + 4) \div 5
FileComplete(f) ==
    /\ f.size > 0
    /\ LET n == NSegments(f)
           last == n \div ChunkLen
       IN /\ \A c \in 0..(last - 1) : c \in DOMAIN f.got /\ Cardinality(f.got[c]) = ChunkLen
          /\ \A k \in 0..((n % ChunkLen) - 1) : last \in DOMAIN f.got /\ k \in f.got[last]
Contents(f) == [k \in 1..f.size |-> LET a == (k - 1) \div 5 IN f.data[a \div ChunkLen][a % ChunkLen][((k - 1) % 5) + 1]]
Restart(f) == [f EXCEPT !.got = NoData]
=============================================================================

----------------------------- MODULE MC_Options -----------------------------
(* All combinations of a set of option values, each printed with the verdict *)
EXTENDS Options, TLC, Json

VARIABLE o
Rates == {0, -1, 1, 127999, 128000, 171000, 192000, 40000000, 41000000}
Init == o \in [input : {"mpx", "hex", "bits", "tef", "file", "flac", "HEX", ""},
               output : {"json", "hex", "xml"},
               rate : Rates, channels : {0, -1, 1, 2, 32, 33},
               streams : BOOLEAN, feed : BOOLEAN, extra : BOOLEAN]
Next == FALSE /\ UNCHANGED o
Spec == Init /\ [][Next]_o

\* A run that is accepted has a defined meaning: one reader, one writer, one sample rate
Meaningful == Runs(o) => /\ o.input \in InputFormats /\ o.output \in OutputFormats
                         /\ (o.streams => o.input \notin {"bits", "tef"})
                         /\ (IsMpx(o) /\ o.rate # 0 => 2 * 57000 < o.rate)
Emit == PrintT("CASE " \o ToJson([o |-> o, runs |-> Runs(o)]))
=============================================================================

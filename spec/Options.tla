------------------------------ MODULE Options ------------------------------
(* Which combinations of options are accepted.  An option value is a record  *)
(*   input    "mpx" "hex" "bits" "tef" "file" or another (unknown) format     *)
(*   output   "json" "hex" or another                                        *)
(*   rate     sample rate in Hz; 0 if not given, -1 if not a number          *)
(*   channels 0 if not given, -1 if not a number                             *)
(*   streams, feed  booleans;  extra  a stray argument                       *)
EXTENDS Integers, Sequences

MinRate == 128000
MaxRate == 40000000
MaxChannels == 32
InputFormats == {"mpx", "hex", "bits", "tef", "file"}
OutputFormats == {"json", "hex"}
IsMpx(o) == o.input \in {"mpx", "file"}

Accepted(o) ==
    /\ o.input \in InputFormats
    /\ o.output \in OutputFormats
    /\ o.rate = 0 \/ (o.rate >= MinRate /\ o.rate <= MaxRate)
    /\ o.channels = 0 \/ (o.channels >= 1 /\ o.channels <= MaxChannels)
    /\ o.channels > 1 => IsMpx(o)
    /\ o.streams => o.input \in {"mpx", "file", "hex"}
    /\ o.feed => o.input # "file"
    /\ ~o.extra
\* RDS2 carriers lie above 66 kHz
RateEnough(o) == ~(o.streams /\ o.input = "mpx" /\ o.rate > 0 /\ o.rate < 171000)
Runs(o) == Accepted(o) /\ RateEnough(o)
=============================================================================

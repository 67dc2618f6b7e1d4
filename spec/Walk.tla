-------------------------------- MODULE Walk --------------------------------
(* Common part of the models that let a transmitter send any sequence of     *)
(* groups from a finite alphabet to the decoder of Channel.tla.              *)
(*   ch       the decoder                                                    *)
(*   gh       what the model itself remembers of the transmission            *)
(*   verdict  "ok", or the name of the claim that the last step broke        *)
(* The claims are written over gh and the printed line only: they say what a *)
(* user may rely on, not how the decoder keeps its buffers.                  *)
(* With RDS_EMIT set every transition is printed, so that walks through the  *)
(* state graph can be replayed into the real program (lib/models.py).        *)
EXTENDS Channel, TLCExt

VARIABLES ch, gh, verdict
vars == <<ch, gh, verdict>>

Pi1 == 24577       \* 6001
Pi2 == 24834       \* 6102
BaseOpt == [partial |-> FALSE, rbds |-> FALSE, streams |-> FALSE, ts |-> FALSE, raw |-> FALSE,
            bler |-> FALSE, hex |-> FALSE, fec |-> TRUE, nchan |-> 1, chan |-> 0]
NoEnv == [keys |-> Nothing, dbs |-> Nothing, info |-> <<>>]

MissingOf(b) == Len(SelectSeq(b, LAMBDA x : x < 0))
Raw(b, stream) == [b |-> b, cp |-> FALSE, nooff |-> TRUE, stream |-> stream, err |-> MissingOf(b)]
\* group of type tc from station pi; low: the last five bits of block 2
GrpOf(pi, tc, low, b3, b4) == Raw(<<pi, tc * 2048 + low, b3, b4>>, 0)
Grp(tc, low, b3, b4) == GrpOf(Pi1, tc, low, b3, b4)
\* without block k
Lose(g, k) == LET b == [g.b EXCEPT ![k] = -1] IN [g EXCEPT !.b = b, !.err = MissingOf(b)]
Two(a, b) == a * 256 + b

Preamble(pi) == [k \in 1..3 |-> GrpOf(pi, 12, 0, 0, 0)]

RECURSIVE Feed(_, _, _, _, _)
Feed(opt, env, c, q, k) == IF k > Len(q) THEN c ELSE Feed(opt, env, ChannelStep(opt, env, c, q[k]).ch, q, k + 1)
After(opt, env, q) == Feed(opt, env, NewChannel, q, 1)

Line(r) == IF r.out = <<>> THEN Nothing ELSE r.out[1]
\* value of a printed field, <<>> if it is not printed
Value(line, key, path) == IF key \in DOMAIN line /\ path \in DOMAIN line[key] THEN line[key][path] ELSE <<>>
Printed(line, key) == key \in DOMAIN line

\* first claim that is broken: claims is a sequence of <<name, truth>>
RECURSIVE Judge(_, _)
Judge(claims, k) == IF k > Len(claims) THEN "ok" ELSE IF claims[k][2] THEN Judge(claims, k + 1) ELSE claims[k][1]

Emitting == "RDS_EMIT" \in DOMAIN IOEnv
\* rows: service key table
EmitSetupWith(opt, keys, prelude, alphabet, rows) ==
    Emitting => PrintT("SETUP " \o ToJson([opt |-> opt, keys |-> keys, prelude |-> prelude, alphabet |-> alphabet, rows |-> rows]))
EmitSetup(opt, keys, prelude, alphabet) == EmitSetupWith(opt, keys, prelude, alphabet, <<>>)
Edge(i) == Emitting => PrintT("EDGE " \o ToString(TLCFP(<<ch, gh>>)) \o " " \o ToString(i) \o " " \o ToString(TLCFP(<<ch', gh'>>)))

\* Longest sequence of groups considered; none given: all of them (the models are finite)
Bound == IF "RDS_BOUND" \in DOMAIN IOEnv THEN atoi(IOEnv.RDS_BOUND) ELSE 1000000
Bounded == TLCGet("level") <= Bound

Holds == verdict = "ok"
Show == [gh |-> gh, verdict |-> verdict]           \* what an error trace shows
=============================================================================

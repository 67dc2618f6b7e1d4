------------------------------- MODULE Tables -------------------------------
(* The code tables of the standards (frozen copy, see tools/extract_tables). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

T == JsonDeserialize(IOEnv.RDS_TABLES)

\* Only indices (never the tables themselves) may be out of range
At(tab, n, default) == LET k == ToString(n) IN IF k \in DOMAIN tab THEN tab[k] ELSE default

G0             == T.g0
PtyName(p, us) == IF us THEN T.ptyRbds[p + 1] ELSE T.pty[p + 1]
Language(c)    == IF c < 128 THEN T.lang[c + 1] ELSE ""
Country(cc, ecc) == LET k == ToString(ecc) IN
                    IF k \in DOMAIN T.country /\ cc > 0 THEN T.country[k][cc] ELSE "--"
AppName(a)     == At(T.app, a, "(Unknown)")
RtPlusType(c)  == T.rtplus[c + 1]
DiName         == <<"dynamic_pty", "compressed", "artificial_head", "stereo">>
IsEvent(c)     == ToString(c) \in DOMAIN T.event
Event(c)       == At(T.event, c, [d |-> "", q |-> <<>>, qt |-> 0, u |-> 0, both |-> FALSE, c |-> 0])
IsSuppl(c)     == ToString(c) \in DOMAIN T.suppl
Suppl(c)       == T.suppl[ToString(c)]
=============================================================================

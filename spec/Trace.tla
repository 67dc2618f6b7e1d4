------------------------------- MODULE Trace -------------------------------
(* Trace validation: are the recorded runs of the real redsea behaviours of  *)
(* Redsea.tla?  The file named by RDS_TRACE has                              *)
(*   traces: [opt, env (index into envs), inp, out (lines), keys]            *)
(*   envs:   [keys, dbs]                                                     *)
(* keys: the output fields to compare (all: every field).  Every trace is one  *)
(* initial state and all are stepped to their ends; a trace that is not a    *)
(* behaviour gets stuck after printing MISMATCH.                             *)
EXTENDS Redsea

Data == JsonDeserialize(IOEnv.RDS_TRACE)
Envs == [k \in 1..Len(Data.envs) |-> LoadEnv(Data.envs[k])]
NTraces == Len(Data.traces)

VARIABLES tid,      \* which trace
          s,        \* decoder state according to the specification
          o,        \* number of output lines matched
          step, stuck,
          start     \* where reception began
vars == <<tid, s, o, step, stuck, start>>

Tr == Data.traces[tid]

\* Where reception begins: an MPX receiver needs some groups to lock in, and may find its
\* rhythm in the middle of a group (then the first blocks of that group are missing); what it
\* prints before that is left open.  <<groups missed, blocks missed, lines left open>>
\* (slack: lines that may be printed for the station received before)
Starts(inp) == IF inp.kind = "mpx"
               THEN {x \in (0..Min(inp.lockin, Len(inp.items) - 1)) \X (0..3) \X (0..inp.lockin) : x[3] <= x[1] + inp.slack}
               ELSE {<<0, 0, 0>>}

Init == /\ tid \in 1..NTraces
        /\ start \in Starts(Data.traces[tid].inp)
        /\ s = [NewDecoder(Data.traces[tid].opt) EXCEPT !.pos = start[1], !.cut = start[2]]
        /\ o = start[3] /\ step = 0 /\ stuck = FALSE

\* Projection of a line on the fields to compare.  keys: "*", "top" or "top/prefix of subfields"
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
ProjectObject(top, obj, subs) ==
    [p \in {q \in DOMAIN obj : \E k \in 1..Len(subs) : IsPrefixOf(subs[k], q)} |-> obj[p]]
Project(line, tr) ==
    IF tr.all THEN line
    ELSE LET tops == DOMAIN line \cap DOMAIN tr.keys
             cut  == [k \in tops |-> IF Len(tr.keys[k]) = 0 THEN line[k] ELSE ProjectObject(k, line[k], tr.keys[k])]
         IN [k \in {q \in tops : DOMAIN cut[q] # {}} |-> cut[k]]
Matches(e, a, tr) ==
    LET pe == Project(e, tr)
        pa == Project(a, tr)
    IN LineMatches(pe, pa, DOMAIN pe \cup DOMAIN pa)

Report(what, e, a) == PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(o) \o " " \o what
                             \o " EXPECTED " \o ToString(e) \o " ACTUAL " \o ToString(a))

Next ==
    /\ ~s.end /\ ~stuck
    /\ LET tr == Tr
           r  == DecoderStep(tr.opt, Envs[tr.env], tr.inp, s)
           n  == Len(r.out)
           ok == n = 0 \/ (o < Len(tr.out) /\ Matches(r.out[1], tr.out[o + 1], tr))
           \* an MPX receiver may not get to the very last groups
           done  == tr.inp.kind = "mpx" /\ o = Len(tr.out) /\ s.pos >= tr.inp.need
           ended == r.s.end /\ o + n < Len(tr.out)
       IN /\ tid' = tid /\ start' = start
          /\ step' = step + 1
          /\ o' = IF done THEN o ELSE o + n
          /\ IF done THEN stuck' = FALSE /\ s' = [s EXCEPT !.end = TRUE]
             ELSE IF ~ok
             THEN /\ stuck' = TRUE /\ s' = s
                  /\ IF o < Len(tr.out)
                     THEN Report("LINE", Project(r.out[1], tr), Project(tr.out[o + 1], tr))
                     ELSE Report("NOLINE", Project(r.out[1], tr), "nothing")
             ELSE IF ended
             THEN stuck' = TRUE /\ s' = r.s /\ Report("EXTRA", "nothing", Project(tr.out[o + n + 1], tr))
             ELSE stuck' = FALSE /\ s' = r.s

Spec == Init /\ [][Next]_vars
TraceView == <<tid, start, step, stuck>>
Finished == s.end /\ ~stuck
\* every finished trace reports itself, so that the caller can count them
Report1 == Finished => PrintT("ACCEPTED " \o ToString(tid))
=============================================================================

----------------------------- MODULE FeedTrace -----------------------------
(* Feed-through.  fin, fout: the input and what was written to standard      *)
(* output (bytes, or digests of pieces); lin: the lines printed without      *)
(* feed-through, lout: those printed (on standard error) with it.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.RDS_TRACE)
VARIABLES tid, copied, state
vars == <<tid, copied, state>>
Tr == Data.traces[tid]
Init == tid \in 1..Len(Data.traces) /\ copied = 0 /\ state = "copying"

FirstDiff(a, b) == IF \E k \in 1..Len(a) : k > Len(b) \/ a[k] # b[k]
                   THEN CHOOSE k \in 1..Len(a) : (k > Len(b) \/ a[k] # b[k]) /\ \A j \in 1..(k - 1) : a[j] = b[j]
                   ELSE Len(a) + 1
Next ==
    /\ state = "copying" /\ tid' = tid
    /\ copied' = FirstDiff(Tr.fin, Tr.fout) - 1
    /\ IF Tr.fin # Tr.fout
       THEN state' = "stuck" /\ PrintT("MISMATCH " \o ToString(tid) \o " input and copy differ after " \o ToString(copied')
                                       \o " of " \o ToString(Len(Tr.fin)) \o " pieces; the copy has " \o ToString(Len(Tr.fout)))
       ELSE IF Tr.lin # Tr.lout
       THEN state' = "stuck" /\ PrintT("MISMATCH " \o ToString(tid) \o " decoded lines differ at line " \o ToString(FirstDiff(Tr.lin, Tr.lout))
                                       \o " (" \o ToString(Len(Tr.lin)) \o " without, " \o ToString(Len(Tr.lout)) \o " with feed-through)")
       ELSE state' = "done"
Spec == Init /\ [][Next]_vars
Report1 == state = "done" => PrintT("ACCEPTED " \o ToString(tid))
=============================================================================

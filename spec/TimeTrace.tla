----------------------------- MODULE TimeTrace -----------------------------
(* Recorded reception times against RxTime.  Each trace:                     *)
(*  kind "exact":   clock[i] is the host's clock when group i is read (one   *)
(*                  channel), rx[i] the text printed, fmt the format,        *)
(*                  zone the offset of the host in minutes                   *)
(*  kind "bounded": rx[i] moments; each within lo[i]..hi[i], not decreasing  *)
(*  kind "spaced":  rx[i] moments from a signal read in real time: group i+1 *)
(*                  is 104 bits (87.58 ms) after group i, up to tol ms       *)
EXTENDS RxTime, Json, IOUtils

Data == JsonDeserialize(IOEnv.RDS_TRACE)
VARIABLES tid, i, last, stuck
vars == <<tid, i, last, stuck>>
Tr == Data.traces[tid]
Init == tid \in 1..Len(Data.traces) /\ i = 0 /\ last = <<>> /\ stuck = FALSE

Report(e, a) == PrintT("MISMATCH " \o ToString(tid) \o " " \o ToString(i) \o " RXTIME EXPECTED " \o ToString(e) \o " ACTUAL " \o ToString(a))

Good(e, a, ok, l) == IF ok THEN stuck' = FALSE /\ last' = l ELSE stuck' = TRUE /\ last' = last /\ Report(e, a)
Next ==
    /\ ~stuck /\ i < Len(Tr.rx)
    /\ i' = i + 1 /\ tid' = tid
    /\ CASE Tr.kind = "exact" ->
              LET t == Stamp(last, Tr.clock[i + 1])
                  e == Formatted(Tr.fmt, Shift(t, Tr.zone), 1)
              IN Good(e, Tr.rx[i + 1], e = Tr.rx[i + 1], t)
         [] Tr.kind = "bounded" ->
              LET t == Tr.rx[i + 1] IN
              Good(<<"not before", last, "within", Tr.lo[i + 1], Tr.hi[i + 1]>>, t,
                   /\ last = <<>> \/ ~Before(t, last)
                   /\ ~Before(t, Tr.lo[i + 1]) /\ ~Before(Tr.hi[i + 1], t), t)
         [] Tr.kind = "spaced" ->
              LET t == Tr.rx[i + 1]
                  ms == (i * 104000 * 10) \div 11875
              IN Good(<<"first + ms", Tr.rx[1], ms>>, t,
                      Diff(Tr.rx[1], t) - ms \in (-Tr.tol)..Tr.tol, t)
Spec == Init /\ [][Next]_vars
Report1 == (i = Len(Tr.rx) /\ ~stuck) => PrintT("ACCEPTED " \o ToString(tid))
=============================================================================

----------------------------- MODULE LiveTrace -----------------------------
(* Runs of redsea that are watched while the input arrives.  As Trace.tla,   *)
(* and each trace also has                                                   *)
(*   seen: sequence of <<from, to, n>>: n lines had been printed when the    *)
(*         program had read at least `from' and at most `to' items of the    *)
(*         input (bits, for bit input) and waited for more                   *)
(* What has been printed by then must be what the specification prints for   *)
(* that much input: no line may wait for later input, none may come early.   *)
EXTENDS Trace

\* observations between the present position and the next one
Passed(k, p, q, end) == {j \in 1..Len(Tr.seen) : Tr.seen[j][k] >= p /\ (Tr.seen[j][k] < q \/ end)}

Late(r)  == {j \in Passed(1, s.pos, r.s.pos, r.s.end) : Tr.seen[j][3] < o}
Early(r) == {j \in Passed(2, s.pos, r.s.pos, r.s.end) : Tr.seen[j][3] > o}

Pick(Q) == CHOOSE j \in Q : \A k \in Q : j <= k
LiveNext ==
    /\ ~s.end /\ ~stuck
    /\ LET r == DecoderStep(Tr.opt, Envs[Tr.env], Tr.inp, s)
           l == Late(r)
           e == Early(r)
       IN IF l # {} THEN /\ Report("LATE", <<"lines after item", Tr.seen[Pick(l)][1], o>>, Tr.seen[Pick(l)][3])
                         /\ stuck' = TRUE /\ step' = step + 1 /\ UNCHANGED <<tid, s, o, start>>
          ELSE IF e # {} THEN /\ Report("EARLY", <<"lines after item", Tr.seen[Pick(e)][2], o>>, Tr.seen[Pick(e)][3])
                              /\ stuck' = TRUE /\ step' = step + 1 /\ UNCHANGED <<tid, s, o, start>>
          ELSE Next
LiveSpec == Init /\ [][LiveNext]_vars
=============================================================================

------------------------------ MODULE PiCache ------------------------------
(* Confirmation of PI codes.                                                 *)
EXTENDS Integers

NewPi == [conf |-> 0, p1 |-> 0, p2 |-> 0, has |-> FALSE]

\* A PI code is received; .new says that a change of station is confirmed
PiUpdate(c, pi) ==
    LET confirmed == c.has /\ c.p1 = c.p2 /\ pi = c.p1
        conf      == IF confirmed THEN pi ELSE c.conf
        noisy     == c.has /\ pi # conf /\ c.p1 # conf /\ pi # c.p1
    IN [new |-> confirmed /\ pi # c.conf,
        c   |-> [conf |-> IF noisy THEN 0 ELSE conf,
                 p1 |-> pi,
                 p2 |-> IF noisy THEN 0 ELSE c.p1,
                 has |-> ~noisy]]
=============================================================================

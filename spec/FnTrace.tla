------------------------------ MODULE FnTrace ------------------------------
(* Tables recorded from the real program against the operators of the        *)
(* specification, all rows of a finite domain.  RDS_TRACE has                *)
(*   callsign: 65536 strings, "" for none, "?" in front if uncertain         *)
EXTENDS Callsign

Data == JsonDeserialize(IOEnv.RDS_TRACE)
VARIABLE hi
Init == hi \in 0..255
Next == FALSE /\ UNCHANGED hi
Spec == Init /\ [][Next]_hi

ExpectedSign(pi) == IF CallSign(pi) = "" THEN "" ELSE (IF Uncertain(pi) THEN "?" ELSE "") \o CallSign(pi)
RowOk(pi) == \/ Data.callsign[pi + 1] = ExpectedSign(pi)
             \/ /\ PrintT("MISMATCH " \o ToString(pi) \o " 0 CALLSIGN EXPECTED " \o ToString(ExpectedSign(pi))
                          \o " ACTUAL " \o ToString(Data.callsign[pi + 1]))
                /\ FALSE
Bad == {lo \in 0..255 : ~RowOk(hi * 256 + lo)}
Rows == Bad = {} => PrintT("ACCEPTED " \o ToString(hi))
=============================================================================

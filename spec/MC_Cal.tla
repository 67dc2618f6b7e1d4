------------------------------- MODULE MC_Cal -------------------------------
(* The calendar, day by day: the dates of Clock.tla follow one another by    *)
(* the rules of the Gregorian calendar from 1 March 1900 on, and agree with  *)
(* the formula of the standard to its end; local times are the UTC time plus *)
(* the offset.                                                               *)
EXTENDS Clock
VARIABLES mjd, date
vars == <<mjd, date>>

MonthDays(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Tomorrow(c) == IF c.d < MonthDays(c.y, c.m) THEN [c EXCEPT !.d = @ + 1]
               ELSE IF c.m < 12 THEN [c EXCEPT !.d = 1, !.m = @ + 1]
               ELSE [y |-> c.y + 1, m |-> 1, d |-> 1]
\* The days are counted from several places at once; every count goes on to where the next one begins, so
\* that all begin rightly if the first does
Piece == 4600
Init == mjd \in {Epoch + k * Piece : k \in 0..15} /\ date = Civil(mjd)
Next == mjd <= LastGood /\ mjd' = mjd + 1 /\ date' = Tomorrow(date)
FirstDay == mjd = Epoch => date = [y |-> 1900, m |-> 3, d |-> 1]
Spec == Init /\ [][Next]_vars

Counted == Civil(mjd) = date
Standard == mjd <= LastGood => Formula(mjd) = date
\* minutes since day 0, of the time printed and of the time transmitted
Times == {<<0, 0>>, <<0, 29>>, <<11, 59>>, <<12, 30>>, <<23, 30>>, <<23, 59>>}
Offsets == {-28, -24, -1, 0, 1, 2, 11, 24, 28}
DayText(c) == ToString(c.y) \o "-" \o Pad2(c.m) \o "-" \o Pad2(c.d)
Yesterday(c) == IF c.d > 1 THEN [c EXCEPT !.d = @ - 1]
                ELSE IF c.m > 1 THEN [y |-> c.y, m |-> c.m - 1, d |-> MonthDays(c.y, c.m - 1)]
                ELSE [y |-> c.y - 1, m |-> 12, d |-> 31]
LocalTime == (mjd > Epoch /\ mjd < LastGood /\ date.d \in {1, 2, 15, 28, 29, 30, 31}) =>
    \A t \in Times, o \in Offsets :
        LET total == 60 * t[1] + t[2] + 30 * o
            day   == IF total < 0 THEN Yesterday(date) ELSE IF total >= 1440 THEN Tomorrow(date) ELSE date
            min   == (total + 1440) % 1440
            v     == ClockTime(mjd, t[1], t[2], o)
            a     == IF o < 0 THEN -o ELSE o
            zone  == IF o = 0 THEN "Z" ELSE (IF o < 0 THEN "-" ELSE "+") \o HHMM(a \div 2, IF a % 2 = 1 THEN 30 ELSE 0)
        IN v = <<S(DayText(day) \o "T" \o HHMM(min \div 60, min % 60) \o ":00" \o zone)>>
Invalid == \A h \in {24, 31}, o \in {0, 5} : ClockTime(mjd, h, 0, o) = <<>> /\ ClockTime(mjd, 5, 60, o) = <<>>
=============================================================================

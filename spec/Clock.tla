------------------------------- MODULE Clock -------------------------------
(* Clock-time and date (4A).  The calendar is the proleptic Gregorian        *)
(* calendar computed from day counts; the arithmetic of the standard's own   *)
(* MJD formula is given as well, so that TLC can show that they agree.       *)
EXTENDS RdsBits

Epoch == 15079              \* MJD of 1 March 1900
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

\* Days from 0000-03-01 in 400-year eras (civil-from-days)
Civil(mjd) ==
    LET z   == mjd + 678881             \* days since 0000-03-01
        era == z \div 146097
        doe == z % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp  == (5 * doy + 2) \div 153
        d   == doy - (153 * mp + 2) \div 5 + 1
        m   == IF mp < 10 THEN mp + 3 ELSE mp - 9
    IN [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]

\* The formula of IEC 62106 annex (valid 1 March 1900 - 28 February 2100), in integers
Formula(mjd) ==
    LET y == (100 * mjd - 1507820) \div 36525
        m == (10000 * (mjd - 14956 - ((y * 1461) \div 4)) - 1000) \div 306001
        d == mjd - 14956 - ((y * 1461) \div 4) - ((m * 306001) \div 10000)
        k == IF m = 14 \/ m = 15 THEN 1 ELSE 0
    IN [y |-> 1900 + y + k, m |-> m - 1 - 12 * k, d |-> d]

LastGood == 88127           \* MJD of 28 February 2100

\* off: signed number of half hours.  <<>> if the time is invalid; dates after
\* February 2100, for which the standard's formula is off by a day, are left open.
ClockTime(mjd, h, m, off) ==
    LET a     == IF off < 0 THEN -off ELSE off
        mins  == h * 60 + m + off * 30
        shift == IF mins < 0 THEN -1 ELSE IF mins >= 1440 THEN 1 ELSE 0
        lm    == mins - shift * 1440
        day   == mjd + shift
        c     == Civil(day)
        zone  == IF off = 0 THEN "Z"
                 ELSE (IF off > 0 THEN "+" ELSE "-") \o HHMM(a \div 2, (a % 2) * 30)
    IN IF h > 23 \/ m > 59 \/ a \div 2 > 14 \/ mjd < Epoch \/ day < Epoch THEN <<>>
       ELSE IF day > LastGood THEN <<AnyVal>>
       ELSE <<S(ToString(c.y) \o "-" \o Pad2(c.m) \o "-" \o Pad2(c.d) \o "T"
              \o HHMM(lm \div 60, lm % 60) \o ":00" \o zone)>>
=============================================================================

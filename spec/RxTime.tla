------------------------------- MODULE RxTime -------------------------------
(* Reception times.  The clock of the host is a sequence of readings; a      *)
(* moment is <<day (MJD), milliseconds of the day>>.                         *)
EXTENDS Clock

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Later(a, b) == IF Before(a, b) THEN b ELSE a
\* last: the time of the group before, or <<>>
Stamp(last, clock) == IF last = <<>> THEN clock ELSE Later(last, clock)
\* milliseconds from a to b (of the same or neighbouring days)
Diff(a, b) == (b[1] - a[1]) * 86400000 + (b[2] - a[2])

Shift(m, minutes) ==                            \* local time at an offset
    LET x == m[2] + minutes * 60000
        d == IF x < 0 THEN -1 ELSE IF x >= 86400000 THEN 1 ELSE 0
    IN <<m[1] + d, x - d * 86400000>>

Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
DayOfYear(mjd) == LET c == Civil(mjd)
                      RECURSIVE back(_)
                      back(k) == LET e == Civil(mjd - k) IN IF e.y < c.y THEN k ELSE back(k + 1)
                  IN back(1)
\* One element of a format, "%Y" and so on or literal text
Directive(d, m) ==
    LET c == Civil(m[1])
        s == m[2] \div 1000
    IN CASE d = "%Y" -> ToString(c.y)
         [] d = "%m" -> Pad2(c.m)
         [] d = "%d" -> Pad2(c.d)
         [] d = "%H" -> Pad2(s \div 3600)
         [] d = "%M" -> Pad2((s \div 60) % 60)
         [] d = "%S" -> Pad2(s % 60)
         [] d = "%j" -> Pad3(DayOfYear(m[1]))
         [] d = "%F" -> ToString(c.y) \o "-" \o Pad2(c.m) \o "-" \o Pad2(c.d)
         [] d = "%T" -> HHMM(s \div 3600, (s \div 60) % 60) \o ":" \o Pad2(s % 60)
         [] d = "%f" -> Pad2((m[2] % 1000) \div 10)               \* hundredths, truncated
         [] d = "%%" -> "%"
         [] OTHER -> d
RECURSIVE Formatted(_, _, _)
Formatted(fmt, m, k) == IF k > Len(fmt) THEN "" ELSE Directive(fmt[k], m) \o Formatted(fmt, m, k + 1)
=============================================================================

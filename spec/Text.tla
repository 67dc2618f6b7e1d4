-------------------------------- MODULE Text --------------------------------
(* A text transmitted piecemeal: PS, PTYN, RadioText, long PS, eRT, TDC.     *)
(* A buffer remembers the raw bytes, how many of them have been received     *)
(* consecutively from the first one on (len), the last position written,     *)
(* and the last text that was complete (as a sequence of characters, each    *)
(* a sequence of UTF-8 bytes).                                               *)
EXTENDS RdsBits, Tables

CR == 13
SP == 32

\* cr: position of the first terminator among the bytes, Len + 1 if there is none
NewText(n, enc) == [data |-> [k \in 1..n |-> 0], cr |-> n + 1, prev |-> 0, len |-> 0,
                    last |-> <<>>, lastEnc |-> enc, enc |-> enc]

RECURSIVE FirstCR(_, _)
FirstCR(d, k) == IF k > Len(d) THEN Len(d) + 1 ELSE IF d[k] = CR THEN k ELSE FirstCR(d, k + 1)

\* The same in UCS-2: position of the first character 000D
RECURSIVE FirstCR2(_, _)
FirstCR2(d, k) == IF k + 1 > Len(d) THEN Len(d) + 1 ELSE IF d[k] = 0 /\ d[k + 1] = CR THEN k ELSE FirstCR2(d, k + 2)

\* Number of bytes that make up the whole text: up to the terminator, or all
Expected(t) == IF t.enc = "ucs2" THEN Min(FirstCR2(t.data, 1) + 1, Len(t.data)) ELSE Min(t.cr, Len(t.data))
HasTerminator(t) == t.cr <= Len(t.data)
Complete(t) == t.len >= Expected(t)

\* What is known of the text: blanks for everything not received consecutively
ViewOf(d, len, n) == [k \in 1..n |-> IF k <= len /\ d[k] # CR /\ d[k] # 0 THEN d[k] ELSE SP]
View2Of(d, len, n) ==
    [k \in 1..n |-> LET o == IF k % 2 = 1 THEN k ELSE k - 1
                        blank == len <= o \/ (d[o] = 0 /\ d[o + 1] \in {0, CR})
                    IN IF blank THEN (IF k = o THEN 0 ELSE SP) ELSE d[k]]
View(t) == IF t.enc = "ucs2" THEN View2Of(t.data, t.len, Expected(t)) ELSE ViewOf(t.data, t.len, Expected(t))

IsCont(b) == b >= 128 /\ b < 192
RECURSIVE Utf8Chars(_, _, _)
Utf8Chars(bs, k, acc) ==
    IF k > Len(bs) THEN acc
    ELSE IF IsCont(bs[k]) /\ Len(acc) > 0
         THEN Utf8Chars(bs, k + 1, [acc EXCEPT ![Len(acc)] = Append(@, bs[k])])
         ELSE Utf8Chars(bs, k + 1, Append(acc, <<bs[k]>>))

\* A UCS-2 character (high byte, low byte) as UTF-8
Utf8Of(h, l) ==
    IF h = 0 /\ l < 128 THEN <<l>>
    ELSE IF h < 8 THEN <<192 + h * 4 + l \div 64, 128 + (l % 64)>>
    ELSE <<224 + h \div 16, 128 + (h % 16) * 4 + l \div 64, 128 + (l % 64)>>
HasSurrogate(bs) == \E k \in 1..(Len(bs) \div 2) : bs[2 * k - 1] >= 216 /\ bs[2 * k - 1] <= 223

Chars(enc, bs) == IF enc = "basic" THEN [k \in 1..Len(bs) |-> G0[bs[k] + 1]]
                  ELSE IF enc = "ucs2" THEN [k \in 1..(Len(bs) \div 2) |-> Utf8Of(bs[2 * k - 1], bs[2 * k])]
                  ELSE Utf8Chars(bs, 1, <<>>)

RECURSIVE FlatFrom(_, _, _)
FlatFrom(cs, k, acc) == IF k > Len(cs) THEN acc ELSE FlatFrom(cs, k + 1, acc \o cs[k])
Flat(cs) == FlatFrom(cs, 1, <<>>)

RECURSIVE Rtrim(_)
Rtrim(bs) == IF Len(bs) > 0 /\ bs[Len(bs)] = SP THEN Rtrim(SubSeq(bs, 1, Len(bs) - 1)) ELSE bs

Str(t) == Flat(Chars(t.enc, View(t)))

Clear(t) == [t EXCEPT !.len = 0, !.last = <<>>]

\* One more byte, at position pos (from 0).  A complete UCS-2 text with half a character is dropped.
Put(t, pos, byte) ==
    IF pos >= Len(t.data) THEN t
    ELSE LET d   == [t.data EXCEPT ![pos + 1] = byte]
             cr  == IF byte = CR THEN Min(t.cr, pos + 1)
                    ELSE IF t.cr = pos + 1 THEN FirstCR(d, pos + 2) ELSE t.cr
             len == IF pos = 0 \/ (pos = t.prev + 1 /\ t.len = pos) THEN pos + 1 ELSE t.len
             t1  == [t EXCEPT !.data = d, !.cr = cr, !.len = len, !.prev = pos]
         IN IF Complete(t1)
            THEN LET v == View(t1) IN
                 IF t.enc = "ucs2" /\ HasSurrogate(v) THEN Clear(t1) ELSE [t1 EXCEPT !.last = v, !.lastEnc = t.enc]
            ELSE t1
Put2(t, pos, word) == Put(Put(t, pos, Hi(word)), pos + 1, Lo(word))

Resize(t, n) ==
    IF Len(t.data) = n THEN t
    ELSE [t EXCEPT !.data = [k \in 1..n |-> IF k <= Len(t.data) THEN t.data[k] ELSE SP],
                   !.cr = IF t.cr <= Len(t.data) /\ t.cr <= n THEN t.cr ELSE n + 1,
                   !.len = Min(t.len, n)]

LastText(t) == Flat(Chars(t.lastEnc, t.last))
\* Characters start .. start+n-1 of the last complete text, or nothing
Slice(t, start, n) ==
    LET cs == Chars(t.lastEnc, t.last) IN
    IF start + n <= Len(cs) THEN Flat(SubSeq(cs, start + 1, start + n)) ELSE <<>>

-----------------------------------------------------------------------------
(* Well-formed UTF-8 (Unicode 15, table 3-7)                                 *)
RECURSIVE ValidFrom(_, _)
ValidFrom(bs, k) ==
    IF k > Len(bs) THEN TRUE
    ELSE LET b == bs[k]
             C(j, lo, hi) == k + j <= Len(bs) /\ bs[k + j] >= lo /\ bs[k + j] <= hi
         IN CASE b < 128 -> ValidFrom(bs, k + 1)
              [] b >= 194 /\ b <= 223 -> C(1, 128, 191) /\ ValidFrom(bs, k + 2)
              [] b = 224 -> C(1, 160, 191) /\ C(2, 128, 191) /\ ValidFrom(bs, k + 3)
              [] (b >= 225 /\ b <= 236) \/ b = 238 \/ b = 239 ->
                     C(1, 128, 191) /\ C(2, 128, 191) /\ ValidFrom(bs, k + 3)
              [] b = 237 -> C(1, 128, 159) /\ C(2, 128, 191) /\ ValidFrom(bs, k + 3)
              [] b = 240 -> C(1, 144, 191) /\ C(2, 128, 191) /\ C(3, 128, 191) /\ ValidFrom(bs, k + 4)
              [] b >= 241 /\ b <= 243 -> C(1, 128, 191) /\ C(2, 128, 191) /\ C(3, 128, 191) /\ ValidFrom(bs, k + 4)
              [] b = 244 -> C(1, 128, 143) /\ C(2, 128, 191) /\ C(3, 128, 191) /\ ValidFrom(bs, k + 4)
              [] OTHER -> FALSE
ValidUtf8(bs) == ValidFrom(bs, 1)
=============================================================================

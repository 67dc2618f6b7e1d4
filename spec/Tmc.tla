-------------------------------- MODULE Tmc --------------------------------
(* RDS-TMC (ISO 14819-1): service information, assembly and decoding of      *)
(* messages, location decryption and location tables.                        *)
EXTENDS Text, AltFreq, Bitwise

NoPart == <<>>
NewMessage(enc) == [ci |-> 0, enc |-> enc, parts |-> [k \in 0..4 |-> NoPart]]
NewTmc == [init |-> FALSE, enc |-> FALSE, hasEncid |-> FALSE, ltn |-> 0, encid |-> 0, ltcc |-> 0,
           msg |-> NewMessage(FALSE), ps |-> NewText(8, "basic")]

Scope(mgs) == (IF Bit(mgs, 3) THEN <<"inter-road">> ELSE <<>>) \o (IF Bit(mgs, 2) THEN <<"national">> ELSE <<>>)
              \o (IF Bit(mgs, 1) THEN <<"regional">> ELSE <<>>) \o (IF Bit(mgs, 0) THEN <<"urban">> ELSE <<>>)
ScopeOut(path, mgs) == IF mgs = 0 THEN Nothing ELSE path :> AS(Scope(mgs))

-----------------------------------------------------------------------------
(* System information (in 3A groups).  Returns [t, out].                      *)
Gap == <<3, 5, 8, 11>>
SystemGroup(t, m) ==
    LET v == Bits(m, 2, 14) IN
    CASE v = 0 ->
        LET ltn == Bits(m, 6, 6)
            enc == ltn = 0
        IN [t   |-> [t EXCEPT !.init = TRUE, !.enc = enc, !.ltn = IF enc THEN @ ELSE ltn],
            out |-> ("system_info.is_encrypted" :> B(enc))
                    @@ (IF enc THEN Nothing ELSE "system_info.location_table" :> I(ltn))
                    @@ ("system_info.is_on_alt_freqs" :> B(Bit(m, 5)))
                    @@ ScopeOut("system_info.scope", Bits(m, 4, 0))]
      [] v = 1 ->
        LET ltcc == Bits(m, 4, 0) IN
        [t   |-> [t EXCEPT !.ltcc = ltcc],
         out |-> ("system_info.service_id" :> I(Bits(m, 6, 6)))
                 @@ ("system_info.gap" :> I(Gap[Bits(m, 2, 12) + 1]))
                 @@ (IF ltcc > 0 THEN "system_info.ltcc" :> I(ltcc) ELSE Nothing)]
      [] v = 2 ->
        LET e == Lo(m) IN
        [t   |-> t,
         out |-> IF e = 0 THEN Nothing
                 ELSE ("system_info.ltecc" :> I(e))
                      @@ (IF t.ltcc > 0 THEN "system_info.country" :> S(Country(t.ltcc, e)) ELSE Nothing)]
      [] OTHER -> [t |-> t, out |-> Nothing]

-----------------------------------------------------------------------------
(* Free-format fields of a multi-group message                               *)
FieldSize == <<3, 3, 5, 5, 5, 8, 8, 8, 8, 11, 16, 16, 16, 16, 0, 0>>

\* the 28 free-format bits of a subsequent part
PartBits(p) == [k \in 1..28 |-> IF k <= 12 THEN Bits(p[1], 1, 12 - k) ELSE Bits(p[2], 1, 28 - k)]

\* Parts are numbered by what remains to come: the second part is 1; the others end at 4.
RECURSIVE FreeBits(_, _, _, _)
FreeBits(parts, gsi, k, acc) ==
    IF k > 4 THEN acc
    ELSE IF k = 1 \/ k >= 5 - gsi
         THEN IF parts[k] = NoPart THEN acc ELSE FreeBits(parts, gsi, k + 1, acc \o PartBits(parts[k]))
         ELSE FreeBits(parts, gsi, k + 1, acc)

RECURSIVE BitsVal(_, _, _, _)
BitsVal(bs, k, n, acc) == IF n = 0 THEN acc ELSE BitsVal(bs, k + 1, n - 1, 2 * acc + bs[k])

RECURSIVE Fields(_, _, _)
Fields(bs, k, acc) ==                      \* k: next unread bit
    LET left == Len(bs) - k + 1 IN
    IF left <= 4 THEN acc
    ELSE LET label == BitsVal(bs, k, 4, 0)
             size  == FieldSize[label + 1]
         IN IF left - 4 < size THEN acc
            ELSE LET v == BitsVal(bs, k + 4, size, 0) IN
                 IF label = 0 /\ v = 0 THEN acc
                 ELSE Fields(bs, k + 4 + size, IF label <= 14 THEN Append(acc, <<label, v>>) ELSE acc)

FreeFields(parts) ==
    IF parts[1] = NoPart THEN <<>>
    ELSE Fields(FreeBits(parts, Bits(parts[1][1], 2, 12), 1, <<>>), 1, <<>>)

QSize(qt) == IF qt <= 5 THEN 5 ELSE 8
NoQ == -1

\* m: message under construction
ApplyField(m, f) ==
    LET label == f[1]
        v     == f[2]
        n     == Len(m.events)
        QuantOK(size) == m.quant[n] = NoQ /\ Len(Event(m.events[n]).q) > 0 /\ QSize(Event(m.events[n]).qt) = size
    IN CASE label = 1 /\ v = 0 -> [m EXCEPT !.urg = (@ + 1) % 3]
         [] label = 1 /\ v = 1 -> [m EXCEPT !.urg = (@ + 2) % 3]
         [] label = 1 /\ v = 2 -> [m EXCEPT !.both = ~@]
         [] label = 1 /\ v = 6 -> [m EXCEPT !.extent = @ + 8]
         [] label = 1 /\ v = 7 -> [m EXCEPT !.extent = @ + 16]
         [] label = 3 -> [m EXCEPT !.speed = v * 5]
         [] label = 4 -> IF QuantOK(5) THEN [m EXCEPT !.quant[n] = v] ELSE m
         [] label = 5 -> IF QuantOK(8) THEN [m EXCEPT !.quant[n] = v] ELSE m
         [] label = 6 -> [m EXCEPT !.suppl = Append(@, v)]
         [] label = 7 -> [m EXCEPT !.starts = v]
         [] label = 8 -> [m EXCEPT !.until = v]
         [] label = 9 -> [m EXCEPT !.events = Append(@, v), !.quant = Append(@, NoQ)]
         [] label = 10 -> [m EXCEPT !.div = Append(@, v)]
         [] OTHER -> m

FirstGroup(y, z) ==
    LET e == Bits(y, 11, 0) IN
    [neg |-> Bit(y, 14), extent |-> Bits(y, 3, 11), events |-> <<e>>, quant |-> <<NoQ>>, loc |-> z,
     both |-> Event(e).both, urg |-> Event(e).u, speed |-> -1, suppl |-> <<>>, starts |-> -1,
     until |-> -1, div |-> <<>>]

RECURSIVE ApplyFields(_, _, _)
ApplyFields(m, fs, k) == IF k > Len(fs) THEN m ELSE ApplyFields(ApplyField(m, fs[k]), fs, k + 1)
MultiMessage(parts) == ApplyFields(FirstGroup(parts[0][1], parts[0][2]), FreeFields(parts), 1)

-----------------------------------------------------------------------------
(* Wording                                                                   *)
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
RECURSIVE UpFrom(_, _)
UpFrom(c, k) == IF k > 26 THEN c ELSE IF SubSeq(Lower, k, k) = c THEN SubSeq(Upper, k, k) ELSE UpFrom(c, k + 1)
UcFirst(s) == IF Len(s) = 0 THEN s ELSE UpFrom(SubSeq(s, 1, 1), 1) \o SubSeq(s, 2, Len(s))

Deci(q) == IF q <= 100 THEN q ELSE 100 + (q - 100) * 5
DeciStr(q) == ToString(Deci(q) \div 10) \o "." \o ToString(Deci(q) % 10)
MHz(q) == IF ValidFm(q) THEN ToString(FmKHz(q) \div 1000) \o "." \o ToString((FmKHz(q) \div 100) % 10) \o " MHz" ELSE "N/A"
KHz(q) == IF ValidLf(q) THEN ToString(LfKHz(q)) \o " kHz" ELSE "N/A"

Quantity(qt, q0) ==
    LET q == IF QSize(qt) = 5 /\ q0 = 0 THEN 32 ELSE q0 IN
    CASE qt = 0 -> ToString(IF q > 28 THEN q + (q - 28) ELSE q)
      [] qt = 1 -> ToString(IF q <= 4 THEN q ELSE IF q <= 14 THEN (q - 4) * 10 ELSE (q - 12) * 50)
      [] qt = 2 -> "less than " \o ToString(q * 10) \o " metres"
      [] qt = 3 -> ToString(IF q = 32 THEN 0 ELSE q * 5) \o " %"
      [] qt = 4 -> "of up to " \o ToString(q * 5) \o " km/h"
      [] qt = 5 -> IF q <= 10 THEN "of up to " \o ToString(q * 5) \o " minutes"
                   ELSE IF q <= 22 THEN "of up to " \o ToString(q - 10) \o " hours"
                   ELSE "of up to " \o ToString((q - 20) * 6) \o " hours"
      [] qt = 6 -> ToString(q - 51) \o " degrees Celsius"
      [] qt = 7 -> HHMM(((q - 1) * 10) \div 60, ((q - 1) * 10) % 60)
      [] qt = 8 -> DeciStr(q) \o " tonnes"
      [] qt = 9 -> DeciStr(q) \o " metres"
      [] qt = 10 -> "of up to " \o ToString(q) \o " millimetres"
      [] qt = 11 -> MHz(q)
      [] qt = 12 -> KHz(q)

RECURSIVE JoinFrom(_, _, _, _)
JoinFrom(q, d, k, acc) == IF k > Len(q) THEN acc ELSE JoinFrom(q, d, k + 1, acc \o d \o q[k])
Join(q, d) == IF Len(q) = 0 THEN "" ELSE JoinFrom(q, d, 2, q[1])

Sentence(e, q) == IF q = NoQ THEN Event(e).d ELSE Join(Event(e).q, Quantity(Event(e).qt, q))

RECURSIVE EventSentences(_, _, _)
EventSentences(m, k, acc) ==
    IF k > Len(m.events) THEN acc
    ELSE EventSentences(m, k + 1, IF IsEvent(m.events[k])
                                  THEN Append(acc, UcFirst(Sentence(m.events[k], m.quant[k]))) ELSE acc)
RECURSIVE SupplSentences(_, _, _)
SupplSentences(m, k, acc) ==
    IF k > Len(m.suppl) THEN acc
    ELSE SupplSentences(m, k + 1, IF IsSuppl(m.suppl[k]) THEN Append(acc, UcFirst(Suppl(m.suppl[k]))) ELSE acc)

\* A time quantifier of 0 has no meaning; its wording is left open
OddQuantifier(m) == \E k \in 1..Len(m.events) : m.quant[k] = 0 /\ Event(m.events[k]).qt = 7

Months == <<"January", "February", "March", "April", "May", "June", "July", "August", "September",
            "October", "November", "December">>
TimeText(v) ==
    IF v <= 95 THEN HHMM(v \div 4, 15 * (v % 4))
    ELSE IF v <= 200
         THEN LET d == (v - 96) \div 24
                  h == Pad2((v - 96) % 24) \o ":00"
              IN IF d = 0 THEN "at " \o h
                 ELSE IF d = 1 THEN "after 1 day at " \o h
                 ELSE "after " \o ToString(d) \o " days at " \o h
    ELSE IF v <= 231 THEN "day " \o ToString(v - 200) \o " of the month"
    ELSE LET m == (v - 232) \div 2 IN
         IF m < 12 THEN (IF (v - 232) % 2 = 1 THEN "end of " ELSE "mid-") \o Months[m + 1] ELSE ""

Urgency == <<"none", "U", "X">>

-----------------------------------------------------------------------------
(* Location decryption and location tables                                   *)
\* key: [xor, start, rot]
Rotl16(v, n) == IF n % 16 = 0 THEN v ELSE ((v % P2[16 - (n % 16)]) * P2[n % 16]) + (v \div P2[16 - (n % 16)])
\* (start may be up to 255; a shift by 16 or more of an 8-bit value leaves nothing in 16 bits)
Shifted(x, s) == IF s >= 16 THEN 0 ELSE (x * P2[s]) % 65536
Decrypt(z, key) == Rotl16(z ^^ Shifted(key.xor, key.start), key.rot)

\* db: [points, roads] as loaded (see LocationDb); the chain of points of a message
RECURSIVE Chain(_, _, _, _, _)
Chain(db, lcd, pos, left, acc) ==
    IF left = 0 \/ lcd \notin DOMAIN db.points THEN acc
    ELSE LET p == db.points[lcd] IN
         Chain(db, IF pos THEN p.pos ELSE p.neg, pos, left - 1, Append(acc, p))

RECURSIVE CoordOut(_, _, _)
CoordOut(ch, k, acc) ==
    IF k > Len(ch) THEN acc
    ELSE CoordOut(ch, k + 1, acc @@ (("message.coordinates." \o ToString(k - 1) \o ".lat") :> <<"g", ch[k].lat>>)
                                 @@ (("message.coordinates." \o ToString(k - 1) \o ".lon") :> <<"g", ch[k].lon>>))

LocationOut(dbs, ltn, lcd, neg, extent) ==
    IF ltn = 0 \/ ltn \notin DOMAIN dbs THEN Nothing
    ELSE LET db == dbs[ltn] IN
         IF db.ltn # ltn \/ lcd \notin DOMAIN db.points THEN Nothing
         ELSE LET p  == db.points[lcd]
                  ch == Chain(db, lcd, ~neg \/ extent = 0, extent + 1, <<>>)
                  n  == Len(ch)
                  rk == p.roa
              IN CoordOut(ch, 1, Nothing)
                 @@ (IF n > 1 /\ ch[1].name # "" /\ ch[n].name # ""
                     THEN ("message.span_from" :> S(ch[1].name)) @@ ("message.span_to" :> S(ch[n].name))
                     ELSE Nothing)
                 @@ (IF rk \notin DOMAIN db.roads THEN Nothing
                     ELSE LET r == db.roads[rk] IN
                          (IF r.number # "" THEN "message.road_number" :> S(r.number) ELSE Nothing)
                          @@ (IF r.name # "" THEN "message.road_name" :> S(r.name)
                              ELSE IF p.roadName # "" THEN "message.road_name" :> S(p.roadName) ELSE Nothing))

-----------------------------------------------------------------------------
\* env: [keys, dbs];  m: a complete message;  encrypted: its location is encrypted
MessageOut(env, t, m, encrypted) ==
    LET kk    == t.encid
        key   == t.enc /\ kk \in DOMAIN env.keys
        clear == ~encrypted \/ key
        loc   == IF encrypted THEN Decrypt(m.loc, env.keys[kk]) ELSE m.loc
        sent  == EventSentences(m, 1, <<>>) \o SupplSentences(m, 1, <<>>)
    IN ("message.event_codes" :> AI(m.events))
       @@ (IF Len(m.suppl) > 0 THEN "message.supplementary_codes" :> AI(m.suppl) ELSE Nothing)
       @@ (IF IsEvent(m.events[1]) THEN "message.update_class" :> I(Event(m.events[1]).c) ELSE Nothing)
       @@ (IF Len(sent) = 0 THEN Nothing
           ELSE "message.description" :> (IF OddQuantifier(m) THEN AnyVal ELSE S(Join(sent, ". ") \o ".")))
       @@ (IF Len(m.div) > 0 THEN "message.diversion_route" :> AI(m.div) ELSE Nothing)
       @@ (IF m.speed >= 0 THEN "message.speed_limit" :> S(ToString(m.speed) \o " km/h") ELSE Nothing)
       @@ (IF encrypted THEN "message.encrypted_location" :> I(m.loc) ELSE Nothing)
       @@ (IF clear THEN "message.location" :> I(loc) ELSE Nothing)
       @@ ("message.direction" :> S(IF m.both THEN "both" ELSE "single"))
       @@ ("message.extent" :> S((IF m.neg THEN "-" ELSE "+") \o ToString(m.extent)))
       @@ (IF m.starts >= 0 THEN "message.starts" :> S(TimeText(m.starts)) ELSE Nothing)
       @@ (IF m.until >= 0 THEN "message.until" :> S(TimeText(m.until)) ELSE Nothing)
       @@ ("message.urgency" :> S(Urgency[m.urg + 1]))
       @@ (IF clear THEN LocationOut(env.dbs, t.ltn, loc, m.neg, m.extent) ELSE Nothing)

(* A part of a multi-group message: which place it takes, whether it is last *)
PartIndex(y) == IF Bit(y, 15) THEN 0 ELSE IF Bit(y, 14) THEN 1 ELSE 4 - Bits(y, 2, 12)
IsLastPart(y) == ~Bit(y, 15) /\ Bits(y, 2, 12) = 0

MultiGroup(env, t, x, y, z) ==
    LET ci   == Bits(x, 3, 0)
        m0   == IF ci # t.msg.ci THEN NewMessage(t.enc) ELSE t.msg
        m    == [m0 EXCEPT !.ci = ci, !.parts[PartIndex(y)] = <<y, z>>]
    IN IF ~IsLastPart(y) THEN [t |-> [t EXCEPT !.msg = m], out |-> Nothing]
       ELSE IF m.parts[0] = NoPart
            THEN [t |-> [t EXCEPT !.msg = NewMessage(m.enc)], out |-> Nothing]
            ELSE [t   |-> [t EXCEPT !.msg = NewMessage(t.enc)],
                  out |-> MessageOut(env, t, MultiMessage(m.parts), m.enc)]

TuningGroup(t, v, y, z) ==
    CASE v = 4 \/ v = 5 ->
        LET ps == Put2(Put2(t.ps, 4 * (v - 4), y), 4 * (v - 4) + 2, z) IN
        [t   |-> [t EXCEPT !.ps = ps],
         out |-> IF Complete(ps) THEN "service_provider" :> Tx(LastText(ps)) ELSE Nothing]
      [] v = 6 ->
        LET fs == SelectSeq(<<Hi(y), Lo(y)>>, ValidFm) IN
        [t   |-> t,
         out |-> ("other_network.pi" :> S(PHex4(z)))
                 @@ (IF Len(fs) = 0 THEN Nothing
                     ELSE "other_network.frequencies_khz" :> AI([k \in 1..Len(fs) |-> FmKHz(fs[k])]))]
      [] v = 8 ->
        [t   |-> t,
         out |-> IF y = 0 \/ z = 0 \/ y = z THEN "other_network.pi" :> S(PHex4(y))
                 ELSE "other_network.pi_codes" :> AS(<<PHex4(y), PHex4(z)>>)]
      [] v = 9 ->
        [t   |-> t,
         out |-> ("other_network.pi" :> S(PHex4(z)))
                 @@ ("other_network.service_id" :> I(Bits(y, 6, 0)))
                 @@ ("other_network.location_table" :> I(Bits(y, 6, 10)))
                 @@ ScopeOut("other_network.scope", Bits(y, 4, 6))]
      [] OTHER -> [t |-> t, out |-> Nothing]

\* x: the low five bits of block 2
UserGroup(env, t, x, y, z) ==
    IF ~t.init THEN [t |-> t, out |-> Nothing]
    ELSE IF x = 0 THEN                          \* encryption administration
        [t   |-> [t EXCEPT !.encid = Bits(y, 5, 0), !.ltn = Bits(z, 6, 10), !.hasEncid = TRUE],
         out |-> ("system_info.service_id" :> I(Bits(y, 6, 5))) @@ ("system_info.encryption_id" :> I(Bits(y, 5, 0)))
                 @@ ("system_info.location_table" :> I(Bits(z, 6, 10)))]
    ELSE IF Bit(x, 4) THEN TuningGroup(t, Bits(x, 4, 0), y, z)
    ELSE IF t.enc /\ ~t.hasEncid THEN [t |-> t, out |-> Nothing]
    ELSE IF Bit(x, 3) THEN [t |-> t, out |-> MessageOut(env, t, FirstGroup(y, z), t.enc)]
    ELSE MultiGroup(env, t, x, y, z)
=============================================================================

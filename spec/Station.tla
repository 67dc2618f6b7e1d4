------------------------------ MODULE Station ------------------------------
(* Everything redsea knows about one station, and what it prints for a       *)
(* group.  A group is a record                                               *)
(*   b      four blocks, -1 for a block that was not received                *)
(*   cp     block 3 was received with offset C'                              *)
(*   nooff  the input has no offset words (hex, TEF6686)                     *)
(*   stream RDS2 data stream, 0..3                                           *)
(* Step(opt, env, st, g) returns [st, out] where out is <<>> (no line) or    *)
(* <<line>>; the line is a function from keys to objects (see RdsBits).      *)
EXTENDS RdsBits, Tables, Text, AltFreq, Clock, Callsign, Tmc, Rft

Has(g, n) == g.b[n] >= 0
B1(g) == g.b[1]
B2(g) == g.b[2]
B3(g) == g.b[3]
B4(g) == g.b[4]

TypeOf(code) == ToString(code \div 2) \o (IF code % 2 = 0 THEN "A" ELSE "B")

\* Five-bit type code of a group, -1 if it is not known, 99 for type C
TypeCode(g) ==
    IF g.stream # 0 THEN 99
    ELSE IF Has(g, 2)
         THEN LET c == Bits(B2(g), 5, 11) IN
              IF c % 2 = 0 \/ g.nooff \/ g.cp THEN c ELSE -1
         ELSE IF g.cp /\ Has(g, 4) /\ Bits(B4(g), 5, 11) = 31 THEN 31 ELSE -1

HasPi(g) == g.stream = 0 /\ (Has(g, 1) \/ g.cp)
PiOf(g) == IF Has(g, 1) THEN B1(g) ELSE B3(g)
IsEmptyGroup(g) == \A k \in 1..4 : g.b[k] < 0
RawHex(g) ==
    LET h(k) == IF Has(g, k) THEN Hex4(g.b[k]) ELSE "----"
    IN h(1) \o " " \o h(2) \o " " \o h(3) \o " " \o h(4)

NewRt(enc) == [text |-> NewText(64, enc), ab |-> 0, prevMsg |-> <<>>, tog |-> FALSE, run |-> FALSE]

NewStation(pi) ==
    [pi |-> pi, hadPi |-> FALSE,
     ps |-> NewText(8, "basic"), lps |-> NewText(32, "utf8"), ptyn |-> NewText(8, "basic"), ptynAb |-> 0,
     rt |-> NewRt("basic"), ert |-> NewRt("basic"), tdc |-> NewText(128, "basic"),
     af |-> NewAf, oda |-> Nothing, pipe |-> Nothing, eonPs |-> Nothing, eonAf |-> Nothing,
     tmc |-> NewTmc, rft |-> [k \in 0..15 |-> NewFile]]

R(st, out) == [st |-> st, out |-> out]

-----------------------------------------------------------------------------
Basics(opt, g) ==
    LET flags(w) == K("tp", B(Bit(w, 10))) @@ K("prog_type", S(PtyName(Bits(w, 5, 5), opt.rbds)))
        tc == TypeCode(g)
    IN IF tc = 99 THEN K("group", S("C"))
       ELSE (IF tc >= 0 THEN K("group", S(TypeOf(tc))) ELSE Nothing)
            @@ (IF Has(g, 2) THEN flags(B2(g)) ELSE IF tc = 31 THEN flags(B4(g)) ELSE Nothing)

\* TA, M/S and one of the DI flags, from block 2 (or 4)
Switching(w) == O("di", DiName[Bits(w, 2, 0) + 1] :> B(Bit(w, 2)))
                @@ K("ta", B(Bit(w, 4))) @@ K("is_music", B(Bit(w, 3)))

-----------------------------------------------------------------------------
(* Group 0 *)
AfStep(opt, st, w) ==
    LET l == AfInsert(AfInsert(st.af, Hi(w)), Lo(w)) IN
    IF AfComplete(l)
    THEN R([st EXCEPT !.af = AfClear(l)],
           IF MethodB(l)
           THEN IF NoDuplicates(l)
                THEN O("alt_frequencies_b",
                       ("tuned_frequency" :> I(l.arr[1]))
                       @@ (IF Len(SameProgramme(l)) > 0 THEN "same_programme" :> AI(SameProgramme(l)) ELSE Nothing)
                       @@ (IF Len(Regional(l)) > 0 THEN "regional_variants" :> AI(Regional(l)) ELSE Nothing))
                ELSE Nothing
           ELSE K("alt_frequencies_a", AI(AfList(l))))
    ELSE R([st EXCEPT !.af = l],
           IF opt.partial /\ l.rec > 0 THEN K("partial_alt_frequencies", AI(AfList(l))) ELSE Nothing)

PsStep(opt, st, seg, w) ==
    LET ps == Put2(st.ps, 2 * seg, w) IN
    R([st EXCEPT !.ps = ps],
      IF Complete(ps) THEN K("ps", Tx(LastText(ps)))
      ELSE IF opt.partial THEN K("partial_ps", Tx(Str(ps))) ELSE Nothing)

Type0(opt, st, g, tc) ==
    LET sw == Switching(B2(g)) IN
    IF ~Has(g, 3)
    THEN R([st EXCEPT !.af = IF MethodB(@) THEN AfClear(@) ELSE @], sw)
    ELSE LET a == IF tc = 0 THEN AfStep(opt, st, B3(g)) ELSE R(st, Nothing) IN
         IF ~Has(g, 4) THEN R(a.st, sw @@ a.out)
         ELSE LET p == PsStep(opt, a.st, Bits(B2(g), 2, 0), B4(g)) IN R(p.st, sw @@ a.out @@ p.out)

(* Group 1 *)
PinOut(pin) ==
    LET d == Bits(pin, 5, 11)
        h == Bits(pin, 5, 6)
        m == Bits(pin, 6, 0)
    IN IF d >= 1 /\ h <= 24 /\ m <= 59
       THEN ("prog_item_number" :> I(pin)) @@ ("prog_item_started.day" :> I(d))
            @@ ("prog_item_started.time" :> S(HHMM(h, m)))
       ELSE Nothing
Pin(pin) == LET p == PinOut(pin) IN
    IF DOMAIN p = {} THEN Nothing
    ELSE K("prog_item_number", p["prog_item_number"])
         @@ O("prog_item_started", ("day" :> p["prog_item_started.day"]) @@ ("time" :> p["prog_item_started.time"]))

Type1(st, g, tc) ==
    IF ~(Has(g, 3) /\ Has(g, 4)) THEN R(st, Nothing)
    ELSE LET w == B3(g)
             v == Bits(w, 3, 12)
             slc == IF tc # 2 THEN Nothing
                    ELSE K("has_linkage", B(Bit(w, 15)))
                         @@ (CASE v = 0 /\ Lo(w) # 0 -> K("country", S(Country(st.pi \div 4096, Lo(w))))
                               [] v = 1 -> K("tmc_id", I(Bits(w, 12, 0)))
                               [] v = 3 -> K("language", S(Language(Lo(w))))
                               [] v = 6 -> K("slc_broadcaster_bits", S("0x" \o Hex3(Bits(w, 11, 0))))
                               [] v = 7 -> K("ews", I(Bits(w, 12, 0)))
                               [] OTHER -> Nothing)
         IN R(st, Pin(B4(g)) @@ slc)

(* Group 2 *)
Type2(opt, st, g, tc) ==
    IF ~(Has(g, 3) /\ Has(g, 4)) THEN R(st, Nothing)
    ELSE LET isA  == tc = 4
             pos  == Bits(B2(g), 4, 0) * (IF isA THEN 4 ELSE 2)
             ab   == Bits(B2(g), 1, 4)
             rt   == st.rt
             t0   == rt.text
             \* an unterminated text seems to have ended
             cand == pos = 0 /\ t0.len > 1 /\ ~Complete(t0) /\ ~HasTerminator(t0)
             msg  == IF cand THEN Rtrim(Str(t0)) ELSE rt.prevMsg
             full == cand /\ msg = rt.prevMsg
             t1   == Resize(IF ab # rt.ab THEN Clear(t0) ELSE t0, IF isA THEN 64 ELSE 32)
             t2   == IF isA THEN Put2(Put2(t1, pos, B3(g)), pos + 2, B4(g)) ELSE Put2(t1, pos, B4(g))
             part == Str(t2)
         IN R([st EXCEPT !.rt.text = t2, !.rt.ab = ab, !.rt.prevMsg = msg],
              (IF opt.partial THEN K("rt_ab", S(IF ab = 1 THEN "B" ELSE "A")) ELSE Nothing)
              @@ (IF Complete(t2) THEN K("radiotext", Tx(Rtrim(LastText(t2))))
                  ELSE IF full THEN K("radiotext", Tx(msg))
                  ELSE IF opt.partial /\ Len(Rtrim(part)) > 0 THEN K("partial_radiotext", Tx(part))
                  ELSE Nothing))

-----------------------------------------------------------------------------
(* Group 3A *)
RtPlusApp == 19415   \* 4BD7
ErtPlusApp == 19416  \* 4BD8
ErtApp == 25938      \* 6552
DabApp == 147        \* 0093
TmcApps == {52550, 52551}  \* CD46, CD47
KnownApps == {RtPlusApp, ErtPlusApp, ErtApp, DabApp} \cup TmcApps

Type3A(st, g) ==
    IF ~(Has(g, 3) /\ Has(g, 4)) THEN R(st, Nothing)
    ELSE LET code == Bits(B2(g), 5, 0)
             app  == B4(g)
             msg  == B3(g)
             st1  == [st EXCEPT !.oda = (code :> app) @@ @]
             o    == ("oda_group" :> S(TypeOf(code))) @@ ("app_name" :> S(AppName(app)))
                     @@ (IF app \in KnownApps THEN Nothing ELSE "message" :> I(msg))
             tm   == SystemGroup(st.tmc, msg)
         IN IF app \in TmcApps
            THEN R([st1 EXCEPT !.tmc = tm.t],
                   O("open_data_app", o) @@ (IF DOMAIN tm.out = {} THEN Nothing ELSE O("tmc", tm.out)))
            ELSE IF app = ErtApp
            THEN R([st1 EXCEPT !.ert.text.enc = IF Bit(msg, 0) THEN "utf8" ELSE "ucs2"], O("open_data_app", o))
            ELSE R(st1, O("open_data_app", o))

(* Group 4A *)
Type4A(st, g) ==
    IF ~(Has(g, 3) /\ Has(g, 4)) THEN R(st, Nothing)
    ELSE LET w   == B4(g)
             off == (IF Bit(w, 5) THEN -1 ELSE 1) * Bits(w, 5, 0)
             ct  == ClockTime(Bits2(B2(g), B3(g), 17, 1), Bits2(B3(g), w, 5, 12), Bits(w, 6, 6), off)
         IN R(st, IF ct = <<>> THEN Nothing ELSE K("clock_time", ct[1]))

(* Group 5 *)
BytesHex(bs) == Join([k \in 1..Len(bs) |-> Hex2(bs[k])], " ")
ShownText(bs) == Flat(Chars("basic", ViewOf(bs, Len(bs), Min(FirstCR(bs, 1), Len(bs)))))
Type5(st, g, tc) ==
    IF ~Has(g, 4) \/ (tc = 10 /\ ~Has(g, 3)) THEN R(st, Nothing)
    ELSE LET addr == Bits(B2(g), 5, 0)
             bs   == IF tc = 10 THEN <<Hi(B3(g)), Lo(B3(g)), Hi(B4(g)), Lo(B4(g))>> ELSE <<Hi(B4(g)), Lo(B4(g))>>
             tdc  == IF tc = 10 THEN Put2(Put2(st.tdc, addr * 4, B3(g)), addr * 4 + 2, B4(g)) ELSE st.tdc
             \* a terminator ends the text; it cannot complete before its first byte
             full == tc = 10 /\ Complete(tdc)
         IN R([st EXCEPT !.tdc = tdc],
              O("transparent_data",
                ("address" :> I(addr)) @@ ("raw" :> S(BytesHex(bs))) @@ ("as_text" :> Tx(ShownText(bs)))
                @@ (IF full THEN ("full_text" :> Tx(Str(tdc)))
                                 @@ ("full_raw" :> S(BytesHex(View(tdc))))
                    ELSE Nothing)))

(* Group 6 *)
Type6(st, g, tc) ==
    R(st, K("in_house_data",
            AI(<<Bits(B2(g), 5, 0)>>
               \o (IF tc = 12
                   THEN IF ~Has(g, 3) THEN <<>> ELSE IF ~Has(g, 4) THEN <<B3(g)>> ELSE <<B3(g), B4(g)>>
                   ELSE IF Has(g, 4) THEN <<B4(g)>> ELSE <<>>))))

(* Group 10A *)
Type10A(st, g) ==
    IF ~(Has(g, 3) /\ Has(g, 4)) THEN R(st, Nothing)
    ELSE LET ab == Bits(B2(g), 1, 4)
             seg == Bits(B2(g), 1, 0)
             t0 == IF ab # st.ptynAb THEN Clear(st.ptyn) ELSE st.ptyn
             t  == Put2(Put2(t0, seg * 4, B3(g)), seg * 4 + 2, B4(g))
         IN R([st EXCEPT !.ptyn = t, !.ptynAb = ab],
              IF Complete(t) THEN K("pty_name", Tx(LastText(t))) ELSE Nothing)

(* Group 14 *)
Type14(opt, st, g, tc) ==
    IF ~Has(g, 4) THEN R(st, Nothing)
    ELSE LET on   == B4(g)
             w    == B3(g)
             base == ("pi" :> S(PHex4(on))) @@ ("tp" :> B(Bit(B2(g), 4)))
             v    == Bits(B2(g), 4, 0)
             X(f) == R(st, O("other_network", base @@ f))
         IN IF tc = 29 THEN X("ta" :> B(Bit(B2(g), 3)))
            ELSE IF ~Has(g, 3) THEN X(Nothing)
            ELSE CASE v <= 3 ->
                     LET t0 == IF on \in DOMAIN st.eonPs THEN st.eonPs[on] ELSE NewText(8, "basic")
                         t  == Put2(t0, 2 * v, w)
                     IN R([st EXCEPT !.eonPs = (on :> t) @@ @],
                          O("other_network", base @@ (IF Complete(t) THEN "ps" :> Tx(LastText(t)) ELSE Nothing)))
                   [] v = 4 ->
                     LET l0 == IF on \in DOMAIN st.eonAf THEN st.eonAf[on] ELSE NewAf
                         l  == AfInsert(AfInsert(l0, Hi(w)), Lo(w))
                     IN R([st EXCEPT !.eonAf = (on :> IF AfComplete(l) THEN AfClear(l) ELSE l) @@ @],
                          O("other_network", base @@ (IF AfComplete(l) THEN "alt_frequencies" :> AI(AfList(l)) ELSE Nothing)))
                   [] v >= 5 /\ v <= 9 -> X(IF ValidFm(Lo(w)) THEN "kilohertz" :> I(FmKHz(Lo(w))) ELSE Nothing)
                   [] v = 12 -> X(("has_linkage" :> B(Bit(w, 15)))
                                  @@ (IF Bit(w, 15) /\ Bits(w, 12, 0) # 0 THEN "linkage_set" :> I(Bits(w, 12, 0)) ELSE Nothing))
                   [] v = 13 -> X(("prog_type" :> S(PtyName(Bits(w, 5, 11), opt.rbds))) @@ ("ta" :> B(Bit(w, 0))))
                   [] v = 14 -> X(PinOut(w))
                   [] v = 15 -> X("broadcaster_data" :> S(Hex4(w)))
                   [] OTHER -> X(Nothing)

(* Group 15A *)
Type15A(opt, st, g) ==
    LET seg == Bits(B2(g), 3, 0)
        t1  == IF Has(g, 3) THEN Put2(st.lps, seg * 4, B3(g)) ELSE st.lps
        t   == IF Has(g, 4) THEN Put2(t1, seg * 4 + 2, B4(g)) ELSE t1
    IN R([st EXCEPT !.lps = t],
         IF (Has(g, 3) \/ Has(g, 4)) /\ Complete(t) THEN K("long_ps", Tx(Rtrim(LastText(t))))
         ELSE IF opt.partial THEN K("partial_long_ps", Tx(Str(t))) ELSE Nothing)

Type15B(st, g) == R(st, Switching(IF Has(g, 2) THEN B2(g) ELSE B4(g)))

-----------------------------------------------------------------------------
(* Open data applications *)
OdaRaw(g) == Hex2(Bits(B2(g), 5, 0)) \o " " \o (IF Has(g, 3) THEN Hex4(B3(g)) ELSE "----")
             \o " " \o (IF Has(g, 4) THEN Hex4(B4(g)) ELSE "----")

\* one tag: <<content type, start, length>>
RtPlusTags(g) ==
    IF ~Has(g, 3) THEN <<>>
    ELSE LET t1 == <<Bits2(B2(g), B3(g), 6, 13), Bits(B3(g), 6, 7), Bits(B3(g), 6, 1) + 1>> IN
         IF ~Has(g, 4) THEN <<t1>>
         ELSE <<t1, <<Bits2(B3(g), B4(g), 6, 11), Bits(B4(g), 6, 5), Bits(B4(g), 5, 0) + 1>> >>

RECURSIVE TagsOut(_, _, _, _, _)
TagsOut(text, tags, k, n, acc) ==
    IF k > Len(tags) THEN acc
    ELSE LET tag == tags[k]
             s == Slice(text, tag[2], tag[3])
             path == "tags." \o ToString(n)
         IN IF Len(s) > 0 /\ tag[1] # 0
            THEN TagsOut(text, tags, k + 1, n + 1,
                         acc @@ ((path \o ".content-type") :> S(RtPlusType(tag[1]))) @@ ((path \o ".data") :> Tx(Rtrim(s))))
            ELSE TagsOut(text, tags, k + 1, n, acc)

RtPlus(rt, g) ==
    LET tog == Bit(B2(g), 4)
        run == Bit(B2(g), 3)
        rt1 == IF tog # rt.tog \/ run # rt.run
               THEN [rt EXCEPT !.text = Clear(@), !.tog = tog, !.run = run] ELSE rt
    IN [rt |-> rt1,
        out |-> ("item_running" :> B(run)) @@ ("item_toggle" :> I(IF tog THEN 1 ELSE 0))
                @@ TagsOut(rt1.text, RtPlusTags(g), 1, 0, Nothing)]

Ert(st, g) ==
    LET pos == Bits(B2(g), 5, 0) * 4
        t0  == Resize(st.ert.text, 128)
        t1  == IF Has(g, 3) THEN Put2(t0, pos, B3(g)) ELSE t0
        t   == IF Has(g, 4) THEN Put2(t1, pos + 2, B4(g)) ELSE t1
    IN R([st EXCEPT !.ert.text = t],
         IF Complete(t) THEN K("enhanced_radiotext", Tx(Rtrim(LastText(t)))) ELSE Nothing)

DabMode == <<"unspecified", "I", "II or III", "IV">>
Dab(st, g) ==
    IF ~(Has(g, 3) /\ Has(g, 4)) \/ Bit(B2(g), 4) THEN R(st, Nothing)
    ELSE LET kHz == 16 * Bits2(B2(g), B3(g), 18, 0)
             ch  == At(T.dab, kHz, "")
         IN R(st, O("dab", ("mode" :> S(DabMode[Bits(B2(g), 2, 2) + 1])) @@ ("kilohertz" :> I(kHz))
                           @@ ("ensemble_id" :> S(PHex4(B4(g))))
                           @@ (IF ch = "" THEN Nothing ELSE "channel" :> S(ch))))

TmcUser(env, st, g) ==
    IF ~(Has(g, 3) /\ Has(g, 4)) THEN R(st, Nothing)
    ELSE LET u == UserGroup(env, st.tmc, Bits(B2(g), 5, 0), B3(g), B4(g)) IN
         R([st EXCEPT !.tmc = u.t], IF DOMAIN u.out = {} THEN Nothing ELSE O("tmc", u.out))

Oda(opt, env, st, g, tc) ==
    IF tc \notin DOMAIN st.oda THEN R(st, O("unknown_oda", "raw_data" :> S(OdaRaw(g))))
    ELSE LET app == st.oda[tc] IN
         CASE app = DabApp -> Dab(st, g)
           [] app = RtPlusApp -> LET r == RtPlus(st.rt, g) IN R([st EXCEPT !.rt = r.rt], O("radiotext_plus", r.out))
           [] app = ErtPlusApp -> LET r == RtPlus(st.ert, g) IN R([st EXCEPT !.ert = r.rt], O("ert_plus", r.out))
           [] app = ErtApp -> Ert(st, g)
           [] app \in TmcApps -> TmcUser(env, st, g)
           [] OTHER -> R(st, O("unknown_oda", ("app_id" :> S(Hex4(app))) @@ ("app_name" :> S(AppName(app)))
                                              @@ ("raw_data" :> S(OdaRaw(g)))))

-----------------------------------------------------------------------------
(* Type C groups (RDS2 streams 1-3) *)
FiveBytes(g) == <<Lo(B2(g)), Hi(B3(g)), Lo(B3(g)), Hi(B4(g)), Lo(B4(g))>>

RftData(st, g) ==
    LET pipe == Bits(B1(g), 4, 8)
        tog  == Bits(B1(g), 1, 7)
        addr == Bits2(B1(g), B2(g), 15, 8)
        f    == Segment(st.rft[pipe], tog, addr, FiveBytes(g))
        done == FileComplete(f)
    IN R([st EXCEPT !.rft[pipe] = IF done THEN Restart(f) ELSE f],
         (IF pipe \in DOMAIN st.pipe THEN O("open_data_app", "app_name" :> S(AppName(st.pipe[pipe]))) ELSE Nothing)
         @@ O("rft", ("data.pipe" :> I(pipe)) @@ ("data.toggle" :> I(tog)) @@ ("data.byte_address" :> I(addr * 5))
                     @@ ("data.segment_data" :> AI(FiveBytes(g)))
                     @@ (IF done THEN "data.file_contents" :> Tx(Contents(f)) ELSE Nothing)))

Assignment(st, g) ==
    LET ch  == Bits(B1(g), 6, 0)
        aid == B2(g)
        w   == B3(g)
        v   == Bits(w, 4, 12)
        st1 == [st EXCEPT !.pipe = (ch :> aid) @@ @]
        o   == ("channel" :> I(ch)) @@ ("oda_aid" :> I(aid)) @@ ("app_name" :> S(AppName(aid)))
        size == Bits2(w, B4(g), 18, 0)
        mode == Bits(w, 3, 9)
        crc  == B4(g)
    IN IF Bits(B1(g), 2, 6) # 0 THEN R(st, Nothing)          \* assignment methods 2-4
       ELSE IF ch >= 16
            THEN R(st1, O("open_data_app", o @@ ("app_data" :> AI(<<Hi(w), Lo(w), Hi(B4(g)), Lo(B4(g))>>))))
       ELSE IF v = 0
            THEN R([st1 EXCEPT !.rft[ch] = FileSize(@, size)],
                   O("open_data_app", o)
                   @@ O("rft", ("file_info.version" :> I(Bits(w, 3, 8))) @@ ("file_info.id" :> I(Bits(w, 6, 2)))
                               @@ ("file_info.size" :> I(size)) @@ ("file_info.has_crc" :> B(Bit(w, 11)))))
       ELSE IF v = 1
            THEN R(st1, O("open_data_app", o)
                        @@ (IF mode = 0 THEN O("rft", "crc_info.file_crc16" :> I(crc))
                            ELSE IF mode = 6 THEN Nothing
                            ELSE O("rft", ("crc_info.chunk_crc16" :> I(crc)) @@ ("crc_info.chunk_address" :> I(Bits(w, 9, 0)))
                                          @@ ("crc_info.crc_mode" :> I(mode)))))
       ELSE R(st1, O("open_data_app",
                     o @@ ((IF v >= 8 THEN "non_file_oda_data" ELSE "file_oda_data") :> S(Hex7(Bits2(w, B4(g), 28, 0))))))

TypeC(st, g) ==
    IF ~(Has(g, 1) /\ Has(g, 2) /\ Has(g, 3) /\ Has(g, 4)) THEN R(st, Nothing)
    ELSE LET fid == Bits(B1(g), 2, 14)
             fn  == Bits(B1(g), 6, 8)
         IN IF fid = 0 /\ fn = 0 THEN R(st, Nothing)
            ELSE IF fid = 0 /\ fn \div 16 = 2 THEN RftData(st, g)
            ELSE IF fid = 1
                 THEN R(st, O("open_data_app",
                              ("channel" :> I(fn))
                              @@ ("app_data" :> AI(<<Lo(B1(g)), Hi(B2(g)), Lo(B2(g)), Hi(B3(g)), Lo(B3(g)), Hi(B4(g)), Lo(B4(g))>>))))
            ELSE IF fid = 2 /\ fn = 0 THEN Assignment(st, g)
            ELSE R(st, O("open_data_app",
                         "data" :> AI(<<Hi(B2(g)), Lo(B2(g)), Hi(B3(g)), Lo(B3(g)), Hi(B4(g)), Lo(B4(g))>>)))

-----------------------------------------------------------------------------
\* Which decoder a group goes to; type codes are 2 * number + (1 if version B)
Decode(opt, env, st, g) ==
    LET tc == TypeCode(g) IN
    CASE tc = -1 -> R(st, Nothing)
      [] tc = 99 -> TypeC(st, g)
      \* fixed meaning
      [] tc \in {0, 1} -> Type0(opt, st, g, tc)
      [] tc \in {2, 3} -> Type1(st, g, tc)
      [] tc \in {4, 5} -> Type2(opt, st, g, tc)
      [] tc = 6 -> Type3A(st, g)
      [] tc = 8 -> Type4A(st, g)
      [] tc = 20 -> Type10A(st, g)
      [] tc \in {28, 29} -> Type14(opt, st, g, tc)
      [] tc = 31 -> Type15B(st, g)
      \* assigned for open data
      [] tc \in DOMAIN st.oda -> Oda(opt, env, st, g, tc)
      \* primary function
      [] tc \in {10, 11} -> Type5(st, g, tc)
      [] tc \in {12, 13} -> Type6(st, g, tc)
      [] tc \in {14, 18} -> R(st, Nothing)
      [] tc = 16 -> TmcUser(env, st, g)
      [] tc = 30 -> Type15A(opt, st, g)
      [] OTHER -> Oda(opt, env, st, g, tc)

\* Text that is not UTF-8 cannot be printed; the line then has none of its fields
Printable(line) == \A k \in DOMAIN line : \A p \in DOMAIN line[k] :
                      line[k][p][1] = "t" => (p = "data.file_contents" \/ ValidUtf8(line[k][p][2]))

\* bler: 0..100 or -1
Prefix(opt, st, g, bler) ==
    (IF opt.streams THEN K("stream", I(g.stream)) ELSE Nothing)
    @@ (IF g.stream = 0
        THEN K("pi", S(PHex4(st.pi)))
             @@ (IF opt.rbds /\ CallSign(st.pi) # ""
                 THEN K(IF Uncertain(st.pi) THEN "callsign_uncertain" ELSE "callsign", S(CallSign(st.pi)))
                 ELSE Nothing)
        ELSE Nothing)
    @@ (IF opt.ts THEN K("rx_time", AnyVal) ELSE Nothing)
    @@ (IF bler >= 0 THEN K("bler", I(bler)) ELSE Nothing)
    @@ (IF opt.nchan > 1 THEN K("channel", I(opt.chan)) ELSE Nothing)
    @@ (IF opt.raw THEN K("raw_data", S(RawHex(g))) ELSE Nothing)
    @@ Basics(opt, g)

StationStep(opt, env, st, g, bler) ==
    LET main == g.stream = 0
        st1  == IF main THEN [st EXCEPT !.hadPi = HasPi(g)] ELSE st
        skip == main /\ ((~HasPi(g) /\ ~st.hadPi) \/ IsEmptyGroup(g))
    IN IF skip THEN [st |-> st1, out |-> <<>>]
       ELSE LET d == Decode(opt, env, st1, g)
                line == Prefix(opt, st, g, bler) @@ d.out
            IN [st |-> d.st, out |-> <<IF Printable(line) THEN line ELSE Nothing>>]
=============================================================================

----------------------------- MODULE LocationDb -----------------------------
(* What is loaded from the tables on disk: service keys and TMC location     *)
(* tables (TMC Exchange format).  A raw environment is                       *)
(*   keys:   rows <<encryption id, xor, start, rot>>, in file order          *)
(*   tables: in the order given, records of the rows that are well formed    *)
(*     ltn, names <<nid, name>>, roads <<lcd, number, rnid>>,                *)
(*     segments <<lcd, road lcd>>,                                           *)
(*     points <<table, lcd, n1id, x, y, road lcd, segment lcd, rnid>>,        *)
(*     poffsets <<lcd, neg, pos>>            (absent numbers: -1; x, y: 0)   *)
EXTENDS Integers, Sequences, TLC, FiniteSets

Empty == [x \in {} |-> 0]
\* last row for a key wins
RECURSIVE RowsFrom(_, _, _, _, _)
RowsFrom(rows, k, key(_), val(_), acc) ==
    IF k > Len(rows) THEN acc ELSE RowsFrom(rows, k + 1, key, val, (key(rows[k]) :> val(rows[k])) @@ acc)

NameOf(names, id) == IF id \in DOMAIN names THEN names[id] ELSE ""
OrZero(n) == IF n < 0 THEN 0 ELSE n

LoadTable(t) ==
    LET names == RowsFrom(t.names, 1, LAMBDA r : r[1], LAMBDA r : r[2], Empty)
        roads == RowsFrom(t.roads, 1, LAMBDA r : r[1],
                          LAMBDA r : [number |-> r[2], name |-> NameOf(names, OrZero(r[3]))], Empty)
        segs  == RowsFrom(t.segments, 1, LAMBDA r : r[1], LAMBDA r : r[2], Empty)
        off   == RowsFrom(t.poffsets, 1, LAMBDA r : r[1], LAMBDA r : <<OrZero(r[2]), OrZero(r[3])>>, Empty)
        road(r) == IF OrZero(r[6]) = 0 /\ OrZero(r[7]) \in DOMAIN segs THEN segs[OrZero(r[7])] ELSE OrZero(r[6])
        pts   == RowsFrom(t.points, 1, LAMBDA r : r[2],
                          LAMBDA r : [name |-> NameOf(names, OrZero(r[3])), roadName |-> NameOf(names, OrZero(r[8])),
                                      roa |-> road(r), lon |-> r[4], lat |-> r[5],
                                      neg |-> IF r[2] \in DOMAIN off THEN off[r[2]][1] ELSE 0,
                                      pos |-> IF r[2] \in DOMAIN off THEN off[r[2]][2] ELSE 0], Empty)
    IN [ltn |-> IF Len(t.points) = 0 THEN 0 ELSE t.points[Len(t.points)][1],
        points |-> pts, roads |-> roads, nnames |-> Cardinality(DOMAIN names)]

RECURSIVE LoadTables(_, _, _)
LoadTables(ts, k, acc) == IF k > Len(ts) THEN acc ELSE LoadTables(ts, k + 1, (ts[k].ltn :> LoadTable(ts[k])) @@ acc)
RECURSIVE LoadKeys(_, _, _)
LoadKeys(rows, k, acc) ==                              \* first row for a key wins
    IF k > Len(rows) THEN acc
    ELSE LoadKeys(rows, k + 1, acc @@ (rows[k][1] :> [xor |-> rows[k][2], start |-> rows[k][3], rot |-> rows[k][4]]))

LoadEnv(raw) ==
    [keys |-> LoadKeys(raw.keys, 1, Empty),
     dbs  |-> LoadTables(raw.tables, 1, Empty),
     info |-> [k \in 1..Len(raw.tables) |->
                 LET d == LoadTable(raw.tables[k]) IN
                 [ltn |-> d.ltn, points |-> Cardinality(DOMAIN d.points), roads |-> Cardinality(DOMAIN d.roads),
                  names |-> d.nnames]]]
=============================================================================

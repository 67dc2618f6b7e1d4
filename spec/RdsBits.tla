------------------------------ MODULE RdsBits ------------------------------
(* Bit fields, hexadecimal text and the typed values that make up an output *)
(* line.  Everything here is a constant-level operator.                     *)
EXTENDS Integers, Sequences, TLC

P2 == [i \in 0..30 |-> 2^i]

\* n-bit field of the 16-bit word v, starting at bit s from the right
Bits(v, n, s) == (v \div P2[s]) % P2[n]
Bit(v, s)     == (v \div P2[s]) % 2 = 1
Hi(v)         == v \div 256
Lo(v)         == v % 256

\* n-bit field of the concatenation v1:v2, starting at bit s (16 <= n + s, n <= 28)
Bits2(v1, v2, n, s) == (v1 % P2[n + s - 16]) * P2[16 - s] + (v2 \div P2[s])

HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
Hex1(v) == HexDigit[(v % 16) + 1]
Hex2(v) == Hex1(v \div 16) \o Hex1(v)
Hex4(v) == Hex2((v \div 256) % 256) \o Hex2(v % 256)
Hex3(v) == Hex1(v \div 256) \o Hex2(v % 256)
Hex7(v) == Hex3((v \div 65536) % 4096) \o Hex4(v % 65536)
PHex4(v) == "0x" \o Hex4(v)

Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
HHMM(h, m) == Pad2(h) \o ":" \o Pad2(m)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* Typed output values.  A value is a tuple tagged with its JSON type, so    *)
(* that values of different types can be compared (they are unequal).        *)
I(n)   == <<"i", ToString(n)>>
S(s)   == <<"s", s>>
B(b)   == <<"b", IF b THEN "true" ELSE "false">>
Tx(bs) == <<"t", bs>>                                    \* text, as UTF-8 bytes
AI(q)  == <<"a", [k \in 1..Len(q) |-> "i:" \o ToString(q[k])]>>
AS(q)  == <<"a", [k \in 1..Len(q) |-> "s:" \o q[k]]>>
AnyVal    == <<"*">>                                        \* present, value not specified

Nothing    == [x \in {} |-> <<>>]
K(key, v)  == key :> ("_" :> v)                          \* "key": v
O(key, f)  == key :> f                                   \* "key": { ... } (flattened)

ValueMatches(spec, impl) == spec = AnyVal \/ spec = impl

\* Do the projections of two output lines on the keys Keys agree?
ObjectMatches(e, a) == /\ DOMAIN e = DOMAIN a
                       /\ \A k \in DOMAIN e : ValueMatches(e[k], a[k])
LineMatches(e, a, Keys) ==
    \A k \in ((DOMAIN e \cup DOMAIN a) \cap Keys) :
        /\ k \in DOMAIN e /\ k \in DOMAIN a
        /\ ObjectMatches(e[k], a[k])

\* Fold a left-associative operator over a sequence
RECURSIVE FoldL(_, _, _, _)
FoldL(op(_, _), acc, q, i) == IF i > Len(q) THEN acc ELSE FoldL(op, op(acc, q[i]), q, i + 1)
=============================================================================

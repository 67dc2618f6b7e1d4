------------------------------ MODULE Callsign ------------------------------
(* North American call signs from PI codes (NRSC-4-B, D.7).                  *)
EXTENDS RdsBits, Tables

Letters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
             "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>

\* Undo the zero-nibble exceptions
Unpacked(pi) ==
    IF pi \div 16 = 2810 (* AFA *) /\ pi % 16 < 10 THEN (pi % 16) * 4096
    ELSE IF pi \div 256 = 175 (* AF *) THEN (pi % 256) * 256
    ELSE IF pi \div 4096 = 10 THEN ((pi \div 256) % 16) * 4096 + (pi % 256)
    ELSE pi

\* "" if there is none
CallSign(pi0) ==
    LET pi == Unpacked(pi0) IN
    IF pi >= 39248 (* 9950 *) /\ pi <= 40703 (* 9EFF *) THEN At(T.call3, pi, "")
    ELSE IF pi \div 4096 \in {11, 13, 14}
         THEN At(T.callLinked, (pi \div 4096) * 4096 + (pi % 256), "")
    ELSE IF pi >= 4096 /\ pi <= 39247
         THEN LET k == pi <= 21671 (* 54A7 *)
                  n == pi - (IF k THEN 4096 ELSE 21672)
              IN (IF k THEN "K" ELSE "W") \o Letters[((n \div 676) % 26) + 1]
                 \o Letters[((n \div 26) % 26) + 1] \o Letters[(n % 26) + 1]
    ELSE ""
Uncertain(pi) == pi \div 4096 = 1
=============================================================================

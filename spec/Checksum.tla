------------------------------ MODULE Checksum ------------------------------
(* The checksums used with packets and frames, as the bytes they are stored  *)
(* in.  "toy" is for the bounded models: one digit, parity of sum and length.*)
EXTENDS Integers, Sequences, Bitwise
RECURSIVE Pair(_, _, _, _, _)
Pair(s, i, a, b, m) == IF i > Len(s) THEN <<a, b>>
                       ELSE LET x == (a + s[i]) % m IN Pair(s, i + 1, x, (b + x) % m, m)
Fletcher(s) == Pair(s, 1, 0, 0, 255)
Adler(s) == Pair(s, 1, 1, 0, 65521)
RECURSIVE Weigh(_, _, _)
Weigh(s, i, a) == IF i > Len(s) THEN a ELSE Weigh(s, i + 1, (a + i * s[i]) % 256)
RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
RECURSIVE Bits(_, _)
Bits(x, k) == IF k = 0 THEN x ELSE Bits(IF x % 2 = 1 THEN (x \div 2) ^^ 40961 ELSE x \div 2, k - 1)
Table == [i \in 0..255 |-> Bits(i, 8)]
RECURSIVE Modbus(_, _, _)
Modbus(s, i, x) == IF i > Len(s) THEN x
                   ELSE Modbus(s, i + 1, (x \div 256) ^^ Table[(x % 256) ^^ s[i]])
Lo(x) == x % 256
Hi(x) == x \div 256
Crc(kind, s) ==
    CASE kind = "toy" -> <<(Sum(s, 1) + Len(s)) % 2>>
      [] kind = "sum8" -> <<Weigh(s, 1, 0)>>
      [] kind = "f16l" -> Fletcher(s)
      [] kind = "f16m" -> <<Fletcher(s)[2], Fletcher(s)[1]>>
      [] kind = "crc16" -> LET x == Modbus(s, 1, 65535) IN <<Lo(x), Hi(x)>>
      [] kind = "a32l" -> LET p == Adler(s) IN <<Lo(p[1]), Hi(p[1]), Lo(p[2]), Hi(p[2])>>
      [] kind = "a32m" -> LET p == Adler(s) IN <<Hi(p[2]), Lo(p[2]), Hi(p[1]), Lo(p[1])>>
      [] kind = "q64m" -> LET p == Adler(s) IN <<Hi(p[1]), Lo(p[1]), Hi(p[2]), Lo(p[2]), Hi(p[2]), Lo(p[2]), Hi(p[1]), Lo(p[1])>>
Size(kind) == CASE kind \in {"toy", "sum8"} -> 1 [] kind \in {"f16l", "f16m", "crc16"} -> 2
                [] kind \in {"a32l", "a32m"} -> 4 [] OTHER -> 8
=============================================================================

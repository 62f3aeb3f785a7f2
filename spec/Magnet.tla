------------------------------- MODULE Magnet --------------------------------
(* The magnet language of src/torrent/magnet.rs: what a request body denotes.       *)
EXTENDS Naturals, Sequences

Prefix == <<109,97,103,110,101,116,58,63,120,116,61,117,114,110,58,98,116,105,104,58>>      \* magnet:?xt=urn:btih:
AMP == 38

(* ------------------------------- reading --------------------------------- *)
HexVal(b) == CASE b \in 48..57 -> b - 48 [] b \in 65..70 -> b - 55 [] b \in 97..102 -> b - 87 [] OTHER -> 99
B32Val(b) == CASE b \in 65..90 -> b - 65 [] b \in 97..122 -> b - 97 [] b \in 50..55 -> b - 24 [] OTHER -> 99

RECURSIVE UpTo(_, _)
UpTo(w, i) == IF i > Len(w) \/ w[i] = AMP THEN i - 1 ELSE UpTo(w, i + 1)
Field(w) == SubSeq(w, Len(Prefix) + 1, UpTo(w, Len(Prefix) + 1))
Begins(w) == Len(w) >= Len(Prefix) /\ SubSeq(w, 1, Len(Prefix)) = Prefix

(* 8 digits of base 32 are 5 bytes. *)
Group(d, k) == LET v(i) == B32Val(d[8 * (k - 1) + i]) IN
  << v(1) * 8 + (v(2) \div 4), (v(2) % 4) * 64 + v(3) * 2 + (v(4) \div 16), (v(4) % 16) * 16 + (v(5) \div 2),
     (v(5) % 2) * 128 + v(6) * 4 + (v(7) \div 8), (v(7) % 8) * 32 + v(8) >>
NotAHash == <<>>
Denotes(w) ==
  IF ~Begins(w) THEN NotAHash
  ELSE LET f == Field(w) IN
       CASE Len(f) = 40 /\ \A i \in 1..40 : HexVal(f[i]) < 16 -> [i \in 1..20 |-> HexVal(f[2 * i - 1]) * 16 + HexVal(f[2 * i])]
         [] Len(f) = 32 /\ \A i \in 1..32 : B32Val(f[i]) < 32 -> Group(f, 1) \o Group(f, 2) \o Group(f, 3) \o Group(f, 4)
         [] OTHER -> NotAHash
(* Base 32 in small letters is not promised, but if taken it means the same. *)
Optional(w) == LET f == Field(w) IN Len(f) = 32 /\ \E i \in 1..32 : f[i] \in 97..122

(* ------------------------------- writing --------------------------------- *)
HexDigit(v, c) == IF v < 10 THEN 48 + v ELSE (CASE c = "low" -> 87 [] c = "up" -> 55 [] c = "mix" -> IF v % 2 = 0 THEN 87 ELSE 55) + v
HexEnc(h, c) == [i \in 1..(2 * Len(h)) |-> LET b == h[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16, c)]
B32Digit(v) == IF v < 26 THEN 65 + v ELSE 24 + v
(* bit number n of h, from 0 *)
Bit(h, n) == (h[(n \div 8) + 1] \div (2 ^ (7 - (n % 8)))) % 2
B32Enc(h) == [i \in 1..((8 * Len(h)) \div 5) |-> LET n == 5 * (i - 1) IN
                B32Digit(16 * Bit(h, n) + 8 * Bit(h, n + 1) + 4 * Bit(h, n + 2) + 2 * Bit(h, n + 3) + Bit(h, n + 4))]
=============================================================================

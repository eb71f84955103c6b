------------------------------- MODULE Words -------------------------------
(* 64-bit two's complement words as four 16-bit limbs, least significant    *)
(* first, and byte strings written as hexadecimal text.  TLC's integers     *)
(* have 32 bits, so addresses (which stay small) are integers while field   *)
(* values, addends and symbol values are words.                             *)
EXTENDS Naturals, Integers, Sequences

Base == 65536

W0 == <<0, 0, 0, 0>>

(* a non-negative integer as a word *)
WNat(n) == <<n % Base, n \div Base, 0, 0>>

WAdd(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div Base
      s3 == a[3] + b[3] + s2 \div Base
      s4 == a[4] + b[4] + s3 \div Base
  IN <<s1 % Base, s2 % Base, s3 % Base, s4 % Base>>

WNot(a) == [i \in 1..4 |-> Base - 1 - a[i]]
WNeg(a) == WAdd(WNot(a), <<1, 0, 0, 0>>)
WSub(a, b) == WAdd(a, WNeg(b))
WInt(n) == IF n >= 0 THEN WNat(n) ELSE WNeg(WNat(-n))

(* the word is the value of a signed / an unsigned 32-bit number *)
FitsS32(a) == \/ a[3] = 0 /\ a[4] = 0 /\ a[2] < 32768
              \/ a[3] = Base - 1 /\ a[4] = Base - 1 /\ a[2] >= 32768
FitsU32(a) == a[3] = 0 /\ a[4] = 0

(* small values back to integers; -1 if it isn't one *)
WToNat(a) == IF a[3] = 0 /\ a[4] = 0 /\ a[2] < 32768 THEN a[2] * Base + a[1] ELSE -1

HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Nibble == [c \in {HexDigits[i] : i \in 1..16} |-> CHOOSE i \in 0..15 : HexDigits[i + 1] = c]

(* the byte at offset o (from 0) of the byte string h *)
ByteAt(h, o) == 16 * Nibble[SubSeq(h, 2 * o + 1, 2 * o + 1)] + Nibble[SubSeq(h, 2 * o + 2, 2 * o + 2)]
BytesIn(h) == Len(h) \div 2
(* the bytes from offset a up to offset b, exclusive *)
HexRange(h, a, b) == SubSeq(h, 2 * a + 1, 2 * b)

RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN "00" \o Zeros(n - 1) ELSE LET h == Zeros(n \div 2) IN h \o h

(* Of a large section s only the pages that aren't zero are recorded: s.sp   *)
(* and s.pg, pairs of page number and page.  Part: the bytes from a up to b  *)
RECURSIVE Part(_, _, _)
Part(s, a, b) ==
  IF ~s.sp THEN HexRange(s.h, a, b)
  ELSE IF a >= b THEN ""
  ELSE LET k == a \div 4096
           z == IF b <= (k + 1) * 4096 THEN b ELSE (k + 1) * 4096
           here == {i \in DOMAIN s.pg : s.pg[i][1] = k}
       IN (IF here = {} THEN Zeros(z - a) ELSE HexRange(s.pg[CHOOSE i \in here : TRUE][2], a - k * 4096, z - k * 4096))
          \o Part(s, z, b)

(* 16 bytes of the section, the byte at o being the fifth of them *)
Around(s, o) ==
  LET a == IF o < 4 THEN 0 ELSE o - 4
      b == IF o + 12 > s.s THEN s.s ELSE o + 12
  IN SubSeq("--------", 1, IF o < 4 THEN 8 - 2 * o ELSE 0) \o Part(s, a, b)
     \o SubSeq("------------------------", 1, 2 * (o + 12 - b))

HalfAt(h, o) == ByteAt(h, o) + 256 * ByteAt(h, o + 1)
U32At(h, o) == <<HalfAt(h, o), HalfAt(h, o + 2), 0, 0>>
S32At(h, o) == LET hi == HalfAt(h, o + 2)
                   x == IF hi >= 32768 THEN Base - 1 ELSE 0
               IN <<HalfAt(h, o), hi, x, x>>
W64At(h, o) == <<HalfAt(h, o), HalfAt(h, o + 2), HalfAt(h, o + 4), HalfAt(h, o + 6)>>

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
RoundUp(v, m) == IF m <= 1 THEN v ELSE ((v + m - 1) \div m) * m
Page == 4096
=============================================================================

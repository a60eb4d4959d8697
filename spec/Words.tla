-------------------------------- MODULE Words --------------------------------
(* Machine words wider than TLC's integers.                                    *)
(*   32 bit: <<high 16 bits, low 16 bits>>.                                    *)
(*   60 bit: <<l0, l1, l2, l3, l4>>, limbs of 12 bits, least significant first.    *)
EXTENDS Integers, Sequences, Bitwise

Pow2(k) == 2 ^ k                                    \* k <= 30

(* ---- 16 bits --------------------------------------------------------- *)
Mul16lo(a, b) == (((a * (b \div 256)) % 65536) * 256 + a * (b % 256)) % 65536

(* full product of two 16-bit values, <<high, low>> *)
Mul16(a, b) ==
  LET p0 == (a % 256) * b
      p1 == (a \div 256) * b
      lo == p0 + (p1 % 256) * 256
  IN  <<(p1 \div 256) + (lo \div 65536), lo % 65536>>

(* ---- 32 bits --------------------------------------------------------- *)
Add32(x, y) ==
  LET l == x[2] + y[2]
  IN  <<(x[1] + y[1] + (l \div 65536)) % 65536, l % 65536>>
AddSmall32(x, n) ==                                \* n < 2^16
  LET l == x[2] + n
  IN  <<(x[1] + (l \div 65536)) % 65536, l % 65536>>
Mul32(x, y) ==
  LET p == Mul16(x[2], y[2])
  IN  <<(p[1] + Mul16lo(x[1], y[2]) + Mul16lo(x[2], y[1])) % 65536, p[2]>>
Xor32(x, y) == <<x[1] ^^ y[1], x[2] ^^ y[2]>>
Rotl32by1(x) == <<((x[1] * 2) % 65536) + (x[2] \div 32768),
                  ((x[2] * 2) % 65536) + (x[1] \div 32768)>>
RECURSIVE Rotl32(_, _)
Rotl32(x, k) ==
  IF k = 0 THEN x
  ELSE IF k >= 16 THEN Rotl32(<<x[2], x[1]>>, k - 16)
  ELSE Rotl32(Rotl32by1(x), k - 1)
Shl1Add32(x, t) ==
  LET l == x[2] * 2 + t[2]
  IN  <<(x[1] * 2 + t[1] + (l \div 65536)) % 65536, l % 65536>>
AllSet32(x, m) == ((x[1] & m[1]) = m[1]) /\ ((x[2] & m[2]) = m[2])
TopBitsZero32(x, n) ==                              \* 1 <= n <= 32
  IF n <= 16 THEN x[1] < Pow2(16 - n)
  ELSE x[1] = 0 /\ x[2] < Pow2(32 - n)
Less32(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])

RECURSIVE PowShl(_, _)
PowShl(x, k) == IF k = 0 THEN x ELSE PowShl(Add32(x, x), k - 1)      \* x * 2^k

(* ---- 60 bits --------------------------------------------------------- *)
Zero60 == <<0, 0, 0, 0, 0>>
Carry60(c0, c1, c2, c3, c4) ==
  LET d1 == c1 + (c0 \div 4096)
      d2 == c2 + (d1 \div 4096)
      d3 == c3 + (d2 \div 4096)
      d4 == c4 + (d3 \div 4096)
  IN  <<c0 % 4096, d1 % 4096, d2 % 4096, d3 % 4096, d4 % 4096>>
Mul60(x, y) ==
  Carry60(x[1] * y[1],
          x[1] * y[2] + x[2] * y[1],
          x[1] * y[3] + x[2] * y[2] + x[3] * y[1],
          x[1] * y[4] + x[2] * y[3] + x[3] * y[2] + x[4] * y[1],
          x[1] * y[5] + x[2] * y[4] + x[3] * y[3] + x[4] * y[2] + x[5] * y[1])
Add60(x, y) == Carry60(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4], x[5] + y[5])
AddSmall60(x, n) == Carry60(x[1] + n, x[2], x[3], x[4], x[5])
Neg60(x) == AddSmall60(<<4095 - x[1], 4095 - x[2], 4095 - x[3], 4095 - x[4], 4095 - x[5]>>, 1)
RECURSIVE PowN60(_, _)
PowN60(x, k) == IF k = 0 THEN <<1, 0, 0, 0, 0>> ELSE Mul60(x, PowN60(x, k - 1))
LowBitsOnes60(x, n) ==                              \* n <= 60
  /\ LET f(i, m) == IF m <= 0 THEN TRUE
                    ELSE IF m >= 12 THEN x[i] = 4095
                    ELSE x[i] % Pow2(m) = Pow2(m) - 1
     IN  f(1, n) /\ f(2, n - 12) /\ f(3, n - 24) /\ f(4, n - 36) /\ f(5, n - 48)
==============================================================================

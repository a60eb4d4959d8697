-------------------------------- MODULE Params --------------------------------
(* What every constructor selects: from a constructor call as a record            *)
(*   [alg, ctor, a (integer arguments), tab (table, where one is passed), ...]    *)
(* to the explicit configuration the edge rules speak about.                       *)
(* Sizes of 2^30 and more are beyond any stream; they are written CAP + k, k being    *)
(* the place in the list below, as TLC's integers end at 2^31.                        *)
EXTENDS Rules, Tables

CAP == 1073741824
KiB == 1024

(* 0x0003590703530000 and 0x0000d90003530000 split into bits 25..49 and 0..24    *)
FcdcMasks == << << 28083073, 22216704 >>, << 7110657, 22216704 >> >>

ZSTD_PRIME == <<1123, 2646, 3255, 3021, 3867>>     \* 0xCF1BBCDCB7A56463 mod 2^60

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)      \* floor(log2(n)), n >= 1

(* floor(log2(m)) and floor(log2(m - 1)) of 2^64-1, 2^31, 2^32-1, 2^32, 2^32+1,        *)
(* 2^32+16, 2^33, 2^40+3, 2^48, 2^63, 2^63+1, 2^64-2, 2^30, 2^31-1                      *)
HugeLog  == << 63, 31, 31, 32, 32, 32, 33, 40, 48, 63, 63, 63, 30, 30 >>
HugeLog1 == << 63, 30, 31, 31, 32, 32, 32, 40, 47, 62, 63, 63, 29, 30 >>

(* sizes as << multiples of 2^20, rest >>, as far as streams may get                     *)
MiB == 1048576
HugeAt == << <<-1, 0>>, <<2048, 0>>, <<4095, 1048575>>, <<4096, 0>>, <<4096, 1>>, <<4096, 16>>, <<8192, 0>>,
             <<-1, 0>>, <<-1, 0>>, <<-1, 0>>, <<-1, 0>>, <<-1, 0>>, <<1024, 0>>, <<2047, 1048575>> >>
FarOf(m) == IF m >= CAP THEN HugeAt[m - CAP + 1] ELSE << m \div MiB, m % MiB >>
(* a 64th of them, in bytes *)
HugeDiv64 == << CAP, 33554432, 67108863, 67108864, 67108864, 67108864, 134217728,
                CAP, CAP, CAP, CAP, CAP, 16777216, 33554431 >>
FarPlus(f, d) == << f[1] + (f[2] + d) \div MiB, (f[2] + d) % MiB >>

(* 2^floor(log2(m / 4)) clamped to exponents 1..32 *)
AvgOfMax(m) == IF m >= CAP THEN MinOf(32, HugeLog[m - CAP + 1] - 2) ELSE IF m < 8 THEN 1 ELSE Log2(m) - 2
AvgBelow(m) == IF m >= CAP THEN MinOf(32, HugeLog1[m - CAP + 1] - 2) ELSE AvgOfMax(m - 1)
(* the same of 64 * m *)
AvgOfMin(m) == IF m >= CAP THEN 32 ELSE IF m < 1 THEN 1 ELSE MinOf(32, Log2(m) + 4)
AvgOfRange(lk, lo, hk, hi) ==
  CASE hk = 1 -> AvgOfMax(hi)
    [] hk = 2 -> AvgBelow(hi)
    [] hk = 0 /\ lk = 1 -> AvgOfMin(lo)
    [] hk = 0 /\ lk = 2 -> AvgOfMin(lo + 1)
    [] OTHER -> 16

Zpaq(avg, lk, lo, hk, hi) ==
  [alg |-> "zpaq", avg |-> avg, lk |-> lk, lo |-> lo,
   hk |-> IF hi >= CAP THEN 0 ELSE hk, hi |-> hi, hk0 |-> hk, fhi |-> FarOf(hi)]
ZpaqFrag(f) ==
  IF f <= 27 THEN Zpaq(f, 1, 64 * Pow2(f - 10), 1, 8128 * Pow2(f - 10))
  ELSE [Zpaq(f, 1, 64 * Pow2(f - 10), 1, CAP) EXCEPT !.fhi = << 508 * Pow2(f - 26), 0 >>]
Gzip(w, m) == [alg |-> "gzip", w |-> w, mod |-> m]
Buz(w, mask, max, tab, salt) ==
  [alg |-> "buz", w |-> w, mask |-> mask, max |-> max, tab |-> tab, salt |-> salt]
Fcdc(tab, min, norm, max) ==
  [alg |-> "fcdc", tab |-> tab, min |-> min, norm |-> norm, max |-> max,
   ms |-> FcdcMasks[1], ml |-> FcdcMasks[2]]

BorgTable(seed) == [i \in 1..256 |-> Xor32(BORG[i], seed)]
TableOf(j) == CASE j.tabname = "gobuz" -> GOBUZ
                [] j.tabname = "borg" -> BorgTable(j.seed)
                [] j.tabname = "gear64" -> GEAR64
                [] j.tabname = "given" -> j.tab

Resolve(j) ==
  LET a == j.a IN
  CASE j.ctor = "bup_default"  -> [alg |-> "bup", w |-> 64, bits |-> 13, off |-> 31]
    [] j.ctor = "bup_window"   -> [alg |-> "bup", w |-> a[1], bits |-> 13, off |-> 31]
    [] j.ctor = "buz_new"      -> Buz(a[1], <<a[2], a[3]>>, a[4], TableOf(j), a[5])
    [] j.ctor = "buz_nom"      -> Buz(67, <<0, 4095>>, 16777216, GOBUZ, a[1])
    [] j.ctor = "gear_default" -> [alg |-> "gear", log2 |-> 13, tab |-> GEAR32]
    [] j.ctor = "gear_log2"    -> [alg |-> "gear", log2 |-> a[1], tab |-> GEAR32]
    [] j.ctor = "fcdc_default" -> Fcdc(GEAR64, 2 * KiB, 8 * KiB, 64 * KiB)
    [] j.ctor = "fcdc_new"     -> Fcdc(TableOf(j), a[1], a[2], a[3])
    [] j.ctor = "gzip_default" -> Gzip(8192, 4096)
    [] j.ctor = "gzip_new"     -> Gzip(a[1], a[2])
    [] j.ctor = "pigz_default" -> [alg |-> "pigz", bits |-> 12]
    [] j.ctor = "pigz_bits"    -> [alg |-> "pigz", bits |-> a[1]]
    [] j.ctor = "mii_default"  -> [alg |-> "mii", w |-> 5]
    [] j.ctor = "mii_w"        -> [alg |-> "mii", w |-> a[1]]
    [] j.ctor = "ram_w"        -> [alg |-> "ram", w |-> a[1]]
    [] j.ctor = "zpaq_default" -> ZpaqFrag(16)
    [] j.ctor = "zpaq_frag"    -> ZpaqFrag(a[1])
    [] j.ctor = "zpaq_max"     -> Zpaq(AvgOfMax(a[1]), 1, IF a[1] >= CAP THEN HugeDiv64[a[1] - CAP + 1] ELSE a[1] \div 64, 1, a[1])
    [] j.ctor = "zpaq_range"   -> Zpaq(AvgOfRange(a[1], a[2], a[3], a[4]), a[1], a[2], a[3], a[4])
    [] j.ctor = "zpaq_full"    -> Zpaq(a[1], a[2], a[3], a[4], a[5])
    [] j.ctor = "zstd_default" -> [alg |-> "zstd", rl |-> 32, bits |-> 23, off |-> 10, prime |-> ZSTD_PRIME]
    [] j.ctor = "zstd_log2"    -> [alg |-> "zstd", rl |-> 32, bits |-> a[1], off |-> 10, prime |-> ZSTD_PRIME]
    [] j.ctor = "zstd_mib"     -> [alg |-> "zstd", rl |-> 32, bits |-> 20 + Log2(a[1]), off |-> 10, prime |-> ZSTD_PRIME]

(* the largest complete chunk a configuration with a size limit can emit *)
Largest(c) ==
  CASE c.alg = "fcdc" -> c.max
    [] c.alg = "buz"  -> c.max + 1
    [] c.alg = "zpaq" -> IF c.hk = 0 THEN CAP ELSE MaxOf(1, IF c.hk = 1 THEN c.hi ELSE c.hi - 1)
    [] OTHER -> CAP
Smallest(c) ==
  CASE c.alg = "fcdc" -> MaxOf(1, c.min)
    [] c.alg = "zpaq" -> IF c.lk = 0 THEN 1 ELSE MaxOf(1, IF c.lk = 1 THEN c.lo ELSE c.lo + 1)
    [] OTHER -> 1

(* Where the first chunk of a stream of nothing but b ends, for configurations whose    *)
(* limits lie about 2^32.                                                               *)
(* The same chunk 2^32 bytes shorter: FastCDC does not look at what comes before the     *)
(* minimum; zpaq's hash of a constant even byte goes through all 2^32 values (from the   *)
(* third byte on h -> (h + b + 1) * 314159265, a full period as 314159265 = 1 mod 4 and  *)
(* the constant added is odd), so it is the same 2^32 bytes later.                       *)
Over32(m) == IF FarOf(m)[1] = 4096 THEN FarOf(m)[2] ELSE -1
Shorter(c) ==
  CASE c.alg = "fcdc" -> [c EXCEPT !.min = Over32(c.min), !.norm = Over32(c.norm), !.max = Over32(c.max)]
    [] c.alg = "zpaq" -> [c EXCEPT !.lo = IF FarOf(c.lo)[1] = 4095 THEN 0 ELSE Over32(c.lo), !.hi = Over32(c.hi), !.hk = c.hk0]
FarFirst(c, b, api) ==
  IF c.alg = "zpaq" \/ (c.alg = "fcdc" /\ c.min >= CAP)
  THEN << 4096, Edges(Shorter(c), [i \in 1..64 |-> b], api)[1] >>
  ELSE LET probe == (CASE c.alg = "buz" -> c.w + 70 [] c.alg = "fcdc" -> c.min + 600 [] OTHER -> 10)
       IN  IF Edges(c, [i \in 1..probe |-> b], api) # << >> THEN << 0, Edges(c, [i \in 1..probe |-> b], api)[1] >>
           ELSE CASE c.alg = "buz" -> FarPlus(FarOf(c.max), 1)
                  [] c.alg = "fcdc" -> FarOf(c.max)
                  [] c.alg = "ram" -> FarPlus(FarOf(c.w), 2)
                  \* modulus 2^k MiB, w * b no less: the first sum that is a multiple of it
                  [] c.alg = "gzip" -> FarPlus(<< FarOf(c.mod)[1] \div b, 0 >>, 0)

(* Where the first chunk of a stream ends whose first bytes are `data` and which goes on  *)
(* repeating the last L of them, for a zpaq configuration whose smallest chunk is longer   *)
(* than `data`: where after the smallest size the first of the places comes that match     *)
(* in each repetition, and at the largest size if that is before.                           *)
FarLow(c) == IF c.lk = 2 THEN FarPlus(FarOf(c.lo), 1) ELSE FarOf(c.lo)
FarHigh(c) == IF c.hk0 = 0 \/ c.fhi[1] < 0 THEN << >> ELSE IF c.hk0 = 1 THEN c.fhi ELSE FarPlus(c.fhi, -1)
After64(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
Least(q) == FoldLeft(MinOf, q[1], q)
PeriodFirst(c, data, L) ==
  LET n   == Len(data)
      u   == Prep([c EXCEPT !.lk = 0, !.hk = 0])
      f   == FoldLeft(LAMBDA acc, i : LET x == StepZpaq(u, data, i, 0, acc[1])
                                      IN  << x[1], IF x[2] /\ i > n - L THEN Append(acc[2], i) ELSE acc[2],
                                             IF i = n - L THEN x[1] ELSE acc[3] >>,
                      << Fresh(u), << >>, << >> >>, [i \in 1..n |-> i])
      low == FarLow(c)
      at  == ((low[1] % L) * (MiB % L) + low[2]) % L
      hit == FarPlus(low, Least([i \in 1..Len(f[2]) |-> (f[2][i] - at) % L]))
      top == FarHigh(c)
  IN  IF f[1] # f[3] \/ low[1] < 1 \/ n >= MiB THEN << >>        \* the repetitions differ: not said
      ELSE IF f[2] = << >> THEN top
      ELSE IF top # << >> /\ After64(hit, top) THEN top ELSE hit
==============================================================================

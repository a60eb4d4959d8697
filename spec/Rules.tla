-------------------------------- MODULE Rules --------------------------------
(* What an edge is: the edge rule of every algorithm, byte by byte, over a      *)
(* stream given as a sequence of bytes.  A position p (0..Len(data)) is the gap *)
(* after the p-th byte; an edge is a position > 0.  Nothing here knows about    *)
(* slices, buffers or calls: that is module Stream's business.                  *)
(*                                                                              *)
(* A configuration is a record; field `alg` selects the rule.  The parameters   *)
(* an implementation hard-codes (bup's 13 bits, zstd's 32 bytes, the FastCDC    *)
(* masks) are fields too, so that the same rules can be model checked over tiny *)
(* streams.                                                                     *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, Words, TLC

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

(* ------------------------------------------------------------------------ *)
(* Derived values computed once per configuration.                          *)
(* ------------------------------------------------------------------------ *)
(* the bytes a stream may contain (model checking uses few) *)
Dom(cfg) == 0..(IF "top" \in DOMAIN cfg THEN cfg.top ELSE 255)
Prep(cfg) ==
  CASE cfg.alg = "bup" ->
         [c |-> cfg,
          s1 |-> ((cfg.w % 65536) * cfg.off) % 65536,
          s2 |-> (Mul16lo(cfg.w % 65536, (cfg.w + 65535) % 65536) * cfg.off) % 65536,
          wo |-> [b \in Dom(cfg) |-> Mul16lo(cfg.w % 65536, (b + cfg.off) % 65536)],
          full |-> Pow2(cfg.bits)]
    [] cfg.alg = "buz" ->
         [c |-> cfg,
          add  |-> TLCEval([b \in Dom(cfg) |-> cfg.tab[(b ^^ cfg.salt) + 1]]),
          drop |-> TLCEval([b \in Dom(cfg) |->
                      Rotl32(cfg.tab[(b ^^ cfg.salt) + 1], cfg.w % 32)])]
    [] cfg.alg = "zstd" ->
         [c |-> cfg,
          drop |-> LET pw == PowN60(cfg.prime, cfg.rl)
                   IN  TLCEval([b \in Dom(cfg) |->
                          Neg60(Mul60(<<b + cfg.off, 0, 0, 0, 0>>, pw))])]
    [] cfg.alg = "pigz" ->
         [c |-> cfg, half |-> Pow2(cfg.bits - 1),
          mask |-> (Pow2(cfg.bits - 1) - 1) + Pow2(cfg.bits - 1),
          hit |-> Pow2(cfg.bits - 1) - 1]
    [] OTHER -> [c |-> cfg]

(* ------------------------------------------------------------------------ *)
(* State of a rule at the start of a chunk (zstd: of the stream).           *)
(* ------------------------------------------------------------------------ *)
Fresh(p) ==
  LET a == p.c.alg IN
  CASE a = "bup"  -> <<p.s1, p.s2>>
    [] a = "buz"  -> <<0, 0>>
    [] a = "gear" -> <<0, 0>>
    [] a = "fcdc" -> <<0, 0>>
    [] a = "gzip" -> 0
    [] a = "pigz" -> p.hit
    [] a = "mii"  -> <<0, 255>>              \* run length, previous byte
    [] a = "ram"  -> 0                       \* largest byte so far
    [] a = "zpaq" -> <<<<0, 0>>, 0, [b \in Dom(p.c) |-> 0]>>
    [] a = "zstd" -> Zero60

(* zpaq: range with bounds of kind 0 (unbounded), 1 (included), 2 (excluded) *)
UnderMin(c, n)   == \/ c.lk = 1 /\ n < c.lo
                    \/ c.lk = 2 /\ n <= c.lo
ExceedsMax(c, n) == \/ c.hk = 1 /\ n > c.hi
                    \/ c.hk = 2 /\ n >= c.hi

(* ------------------------------------------------------------------------ *)
(* One byte: data[i], in a chunk that starts at position `start`.           *)
(* Result <<state after the byte, TRUE iff the byte decides an edge>>.       *)
(* ------------------------------------------------------------------------ *)
StepBup(p, data, i, start, h) ==
  LET c == p.c
      d  == IF i - start > c.w THEN data[i - c.w] ELSE 0
      s1 == (h[1] + data[i] + 65536 - d) % 65536
      s2 == (h[2] + s1 + 65536 - p.wo[d]) % 65536
  IN  << <<s1, s2>>, s2 % p.full = p.full - 1 >>

StepBuz(p, data, i, start, h) ==
  LET c  == p.c
      r  == Rotl32by1(h)
      h1 == IF i - start > c.w THEN Xor32(r, p.drop[data[i - c.w]]) ELSE r
      h2 == Xor32(h1, p.add[data[i]])
  IN  << h2, AllSet32(h2, c.mask) \/ i - start > c.max >>

StepGear(p, data, i, start, h) ==
  LET h2 == Shl1Add32(h, p.c.tab[data[i] + 1])
  IN  << h2, TopBitsZero32(h2, p.c.log2) >>

StepGzip(p, data, i, start, h) ==
  LET c == p.c
      s == h + data[i] - (IF i - start > c.w THEN data[i - c.w] ELSE 0)
  IN  << s, s % c.mod = 0 >>

StepPigz(p, data, i, start, h) ==
  LET s == (((h % p.half) * 2) ^^ data[i]) & p.mask
  IN  << s, s = p.hit >>

StepMii(p, data, i, start, h) ==
  LET n == IF i - start > 1 /\ data[i] > h[2] THEN h[1] + 1 ELSE 0
  IN  << <<n, data[i]>>, n = p.c.w >>

StepRam(p, data, i, start, h) ==
  << MaxOf(h, data[i]), i - start - 1 > p.c.w /\ data[i] >= h >>

ZHit == <<314159265 \div 65536, 314159265 % 65536>>
ZMiss == <<271828182 \div 65536, 271828182 % 65536>>
BelowAvg(h, avg) ==                          \* h < 2^(32 - avg)
  IF avg <= 0 THEN TRUE ELSE TopBitsZero32(h, avg)
StepZpaq(p, data, i, start, h) ==
  LET c  == p.c
      b  == data[i]
      m  == IF h[3][h[2]] = b THEN ZHit ELSE ZMiss
      x  == Mul32(AddSmall32(h[1], b + 1), m)
      n  == i - start
  IN  << <<x, b, [h[3] EXCEPT ![h[2]] = b]>>,
         (BelowAvg(x, c.avg) /\ ~UnderMin(c, n)) \/ ExceedsMax(c, n + 1) >>

StepZstd(p, data, i, start, h) ==            \* i counts from the stream's start
  LET c == p.c
      x == AddSmall60(Mul60(h, c.prime), data[i] + c.off)
      y == IF i > c.rl THEN Add60(x, p.drop[data[i - c.rl]]) ELSE x
  IN  << y, i > c.rl /\ LowBitsOnes60(y, c.bits) >>

(* FastCDC. `g` bytes of the chunk precede byte i. *)
FShl(h, t) == LET l == h[2] * 2 + t[2]
              IN  <<(h[1] * 2 + t[1] + (l \div 33554432)) % 33554432, l % 33554432>>
NoBits(h, m) == (h[1] & m[1]) = 0 /\ (h[2] & m[2]) = 0
FMatch(p, data, i, start, h) ==
  LET c == p.c
      g == i - start - 1
  IN  /\ g >= c.min
      /\ g > 0
      /\ NoBits(h, IF g < c.norm THEN c.ms ELSE c.ml)
FHash(p, data, i, start, h) ==
  IF i - start - 1 >= p.c.min THEN FShl(h, p.c.tab[data[i] + 1]) ELSE h

Step(p, data, i, start, h) ==
  LET a == p.c.alg IN
  CASE a = "bup"  -> StepBup(p, data, i, start, h)
    [] a = "buz"  -> StepBuz(p, data, i, start, h)
    [] a = "gear" -> StepGear(p, data, i, start, h)
    [] a = "gzip" -> StepGzip(p, data, i, start, h)
    [] a = "pigz" -> StepPigz(p, data, i, start, h)
    [] a = "mii"  -> StepMii(p, data, i, start, h)
    [] a = "ram"  -> StepRam(p, data, i, start, h)
    [] a = "zpaq" -> StepZpaq(p, data, i, start, h)
    [] a = "zstd" -> StepZstd(p, data, i, start, h)

(* ------------------------------------------------------------------------ *)
(* All edges of a stream.  `api` is "push" or "fce": the two interfaces of   *)
(* FastCDC put a hash-decided edge on different sides of the matching byte.  *)
(* Accumulator: <<chunk start, rule state, edges>>.                          *)
(* ------------------------------------------------------------------------ *)
Advance(p, data, i, acc) ==
  LET r == Step(p, data, i, acc[1], acc[2])
  IN  IF r[2] THEN << i, IF p.c.alg = "zstd" THEN r[1] ELSE Fresh(p), Append(acc[3], i) >>
      ELSE << acc[1], r[1], acc[3] >>

AdvanceF(p, data, i, acc, api) ==
  LET h == FHash(p, data, i, acc[1], acc[2])
      m == FMatch(p, data, i, acc[1], h)
  IN  IF m /\ api = "push"
        THEN \* the matching byte is the first of the next chunk
             LET h1 == FHash(p, data, i, i - 1, Fresh(p))
             IN  IF p.c.max <= 1
                 THEN << i, Fresh(p), Append(Append(acc[3], i - 1), i) >>
                 ELSE << i - 1, h1, Append(acc[3], i - 1) >>
      ELSE IF m \/ i - acc[1] >= p.c.max
        THEN << i, Fresh(p), Append(acc[3], i) >>
      ELSE << acc[1], h, acc[3] >>

EdgesP(p, data, api) ==
  LET init == << 0, Fresh(p), << >> >>
  IN  (IF p.c.alg = "fcdc"
       THEN FoldLeftDomain(LAMBDA acc, i : AdvanceF(p, data, i, acc, api), init, data)
       ELSE FoldLeftDomain(LAMBDA acc, i : Advance(p, data, i, acc), init, data))[3]

Edges(cfg, data, api) == EdgesP(Prep(cfg), data, api)

(* ------------------------------------------------------------------------ *)
(* Constant streams: n times byte b.  The rule state of a chunk of a constant *)
(* stream reaches a fixed point; from there only the position in the chunk    *)
(* matters, so edges of streams far longer than could be folded are computed  *)
(* in closed form: the first chunk decides all the others.                    *)
(* `probe` is a bound on the number of bytes needed to reach the fixed point. *)
(* ------------------------------------------------------------------------ *)
FirstConstEdge(cfg, b, n, probe) ==
  LET m == MinOf(n, probe)
      es == Edges(cfg, [i \in 1..m |-> b], "push")
  IN  IF es # << >> THEN es[1]
      ELSE CASE cfg.alg = "buz" -> cfg.max + 1
             [] cfg.alg = "fcdc" -> cfg.max
             [] OTHER -> n + 1
ConstEdges(cfg, b, n, probe) ==
  LET f == FirstConstEdge(cfg, b, n, probe)
  IN  [k \in 1..(n \div f) |-> k * f]

(* ------------------------------------------------------------------------ *)
(* What each interface needs from the past.                                  *)
(* ------------------------------------------------------------------------ *)
(* bytes of the stream the buffered search may ask its caller to keep *)
Keep(cfg) == CASE cfg.alg \in {"bup", "buz", "gzip"} -> cfg.w
               [] cfg.alg = "zstd" -> cfg.rl
               [] OTHER -> 0
(* bytes before an edge that still matter after it *)
Carry(cfg) == IF cfg.alg = "zstd" THEN cfg.rl ELSE 0
(* an edge decision looks at no more than this many bytes *)
LookBack(cfg) == CASE cfg.alg \in {"bup", "buz", "gzip"} -> cfg.w
                   [] cfg.alg = "zstd" -> cfg.rl
                   [] cfg.alg = "gear" -> 32
                   [] cfg.alg = "pigz" -> cfg.bits
                   [] cfg.alg = "mii" -> cfg.w + 1
                   [] OTHER -> -1

(* ------------------------------------------------------------------------ *)
(* The same rules in closed form: decisions from the bytes of the chunk alone,*)
(* with no running state.  Model checking shows both formulations agree.      *)
(* q = chunk bytes so far (zstd: stream bytes so far), newest last.           *)
(* ------------------------------------------------------------------------ *)
Newest(q, k) == q[Len(q) + 1 - k]            \* k = 1: newest
Sum(n, f(_)) == FoldLeftDomain(LAMBDA acc, k : acc + f(k), 0, [k \in 1..n |-> k])
BupDigest(cfg, q) ==
  LET n  == MinOf(Len(q), cfg.w)
      s1 == cfg.w * cfg.off + Sum(n, LAMBDA k : Newest(q, k))
      s2 == cfg.w * (cfg.w - 1) * cfg.off
            + Sum(n, LAMBDA k : k * Newest(q, k))
  IN  <<s1 % 65536, s2 % 65536>>
ClosedSplit(cfg, q) ==
  LET n == Len(q)
      a == cfg.alg IN
  CASE a = "bup" -> BupDigest(cfg, q)[2] % Pow2(cfg.bits) = Pow2(cfg.bits) - 1
    [] a = "buz" ->
         LET m == MinOf(n, cfg.w)
             h == FoldLeftDomain(LAMBDA acc, k :
                     Xor32(acc, Rotl32(cfg.tab[(Newest(q, k) ^^ cfg.salt) + 1], (k - 1) % 32)),
                     <<0, 0>>, [k \in 1..m |-> k])
         IN  AllSet32(h, cfg.mask) \/ n > cfg.max
    [] a = "gear" ->
         LET h == FoldLeftDomain(LAMBDA acc, k :
                     Add32(acc, PowShl(cfg.tab[Newest(q, k) + 1], k - 1)),
                     <<0, 0>>, [k \in 1..MinOf(n, 32) |-> k])
         IN  TopBitsZero32(h, cfg.log2)
    [] a = "gzip" -> Sum(MinOf(n, cfg.w), LAMBDA k : Newest(q, k)) % cfg.mod = 0
    [] a = "pigz" ->                         \* bits <= 20 here
         LET B == Pow2(cfg.bits)
             h == FoldLeftDomain(LAMBDA acc, k :
                     (acc ^^ ((Newest(q, k) * Pow2(k - 1)) % B)),
                     (((B \div 2) - 1) * Pow2(MinOf(n, cfg.bits))) % B,
                     [k \in 1..MinOf(n, cfg.bits) |-> k])
         IN  h = (B \div 2) - 1
    [] a = "mii" -> /\ n > cfg.w
                    /\ \A k \in 1..cfg.w : Newest(q, k) > Newest(q, k + 1)
                    /\ \/ n = cfg.w + 1      \* exactly w: longer runs were cut earlier
                       \/ Newest(q, cfg.w + 1) <= Newest(q, cfg.w + 2)
    [] a = "ram" -> n - 1 > cfg.w /\ \A k \in 2..n : q[n] >= Newest(q, k)
    [] a = "zstd" ->
         /\ n > cfg.rl
         /\ LowBitsOnes60(FoldLeftDomain(LAMBDA acc, k :
                 Add60(acc, Mul60(<<Newest(q, k) + cfg.off, 0, 0, 0, 0>>,
                                  PowN60(cfg.prime, k - 1))),
                 Zero60, [k \in 1..cfg.rl |-> k]), cfg.bits)
    [] OTHER -> FALSE
==============================================================================

------------------------------- MODULE Machines -------------------------------
(* The algorithms as the code runs them: ring buffers, resume offsets, counters *)
(* and resets, for each of the two interfaces.  One operator per method:        *)
(*   IncInit / IncPush   ToChunkIncr::to_chunk_incr / ChunkIncr::push           *)
(*   FceInit / FceFind   Chunk::to_search_state / Chunk::find_chunk_edge        *)
(* `c` is a configuration record as in module Rules.  Indices into slices and   *)
(* buffers count from 0 as in the code; data[i] of the code is d[i+1] here.     *)
EXTENDS Rules, Protocol

(* The loop all of them have: from index `from` of slice d on, step(state, index)    *)
(* gives <<state, whether to split>>; <<state, index of the byte split at or NONE>>   *)
Scan(d, from, st0, step(_, _)) ==
  FoldLeft(LAMBDA acc, i : IF acc[2] # NONE THEN acc
                           ELSE LET r == step(acc[1], i)
                                IN  << r[1], IF r[2] THEN i ELSE NONE >>,
           << st0, NONE >>, [k \in 1..(Len(d) - from) |-> from + k - 1])
(* a buffered search with a window of w bytes: after an edge all before it can go, and  *)
(* without one all but the window                                                      *)
Found(r, d, w) ==
  IF r[2] # NONE THEN << r[1], r[2] + 1, r[2] + 1 >>
  ELSE LET disc == MaxOf(Len(d) - w, 0)
       IN  << [r[1] EXCEPT !.offset = Len(d) - disc], NONE, disc >>
After(r) == IF r[2] = NONE THEN r ELSE << r[1], r[2] + 1 >>     \* edge after that byte

(* ---------------------------------------------------------------- bup --- *)
BupAdd(c, s, drop, add) ==
  LET s1 == (s[1] + add + 65536 - drop) % 65536
  IN  << s1, (s[2] + s1 + 65536 - Mul16lo(c.w % 65536, drop + c.off)) % 65536 >>
BupStart(c) == << (c.w * c.off) % 65536, (c.w * (c.w - 1) * c.off) % 65536 >>
BupSplit(c, s) == s[2] % Pow2(c.bits) = Pow2(c.bits) - 1
BupIncInit(c) == [s |-> BupStart(c), wofs |-> 0, win |-> [i \in 1..c.w |-> 0]]
BupRoll(c, st, b) ==
  [s |-> BupAdd(c, st.s, st.win[st.wofs + 1], b),
   win |-> [st.win EXCEPT ![st.wofs + 1] = b],
   wofs |-> (st.wofs + 1) % c.w]
BupPush(c, st, d) ==
  After(Scan(d, 0, st, LAMBDA s, i :
    LET r == BupRoll(c, s, d[i + 1])
    IN  IF BupSplit(c, r.s) THEN << BupIncInit(c), TRUE >> ELSE << r, FALSE >>))
BupFceInit(c) == [s |-> BupStart(c), offset |-> 0]
BupFind(c, st, d) ==
  LET r == Scan(d, st.offset, st, LAMBDA s, i :
             LET x == BupAdd(c, s.s, IF i >= c.w THEN d[i - c.w + 1] ELSE 0, d[i + 1])
             IN  IF BupSplit(c, x) THEN << BupFceInit(c), TRUE >> ELSE << [s EXCEPT !.s = x], FALSE >>)
  IN  Found(r, d, c.w)

(* ------------------------------------------------------------- buzhash --- *)
BuzH(c, b) == c.tab[(b ^^ c.salt) + 1]
BuzIn(c, h, b) == Xor32(Rotl32by1(h), BuzH(c, b))
BuzInOut(c, h, b, o) == Xor32(Xor32(Rotl32by1(h), Rotl32(BuzH(c, o), c.w % 32)), BuzH(c, b))
BuzIncInit(c) == [h |-> <<0, 0>>, buf |-> [i \in 1..c.w |-> 0], bi |-> 0, ix |-> 0]
(* reset keeps the old contents of buf: they are never read before rewritten *)
BuzReset(c, st) == [st EXCEPT !.h = <<0, 0>>, !.bi = 0, !.ix = 0]
BuzByte(c, st, b) ==
  [h |-> IF st.ix >= c.w THEN BuzInOut(c, st.h, b, st.buf[st.bi + 1]) ELSE BuzIn(c, st.h, b),
   buf |-> [st.buf EXCEPT ![st.bi + 1] = b],
   bi |-> (st.bi + 1) % c.w,
   ix |-> st.ix + 1]
BuzPush(c, st, d) ==
  After(Scan(d, 0, st, LAMBDA s, i :
    LET r == BuzByte(c, s, d[i + 1])
    IN  IF AllSet32(r.h, c.mask) \/ r.ix > c.max THEN << BuzReset(c, r), TRUE >> ELSE << r, FALSE >>))
BuzFceInit(c) == [h |-> <<0, 0>>, offset |-> 0, ix |-> 0]
BuzFind(c, st, d) ==
  LET r == Scan(d, st.offset, st, LAMBDA s, i :
             LET h == IF i >= c.w THEN BuzInOut(c, s.h, d[i + 1], d[i - c.w + 1])
                      ELSE BuzIn(c, s.h, d[i + 1])
                 n == s.ix + 1
             IN  IF AllSet32(h, c.mask) \/ n > c.max THEN << BuzFceInit(c), TRUE >>
                 ELSE << [s EXCEPT !.h = h, !.ix = n], FALSE >>)
  IN  Found(r, d, c.w)

(* ---------------------------------------------------------------- gear --- *)
GearPush(c, h, d) ==
  After(Scan(d, 0, h, LAMBDA x, i :
    LET y == Shl1Add32(x, c.tab[d[i + 1] + 1])
    IN  IF TopBitsZero32(y, c.log2) THEN << <<0, 0>>, TRUE >> ELSE << y, FALSE >>))

(* ------------------------------------------------------------- fastcdc --- *)
FcdcInit(c) == [l |-> 0, fp |-> <<0, 0>>]
(* from byte `from` of the slice, which is byte gi of the chunk *)
FcdcLoop(c, d, fp, gi, from) ==
  LET r == Scan(d, from, << fp, gi >>, LAMBDA s, i :
             IF s[2] >= c.max /\ s[2] >= c.norm THEN << s, TRUE >>
             ELSE LET x == FShl(s[1], c.tab[d[i + 1] + 1])
                  IN  << << x, s[2] + 1 >>,
                         s[2] > 0 /\ NoBits(x, IF s[2] < c.norm THEN c.ms ELSE c.ml) >>)
  IN  IF r[2] # NONE THEN << FcdcInit(c), r[2] >>
      ELSE IF r[1][2] >= c.max /\ r[1][2] >= c.norm THEN << FcdcInit(c), Len(d) >>
      ELSE << [l |-> r[1][2], fp |-> r[1][1]], NONE >>
FcdcPush(c, st, d) ==
  IF st.l + Len(d) <= c.min THEN << [st EXCEPT !.l = st.l + Len(d)], NONE >>
  ELSE IF st.l <= c.min THEN FcdcLoop(c, d, st.fp, c.min, c.min - st.l)
  ELSE FcdcLoop(c, d, st.fp, st.l, 0)
FcdcFind(c, st, d) ==
  LET r == FcdcPush(c, st, d)
  IN  IF r[2] = NONE THEN << r[1], NONE, Len(d) >>
      ELSE IF st.l + r[2] >= c.max THEN << r[1], r[2], r[2] >>
      ELSE << r[1], r[2] + 1, r[2] + 1 >>

(* ---------------------------------------------------------------- gzip --- *)
GzipIncInit(c) == [acc |-> 0, win |-> << >>]
GzipPush(c, st, d) ==
  After(Scan(d, 0, st, LAMBDA s, i :
    LET full == Len(s.win) >= c.w
        a == s.acc - (IF full THEN Head(s.win) ELSE 0) + d[i + 1]
        w == Append(IF full THEN Tail(s.win) ELSE s.win, d[i + 1])
    IN  IF a % c.mod = 0 THEN << GzipIncInit(c), TRUE >> ELSE << [acc |-> a, win |-> w], FALSE >>))
GzipFceInit(c) == [acc |-> 0, offset |-> 0]
GzipFind(c, st, d) ==
  LET r == Scan(d, st.offset, st, LAMBDA s, i :
             LET a == s.acc - (IF i >= c.w THEN d[i - c.w + 1] ELSE 0) + d[i + 1]
             IN  IF a % c.mod = 0 THEN << GzipFceInit(c), TRUE >> ELSE << [s EXCEPT !.acc = a], FALSE >>)
  IN  Found(r, d, c.w)

(* ---------------------------------------------------------------- pigz --- *)
PigzMask(c) == Pow2(c.bits) - 1
PigzHit(c) == PigzMask(c) \div 2
PigzPush(c, h, d) ==
  After(Scan(d, 0, h, LAMBDA x, i :
    LET y == ((x * 2) ^^ d[i + 1]) & PigzMask(c)
    IN  IF y = PigzHit(c) THEN << PigzHit(c), TRUE >> ELSE << y, FALSE >>))

(* ----------------------------------------------------------------- mii --- *)
MiiInit(c) == [prev |-> 255, inc |-> 0]
MiiPush(c, st, d) ==
  After(Scan(d, 0, st, LAMBDA s, i :
    IF d[i + 1] <= s.prev THEN << [prev |-> d[i + 1], inc |-> 0], FALSE >>
    ELSE IF s.inc + 1 = c.w THEN << MiiInit(c), TRUE >>
    ELSE << [prev |-> d[i + 1], inc |-> s.inc + 1], FALSE >>))

(* ----------------------------------------------------------------- ram --- *)
RamInit(c) == [i |-> 0, max |-> 0]
RamPush(c, st, d) ==
  LET r == Scan(d, 0, st.max, LAMBDA mx, i :
             IF d[i + 1] < mx THEN << mx, FALSE >>
             ELSE << d[i + 1], i + st.i > c.w >>)
  IN  IF r[2] # NONE THEN << RamInit(c), r[2] + 1 >>
      ELSE << [i |-> st.i + Len(d), max |-> r[1]], NONE >>

(* ---------------------------------------------------------------- zpaq --- *)
ZpaqInit(c) == [h |-> <<0, 0>>, last |-> 0, pred |-> [b \in 0..c.top |-> 0], idx |-> 0]
ZpaqFeed(c, st, b) ==
  [h |-> Mul32(AddSmall32(st.h, b + 1), IF b = st.pred[st.last] THEN ZHit ELSE ZMiss),
   last |-> b, pred |-> [st.pred EXCEPT ![st.last] = b], idx |-> st.idx + 1]
ZpaqPush(c, st, d) ==
  After(Scan(d, 0, st, LAMBDA s, i :
    LET r == ZpaqFeed(c, s, d[i + 1])
    IN  IF (BelowAvg(r.h, c.avg) /\ ~UnderMin(c, r.idx)) \/ ExceedsMax(c, r.idx + 1)
        THEN << ZpaqInit(c), TRUE >> ELSE << r, FALSE >>))

(* ---------------------------------------------------------------- zstd --- *)
ZstdApp(c, h, b) == AddSmall60(Mul60(h, c.prime), b + c.off)
ZstdRot(c, h, o, b) ==
  LET pw == IF "pw" \in DOMAIN c THEN c.pw ELSE PowN60(c.prime, c.rl - 1)
  IN  ZstdApp(c, Add60(h, Neg60(Mul60(<<o + c.off, 0, 0, 0, 0>>, pw))), b)
ZstdIncInit(c) == [h |-> Zero60, win |-> [i \in 1..c.rl |-> 0], offs |-> 0, full |-> FALSE]
ZstdRotPush(c, st, d, from) ==
  After(Scan(d, from, st, LAMBDA s, i :
    LET h == ZstdRot(c, s.h, s.win[s.offs + 1], d[i + 1])
    IN  << [s EXCEPT !.h = h, !.win = [@ EXCEPT ![s.offs + 1] = d[i + 1]],
                     !.offs = (s.offs + 1) % c.rl],
           LowBitsOnes60(h, c.bits) >>))
ZstdPush(c, st, d) ==
  IF st.full THEN ZstdRotPush(c, st, d, 0)
  ELSE LET u == MinOf(c.rl - st.offs, Len(d))
           w == [i \in 1..c.rl |-> IF i > st.offs /\ i <= st.offs + u THEN d[i - st.offs]
                                   ELSE st.win[i]]
       IN  IF st.offs + u # c.rl
           THEN << [st EXCEPT !.win = w, !.offs = st.offs + u], NONE >>
           ELSE ZstdRotPush(c,
                  [h |-> FoldLeft(LAMBDA acc, b : ZstdApp(c, acc, b), st.h, w),
                   win |-> w, offs |-> 0, full |-> TRUE], d, u)
ZstdFceInit(c) == [h |-> Zero60, offset |-> 0]
ZstdRotFind(c, st, d, from) ==
  LET r == Scan(d, from, st, LAMBDA s, i :
             LET h == ZstdRot(c, s.h, d[i - c.rl + 1], d[i + 1])
             IN  << [s EXCEPT !.h = h], LowBitsOnes60(h, c.bits) >>)
  IN  IF r[2] # NONE THEN << [r[1] EXCEPT !.offset = c.rl], r[2] + 1, r[2] + 1 - c.rl >>
      ELSE Found(r, d, c.rl)
ZstdFind(c, st, d) ==
  IF st.offset < c.rl
  THEN LET seed == SubSeq(d, st.offset + 1, MinOf(c.rl, Len(d)))
           s2   == [h |-> FoldLeft(LAMBDA acc, b : ZstdApp(c, acc, b), st.h, seed),
                    offset |-> st.offset + Len(seed)]
       IN  IF s2.offset < c.rl THEN << s2, NONE, 0 >> ELSE ZstdRotFind(c, s2, d, s2.offset)
  ELSE ZstdRotFind(c, st, d, st.offset)

(* ------------------------------------------------------------ dispatch --- *)
IncInit(c) ==
  LET a == c.alg IN
  CASE a = "bup" -> BupIncInit(c)   [] a = "buz" -> BuzIncInit(c)
    [] a = "gear" -> <<0, 0>>       [] a = "fcdc" -> FcdcInit(c)
    [] a = "gzip" -> GzipIncInit(c) [] a = "pigz" -> PigzHit(c)
    [] a = "mii" -> MiiInit(c)      [] a = "ram" -> RamInit(c)
    [] a = "zpaq" -> ZpaqInit(c)    [] a = "zstd" -> ZstdIncInit(c)
IncPush(c, st, d) ==
  LET a == c.alg IN
  CASE a = "bup" -> BupPush(c, st, d)   [] a = "buz" -> BuzPush(c, st, d)
    [] a = "gear" -> GearPush(c, st, d) [] a = "fcdc" -> FcdcPush(c, st, d)
    [] a = "gzip" -> GzipPush(c, st, d) [] a = "pigz" -> PigzPush(c, st, d)
    [] a = "mii" -> MiiPush(c, st, d)   [] a = "ram" -> RamPush(c, st, d)
    [] a = "zpaq" -> ZpaqPush(c, st, d) [] a = "zstd" -> ZstdPush(c, st, d)
FceInit(c) ==
  LET a == c.alg IN
  CASE a = "bup" -> BupFceInit(c)   [] a = "buz" -> BuzFceInit(c)
    [] a = "gzip" -> GzipFceInit(c) [] a = "zstd" -> ZstdFceInit(c)
    [] OTHER -> IncInit(c)
FceFind(c, st, d) ==
  LET a == c.alg IN
  CASE a = "bup" -> BupFind(c, st, d)   [] a = "buz" -> BuzFind(c, st, d)
    [] a = "gzip" -> GzipFind(c, st, d)
    [] a = "zstd" -> ZstdFind(c, st, d)
    [] a = "fcdc" -> FcdcFind(c, st, d)
    [] OTHER -> LET r == IncPush(c, st, d)     \* no look-back: drop all that was examined
                IN  IF r[2] = NONE THEN << r[1], NONE, Len(d) >> ELSE << r[1], r[2], r[2] >>

(* ----------------------------------------------------------- iterators --- *)
(* IterSlices / IterSlicesStrict::next: <<chunker, remainder offset, yield>>,   *)
(* yield = <<offset, length>> or <<>> for None                                  *)
NextSlice(c, st, d, off, strict) ==
  IF ~strict /\ off = Len(d) THEN << st, off, << >> >>
  ELSE LET r == IncPush(c, st, SubSeq(d, off + 1, Len(d)))
       IN  IF r[2] # NONE THEN << r[1], off + r[2], << off, r[2] >> >>
           ELSE IF strict THEN << r[1], off, << >> >>
           ELSE << r[1], Len(d), << off, Len(d) - off >> >>
(* up to `stop` items: <<chunker, remainder offset, yields, ended>>; an iterator *)
(* of n bytes has ended after at most n + 1 items                                *)
RECURSIVE RunIter(_, _, _, _, _, _, _)
RunIter(c, st, d, off, strict, stop, ys) ==
  IF stop = 0 \/ Len(ys) > Len(d) + 1 THEN << st, off, ys, FALSE >>
  ELSE LET r == NextSlice(c, st, d, off, strict)
       IN  IF r[3] = << >> THEN << r[1], r[2], ys, TRUE >>
           ELSE RunIter(c, r[1], d, r[2], strict, stop - 1, Append(ys, r[3]))
==============================================================================

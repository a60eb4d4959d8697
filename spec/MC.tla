---------------------------------- MODULE MC ----------------------------------
(* Instances of HashRoll for exhaustive checking: for every algorithm a few       *)
(* configurations whose edges are dense enough that streams of a handful of bytes *)
(* contain several chunks of every kind (hash decided, forced, minimum skipped,   *)
(* ring buffers wrapped several times, windows longer than the stream).           *)
EXTENDS HashRoll
CONSTANT Algs
T4 == << <<4660, 22136>>, <<40960, 1>>, <<32768, 32769>>, <<21845, 43690>> >>
T25 == << <<3, 5>>, <<16777216, 1>>, <<0, 2>>, <<33554431, 33554430>> >>
P60 == <<1123, 2646, 3255, 3021, 3867>>         \* 0xCF1BBCDCB7A56463 mod 2^60
AllCfgs == {
  [alg |-> "bup", w |-> 1, bits |-> 1, off |-> 31],
  [alg |-> "bup", w |-> 3, bits |-> 2, off |-> 31],
  [alg |-> "bup", w |-> 4, bits |-> 1, off |-> 31],
  [alg |-> "bup", w |-> 12, bits |-> 2, off |-> 31],
  [alg |-> "buz", w |-> 1, mask |-> <<0, 1>>, tab |-> T4, salt |-> 0, max |-> 3],
  [alg |-> "buz", w |-> 2, mask |-> <<0, 3>>, tab |-> T4, salt |-> 1, max |-> 100],
  [alg |-> "buz", w |-> 3, mask |-> <<32768, 1>>, tab |-> T4, salt |-> 0, max |-> 4],
  [alg |-> "buz", w |-> 3, mask |-> <<65535, 65535>>, tab |-> T4, salt |-> 2, max |-> 2],
  [alg |-> "buz", w |-> 4, mask |-> <<1, 0>>, tab |-> T4, salt |-> 0, max |-> 0],
  [alg |-> "gear", log2 |-> 1, tab |-> T4],
  [alg |-> "gear", log2 |-> 2, tab |-> T4],
  [alg |-> "fcdc", min |-> 0, norm |-> 1, max |-> 3, tab |-> T25, ms |-> <<1, 1>>, ml |-> <<0, 1>>],
  [alg |-> "fcdc", min |-> 1, norm |-> 2, max |-> 4, tab |-> T25, ms |-> <<0, 6>>, ml |-> <<0, 2>>],
  [alg |-> "fcdc", min |-> 2, norm |-> 2, max |-> 3, tab |-> T25, ms |-> <<1, 1>>, ml |-> <<0, 3>>],
  [alg |-> "fcdc", min |-> 1, norm |-> 4, max |-> 4, tab |-> T25, ms |-> <<0, 4>>, ml |-> <<0, 2>>],
  [alg |-> "fcdc", min |-> 0, norm |-> 0, max |-> 1, tab |-> T25, ms |-> <<0, 1>>, ml |-> <<0, 1>>],
  [alg |-> "gzip", w |-> 1, mod |-> 2],
  [alg |-> "gzip", w |-> 2, mod |-> 3],
  [alg |-> "gzip", w |-> 3, mod |-> 4],
  [alg |-> "gzip", w |-> 9, mod |-> 5],
  [alg |-> "pigz", bits |-> 1],
  [alg |-> "pigz", bits |-> 2],
  [alg |-> "pigz", bits |-> 3],
  [alg |-> "mii", w |-> 1], [alg |-> "mii", w |-> 2], [alg |-> "mii", w |-> 3],
  [alg |-> "ram", w |-> 0], [alg |-> "ram", w |-> 1], [alg |-> "ram", w |-> 2],
  [alg |-> "zpaq", avg |-> 1, lk |-> 1, lo |-> 2, hk |-> 1, hi |-> 4],
  [alg |-> "zpaq", avg |-> 2, lk |-> 2, lo |-> 1, hk |-> 2, hi |-> 5],
  [alg |-> "zpaq", avg |-> 1, lk |-> 0, lo |-> 0, hk |-> 0, hi |-> 0],
  [alg |-> "zpaq", avg |-> 32, lk |-> 0, lo |-> 0, hk |-> 1, hi |-> 1],
  [alg |-> "zstd", rl |-> 1, bits |-> 1, off |-> 10, prime |-> P60],
  [alg |-> "zstd", rl |-> 2, bits |-> 1, off |-> 10, prime |-> P60],
  [alg |-> "zstd", rl |-> 3, bits |-> 2, off |-> 10, prime |-> P60]
}
SelCfgs == {c @@ [top |-> 3] : c \in {c \in AllCfgs : c.alg \in Algs}}
KindsP == <<"p">>
KindsF == <<"f">>
KindsPF == <<"p", "f">>
KindsPP == <<"p", "p">>
KindsFF == <<"f", "f">>
==============================================================================

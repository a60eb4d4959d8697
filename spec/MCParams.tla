-------------------------------- MODULE MCParams ------------------------------
(* The documented relations between constructors, over every constructor call of     *)
(* a finite family: what each resolves to in module Params.                           *)
EXTENDS Params
VARIABLE j
J(alg, ctor, a) == [alg |-> alg, ctor |-> ctor, a |-> a]
Vals == (0..300) \cup {4095, 4096, 4097, 65535, 65536, 520191, 520192, 520193, 10000000, 1073741823}
Calls ==
  {J("zpaq", "zpaq_frag", << f >>) : f \in 10..32}
  \cup {J("zpaq", "zpaq_max", << m >>) : m \in Vals \ {0}}
  \cup {J("zpaq", "zpaq_range", << lk, lo, hk, hi >>) : lk \in 0..2, lo \in {0, 1, 7, 64, 4096, 1000000}, hk \in 0..2, hi \in Vals \ {0}}
  \cup {J("zstd", "zstd_mib", << m >>) : m \in 1..1100}
  \cup {J("zpaq", "zpaq_default", << >>), J("zstd", "zstd_default", << >>),
        J("bup", "bup_default", << >>), J("gear", "gear_default", << >>),
        J("fcdc", "fcdc_default", << >>), J("gzip", "gzip_default", << >>),
        J("pigz", "pigz_default", << >>), J("mii", "mii_default", << >>),
        J("buz", "buz_nom", << 7 >>)}
Init == j \in Calls
Next == UNCHANGED j
Spec == Init /\ [][Next]_j
R == Resolve(j)
Documented ==
  CASE j.ctor = "zpaq_default" -> R = Zpaq(16, 1, 4096, 1, 520192)
    [] j.ctor = "zpaq_frag" ->
         /\ R.avg = j.a[1]
         /\ R.hk = 1 => R.hi = 127 * R.lo /\ R = Zpaq(j.a[1], 1, 64 * Pow2(j.a[1] - 10), 1, R.hi)
         /\ R.hk = 1 => AvgOfRange(1, R.lo, 1, R.hi) = j.a[1]     \* the range implies the average
         /\ R.hk0 = 1 /\ FarHigh(R) = << 127 * FarLow(R)[1] + (127 * FarLow(R)[2]) \div MiB, (127 * FarLow(R)[2]) % MiB >>
    [] j.ctor = "zpaq_max" ->
         LET m == j.a[1] IN
         /\ R.hi = m /\ R.lo = m \div 64 /\ R.hk = 1 /\ R.lk = 1
         /\ m >= 8 => 4 * Pow2(R.avg) <= m /\ (R.avg < 28 => m < 8 * Pow2(R.avg))
         /\ m < 8 => R.avg = 1
    [] j.ctor = "zpaq_range" ->
         /\ R.lk = j.a[1] /\ R.lo = j.a[2] /\ R.hk = j.a[3] /\ R.hi = j.a[4]
         /\ R.avg \in 1..32
    [] j.ctor = "zstd_mib" -> Pow2(R.bits - 20) <= j.a[1] /\ j.a[1] < Pow2(R.bits - 19)
    [] j.ctor = "zstd_default" -> R = Resolve(J("zstd", "zstd_mib", << 8 >>))
    [] j.ctor = "bup_default" -> R = Resolve(J("bup", "bup_window", << 64 >>))
    [] j.ctor = "gear_default" -> R = Resolve(J("gear", "gear_log2", << 13 >>))
    [] j.ctor = "fcdc_default" -> R = Fcdc(GEAR64, 2048, 8192, 65536)
    [] j.ctor = "gzip_default" -> R = Resolve(J("gzip", "gzip_new", << 8192, 4096 >>))
    [] j.ctor = "pigz_default" -> R = Resolve(J("pigz", "pigz_bits", << 12 >>))
    [] j.ctor = "mii_default" -> R = Resolve(J("mii", "mii_w", << 5 >>))
    [] j.ctor = "buz_nom" -> R = Buz(67, << 0, 4095 >>, 16777216, GOBUZ, 7)
Limits == Smallest(R) >= 1 /\ Largest(R) >= 1
Tables == Len(GOBUZ) = 256 /\ Len(BORG) = 256 /\ Len(GEAR32) = 256 /\ Len(GEAR64) = 256
================================================================================

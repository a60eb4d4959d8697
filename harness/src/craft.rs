//! Streams made to hit a hash exactly, or to miss it by one bit: what random streams
//! cannot reach for masks of many bits.
use crate::alg::{Cfg, CAP};
use crate::gen::*;
use crate::rng::Rng;

/// the last five bytes of a stream: h' = f(bytes) for a hash that shifts or rotates by
/// one bit per byte, over a table
struct Meet {
    pairs: Vec<(u32, u16)>,
    rot: bool,
    tab: Vec<u32>,
}
impl Meet {
    fn new(tab: Vec<u32>, rot: bool) -> Meet {
        let mut m = Meet { pairs: vec![], rot, tab };
        let mut p: Vec<(u32, u16)> = (0..=65535u16).map(|x| (m.mix(m.mix(0, (x >> 8) as u8), x as u8), x)).collect();
        p.sort();
        m.pairs = p;
        m
    }
    fn sh(&self, h: u32, k: u32) -> u32 {
        if self.rot { h.rotate_left(k) } else { h << k }
    }
    fn mix(&self, h: u32, b: u8) -> u32 {
        if self.rot { h.rotate_left(1) ^ self.tab[b as usize] } else { (h << 1).wrapping_add(self.tab[b as usize]) }
    }
    /// five bytes that take the hash from h to the target
    fn to(&self, h: u32, target: u32, r: &mut Rng) -> Option<Vec<u8>> {
        for _ in 0..1 << 21 {
            let x = r.next();
            let a = [x as u8, (x >> 8) as u8, (x >> 16) as u8];
            let z = self.sh(a.iter().fold(h, |h, b| self.mix(h, *b)), 2);
            let need = if self.rot { target ^ z } else { target.wrapping_sub(z) };
            if let Ok(i) = self.pairs.binary_search_by_key(&need, |p| p.0) {
                let p = self.pairs[i].1;
                return Some(vec![a[0], a[1], a[2], (p >> 8) as u8, p as u8]);
            }
        }
        None
    }
    fn run(&self, h: u32, p: &[u8]) -> u32 {
        p.iter().fold(h, |h, b| self.mix(h, *b))
    }
}

/// All crafted streams of an algorithm. `full`: every bit of every mask.
pub fn crafted(alg: &str, full: bool, r: &mut Rng) -> Vec<(Cfg, Vec<u8>)> {
    crafted_after(alg, full, false, r)
}
/// `filled`: what matches (or just does not) comes after a full window at least.
pub fn crafted_after(alg: &str, full: bool, filled: bool, r: &mut Rng) -> Vec<(Cfg, Vec<u8>)> {
    let mut v: Vec<(Cfg, Vec<u8>)> = vec![];
    match alg {
        "gear" => {
            let m = Meet::new(hash_roll::gear_table::GEAR_32.to_vec(), false);
            for l in 1..=31u32 {
                let c = if l == 13 { Cfg::new("gear", "gear_default", &[]) } else { Cfg::new("gear", "gear_log2", &[l as i64]) };
                let low = 32 - l;
                let mut targets = vec![0u32, ((1u64 << low) - 1) as u32, 1u32 << low, 1 << 31, !0, ((1u64 << low) - 1) as u32 | 1 << r.range(low as usize, 31)];
                for b in low..32 {
                    if full || b == low || r.chance(1, 2) {
                        targets.push(1 << b | (r.next() as u32 & ((1u64 << low) - 1) as u32));
                    }
                }
                for t in targets {
                    let n = if filled { 33 + r.below(20) } else { [0, 0, r.below(40), 33][r.below(4)] };
                    let p = random(n, r);
                    if let Some(x) = m.to(m.run(0, &p), t, r) {
                        v.push((c.clone(), [&p[..], &x[..], &random(6, r)[..]].concat()));
                    }
                }
            }
        }
        "pigz" => {
            for bits in 1..=31u32 {
                let c = if bits == 12 { Cfg::new("pigz", "pigz_default", &[]) } else { Cfg::new("pigz", "pigz_bits", &[bits as i64]) };
                let mask = (1u64 << bits) - 1;
                let hit = mask >> 1;
                let mut targets = vec![hit, hit, mask, 0];
                for b in 0..bits {
                    if full || r.chance(1, 2) {
                        targets.push(hit ^ 1 << b);
                    }
                }
                for t in targets {
                    let n = bits as usize + if filled { 2 + r.below(40) } else { [0, 1, r.below(40)][r.below(3)] };
                    let mut p = random(n, r);
                    let run = |p: &[u8]| p.iter().fold(hit, |h, b| ((h << 1) ^ *b as u64) & mask);
                    // bit 0 of the byte j places from the end decides bit j alone
                    let d = run(&p) ^ t;
                    for j in 0..bits as usize {
                        if d >> j & 1 == 1 {
                            p[n - 1 - j] ^= 1;
                        }
                    }
                    p.extend(random(bits as usize / 2, r));
                    v.push((c.clone(), p));
                }
            }
        }
        "buz" => {
            let tab = rand32(r);
            let m = Meet::new(tab.iter().map(|x| *x as u32).collect(), true);
            let mut masks: Vec<u32> = vec![!0, 0xffff_0000, 0xffff, 0x8000_0001, 0x00ff_ff00, 1 << 31, 0xfff, 0xf_ffff];
            for _ in 0..6 {
                masks.push(r.next() as u32);
            }
            for (i, mask) in masks.into_iter().enumerate() {
                let w = [5usize, 16, 31, 32, 33, 64, 67][i % 7];
                let c = Cfg::new("buz", "buz_new", &[w as i64, (mask >> 16) as i64, (mask & 0xffff) as i64, 1 << 30, 0]).table("given", tab.clone(), 0).hash_kind([0, 3, 1][i % 3]);
                let mut targets = vec![mask, !0, mask | r.next() as u32, 0];
                for b in 0..32 {
                    if mask >> b & 1 == 1 && (full || r.chance(1, 2)) {
                        targets.push(!0 ^ 1 << b);
                    }
                }
                for t in targets {
                    // with and without a full window before
                    let n = if filled { w + 1 + r.below(w + 20) } else { [0, w.saturating_sub(5), w, 2 * w + 3][r.below(4)] };
                    let p = random(n, r);
                    // the bytes that leave the window during the last five
                    let mut h = 0u32;
                    for (k, b) in p.iter().enumerate() {
                        h = m.mix(h, *b);
                        if k >= w {
                            h ^= m.tab[p[k - w] as usize].rotate_left(w as u32 % 32);
                        }
                    }
                    for k in n..n + 5 {
                        if k >= w {
                            // as if it had left already
                            h ^= m.tab[p[k - w] as usize].rotate_left((w as u32 + 31 - (k - n) as u32) % 32);
                        }
                    }
                    if let Some(x) = m.to(h, t, r) {
                        v.push((c.clone(), [&p[..], &x[..], &random(6, r)[..]].concat()));
                    }
                }
            }
        }
        "zstd" => {
            for (b, w) in WINDOWS {
                let w: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap()).collect();
                // the window misses bit b only (-1: none) of the low 52
                let lens: Vec<i64> = if *b < 0 { (20..=51).collect() } else if full { (20..=51).collect() } else { vec![*b as i64, *b as i64 + 1, 51, r.range(20, 51) as i64] };
                for l in lens {
                    if !(20..=51).contains(&l) {
                        continue;
                    }
                    let c = Cfg::new("zstd", "zstd_log2", &[l]);
                    for n in [1usize, 0, 20 + r.below(40)] {
                        let p = random(n, r);
                        v.push((c.clone(), [&p[..], &w[..], &random(3, r)[..]].concat()));
                        if !full {
                            break;
                        }
                    }
                }
            }
            let hit = WINDOWS.iter().find(|x| x.0 < 0).unwrap().1;
            let w: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&hit[2 * i..2 * i + 2], 16).unwrap()).collect();
            for l in [20i64, 23, 31, 32, 33, 40, 47, 51] {
                let c = if l == 23 { Cfg::new("zstd", "zstd_default", &[]) } else { Cfg::new("zstd", "zstd_log2", &[l]) };
                // twice in a row, and at the very start
                v.push((c.clone(), [&[7u8][..], &w[..], &w[..], &random(40, r)[..], &w[..], &[0]].concat()));
                v.push((c, [&w[..], &w[..], &[1, 2], &w[..]].concat()));
            }
        }
        "zpaq" => {
            for a in 16..=32u32 {
                // just below the limit (a match), just above it (none)
                for near in [false, true] {
                    let t = 1u64 << (32 - a);
                    let (lo, hi) = if near { (t, 2 * t) } else { (t / 2, t) };
                    let n = 4 + r.below(20);
                    let p = random(n, r);
                    if let Some(x) = zpaq_hash_in(&p, lo, hi, r) {
                        let d = [&p[..], &x[..], &random(6, r)[..]].concat();
                        let m = 1i64 << (a + 2).min(30);
                        v.push((Cfg::new("zpaq", "zpaq_full", &[a as i64, 1, 1 + r.below(n) as i64, 0, 0]), d.clone()));
                        if a < 28 {
                            // the average that follows from the largest size
                            v.push((Cfg::new("zpaq", "zpaq_range", &[0, 0, 1, m]), d.clone()));
                            v.push((Cfg::new("zpaq", "zpaq_range", &[1, 1, 2, m + 1]), d.clone()));
                        }
                        // beyond 2^30 by their codes: 2^30, 2^31, 2^32, 2^33, 2^40 + 3
                        if let Some(k) = [(28, 12), (29, 1), (30, 3), (31, 6), (32, 7)].iter().find(|x| x.0 == a) {
                            v.push((Cfg::new("zpaq", "zpaq_range", &[0, 0, 1, CAP + k.1]), d.clone()));
                        }
                        if a == 16 {
                            v.push((Cfg::new("zpaq", "zpaq_range", &[0, 0, 0, 0]), d));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    v
}

/// bytes after `p` in one chunk whose zpaq hash lies in lo..hi
fn zpaq_hash_in(p: &[u8], lo: u64, hi: u64, r: &mut Rng) -> Option<Vec<u8>> {
    fn feed(s: &mut (u32, u8), pred: &mut [u8; 256], c: u8) {
        let m = if pred[s.1 as usize] == c { 314159265u32 } else { 271828182 };
        s.0 = s.0.wrapping_add(c as u32 + 1).wrapping_mul(m);
        pred[s.1 as usize] = c;
        s.1 = c;
    }
    let mut s = (0u32, 0u8);
    let mut pred = [0u8; 256];
    p.iter().for_each(|c| feed(&mut s, &mut pred, *c));
    // what h + c + 1 must be for an unpredicted last byte c: the even hashes wanted, divided
    let half = 271828182u64 / 2;
    let mut inv = 1u64;
    for _ in 0..5 {
        inv = inv.wrapping_mul(2u64.wrapping_sub(half.wrapping_mul(inv)));
    }
    let mut u: Vec<u32> = vec![];
    for t in (lo..hi).filter(|t| t % 2 == 0).take(1 << 14) {
        let x = (t / 2).wrapping_mul(inv) & 0x7fff_ffff;
        u.push(x as u32);
        u.push(x as u32 | 1 << 31);
    }
    u.sort();
    for _ in 0..1u64 << 28 {
        let x = r.next();
        let b = [x as u8, (x >> 8) as u8, (x >> 16) as u8, (x >> 24) as u8];
        let mut s2 = s;
        // the few table entries touched, undone below
        let mut undo = [(0u8, 0u8); 4];
        for (k, c) in b.iter().enumerate() {
            undo[k] = (s2.1, pred[s2.1 as usize]);
            feed(&mut s2, &mut pred, *c);
        }
        let expect = pred[s2.1 as usize];
        for k in (0..4).rev() {
            pred[undo[k].0 as usize] = undo[k].1;
        }
        let h1 = s2.0.wrapping_add(1);
        let i = u.partition_point(|x| *x < h1);
        if i < u.len() && u[i] - h1 < 256 && (u[i] - h1) as u8 != expect {
            return Some([&b[..], &[(u[i] - h1) as u8]].concat());
        }
    }
    None
}

/// 32 bytes whose zstd hash has all of its low 52 bits set, or all but the one named
const WINDOWS: &[(i32, &str)] = &[
    (-1, "8a00620dd3e3aa230891ac6c84588616a48150d19ad36aacca457d88b576d7ef"),
    (19, "bc2010e5875fedc7cf9264debcf14f832a3e948e5c07124e6d4e476355455f33"),
    (20, "fc25dea6b6c4b80af480aa06e95c523d018f29ef452338e7fe5713d920b346af"),
    (21, "c0f0b981ba2e213e5cd8b0efd8c9833ca5d1274cac481320fafa4d8657dc37a4"),
    (22, "be81864b9fa20fa670106289fc6cb3713e8127f9c664c9991ccd45fca8d5f098"),
    (23, "fb80e99662c26a0809d3f9d5c28c6bf0deb194febf8c3d0548131a86246a562d"),
    (24, "b745d8bf163f3e71d9d67555f1cf9967a41df6eeb8e1f71dca33b18cd91b20d7"),
    (25, "d97dcb1cc22887f653ee76f5d67f23e047aa38544add48416afbe69c75a30d32"),
    (26, "8b9eb6d57a8950531afd80f0ba8b9dd0093e4ad7d1e4d3c5050a8a1302af8c7e"),
    (27, "0bc57ba9319e2fc1d81351f45272b010d8ca288f3ebcaa2ab5c66a5f9bd65a68"),
    (28, "925b9c7739ca95189b3d7f5c5dab379ee94381130a3995d4277715fa1ad94ab3"),
    (29, "d6576da3db9e902a57cb96760282705b1ea9544cb0e167c5bfc8d04e5378fd97"),
    (30, "5153a0763ec74c4e1d87f6f1f0a39cc620665b5bc6db6e7d2b3a450fc71de358"),
    (31, "5ca1d9262af0a57aa6fd1767f6fde7ea24e9321e7d30d4c0761b4f47894bc89e"),
    (32, "44e0fc744cfb10500e2e9a9f9f2aba493e434e18bc45f2c1f6eb4212a782cb6d"),
    (33, "27a267722b8ee357a30a69581fda5bdc05980dc2a508393cde92072e932ffcef"),
    (34, "162165b7572d1e9866b3a20a415c05345bb6fe90b50e5e1a30e72835da307f4a"),
    (35, "b26f4e681181b413674c5493e5bbe498dd2fa0f00a21ec03501c87699fe8b1a9"),
    (36, "ac4ece06f5d6cb0212579563b3ecb4302794b84b7e855ac1ebc4956ea6f84a11"),
    (37, "006cd7122578b2c7fe917154cfeb22cad0b725a9821c581c3454016f8915511c"),
    (38, "66e9c87f1859c408f100cc729888f16d2f61eac723497491c0d5ec56564dafda"),
    (39, "471baa57d3144d997bbc91b5f1c30308b89a985db680544659f1f1e68299fc86"),
    (40, "61ce80e95559785243ca06aea8f61b242e8241064e162bbc6e2e86dfccca0d5d"),
    (41, "3f65a56e2e66de6a8cf0fb2cd97ec1d606efcc0fd3c6be942662c7fc3d0bee4f"),
    (42, "72c03cb677c770f179a3c1048c87b3aab06c382935781ddcfe0218b1cd45a702"),
    (43, "9e7877e773f394689cd22c0df87b3a45d33ff430c44b3485d0b356725b30318d"),
    (44, "191dddc6a8bf5fd8f58eb892143aeedcda7f426c8322541de9f9a77b051c3899"),
    (45, "1fe3e491b101420b27f1957c51a8b7c844b5193235d0d6430e843e8b0f9ad589"),
    (46, "3a9dc6bfb8ae8a3a86a4df123b3c6e8ce046341fa4660de26b1e8ce333e74b72"),
    (47, "9e479cfa5a2a50dee96388dab67c8d1de9f125abe7bcaa728afe9562ff0b706c"),
    (48, "45fd9945664e24fb97f56b6c69940c472c3dda17195b3375e4727a54a2c04f9e"),
    (49, "f1fa676f10269cb82ff00fdad40c86b51fa73525592b728ffc75e56a9674342a"),
    (50, "04797cfc671dcae14b568c17fca82c28e91bdb1724c61d3552a88f85ebd1ef74"),
    (51, "d461321d570808d5901f4ab0c9ea67851509d42950d73ebc271d28586753408d"),
];

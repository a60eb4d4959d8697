//! Streams and configurations.  Streams are made to reach edges: the generators know
//! enough of bup's and zstd's arithmetic to steer a stream into an edge, but nothing
//! they compute is used to judge the implementation.
use crate::alg::Cfg;
use crate::rng::Rng;

pub fn random(n: usize, r: &mut Rng) -> Vec<u8> {
    (0..n).map(|_| r.byte()).collect()
}
pub fn alphabet(n: usize, al: &[u8], r: &mut Rng) -> Vec<u8> {
    (0..n).map(|_| r.pick(al)).collect()
}
pub fn constant(n: usize, b: u8) -> Vec<u8> {
    vec![b; n]
}
pub fn ramp(n: usize, step: i32, start: i32) -> Vec<u8> {
    (0..n).map(|i| (start + step * i as i32) as u8).collect()
}
pub fn periodic(n: usize, p: usize, r: &mut Rng) -> Vec<u8> {
    let b = random(p.max(1), r);
    (0..n).map(|i| b[i % b.len()]).collect()
}
/// each byte mostly determined by the previous one
pub fn markov(n: usize, r: &mut Rng) -> Vec<u8> {
    let mut succ = [0u8; 256];
    for x in succ.iter_mut() {
        *x = r.byte();
    }
    let mut p = r.byte();
    (0..n)
        .map(|_| {
            let x = match r.below(8) {
                0 => r.byte(),
                1 => {
                    let v = r.byte();
                    succ[p as usize] = v;
                    v
                }
                2 => 0,
                _ => succ[p as usize],
            };
            p = x;
            x
        })
        .collect()
}
/// descending run, so that only forced or late maxima end a chunk
pub fn descending(n: usize) -> Vec<u8> {
    (0..n).map(|i| 255u8.saturating_sub((i * 255 / n.max(1)) as u8)).collect()
}
/// pieces of everything above
pub fn mixed(n: usize, r: &mut Rng) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 64);
    while v.len() < n {
        let k = r.range(1, (n / 6).max(3));
        let piece = match r.below(8) {
            0 => random(k, r),
            1 => {
                let al = [r.byte(), r.byte(), r.byte()];
                alphabet(k, &al, r)
            }
            2 => {
                let b = r.byte();
                constant(k, b)
            }
            3 => ramp(k, 1, r.below(256) as i32),
            4 => ramp(k, -1, r.below(256) as i32),
            5 => {
                let p = r.range(1, 9);
                periodic(k, p, r)
            }
            6 => markov(k, r),
            _ => constant(k, [0u8, 255][r.below(2)]),
        };
        v.extend(piece);
    }
    v.truncate(n);
    v
}

/// A stream on which the bup rule with window `w` has many edges: whenever some byte
/// completes a 13-bit match, it is chosen with probability num/den.
pub fn bup_dense(n: usize, w: usize, num: usize, den: usize, r: &mut Rng) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::with_capacity(n);
    let w32 = w as u32;
    let start = (w32.wrapping_mul(31), w32.wrapping_mul(w32.wrapping_sub(1)).wrapping_mul(31));
    let (mut s1, mut s2) = start;
    let mut chunk = 0usize;
    let lo = r.below(3) == 0;
    while v.len() < n {
        let i = v.len();
        let d = if i - chunk >= w { v[i - w] } else { 0 } as u32;
        // s2' = s2 + s1 + add - d - w (d + 31)
        let base = s2.wrapping_add(s1).wrapping_sub(d).wrapping_sub(w32.wrapping_mul(d + 31));
        let need = 8191u32.wrapping_sub(base) & 8191;
        let b = if need < 256 && r.chance(num, den) {
            need as u8
        } else if lo {
            r.byte() & 7
        } else {
            r.byte()
        };
        s1 = s1.wrapping_add(b as u32).wrapping_sub(d);
        s2 = s2.wrapping_add(s1).wrapping_sub(w32.wrapping_mul(d + 31));
        v.push(b);
        if s2 & 8191 == 8191 {
            s1 = start.0;
            s2 = start.1;
            chunk = v.len();
        }
    }
    v
}

const P: u64 = 0xCF1B_BCDC_B7A5_6463;
fn zhash(last32: &[u8]) -> u64 {
    last32.iter().fold(0u64, |h, b| h.wrapping_mul(P).wrapping_add(*b as u64 + 10))
}
/// A stream whose zstd hash (low `bits` bits all ones) hits right after each of the
/// given lengths of prefix, where a suitable choice of the bytes before can be found.
pub fn zstd_dense(n: usize, bits: u32, hits: &[usize], r: &mut Rng) -> Vec<u8> {
    let mut v = random(n, r);
    let mask = if bits >= 64 { !0 } else { (1u64 << bits) - 1 };
    let mut last = 0usize;
    for &h in hits {
        if h < 33 || h > n {
            continue;
        }
        // free bytes: up to 5 before the last one, not reaching over the previous hit
        let free = (h - 1 - last).min(5);
        if (free as u32) * 8 + 8 < bits || bits > 30 {
            continue;
        }
        let tries: u64 = 1 << (bits.saturating_sub(8) + 4).min(8 * free as u32).min(34);
        let head = zhash(&v[h - 32..h - 1 - free]);
        let off = r.next();
        for t in 0..tries {
            let x = (t.wrapping_add(off)) & if free >= 8 { !0 } else { (1u64 << (8 * free)) - 1 };
            let mut z = head;
            for k in 0..free {
                z = z.wrapping_mul(P).wrapping_add(((x >> (8 * k)) & 255) + 10);
            }
            let need = (!0u64).wrapping_sub(z.wrapping_mul(P)).wrapping_sub(10) & mask;
            if need < 256 {
                for k in 0..free {
                    v[h - 1 - free + k] = (x >> (8 * k)) as u8;
                }
                v[h - 1] = need as u8;
                last = h;
                break;
            }
        }
    }
    v
}
pub fn zstd_bits(c: &Cfg) -> u32 {
    match c.ctor {
        "zstd_default" => 23,
        "zstd_log2" => c.a[0] as u32,
        _ => 20 + 63 - (c.a[0] as u64).leading_zeros(),
    }
}
/// positions for zstd hits: as early as possible, close together, within and beyond
/// 32 bytes of each other, plus some random ones
pub fn zstd_hits(n: usize, mingap: usize, r: &mut Rng) -> Vec<usize> {
    let mut v = vec![];
    let mut p = match r.below(3) {
        0 => 33,
        1 => r.range(33, 36),
        _ => r.range(33, 100),
    };
    while p <= n {
        v.push(p);
        p += match r.below(6) {
            0 => mingap,
            1 => r.range(mingap, mingap + 4),
            2 => r.range(28, 36),
            3 => 32,
            4 => 33,
            _ => r.range(mingap, 150),
        };
    }
    v
}

/// a table all of whose entries have only a few bits, so that masks match often
pub fn sparse64(r: &mut Rng, bits: &[u32], density: usize) -> Vec<u64> {
    (0..256)
        .map(|_| {
            let mut x = 0u64;
            for b in bits {
                if r.chance(1, density) {
                    x |= 1u64 << b;
                }
            }
            x
        })
        .collect()
}
pub fn rand64(r: &mut Rng) -> Vec<u64> {
    (0..256).map(|_| r.next()).collect()
}
pub fn rand32(r: &mut Rng) -> Vec<u64> {
    (0..256).map(|_| r.next() & 0xffff_ffff).collect()
}

/// Streams suited to a configuration, about n bytes each; `k` selects a flavour.
pub fn stream(c: &Cfg, n: usize, k: usize, r: &mut Rng) -> Vec<u8> {
    if n > 20 && r.chance(1, 8) {
        if let Some(v) = steered(c, n, r) {
            return v;
        }
    }
    match c.alg {
        "bup" => {
            let w = if c.ctor == "bup_default" { 64 } else { c.a[0] as usize };
            match k % 5 {
                0 => bup_dense(n, w, 1, 1, r),
                1 => bup_dense(n, w, 1, 4, r),
                2 => mixed(n, r),
                3 => {
                    let mut v = bup_dense(n / 2, w, 1, 2, r);
                    v.extend(mixed(n - n / 2, r));
                    v
                }
                _ => bup_dense(n, w, 1, 16, r),
            }
        }
        "zstd" => {
            let b = zstd_bits(c);
            let mingap = ((b as usize + 7) / 8).max(3);
            let h = zstd_hits(n, mingap, r);
            match k % 4 {
                3 => mixed(n, r),
                _ => zstd_dense(n, b, &h, r),
            }
        }
        "mii" => match k % 4 {
            0 => mixed(n, r),
            1 => ramp(n, 1, r.below(256) as i32),
            2 => {
                let m = r.range(2, 40) as u8;
                (0..n).map(|i| if r.chance(1, 9) { r.byte() } else { (i % 256) as u8 % m }).collect()
            }
            _ => alphabet(n, &[1, 2, 3, 4, 5, 6, 7, 200, 255, 0], r),
        },
        "ram" => match k % 6 {
            // the maximum of a window comes late: now and then a larger byte, or a rise
            4 => {
                let p = r.range(20, 2000);
                (0..n).map(|_| if r.below(p) == 0 { 128 + r.byte() / 2 } else { r.byte() / 2 }).collect()
            }
            5 => {
                let w = (c.a[0] as usize).clamp(1, 1 << 20);
                let mut v: Vec<u8> = vec![];
                while v.len() < n {
                    let p = r.range(w / 2 + 1, w + 20);
                    v.extend((0..p).map(|i| (i * 250 / p) as u8 / 2 + r.byte() / 3));
                    v.extend(random(r.below(30), r));
                }
                v.truncate(n);
                v
            }
            0 => mixed(n, r),
            1 => alphabet(n, &[0, 1, 2, 254, 255], r),
            2 => descending(n),
            _ => random(n, r),
        },
        "gzip" => {
            let m = *c.a.get(1).unwrap_or(&4096);
            match k % 4 {
                0 => mixed(n, r),
                1 => random(n, r),
                2 => {
                    // multiples of a divisor of the modulus make sums meet it
                    let f = if m % 64 == 0 { 64 } else if m % 16 == 0 { 16 } else { 1 };
                    (0..n).map(|_| (r.byte() as i64 / f * f) as u8).collect()
                }
                _ => alphabet(n, &[0, 1, 255, 128], r),
            }
        }
        _ => match k % 4 {
            0 => random(n, r),
            1 => mixed(n, r),
            2 => markov(n, r),
            _ => {
                let a = [r.byte(), r.byte(), r.byte(), r.byte()];
                alphabet(n, &a, r)
            }
        },
    }
}

/// Streams of several MB, from a recipe (kind, length, seed): random; random with long
/// repeats of earlier parts; runs of constants and of random bytes; constant for almost
/// all of it.
pub fn vast((kind, n, seed): (usize, usize, u64)) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v: Vec<u8> = Vec::with_capacity(n + 8);
    let noise = |v: &mut Vec<u8>, m: usize, r: &mut Rng| {
        for _ in 0..m / 8 + 1 {
            v.extend(r.next().to_le_bytes());
        }
    };
    match kind {
        0 => noise(&mut v, n, &mut r),
        1 => {
            while v.len() < n {
                let m = r.range(1000, 300_000);
                if v.len() > 400_000 && r.chance(1, 2) {
                    let at = r.below(v.len() - m);
                    v.extend_from_within(at..at + m);
                } else {
                    noise(&mut v, m, &mut r);
                }
            }
        }
        2 => {
            while v.len() < n {
                let m = r.range(1, 200_000);
                if r.chance(1, 2) {
                    let b = r.byte();
                    v.resize(v.len() + m, b);
                } else {
                    noise(&mut v, m, &mut r);
                }
            }
        }
        _ => {
            noise(&mut v, r.clone().below(100_000), &mut r);
            let b = r.byte();
            v.resize(n.saturating_sub(150_000), b);
            noise(&mut v, 150_000, &mut r);
        }
    }
    v.truncate(n);
    v
}

/// Streams for large configurations: not with an edge at every other byte.
pub fn big_stream(c: &Cfg, n: usize, k: usize, r: &mut Rng) -> Vec<u8> {
    match c.alg {
        "bup" => stream(c, n, [4, 2][k % 2], r),
        "gzip" => stream(c, n, [1, 3][k % 2], r),
        _ => stream(c, n, k, r),
    }
}

/// The running state of a rule, to steer streams towards and away from edges.
#[derive(Clone)]
struct Sim {
    c: Cfg,
    w: usize,
    tab: Vec<u64>,
    /// first byte of the chunk
    start: usize,
    a: u64,
    b: u64,
}
impl Sim {
    fn new(c: &Cfg) -> Option<Sim> {
        let tab: Vec<u64> = match (c.alg, c.ctor, c.tabname) {
            ("buz", "buz_nom", _) => hash_roll::buzhash_table::GO_BUZHASH.iter().map(|x| *x as u64).collect(),
            (_, "fcdc_default", _) | (_, _, "gear64") => hash_roll::gear_table::GEAR_64.to_vec(),
            ("gear", _, _) => hash_roll::gear_table::GEAR_32.iter().map(|x| *x as u64).collect(),
            (_, _, "gobuz") => hash_roll::buzhash_table::GO_BUZHASH.iter().map(|x| *x as u64).collect(),
            (_, _, "borg") => return None,
            _ => c.tab.clone(),
        };
        if !["bup", "buz", "gear", "gzip", "pigz", "mii", "ram", "fcdc"].contains(&c.alg) {
            return None;
        }
        let mut s = Sim { c: c.clone(), w: look_back(c), tab, start: 0, a: 0, b: 0 };
        s.fresh(0);
        Some(s)
    }
    fn arg(&self, i: usize, default: i64) -> u64 {
        if self.c.ctor.ends_with("_default") || self.c.ctor == "buz_nom" { default as u64 } else { self.c.a[i] as u64 }
    }
    fn fresh(&mut self, at: usize) {
        self.start = at;
        let w = self.w as u32;
        match self.c.alg {
            "bup" => {
                self.a = w.wrapping_mul(31) as u64;
                self.b = w.wrapping_mul(w.wrapping_sub(1)).wrapping_mul(31) as u64;
            }
            "pigz" => self.a = (1u64 << (self.arg(0, 12) - 1)) - 1,
            "mii" => {
                self.a = 0;
                self.b = 255;
            }
            _ => {
                self.a = 0;
                self.b = 0;
            }
        }
    }
    /// state after one more byte, and whether it is an edge
    fn step(&self, v: &[u8], x: u8) -> (u64, u64, bool) {
        let n = v.len() - self.start;
        let old = if n >= self.w && self.w > 0 { Some(v[v.len() - self.w]) } else { None };
        match self.c.alg {
            "bup" => {
                let d = old.unwrap_or(0) as u32;
                let s1 = (self.a as u32).wrapping_add(x as u32).wrapping_sub(d);
                let s2 = (self.b as u32).wrapping_add(s1).wrapping_sub((self.w as u32).wrapping_mul(d + 31));
                (s1 as u64, s2 as u64, s2 & 8191 == 8191)
            }
            "buz" => {
                let (mask, max, salt) = if self.c.ctor == "buz_nom" { (4095, 1 << 24, self.c.a[0] as u8) } else { ((self.c.a[1] as u32) << 16 | self.c.a[2] as u32, self.c.a[3] as usize, self.c.a[4] as u8) };
                let mut h = (self.a as u32).rotate_left(1) ^ self.tab[(x ^ salt) as usize] as u32;
                if let Some(o) = old {
                    h ^= (self.tab[(o ^ salt) as usize] as u32).rotate_left((self.w % 32) as u32);
                }
                (h as u64, 0, h & mask == mask || n + 1 > max)
            }
            "gear" => {
                let h = ((self.a as u32) << 1).wrapping_add(self.tab[x as usize] as u32);
                (h as u64, 0, h >> (32 - self.arg(0, 13)) == 0)
            }
            "gzip" => {
                let s = self.a + x as u64 - old.unwrap_or(0) as u64;
                (s, 0, s % self.arg(1, 4096) == 0)
            }
            "pigz" => {
                let bits = self.arg(0, 12);
                let h = ((self.a << 1) ^ x as u64) & ((1 << bits) - 1);
                (h, 0, h == (1 << (bits - 1)) - 1)
            }
            "mii" => {
                let run = if n > 0 && x as u64 > self.b { self.a + 1 } else { 0 };
                (run, x as u64, run == self.arg(0, 5))
            }
            "ram" => ((x as u64).max(self.a), 0, n as u64 > self.arg(0, 0) && x as u64 >= self.a),
            _ => {
                let (min, norm, max) = (self.arg(0, 2048), self.arg(1, 8192), self.arg(2, 65536));
                let n = n as u64;
                if n < min {
                    return (0, 0, n + 1 >= max);
                }
                let h = (self.a << 1).wrapping_add(self.tab[x as usize]);
                let m = if n < norm { 0x0003_5907_0353_0000 } else { 0x0000_d900_0353_0000u64 };
                (h, 0, (n > 0 && h & m == 0) || n + 1 >= max)
            }
        }
    }
}
/// A stream whose chunks are about as long as asked for: no edge before that length,
/// then one as soon as some byte makes it.
pub fn steer_lens(c: &Cfg, n: usize, mut len: impl FnMut(&mut Rng) -> usize, r: &mut Rng) -> Option<Vec<u8>> {
    let mut s = Sim::new(c)?;
    let mut v = Vec::with_capacity(n);
    let mut target = len(r);
    let mode = r.below(3);
    while v.len() < n {
        let m = v.len() - s.start;
        let want = m + 1 >= target && m < target + 400;
        let first = match mode {
            0 => r.byte(),
            1 => r.byte() & 15,
            _ => if r.chance(1, 4) { r.byte() } else { *v.last().unwrap_or(&7) },
        };
        let (mut a, mut b, mut hit) = s.step(&v, first);
        let mut x = first;
        let mut k = 1u32;
        while hit != want && k < 256 {
            x = first.wrapping_add((k as u8).wrapping_mul(77));
            let t = s.step(&v, x);
            a = t.0;
            b = t.1;
            hit = t.2;
            k += 1;
        }
        v.push(x);
        s.a = a;
        s.b = b;
        if hit {
            s.fresh(v.len());
            target = len(r);
        }
    }
    Some(v)
}
/// Chunks about as long as the look-back, and longer.
pub fn steered(c: &Cfg, n: usize, r: &mut Rng) -> Option<Vec<u8>> {
    let w = look_back(c).max(*thresholds(c).iter().filter(|x| **x < n / 2).max().unwrap_or(&1));
    let w = if w == 0 { 40 } else { w };
    steer_lens(
        c,
        n,
        move |r| match r.below(6) {
            0 => w.saturating_sub(1).max(1),
            1 => w,
            2 => w + 1,
            3 => 2 * w + r.below(9),
            4 => w + r.below(w + 30),
            _ => r.below(w + 1) + 1,
        },
        r,
    )
}

/// Configurations with many edges on short streams, covering the parameter space in
/// small: windows around powers of two and word sizes, wrap-around, every kind of
/// bound, forced and hash-decided chunks.
pub fn small(alg: &str, r: &mut Rng) -> Vec<Cfg> {
    let mut v = vec![];
    match alg {
        "bup" => {
            for w in [8, 15, 16, 31, 33, 64, 1, 2, 5, 100] {
                v.push(Cfg::new("bup", "bup_window", &[w]));
            }
        }
        "buz" => {
            let t = rand32(r);
            let s = r.below(255) as i64 + 1;
            let mk = |w: i64, mask: u32, max: i64, salt: i64| Cfg::new("buz", "buz_new", &[w, (mask >> 16) as i64, (mask & 0xffff) as i64, max, salt]);
            for (k, (w, mask, max)) in [
                (1i64, 3u32, 9i64),
                (2, 7, 1000),
                (3, 1 << 31 | 1, 20),
                (5, 0x000f_0000, 3),
                (16, 15, 100),
                (31, 7, 1 << 30),
                (32, 7, 40),
                (33, 0x8000_0003, 1 << 30),
                (64, 7, 200),
                (65, 31, 64),
                (67, 15, 500),
                (7, 0, 5),
                (4, 0xffff_ffff, 6),
                (4, 0xffff_ffff, 0),
                (10, 3, 1),
            ]
            .iter()
            .enumerate()
            {
                let c = match k % 4 {
                    0 => mk(*w, *mask, *max, 0).table("given", t.clone(), 0).hash_kind(0),
                    1 => mk(*w, *mask, *max, 0).table("given", t.clone(), 0).hash_kind(1),
                    2 => mk(*w, *mask, *max, s).table("gobuz", vec![], 0).hash_kind(3),
                    _ => mk(*w, *mask, *max, s).table("given", t.clone(), 0).hash_kind(3),
                };
                v.push(c);
            }
            // the salted type of the library
            v.push(mk(9, 7, 50, s).table("given", t.clone(), 0).hash_kind(2));
            v.push(mk(12, 7, 50, 0).table("borg", vec![], r.next() as u32).hash_kind(1));
            v.push(mk(11, 15, 1 << 30, 0).table("gobuz", vec![], 0).hash_kind(0));
        }
        "gear" => {
            for l in [1, 2, 3, 4, 5, 6, 8] {
                v.push(Cfg::new("gear", "gear_log2", &[l]));
            }
        }
        "fcdc" => {
            let mk = |a: i64, b: i64, c: i64, t: Vec<u64>| Cfg::new("fcdc", "fcdc_new", &[a, b, c]).table("given", t, 0);
            let both = [16u32, 20, 22, 25, 46];
            let only_s = [32u32, 33, 34, 48, 49];
            let only_l = [47u32];
            let all: Vec<u32> = both.iter().chain(only_s.iter()).chain(only_l.iter()).cloned().collect();
            let t1 = sparse64(r, &all, 8);
            let t2 = sparse64(r, &only_s, 3);
            let t3 = sparse64(r, &[47, 46], 3);
            let t4 = sparse64(r, &[16, 17, 40], 2);
            v.push(mk(0, 1, 3, t1.clone()));
            v.push(mk(1, 2, 3, t2.clone()));
            v.push(mk(0, 4, 8, t2.clone()));
            v.push(mk(2, 4, 8, t3.clone()));
            v.push(mk(4, 4, 9, t3.clone()));
            v.push(mk(3, 7, 7, t1.clone()));
            v.push(mk(5, 10, 30, t4.clone()));
            v.push(mk(8, 16, 64, t2.clone()));
            v.push(mk(16, 40, 50, t3.clone()));
            v.push(mk(7, 8, 100, sparse64(r, &all, 4)));
            v.push(mk(0, 0, 1, t1));
            v.push(mk(6, 50, 120, sparse64(r, &only_s, 6)));
            v.push(mk(20, 60, 1 << 30, sparse64(r, &all, 5)));
            v.push(Cfg::new("fcdc", "fcdc_new", &[4, 8, 700]).table("gear64", vec![], 0));
        }
        "gzip" => {
            for (w, m) in [(1, 2), (2, 3), (3, 256), (4, 7), (8, 100), (16, 64), (17, 31), (64, 256), (100, 13), (5, 1), (6, 1 << 29), (300, 1000)] {
                v.push(Cfg::new("gzip", "gzip_new", &[w, m]));
            }
        }
        "pigz" => {
            for b in [1, 2, 3, 4, 5, 7, 8, 9, 10] {
                v.push(Cfg::new("pigz", "pigz_bits", &[b]));
            }
        }
        "mii" => {
            for w in [1, 2, 3, 4, 5, 6, 9] {
                v.push(Cfg::new("mii", "mii_w", &[w]));
            }
        }
        "ram" => {
            for w in [0, 1, 2, 3, 7, 20, 64] {
                v.push(Cfg::new("ram", "ram_w", &[w]));
            }
        }
        "zpaq" => {
            let f = |a: &[i64]| Cfg::new("zpaq", "zpaq_full", a);
            v.push(f(&[1, 1, 2, 1, 4]));
            v.push(f(&[2, 2, 1, 2, 9]));
            v.push(f(&[3, 1, 5, 1, 5]));
            v.push(f(&[4, 0, 0, 1, 20]));
            v.push(f(&[5, 1, 10, 0, 0]));
            v.push(f(&[4, 2, 7, 2, 60]));
            v.push(f(&[6, 0, 0, 0, 0]));
            v.push(f(&[32, 1, 1, 1, 13]));
            v.push(f(&[32, 0, 0, 2, 2]));
            v.push(f(&[3, 2, 0, 1, 30]));
            v.push(Cfg::new("zpaq", "zpaq_range", &[1, 3, 1, 40]));
            v.push(Cfg::new("zpaq", "zpaq_range", &[0, 0, 2, 70]));
            v.push(Cfg::new("zpaq", "zpaq_max", &[200]));
        }
        "zstd" => {
            v.push(Cfg::new("zstd", "zstd_mib", &[1]));
            v.push(Cfg::new("zstd", "zstd_mib", &[3, 12345]));
            v.push(Cfg::new("zstd", "zstd_mib", &[4, 0]));
            v.push(Cfg::new("zstd", "zstd_default", &[]));
        }
        _ => {}
    }
    v
}

/// Defaults and parameters of the size real users choose, and beyond narrow integers.
pub fn large(alg: &str, r: &mut Rng) -> Vec<Cfg> {
    match alg {
        "bup" => vec![
            Cfg::new("bup", "bup_default", &[]),
            Cfg::new("bup", "bup_window", &[257]),
            Cfg::new("bup", "bup_window", &[1000]),
            Cfg::new("bup", "bup_window", &[70001]),
            Cfg::new("bup", "bup_window", &[r.range(4097, 9000) as i64]),
            Cfg::new("bup", "bup_window", &[r.range(32769, 45000) as i64]),
        ],
        "buz" => {
            let mk = |w: i64, mask: u32, max: i64| Cfg::new("buz", "buz_new", &[w, (mask >> 16) as i64, (mask & 0xffff) as i64, max, 0]);
            vec![
                Cfg::new("buz", "buz_nom", &[r.below(256) as i64]),
                mk(300, 0xff, 2000).table("gobuz", vec![], 0).hash_kind(0),
                mk(4095, 0x1ff, 70_000).table("borg", vec![], r.next() as u32).hash_kind(1),
                mk(70_000, 0xf_ff0f, 1 << 30).table("given", rand32(r), 0).hash_kind(3),
                mk(r.range(257, 9000) as i64, 0x3fff, 1 << 30).table("given", rand32(r), 0).hash_kind(0),
                mk(48, 0xffff_ffff, 66_000).table("given", rand32(r), 0).hash_kind(0),
            ]
        }
        "gear" => vec![Cfg::new("gear", "gear_default", &[]), Cfg::new("gear", "gear_log2", &[10]), Cfg::new("gear", "gear_log2", &[16]), Cfg::new("gear", "gear_log2", &[31])],
        "fcdc" => vec![
            Cfg::new("fcdc", "fcdc_default", &[]),
            Cfg::new("fcdc", "fcdc_new", &[300, 1000, 5000]).table("gear64", vec![], 0),
            Cfg::new("fcdc", "fcdc_new", &[70_000, 80_000, 90_000]).table("gear64", vec![], 0),
            Cfg::new("fcdc", "fcdc_new", &[64, 66_000, 140_000]).table("given", sparse64(r, &[16, 17, 32, 33, 34, 46, 47, 48, 49], 2), 0),
        ],
        "gzip" => vec![
            Cfg::new("gzip", "gzip_default", &[]),
            Cfg::new("gzip", "gzip_new", &[300, 1021]),
            Cfg::new("gzip", "gzip_new", &[70_000, 8191]),
            Cfg::new("gzip", "gzip_new", &[65_536, 1 << 20]),
        ],
        "pigz" => vec![
            Cfg::new("pigz", "pigz_default", &[]),
            Cfg::new("pigz", "pigz_bits", &[14]),
            Cfg::new("pigz", "pigz_bits", &[17]),
            Cfg::new("pigz", "pigz_bits", &[31]),
        ],
        "mii" => vec![Cfg::new("mii", "mii_default", &[]), Cfg::new("mii", "mii_w", &[20]), Cfg::new("mii", "mii_w", &[200]), Cfg::new("mii", "mii_w", &[255]), Cfg::new("mii", "mii_w", &[256])],
        "ram" => vec![Cfg::new("ram", "ram_w", &[300]), Cfg::new("ram", "ram_w", &[4096]), Cfg::new("ram", "ram_w", &[70_000])],
        "zpaq" => vec![
            Cfg::new("zpaq", "zpaq_default", &[]),
            Cfg::new("zpaq", "zpaq_frag", &[10]),
            Cfg::new("zpaq", "zpaq_max", &[70_000]),
            Cfg::new("zpaq", "zpaq_range", &[2, 300, 2, 4000]),
            Cfg::new("zpaq", "zpaq_full", &[12, 1, 66_000, 1, 140_000]),
        ],
        "zstd" => vec![Cfg::new("zstd", "zstd_mib", &[100, 0]), Cfg::new("zstd", "zstd_mib", &[255, 1 << 19])],
        _ => vec![],
    }
}
pub const ALGS: [&str; 10] = ["bup", "buz", "gear", "fcdc", "gzip", "pigz", "mii", "ram", "zpaq", "zstd"];
pub fn look_back(c: &Cfg) -> usize {
    match c.alg {
        "bup" => if c.ctor == "bup_default" { 64 } else { c.a[0] as usize },
        "buz" => if c.ctor == "buz_nom" { 67 } else { c.a[0] as usize },
        "gzip" => if c.ctor == "gzip_default" { 8192 } else { c.a[0] as usize },
        "gear" | "zstd" => 32,
        "pigz" => if c.ctor == "pigz_default" { 12 } else { c.a[0] as usize },
        "mii" => if c.ctor == "mii_default" { 6 } else { c.a[0] as usize + 1 },
        _ => 0,
    }
}
/// stream offsets where something changes in a chunk: sizes, windows
pub fn thresholds(c: &Cfg) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    match c.ctor {
        "fcdc_default" => v.extend([2048, 8192, 65536]),
        "fcdc_new" | "zpaq_range" | "zpaq_full" | "zpaq_max" => v.extend(c.a.iter().map(|x| *x as usize)),
        "zpaq_default" => v.extend([4096, 520192]),
        "buz_new" => v.extend([c.a[0] as usize, c.a[3] as usize, c.a[3] as usize + 1]),
        "ram_w" => v.extend([c.a[0] as usize, c.a[0] as usize + 1]),
        _ => {}
    }
    v.push(look_back(c));
    v.retain(|x| *x > 0 && *x < 1 << 28);
    let mut w = vec![];
    for x in v {
        w.extend([x - 1, x, x + 1]);
    }
    w.retain(|x| *x > 0);
    w.sort();
    w.dedup();
    w
}

// ------------------------------------------------------------------------- zpaq
/// average exponent, smallest and largest size of a zpaq configuration, to steer streams
pub fn zpaq_lim(c: &Cfg) -> (u32, usize, usize) {
    let a = &c.a;
    let big = 1usize << 40;
    let of_max = |m: usize| -> u32 { if m < 8 { 1 } else { (61 - (m as u64).leading_zeros()).min(32) } };
    let range = |lk: i64, lo: i64, hk: i64, hi: i64| -> (usize, usize) {
        (
            match lk { 0 => 1, 1 => (lo as usize).max(1), _ => lo as usize + 1 },
            if hi >= crate::alg::CAP || hk == 0 { big } else { (if hk == 1 { hi } else { hi - 1 }).max(1) as usize },
        )
    };
    match c.ctor {
        "zpaq_default" => (16, 4096, 520_192),
        "zpaq_frag" => (a[0] as u32, 64usize << (a[0] - 10), 8128usize << (a[0] - 10)),
        "zpaq_max" => (of_max(crate::alg::u64_of(a[0]) as usize), (a[0] as usize / 64).max(1), if a[0] >= crate::alg::CAP { big } else { a[0] as usize }),
        "zpaq_range" => {
            let (l, h) = range(a[0], a[1], a[2], a[3]);
            let avg = if a[2] != 0 { of_max(h) } else if a[0] != 0 { of_max(64 * l) } else { 16 };
            (avg, l, h)
        }
        _ => {
            let (l, h) = range(a[1], a[2], a[3], a[4]);
            (a[0] as u32, l, h)
        }
    }
}
pub fn zpaq_avg(c: &Cfg) -> (u32, usize, usize) {
    zpaq_lim(c)
}
pub fn zpaq_limit(c: &Cfg) -> usize {
    zpaq_lim(c).2
}
/// A stream on which the zpaq hash falls below the threshold with the given chance
/// wherever some byte achieves that, and otherwise where no byte avoids it.
pub fn zpaq_steer(n: usize, lim: (u32, usize, usize), num: usize, den: usize, r: &mut Rng) -> Vec<u8> {
    let (avg, lo, hi) = lim;
    let mut v = Vec::with_capacity(n);
    let (mut h, mut last, mut pred, mut size) = (0u32, 0u8, [0u8; 256], 0usize);
    let thr: u64 = 1u64 << (32 - avg.min(32));
    let mut lazy = r.below(4);
    let mut base = r.byte();
    while v.len() < n {
        let want = num > 0 && r.chance(num, den);
        let step = |b: u8| -> u32 { h.wrapping_add(b as u32 + 1).wrapping_mul(if pred[last as usize] == b { 314_159_265 } else { 271_828_182 }) };
        // often go on as predicted
        lazy = (lazy + 1) % 4;
        let first = if lazy != 0 { pred[last as usize] } else { base = base.wrapping_mul(5).wrapping_add(77); base };
        let mut b = first;
        let mut k = 0;
        while ((step(b) as u64) < thr) != want && k < 256 {
            b = first.wrapping_add(k as u8).wrapping_add(1);
            k += 1;
        }
        h = step(b);
        let hit = (h as u64) < thr;
        pred[last as usize] = b;
        last = b;
        size += 1;
        v.push(b);
        if (hit && size >= lo) || size + 1 > hi {
            h = 0;
            last = 0;
            pred = [0; 256];
            size = 0;
        }
    }
    v
}
pub fn zpaq_dense(n: usize, lim: (u32, usize, usize), r: &mut Rng) -> Vec<u8> {
    let den = [1, 2, 5][r.below(3)];
    zpaq_steer(n, lim, 1, den, r)
}
pub fn zpaq_avoid(n: usize, lim: (u32, usize, usize), r: &mut Rng) -> Vec<u8> {
    zpaq_steer(n, lim, 0, 1, r)
}
/// lower and upper bounds of every kind
pub fn zranges() -> Vec<(i64, i64, i64, i64)> {
    vec![
        (0, 0, 0, 0),
        (0, 0, 1, 200),
        (0, 0, 2, 200),
        (0, 0, 1, 255),
        (0, 0, 2, 257),
        (0, 0, 1, 256),
        (1, 4, 0, 0),
        (1, 7, 0, 0),
        (1, 64, 0, 0),
        (2, 3, 0, 0),
        (2, 15, 0, 0),
        (1, 4, 1, 100),
        (1, 4, 2, 128),
        (1, 4, 2, 129),
        (2, 4, 1, 127),
        (2, 4, 1, 128),
        (2, 10, 2, 33),
        (1, 1, 1, 9),
        (1, 5, 1, 5),
        (1, 4096, 1, 20_000),
        (1, 1, 1, 3),
        (0, 0, 1, 1 << 20),
        (0, 0, 1, 1 << 26),
        (0, 0, 2, (1 << 26) + 1),
        (1, 8192, 0, 0),
        (2, 8191, 0, 0),
        (1, 1 << 20, 0, 0),
        (1, crate::alg::CAP, 0, 0),
        (2, crate::alg::CAP, 0, 0),
        (0, 0, 1, crate::alg::CAP),
        (0, 0, 2, crate::alg::CAP),
        (1, crate::alg::CAP, 1, crate::alg::CAP),
    ]
    .into_iter()
    .chain((0..crate::alg::HUGE.len() as i64).flat_map(|k| {
        let v = crate::alg::CAP + k;
        [(0, 0, 1, v), (1, 1, 2, v)]
    }))
    .collect()
}

/// FastCDC with a table whose hash never matches
pub fn nomatch_fcdc(c: &Cfg) -> Cfg {
    let mut x = c.clone();
    if x.ctor == "fcdc_default" {
        x.a = vec![2048, 8192, 65536];
    }
    x.ctor = "fcdc_new";
    x.tabname = "given";
    x.tab = vec![1 << 16; 256];
    x
}
/// the configuration with its match made impossible, and its largest chunk
pub fn forced(c: &Cfg) -> Option<(Cfg, usize)> {
    match c.alg {
        "fcdc" => {
            let x = nomatch_fcdc(c);
            let f = x.a[2];
            if f >= crate::alg::CAP { None } else { Some((x, f as usize)) }
        }
        "buz" => {
            if c.ctor != "buz_new" || c.a[3] >= crate::alg::CAP {
                return None;
            }
            let mut x = c.clone();
            x.a[1] = 0xffff;
            x.a[2] = 0xffff;
            // the hash stays zero whatever the bytes
            x = x.table("given", vec![0; 256], 0);
            let f = x.a[3] as usize + 1;
            Some((x, f))
        }
        "zpaq" => {
            let f = zpaq_limit(c);
            if f > 2_000_000 {
                return None;
            }
            let mut x = c.clone();
            if x.ctor == "zpaq_full" {
                x.a[0] = 32;
            }
            Some((x, f))
        }
        _ => None,
    }
}
pub fn nomatch_stream(c: &Cfg, n: usize, k: usize, r: &mut Rng) -> Vec<u8> {
    if c.alg == "zpaq" {
        zpaq_avoid(n, zpaq_lim(c), r)
    } else {
        stream(c, n, k, r)
    }
}

/// extremes of the valid domain
pub fn degenerate(alg: &str, r: &mut Rng) -> Vec<Cfg> {
    let cap = crate::alg::CAP;
    let c = |ctor: &'static str, a: &[i64]| Cfg::new(ALGS.iter().find(|x| **x == alg).unwrap(), ctor, a);
    match alg {
        "bup" => vec![c("bup_window", &[1]), c("bup_window", &[2]), c("bup_window", &[40_000])],
        "buz" => {
            let t = rand32(r);
            let mk = |w: i64, m: i64, max: i64| c("buz_new", &[w, m, m, max, 0]).table("given", t.clone(), 0).hash_kind(3);
            vec![mk(1, 0, 0), mk(1, 0, cap), mk(1, 0xffff, cap), mk(10_000, 0, 3), mk(70_000, 0xffff, cap), mk(2, 0xffff, 0), mk(2, 0xffff, 1), mk(255, 1, cap), mk(256, 1, cap), mk(257, 1, 700)]
        }
        "gear" => vec![c("gear_log2", &[1]), c("gear_log2", &[31])],
        "fcdc" => {
            let all: Vec<u32> = (16..50).collect();
            let t0 = vec![0u64; 256];
            let t1 = vec![1u64 << 16; 256];
            let t2 = sparse64(r, &all, 10);
            let mut v = vec![];
            for t in [t0, t1, t2] {
                for (a, b, m) in [(0i64, 0i64, 1i64), (0, 1, 1), (0, 0, 2), (1, 1, 2), (1, 2, 2), (5, 5, 6), (9, 10, 10), (0, 0, cap), (0, cap, cap), (1 << 29, 1 << 29, cap), (1, 1, cap)] {
                    v.push(c("fcdc_new", &[a, b, m]).table("given", t.clone(), 0));
                }
            }
            v
        }
        "gzip" => vec![c("gzip_new", &[1, 1]), c("gzip_new", &[10_000, 1]), c("gzip_new", &[1, cap]), c("gzip_new", &[1 << 20, cap + 3]), c("gzip_new", &[255, 2]), c("gzip_new", &[256, 2])],
        "pigz" => vec![c("pigz_bits", &[1]), c("pigz_bits", &[31]), c("pigz_bits", &[30])],
        "mii" => vec![c("mii_w", &[1]), c("mii_w", &[cap]), c("mii_w", &[255]), c("mii_w", &[256])],
        "ram" => vec![c("ram_w", &[0]), c("ram_w", &[1]), c("ram_w", &[cap])],
        "zpaq" => vec![
            c("zpaq_full", &[1, 0, 0, 0, 0]),
            c("zpaq_full", &[32, 0, 0, 0, 0]),
            c("zpaq_full", &[1, 1, 1, 1, 1]),
            c("zpaq_full", &[1, 2, 0, 2, 2]),
            c("zpaq_full", &[2, 1, cap, 0, 0]),
            c("zpaq_full", &[2, 2, cap, 0, 0]),
            c("zpaq_full", &[2, 1, 3, 1, cap]),
            c("zpaq_full", &[2, 1, 3, 2, cap]),
            c("zpaq_max", &[64]),
            c("zpaq_max", &[1]),
            c("zpaq_max", &[4]),
            c("zpaq_max", &[cap]),
            c("zpaq_range", &[0, 0, 0, 0]),
            c("zpaq_range", &[1, 1, 0, 0]),
            c("zpaq_frag", &[10]),
            c("zpaq_frag", &[20]),
        ],
        "zstd" => vec![c("zstd_mib", &[1 << 20]), c("zstd_mib", &[1 << 27])],
        _ => vec![],
    }
}
/// sizes beyond 2^30, beyond 32 bits, up to the largest
pub fn huge(alg: &str, r: &mut Rng) -> Vec<Cfg> {
    let c = |ctor: &'static str, a: &[i64]| Cfg::new(ALGS.iter().find(|x| **x == alg).unwrap(), ctor, a);
    let mut v = vec![];
    let cap = crate::alg::CAP;
    for k in 0..crate::alg::HUGE.len() as i64 {
        let x = cap + k;
        match alg {
            "buz" => {
                let w = [1, 3, 16, 33, 67][k as usize % 5];
                v.push(c("buz_new", &[w, 0, 31, x, 0]).table("given", rand32(r), 0).hash_kind([3, 0, 1][k as usize % 3]));
                v.push(c("buz_new", &[w, 0xffff, 0xffff, x, 0]).table("given", vec![0; 256], 0).hash_kind(3));
            }
            "fcdc" => {
                let all: Vec<u32> = vec![16, 17, 20, 22, 25, 32, 33, 34, 40, 46, 47, 48, 49];
                for (t, g) in [(sparse64(r, &all, 6), false), (vec![1 << 16; 256], true)] {
                    v.push(c("fcdc_new", &[3, 20, x]).table("given", t.clone(), 0));
                    v.push(c("fcdc_new", &[0, x, x]).table("given", t.clone(), 0));
                    if k != 0 && (g || k == 3) {
                        v.push(c("fcdc_new", &[x, x, cap]).table("given", t.clone(), 0));
                    }
                }
            }
            "gzip" => v.push(c("gzip_new", &[[1, 2, 7, 40][k as usize % 4], x])),
            "mii" => v.push(c("mii_w", &[x])),
            "ram" => v.push(c("ram_w", &[x])),
            "zpaq" => {
                for a in [[5, 1, 3, 1, x], [32, 1, 3, 2, x], [5, 1, x, 0, 0], [32, 2, x, 1, cap]] {
                    v.push(c("zpaq_full", &a));
                }
                v.push(c("zpaq_max", &[x]));
            }
            _ => {}
        }
    }
    v
}
/// configurations whose chunks are long compared with their look-back
pub fn sparse(alg: &str, r: &mut Rng) -> Vec<Cfg> {
    let c = |ctor: &'static str, a: &[i64]| Cfg::new(ALGS.iter().find(|x| **x == alg).unwrap(), ctor, a);
    match alg {
        "bup" => [1i64, 8, 15, 16, 31, 33, 64, 100].iter().map(|w| c("bup_window", &[*w])).collect(),
        "buz" => {
            let t = rand32(r);
            [(1i64, 31i64), (4, 63), (16, 127), (31, 127), (32, 255), (33, 255), (65, 255), (67, 511)].iter().enumerate().map(|(i, (w, m))| c("buz_new", &[*w, if i % 2 == 0 { 0 } else { 0x8001 }, *m, crate::alg::CAP, 0]).table("given", t.clone(), 0).hash_kind(if i % 3 == 0 { 3 } else { 0 })).collect()
        }
        "gear" => [5i64, 6, 7, 8, 9].iter().map(|w| c("gear_log2", &[*w])).collect(),
        "gzip" => [(1i64, 97i64), (2, 211), (3, 256), (8, 509), (16, 512), (17, 1021), (64, 1024)].iter().map(|(w, m)| c("gzip_new", &[*w, *m])).collect(),
        "pigz" => [5i64, 6, 7, 8, 9, 10].iter().map(|w| c("pigz_bits", &[*w])).collect(),
        "mii" => [1i64, 2, 3, 4, 5].iter().map(|w| c("mii_w", &[*w])).collect(),
        _ => small(alg, r),
    }
}
/// random sizes for the algorithms that have them
pub fn sized(alg: &str, r: &mut Rng) -> Vec<Cfg> {
    let mut v = vec![];
    match alg {
        "fcdc" => {
            let all: Vec<u32> = vec![16, 17, 20, 22, 24, 25, 32, 33, 34, 40, 43, 44, 46, 47, 48, 49];
            for k in 0..8 {
                let min = r.below(40) as i64;
                let max = min + 1 + r.below(80) as i64;
                let norm = min + r.below((max - min + 1) as usize) as i64;
                let t = match k % 4 {
                    0 => rand64(r),
                    1 => sparse64(r, &all, 6),
                    2 => sparse64(r, &all, 12),
                    _ => sparse64(r, &[48, 49, 46], 4),
                };
                v.push(Cfg::new("fcdc", "fcdc_new", &[min, norm, max]).table("given", t, 0));
            }
        }
        "zpaq" => {
            for k in 0..8 {
                let lk = r.below(3) as i64;
                let lo = r.below(60) as i64;
                let hk = 1 + r.below(2) as i64;
                let hi = lo + 3 + r.below(100) as i64;
                let avg = 1 + r.below(9) as i64;
                v.push(Cfg::new("zpaq", "zpaq_full", &[if k == 7 { 32 } else { avg }, lk, lo, hk, hi]));
            }
        }
        "buz" => {
            for k in 0..6 {
                let t = rand32(r);
                let w = r.range(1, 80) as i64;
                let bits = r.below(8) as u32;
                let sh = r.below(32 - bits as usize) as u32;
                let m = ((1u64 << bits) - 1) << sh;
                let max = r.below(150) as i64;
                v.push(Cfg::new("buz", "buz_new", &[w, (m >> 16) as i64, (m & 0xffff) as i64, max, 0]).table("given", t, 0).hash_kind((k % 2) as u8 * 3));
            }
        }
        _ => {}
    }
    v
}
/// groups of configurations that differ in one parameter
pub fn neighbours(alg: &str, r: &mut Rng) -> Vec<Vec<Cfg>> {
    let c = |ctor: &'static str, a: &[i64]| Cfg::new(ALGS.iter().find(|x| **x == alg).unwrap(), ctor, a);
    match alg {
        "bup" => vec![[16i64, 17, 15, 64, 272].iter().map(|w| c("bup_window", &[*w])).chain(std::iter::once(c("bup_default", &[]))).collect()],
        "gzip" => vec![[(16i64, 64i64), (16, 65), (17, 64), (16, 320), (272, 64)].iter().map(|(w, m)| c("gzip_new", &[*w, *m])).collect()],
        "pigz" => vec![[3i64, 4, 5, 6].iter().map(|w| c("pigz_bits", &[*w])).collect()],
        "ram" => vec![[2i64, 3, 10, 258].iter().map(|w| c("ram_w", &[*w])).collect()],
        "zpaq" => vec![
            [[4i64, 1, 8, 1, 40], [5, 1, 8, 1, 40], [4, 2, 8, 1, 40], [4, 1, 9, 1, 40], [4, 2, 7, 1, 40], [4, 1, 8, 2, 40], [4, 1, 8, 1, 41], [4, 1, 8, 2, 41], [4, 0, 0, 1, 40], [4, 1, 8, 0, 0], [4, 0, 8, 1, 40], [4, 1, 8, 0, 40]].iter().map(|a| c("zpaq_full", a)).collect(),
            vec![c("zpaq_max", &[200]), c("zpaq_max", &[201]), c("zpaq_max", &[192]), c("zpaq_range", &[1, 3, 1, 200]), c("zpaq_range", &[1, 3, 2, 201])],
        ],
        "zstd" => vec![vec![c("zstd_mib", &[1]), c("zstd_mib", &[1, 1000]), c("zstd_mib", &[2]), c("zstd_mib", &[3]), c("zstd_mib", &[4]), c("zstd_mib", &[8]), c("zstd_default", &[])]],
        "fcdc" => {
            let all: Vec<u32> = vec![16, 17, 20, 22, 25, 32, 33, 34, 40, 46, 47, 48, 49];
            let mut v = vec![];
            for _ in 0..2 {
                let t = sparse64(r, &all, 6);
                let mut t2 = t.clone();
                t2[r.below(256)] ^= 1 << 46;
                let mut t3 = t.clone();
                for x in t3.iter_mut().skip(128) {
                    *x ^= 1 << 16;
                }
                let mut g: Vec<Cfg> = [[8i64, 20, 60], [9, 20, 60], [8, 21, 60], [8, 20, 61], [8, 60, 60], [0, 20, 60], [8, 20, 1 << 30]].iter().map(|a| c("fcdc_new", a).table("given", t.clone(), 0)).collect();
                g.push(c("fcdc_new", &[8, 20, 60]).table("given", t2, 0));
                g.push(c("fcdc_new", &[8, 20, 60]).table("given", t3, 0));
                for i in [0, 255] {
                    let mut t4 = t.clone();
                    t4[i] ^= 1 << 46;
                    g.push(c("fcdc_new", &[8, 20, 60]).table("given", t4, 0));
                }
                g.push(c("fcdc_new", &[8, 20, 60]).table("given", t, 0));
                v.push(g);
            }
            v
        }
        "buz" => {
            let t = rand32(r);
            let mut t2 = t.clone();
            t2[r.below(256)] ^= 1;
            let mk = |w: i64, m: i64, max: i64, s: i64, t: &Vec<u64>| c("buz_new", &[w, 0, m, max, s]).table("given", t.clone(), 0).hash_kind(3);
            vec![vec![mk(9, 15, 40, 0, &t), mk(10, 15, 40, 0, &t), mk(9, 7, 40, 0, &t), mk(9, 15, 41, 0, &t), mk(9, 15, 40, 3, &t), mk(9, 15, 40, 0, &t2), mk(9, 15, 40, 0, &t), mk(9, 15, 296, 0, &t)]]
        }
        _ => vec![],
    }
}
/// streams worth judging by the rule besides the generated ones
pub fn special(alg: &str, r: &mut Rng) -> Vec<(Cfg, Vec<u8>)> {
    let mut v = vec![];
    let cs = small(alg, r);
    for (i, c) in cs.iter().enumerate() {
        v.push((c.clone(), constant(150, 0)));
        v.push((c.clone(), constant(150, 255)));
        if i % 3 == 0 {
            v.push((c.clone(), ramp(600, 1, 0)));
            v.push((c.clone(), ramp(300, -1, 255)));
            v.push((c.clone(), alphabet(300, &[0, 255], r)));
        }
    }
    match alg {
        "mii" => {
            for w in 1..=6 {
                let c = Cfg::new("mii", "mii_w", &[w]);
                for k in 1..=10u8 {
                    // runs of every length, separated by equal bytes and by drops
                    let mut d = vec![];
                    for rep in 0..6u8 {
                        d.extend((0..k).map(|x| x + 3));
                        if rep % 2 == 0 {
                            d.push(k + 2);
                        } else {
                            d.push(0);
                        }
                    }
                    v.push((c.clone(), d));
                }
            }
            // a run can have up to 256 bytes
            for w in [31usize, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 191, 192, 193, 200, 253, 254, 255, 256, 257, 300] {
                let c = Cfg::new("mii", "mii_w", &[w as i64]);
                let mut d = vec![];
                for k in [w - 1, w, w + 1, w + 1, w + 2, 256] {
                    let k = k.min(256);
                    let from = r.below(257 - k);
                    d.extend((0..k).map(|x| (from + x) as u8));
                    d.extend(vec![(from + k - 1) as u8; r.below(3)]);
                }
                v.push((c, d));
            }
        }
        "ram" => {
            for w in [1i64, 5, 50, 300] {
                let c = Cfg::new("ram", "ram_w", &[w]);
                let n = w as usize;
                for k in [n.saturating_sub(1), n, n + 1, n + 2] {
                    let mut d = vec![];
                    for m in [200u8, 7, 255] {
                        let mut x = vec![m / 2; k];
                        if k > 0 {
                            x[r.below(k)] = m;
                        }
                        x.push(m);
                        x.push(m - 1);
                        x.push(m);
                        d.extend(x);
                    }
                    v.push((c.clone(), d));
                }
            }
        }
        _ => {}
    }
    // sizes just below a power of two: whatever happens to a chunk there (a buffer fills, a page
    // or a block of the caller's ends) is followed by an edge that still depends on the bytes before
    if matches!(alg, "zpaq" | "fcdc" | "ram") {
        for k in 6..=13 {
            let far = r.range(4, 20) as i64;
            for j in [1, 2, 3, far].into_iter().take(if k > 11 { 4 } else { 2 }) {
                let m = (1i64 << k) - j;
                let c = match alg {
                    "zpaq" => Cfg::new("zpaq", "zpaq_full", &[r.range(3, 6) as i64, 1, m, 0, 0]),
                    "fcdc" => Cfg::new("fcdc", "fcdc_new", &[m, m + 40, m + 2000]).table("given", rand64(r), 0),
                    _ => Cfg::new("ram", "ram_w", &[m]),
                };
                let d = alphabet((4usize << k) + 600, &[3, 77, 200], r);
                v.push((c, d));
            }
        }
    }
    v
}

//! Streams of more than 2^32 bytes, never kept whole: chunks beyond 4 GiB, and totals
//! beyond 4 GiB. Also instances that move between threads.
use crate::alg::*;
use crate::gen::*;
use crate::rec::*;
use crate::rng::Rng;
use crate::scen::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::mpsc::channel;
use std::time::{Duration, Instant};

const MIB: u64 = 1 << 20;

/// What a far job saw: the first edge of a chunker fed with nothing but `b`s, or how
/// many bytes it took without one.
fn first_edge(c: &Cfg, b: u8, find: bool, most: u64, r: &mut Rng) -> (i64, i64, i64) {
    let res = catch_unwind(AssertUnwindSafe(|| -> (u64, bool) {
        let a = c.build();
        let win = if c.alg == "gzip" { look_back(c) } else { 0 };
        let buf = vec![b; win + (5 << 20)];
        let mut pos = 0u64;
        if find {
            let mut s = a.srch();
            let mut kept = 0usize;
            while pos < most {
                let n = kept + r.range(1 << 16, 4 << 20);
                let (e, d) = s.find(&buf[..n]);
                if let Some(e) = e {
                    return (pos + e as u64, true);
                }
                if d > n || n - d > win + (1 << 20) {
                    return (pos, false);
                }
                pos += d as u64;
                kept = n - d;
            }
        } else {
            let mut s = a.inc();
            while pos < most {
                let n = r.range(1 << 16, 4 << 20);
                if let Some(e) = s.push(&buf[..n]) {
                    return (pos + e as u64, true);
                }
                pos += n as u64;
            }
        }
        (pos, false)
    }));
    match res {
        Err(_) => (PANIC, 0, 0),
        Ok((_, false)) => (NONE, 0, 0),
        Ok((p, true)) => (1, (p / MIB) as i64, (p % MIB) as i64),
    }
}

/// The edges of every repetition of a stretch of data that ends in an edge: which of the
/// lists each has. The first repetition is that of a new instance.
struct Totals {
    lists: Vec<Vec<i64>>,
    which: Vec<usize>,
    panicked: bool,
    /// an index outside the slice
    range: bool,
}
fn totals(c: &Cfg, seed: u64, find: bool, most: u64) -> Totals {
    let mut t = Totals { lists: vec![], which: vec![], panicked: false, range: false };
    let mut r = Rng::new(seed);
    let n = 16 << 20;
    let mut data: Vec<u8> = Vec::with_capacity(2 * n + 8);
    while data.len() < n {
        data.extend(r.next().to_le_bytes());
    }
    let ok = catch_unwind(AssertUnwindSafe(|| {
        let a = c.build();
        // where the stretch ends: the last edge
        let mut last = 0usize;
        if find {
            let (mut s, mut base) = (a.srch(), 0);
            while let (Some(e), d) = s.find(&data[base..n]) {
                if base + e <= last {
                    return;
                }
                last = base + e;
                base += d;
            }
        } else {
            let mut i = a.inc();
            while let Some(e) = i.push(&data[last..n]) {
                if e == 0 && last > 0 {
                    return;
                }
                last += e;
            }
        }
        if last < 1 << 20 {
            return; // too few edges: nothing to compare
        }
        // the stretch without end: position x of the stream is data[x mod last], and a slice
        // may run over its end
        if c.alg == "fcdc" && !find {
            // the byte that decides the last edge begins the next chunk, where, being before
            // the minimum, it does not matter
            data[0] = data[last];
        }
        data.truncate(last);
        data.extend_from_within(..5 << 20);
        let mut cur: Vec<i64> = vec![];
        let mut rep = 0u64; // the repetition `cur` belongs to
        let mut base0 = 0u64; // where in the stream data[0] now lies
        let mut edge = |t: &mut Totals, cur: &mut Vec<i64>, at: u64| {
            while at > (rep + 1) * last as u64 {
                rep += 1;
                let k = t.lists.iter().position(|l| l == cur).unwrap_or(t.lists.len());
                if k == t.lists.len() {
                    t.lists.push(cur.clone());
                }
                t.which.push(k);
                cur.clear();
            }
            cur.push((at - rep * last as u64) as i64);
        };
        let (mut inc, mut srch) = (a.inc(), a.srch());
        let (mut base, mut hi) = (0usize, 0usize);
        // a code that finds edges without end, or keeps asking for more, does not get far
        let mut budget = 60_000_000u64;
        while base0 < most && budget > 0 && t.lists.len() < 5 {
            budget -= 1;
            if base >= last {
                base -= last;
                hi -= last;
                base0 += last as u64;
            }
            let n = hi - base;
            let (e, d) = if find {
                srch.find(&data[base..hi])
            } else {
                let e = inc.push(&data[base..hi]);
                (e, e.unwrap_or(n))
            };
            if d > n || e.map_or(false, |e| e > n) {
                t.range = true;
                return;
            }
            if let Some(e) = e {
                edge(&mut t, &mut cur, base0 + (base + e) as u64);
            }
            base += d;
            if e.is_none() {
                if hi - base > 1 << 19 {
                    break;
                }
                hi += r.range(1 << 16, 4 << 20);
            }
        }
        // repetitions over by now
        edge(&mut t, &mut cur, base0 + 1);
    }))
    .is_ok();
    t.panicked = !ok;
    t
}

/// A stream of `first`, many `b`s and an end.
#[derive(Clone)]
struct Long {
    first: u8,
    b: u8,
    bs: u64,
    end: std::sync::Arc<Vec<u8>>,
}
/// Its edges, relative to where the end begins (-1: before that).
fn tail_edges(c: &Cfg, l: &Long, find: bool, r: &mut Rng) -> Vec<i64> {
    let c0 = 1 + l.bs; // where the end begins
    let n = c0 + l.end.len() as u64;
    let res = catch_unwind(AssertUnwindSafe(|| {
        let a = c.build();
        const M: usize = 5 << 20;
        let mut first = vec![l.b; M];
        first[0] = l.first;
        let mut mid = vec![l.b; M];
        mid.extend(l.end.iter());
        let (mut inc, mut srch) = (a.inc(), a.srch());
        let (mut base, mut hi) = (0u64, 0u64);
        let mut edges = vec![];
        let mut budget = 200_000 + 3 * l.end.len();
        loop {
            // how much more arrives: near the end only little
            let left = c0.saturating_sub(hi);
            hi += if left > 9 << 20 {
                r.range(1 << 16, 3 << 20) as u64
            } else if left > 1 << 20 {
                r.range(1 << 12, 1 << 19) as u64
            } else if left > 0 && r.chance(1, 2) {
                left
            } else {
                left + r.below(40) as u64
            };
            hi = hi.min(n);
            loop {
                if budget == 0 {
                    return vec![STALL];
                }
                budget -= 1;
                let len = (hi - base) as usize;
                if len > M {
                    return vec![STALL];
                }
                let sl = if base == 0 && hi <= M as u64 {
                    &first[..len]
                } else {
                    // where in `mid` the slice is: all the same as long as it is constant
                    let at = if hi <= c0 { 0 } else { M - (c0 - base.min(c0)) as usize + (base - base.min(c0)) as usize };
                    &mid[at..at + len]
                };
                let (e, d) = if find {
                    srch.find(sl)
                } else {
                    let e = inc.push(sl);
                    (e, e.unwrap_or(len))
                };
                if d > len || e.map_or(false, |e| e > len) {
                    return vec![STALL];
                }
                if let Some(e) = e {
                    edges.push((base + e as u64).checked_sub(c0).map_or(-1, |x| x as i64));
                    if edges.len() > l.end.len() + 2 || edges[edges.len() - 1] < 0 {
                        return edges;
                    }
                }
                base += d as u64;
                if e.is_none() {
                    break;
                }
            }
            if hi == n {
                return edges;
            }
        }
    }));
    res.unwrap_or_else(|_| vec![PANIC])
}

/// Blocks of bytes which, repeated, leave the zpaq hash at zero at the end of each repetition.
const ZBLOCKS: &[&str] = &[
    "4d03974d4d97034d97034d72724d7272974d289728037228974d72972897032803284d4d4d97034d97032897727228972611375698",
    "2828287203724d4d97727297724d720372729772724d2897720372289728289772284d2897284d97034d727228034d2897037228284d9772590e280963",
    "722897287297724d284d97282828724d977297284d974d280303972828034d72030397280328287272724d03287203979703289797037203974d03ab22195603",
    "4d289772727297974d9703280303970372974d4d289772284d974d97979728032828280372724d4d974d28032803280328724d9797284d974d9797972872284d28280328974d4d2897030372034d9772284d4d97032803974d4d4d72d00a031cdb",
];

/// A stream that goes on repeating the last `len` bytes of `data`.
#[derive(Clone)]
struct Again {
    data: std::sync::Arc<Vec<u8>>,
    len: usize,
    most: u64,
}
/// Its first edge.
fn first_again(c: &Cfg, x: &Again, find: bool, r: &mut Rng) -> (i64, i64, i64) {
    const M: usize = 3 << 20;
    let res = catch_unwind(AssertUnwindSafe(|| -> Option<u64> {
        let a = c.build();
        let s = x.data.len() - x.len;
        let mut buf = x.data[..s].to_vec();
        while buf.len() < s + x.len + M {
            buf.extend(&x.data[s..]);
        }
        let (mut inc, mut srch) = (a.inc(), a.srch());
        let (mut pos, mut kept) = (0u64, 0usize);
        while pos < x.most {
            let at = if pos < s as u64 { pos as usize } else { s + ((pos - s as u64) % x.len as u64) as usize };
            let n = kept + r.range(1 << 16, 2 << 20);
            if n > M {
                return None;
            }
            let sl = &buf[at..at + n];
            let (e, d) = if find {
                srch.find(sl)
            } else {
                let e = inc.push(sl);
                (e, n)
            };
            if let Some(e) = e {
                return Some(pos + e as u64);
            }
            if d > n {
                return None;
            }
            pos += d as u64;
            kept = n - d;
        }
        None
    }));
    match res {
        Err(_) => (PANIC, 0, 0),
        Ok(None) => (NONE, 0, 0),
        Ok(Some(p)) => (1, (p / MIB) as i64, (p % MIB) as i64),
    }
}

enum Job {
    Again(Cfg, Again, bool),
    First(Cfg, u8, bool),
    Tail(Cfg, Long, bool),
    Total(Cfg, u64, bool),
}
enum Seen {
    First((i64, i64, i64)),
    Tail(Vec<i64>),
    Total(Totals),
}

impl Ctx {
    /// run the jobs on as many threads; the code under test may hang there
    fn jobs(&mut self, js: Vec<Job>, most: u64) -> Vec<Option<Seen>> {
        let (tx, rx) = channel();
        let n = js.len();
        for (k, j) in js.into_iter().enumerate() {
            let tx = tx.clone();
            let mut r = self.r.fork();
            std::thread::spawn(move || {
                let seen = match j {
                    Job::Again(c, x, find) => Seen::First(first_again(&c, &x, find, &mut r)),
                    Job::First(c, b, find) => Seen::First(first_edge(&c, b, find, most, &mut r)),
                    Job::Tail(c, l, find) => Seen::Tail(tail_edges(&c, &l, find, &mut r)),
                    Job::Total(c, seed, find) => Seen::Total(totals(&c, seed, find, most)),
                };
                tx.send((k, seen)).ok();
            });
        }
        let mut v: Vec<Option<Seen>> = (0..n).map(|_| None).collect();
        let until = Instant::now() + Duration::from_secs(400);
        for _ in 0..n {
            match rx.recv_timeout(until.saturating_duration_since(Instant::now())) {
                Ok((k, s)) => v[k] = Some(s),
                Err(_) => break,
            }
        }
        v
    }

    // -------------------------------------- C10, C11, C12, C21: chunks beyond 4 GiB
    pub fn far_sizes(&mut self, alg: &'static str) {
        if self.only.as_deref().map_or(false, |o| o != alg) {
            return;
        }
        let at = |k: i64| CAP + k; // places of 2^32 - 1, 2^32, 2^32 + 1, 2^32 + 16 in HUGE
        let t32 = rand32(&mut self.r);
        let cs: Vec<Cfg> = match alg {
            "buz" => vec![
                Cfg::new("buz", "buz_new", &[67, 0xffff, 0xffff, at(5), 0]).table("given", t32.clone(), 0).hash_kind(0),
                Cfg::new("buz", "buz_new", &[5, 0xffff, 0xffff, at(2), 0]).table("given", t32, 0).hash_kind(3),
            ],
            "fcdc" => vec![
                Cfg::new("fcdc", "fcdc_new", &[64, 70_000, at(4)]).table("gear64", vec![], 0),
                Cfg::new("fcdc", "fcdc_new", &[2, at(3), at(5)]).table("gear64", vec![], 0),
                Cfg::new("fcdc", "fcdc_new", &[at(4), at(4), at(5)]).table("gear64", vec![], 0),
                // every byte past the minimum matches
                Cfg::new("fcdc", "fcdc_new", &[at(4), at(5), at(5)]).table("given", vec![0; 256], 0),
            ],
            // only the sum of the whole window is a multiple of the modulus, 2^33
            "gzip" => vec![Cfg::new("gzip", "gzip_new", &[1 << 26, at(6)]), Cfg::new("gzip", "gzip_new", &[(1 << 26) + 5, at(6)])],
            "ram" => vec![Cfg::new("ram", "ram_w", &[at(2)]), Cfg::new("ram", "ram_w", &[at(5)])],
            "zpaq" => vec![Cfg::new("zpaq", "zpaq_full", &[32, 1, at(4), 1, at(5)]), Cfg::new("zpaq", "zpaq_full", &[32, 2, at(3), 2, at(5)])],
            _ => vec![],
        };
        let b = if alg == "gzip" { 128 } else { (self.r.byte() | 2) & 0xfe };
        let js = cs.iter().flat_map(|c| [false, true].map(|f| Job::First(c.clone(), b, f))).collect();
        let seen = self.jobs(js, (1 << 32) + 64 * MIB);
        for (k, c) in cs.iter().enumerate() {
            let mut s = Scenario::new("a chunk beyond 4 GiB", c, "free", 0);
            for find in 0..2 {
                let (res, q, p) = match &seen[2 * k + find] {
                    Some(Seen::First(x)) => *x,
                    _ => (STALL, 0, 0),
                };
                s.op(vec![11, find as i64, b as i64, q, p, res]);
            }
            self.out.add(s);
        }
    }

    // ------------- C22, C24: where zpaq's smallest and largest chunks of many MiB end
    /// `cs`: configurations, about where their smallest chunk ends, and, if they have one and
    /// it is to be looked at, about where the largest does
    fn zpaq_far(&mut self, cs: Vec<(Cfg, u64, Option<u64>)>) {
        if self.only.as_deref().map_or(false, |o| o != "zpaq") {
            return;
        }
        let mut runs: Vec<(Cfg, Again)> = vec![];
        for (c, low, high) in cs {
            let k = self.r.below(ZBLOCKS.len());
            let b: Vec<u8> = (0..ZBLOCKS[k].len() / 2).map(|i| u8::from_str_radix(&ZBLOCKS[k][2 * i..2 * i + 2], 16).unwrap()).collect();
            // the place that matches at the smallest size, or right before it
            for off in [0u64, 1] {
                let s = ((low - off) % b.len() as u64) as usize;
                let mut d = random(s, &mut self.r);
                for _ in 0..4 {
                    d.extend(&b);
                }
                runs.push((c.clone(), Again { data: std::sync::Arc::new(d), len: b.len(), most: low + 16 * MIB }));
            }
            if let Some(h) = high {
                let b = random(61, &mut self.r);
                let d = [&b[..], &b[..], &b[..], &b[..], &b[..]].concat();
                runs.push((c, Again { data: std::sync::Arc::new(d), len: b.len(), most: h + 16 * MIB }));
            }
        }
        let js = runs.iter().flat_map(|(c, x)| [false, true].map(|f| Job::Again(c.clone(), x.clone(), f))).collect();
        let seen = self.jobs(js, 0);
        for (k, (c, x)) in runs.iter().enumerate() {
            let mut s = self.scn("the same bytes again and again up to the smallest or largest chunk", c, "rule", &x.data);
            for find in 0..2 {
                let (res, q, p) = match &seen[2 * k + find] {
                    Some(Seen::First(x)) => *x,
                    _ => (STALL, 0, 0),
                };
                s.op(vec![14, find as i64, x.len as i64, q, p, res]);
            }
            self.out.add(s);
        }
    }
    pub fn zpaq_far_rule(&mut self) {
        let c = |a: &[i64]| Cfg::new("zpaq", "zpaq_full", a);
        let m = MIB as i64;
        self.zpaq_far(vec![
            (c(&[32, 1, 40 * m + 17, 1, 90 * m + 5]), 40 * MIB + 17, Some(90 * MIB)),
            (c(&[31, 2, 64 * m, 2, 70 * m]), 64 * MIB + 1, Some(70 * MIB)),
            (c(&[32, 1, CAP + 3, 0, 0]), 1 << 32, None),
        ]);
    }
    pub fn zpaq_far_derived(&mut self) {
        let c = |ctor: &'static str, a: &[i64]| Cfg::new("zpaq", ctor, a);
        let mut v = vec![];
        for f in [25i64, 27, 28, 29, 30, 31, 32] {
            let high = if f <= 29 || (self.k > 1 && f < 32) { Some(8128u64 << (f - 10)) } else { None };
            v.push((c("zpaq_frag", &[f]), 64 << (f - 10), high));
        }
        for (k, at) in [(1, 1u64 << 31), (2, (1 << 32) - 1), (3, 1 << 32), (6, 1 << 33), (12, 1 << 30), (13, (1 << 31) - 1)] {
            v.push((c("zpaq_max", &[CAP + k]), at / 64, if k == 12 || k == 2 { Some(at) } else { None }));
        }
        v.push((c("zpaq_max", &[700_000_000]), 10_937_500, Some(700_000_000)));
        for (k, at) in [(1, 1u64 << 31), (12, 1 << 30)] {
            v.push((c("zpaq_range", &[1, CAP + k, 0, 0]), at, None));
            v.push((c("zpaq_range", &[2, CAP + k, 1, CAP + 7]), at + 1, None));
        }
        self.zpaq_far(v);
    }

    // --------------------------- rules: what follows 2^32 bytes of which none is an edge
    pub fn far_tails(&mut self, alg: &'static str) {
        if self.only.as_deref().map_or(false, |o| o != alg) {
            return;
        }
        let huge = CAP + 6;
        let t32 = rand32(&mut self.r);
        let cs: Vec<Cfg> = match alg {
            "bup" => vec![Cfg::new("bup", "bup_default", &[]), Cfg::new("bup", "bup_window", &[self.r.range(20, 200) as i64])],
            "buz" => vec![
                Cfg::new("buz", "buz_new", &[self.r.range(20, 100) as i64, 0, 15, huge, 0]).table("given", t32.clone(), 0).hash_kind(0),
                Cfg::new("buz", "buz_new", &[67, 0, 127, huge, 9]).table("given", t32, 0).hash_kind(3),
            ],
            "gear" => vec![Cfg::new("gear", "gear_log2", &[4]), Cfg::new("gear", "gear_log2", &[7])],
            "fcdc" => vec![
                Cfg::new("fcdc", "fcdc_new", &[40, 80, huge]).table("given", sparse64(&mut self.r, &[16, 17, 32, 33, 47, 48], 6), 0),
                Cfg::new("fcdc", "fcdc_new", &[64, 4000, huge]).table("given", sparse64(&mut self.r, &[16, 17, 32, 33, 47, 48], 6), 0),
            ],
            "gzip" => vec![Cfg::new("gzip", "gzip_new", &[self.r.range(40, 200) as i64, 61]), Cfg::new("gzip", "gzip_new", &[300, 128])],
            "pigz" => vec![Cfg::new("pigz", "pigz_bits", &[4]), Cfg::new("pigz", "pigz_bits", &[8])],
            "mii" => vec![Cfg::new("mii", "mii_w", &[3]), Cfg::new("mii", "mii_w", &[100])],
            "ram" => vec![Cfg::new("ram", "ram_w", &[self.r.range(50, 300) as i64]), Cfg::new("ram", "ram_w", &[3])],
            "zstd" => vec![Cfg::new("zstd", "zstd_mib", &[1, 0]), Cfg::new("zstd", "zstd_mib", &[100, 0])],
            _ => vec![],
        };
        let mut runs = vec![];
        for (k, c) in cs.iter().enumerate() {
            let keep = look_back(c).max(match c.ctor {
                "fcdc_new" => c.a[1] as usize,
                "ram_w" => c.a[0] as usize,
                _ => 0,
            });
            let p = 2 * keep + 100;
            let a = build(c);
            // constants in which there is no edge
            let mut found = None;
            for _ in 0..40 {
                let b = self.r.below(if alg == "ram" { 100 } else { 256 }) as u8;
                let first = if alg == "ram" { b + 1 + self.r.byte() / 3 } else { self.r.byte() };
                let mut d = vec![b; 100_000];
                d[0] = first;
                if whole(&*a, &d, false).is_empty() && whole(&*a, &d, true).is_empty() {
                    found = Some((first, b));
                    break;
                }
            }
            let (first, b) = match found {
                Some(x) => x,
                None => continue,
            };
            for over in [true, false] {
                let mut end = stream(c, 3 * keep.min(1500) + 700, k + over as usize, &mut self.r);
                if alg == "mii" && k == 1 {
                    end = ramp(700, 1, self.r.below(256) as i32);
                }
                let bs = if over { (1 << 32) + self.r.below(keep + 1) as u64 } else { (1 << 32) - self.r.below(end.len()) as u64 };
                let l = Long { first, b, bs, end: std::sync::Arc::new(end) };
                let mut d = vec![first];
                d.extend(constant(p - 1, b));
                d.extend(l.end.iter());
                runs.push((c.clone(), l, p, std::sync::Arc::new(d)));
            }
        }
        let js = runs.iter().flat_map(|(c, l, _, _)| [false, true].map(|f| Job::Tail(c.clone(), l.clone(), f))).collect();
        let seen = self.jobs(js, 0);
        for (k, (c, l, p, d)) in runs.iter().enumerate() {
            let mut s = self.scn(&format!("after {} bytes without an edge", l.bs + 1), c, "rule", d);
            for find in 0..2 {
                let mut o = vec![13, find as i64, *p as i64];
                match &seen[2 * k + find] {
                    Some(Seen::Tail(e)) => o.extend(e),
                    _ => o.push(STALL),
                }
                s.op(o);
            }
            self.out.add(s);
        }
    }

    // ------------------------------------------- C04, C07: streams beyond 4 GiB
    pub fn far_totals(&mut self) {
        let mut cs: Vec<Cfg> = vec![];
        for alg in self.algs() {
            cs.push(match alg {
                "bup" => Cfg::new("bup", "bup_default", &[]),
                "buz" => Cfg::new("buz", "buz_nom", &[self.r.below(256) as i64]),
                "gear" => Cfg::new("gear", "gear_default", &[]),
                "fcdc" => Cfg::new("fcdc", "fcdc_default", &[]),
                "gzip" => Cfg::new("gzip", "gzip_default", &[]),
                "pigz" => Cfg::new("pigz", "pigz_default", &[]),
                "mii" => Cfg::new("mii", "mii_w", &[6]),
                "ram" => Cfg::new("ram", "ram_w", &[3000]),
                "zpaq" => Cfg::new("zpaq", "zpaq_frag", &[12]),
                _ => Cfg::new("zstd", "zstd_mib", &[1, 0]),
            });
        }
        let seed = self.r.next();
        let js = cs.iter().flat_map(|c| [false, true].map(|f| Job::Total(c.clone(), seed, f))).collect();
        let seen = self.jobs(js, (1 << 32) + 64 * MIB);
        for (k, c) in cs.iter().enumerate() {
            for find in 0..2 {
                let mut s = Scenario::new("a stream beyond 4 GiB, the same stretch again and again", c, "free", 0);
                s.op(vec![0, find, 0]);
                match &seen[2 * k + find as usize] {
                    Some(Seen::Total(t)) => {
                        s.lists = t.lists.iter().map(|l| { let mut v = vec![16 << 20]; v.extend(l); v }).collect();
                        // zstd begins with a window only after its first edge
                        let from = if c.alg == "zstd" { 1 } else { 0 };
                        for w in t.which.iter().skip(from) {
                            s.op(vec![7, t.which[from.min(t.which.len() - 1)] as i64 + 1, *w as i64 + 1, 1]);
                        }
                        if t.range {
                            s.op(if find == 0 { vec![2, 1, 1, 0, 1 << 30] } else { vec![3, 1, 1, 0, 1 << 30, 0] });
                        }
                        if t.panicked {
                            s.op(if find == 0 { vec![2, 1, 1, 0, PANIC] } else { vec![3, 1, 1, 0, PANIC, 0] });
                        }
                        self.out.meta.push(format!("far {} {} {} repetitions", c.alg, find, t.which.len()));
                    }
                    _ => s.op(if find == 0 { vec![2, 1, 1, 0, STALL] } else { vec![3, 1, 1, 0, STALL, 0] }),
                }
                self.out.add(s);
            }
        }
    }

    // --------------------------------- C01, C02, rules: more than 2^16 edges in a stream
    /// the densest of the small configurations, and a stream with 2^16 edges in it
    fn dense(&mut self, alg: &'static str) -> Option<(Cfg, Vec<u8>)> {
        let mut best: Option<(usize, Cfg, usize)> = None;
        for c in small(alg, &mut self.r.fork()) {
            let a = build(&c);
            for k in 0..3 {
                let mut r = Rng::new(k as u64);
                let e = whole(&*a, &stream(&c, 900, k, &mut r), false).len();
                if best.as_ref().map_or(true, |b| e > b.0) {
                    best = Some((e, c.clone(), k));
                }
            }
        }
        let (e, c, k) = best?;
        if e < 100 {
            return None;
        }
        let mut n = 66_500 * 900 / e + 2000;
        let a = build(&c);
        for _ in 0..4 {
            let d = stream(&c, n, k, &mut self.r);
            if whole(&*a, &d, false).len() > 65_700 {
                return Some((c, d));
            }
            n = n * 5 / 4;
        }
        None
    }
    pub fn many_edges(&mut self, alg: Option<&'static str>, apis: u8) {
        for a in self.algs() {
            if alg.map_or(false, |x| x != a) {
                continue;
            }
            let (c, d) = match self.dense(a) {
                Some(x) => x,
                None => continue,
            };
            let a = build(&c);
            let d = std::sync::Arc::new(d);
            let s = if alg.is_some() { self.scn("more than 2^16 edges", &c, "rule", &d) } else { self.wit("more than 2^16 edges", &c, &d) };
            let mut rec = Rec::new(s);
            let mut hows = vec![How::Whole];
            if alg.is_none() {
                hows.extend([How::Step(4096), How::Random(40)]);
            }
            for h in hows {
                let seed = self.r.next();
                self.runs(&mut rec, &*a, &d, &mut [Sched::new(h, seed)], apis);
            }
            self.out.meta.push(format!("dense {} {} bytes", c.text(), d.len()));
            self.out.add(rec.done());
        }
    }

    // ------------------------------------------------------- C13: between threads
    /// Instances of one configuration, each fed on a thread of its own at the same time;
    /// and instances that take every step on another thread.
    pub fn threads(&mut self) {
        for alg in self.algs() {
            let mut cs = small(alg, &mut self.r.fork());
            let pick = self.r.below(cs.len());
            cs.swap(0, pick);
            cs.truncate(3);
            let l = large(alg, &mut self.r.fork());
            cs.push(self.r.pick(&l));
            for (ci, c) in cs.into_iter().enumerate() {
                let n = if ci < 3 { 500 } else { 30_000 };
                let d = stream(&c, n, ci, &mut self.r);
                let other = stream(&c, n, ci + 1, &mut self.r);
                let mut s = Scenario::new("on several threads", &c, "free", n);
                for find in [false, true] {
                    let a = build(&c);
                    for data in [&d, &other] {
                        s.lists.push(whole(&*a, data, find));
                    }
                    let base = s.lists.len() as i64 - 1;
                    let mut insts: Vec<Moved> = (0..8).map(|k| Moved::new(&*a, find, if k % 3 == 2 { &other } else { &d }, self.r.fork())).collect();
                    // all at once
                    let go = std::sync::Barrier::new(4);
                    let (x, rest) = insts.split_at_mut(4);
                    let ok = std::thread::scope(|sc| {
                        let hs: Vec<_> = x.iter_mut().map(|m| { let go = &go; sc.spawn(move || { go.wait(); m.run(usize::MAX, if ci < 3 { 5 } else { 700 }) }) }).collect();
                        hs.into_iter().map(|h| h.join().is_ok()).collect::<Vec<_>>()
                    });
                    // a thread for each step
                    let mut ok2 = vec![true; rest.len()];
                    for _ in 0..60 {
                        for (k, m) in rest.iter_mut().enumerate() {
                            if ok2[k] && !m.done() {
                                ok2[k] = std::thread::scope(|sc| sc.spawn(|| m.run(1, if ci < 3 { 25 } else { 1500 })).join().is_ok());
                            }
                        }
                    }
                    for (k, m) in rest.iter_mut().enumerate() {
                        ok2[k] = ok2[k] && catch_unwind(AssertUnwindSafe(|| m.run(usize::MAX, 100))).is_ok();
                    }
                    s.op(vec![0, find as i64, 0]);
                    let id = find as i64 + 1;
                    for (k, m) in insts.iter().enumerate() {
                        if !(if k < 4 { ok[k] } else { ok2[k - 4] }) {
                            s.op(if find { vec![3, id, 1, 0, PANIC, 0] } else { vec![2, id, 1, 0, PANIC] });
                            continue;
                        }
                        s.lists.push(m.edges.clone());
                        s.op(vec![7, base + (k % 3 == 2) as i64, s.lists.len() as i64, 1]);
                    }
                }
                self.out.add(s);
            }
        }
    }
}

/// A chunker or search on its way through a stream, movable to another thread.
struct Moved<'a> {
    inc: Option<Box<dyn Inc>>,
    srch: Option<Box<dyn Srch>>,
    data: &'a [u8],
    base: usize,
    hi: usize,
    edges: Vec<i64>,
    r: Rng,
    budget: u64,
}
// the library's types are all free to move between threads; the boxes hide that
unsafe impl Send for Moved<'_> {}
impl<'a> Moved<'a> {
    fn new(a: &dyn Alg, find: bool, data: &'a [u8], r: Rng) -> Moved<'a> {
        Moved { inc: if find { None } else { Some(a.inc()) }, srch: if find { Some(a.srch()) } else { None }, data, base: 0, hi: 0, edges: vec![], r, budget: 400_000 }
    }
    fn done(&self) -> bool {
        self.base == self.hi && self.hi == self.data.len()
    }
    /// this many deliveries of about `mean` bytes
    fn run(&mut self, steps: usize, mean: usize) {
        let mut k = 0;
        while k < steps && self.budget > 0 {
            self.budget -= 1;
            let sl = &self.data[self.base..self.hi];
            let (e, d) = match (&mut self.inc, &mut self.srch) {
                (Some(i), _) => {
                    let e = i.push(sl);
                    (e, e.unwrap_or(sl.len()))
                }
                (_, Some(s)) => s.find(sl),
                _ => unreachable!(),
            };
            let n = sl.len();
            if d > n || e.map_or(false, |e| e > n) {
                self.budget = 0;
                self.edges.push(-1);
                return;
            }
            if let Some(e) = e {
                self.edges.push((self.base + e) as i64);
            }
            self.base += d;
            if e.is_none() {
                if self.hi == self.data.len() {
                    return;
                }
                self.hi = (self.hi + self.r.range(0, 2 * mean)).min(self.data.len());
                k += 1;
            }
        }
    }
}

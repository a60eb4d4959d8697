//! The scenarios recorded for each property.
use crate::alg::*;
use crate::gen::*;
use crate::rec::*;
use crate::rng::Rng;
use std::sync::Arc;

pub struct Ctx {
    pub out: Out,
    pub r: Rng,
    /// 1: quick; larger: that many times the work
    pub k: usize,
    pub only: Option<String>,
}

const PUSH: u8 = 1;
const FIND: u8 = 2;
const BOTH: u8 = 3;

/// Edges of a whole-stream run of a fresh instance of a fresh configuration (nothing is
/// recorded). Whatever went wrong shows up when the same run is recorded.
pub fn whole(a: &dyn Alg, data: &[u8], find: bool) -> Vec<i64> {
    let mut rec = Rec::new(Scenario::new("witness", &Cfg::new("none", "none", &[]), "free", data.len()));
    let mut s = Sched::new(How::Whole, 0);
    if find {
        rec.run_find(a, data, 0, &mut s).edges
    } else {
        rec.run_push(a, data, 0, &mut s).edges
    }
}
/// A constructor that panics ends the recording, with that as the behaviour recorded.
pub fn build(c: &Cfg) -> Box<dyn Alg> {
    let before = CURRENT.lock().unwrap().replace(("construction".to_string(), c.clone(), 0, None, None));
    let a = guarded(&[2, 1, 1, 0, STALL], || c.build()).unwrap_or_else(|| std::panic::panic_any("constructor"));
    *CURRENT.lock().unwrap() = before;
    a
}

/// Bytes unlike p, but so that a careless comparison of what they lead to may not tell.
fn alike(p: &[u8], c: &Cfg, r: &mut Rng) -> Option<Vec<u8>> {
    let n = p.len();
    if n == 0 {
        return None;
    }
    let mut q = p.to_vec();
    // near the end, where it still matters
    let back = 1 + r.below(look_back(c).clamp(4, 4000).min(n));
    let at = n - back.min(n);
    match r.below(9) {
        8 => {
            // the same, over a wider stretch and by more
            let (g, h) = (1 + r.below(back.max(3) / 3), 1 + r.below(back.max(3) / 3));
            if at + g + h >= n {
                return None;
            }
            let x = (1 + r.below(100)) as i16;
            for (k, x) in [(0, x), (g, -x), (h, -x), (g + h, x)] {
                q[at + k] = (q[at + k] as i16 + x).try_into().ok()?;
            }
        }
        0 => q[at] = r.byte(),
        1 if at + 1 < n => q.swap(at, at + 1),
        2 => {
            q.remove(0);
        }
        3 => q.insert(0, 0),
        4 => {
            q.drain(..r.below(n));
        }
        5 if at + 3 < n => {
            // the same sum, and the same sum of sums
            for (k, x) in [1i16, -1, -1, 1].iter().enumerate() {
                q[at + k] = (q[at + k] as i16 + x).try_into().ok()?;
            }
        }
        6 if at + 1 < n => {
            // the same cyclic polynomial where byte hashes are powers of two
            let (a, b) = (q[at], q[at + 1]);
            q[at] = b.wrapping_sub(1);
            q[at + 1] = a.wrapping_add(1);
        }
        _ => {
            let b = r.byte();
            for x in q.iter_mut().take(at + 1) {
                *x = b;
            }
        }
    }
    if q == p {
        return None;
    }
    Some(q)
}

impl Ctx {
    pub(crate) fn scn(&self, why: &str, c: &Cfg, mode: &'static str, data: &Arc<Vec<u8>>) -> Scenario {
        let mut s = Scenario::new(why, c, mode, data.len());
        s.data = Some(data.clone());
        s
    }
    pub(crate) fn wit(&self, why: &str, c: &Cfg, data: &Arc<Vec<u8>>) -> Scenario {
        let a = build(c);
        let mut s = self.scn(why, c, "wit", data);
        s.wp = whole(&*a, data, false);
        s.wf = whole(&*a, data, true);
        s
    }
    pub(crate) fn algs(&self) -> Vec<&'static str> {
        ALGS.iter().cloned().filter(|a| self.only.as_deref().map_or(true, |o| o == *a)).collect()
    }
    fn small_scheds(&mut self, c: &Cfg, e: &[i64]) -> Vec<Sched> {
        let us = |d: i64| -> Vec<usize> { e.iter().map(|x| (x + d).max(0) as usize).collect() };
        let mut v = vec![
            How::Whole,
            How::WholeThenEmpty,
            How::Step(1),
            How::Step(2),
            How::Step(3),
            How::Step(7),
            How::Random(3),
            How::Random(12),
            How::Random(60),
            How::FromEdge(1 << self.r.range(1, 6)),
            How::At(us(0)),
            How::At(us(-1)),
            How::At(us(1)),
            How::Dist(thresholds(c)),
        ];
        let mut near = us(0);
        near.extend(us(-1));
        near.extend(us(1));
        near.sort();
        v.push(How::At(near));
        v.into_iter().map(|h| Sched::new(h, self.r.next())).collect()
    }
    fn large_scheds(&mut self, c: &Cfg, e: &[i64]) -> Vec<Sched> {
        let us = |d: i64| -> Vec<usize> { e.iter().map(|x| (x + d).max(0) as usize).collect() };
        let mut near = us(0);
        near.extend(us(-1));
        near.sort();
        let v = vec![How::Whole, How::Step(1), How::Step(1009), How::Random(300), How::Random(9000), How::Random(9000), How::At(near), How::Dist(thresholds(c)), How::Step(256), How::Step(65536), How::Bursty(300), How::Bursty(5000), How::Step(self.r.range(2, 9)), How::FromEdge(4096), How::FromEdge(1 << self.r.range(4, 14))];
        v.into_iter().map(|h| Sched::new(h, self.r.next())).collect()
    }
    pub(crate) fn runs(&self, rec: &mut Rec, a: &dyn Alg, data: &[u8], scheds: &mut [Sched], apis: u8) {
        for s in scheds.iter_mut() {
            if apis & PUSH != 0 {
                rec.run_push(a, data, 0, s);
            }
            if apis & FIND != 0 {
                rec.run_find(a, data, 0, s);
            }
        }
    }
    /// length of a stream worth feeding to a large configuration
    fn large_len(&self, c: &Cfg) -> usize {
        let t = thresholds(c).into_iter().max().unwrap_or(0).max(look_back(c));
        match c.alg {
            "zstd" => 4_000,
            "mii" => 4_000,
            "bup" => 2 * t.min(100_000) + 3_000,
            _ => (t.min(150_000) * 5 / 4 + 20_000).min(200_000),
        }
    }
    /// streams for a large configuration, of its usual length and `more`: natural, and
    /// with chunks about as long as the look-back and longer
    fn large_streams(&mut self, c: &Cfg, more: usize, rep: usize) -> Vec<Arc<Vec<u8>>> {
        let n = self.large_len(c) + more;
        let flavours = if c.alg == "ram" { 3 } else { 1 };
        let mut v: Vec<_> = (0..flavours).map(|f| Arc::new(big_stream(c, n, [rep, 4, 5][f], &mut self.r))).collect();
        if let Some(d) = steered(c, n, &mut self.r) {
            v.push(Arc::new(d));
        }
        v
    }
    /// one of them
    fn any_stream(&mut self, c: &Cfg, n: usize, k: usize) -> Vec<u8> {
        if n < 5000 {
            return stream(c, n, k, &mut self.r);
        }
        if self.r.chance(1, 2) {
            if let Some(v) = steered(c, n, &mut self.r) {
                return v;
            }
        }
        big_stream(c, n, k, &mut self.r)
    }
    fn small_len(&self, c: &Cfg, k: usize) -> usize {
        match c.alg {
            "zstd" => [700, 150, 400][k % 3],
            "bup" => [600, 200, 400][k % 3],
            _ => [300, 90, 500, 35][k % 4],
        }
    }

    // ------------------------------------- streams for the specification to work on
    /// Short streams over small configurations, with the positions worth cutting at, for
    /// spec/Gen.tla: `kind` push, find, mix, iter, restart or clone.
    pub fn streams(&mut self, kind: &str) {
        let two = matches!(kind, "restart" | "clone" | "mix");
        for alg in self.algs() {
            if kind == "clone" && matches!(alg, "mii" | "zpaq" | "zstd") {
                continue; // no Clone
            }
            for rep in 0..self.k {
                let cs = small(alg, &mut self.r.fork());
                let pick = self.r.below(3);
                for (ci, c) in cs.into_iter().enumerate() {
                    if two && ci % 3 != pick {
                        continue;
                    }
                    let a = build(&c);
                    // the beginning of a longer stream, with a few edges in it
                    let long = stream(&c, if alg == "zstd" { 160 } else { 400 }, ci + rep, &mut self.r);
                    let e = whole(&*a, &long, kind == "find");
                    let third = e.get(if two { 1 } else { 2 }).map_or(0, |x| *x as usize);
                    let n = (third + self.r.range(1, 6)).clamp(if alg == "zstd" { 45 } else { 9 }, if alg == "zstd" { 120 } else { 200 });
                    let d = long[..n].to_vec();
                    let max = match kind {
                        "push" | "find" => 14,
                        "iter" => 6,
                        _ => 6,
                    };
                    let mut cuts: Vec<usize> = vec![];
                    if n <= max {
                        cuts.extend(1..n);
                    } else {
                        let mut near: Vec<usize> = vec![1, 2];
                        let mut from = 0;
                        for x in e.iter().take(4).map(|x| *x as usize) {
                            near.extend([x.saturating_sub(1), x, x + 1]);
                            near.extend(thresholds(&c).iter().map(|t| from + t));
                            from = x;
                        }
                        if e.is_empty() {
                            near.extend(thresholds(&c));
                        }
                        near.extend((0..4).map(|_| self.r.below(n)));
                        near.retain(|x| *x > 0 && *x < n);
                        near.sort();
                        near.dedup();
                        while near.len() >= max {
                            let k = self.r.below(near.len());
                            near.remove(k);
                        }
                        cuts = near;
                    }
                    cuts.push(n);
                    let mut s = self.scn(&format!("generated, {}", kind), &c, "rule", &Arc::new(d));
                    s.lists = vec![cuts.iter().map(|x| *x as i64).collect()];
                    self.out.add(s);
                }
            }
        }
    }

    // ------------------------------------------------------ C01, C02: any slicing
    pub fn slicing(&mut self, apis: u8) {
        for alg in self.algs() {
            let reps = self.k;
            for rep in 0..reps {
                for c in small(alg, &mut self.r.fork()) {
                    let nk = if alg == "zstd" { 2 } else { 3 };
                    for k in 0..nk {
                        let n = self.small_len(&c, k + rep);
                        let d = Arc::new(self.any_stream(&c, n, k + rep));
                        let s = self.wit("schedules", &c, &d);
                        let e = if apis & PUSH != 0 { s.wp.clone() } else { s.wf.clone() };
                        let mut sch = self.small_scheds(&c, &e);
                        let a = build(&c);
                        let mut rec = Rec::new(s);
                        self.runs(&mut rec, &*a, &d, &mut sch, apis);
                        self.out.add(rec.done());
                        if k == 0 {
                            self.all_slicings(&c, &d, &e, apis, if self.k > 1 { 8 } else { 6 });
                        }
                    }
                }
                for c in large(alg, &mut self.r.fork()) {
                    for d in self.large_streams(&c, 0, rep) {
                        let s = self.wit("schedules, large", &c, &d);
                        let e = if apis & PUSH != 0 { s.wp.clone() } else { s.wf.clone() };
                        let mut sch = self.large_scheds(&c, &e);
                        let a = build(&c);
                        let mut rec = Rec::new(s);
                        self.runs(&mut rec, &*a, &d, &mut sch, apis);
                        self.out.add(rec.done());
                    }
                }
            }
        }
        self.vast(apis);
    }
    /// streams of several MB, with slices as large
    fn vast(&mut self, apis: u8) {
        for alg in self.algs() {
            for k in 0..3 * self.k {
                let cs = large(alg, &mut self.r.fork());
                let c = self.r.pick(&cs);
                // the last kind of stream is longer than 2^24 without an edge, mostly
                let kind = if k % 3 == 2 { 3 } else { self.r.below(3) };
                let n = if kind == 3 { (17 << 20) + self.r.below(1 << 20) } else { self.r.range(3 << 20, 5 << 20) };
                let g = (kind, n, self.r.next());
                let d = Arc::new(vast(g));
                let a = build(&c);
                let mut s = Scenario::new("streams of several MB", &c, "wit", n);
                s.gen = Some(g);
                s.wp = whole(&*a, &d, false);
                s.wf = whole(&*a, &d, true);
                if s.wp.len() + s.wf.len() > 60_000 {
                    continue;
                }
                let m = n / 20;
                let mut hows = vec![How::Whole, How::Step(1 << 20), How::Random(m), How::Bursty(m)];
                if kind != 3 {
                    hows.extend([How::Step(65536), How::Random(m / 10)]);
                }
                let mut rec = Rec::new(s);
                for h in hows {
                    let seed = self.r.next();
                    self.runs(&mut rec, &*a, &d, &mut [Sched::new(h, seed)], apis);
                }
                self.out.add(rec.done());
            }
        }
    }
    /// every way to cut the bytes around some edge
    fn all_slicings(&mut self, c: &Cfg, d: &Arc<Vec<u8>>, e: &[i64], apis: u8, len: usize) {
        let a = build(c);
        let at = if e.is_empty() { self.r.below(d.len()) } else { e[self.r.below(e.len())] as usize };
        let off = at.saturating_sub(len * 2 / 3);
        // a short stream: the neighbourhood decides, but chunk starts must be kept
        let end = (off + len + 12).min(d.len());
        let d2 = Arc::new(d[..end].to_vec());
        let s = self.wit("every slicing around an edge", c, &d2);
        let mut rec = Rec::new(s);
        for m in 0..1u64 << len {
            let mut sch = [Sched::new(How::Mask(off, len, m), m)];
            self.runs(&mut rec, &*a, &d2, &mut sch, apis);
        }
        self.out.add(rec.done());
    }

    // -------------------------------------------------- C03: both interfaces agree
    pub fn interfaces(&mut self) {
        for alg in self.algs() {
            for rep in 0..2 * self.k {
                let mut cs = small(alg, &mut self.r.fork());
                let nsmall = cs.len();
                cs.extend(large(alg, &mut self.r.fork()));
                for (ci, c) in cs.into_iter().enumerate() {
                    if ci >= nsmall && rep >= self.k {
                        continue;
                    }
                    for k in 0..if ci < nsmall { 4 } else { 1 } {
                        let n = if ci < nsmall { self.small_len(&c, k + rep) * 3 } else { self.large_len(&c) };
                        let mut d = if ci < nsmall { stream(&c, n, k + rep, &mut self.r) } else { self.any_stream(&c, n, k + rep) };
                        // FastCDC: whole streams agree only where no edge is hash-decided
                        let mut cc = c.clone();
                        if alg == "fcdc" && k == 3 && ci < nsmall {
                            cc = nomatch_fcdc(&c);
                            d = stream(&cc, n, k, &mut self.r);
                        }
                        let d = Arc::new(d);
                        self.pair(&cc, &d, alg == "fcdc" && !(k == 3 && ci < nsmall));
                    }
                }
            }
        }
    }
    fn pair(&mut self, c: &Cfg, d: &Arc<Vec<u8>>, side: bool) {
        let a = build(c);
        let mut s = self.scn("whole stream on both interfaces", c, "free", d);
        let n = d.len() as i64;
        let mut rec = Rec::new(s.clone());
        let (e, ok1, f, ok2);
        {
            let mut w = Sched::new(How::Whole, 0);
            let p = rec.run_push(&*a, d, 0, &mut w);
            let q = rec.run_find(&*a, d, 0, &mut w);
            e = p.edges;
            ok1 = p.ok;
            f = q.edges;
            ok2 = q.ok;
        }
        s = rec.done();
        if !side {
            let lst = |e: &Vec<i64>, ok: bool| {
                let mut v = vec![n];
                v.extend(e.iter());
                if !ok {
                    v.push(PANIC);
                }
                v
            };
            s.lists.push(lst(&e, ok1));
            s.lists.push(lst(&f, ok2));
            s.ops.push(vec![7, 1, 2, 1]);
        } else {
            // the first edge from every chunk start of either interface
            let mut starts: Vec<i64> = e.iter().chain(f.iter()).cloned().chain(std::iter::once(0)).filter(|x| *x < n).collect();
            starts.sort();
            starts.dedup();
            let lim = 60 * self.k;
            while starts.len() > lim {
                let i = self.r.below(starts.len());
                starts.remove(i);
            }
            for st in starts {
                let p = whole(&*a, &d[st as usize..], false).first().map_or(0, |x| x + st);
                let q = whole(&*a, &d[st as usize..], true).first().map_or(0, |x| x + st);
                s.ops.push(vec![10, st, n - st, p, q]);
                s.calls += 2;
            }
        }
        self.out.add(s);
    }

    // ------------------------------------------------------- C04: the call contract
    pub fn contract(&mut self) {
        for alg in self.algs() {
            for rep in 0..self.k {
                let mut cs = small(alg, &mut self.r.fork());
                let ns = cs.len();
                cs.extend(degenerate(alg, &mut self.r.fork()));
                cs.extend(huge(alg, &mut self.r.fork()));
                let nd = cs.len();
                cs.extend(large(alg, &mut self.r.fork()));
                for (ci, c) in cs.into_iter().enumerate() {
                    let lens: Vec<usize> = if ci < ns {
                        vec![0, 1, self.small_len(&c, rep), 60]
                    } else if ci < nd {
                        vec![0, 1, 2, 3, 300]
                    } else {
                        vec![self.large_len(&c)]
                    };
                    for (k, n) in lens.into_iter().enumerate() {
                        let d = Arc::new(self.any_stream(&c, n, k + rep));
                        let s = self.scn("contract", &c, "free", &d);
                        let mut sch = if ci < nd { self.small_scheds(&c, &[]) } else { self.large_scheds(&c, &[]) };
                        let a = build(&c);
                        let mut rec = Rec::new(s);
                        self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
                        for st in [false, true] {
                            let mut i = rec.new_inc(&*a, 0);
                            rec.iter(&mut i, &d, n, st, usize::MAX, st);
                        }
                        // empty calls before, between and after everything
                        let mut i = rec.new_inc(&*a, 0);
                        for _ in 0..2 {
                            rec.push(&mut i, &d, 0);
                        }
                        rec.push(&mut i, &d, n / 2);
                        for _ in 0..2 {
                            rec.push(&mut i, &d, 0);
                        }
                        rec.push(&mut i, &d, n);
                        for _ in 0..3 {
                            rec.push(&mut i, &d, 0);
                        }
                        let mut i = rec.new_srch(&*a, 0);
                        for p in [0, 0, n / 2, n / 2, n, n, n] {
                            rec.find_all(&mut i, &d, p);
                        }
                        self.out.add(rec.done());
                    }
                }
            }
        }
    }

    // ------------------------------------------------- C05, C06: slice iterators
    pub fn iterators(&mut self, parts: bool) {
        for alg in self.algs() {
            for rep in 0..2 * self.k {
                let mut cs = small(alg, &mut self.r.fork());
                let ns = cs.len();
                if rep < self.k {
                    cs.extend(large(alg, &mut self.r.fork()));
                }
                for (ci, c) in cs.into_iter().enumerate() {
                    let lens: Vec<usize> = if ci < ns { vec![self.small_len(&c, rep), self.small_len(&c, rep) * 4, rep % 4] } else { vec![self.large_len(&c)] };
                    for (k, n) in lens.into_iter().enumerate() {
                        let d = Arc::new(self.any_stream(&c, n, k + rep));
                        let s = self.wit("iterators", &c, &d);
                        let e = s.wp.clone();
                        let a = build(&c);
                        let mut rec = Rec::new(s);
                        // how far the buffers reach
                        let mut ends = vec![n, n / 2, self.r.range(0, n), 0];
                        for x in e.iter().take(3).chain(e.iter().rev().take(2)) {
                            let x = *x as usize;
                            ends.extend([x.saturating_sub(1), x, (x + 1).min(n)]);
                        }
                        ends.sort();
                        ends.dedup();
                        if k == 0 || n < 5000 {
                            for strict in if parts { vec![false, true] } else { vec![false] } {
                                let (m, k) = (n - self.r.below(n / 3 + 1), self.r.below(e.len().min(6) + 2));
                                rec.iter_ways(&*a, &d, m, strict, k);
                            }
                        }
                        if !parts {
                            for m in ends {
                                let mut i = rec.new_inc(&*a, 0);
                                rec.iter(&mut i, &d, m, false, usize::MAX, false);
                            }
                        } else {
                            for x in (1..ends.len()).rev() {
                                let y = self.r.below(x + 1);
                                ends.swap(x, y);
                            }
                            for m in ends {
                                if rec.s.ops.len() > 6000 {
                                    break;
                                }
                                let mut stops = vec![usize::MAX, 0, 1, 2];
                                stops.push(e.iter().filter(|x| **x <= m as i64).count());
                                stops.push(self.r.below(e.len() + 2));
                                stops.sort();
                                stops.dedup();
                                if n > 5000 && stops.len() > 2 {
                                    let i = self.r.below(stops.len() - 1);
                                    stops = stops[i..i + 2].to_vec();
                                }
                                for stop in stops {
                                    for st in [true, false] {
                                        let take = self.r.chance(1, 2);
                                        let mut i = rec.new_inc(&*a, 0);
                                        rec.iter(&mut i, &d, m, st, stop, take);
                                        // go on with what is left and later data
                                        let mut sch = Sched::new(How::Random((n / 5).max(2)), self.r.next());
                                        rec.feed(&mut i, &d, &mut sch);
                                    }
                                }
                            }
                            // one iterator after the other on the same chunker, pushes between
                            for mean in [n / 9 + 2, n / 3 + 2] {
                                let mut i = rec.new_inc(&*a, 0);
                                for _ in 0..40 {
                                    if !i.ok || i.pos >= n {
                                        break;
                                    }
                                    let len = self.r.range(0, 2 * mean).min(n - i.pos);
                                    match self.r.below(5) {
                                        0 => rec.push(&mut i, &d, len),
                                        1 => rec.iter(&mut i, &d, len, self.r.chance(1, 2), self.r.below(3), self.r.chance(1, 2)),
                                        m => rec.iter(&mut i, &d, len, m == 2, usize::MAX, self.r.chance(1, 2)),
                                    }
                                }
                            }
                        }
                        self.out.add(rec.done());
                    }
                }
            }
        }
    }

    // --------------------------------------------------------- C07: restart at edges
    pub fn restarts(&mut self) {
        for alg in self.algs() {
            for rep in 0..2 * self.k {
                let mut cs = small(alg, &mut self.r.fork());
                let ns = cs.len();
                if rep < self.k {
                    cs.extend(large(alg, &mut self.r.fork()));
                }
                for (ci, c) in cs.into_iter().enumerate() {
                    for k in 0..if ci < ns { 2 } else { 1 } {
                        let n = if ci < ns { self.small_len(&c, k + rep) } else { self.large_len(&c) };
                        let d = Arc::new(self.any_stream(&c, n, k + rep));
                        let s = self.wit("restart at edges", &c, &d);
                        let a = build(&c);
                        let (e, f) = (s.wp.clone(), s.wf.clone());
                        let mut rec = Rec::new(s);
                        // a continuing instance, with a schedule of its own
                        let mean = if ci < ns { 9 } else { 5000 };
                        rec.run_push(&*a, &d, 0, &mut Sched::new(How::Random(mean), self.r.next()));
                        rec.run_find(&*a, &d, 0, &mut Sched::new(How::Random(mean), self.r.next()));
                        let pick = |e: &[i64], r: &mut Rng| -> Vec<usize> {
                            let mut v: Vec<usize> = e.iter().map(|x| *x as usize).collect();
                            if alg == "zstd" {
                                for x in e.iter().take(12) {
                                    let x = *x as usize;
                                    v.extend([x.saturating_sub(32), x.saturating_sub(33), x.saturating_sub(31), x + 1]);
                                }
                                v.extend((0..6).map(|_| r.below(n)));
                                v.retain(|x| *x > 0 && *x <= n);
                            }
                            let lim = if ci < ns { 16 } else { 6 };
                            while v.len() > lim {
                                let i = r.below(v.len());
                                v.remove(i);
                            }
                            v
                        };
                        for st in pick(&e, &mut self.r) {
                            let h = if self.r.chance(1, 2) { How::Whole } else { How::Random(mean) };
                            rec.run_push(&*a, &d, st, &mut Sched::new(h, self.r.next()));
                        }
                        for st in pick(&f, &mut self.r) {
                            let h = if self.r.chance(1, 2) { How::Whole } else { How::Random(mean) };
                            rec.run_find(&*a, &d, st, &mut Sched::new(h, self.r.next()));
                        }
                        self.out.add(rec.done());
                        if alg != "zstd" && ci < ns {
                            self.common_tail(&c, &d, &e, &f, n, k + rep);
                        }
                    }
                }
            }
        }
    }
    /// two streams that both have an edge right before a common tail
    fn common_tail(&mut self, c: &Cfg, d: &Arc<Vec<u8>>, e: &[i64], f: &[i64], n: usize, k: usize) {
        let a = build(c);
        let d2 = stream(c, n, k + 1, &mut self.r);
        let tail = stream(c, n, k + 2, &mut self.r);
        let mut s = self.scn("common tail after an edge", c, "free", d);
        for find in [false, true] {
            // FastCDC's incremental interface decides an edge by the byte after it
            if c.alg == "fcdc" && !find {
                continue;
            }
            let e1 = if find { f.to_vec() } else { e.to_vec() };
            let e2 = whole(&*a, &d2, find);
            for _ in 0..4 {
                if e1.is_empty() || e2.is_empty() {
                    continue;
                }
                let p = e1[self.r.below(e1.len())] as usize;
                let q = e2[self.r.below(e2.len())] as usize;
                let x = [&d[..p], &tail[..]].concat();
                let y = [&d2[..q], &tail[..]].concat();
                let l = s.lists.len() as i64;
                for z in [&x, &y] {
                    let mut v = vec![z.len() as i64];
                    v.extend(whole(&*a, z, find));
                    s.lists.push(v);
                }
                s.ops.push(vec![8, l + 1, l + 2, tail.len() as i64, 0]);
                s.calls += 2;
            }
        }
        if !s.ops.is_empty() {
            self.out.add(s);
        }
    }

    // ------------------------------------------------------- C08: bounded look-back
    pub fn lookback(&mut self) {
        let algs: Vec<&str> = self.algs().into_iter().filter(|a| ["bup", "buz", "gear", "gzip", "pigz", "zstd", "mii"].contains(a)).collect();
        let (mut live, mut idle) = (0u64, 0u64);
        for alg in algs {
            for rep in 0..3 * self.k {
                let mut cs = sparse(alg, &mut self.r.fork());
                let ns = cs.len();
                if rep < self.k {
                    cs.extend(large(alg, &mut self.r.fork()).into_iter().filter(|c| alg != "buz" || c.ctor == "buz_nom" || c.a[3] >= CAP));
                }
                for (ci, c) in cs.into_iter().enumerate() {
                    let a = build(&c);
                    let w = look_back(&c);
                    let n = if ci < ns { 4 * w + 400 } else { self.large_len(&c) };
                    let tail = stream(&c, n, rep, &mut self.r);
                    let mut s = self.scn("common tails", &c, "free", &Arc::new(tail.clone()));
                    for k in 0..if ci < ns { 6 } else { 2 } {
                        let head = |r: &mut Rng, k: usize| {
                            let m = match r.below(5) {
                                0 => 0,
                                1 => r.below(w + 2),
                                2 => w,
                                _ => r.below(2 * w + 300),
                            };
                            stream(&c, m, k, r)
                        };
                        let h1 = head(&mut self.r, k);
                        let mut h2 = head(&mut self.r, k + 1);
                        if self.r.chance(1, 3) && !h1.is_empty() {
                            // one byte far back
                            h2 = h1.clone();
                            let i = self.r.below(h2.len());
                            h2[i] ^= 1 << self.r.below(8);
                        }
                        let cut = self.r.below(tail.len() / 2);
                        let t = &tail[cut..];
                        for find in [false, true] {
                            let l = s.lists.len() as i64;
                            let mut both = vec![];
                            for h in [&h1, &h2] {
                                let x = [&h[..], t].concat();
                                let e = whole(&*a, &x, find);
                                both.push(e.iter().filter(|p| **p > h.len() as i64).map(|p| p - h.len() as i64).collect::<Vec<_>>());
                                let mut v = vec![x.len() as i64];
                                v.extend(e);
                                s.lists.push(v);
                            }
                            let vac = both.iter().any(|e| e.first().map_or(false, |x| *x <= w as i64)) || both.iter().all(|e| e.is_empty());
                            if vac {
                                idle += 1
                            } else {
                                live += 1
                            }
                            s.ops.push(vec![8, l + 1, l + 2, t.len() as i64, -1]);
                            s.calls += 2;
                        }
                    }
                    self.out.add(s);
                }
            }
        }
        // every parameter, on tails that end in a match or a near miss
        for alg in ["buz", "gear", "pigz", "gzip", "zstd"] {
            if self.only.as_deref().map_or(false, |o| o != alg) {
                continue;
            }
            for _ in 0..2 * self.k {
                for (c, d) in crate::craft::crafted_after(alg, false, true, &mut self.r) {
                    let w = look_back(&c);
                    if w > 3000 {
                        continue;
                    }
                    let a = build(&c);
                    // (the hash at the end of d is right only with nothing but d in the window)
                    let t = if alg == "zstd" { [&random(w + 1 + self.r.below(9), &mut self.r)[..], &d[..]].concat() } else { d };
                    let mut s = self.scn("common tails, crafted", &c, "free", &Arc::new(t.clone()));
                    for find in [false, true] {
                        let l = s.lists.len() as i64;
                        let mut both = vec![];
                        for k in 0..3 {
                            let m = [0, 1, w, w + 40, 200][self.r.below(5)] * k.min(1) + k;
                            let x = [&random(m, &mut self.r)[..], &t[..]].concat();
                            let e = whole(&*a, &x, find);
                            both.push(e.iter().filter(|p| **p > m as i64).map(|p| p - m as i64).collect::<Vec<_>>());
                            let mut v = vec![x.len() as i64];
                            v.extend(e);
                            s.lists.push(v);
                        }
                        for k in 1..3 {
                            let vac = [0, k].iter().any(|i| both[*i].first().map_or(false, |x| *x <= w as i64)) || [0, k].iter().all(|i| both[*i].is_empty());
                            if vac {
                                idle += 1
                            } else {
                                live += 1
                            }
                            s.ops.push(vec![8, l + 1, l + 1 + k as i64, t.len() as i64, -1]);
                        }
                        s.calls += 3;
                    }
                    self.out.add(s);
                }
            }
        }
        // large averages, on tails long enough to have edges all the same
        let top = if self.k > 1 { 25 } else { 22 };
        for alg in ["buz", "gear", "pigz", "zstd"] {
            if self.only.as_deref().map_or(false, |o| o != alg) {
                continue;
            }
            for e in 14..=top {
                let c = match alg {
                    "gear" => Cfg::new("gear", "gear_log2", &[e]),
                    "pigz" => Cfg::new("pigz", "pigz_bits", &[e]),
                    "zstd" => {
                        if e < 20 {
                            continue;
                        }
                        Cfg::new("zstd", "zstd_log2", &[e])
                    }
                    _ => {
                        let mut mask = 0u32;
                        while mask.count_ones() < e as u32 {
                            mask |= 1 << self.r.below(32);
                        }
                        let w = [3, 16, 31, 32, 33, 64, 67, 200][self.r.below(8)];
                        let t = rand32(&mut self.r);
                        Cfg::new("buz", "buz_new", &[w, (mask >> 16) as i64, (mask & 0xffff) as i64, 1 << 30, 0]).table("given", t, 0).hash_kind(0)
                    }
                };
                let w = look_back(&c);
                let a = build(&c);
                let t = random(6usize << e, &mut self.r);
                let mut s = Scenario::new("common tails, large average", &c, "free", 7usize << e);
                let mut first = [vec![], vec![]];
                for k in 0..3 {
                    // (the last as if the first had been given a longer history)
                    let m = [0, 1 + self.r.below(100), (1 << (e - 1)) + self.r.below(1 << (e - 1))][k];
                    let x = [&random(m, &mut self.r)[..], &t[..]].concat();
                    for find in [false, true] {
                        let mut v = vec![x.len() as i64];
                        v.extend(whole(&*a, &x, find));
                        let tail: Vec<i64> = v[1..].iter().filter(|p| **p > m as i64).map(|p| p - m as i64).collect();
                        s.lists.push(v);
                        let now = s.lists.len() as i64;
                        s.calls += 1;
                        if k == 0 {
                            first[find as usize] = tail;
                            continue;
                        }
                        let f = &first[find as usize];
                        if tail.is_empty() && f.is_empty() || tail.first().map_or(false, |x| *x <= w as i64) || f.first().map_or(false, |x| *x <= w as i64) {
                            idle += 1
                        } else {
                            live += 1
                        }
                        s.ops.push(vec![8, 1 + find as i64, now, t.len() as i64, -1]);
                    }
                }
                self.out.add(s);
            }
        }
        self.out.meta.push(format!("tail_pairs_with_edges {}", live));
        self.out.meta.push(format!("tail_pairs_vacuous {}", idle));
    }

    // -------------------------------------------------------- C09: bounded memory
    pub fn retention(&mut self) {
        for alg in self.algs() {
            for rep in 0..2 * self.k {
                let mut cs = small(alg, &mut self.r.fork());
                let ns = cs.len();
                if rep < self.k {
                    cs.extend(large(alg, &mut self.r.fork()));
                }
                for (ci, c) in cs.into_iter().enumerate() {
                    let w = look_back(&c);
                    let ds: Vec<Arc<Vec<u8>>> = if ci < ns {
                        (0..3).map(|k| { let n = 3 * w + self.small_len(&c, k + rep); Arc::new(self.any_stream(&c, n, k + rep)) }).collect()
                    } else {
                        self.large_streams(&c, w, rep)
                    };
                    for d in ds {
                        let s = self.wit("retention", &c, &d);
                        let e = s.wf.clone();
                        let a = build(&c);
                        let mut sch = if ci < ns { self.small_scheds(&c, &e) } else { self.large_scheds(&c, &e) };
                        // growth patterns around the window
                        for x in [w, w + 1, w.saturating_sub(1), 2 * w, w / 2 + 1] {
                            if x > 0 {
                                sch.push(Sched::new(How::Step(x), self.r.next()));
                            }
                        }
                        let mut rec = Rec::new(s);
                        self.runs(&mut rec, &*a, &d, &mut sch, FIND);
                        self.out.add(rec.done());
                    }
                }
            }
        }
    }

    // ------------------------------------------------------ C10..C12: chunk sizes
    pub fn sizes(&mut self, alg: &'static str) {
        // (a) streams of all kinds: sizes of all chunks
        for rep in 0..4 * self.k {
            let mut cs = small(alg, &mut self.r.fork());
            let ns = cs.len();
            cs.extend(sized(alg, &mut self.r.fork()));
            let nz = cs.len();
            if rep < 2 * self.k {
                cs.extend(large(alg, &mut self.r.fork()));
            }
            for (ci, c) in cs.into_iter().enumerate() {
                for k in 0..if ci < nz { 3 } else { 1 } {
                    let n = if ci < ns { self.small_len(&c, k + rep) * 4 } else if ci < nz { 1500 } else { self.large_len(&c) };
                    let d = Arc::new(if alg == "zpaq" && k == 1 { zpaq_dense(n, zpaq_avg(&c), &mut self.r) } else { stream(&c, n, k + rep, &mut self.r) });
                    let a = build(&c);
                    let s = self.scn("chunk sizes", &c, "free", &d);
                    let mut rec = Rec::new(s);
                    let mean = if ci < nz { 20 } else { 5000 };
                    let mut ls = vec![];
                    for how in [How::Whole, How::Random(mean), How::Dist(thresholds(&c)), How::Step(if ci < nz { 1 } else { 777 })] {
                        let sd = self.r.next();
                        ls.push(rec.run_push(&*a, &d, 0, &mut Sched::new(how.clone(), sd)));
                        ls.push(rec.run_find(&*a, &d, 0, &mut Sched::new(how, sd)));
                    }
                    let mut s = rec.done();
                    for (i, l) in ls.iter().enumerate() {
                        let mut v = vec![n as i64];
                        v.extend(&l.edges);
                        s.lists.push(v);
                        s.ops.push(vec![9, i as i64 + 1]);
                    }
                    self.out.add(s);
                }
            }
        }
        // (b) no match in the stream: every chunk the largest
        for rep in 0..2 * self.k {
            let mut cs = small(alg, &mut self.r.fork());
            cs.extend(sized(alg, &mut self.r.fork()));
            let ns = cs.len();
            cs.extend(large(alg, &mut self.r.fork()));
            for (ci, c) in cs.into_iter().enumerate() {
                let (c, f) = match forced(&c) {
                    Some(x) => x,
                    None => continue,
                };
                let n = 3 * f.min(200_000) + self.r.below(f.min(5000) + 3);
                let mut lens = vec![n];
                if ci < ns {
                    lens.extend([f, f + 1, f.saturating_sub(1), 2 * f, 2 * f - 1]);
                }
                for n in lens {
                    let d = Arc::new(nomatch_stream(&c, n, rep, &mut self.r));
                    let s = self.scn("no match: every chunk the largest", &c, "forced", &d);
                    let a = build(&c);
                    let e: Vec<i64> = (1..=(n / f.max(1)) as i64).map(|k| k * f as i64).collect();
                    let mut sch = if ci < ns { self.small_scheds(&c, &e) } else { self.large_scheds(&c, &e) };
                    let mut rec = Rec::new(s);
                    self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
                    self.out.add(rec.done());
                }
                // (c) no edge in a stream at most the minimum long
                if c.alg == "fcdc" {
                    let m = if c.ctor == "fcdc_default" { 2048 } else { c.a[0] as usize };
                    if m > 0 && m < 100_000 {
                        let mut cc = c.clone();
                        // a table whose every hash matches
                        cc.tabname = "given";
                        cc.ctor = "fcdc_new";
                        if c.ctor == "fcdc_default" {
                            cc.a = vec![2048, 8192, 65536];
                        }
                        cc.tab = vec![0; 256];
                        for n in [m, m - 1, 1.min(m)] {
                            let d = Arc::new(random(n, &mut self.r));
                            let s = self.scn("stream at most the minimum long", &cc, "forced", &d);
                            let a = build(&cc);
                            let mut sch = self.small_scheds(&cc, &[]);
                            let mut rec = Rec::new(s);
                            self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
                            self.out.add(rec.done());
                        }
                    }
                }
            }
        }
    }

    /// limits beyond 2^16 and 2^24 on streams without a match, which are not kept
    pub fn huge_sizes(&mut self, alg: &'static str) {
        if self.only.as_deref().map_or(false, |o| o != alg) {
            return;
        }
        let m = 1i64 << 24;
        let x = self.r.range(70_000, 3_000_000) as i64;
        let cs: Vec<Cfg> = match alg {
            "fcdc" => vec![(0, 5, m + 9), (64, 70_000, x), (m - 1, m, m + 1), (3, m + 5, 2 * m + 1)].into_iter().map(|(a, b, c)| Cfg::new("fcdc", "fcdc_new", &[a, b, c]).table("given", vec![1 << 16; 256], 0)).collect(),
            "buz" => [(3, m - 1), (64, m), (100, m + 9), (67, x), (1, 2 * m + 3)].iter().map(|(w, max)| Cfg::new("buz", "buz_new", &[*w, 0xffff, 0xffff, *max, 0]).table("given", vec![0; 256], 0).hash_kind(3)).collect(),
            "zpaq" => [(1, 32, 1, m + 7), (1, m - 3, 1, m - 2), (2, 70_000, 2, x), (0, 0, 2, 2 * m + 3)].iter().map(|(a, b, c, d)| Cfg::new("zpaq", "zpaq_full", &[32, *a, *b, *c, *d])).collect(),
            _ => vec![],
        };
        for c in huge(alg, &mut self.r.fork()) {
            // only those that nothing ends
            let (n, b) = (3_000, self.r.below(256) as u8);
            let never = match alg {
                "fcdc" => c.tab[0] == 1 << 16 && c.tab[7] == 1 << 16,
                "buz" => c.a[1] == 0xffff,
                _ => c.ctor == "zpaq_full" && c.a[0] == 32,
            };
            if !never {
                continue;
            }
            let a = build(&c);
            let d = if alg == "zpaq" { zpaq_avoid(n, (32, 1, 1 << 40), &mut self.r) } else { vec![b; n] };
            let mut s = Scenario::new("no match, limit beyond the stream", &c, "forced", n);
            if alg != "zpaq" {
                s.rep = Some((b, 1));
            }
            let mut rec = Rec::new(s);
            let mut sch = vec![Sched::new(How::Whole, 0), Sched::new(How::Random(50), self.r.next())];
            self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
            self.out.add(rec.done());
        }
        for c in cs {
            let a = build(&c);
            let f = match alg {
                "fcdc" => c.a[2] as usize,
                "buz" => c.a[3] as usize + 1,
                _ => zpaq_limit(&c),
            };
            let n = if f > 1 << 24 { f + f / 3 } else { 2 * f + 5 };
            let b = self.r.below(256) as u8;
            let d = if alg == "zpaq" { zpaq_avoid(n, zpaq_lim(&c), &mut self.r) } else { vec![b; n] };
            let mut s = Scenario::new("no match, huge limit", &c, "forced", n);
            if alg != "zpaq" {
                s.rep = Some((b, 1));
            }
            let mut rec = Rec::new(s);
            let mut sch = vec![Sched::new(How::Whole, 0), Sched::new(How::Random(n / 20), self.r.next()), Sched::new(How::At(vec![f - 1, f, f + 1]), 0)];
            self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
            self.out.add(rec.done());
        }
    }

    // ------------------------------------------------------------ C13: independence
    pub fn independence(&mut self) {
        let (mut eqs, mut nes) = (0u64, 0u64);
        for alg in self.algs() {
            for rep in 0..2 * self.k {
                let mut cs = small(alg, &mut self.r.fork());
                let ns = cs.len();
                if rep < self.k {
                    cs.extend(large(alg, &mut self.r.fork()));
                }
                if alg == "buz" && rep == 0 {
                    // byte hashes that are powers of two: windows with the same hash
                    let c = |w: i64, max: i64| Cfg::new("buz", "buz_new", &[w, 0, 3, max, 0]).table("given", (0..256).map(|x| 1 << (x % 32)).collect(), 0).hash_kind(3);
                    for c in [c(8, 100), c(20, 1 << 30)] {
                        self.equal_states(&c, 300, true, &mut eqs, &mut nes);
                    }
                }
                for (ci, c) in cs.into_iter().enumerate() {
                    let small = ci < ns;
                    let n = if small { self.small_len(&c, rep) } else { self.large_len(&c) };
                    let d = Arc::new(self.any_stream(&c, n, rep));
                    let other = stream(&c, n, rep + 1, &mut self.r);
                    self.interleave(&c, &d, &other, if small { 14 } else { 6000 }, small);
                    self.cfg_clone(&c, &d);
                    if alg == "mii" {
                        let s = self.scn("a chunker made into a search", &c, "rule", &d);
                        let mut rec = Rec::new(s);
                        self.converted(&mut rec, &*build(&c), &d);
                        self.out.add(rec.done());
                    }
                    if small || rep == 0 {
                        self.equal_states(&c, n.min(30_000), small, &mut eqs, &mut nes);
                    }
                }
                self.equal_configs(alg, &mut eqs, &mut nes);
            }
        }
        self.out.meta.push(format!("equal_pairs {}", eqs));
        self.out.meta.push(format!("unequal_pairs {}", nes));
    }
    /// several instances of one configuration, fed in turns, cloned midway, next to
    /// instances that chunk another stream
    fn interleave(&mut self, c: &Cfg, d: &Arc<Vec<u8>>, other: &[u8], mean: usize, small: bool) {
        let n = d.len();
        let s = self.wit("interleaved instances and clones", c, d);
        let a = build(c);
        let mut rec = Rec::new(s);
        let mut ps = vec![rec.new_inc(&*a, 0), rec.new_inc(&*a, 0)];
        let mut fs = vec![rec.new_srch(&*a, 0), rec.new_srch(&*a, 0)];
        // unrecorded: their only purpose is to disturb
        let mut noise = Rec::new(Scenario::new("noise", c, "free", other.len()));
        let mut np = noise.new_inc(&*a, 0);
        let mut nf = noise.new_srch(&*a, 0);
        let clones = if small { 4 } else { 2 };
        let mut made = (0, 0);
        let mut guard = 0;
        loop {
            guard += 1;
            let busy_p: Vec<usize> = (0..ps.len()).filter(|i| ps[*i].ok && ps[*i].pos < n).collect();
            let busy_f: Vec<usize> = (0..fs.len()).filter(|i| fs[*i].ok && fs[*i].hi < n).collect();
            if (busy_p.is_empty() && busy_f.is_empty()) || guard > 4000 {
                break;
            }
            match self.r.below(10) {
                0..=3 if !busy_p.is_empty() => {
                    let i = self.r.pick(&busy_p);
                    let len = self.r.range(0, 2 * mean);
                    rec.push(&mut ps[i], d, len);
                }
                4..=6 if !busy_f.is_empty() => {
                    let i = self.r.pick(&busy_f);
                    let end = fs[i].hi + self.r.range(0, 2 * mean);
                    if self.r.chance(1, 2) {
                        rec.find(&mut fs[i], d, end);
                    } else {
                        rec.find_all(&mut fs[i], d, end);
                    }
                }
                7 => {
                    let len = self.r.range(0, 2 * mean);
                    noise.push(&mut np, other, len);
                    let e = nf.hi + len;
                    noise.find_all(&mut nf, other, e);
                    if np.pos >= other.len() || !np.ok {
                        np = noise.new_inc(&*a, 0);
                    }
                    if nf.hi >= other.len() || !nf.ok {
                        nf = noise.new_srch(&*a, 0);
                    }
                }
                8 if !busy_p.is_empty() && made.0 < clones => {
                    let i = self.r.pick(&busy_p);
                    if let Some(x) = rec.clone_inc(&ps[i]) {
                        ps.push(x);
                        made.0 += 1;
                    } else if made.0 < 2 {
                        ps.push(rec.new_inc(&*a, 0));
                        made.0 += 1;
                    }
                }
                9 if !busy_f.is_empty() && made.1 < clones => {
                    let i = self.r.pick(&busy_f);
                    if let Some(x) = rec.clone_srch(&fs[i]) {
                        fs.push(x);
                        made.1 += 1;
                    } else if made.1 < 2 {
                        fs.push(rec.new_srch(&*a, 0));
                        made.1 += 1;
                    }
                }
                _ => {}
            }
        }
        for f in fs.iter_mut() {
            rec.find_all(f, d, n);
        }
        // the configuration itself has not changed
        rec.run_push(&*a, d, 0, &mut Sched::new(How::Whole, 0));
        rec.run_find(&*a, d, 0, &mut Sched::new(How::Whole, 0));
        for strict in [false, true] {
            let mut i = rec.new_inc(&*a, 0);
            rec.iter(&mut i, d, n, strict, usize::MAX, false);
        }
        self.out.add(rec.done());
    }
    /// a clone of the configuration, and one put in the place of another configuration
    fn cfg_clone(&mut self, c: &Cfg, d: &Arc<Vec<u8>>) {
        let s = self.wit("clone of a configuration", c, d);
        let a = build(c);
        let others = small(c.alg, &mut self.r.fork());
        let other = build(&self.r.pick(&others));
        let mut rec = Rec::new(s);
        for o in [None, Some(other)] {
            let b = match guarded(&[2, 1, 1, 0, STALL], || a.dup(o)) {
                Some(b) => b,
                None => {
                    rec.fail();
                    continue;
                }
            };
            rec.run_push(&*b, d, 0, &mut Sched::new(How::Whole, 0));
            rec.run_find(&*b, d, 0, &mut Sched::new(How::Whole, 0));
        }
        rec.run_push(&*a, d, 0, &mut Sched::new(How::Whole, 0));
        self.out.add(rec.done());
    }
    /// chunkers and searches that compare equal go on equally
    fn equal_states(&mut self, c: &Cfg, n: usize, small: bool, eqs: &mut u64, nes: &mut u64) {
        let a = build(c);
        {
            let (x, y) = (a.inc(), a.inc());
            let (f, g) = (a.srch(), a.srch());
            if x.same(&*y).is_none() && f.same(&*g).is_none() {
                return;
            }
        }
        let mut s = Scenario::new("equal chunkers and searches", c, "free", n);
        let d = stream(c, n, 0, &mut self.r);
        let mut prefixes: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], vec![1], vec![255], vec![2, 1], vec![1, 2], vec![0; look_back(c).min(5000)], vec![0; look_back(c).min(5000) + 1]];
        let e = whole(&*a, &d, false);
        for p in e.iter().take(3) {
            let p = *p as usize;
            prefixes.push(d[..p].to_vec());
            prefixes.push(d[..p.saturating_sub(1)].to_vec());
            prefixes.push([&d[..p], &[0u8][..]].concat());
        }
        for t in thresholds(c).into_iter().filter(|t| *t < 5000).take(6) {
            prefixes.push(vec![0; t]);
            prefixes.push(vec![7; t]);
        }
        let k = self.r.below(n + 1);
        prefixes.push(d[..k].to_vec());
        let mut tails: Vec<Vec<u8>> = (0..if small { 3 } else { 1 }).map(|k| stream(c, n, k + 1, &mut self.r)).collect();
        tails.push(vec![0; n]);
        tails.push(ramp(n, 1, 0));
        let max = if small { prefixes.len() } else { 8 };
        prefixes.truncate(max);
        for i in 0..prefixes.len() {
            for j in i + 1..prefixes.len() {
                for find in [false, true] {
                    for t in &tails {
                        let r = if find { self.go_on_find(&*a, &prefixes[i], &prefixes[j], t) } else { self.go_on_push(&*a, &prefixes[i], &prefixes[j], t) };
                        match r {
                            None => break,
                            Some((false, _, _)) => {
                                *nes += 1;
                                break;
                            }
                            Some((true, x, y)) => {
                                *eqs += 1;
                                let l = s.lists.len() as i64;
                                s.lists.push([vec![t.len() as i64], x].concat());
                                s.lists.push([vec![t.len() as i64], y].concat());
                                s.ops.push(vec![7, l + 1, l + 2, 1]);
                                s.calls += 2;
                            }
                        }
                    }
                }
            }
        }
        // a part of a stream, and one much like it, before the rest of that stream
        for m in 0..if small { 40 } else { 6 } {
            let d = if m % 3 == 0 { self.any_stream(c, n, m) } else { stream(c, n, m, &mut self.r) };
            let e = whole(&*a, &d, false);
            let k = match m % 4 {
                0 => self.r.below(d.len() + 1),
                1 => self.r.below(40.min(d.len()) + 1),
                _ => {
                    let b = if e.is_empty() { 0 } else { e[self.r.below(e.len())] as usize };
                    b + self.r.below(2 * look_back(c).min(2000) + 3)
                }
            }
            .min(d.len());
            let (p, t) = d.split_at(k);
            let q = match alike(p, c, &mut self.r) {
                Some(q) => q,
                None => continue,
            };
            for find in [false, true] {
                let r = if find { self.go_on_find(&*a, p, &q, t) } else { self.go_on_push(&*a, p, &q, t) };
                if let Some((eq, x, y)) = r {
                    if !eq {
                        *nes += 1;
                        continue;
                    }
                    *eqs += 1;
                    let l = s.lists.len() as i64;
                    s.lists.push([vec![t.len() as i64], x].concat());
                    s.lists.push([vec![t.len() as i64], y].concat());
                    s.ops.push(vec![7, l + 1, l + 2, 1]);
                    s.calls += 2;
                }
            }
        }
        if !s.ops.is_empty() {
            self.out.add(s);
        }
    }
    fn go_on_push(&self, a: &dyn Alg, p: &[u8], q: &[u8], t: &[u8]) -> Option<(bool, Vec<i64>, Vec<i64>)> {
        let run = |p: &[u8]| {
            let z = [p, t].concat();
            let mut rec = Rec::new(Scenario::new("equal", &Cfg::new("none", "none", &[]), "free", z.len()));
            let mut i = rec.new_inc(a, 0);
            rec.push(&mut i, &z, p.len());
            (rec, i, z)
        };
        let (mut r1, mut x, z1) = run(p);
        let (mut r2, mut y, z2) = run(q);
        let eq = match (&x.c, &y.c) {
            (Some(c), Some(d)) => c.same(&**d)?,
            _ => return None,
        };
        if !eq {
            return Some((false, vec![], vec![]));
        }
        // RollSum: the digests too
        let digests = |i: &IncInst| -> Vec<i64> {
            let mut c = match i.c.as_ref().and_then(|c| c.dup()) {
                Some(c) => c,
                None => return vec![],
            };
            t.iter().take(300).map_while(|b| c.roll(*b)).map(|d| d.0 as i64 - (1 << 31)).collect()
        };
        let (d1, d2) = (digests(&x), digests(&y));
        x.edges.clear();
        y.edges.clear();
        r1.push(&mut x, &z1, t.len());
        r2.push(&mut y, &z2, t.len());
        let mut e1: Vec<i64> = x.edges.iter().map(|e| e - p.len() as i64).collect();
        let mut e2: Vec<i64> = y.edges.iter().map(|e| e - q.len() as i64).collect();
        if d1 != d2 {
            e1.extend(d1);
            e2.extend(d2);
        }
        Some((true, e1, e2))
    }
    /// searches: equal only means something with the same bytes in the buffer
    fn go_on_find(&self, a: &dyn Alg, p: &[u8], q: &[u8], t: &[u8]) -> Option<(bool, Vec<i64>, Vec<i64>)> {
        let run = |p: &[u8]| {
            let z = [p, t].concat();
            let mut rec = Rec::new(Scenario::new("equal", &Cfg::new("none", "none", &[]), "free", z.len()));
            let mut i = rec.new_srch(a, 0);
            rec.find_all(&mut i, &z, p.len());
            (rec, i, z)
        };
        let (mut r1, mut x, z1) = run(p);
        let (mut r2, mut y, z2) = run(q);
        if z1[x.base.min(p.len())..p.len()] != z2[y.base.min(q.len())..q.len()] {
            return None;
        }
        let eq = match (&x.c, &y.c) {
            (Some(c), Some(d)) => c.same(&**d)?,
            _ => return None,
        };
        if !eq {
            return Some((false, vec![], vec![]));
        }
        x.edges.clear();
        y.edges.clear();
        r1.find_all(&mut x, &z1, z1.len());
        r2.find_all(&mut y, &z2, z2.len());
        Some((true, x.edges.iter().map(|e| e - p.len() as i64).collect(), y.edges.iter().map(|e| e - q.len() as i64).collect()))
    }
    /// configurations (and fresh instances of them) that compare equal chunk equally
    fn equal_configs(&mut self, alg: &'static str, eqs: &mut u64, nes: &mut u64) {
        let groups = neighbours(alg, &mut self.r.fork());
        for g in groups {
            let built: Vec<(Cfg, Box<dyn Alg>)> = g.into_iter().map(|c| { let a = build(&c); (c, a) }).collect();
            for i in 0..built.len() {
                for j in i + 1..built.len() {
                    let (ca, a) = &built[i];
                    let (cb, b) = &built[j];
                    let ce = a.same(&**b);
                    let ie = a.inc().same(&*b.inc());
                    if ce.is_none() && ie.is_none() {
                        continue;
                    }
                    if ce != Some(true) && ie != Some(true) {
                        *nes += 1;
                        continue;
                    }
                    let mut s = Scenario::new("equal configurations", ca, "free", 0);
                    for k in 0..4 {
                        let c = if k % 2 == 0 { ca } else { cb };
                        let n = if c.alg == "zstd" { 1200 } else { (thresholds(c).into_iter().max().unwrap_or(0) * 3 + 600).min(20_000) };
                        let d = stream(c, n, k, &mut self.r);
                        for find in [false, true] {
                            if find && ce != Some(true) {
                                continue;
                            }
                            *eqs += 1;
                            let l = s.lists.len() as i64;
                            s.lists.push([vec![n as i64], whole(&**a, &d, find)].concat());
                            s.lists.push([vec![n as i64], whole(&**b, &d, find)].concat());
                            s.ops.push(vec![7, l + 1, l + 2, 1]);
                            s.calls += 2;
                        }
                    }
                    s.why = format!("equal configurations: this one and {}", cb.text().replace(' ', ","));
                    self.out.add(s);
                }
            }
        }
    }

    // ----------------------------------------------------------- C14..C23: the rules
    pub fn rule(&mut self, alg: &'static str) {
        // bytes of rule-judged streams per repetition
        for rep in 0..self.k {
            for c in small(alg, &mut self.r.fork()).into_iter().chain(sized(alg, &mut self.r.fork())) {
                if let Some(d) = steered(&c, 600, &mut self.r) {
                    self.rule_one(&c, d, true);
                }
                for k in 0..5 {
                    let n = match alg {
                        "bup" => [900, 1500, 300, 900, 3000][k],
                        "zstd" => [1500, 600, 900, 300, 2500][k],
                        _ => [700, 700, 400, 1100, 120][k],
                    };
                    let d = if alg == "zpaq" && k == 3 { zpaq_dense(n, zpaq_avg(&c), &mut self.r) } else { stream(&c, n, k + rep, &mut self.r) };
                    self.rule_one(&c, d, true);
                }
            }
            for c in large(alg, &mut self.r.fork()) {
                if alg == "bup" && look_back(&c) < 2000 {
                    let d = stream(&c, 2 * look_back(&c) + 2_000, rep % 2, &mut self.r);
                    self.rule_one(&c, d, true);
                }
                let n = match alg {
                    "bup" => 2 * look_back(&c) + 6_000,
                    "zstd" => 4_000,
                    "mii" => 6_000,
                    _ => self.large_len(&c).min(110_000),
                };
                for f in if alg == "ram" { vec![rep, 4, 5] } else { vec![rep] } {
                    let d = big_stream(&c, n, f, &mut self.r);
                    self.rule_one(&c, d, false);
                }
                if let Some(d) = steered(&c, n.min(2 * look_back(&c) + 20_000), &mut self.r) {
                    self.rule_one(&c, d, false);
                }
            }
            for d in special(alg, &mut self.r) {
                let small = d.1.len() < 5000;
                self.rule_one(&d.0, d.1, small);
            }
            for c in huge(alg, &mut self.r.fork()) {
                for k in 0..2 {
                    let d = if alg == "gzip" && k == 0 { alphabet(200, &[0, 0, 0, 1, 128], &mut self.r) } else { stream(&c, 400, k + rep, &mut self.r) };
                    self.rule_brief(&c, d);
                }
            }
            for d in crate::craft::crafted(alg, self.k > 1, &mut self.r) {
                self.rule_brief(&d.0, d.1);
            }
        }
    }
    /// for many short streams
    fn rule_brief(&mut self, c: &Cfg, d: Vec<u8>) {
        let d = Arc::new(d);
        let s = self.scn("rule, crafted stream", c, "rule", &d);
        let a = build(c);
        let mut rec = Rec::new(s);
        let mut sch: Vec<Sched> = vec![Sched::new(How::Whole, 0), Sched::new(How::Random(9), self.r.next())];
        self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
        self.out.add(rec.done());
    }
    fn rule_one(&mut self, c: &Cfg, d: Vec<u8>, small: bool) {
        let d = Arc::new(d);
        let s = self.scn("rule", c, "rule", &d);
        let a = build(c);
        let mut rec = Rec::new(s);
        let mean = if small { 25 } else { 4000 };
        let mut sch: Vec<Sched> = vec![
            Sched::new(How::Whole, 0),
            Sched::new(How::Random(mean), self.r.next()),
            Sched::new(How::Dist(thresholds(c)), self.r.next()),
            Sched::new(How::Step(if small { 1 } else { 1023 }), self.r.next()),
            Sched::new(How::Step(1 << if small { self.r.range(1, 7) } else { self.r.range(3, 16) }), self.r.next()),
            Sched::new(How::Bursty(if small { 100 } else { 4000 }), self.r.next()),
            Sched::new(How::FromEdge(1 << if small { self.r.range(1, 7) } else { self.r.range(6, 14) }), self.r.next()),
        ];
        let round: std::collections::BTreeSet<usize> = thresholds(c).into_iter().filter(|t| *t > 2 && *t < 100_000).map(|t| t.next_power_of_two()).collect();
        for t in round {
            for _ in 0..2 {
                sch.push(Sched::new(How::FromEdge(t), self.r.next()));
            }
        }
        self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
        // deliveries that end a little after an edge
        let e = whole(&*a, &d, false);
        for far in [9, 9, if small { 20 } else { 80 }] {
            let at = e.iter().map(|x| *x as usize + self.r.below(far)).collect();
            let mut s = [Sched::new(How::At(at), self.r.next())];
            self.runs(&mut rec, &*a, &d, &mut s, BOTH);
        }
        let mut i = rec.new_inc(&*a, 0);
        rec.iter(&mut i, &d, d.len(), false, usize::MAX, false);
        if c.alg == "mii" {
            self.converted(&mut rec, &*a, &d);
        }
        self.out.add(rec.done());
    }
    /// chunkers fed for a while, then made into searches for the rest of the stream
    fn converted(&mut self, rec: &mut Rec, a: &dyn Alg, d: &[u8]) {
        for _ in 0..4 {
            let mut i = rec.new_inc(a, 0);
            let m = self.r.below(d.len() + 1);
            rec.push(&mut i, d, m);
            if let Some(mut f) = rec.convert(a, i) {
                while f.hi < d.len() && f.ok {
                    let e = f.hi + 1 + self.r.below(d.len() - f.hi);
                    rec.find_all(&mut f, d, e);
                }
            }
        }
    }

    // ------------------------------------------------------------ C24: constructors
    pub fn constructors(&mut self) {
        let deep = self.k > 1;
        let c = |alg: &'static str, ctor: &'static str, a: &[i64]| Cfg::new(alg, ctor, a);
        // defaults, with every way to make a chunker or a search
        let r = &mut self.r;
        let mut v: Vec<(Cfg, Vec<u8>)> = vec![
            (c("bup", "bup_default", &[]), bup_dense(3000, 64, 1, 2, r)),
            (c("bup", "bup_default", &[]), bup_dense(3000, 64, 1, 8, r)),
            (c("buz", "buz_nom", &[0]), random(50_000, r)),
            (c("buz", "buz_nom", &[77]), random(50_000, r)),
            (c("gear", "gear_default", &[]), random(70_000, r)),
            (c("fcdc", "fcdc_default", &[]), random(90_000, r)),
            (c("fcdc", "fcdc_default", &[]), markov(60_000, r)),
            (c("gzip", "gzip_default", &[]), random(60_000, r)),
            (c("pigz", "pigz_default", &[]), random(40_000, r)),
            (c("mii", "mii_default", &[]), mixed(3000, r)),
            (c("mii", "mii_default", &[]), ramp(700, 1, 3)),
            (c("zpaq", "zpaq_default", &[]), zpaq_dense(40_000, (16, 4096, 520_192), r)),
        ];
        for mib in [1i64, 2, 3, 4, 7, 8, 15, 16, 31, 33] {
            let cc = c("zstd", "zstd_mib", &[mib, if mib % 2 == 1 { 1_048_575 } else { 0 }]);
            for k in 0..2 {
                v.push((cc.clone(), stream(&cc, 900, k, r)));
            }
        }
        let zd = c("zstd", "zstd_default", &[]);
        for k in 0..4 {
            v.push((zd.clone(), stream(&zd, 1500, k, r)));
        }
        // one bit more or less than the configuration demands
        for (cc, bits) in [(zd.clone(), 22u32), (zd.clone(), 24), (c("zstd", "zstd_mib", &[1]), 19), (c("zstd", "zstd_mib", &[16]), 23)] {
            let h = zstd_hits(900, 4, r);
            v.push((cc, zstd_dense(900, bits, &h, r)));
        }
        for f in [10i64, 11, 12, 13, 14] {
            v.push((c("zpaq", "zpaq_frag", &[f]), zpaq_dense(1500usize << (f - 10), zpaq_avg(&c("zpaq", "zpaq_frag", &[f])), r)));
        }
        for m in [8i64, 9, 63, 64, 65, 127, 128, 200, 255, 256, 1000, 1023, 1024, 4095, 4096, 4097, 10_000, 32_768, 70_000] {
            let cc = c("zpaq", "zpaq_max", &[m]);
            let n = (3 * m as usize).clamp(400, 20_000);
            v.push((cc.clone(), zpaq_dense(n, zpaq_avg(&cc), r)));
            v.push((cc.clone(), random(n, r)));
        }
        for (lk, lo, hk, hi) in zranges() {
            let cc = c("zpaq", "zpaq_range", &[lk, lo, hk, hi]);
            let n = if lo > 3000 { 12_000 } else { 1500 };
            let avg = zpaq_avg(&cc);
            v.push((cc.clone(), zpaq_dense(n, avg, r)));
            v.push((cc.clone(), random(n, r)));
        }
        for cc in small("zpaq", r).into_iter().chain(small("gzip", r)).chain(small("pigz", r)).chain(small("mii", r)).chain(small("ram", r)).chain(small("gear", r)).chain(small("buz", r)).chain(small("fcdc", r)).chain(small("bup", r)) {
            let d = stream(&cc, 500, 0, r);
            v.push((cc, d));
        }
        if self.k > 1 {
            for b in 1..=31 {
                let cc = c("pigz", "pigz_bits", &[b]);
                v.push((cc.clone(), random(if b > 9 { 20_000 } else { 1000 }, r)));
                let cc = c("gear", "gear_log2", &[b]);
                v.push((cc.clone(), random(if b > 9 { 20_000 } else { 1000 }, r)));
            }
            for f in [15i64, 16, 17, 18] {
                v.push((c("zpaq", "zpaq_frag", &[f]), zpaq_dense(800usize << (f - 10), zpaq_avg(&c("zpaq", "zpaq_frag", &[f])), r)));
            }
        }
        v.extend(crate::craft::crafted("zpaq", deep, r));
        if let Some(o) = &self.only {
            v.retain(|x| x.0.alg == o);
        }
        for (cc, d) in v {
            let small = d.len() < 5000;
            let d = Arc::new(d);
            let s = self.scn("constructor", &cc, "rule", &d);
            let a = build(&cc);
            let mut rec = Rec::new(s);
            let mut sch = vec![Sched::new(How::Whole, 0), Sched::new(How::Random(if small { 30 } else { 4000 }), self.r.next())];
            self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
            // the other constructors of chunkers and searches
            if a.inc_alt().is_some() {
                let mut i = rec.inc_from(|| a.inc_alt().unwrap(), 0);
                rec.feed(&mut i, &d, &mut sch[1]);
            }
            if a.srch_alt().is_some() {
                let mut i = rec.srch_from(|| a.srch_alt().unwrap(), 0);
                rec.find_all(&mut i, &d, d.len() / 2);
                rec.find_all(&mut i, &d, d.len());
            }
            self.out.add(rec.done());
        }
        // largest chunks, on streams without a match
        let mut f: Vec<Cfg> = vec![c("zpaq", "zpaq_default", &[])];
        for x in if deep { 10..=19i64 } else { 10..=16 } {
            f.push(c("zpaq", "zpaq_frag", &[x]));
        }
        for m in [200i64, 1000, 1024, 4097, 70_000, 1_000_000] {
            f.push(c("zpaq", "zpaq_max", &[m]));
        }
        for (lk, lo, hk, hi) in zranges() {
            if hk > 0 {
                f.push(c("zpaq", "zpaq_range", &[lk, lo, hk, hi]));
            }
        }
        f.retain(|x| zpaq_limit(x) <= 2_000_000);
        for cc in f {
            if self.only.as_deref().map_or(false, |o| o != "zpaq") {
                continue;
            }
            let big = zpaq_limit(&cc);
            let n = 2 * big + big / 3 + 1;
            let d = Arc::new(zpaq_avoid(n, zpaq_avg(&cc), &mut self.r));
            let s = self.scn("constructor: largest chunk", &cc, "forced", &d);
            let a = build(&cc);
            let mut rec = Rec::new(s);
            let mut sch = vec![Sched::new(How::Whole, 0), Sched::new(How::Random(n / 20 + 3), self.r.next())];
            self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
            self.out.add(rec.done());
        }
        // constant streams longer than could be folded
        for (cc, b, n, probe) in [
            (c("buz", "buz_nom", &[0]), 0u8, 17_000_000usize, 300usize),
            (c("buz", "buz_nom", &[5]), 200, 34_000_000, 300),
            (c("fcdc", "fcdc_default", &[]), 0, 200_001, 8400),
            (c("fcdc", "fcdc_default", &[]), 255, 131_073, 8400),
            (c("fcdc", "fcdc_default", &[]), 97, 65_535, 8400),
        ] {
            if self.only.as_deref().map_or(false, |o| o != cc.alg) {
                continue;
            }
            let a = build(&cc);
            // a byte whose repetition never matches
            let b = (0..=255u8).map(|x| b.wrapping_add(x)).find(|x| whole(&*a, &vec![*x; probe], false).is_empty()).unwrap_or(b);
            let d = vec![b; n];
            let mut s = Scenario::new("constructor: constant stream", &cc, "rule", n);
            s.rep = Some((b, probe));
            let a = build(&cc);
            let mut rec = Rec::new(s);
            let mut sch = vec![Sched::new(How::Whole, 0), Sched::new(How::Random(n / 20), self.r.next())];
            self.runs(&mut rec, &*a, &d, &mut sch, BOTH);
            self.out.add(rec.done());
        }
    }

    // ---------------------------------------------------------------- C26: RollSum
    pub fn rolling(&mut self) {
        for rep in 0..2 * self.k {
            let mut cs = small("bup", &mut self.r.fork());
            let ns = cs.len();
            cs.extend(large("bup", &mut self.r.fork()));
            for (ci, c) in cs.into_iter().enumerate() {
                let w = look_back(&c);
                if w > 2000 && rep > 0 {
                    continue;
                }
                for k in 0..if ci < ns { 3 } else { 1 } {
                    let n = if ci < ns { 60 + 3 * w } else { (2 * w + 300).min(w + 4000) };
                    let d = stream(&c, n, k + rep, &mut self.r);
                    let d = Arc::new(d);
                    let mut s = self.scn("rolling", &c, "rule", &d);
                    s.why = "rolling and pushing".into();
                    let a = build(&c);
                    let mut rec = Rec::new(s);
                    // rolled byte by byte, all the way
                    let mut i = rec.new_inc(&*a, 0);
                    rec.roll(&mut i, &d, n);
                    // mixed, with clones
                    for _ in 0..3 {
                        let mut i = rec.new_inc(&*a, 0);
                        let mean = self.r.range(1, n / 4 + 2);
                        let mut g = 0;
                        while i.ok && i.pos < n && g < 400 {
                            g += 1;
                            let len = self.r.range(0, 2 * mean).min(n - i.pos);
                            if self.r.chance(1, 2) {
                                rec.roll(&mut i, &d, len);
                            } else {
                                rec.push(&mut i, &d, len);
                                rec.roll(&mut i, &d, 0);
                            }
                            if self.r.chance(1, 8) {
                                if let Some(mut c) = rec.clone_inc(&mut i) {
                                    // the copy goes its own way for a while
                                    let len = self.r.range(0, 2 * mean).min(n - c.pos);
                                    rec.push(&mut c, &d, len);
                                    let len = self.r.range(0, mean).min(n - c.pos);
                                    rec.roll(&mut c, &d, len);
                                }
                            }
                        }
                    }
                    self.out.add(rec.done());
                }
            }
        }
    }
}

//! Recording: every call into the implementation and what it returned.
use crate::alg::*;
use crate::rng::Rng;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub const NONE: i64 = -1;
pub const PANIC: i64 = -2;
pub const STALL: i64 = -3;

/// When the call in progress began (seconds since start, 0: no call), for the watchdog.
pub static CALL_START: AtomicU64 = AtomicU64::new(0);
/// Shape of the call in progress, as the op to record should it never return.
pub static CALL_OP: Mutex<Vec<i64>> = Mutex::new(Vec::new());
/// Scenario in progress: description, configuration, mode and input.
pub static CURRENT: Mutex<Option<(String, Cfg, usize, Option<Arc<Vec<u8>>>, Option<(u8, usize)>)>> = Mutex::new(None);

pub fn now() -> u64 {
    use std::time::Instant;
    static T: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_secs() + 1
}
pub fn guarded<T>(op: &[i64], f: impl FnOnce() -> T) -> Option<T> {
    *CALL_OP.lock().unwrap() = op.to_vec();
    CALL_START.store(now(), Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    CALL_START.store(0, Ordering::SeqCst);
    r
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub id: usize,
    pub why: String,
    pub cfg: Cfg,
    pub n: usize,
    pub mode: &'static str,
    /// the stream; part of the trace only where the specification needs it
    pub data: Option<Arc<Vec<u8>>>,
    pub rep: Option<(u8, usize)>,
    /// recipe of a stream too long to keep (gen::vast)
    pub gen: Option<(usize, usize, u64)>,
    pub wp: Vec<i64>,
    pub wf: Vec<i64>,
    pub lists: Vec<Vec<i64>>,
    pub ops: Vec<Vec<i64>>,
    pub calls: u64,
}

fn ints<T: std::fmt::Display>(v: &[T]) -> String {
    let mut s = String::with_capacity(v.len() * 4 + 2);
    s.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s += &x.to_string();
    }
    s.push(']');
    s
}

impl Scenario {
    pub fn new(why: &str, cfg: &Cfg, mode: &'static str, n: usize) -> Scenario {
        Scenario { id: 0, why: why.to_string(), cfg: cfg.clone(), n, mode, data: None, rep: None, gen: None, wp: vec![], wf: vec![], lists: vec![], ops: vec![], calls: 0 }
    }
    pub fn json(&self) -> String {
        let mut s = format!("{{\"id\":{},\"why\":\"{}\",\"cfg\":{},\"n\":{},\"mode\":\"{}\"", self.id, self.why, self.cfg.json(), self.n, self.mode);
        if let Some((b, probe)) = self.rep {
            s += &format!(",\"rep\":{},\"probe\":{}", b, probe);
        } else if self.mode == "rule" {
            s += &format!(",\"data\":{}", ints(self.data.as_ref().expect("data")));
        }
        if self.mode == "wit" {
            s += &format!(",\"wp\":{},\"wf\":{}", ints(&self.wp), ints(&self.wf));
        }
        let l: Vec<String> = self.lists.iter().map(|x| ints(x)).collect();
        s += &format!(",\"lists\":[{}]", l.join(","));
        let o: Vec<String> = self.ops.iter().map(|x| ints(x)).collect();
        s += &format!(",\"ops\":[{}]}}", o.join(","));
        s
    }
    /// the inputs of the scenario, from which it can be run again
    pub fn inputs(&self) -> String {
        let mut s = format!("S {} {} {} {}\nC {}\n", self.id, self.mode, self.n, self.why, self.cfg.text());
        if self.cfg.tabname == "given" {
            s += &format!("T {}\n", self.cfg.tab.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        }
        if let Some((b, probe)) = self.rep {
            s += &format!("R {} {} {}\n", b, self.n, probe);
        } else if let Some((k, n, seed)) = self.gen {
            s += &format!("G {} {} {}\n", k, n, seed);
        } else if let Some(d) = &self.data {
            s += "D ";
            for b in d.iter() {
                s += &format!("{:02x}", b);
            }
            s.push('\n');
        }
        s
    }
    /// rough cost of judging, in units of one rule step
    pub fn cost(&self) -> u64 {
        let d = if self.mode == "rule" && self.rep.is_none() { self.data.as_ref().map_or(0, |d| d.len() as u64) } else { 0 };
        let d = if self.cfg.alg == "fcdc" { 2 * d } else { d };
        let d = if self.cfg.alg == "zstd" || self.cfg.alg == "zpaq" { 2 * d } else { d };
        let l: u64 = self.ops.iter().map(|o| 4 + o.len() as u64 / 4).sum();
        d + l + (self.wp.len() + self.wf.len()) as u64 / 4 + 50
    }
    /// append an op, merging runs of identical calls that found nothing
    pub fn op(&mut self, o: Vec<i64>) {
        self.calls += 1;
        if let Some(p) = self.ops.last_mut() {
            let mergeable = match o[0] {
                2 => o[4] == NONE,
                3 => o[4] == NONE && o[5] > 0,
                _ => false,
            };
            if mergeable && p.len() == o.len() && p[0] == o[0] && p[1] == o[1] && p[3..] == o[3..] && p[2] < 1 << 20 {
                p[2] += o[2];
                return;
            }
        }
        self.ops.push(o);
    }
}

/// What a run of one instance found; `ok` is false when it panicked or misbehaved so
/// that it cannot be continued.
pub struct Run {
    pub edges: Vec<i64>,
    pub ok: bool,
}

/// A live instance inside a scenario.
pub struct IncInst {
    pub id: i64,
    /// where it was created, in the stream
    pub start: usize,
    pub c: Option<Box<dyn Inc>>,
    pub pos: usize,
    pub ok: bool,
    pub edges: Vec<i64>,
    pub budget: i64,
}
pub struct SrchInst {
    pub id: i64,
    /// where it was created, in the stream
    pub start: usize,
    pub c: Option<Box<dyn Srch>>,
    pub base: usize,
    pub hi: usize,
    pub ok: bool,
    pub edges: Vec<i64>,
    pub budget: i64,
    /// recent results at an unchanged position, to notice a search that does not move
    pub still: u32,
}

/// what an instance was fed before another is put in its place
const JUNK: [u8; 23] = [7, 0, 255, 1, 2, 3, 4, 5, 6, 7, 8, 200, 200, 200, 0, 0, 1, 255, 254, 128, 64, 32, 9];

pub struct Rec {
    pub s: Scenario,
    insts: i64,
    clones: usize,
}

impl Rec {
    pub fn new(s: Scenario) -> Rec {
        *CURRENT.lock().unwrap() = Some((s.why.clone(), s.cfg.clone(), s.n, s.data.clone(), s.rep));
        if let Ok(f) = std::env::var("RECORD_LOG") {
            std::fs::write(f, s.inputs()).ok();
        }
        Rec { s, insts: 0, clones: 0 }
    }
    fn way(&mut self) -> usize {
        self.clones += 1;
        self.clones % 3
    }
    /// a copy was asked for and did not come about
    pub fn fail(&mut self) {
        self.insts += 1;
        self.op(vec![0, 0, 0]);
        self.op(vec![2, self.insts, 1, 0, PANIC]);
    }
    fn op(&mut self, o: Vec<i64>) {
        self.s.op(o);
    }
    pub fn new_inc(&mut self, a: &dyn Alg, start: usize) -> IncInst {
        self.inc_from(|| a.inc(), start)
    }
    pub fn inc_from(&mut self, f: impl FnOnce() -> Box<dyn Inc>, start: usize) -> IncInst {
        self.insts += 1;
        self.op(vec![0, 0, start as i64]);
        let c = guarded(&[2, self.insts, 1, 0, STALL], f);
        let ok = c.is_some();
        if !ok {
            self.op(vec![2, self.insts, 1, 0, PANIC]);
        }
        IncInst { id: self.insts, start, c, pos: start, ok, edges: vec![], budget: 64 }
    }
    pub fn new_srch(&mut self, a: &dyn Alg, start: usize) -> SrchInst {
        self.srch_from(|| a.srch(), start)
    }
    pub fn srch_from(&mut self, f: impl FnOnce() -> Box<dyn Srch>, start: usize) -> SrchInst {
        self.insts += 1;
        self.op(vec![0, 1, start as i64]);
        let c = guarded(&[3, self.insts, 1, 0, STALL, 0], f);
        let ok = c.is_some();
        if !ok {
            self.op(vec![3, self.insts, 1, 0, PANIC, 0]);
        }
        SrchInst { id: self.insts, start, c, base: start, hi: start, ok, edges: vec![], budget: 64, still: 0 }
    }
    /// the chunker becomes a search that goes on where it stopped
    pub fn convert(&mut self, a: &dyn Alg, i: IncInst) -> Option<SrchInst> {
        if !i.ok {
            return None;
        }
        let c = a.convert(i.c?)?;
        self.insts += 1;
        self.op(vec![5, i.id]);
        Some(SrchInst { id: self.insts, start: i.start, c: Some(c), base: i.pos, hi: i.pos, ok: true, edges: i.edges, budget: 64, still: 0 })
    }
    pub fn clone_inc(&mut self, i: &IncInst) -> Option<IncInst> {
        let x = i.c.as_ref()?;
        let way = self.way();
        let r = guarded(&[2, i.id, 1, 0, STALL], || {
            if way == 0 {
                return x.dup();
            }
            // in place of an instance in another state, or of another configuration
            let mut o = if way == 1 { x.dup()? } else { other_than(&self.s.cfg).inc() };
            o.push(&JUNK);
            x.dup_into(o).or_else(|| x.dup())
        });
        let c = match r {
            Some(c) => c?,
            None => {
                self.fail();
                return None;
            }
        };
        self.insts += 1;
        self.op(vec![4, i.id]);
        Some(IncInst { id: self.insts, start: i.start, c: Some(c), pos: i.pos, ok: i.ok, edges: i.edges.clone(), budget: i.budget })
    }
    pub fn clone_srch(&mut self, i: &SrchInst) -> Option<SrchInst> {
        let x = i.c.as_ref()?;
        let way = self.way();
        let r = guarded(&[3, i.id, 1, 0, STALL, 0], || {
            if way == 0 {
                return x.dup();
            }
            let mut o = if way == 1 { x.dup()? } else { other_than(&self.s.cfg).srch() };
            o.find(&JUNK);
            x.dup_into(o).or_else(|| x.dup())
        });
        let c = match r {
            Some(c) => c?,
            None => {
                self.fail();
                return None;
            }
        };
        self.insts += 1;
        self.op(vec![4, i.id]);
        Some(SrchInst { id: self.insts, start: i.start, c: Some(c), base: i.base, hi: i.hi, ok: i.ok, edges: i.edges.clone(), budget: i.budget, still: i.still })
    }
    /// one call with data[pos..end]; true while the rest of the slice is to be passed again
    pub fn push_one(&mut self, i: &mut IncInst, data: &[u8], end: usize) -> bool {
        if !i.ok {
            return false;
        }
        let sl = &data[i.pos..end];
        let n = sl.len() as i64;
        let c = i.c.as_mut().unwrap();
        match guarded(&[2, i.id, 1, n, STALL], || c.push(sl)) {
            None => {
                i.ok = false;
                self.op(vec![2, i.id, 1, n, PANIC]);
                false
            }
            Some(None) => {
                self.op(vec![2, i.id, 1, n, NONE]);
                i.pos = end;
                false
            }
            Some(Some(e)) => {
                self.op(vec![2, i.id, 1, n, e.min(1 << 30) as i64]);
                if e > sl.len() {
                    i.ok = false;
                    return false;
                }
                i.pos += e;
                i.edges.push(i.pos as i64);
                i.budget -= 1;
                if i.budget < 0 {
                    i.ok = false;
                    self.op(vec![2, i.id, 1, n, STALL]);
                    return false;
                }
                // once the slice is used up, whether to make another, empty, call is the
                // schedule's business
                i.pos < end
            }
        }
    }
    /// feed data[pos..pos+len], continuing with the rest of the slice after every edge
    pub fn push(&mut self, i: &mut IncInst, data: &[u8], len: usize) {
        let end = (i.pos + len).min(data.len());
        i.budget += 2 * (end - i.pos) as i64 + 4;
        while self.push_one(i, data, end) {}
    }
    /// one search over data[base..end]; true while there may be more to find
    pub fn find(&mut self, i: &mut SrchInst, data: &[u8], end: usize) -> bool {
        if !i.ok {
            return false;
        }
        let end = end.max(i.hi).min(data.len());
        let sl = &data[i.base..end];
        let n = sl.len() as i64;
        i.budget += 2 * (end - i.hi) as i64 + if end > i.hi { 4 } else { 0 };
        let c = i.c.as_mut().unwrap();
        let r = guarded(&[3, i.id, 1, n, STALL, 0], || c.find(sl));
        match r {
            None => {
                i.ok = false;
                self.op(vec![3, i.id, 1, n, PANIC, 0]);
                false
            }
            Some((res, disc)) => {
                let rr = res.map_or(NONE, |x| x.min(1 << 30) as i64);
                self.op(vec![3, i.id, 1, n, rr, disc.min(1 << 30) as i64]);
                i.hi = end;
                if disc > sl.len() {
                    i.ok = false;
                    return false;
                }
                if let Some(e) = res {
                    if e > sl.len() {
                        i.ok = false;
                        return false;
                    }
                    i.edges.push((i.base + e) as i64);
                    i.budget -= 1;
                    i.still = if disc == 0 { i.still + 1 } else { 0 };
                    if e == 0 {
                        i.budget -= 4;
                    }
                }
                i.base += disc;
                if i.budget < 0 || i.still > 80 {
                    i.ok = false;
                    self.op(vec![3, i.id, 1, n, STALL, 0]);
                    return false;
                }
                res.is_some()
            }
        }
    }
    /// search until nothing more is found in data[..end]
    pub fn find_all(&mut self, i: &mut SrchInst, data: &[u8], end: usize) {
        while self.find(i, data, end) {}
    }
    pub fn iter(&mut self, i: &mut IncInst, data: &[u8], len: usize, strict: bool, stop: usize, take: bool) {
        if !i.ok {
            return;
        }
        let d = &data[i.pos..i.pos + len];
        let c = i.c.take().unwrap();
        let st = strict as i64;
        let r = guarded(&[6, i.id, len as i64, st, STALL, 0, 0], || c.iter(d, strict, stop, take));
        match r {
            None => {
                i.ok = false;
                self.op(vec![6, i.id, len as i64, st, PANIC, 0, 0]);
            }
            Some((o, c)) => {
                i.c = Some(c);
                if o.runaway {
                    i.ok = false;
                    self.op(vec![6, i.id, len as i64, st, STALL, 0, 0]);
                    return;
                }
                let cl = |x: usize| x.min(1 << 30) as i64;
                let mut v = vec![6, i.id, len as i64, st, o.ended as i64, cl(o.ro), cl(o.rl)];
                for (a, b) in &o.ys {
                    v.push(cl(*a));
                    v.push(cl(*b));
                }
                self.op(v);
                if o.hints.iter().any(|h| *h != (0, -1)) {
                    let mut v = vec![12, o.ys.len() as i64, o.ended as i64];
                    v.extend(o.hints.iter().flat_map(|h| [h.0, h.1]));
                    self.op(v);
                }
                i.pos += if o.ended || o.ro > len { len } else { o.ro };
            }
        }
    }
    /// the slices of data[..len] by all the ways of asking an iterator for them
    pub fn iter_ways(&mut self, a: &dyn Alg, data: &[u8], len: usize, strict: bool, k: usize) {
        let d = &data[..len];
        let mut all: Option<Vec<i64>> = None;
        for way in 0..WAYS {
            let i = self.new_inc(a, 0);
            if !i.ok {
                return;
            }
            let op = [6, i.id, len as i64, strict as i64, STALL, 0, 0];
            let c = i.c.unwrap();
            match guarded(&op, || c.iter_way(d, strict, way, k)) {
                None => self.op(vec![6, i.id, len as i64, strict as i64, PANIC, 0, 0]),
                Some(v) if way == 0 => all = Some(v),
                Some(v) => {
                    if let Some(all) = &all {
                        let want = ways_agree(all, way, k);
                        let l = self.s.lists.len() as i64;
                        self.s.lists.push(want);
                        self.s.lists.push(v);
                        self.op(vec![7, l + 1, l + 2, 1]);
                    }
                }
            }
        }
    }
    pub fn roll(&mut self, i: &mut IncInst, data: &[u8], len: usize) {
        // op 20: inst, bytes as (hi, lo, split) triples
        if !i.ok {
            return;
        }
        let mut v = vec![20, i.id, 0];
        if len == 0 {
            match guarded(&[20, i.id, STALL], || i.c.as_ref().unwrap().digest()) {
                Some(Some((d, s))) => v.extend([(d >> 16) as i64, (d & 0xffff) as i64, s as i64]),
                _ => {
                    self.op(vec![20, i.id, PANIC]);
                    i.ok = false;
                    return;
                }
            }
        }
        for k in 0..len.min(data.len() - i.pos) {
            let b = data[i.pos];
            let c = i.c.as_mut().unwrap();
            match guarded(&[20, i.id, STALL], || c.roll(b)) {
                Some(Some((d, s))) => {
                    v.push((d >> 16) as i64);
                    v.push((d & 0xffff) as i64);
                    v.push(s as i64);
                    i.pos += 1;
                    v[2] = k as i64 + 1;
                }
                _ => {
                    if v[2] > 0 {
                        self.op(v);
                    }
                    self.op(vec![20, i.id, PANIC]);
                    i.ok = false;
                    return;
                }
            }
        }
        self.op(v);
    }
    pub fn done(self) -> Scenario {
        self.s
    }

    // ------------------------------------------------------------------ runs
    /// feed the rest of the stream to an instance
    pub fn feed(&mut self, i: &mut IncInst, data: &[u8], sched: &mut Sched) {
        let start = i.pos;
        sched.begin(start);
        while i.ok {
            match sched.next(i.pos, data.len(), i.edges.last().cloned().unwrap_or(start as i64) as usize) {
                None => break,
                Some(end) => {
                    let len = end.saturating_sub(i.pos);
                    self.push(i, data, len);
                }
            }
        }
    }
    pub fn run_push(&mut self, a: &dyn Alg, data: &[u8], start: usize, sched: &mut Sched) -> Run {
        let mut i = self.new_inc(a, start);
        sched.begin(start);
        while i.ok {
            match sched.next(i.pos, data.len(), i.edges.last().cloned().unwrap_or(start as i64) as usize) {
                None => break,
                Some(end) => {
                    let len = end.saturating_sub(i.pos);
                    self.push(&mut i, data, len);
                }
            }
        }
        Run { edges: i.edges, ok: i.ok }
    }
    pub fn run_find(&mut self, a: &dyn Alg, data: &[u8], start: usize, sched: &mut Sched) -> Run {
        let mut i = self.new_srch(a, start);
        sched.begin(start);
        while i.ok {
            match sched.next(i.hi, data.len(), i.edges.last().cloned().unwrap_or(start as i64) as usize) {
                None => break,
                Some(end) => {
                    if sched.eager() {
                        // grow even while edges remain to be found
                        self.find(&mut i, data, end);
                    } else {
                        self.find_all(&mut i, data, end);
                    }
                }
            }
        }
        if i.ok {
            self.find_all(&mut i, data, data.len());
        }
        Run { edges: i.edges, ok: i.ok }
    }
}

/// a configuration of the same type with other parameters
fn other_than(c: &Cfg) -> Box<dyn Alg> {
    let mut o = c.clone();
    match c.ctor {
        "bup_default" | "bup_window" => o = Cfg::new("bup", "bup_window", &[if c.a.first() == Some(&16) { 40 } else { 16 }]),
        "buz_new" => o.a[0] = if c.a[0] == 9 { 20 } else { 9 },
        "gear_default" | "gear_log2" => o = Cfg::new("gear", "gear_log2", &[if c.a.first() == Some(&3) { 7 } else { 3 }]),
        "gzip_default" | "gzip_new" => o = Cfg::new("gzip", "gzip_new", &[if c.a.first() == Some(&9) { 21 } else { 9 }, 37]),
        "pigz_default" | "pigz_bits" => o = Cfg::new("pigz", "pigz_bits", &[if c.a.first() == Some(&3) { 6 } else { 3 }]),
        "ram_w" => o.a[0] = if c.a[0] == 5 { 11 } else { 5 },
        "fcdc_default" | "fcdc_new" => o = Cfg::new("fcdc", "fcdc_new", &[2, 9, 17]).table("gear64", vec![], 0),
        _ => {}
    }
    o.build()
}

/// How a stream arrives: the next position up to which it is delivered.
#[derive(Clone, Debug)]
pub enum How {
    Whole,
    /// everything at once, then an empty delivery
    WholeThenEmpty,
    Step(usize),
    /// random amounts up to the given mean, with empty deliveries
    Random(usize),
    /// large amounts, and runs of tiny ones in between
    Bursty(usize),
    /// deliveries end at these stream positions
    At(Vec<usize>),
    /// deliveries end at these distances from the previous edge
    Dist(Vec<usize>),
    /// deliveries end at multiples of this distance from the previous edge, one to four multiples at a time
    FromEdge(usize),
    /// bit i set: a delivery ends at stream position off+i+1
    Mask(usize, usize, u64),
}
pub struct Sched {
    pub how: How,
    rng: Rng,
    done: bool,
    stage: usize,
    eager: bool,
}
impl Sched {
    pub fn new(how: How, seed: u64) -> Sched {
        Sched { how, rng: Rng::new(seed), done: false, stage: 0, eager: seed & 1 == 1 }
    }
    fn begin(&mut self, _start: usize) {
        self.done = false;
        self.stage = 0;
    }
    fn eager(&self) -> bool {
        self.eager && matches!(self.how, How::Random(_) | How::Step(_))
    }
    fn next(&mut self, pos: usize, n: usize, prev: usize) -> Option<usize> {
        if self.done {
            return None;
        }
        let end = match &self.how {
            How::Whole => n,
            How::WholeThenEmpty => {
                self.stage += 1;
                if self.stage >= 3 {
                    self.done = true;
                }
                return Some(n);
            }
            How::Step(k) => pos + k,
            How::Random(mean) => {
                if self.rng.chance(1, 6) {
                    return Some(pos); // empty
                }
                let m = if self.rng.chance(1, 8) { 4 * mean } else { *mean };
                pos + self.rng.range(1, m.max(1))
            }
            How::Bursty(mean) => {
                if self.stage == 0 {
                    self.stage = if self.rng.chance(1, 2) { self.rng.range(20, 400) } else { 1000 };
                }
                if self.stage >= 1000 {
                    self.stage = 0;
                    pos + self.rng.range(1, (2 * *mean).max(1))
                } else {
                    self.stage -= 1;
                    pos + self.rng.range(0, 9)
                }
            }
            How::At(v) => {
                let r = v.iter().cloned().find(|x| *x > pos).unwrap_or(n);
                r
            }
            How::Dist(v) => v.iter().map(|d| prev + d).find(|x| *x > pos).unwrap_or(pos + 17),
            How::FromEdge(k) => {
                let m = if self.rng.chance(2, 3) { 1 } else { self.rng.range(2, 4) };
                prev + ((pos - prev) / k + m) * k
            }
            How::Mask(off, len, m) => {
                let mut p = pos + 1;
                while p < n && (p <= *off || p > off + len || (m >> (p - off - 1)) & 1 == 0) {
                    p += 1;
                }
                p
            }
        };
        let end = end.min(n);
        if end >= n {
            self.done = true;
        }
        Some(end)
    }
}

/// Collects scenarios and spreads them over the shards of a run.
pub struct Out {
    pub all: Vec<(u64, String)>,
    pub inputs: Vec<String>,
    pub meta: Vec<String>,
    pub algs: std::collections::BTreeMap<String, (u64, u64, u64, u64)>,
    next: usize,
    t: std::time::Instant,
    pub ops: u64,
    pub calls: u64,
    pub edges: u64,
}
impl Out {
    pub fn new() -> Out {
        Out { all: vec![], inputs: vec![], meta: vec![], algs: Default::default(), next: 0, t: std::time::Instant::now(), ops: 0, calls: 0, edges: 0 }
    }
    pub fn add(&mut self, mut s: Scenario) {
        self.next += 1;
        if std::env::var("RECORD_TIMES").is_ok() {
            eprintln!("{} {:.3}s ops {} {} {}", self.next, self.t.elapsed().as_secs_f64(), s.ops.len(), s.why, s.cfg.text());
            self.t = std::time::Instant::now();
        }
        s.id = self.next;
        self.ops += s.ops.len() as u64;
        self.calls += s.calls;
        self.edges += s.ops.iter().filter(|o| (o[0] == 2 || o[0] == 3) && o[4] >= 0).count() as u64;
        let edges = s.ops.iter().filter(|o| (o[0] == 2 || o[0] == 3) && o[4] >= 0).count() as u64;
        let e = self.algs.entry(s.cfg.alg.to_string()).or_default();
        e.0 += 1;
        e.1 += s.calls;
        e.2 += edges;
        e.3 += s.n as u64;
        self.inputs.push(s.inputs());
        self.all.push((s.cost(), s.json()));
    }
    pub fn write(&mut self, dir: &str, shards: usize) -> std::io::Result<()> {
        self.all.sort_by(|a, b| b.0.cmp(&a.0));
        let mut load = vec![0u64; shards];
        let mut files: Vec<std::io::BufWriter<std::fs::File>> = vec![];
        for k in 0..shards {
            files.push(std::io::BufWriter::new(std::fs::File::create(format!("{}/trace{}.ndjson", dir, k))?));
        }
        for (c, j) in &self.all {
            let k = (0..shards).min_by_key(|k| load[*k]).unwrap();
            load[k] += c;
            writeln!(files[k], "{}", j)?;
        }
        let mut f = std::fs::File::create(format!("{}/summary.txt", dir))?;
        writeln!(f, "scenarios {}\nops {}\ncalls {}\nedges {}\ncost {}", self.all.len(), self.ops, self.calls, self.edges, load.iter().max().unwrap())?;
        for (a, (n, c, e, b)) in &self.algs {
            writeln!(f, "alg {} scenarios {} calls {} edges {} bytes {}", a, n, c, e, b)?;
        }
        std::fs::write(format!("{}/inputs.txt", dir), self.inputs.concat())?;
        for m in &self.meta {
            writeln!(f, "{}", m)?;
        }
        Ok(())
    }
}

//! The implementation behind one object-safe interface, and the constructor calls
//! (`Cfg`) the specification knows how to resolve (module Params).
use hash_roll::{bup, buzhash, buzhash_table, fastcdc, gear, gear_table, gzip, mii, pigz, ram, zpaq, zstd};
use hash_roll::{Chunk, ChunkIncr, ToChunkIncr};
use std::any::Any;
use std::ops::Bound;

pub struct IterOut {
    pub ys: Vec<(usize, usize)>,
    pub ended: bool,
    pub ro: usize,
    pub rl: usize,
    /// more items than any iterator over such a buffer may yield
    pub runaway: bool,
    /// what size_hint said before each call to next (-1: no upper bound)
    pub hints: Vec<(i64, i64)>,
}

/// call next until `stop` items came or it says None
fn drain<'a, I: Iterator<Item = &'a [u8]>>(it: &mut I, d: &[u8], stop: usize, fused: bool, out: &mut IterOut) {
    let cap = d.len() + 3;
    let way = if stop > cap { d.len() % 3 } else { 0 };
    let clip = |x: usize| x.min(1 << 30) as i64;
    while out.ys.len() < stop {
        if way == 1 || stop <= cap {
            let (lo, hi) = it.size_hint();
            out.hints.push((clip(lo), hi.map_or(-1, clip)));
        }
        match if way == 2 { it.nth(0) } else { it.next() } {
            None => {
                out.ended = true;
                break;
            }
            Some(s) => out.ys.push((off(d, s), s.len())),
        }
        if out.ys.len() > cap {
            out.runaway = true;
            break;
        }
    }
    if fused && out.ended {
        // asked again, it has nothing more
        for s in [it.next(), it.nth(1), it.next()].iter().flatten() {
            out.ys.push((off(d, s), s.len()));
        }
    }
}

pub const WAYS: usize = 14;
/// What the slices yielded are, asked for in different ways, and what is left over then;
/// all 0 finds, the others find.
fn by_way<'a, I: Iterator<Item = &'a [u8]>>(mut it: I, left: impl Fn(I) -> &'a [u8], d: &[u8], way: usize, k: usize) -> Vec<i64> {
    let mut v: Vec<i64> = vec![];
    let pair = |s: &[u8]| [off(d, s) as i64, s.len() as i64];
    match way {
        0 => {
            while let Some(s) = it.next() {
                v.extend(pair(s));
                if v.len() > 2 * d.len() + 10 {
                    break;
                }
            }
        }
        1 => return it.fold(vec![], |mut v, s| { v.extend(pair(s)); v }),
        2 => { it.collect::<Vec<_>>().iter().for_each(|s| v.extend(pair(s))); return v },
        3 => { it.for_each(|s| v.extend(pair(s))); return v },
        4 => return vec![it.count() as i64],
        5 => { it.last().iter().for_each(|s| v.extend(pair(s))); return v },
        6 => {
            if let Some(s) = it.nth(k) {
                v.extend(pair(s));
                it.by_ref().for_each(|s| v.extend(pair(s)));
            }
        }
        7 => { it.skip(k).for_each(|s| v.extend(pair(s))); return v },
        8 => { it.step_by(k + 1).for_each(|s| v.extend(pair(s))); return v },
        9 => {
            it.by_ref().take(k).for_each(|s| v.extend(pair(s)));
            if v.len() == 2 * k {
                it.by_ref().for_each(|s| v.extend(pair(s)));
            }
        }
        10 => {
            while let Some(s) = it.nth(k) {
                v.extend(pair(s));
                if v.len() > 2 * d.len() + 10 {
                    break;
                }
            }
        }
        11 => v.push(it.by_ref().count() as i64),
        12 => it.by_ref().last().iter().for_each(|s| v.extend(pair(s))),
        _ => {
            let mut n = 0;
            let more = it.try_for_each(|s| { v.extend(pair(s)); n += 1; if n > k { Err(()) } else { Ok(()) } });
            if more.is_err() {
                it.by_ref().for_each(|s| v.extend(pair(s)));
            }
        }
    }
    let rem = left(it);
    v.extend(if rem.is_empty() { [-1, 0] } else { pair(rem) });
    v
}
/// what `by_way` is to say, given what way 0 said
pub fn ways_agree(seen: &[i64], way: usize, k: usize) -> Vec<i64> {
    let (all, rem) = seen.split_at(seen.len() - 2);
    let n = all.len() / 2;
    let mut v = match way {
        4 | 11 => vec![n as i64],
        5 | 12 => all[2 * n.saturating_sub(1)..].to_vec(),
        6 | 7 => all[2 * k.min(n)..].to_vec(),
        8 => (0..n).step_by(k + 1).flat_map(|i| all[2 * i..2 * i + 2].to_vec()).collect(),
        10 => (k..n.max(k)).step_by(k + 1).flat_map(|i| all[2 * i..2 * i + 2].to_vec()).collect(),
        _ => all.to_vec(),
    };
    if [6, 9, 10, 11, 12, 13].contains(&way) {
        v.extend(rem);
    }
    v
}

pub trait Inc {
    fn push(&mut self, d: &[u8]) -> Option<usize>;
    fn dup(&self) -> Option<Box<dyn Inc>>;
    /// a clone that takes the place of another instance
    fn dup_into(&self, o: Box<dyn Inc>) -> Option<Box<dyn Inc>>;
    fn same(&self, o: &dyn Inc) -> Option<bool>;
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    /// iterate over `d`, at most `stop` calls to next, then take the iterator apart
    fn iter(self: Box<Self>, d: &[u8], strict: bool, stop: usize, take: bool) -> (IterOut, Box<dyn Inc>);
    /// every slice by way of another of Iterator's methods: (offset, length) pairs, or numbers
    fn iter_way(self: Box<Self>, d: &[u8], strict: bool, way: usize, k: usize) -> Vec<i64>;
    /// RollSumIncr only: roll one byte, (digest, at_split)
    fn roll(&mut self, _b: u8) -> Option<(u32, bool)> {
        None
    }
    fn digest(&self) -> Option<(u32, bool)> {
        None
    }
}
pub trait Srch {
    fn find(&mut self, d: &[u8]) -> (Option<usize>, usize);
    fn dup(&self) -> Option<Box<dyn Srch>>;
    fn dup_into(&self, o: Box<dyn Srch>) -> Option<Box<dyn Srch>>;
    fn same(&self, o: &dyn Srch) -> Option<bool>;
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
}
pub trait Alg {
    fn inc(&self) -> Box<dyn Inc>;
    fn srch(&self) -> Box<dyn Srch>;
    /// the other ways of making a chunker (conversion by value, `Default`) or a search
    fn inc_alt(&self) -> Option<Box<dyn Inc>>;
    fn srch_alt(&self) -> Option<Box<dyn Srch>>;
    /// a chunker made into a search (Mii)
    fn convert(&self, i: Box<dyn Inc>) -> Option<Box<dyn Srch>>;
    /// a clone of the configuration, made new or in place of another
    fn dup(&self, o: Option<Box<dyn Alg>>) -> Box<dyn Alg>;
    fn same(&self, o: &dyn Alg) -> Option<bool>;
    fn any(&self) -> &dyn Any;
}

/// a clone: made new, or put in place of another value
type CloneFn<T> = Option<fn(&T, Option<T>) -> T>;
fn cl<T: Clone>(x: &T, o: Option<T>) -> T {
    match o {
        None => x.clone(),
        Some(mut o) => {
            o.clone_from(x);
            o
        }
    }
}
type EqFn<T> = Option<fn(&T, &T) -> bool>;

struct IncW<C> {
    c: C,
    cl: CloneFn<C>,
    eq: EqFn<C>,
    roll: Option<fn(&mut C, u8)>,
    dig: Option<fn(&C) -> (u32, bool)>,
}
fn off(base: &[u8], s: &[u8]) -> usize {
    (s.as_ptr() as usize).wrapping_sub(base.as_ptr() as usize)
}
impl<C: ChunkIncr + 'static> Inc for IncW<C> {
    fn push(&mut self, d: &[u8]) -> Option<usize> {
        self.c.push(d)
    }
    fn dup(&self) -> Option<Box<dyn Inc>> {
        self.cl.map(|f| Box::new(IncW { c: f(&self.c, None), cl: self.cl, eq: self.eq, roll: self.roll, dig: self.dig }) as Box<dyn Inc>)
    }
    fn dup_into(&self, o: Box<dyn Inc>) -> Option<Box<dyn Inc>> {
        let f = self.cl?;
        let o = o.into_any().downcast::<IncW<C>>().ok()?;
        Some(Box::new(IncW { c: f(&self.c, Some(o.c)), cl: self.cl, eq: self.eq, roll: self.roll, dig: self.dig }))
    }
    fn same(&self, o: &dyn Inc) -> Option<bool> {
        let f = self.eq?;
        let o = o.any().downcast_ref::<IncW<C>>()?;
        Some(f(&self.c, &o.c))
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn iter(self: Box<Self>, d: &[u8], strict: bool, stop: usize, take: bool) -> (IterOut, Box<dyn Inc>) {
        let IncW { c, cl, eq, roll, dig } = *self;
        let mut out = IterOut { ys: vec![], ended: false, ro: 0, rl: 0, runaway: false, hints: vec![] };
        let c = if strict {
            let mut it = c.iter_slices_strict(d);
            drain(&mut it, d, stop, false, &mut out);
            if take {
                let r = it.take_rem();
                out.ro = off(d, r);
                out.rl = r.len();
                let again = it.take_rem();
                let (c, left) = it.into_parts();
                if !again.is_empty() || !left.is_empty() {
                    out.rl = usize::MAX >> 40; // the second remainder must be empty
                }
                c
            } else {
                let (c, r) = it.into_parts();
                out.ro = off(d, r);
                out.rl = r.len();
                c
            }
        } else {
            let mut it = c.iter_slices(d);
            drain(&mut it, d, stop, true, &mut out);
            let (c, r) = it.into_parts();
            out.ro = off(d, r);
            out.rl = r.len();
            c
        };
        if out.rl == 0 {
            // an empty slice has no meaningful address
            out.ro = d.len();
        }
        (out, Box::new(IncW { c, cl, eq, roll, dig }))
    }
    fn iter_way(self: Box<Self>, d: &[u8], strict: bool, way: usize, k: usize) -> Vec<i64> {
        if strict {
            by_way(self.c.iter_slices_strict(d), |i| i.into_parts().1, d, way, k)
        } else {
            by_way(self.c.iter_slices(d), |i| i.into_parts().1, d, way, k)
        }
    }
    fn roll(&mut self, b: u8) -> Option<(u32, bool)> {
        let f = self.roll?;
        f(&mut self.c, b);
        self.dig.map(|g| g(&self.c))
    }
    fn digest(&self) -> Option<(u32, bool)> {
        self.dig.map(|g| g(&self.c))
    }
}

struct SrchW<A: Chunk> {
    a: std::rc::Rc<A>,
    s: A::SearchState,
    cl: CloneFn<A::SearchState>,
    eq: EqFn<A::SearchState>,
}
impl<A: Chunk + 'static> Srch for SrchW<A>
where
    A::SearchState: 'static,
{
    fn find(&mut self, d: &[u8]) -> (Option<usize>, usize) {
        self.a.find_chunk_edge(&mut self.s, d)
    }
    fn dup(&self) -> Option<Box<dyn Srch>> {
        self.cl.map(|f| Box::new(SrchW { a: self.a.clone(), s: f(&self.s, None), cl: self.cl, eq: self.eq }) as Box<dyn Srch>)
    }
    fn dup_into(&self, o: Box<dyn Srch>) -> Option<Box<dyn Srch>> {
        let f = self.cl?;
        let o = o.into_any().downcast::<SrchW<A>>().ok()?;
        Some(Box::new(SrchW { a: self.a.clone(), s: f(&self.s, Some(o.s)), cl: self.cl, eq: self.eq }))
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn same(&self, o: &dyn Srch) -> Option<bool> {
        let f = self.eq?;
        let o = o.any().downcast_ref::<SrchW<A>>()?;
        Some(f(&self.s, &o.s))
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

struct AlgW<A: Chunk + ToChunkIncr> {
    a: std::rc::Rc<A>,
    aeq: EqFn<A>,
    icl: CloneFn<A::Incr>,
    ieq: EqFn<A::Incr>,
    roll: Option<fn(&mut A::Incr, u8)>,
    dig: Option<fn(&A::Incr) -> (u32, bool)>,
    scl: CloneFn<A::SearchState>,
    seq: EqFn<A::SearchState>,
    ialt: Option<fn(&A) -> A::Incr>,
    salt: Option<fn(&A) -> A::SearchState>,
    conv: Option<fn(A::Incr) -> A::SearchState>,
}
impl<A: Chunk + ToChunkIncr + Clone + 'static> Alg for AlgW<A>
where
    A::SearchState: 'static,
    A::Incr: 'static,
{
    fn inc(&self) -> Box<dyn Inc> {
        Box::new(IncW { c: self.a.to_chunk_incr(), cl: self.icl, eq: self.ieq, roll: self.roll, dig: self.dig })
    }
    fn srch(&self) -> Box<dyn Srch> {
        Box::new(SrchW { a: self.a.clone(), s: self.a.to_search_state(), cl: self.scl, eq: self.seq })
    }
    fn inc_alt(&self) -> Option<Box<dyn Inc>> {
        self.ialt.map(|f| Box::new(IncW { c: f(&self.a), cl: self.icl, eq: self.ieq, roll: self.roll, dig: self.dig }) as Box<dyn Inc>)
    }
    fn srch_alt(&self) -> Option<Box<dyn Srch>> {
        self.salt.map(|f| Box::new(SrchW { a: self.a.clone(), s: f(&self.a), cl: self.scl, eq: self.seq }) as Box<dyn Srch>)
    }
    fn convert(&self, i: Box<dyn Inc>) -> Option<Box<dyn Srch>> {
        let f = self.conv?;
        let c = i.into_any().downcast::<IncW<A::Incr>>().ok()?.c;
        Some(Box::new(SrchW { a: self.a.clone(), s: f(c), cl: self.scl, eq: self.seq }))
    }
    fn dup(&self, o: Option<Box<dyn Alg>>) -> Box<dyn Alg> {
        let o: Option<A> = o.and_then(|o| o.any().downcast_ref::<AlgW<A>>().map(|o| (*o.a).clone()));
        Box::new(AlgW { a: std::rc::Rc::new(cl(&*self.a, o)), aeq: self.aeq, icl: self.icl, ieq: self.ieq, roll: self.roll, dig: self.dig, scl: self.scl, seq: self.seq, ialt: self.ialt, salt: self.salt, conv: self.conv })
    }
    fn same(&self, o: &dyn Alg) -> Option<bool> {
        let f = self.aeq?;
        let o = o.any().downcast_ref::<AlgW<A>>()?;
        Some(f(&self.a, &o.a))
    }
    fn any(&self) -> &dyn Any {
        self
    }
}

/// A byte hash that can be compared, so that whole BuzHash values can.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct TabHash(pub Vec<u32>, pub u8);
impl buzhash::BuzHashHash for TabHash {
    fn hash(&self, d: u8) -> u32 {
        self.0[(d ^ self.1) as usize]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub alg: &'static str,
    pub ctor: &'static str,
    pub a: Vec<i64>,
    /// "", "gobuz", "borg", "gear64", "given"
    pub tabname: &'static str,
    pub tab: Vec<u64>,
    pub seed: u32,
    /// which of the library's byte hash types a buzhash uses: 0 table reference,
    /// 1 boxed table, 2 salted table, 3 the harness's own
    pub hk: u8,
}
pub const CAP: i64 = 1 << 30;

/// Sizes of 2^30 and more, which TLC's integers and any stream fall short of, are
/// written CAP + their place here; module Params knows their logarithms.
pub const HUGE: [u64; 14] = [
    u64::MAX,
    1 << 31,
    (1 << 32) - 1,
    1 << 32,
    (1 << 32) + 1,
    (1 << 32) + 16,
    1 << 33,
    (1 << 40) + 3,
    1 << 48,
    1 << 63,
    (1 << 63) + 1,
    u64::MAX - 1,
    1 << 30,
    (1 << 31) - 1,
];
pub fn u64_of(v: i64) -> u64 {
    if v >= CAP {
        HUGE[(v - CAP) as usize]
    } else {
        v as u64
    }
}
fn bound(k: i64, v: i64) -> Bound<u64> {
    match k {
        0 => Bound::Unbounded,
        1 => Bound::Included(u64_of(v)),
        _ => Bound::Excluded(u64_of(v)),
    }
}
fn leak32(t: &[u64]) -> &'static [u32; 256] {
    let mut v = [0u32; 256];
    for i in 0..256 {
        v[i] = t[i] as u32;
    }
    Box::leak(Box::new(v))
}
fn leak64(t: &[u64]) -> &'static [u64; 256] {
    let mut v = [0u64; 256];
    v.copy_from_slice(t);
    Box::leak(Box::new(v))
}

macro_rules! alg {
    ($a:expr, $aeq:expr, $icl:expr, $ieq:expr, $scl:expr, $seq:expr, $ialt:expr, $salt:expr) => {
        alg!($a, $aeq, $icl, $ieq, $scl, $seq, $ialt, $salt, None)
    };
    ($a:expr, $aeq:expr, $icl:expr, $ieq:expr, $scl:expr, $seq:expr, $ialt:expr, $salt:expr, $conv:expr) => {
        Box::new(AlgW { a: std::rc::Rc::new($a), aeq: $aeq, icl: $icl, ieq: $ieq, roll: None, dig: None, scl: $scl, seq: $seq, ialt: $ialt, salt: $salt, conv: $conv })
    };
}

impl Cfg {
    pub fn new(alg: &'static str, ctor: &'static str, a: &[i64]) -> Cfg {
        Cfg { alg, ctor, a: a.to_vec(), tabname: "", tab: vec![], seed: 0, hk: 0 }
    }
    pub fn table(mut self, name: &'static str, tab: Vec<u64>, seed: u32) -> Cfg {
        self.tabname = name;
        self.tab = tab;
        self.seed = seed;
        self
    }
    pub fn hash_kind(mut self, hk: u8) -> Cfg {
        self.hk = hk;
        self
    }
    pub fn json(&self) -> String {
        let a: Vec<String> = self.a.iter().map(|x| x.to_string()).collect();
        let mut s = format!("{{\"alg\":\"{}\",\"ctor\":\"{}\",\"a\":[{}]", self.alg, self.ctor, a.join(","));
        if !self.tabname.is_empty() {
            s += &format!(",\"tabname\":\"{}\"", self.tabname);
        }
        if self.tabname == "borg" {
            s += &format!(",\"seed\":[{},{}]", self.seed >> 16, self.seed & 0xffff);
        }
        if self.tabname == "given" {
            let sh = if self.alg == "fcdc" { 25 } else { 16 };
            let m = (1u64 << sh) - 1;
            let t: Vec<String> = self.tab.iter().map(|v| format!("[{},{}]", (v >> sh) & m, v & m)).collect();
            s += &format!(",\"tab\":[{}]", t.join(","));
        }
        s + "}"
    }
    /// one line from which `parse` makes the configuration again
    pub fn text(&self) -> String {
        let a: Vec<String> = self.a.iter().map(|x| x.to_string()).collect();
        format!("{} {} {} {} {} {}", self.alg, self.ctor, if a.is_empty() { "-".into() } else { a.join(",") }, if self.tabname.is_empty() { "-" } else { self.tabname }, self.seed, self.hk)
    }
    pub fn parse(s: &str) -> Cfg {
        let leak = |x: &str| -> &'static str { Box::leak(x.to_string().into_boxed_str()) };
        let f: Vec<&str> = s.split_whitespace().collect();
        Cfg {
            alg: leak(f[0]),
            ctor: leak(f[1]),
            a: if f[2] == "-" { vec![] } else { f[2].split(',').map(|x| x.parse().unwrap()).collect() },
            tabname: if f[3] == "-" { "" } else { leak(f[3]) },
            tab: vec![],
            seed: f[4].parse().unwrap(),
            hk: f[5].parse().unwrap(),
        }
    }
    fn buz_mask(&self) -> u32 {
        ((self.a[1] as u32) << 16) | self.a[2] as u32
    }
    fn buz_tab(&self) -> Vec<u64> {
        match self.tabname {
            "gobuz" => buzhash_table::GO_BUZHASH.iter().map(|x| *x as u64).collect(),
            "borg" => buzhash_table::borg_buzhash_table(self.seed).iter().map(|x| *x as u64).collect(),
            _ => self.tab.clone(),
        }
    }
    pub fn build(&self) -> Box<dyn Alg> {
        let a = &self.a;
        match self.ctor {
            "bup_default" | "bup_window" => {
                let r = if self.ctor == "bup_default" { bup::RollSum::default() } else { bup::RollSum::with_window(a[0] as usize) };
                Box::new(AlgW {
                    a: std::rc::Rc::new(r),
                    aeq: Some(|x, y| x == y),
                    icl: Some(|x: &bup::RollSumIncr, o| cl(x, o)),
                    ieq: Some(|x, y| x == y),
                    roll: Some(|x: &mut bup::RollSumIncr, b| x.roll_byte(b)),
                    dig: Some(|x: &bup::RollSumIncr| (x.digest(), x.at_split())),
                    scl: Some(|x: &bup::RollSumSearchState, o| cl(x, o)),
                    seq: Some(|x, y| x == y),
                    ialt: if self.ctor == "bup_default" { Some(|_: &bup::RollSum| bup::RollSumIncr::default()) } else { None },
                    salt: Some(|a: &bup::RollSum| bup::RollSumSearchState::from(a)),
                    conv: None,
                })
            }
            "buz_nom" => alg!(buzhash::BuzHash::new_nom(a[0] as u8), None, Some(|x: &buzhash::BuzHashIncr<_>, o| cl(x, o)), None,
                              Some(|x: &buzhash::BuzHashSearchState, o| cl(x, o)), Some(|x, y| x == y),
                              Some(|a: &buzhash::BuzHash<_>| buzhash::BuzHashIncr::from(a.clone())), Some(|_: &buzhash::BuzHash<_>| buzhash::BuzHashSearchState::default())),
            "buz_new" => {
                let (w, m, mx) = (a[0] as usize, self.buz_mask(), u64_of(a[3]));
                let t = self.buz_tab();
                macro_rules! mk {
                    ($h:expr) => {
                        alg!(buzhash::BuzHash::new(w, m, $h, mx), None, Some(|x: &buzhash::BuzHashIncr<_>, o| cl(x, o)), None,
                             Some(|x: &buzhash::BuzHashSearchState, o| cl(x, o)), Some(|x, y| x == y),
                             Some(|a: &buzhash::BuzHash<_>| buzhash::BuzHashIncr::from(a.clone())), Some(|_: &buzhash::BuzHash<_>| buzhash::BuzHashSearchState::default()))
                    };
                }
                match self.hk {
                    0 if a[4] == 0 => {
                        if self.tabname == "gobuz" {
                            mk!(buzhash::BuzHashTableHash::from(&buzhash_table::GO_BUZHASH))
                        } else {
                            mk!(buzhash::BuzHashTableHash::from(leak32(&t)))
                        }
                    }
                    1 if a[4] == 0 => {
                        if self.tabname == "borg" {
                            mk!(buzhash::BuzHashTableBufHash::from(buzhash_table::borg_buzhash_table(self.seed)))
                        } else {
                            mk!(buzhash::BuzHashTableBufHash::from(Box::new(*leak32(&t))))
                        }
                    }
                    2 => mk!(buzhash::BuzHashTableByteSaltHash::from((a[4] as u8, leak32(&t)))),
                    _ => alg!(
                        buzhash::BuzHash::new(w, m, TabHash(t.iter().map(|x| *x as u32).collect(), a[4] as u8), mx),
                        Some(|x, y| x == y),
                        Some(|x: &buzhash::BuzHashIncr<TabHash>, o| cl(x, o)),
                        Some(|x, y| x == y),
                        Some(|x: &buzhash::BuzHashSearchState, o| cl(x, o)),
                        Some(|x, y| x == y),
                        Some(|a: &buzhash::BuzHash<_>| buzhash::BuzHashIncr::from(a.clone())), Some(|_: &buzhash::BuzHash<_>| buzhash::BuzHashSearchState::default())
                    ),
                }
            }
            "gear_default" | "gear_log2" => {
                let g = if self.ctor == "gear_default" { gear::Gear32::default() } else { gear::Gear32::with_average_size_log2(a[0] as usize) };
                alg!(g, None, Some(|x: &gear::GearIncr32, o| cl(x, o)), None, Some(|x: &gear::GearState32, o| cl(x, o)), Some(|x, y| x == y), None, Some(|_: &gear::Gear32<'static>| gear::GearState32::default()))
            }
            "fcdc_default" | "fcdc_new" => {
                let f = if self.ctor == "fcdc_default" {
                    fastcdc::FastCdc::default()
                } else if self.tabname == "gear64" {
                    fastcdc::FastCdc::new(&gear_table::GEAR_64, u64_of(a[0]), u64_of(a[1]), u64_of(a[2]))
                } else {
                    fastcdc::FastCdc::new(leak64(&self.tab), u64_of(a[0]), u64_of(a[1]), u64_of(a[2]))
                };
                let ialt: Option<fn(&fastcdc::FastCdc<'static>) -> fastcdc::FastCdcIncr<'static>> = if self.ctor == "fcdc_default" { Some(|_| fastcdc::FastCdcIncr::default()) } else { None };
                alg!(f, Some(|x, y| x == y), Some(|x: &fastcdc::FastCdcIncr, o| cl(x, o)), Some(|x, y| x == y),
                     Some(|x: &fastcdc::FastCdcState, o| cl(x, o)), Some(|x, y| x == y), ialt, Some(|_: &fastcdc::FastCdc<'static>| fastcdc::FastCdcState::default()))
            }
            "gzip_default" | "gzip_new" => {
                let g = if self.ctor == "gzip_default" { gzip::GzipRsyncable::default() } else { gzip::GzipRsyncable::with_window_and_modulus(a[0] as usize, u64_of(a[1])) };
                alg!(g, Some(|x, y| x == y), Some(|x: &gzip::GzipRsyncableIncr, o| cl(x, o)), None, Some(|x: &gzip::GzipRsyncableSearchState, o| cl(x, o)), None,
                     Some(|a: &gzip::GzipRsyncable| gzip::GzipRsyncableIncr::from(a.clone())), Some(|_: &gzip::GzipRsyncable| gzip::GzipRsyncableSearchState::default()))
            }
            "pigz_default" | "pigz_bits" => {
                let g = if self.ctor == "pigz_default" { pigz::PigzRsyncable::default() } else { pigz::PigzRsyncable::with_bits(a[0] as u8) };
                alg!(g, Some(|x, y| x == y), Some(|x: &pigz::PigzRsyncableIncr, o| cl(x, o)), None, Some(|x: &pigz::PigzRsyncableSearchState, o| cl(x, o)), None,
                     Some(|a: &pigz::PigzRsyncable| pigz::PigzRsyncableIncr::from(a.clone())), None)
            }
            "mii_default" | "mii_w" => {
                let g = if self.ctor == "mii_default" { mii::Mii::default() } else { mii::Mii::with_w(u64_of(a[0])) };
                alg!(g, None, None, None, None, None, Some(|a: &mii::Mii| mii::MiiIncr::from(a.clone())), Some(|a: &mii::Mii| mii::MiiSearchState::from(mii::MiiIncr::from(a.clone()))), Some(|i: mii::MiiIncr| mii::MiiSearchState::from(i)))
            }
            "ram_w" => alg!(ram::Ram::with_w(u64_of(a[0])), Some(|x, y| x == y), Some(|x: &ram::RamIncr, o| cl(x, o)), Some(|x, y| x == y),
                            Some(|x: &ram::RamState, o| cl(x, o)), Some(|x, y| x == y),
                            None, Some(|_: &ram::Ram| ram::RamState::default())),
            "zpaq_default" | "zpaq_frag" | "zpaq_max" | "zpaq_range" | "zpaq_full" => {
                let z = match self.ctor {
                    "zpaq_default" => zpaq::Zpaq::default(),
                    "zpaq_frag" => zpaq::Zpaq::with_average_size_pow_2(a[0] as u8),
                    "zpaq_max" => zpaq::Zpaq::with_max_size(u64_of(a[0])),
                    "zpaq_range" => Self::zrange(a[0], a[1], a[2], a[3]),
                    _ => Self::zfull(a[0] as u8, a[1], a[2], a[3], a[4]),
                };
                alg!(z, Some(|x, y| x == y), None, None, None, None, Some(|a: &zpaq::Zpaq| zpaq::ZpaqIncr::from(a.clone())), Some(|_: &zpaq::Zpaq| zpaq::ZpaqSearchState::default()))
            }
            "zstd_default" | "zstd_mib" | "zstd_log2" => {
                let z = if self.ctor == "zstd_default" { zstd::Zstd::default() } else if self.ctor == "zstd_log2" { zstd::Zstd::with_target_section_size(1u64 << a[0]) } else { zstd::Zstd::with_target_section_size((a[0] as u64) << 20 | a.get(1).cloned().unwrap_or(0) as u64) };
                alg!(z, Some(|x, y| x == y), None, Some(|x, y| x == y), None, Some(|x, y| x == y), Some(|a: &zstd::Zstd| zstd::ZstdIncr::from(a.clone())), Some(|_: &zstd::Zstd| zstd::ZstdSearchState::default()))
            }
            o => panic!("no constructor {}", o),
        }
    }
    /// ranges in the form a user would write them, where Rust has syntax for it
    fn zrange(lk: i64, lo: i64, hk: i64, hi: i64) -> zpaq::Zpaq {
        let (l, h) = (u64_of(lo), u64_of(hi));
        match (lk, hk) {
            (0, 0) => zpaq::Zpaq::with_range(..),
            (0, 1) => zpaq::Zpaq::with_range(..=h),
            (0, 2) => zpaq::Zpaq::with_range(..h),
            (1, 0) => zpaq::Zpaq::with_range(l..),
            (1, 1) => zpaq::Zpaq::with_range(l..=h),
            (1, 2) => zpaq::Zpaq::with_range(l..h),
            _ => zpaq::Zpaq::with_range((bound(lk, lo), bound(hk, hi))),
        }
    }
    fn zfull(avg: u8, lk: i64, lo: i64, hk: i64, hi: i64) -> zpaq::Zpaq {
        let (l, h) = (u64_of(lo), u64_of(hi));
        match (lk, hk) {
            (0, 0) => zpaq::Zpaq::with_average_and_range(avg, ..),
            (0, 1) => zpaq::Zpaq::with_average_and_range(avg, ..=h),
            (0, 2) => zpaq::Zpaq::with_average_and_range(avg, ..h),
            (1, 0) => zpaq::Zpaq::with_average_and_range(avg, l..),
            (1, 1) => zpaq::Zpaq::with_average_and_range(avg, l..=h),
            (1, 2) => zpaq::Zpaq::with_average_and_range(avg, l..h),
            _ => zpaq::Zpaq::with_average_and_range(avg, (bound(lk, lo), bound(hk, hi))),
        }
    }
}

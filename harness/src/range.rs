//! C25: range predicates and bound conversions, over ranges of every form and element
//! type.  Values are recorded as their rank in an ordered list, so that the whole domain
//! of a type (u64::MAX, negative numbers, strings) fits the specification's integers.
use crate::rng::Rng;
use hash_roll::range::{bound_cloned, RangeExt};
use std::io::Write;
use std::ops::{Bound, RangeBounds};

struct W {
    rows: Vec<String>,
    calls: u64,
}
fn kind<T: PartialEq>(vals: &[T], b: Bound<&T>) -> (i64, i64) {
    let rank = |x: &T| vals.iter().position(|v| v == x).map_or(-1, |i| i as i64);
    match b {
        Bound::Unbounded => (0, 0),
        Bound::Included(x) => (1, rank(x)),
        Bound::Excluded(x) => (2, rank(x)),
    }
}
fn tri(f: impl FnOnce() -> bool + std::panic::UnwindSafe) -> i64 {
    match std::panic::catch_unwind(f) {
        Ok(b) => b as i64,
        Err(_) => -2,
    }
}
impl W {
    /// predicates of `r`, a range with the bounds `want`, for every value
    fn one<T: PartialOrd + Clone, R: RangeBounds<T>>(&mut self, name: &str, vals: &[T], want: ((i64, i64), (i64, i64)), r: &R, tuple: Option<(Bound<T>, Bound<T>)>) {
        use std::panic::AssertUnwindSafe as A;
        let mut q = vec![];
        for (i, v) in vals.iter().enumerate() {
            self.calls += 3;
            q.push(format!(
                "[{},{},{},{}]",
                i,
                tri(A(|| RangeExt::under_min(r, v))),
                tri(A(|| RangeExt::exceeds_max(r, v))),
                tri(A(|| RangeExt::contains(r, v)))
            ));
        }
        let mut tups = vec![];
        let mut add = |a: Bound<T>, b: Bound<T>| {
            let (x, y) = (kind(vals, a.as_ref()), kind(vals, b.as_ref()));
            tups.push(format!("[{},{},{},{}]", x.0, x.1, y.0, y.1));
        };
        if let Ok((a, b)) = std::panic::catch_unwind(A(|| (bound_cloned(r.start_bound()), bound_cloned(r.end_bound())))) {
            add(a, b)
        }
        if let Some((a, b)) = tuple {
            add(a, b)
        }
        self.calls += tups.len() as u64;
        let ((lk, lo), (hk, hi)) = want;
        self.rows.push(format!(
            "{{\"id\":{},\"what\":\"{}\",\"r\":[{},{},{},{}],\"q\":[{}],\"tups\":[{}]}}",
            self.rows.len() + 1,
            name,
            lk,
            lo,
            hk,
            hi,
            q.join(","),
            tups.join(",")
        ));
    }
    fn all<T: PartialOrd + Copy>(&mut self, name: &str, vals: &[T]) {
        let n = vals.len() as i64;
        for lk in 0..3i64 {
            for lo in 0..if lk == 0 { 1 } else { n } {
                for hk in 0..3i64 {
                    for hi in 0..if hk == 0 { 1 } else { n } {
                        let b = |k: i64, i: i64| match k {
                            0 => Bound::Unbounded,
                            1 => Bound::Included(vals[i as usize]),
                            _ => Bound::Excluded(vals[i as usize]),
                        };
                        let want = ((lk, lo), (hk, hi));
                        let (bl, bh) = (b(lk, lo), b(hk, hi));
                        self.one(&format!("{} bounds", name), vals, want, &(bl, bh), Some((bl, bh).into_tuple()));
                        // bounds by reference
                        self.one(&format!("{} ref bounds", name), vals, want, &(bl.as_ref(), bh.as_ref()), None);
                        let (l, h) = (vals[lo as usize], vals[hi as usize]);
                        match (lk, hk) {
                            (0, 0) => self.one(&format!("{} full", name), vals, want, &(..), Some(RangeExt::<T>::into_tuple(..))),
                            (0, 1) => self.one(&format!("{} to incl", name), vals, want, &(..=h), Some((..=h).into_tuple())),
                            (0, 2) => self.one(&format!("{} to", name), vals, want, &(..h), Some((..h).into_tuple())),
                            (1, 0) => self.one(&format!("{} from", name), vals, want, &(l..), Some((l..).into_tuple())),
                            (1, 1) => self.one(&format!("{} incl", name), vals, want, &(l..=h), Some((l..=h).into_tuple())),
                            (1, 2) => self.one(&format!("{} range", name), vals, want, &(l..h), Some((l..h).into_tuple())),
                            _ => {}
                        }
                    }
                }
            }
        }
    }
}

pub fn record(dir: &str, seed: u64, k: usize, shards: usize) {
    let mut r = Rng::new(seed);
    let mut w = W { rows: vec![], calls: 0 };
    w.all::<u64>("u64", &[0, 1, 2, 64, 4096, u64::MAX - 1, u64::MAX]);
    w.all::<i8>("i8", &[-128, -1, 0, 1, 127]);
    w.all::<f64>("f64", &[f64::NEG_INFINITY, -0.5, 0.0, 1.5, f64::INFINITY]);
    w.all::<&str>("str", &["", "a", "aa", "b"]);
    w.all::<char>("char", &['\0', 'a', 'b', char::MAX]);
    for _ in 0..2 * k {
        let mut v: Vec<u64> = (0..6).map(|_| r.next() >> r.below(64)).collect();
        v.sort();
        v.dedup();
        w.all("random u64", &v);
        let mut v: Vec<u8> = (0..6).map(|_| r.byte()).collect();
        v.sort();
        v.dedup();
        w.all("random u8", &v);
    }
    // owned, non-Copy elements
    let names: Vec<String> = ["", "x", "xy", "z"].iter().map(|s| s.to_string()).collect();
    for i in 0..names.len() {
        for j in 0..names.len() {
            let (a, b) = (names[i].clone(), names[j].clone());
            let (i, j) = (i as i64, j as i64);
            w.one("String range", &names, ((1, i), (2, j)), &(a.clone()..b.clone()), None);
            w.one("String incl", &names, ((1, i), (1, j)), &(a.clone()..=b.clone()), None);
            w.one("String bounds", &names, ((2, i), (2, j)), &(Bound::Excluded(a), Bound::Excluded(b)), None);
        }
    }
    let mut f: Vec<_> = (0..shards).map(|i| std::io::BufWriter::new(std::fs::File::create(format!("{}/trace{}.ndjson", dir, i)).unwrap())).collect();
    for (i, l) in w.rows.iter().enumerate() {
        writeln!(f[i % shards], "{}", l).unwrap();
    }
    let n = w.rows.len();
    let ops: usize = w.calls as usize;
    std::fs::write(format!("{}/summary.txt", dir), format!("scenarios {}\nops {}\ncalls {}\nedges 0\ncost {}\n", n, ops, w.calls, n)).unwrap();
    std::fs::write(format!("{}/inputs.txt", dir), "").unwrap();
}

//! Records behaviours of hash-roll for the specification in ../spec to judge.
//!   conform record <property> <seed> <scale> <outdir> <shards> [algorithm]
//!   conform exec <inputs> <outdir> <shards>
//!   conform streams <kind> <outdir> <seed> <scale> [algorithm]
mod alg;
mod craft;
mod exec;
mod far;
mod gen;
mod range;
mod rec;
mod rng;
mod scen;

use rec::*;
use rng::Rng;
use std::sync::atomic::{AtomicBool, Ordering};

/// A call that does not return is recorded as such by this thread, which then ends the
/// process.
fn watchdog(dir: String, limit: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let t = CALL_START.load(Ordering::SeqCst);
        if t != 0 && now().saturating_sub(t) > limit {
            let op = CALL_OP.lock().unwrap().clone();
            last_words(&dir, op, "call does not return");
            std::process::exit(3);
        }
    });
}

/// What is left to say when the recording cannot go on: the call that ended it.
fn last_words(dir: &str, mut op: Vec<i64>, what: &str) {
    let mut s = match CURRENT.lock().unwrap().take() {
        Some((why, cfg, n, data, rep)) => {
            let mut s = Scenario::new(&format!("{}: {}", why, what), &cfg, "free", n);
            s.data = data;
            s.rep = rep;
            s
        }
        None => std::process::exit(4),
    };
    s.id = 999_999;
    s.ops.push(vec![0, if op[0] == 3 { 1 } else { 0 }, 0]);
    op[1] = 1;
    s.ops.push(op);
    std::fs::write(format!("{}/hang.ndjson", dir), s.json() + "\n").ok();
    std::fs::write(format!("{}/hang.txt", dir), s.inputs()).ok();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // where the last panic came from: the code under test, or this program
    static OURS: AtomicBool = AtomicBool::new(false);
    std::panic::set_hook(Box::new(|p| {
        if let Some(l) = p.location() {
            if p.payload().downcast_ref::<&str>() != Some(&"constructor") {
                OURS.store(!l.file().starts_with('/'), Ordering::SeqCst);
                if OURS.load(Ordering::SeqCst) {
                    eprintln!("{}", p);
                }
            }
        }
    }));
    let dir = if a[1] == "record" { a[5].clone() } else { a[3].clone() };
    std::fs::create_dir_all(&dir).unwrap();
    watchdog(dir.clone(), 20);
    if a[1] == "streams" {
        // conform streams <kind> <dir> <seed> <scale> [algorithm]
        let seed: u64 = a[4].parse().unwrap();
        let mut c = scen::Ctx { out: Out::new(), r: Rng::new(seed.wrapping_mul(77).wrapping_add(a[2].bytes().map(|b| b as u64).sum())), k: a[5].parse().unwrap(), only: a.get(6).cloned() };
        c.streams(&a[2]);
        c.out.write(&dir, 1).unwrap();
        return;
    }
    if a[1] == "exec" {
        exec::exec(&a[2], &dir, a[4].parse().unwrap());
        return;
    }
    let prop = a[2].as_str();
    let seed: u64 = a[3].parse().unwrap();
    let k: usize = a[4].parse().unwrap();
    let shards: usize = a[6].parse().unwrap();
    let pn: u64 = prop[1..].parse().unwrap();
    let mut c = scen::Ctx { out: Out::new(), r: Rng::new(seed.wrapping_mul(1000).wrapping_add(pn)), k, only: a.get(7).cloned() };
    let d = dir.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match prop {
        "C01" => { c.slicing(1); c.many_edges(None, 1) },
        "C02" => { c.slicing(2); c.many_edges(None, 2) },
        "C03" => c.interfaces(),
        "C04" => { c.contract(); c.far_totals() },
        "C05" => c.iterators(false),
        "C06" => c.iterators(true),
        "C07" => { c.restarts(); c.far_totals() },
        "C08" => c.lookback(),
        "C09" => c.retention(),
        "C10" => { c.sizes("fcdc"); c.huge_sizes("fcdc"); c.far_sizes("fcdc") },
        "C11" => { c.sizes("zpaq"); c.huge_sizes("zpaq"); c.far_sizes("zpaq") },
        "C12" => { c.sizes("buz"); c.huge_sizes("buz"); c.far_sizes("buz") },
        "C13" => { c.independence(); c.threads() },
        "C14" => { c.rule("bup"); c.many_edges(Some("bup"), 3); c.far_tails("bup") },
        "C15" => { c.rule("buz"); c.many_edges(Some("buz"), 3); c.far_tails("buz") },
        "C16" => { c.rule("gear"); c.many_edges(Some("gear"), 3); c.far_tails("gear") },
        "C17" => { c.rule("fcdc"); c.many_edges(Some("fcdc"), 3); c.far_tails("fcdc") },
        "C18" => { c.rule("gzip"); c.many_edges(Some("gzip"), 3); c.far_tails("gzip"); c.far_sizes("gzip") },
        "C19" => { c.rule("pigz"); c.many_edges(Some("pigz"), 3); c.far_tails("pigz") },
        "C20" => { c.rule("mii"); c.many_edges(Some("mii"), 3); c.far_tails("mii") },
        "C21" => { c.rule("ram"); c.many_edges(Some("ram"), 3); c.far_tails("ram"); c.far_sizes("ram") },
        "C22" => { c.rule("zpaq"); c.many_edges(Some("zpaq"), 3); c.zpaq_far_rule() },
        "C23" => { c.rule("zstd"); c.many_edges(Some("zstd"), 3); c.far_tails("zstd") },
        "C24" => { c.constructors(); c.zpaq_far_derived() },
        "C25" => range::record(&d, seed, k, shards),
        "C26" => c.rolling(),
        _ => panic!("no such property"),
    }));
    if r.is_err() {
        if OURS.load(Ordering::SeqCst) {
            std::process::exit(101);
        }
        last_words(&dir, vec![2, 1, 1, 0, PANIC], "panic outside a call recorded (construction, copy or comparison)");
        std::process::exit(5);
    }
    if prop != "C25" {
        c.out.write(&dir, shards).unwrap();
    }
}

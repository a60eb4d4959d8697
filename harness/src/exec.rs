//! Runs given schedules (made by the specification, or recorded before) on the real code.
//! Input, per scenario: lines as `Scenario::inputs` writes them, then `O op args` lines:
//!   O 0 kind start | O 2 inst n | O 3 inst n | O 4 inst | O 5 inst | O 6 inst n strict stop | O 20 inst n
//! or, as spec/Gen.tla writes them, with slots 1, 2, .. and stream positions:
//!   O 50 kinds..   new instances in slots 1..         O 52 slot end   push up to end
//!   O 53 slot end  search up to end                   O 54 i j        slot j a clone of i
//!   O 59 i j       slot j new at the last edge of i   O 56 slot end strict stop
//!   O 60           every slot finishes the stream
use crate::alg::*;
use crate::rec::*;
use crate::scen::{build, whole};
use std::sync::Arc;

enum Inst {
    P(IncInst),
    F(SrchInst),
}
pub fn exec(input: &str, dir: &str, shards: usize) {
    let text = std::fs::read_to_string(input).unwrap();
    let mut out = Out::new();
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        let f: Vec<&str> = l.split_whitespace().collect();
        assert_eq!(f[0], "S");
        let n: usize = f[3].parse().unwrap();
        let mut cfg = Cfg::parse(lines.next().unwrap().strip_prefix("C ").unwrap());
        let mut data: Vec<u8> = vec![];
        let mut s = Scenario::new("", &cfg, "rule", n);
        let mut ops: Vec<Vec<i64>> = vec![];
        while let Some(l) = lines.peek() {
            if l.starts_with("S ") {
                break;
            }
            let l = lines.next().unwrap();
            let rest = l.get(2..).unwrap_or("").trim();
            match &l[..1] {
                "T" => cfg.tab = rest.split(',').map(|x| x.parse().unwrap()).collect(),
                "D" => data = (0..rest.len() / 2).map(|i| u8::from_str_radix(&rest[2 * i..2 * i + 2], 16).unwrap()).collect(),
                "G" => {
                    let f: Vec<u64> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                    s.gen = Some((f[0] as usize, f[1] as usize, f[2]));
                    data = crate::gen::vast(s.gen.unwrap());
                }
                "R" => {
                    let f: Vec<usize> = rest.split(' ').map(|x| x.parse().unwrap()).collect();
                    s.rep = Some((f[0] as u8, f[2]));
                    data = vec![f[0] as u8; n];
                }
                "O" => ops.push(rest.split_whitespace().map(|x| x.parse().unwrap()).collect()),
                _ => panic!("input line {}", l),
            }
        }
        s.why = f[4..].join(" ");
        s.cfg = cfg.clone();
        s.mode = match f[2] {
            "free" => "free",
            "forced" => "forced",
            "wit" => "wit",
            _ => "rule",
        };
        let data = Arc::new(data);
        if s.gen.is_none() {
            s.data = Some(data.clone());
        }
        let a = build(&cfg);
        if s.mode == "wit" {
            s.wp = whole(&*a, &data, false);
            s.wf = whole(&*a, &data, true);
        }
        let mut rec = Rec::new(s);
        let mut v: Vec<Inst> = vec![];
        let mut slot: Vec<usize> = vec![];
        for o in ops {
            let k = o.get(1).cloned().unwrap_or(0) as usize;
            match o[0] {
                0 if o[1] == 0 => v.push(Inst::P(rec.new_inc(&*a, o[2] as usize))),
                0 => v.push(Inst::F(rec.new_srch(&*a, o[2] as usize))),
                2 => {
                    if let Inst::P(i) = &mut v[k - 1] {
                        i.budget = 1000;
                        let e = (i.pos + o[2] as usize).min(data.len());
                        rec.push_one(i, &data, e);
                    }
                }
                3 => {
                    if let Inst::F(i) = &mut v[k - 1] {
                        i.budget = 1000;
                        i.still = 0;
                        let e = (i.base + o[2] as usize).min(data.len());
                        rec.find(i, &data, e);
                    }
                }
                4 => {
                    let c = match &v[k - 1] {
                        Inst::P(i) => rec.clone_inc(i).map(Inst::P),
                        Inst::F(i) => rec.clone_srch(i).map(Inst::F),
                    };
                    match c {
                        Some(c) => v.push(c),
                        None => break,
                    }
                }
                5 => {
                    if let Inst::P(i) = &mut v[k - 1] {
                        let gone = IncInst { id: i.id, start: i.start, c: None, pos: i.pos, ok: false, edges: vec![], budget: 0 };
                        let i = std::mem::replace(i, gone);
                        match rec.convert(&*a, i) {
                            Some(f) => v.push(Inst::F(f)),
                            None => break,
                        }
                    }
                }
                6 => {
                    if let Inst::P(i) = &mut v[k - 1] {
                        let len = (o[2] as usize).min(data.len() - i.pos);
                        rec.iter(i, &data, len, o[3] == 1, o[4] as usize, o.get(5) == Some(&1));
                    }
                }
                20 => {
                    if let Inst::P(i) = &mut v[k - 1] {
                        rec.roll(i, &data, o[2] as usize);
                    }
                }
                50 => {
                    slot.clear();
                    for kind in &o[1..] {
                        v.push(if *kind == 0 { Inst::P(rec.new_inc(&*a, 0)) } else { Inst::F(rec.new_srch(&*a, 0)) });
                        slot.push(v.len() - 1);
                    }
                }
                52 | 53 | 56 => match &mut v[slot[k - 1]] {
                    Inst::P(i) if o[0] == 52 => {
                        let e = (o[2] as usize).clamp(i.pos, data.len());
                        i.budget = 1000;
                        rec.push_one(i, &data, e);
                    }
                    Inst::F(i) if o[0] == 53 => {
                        i.budget = 1000;
                        rec.find(i, &data, o[2] as usize);
                    }
                    Inst::P(i) if o[0] == 56 => {
                        let len = (o[2] as usize).saturating_sub(i.pos);
                        rec.iter(i, &data, len, o[3] == 1, o[4] as usize, false);
                    }
                    _ => panic!("step on the wrong kind of instance"),
                },
                54 => {
                    let c = match &v[slot[k - 1]] {
                        Inst::P(i) => rec.clone_inc(i).map(Inst::P),
                        Inst::F(i) => rec.clone_srch(i).map(Inst::F),
                    };
                    match c {
                        Some(c) => v.push(c),
                        None => break,
                    }
                    slot[o[2] as usize - 1] = v.len() - 1;
                }
                59 => {
                    let c = match &v[slot[k - 1]] {
                        Inst::P(i) => {
                            let at = i.edges.last().map_or(i.start, |x| *x as usize);
                            Inst::P(rec.new_inc(&*a, at))
                        }
                        Inst::F(i) => {
                            let at = i.edges.last().map_or(i.start, |x| *x as usize);
                            Inst::F(rec.new_srch(&*a, at))
                        }
                    };
                    v.push(c);
                    slot[o[2] as usize - 1] = v.len() - 1;
                }
                60 => {
                    for s in &slot {
                        match &mut v[*s] {
                            Inst::P(i) => {
                                let n = data.len() - i.pos;
                                rec.push(i, &data, n);
                            }
                            Inst::F(i) => rec.find_all(i, &data, data.len()),
                        }
                    }
                }
                _ => {}
            }
        }
        out.add(rec.done());
    }
    out.write(dir, shards).unwrap();
}

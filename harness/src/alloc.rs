//! Concrete search over the packet id allocator (P12), against a set.
use crate::Search;
use crate::rng::Rng;
use crate::Found;
use ruq::verif_hooks::Ids;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Next,
    Ret(u16),
}

pub fn show(max: u16, ops: &[Op]) -> String {
    // long runs of allocations are written n*K
    let mut o = format!("ids {}", max);
    let mut i = 0;
    while i < ops.len() {
        match ops[i] {
            Op::Next => {
                let mut k = 0;
                while i < ops.len() && ops[i] == Op::Next {
                    k += 1;
                    i += 1;
                }
                o += &if k == 1 { " n".to_string() } else { format!(" n*{}", k) };
            }
            Op::Ret(v) => {
                o += &format!(" r{}", v);
                i += 1;
            }
        }
    }
    o
}

pub fn read(s: &str) -> (u16, Vec<Op>) {
    let f: Vec<&str> = s.split_whitespace().collect();
    let mut ops = vec![];
    for x in &f[2..] {
        if let Some(k) = x.strip_prefix("n*") {
            ops.extend(vec![Op::Next; k.parse().unwrap()]);
        } else if *x == "n" {
            ops.push(Op::Next)
        } else {
            ops.push(Op::Ret(x[1..].parse().unwrap()))
        }
    }
    (f[1].parse().unwrap(), ops)
}

pub fn run(max: u16, ops: &[Op]) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut ids = if max == u16::MAX { Ids::new() } else { Ids::new_with_max(max) };
        let mut used: BTreeSet<u16> = BTreeSet::new();
        for (i, op) in ops.iter().enumerate() {
            match op {
                Op::Next => match ids.next_id() {
                    None => {
                        if used.len() < max as usize {
                            return Err(format!("step {}: no id, though only {} of {} are in use", i, used.len(), max));
                        }
                    }
                    Some(v) => {
                        if v == 0 || v > max {
                            return Err(format!("step {}: id {} is outside 1..={}", i, v, max));
                        }
                        if !used.insert(v) {
                            return Err(format!("step {}: id {} is given out while in use", i, v));
                        }
                    }
                },
                Op::Ret(v) => {
                    if *v == 0 || *v > max {
                        continue;
                    }
                    used.remove(v);
                    ids.return_id(*v);
                }
            }
        }
        // what is left must be exactly what is not in use
        let mut rest: BTreeSet<u16> = BTreeSet::new();
        for _ in 0..=max as u32 {
            match ids.next_id() {
                None => break,
                Some(v) => {
                    if v == 0 || v > max || used.contains(&v) || !rest.insert(v) {
                        return Err(format!("draining: id {} is given out, though in use or out of range", v));
                    }
                }
            }
        }
        if rest.len() + used.len() != max as usize {
            let lost = (1..=max).find(|v| !rest.contains(v) && !used.contains(v));
            return Err(format!("draining: {} ids in use, {} free, of {}; id {:?} is lost", used.len(), rest.len(), max, lost));
        }
        Ok(())
    }));
    match r {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

/// `run`, with the watch looking for a call that never returns
pub fn seen(max: u16, ops: &[Op]) -> Result<(), String> {
    crate::session::under_watch(20, || show(max, ops), || run(max, ops))
}

pub fn search(seed: u64, secs: f64) -> Search {
    let mut s = Search::new();
    let t0 = std::time::Instant::now();
    fn attempt(s: &mut Search, max: u16, ops: Vec<Op>) -> bool {
        s.note(&show(max, &ops));
        if let Err(mut e) = seen(max, &ops) {
            let mut ops = ops;
            'again: loop {
                for i in (0..ops.len()).rev() {
                    let mut d = ops.clone();
                    d.remove(i);
                    if ops.len() > 400 {
                        break;
                    }
                    if let Err(f) = seen(max, &d) {
                        ops = d;
                        e = f;
                        continue 'again;
                    }
                }
                break;
            }
            s.found = Some(Found { case: show(max, &ops), what: e });
            return false;
        }
        true
    }
    // every short history with few ids
    for (max, len) in [(1u16, 6u32), (2, 7), (3, 7), (4, 6)] {
        let n = max as u64 + 1;
        for code in 0..n.pow(len) {
            let mut c = code;
            let ops = (0..len)
                .map(|_| {
                    let k = (c % n) as u16;
                    c /= n;
                    if k == 0 { Op::Next } else { Op::Ret(k) }
                })
                .collect();
            if !attempt(&mut s, max, ops) {
                return s;
            }
        }
    }
    // all ids in use, then some returned
    let mut all = vec![Op::Next; 65536];
    all.extend([Op::Ret(65535), Op::Ret(1), Op::Next, Op::Ret(300), Op::Ret(302), Op::Ret(301), Op::Next]);
    if !attempt(&mut s, u16::MAX, all) {
        return s;
    }
    let mut r = Rng::new(seed);
    while t0.elapsed().as_secs_f64() < secs {
        let max = *r.pick(&[5u16, 8, 16, 64, 300, 300, 65535]);
        let n = 10 + r.below(300);
        let mut held: Vec<u16> = vec![];
        let mut ops = vec![];
        let pre = r.below(max.min(400) as usize + 1);
        ops.extend(vec![Op::Next; pre]);
        held.extend(1..=pre as u16);
        let alloc_bias = 1 + r.below(9);
        for _ in 0..n {
            if r.below(10) < alloc_bias {
                ops.push(Op::Next);
            } else if r.chance(1, 8) || held.is_empty() {
                ops.push(Op::Ret(1 + r.below(max.min(450) as usize) as u16));
            } else {
                let i = r.below(held.len());
                ops.push(Op::Ret(held.swap_remove(i)));
            }
        }
        if !attempt(&mut s, max, ops) {
            return s;
        }
    }
    s
}

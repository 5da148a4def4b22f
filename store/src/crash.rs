//! P16: crashes and failing devices.
use crate::device::{apply, Dop};
use crate::map::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

/// A history with what was on the device when each operation began and ended.
pub struct Recorded {
    pub ops: Vec<Op>,
    /// device operations before the history began are in the image
    pub base: Vec<u8>,
    pub dops: Vec<Dop>,
    pub begin: Vec<usize>,
    pub end: Vec<usize>,
}
pub fn record(ops: &[Op], base: &[u8]) -> Res<Recorded> {
    let mut l = Live::open(base.to_vec())?;
    l.close()?;
    let base = l.dev.with(|s| s.image.clone());
    let mut l = Live::open(base.clone())?;
    // what opening wrote becomes part of the base
    let base = l.dev.with(|s| {
        s.record = true;
        s.image.clone()
    });
    let (mut begin, mut end) = (vec![], vec![]);
    for op in ops {
        begin.push(l.dev.with(|s| s.ops.len()));
        if let Err(e) = l.perform(*op)? {
            return viol("error", format!("{op:?} fails: {e}"));
        }
        end.push(l.dev.with(|s| s.ops.len()));
    }
    let dops = l.dev.with(|s| s.ops.clone());
    l.close()?;
    Ok(Recorded { ops: ops.to_vec(), base, dops, begin, end })
}

/// All states the store may be in when `done` operations have returned and
/// then `maybe` is in flight, starting from m.
pub fn possible(m: &Model, maybe: Option<Op>) -> Vec<Model> {
    let mut v = vec![m.clone()];
    match maybe {
        None => {}
        Some(Op::Pair(a, b)) => {
            for k in 1..4 {
                let mut n = m.clone();
                if k & 1 != 0 {
                    n.apply(Op::Ins(a.0, a.1, a.2));
                }
                if k & 2 != 0 {
                    n.apply(Op::Ins(b.0, b.1, b.2));
                }
                v.push(n);
            }
        }
        Some(op) => {
            let mut n = m.clone();
            n.apply(op);
            v.push(n);
        }
    }
    v
}

/// Reopened on the image, the store holds one of these and works.
pub fn judge(image: Vec<u8>, want: &[Model], what: &dyn Fn() -> String, write: bool) -> Res<()> {
    let mut l = match Live::open(image) {
        Ok(l) => l,
        Err(v) => return viol("reopen", format!("{}: {}", what(), v.detail)),
    };
    let c = l.read()?;
    let mut last = String::new();
    let mut is = None;
    for m in want {
        match c.differs(m) {
            None => {
                is = Some(m.clone());
                break;
            }
            Some(d) => last = d,
        }
    }
    let Some(mut m) = is else {
        return viol("lost", format!("{}: {last}", what()));
    };
    if write {
        for op in [Op::Ins(0, 3, 2), Op::Bal(1, 1)] {
            if let Err(e) = l.perform(op)? {
                return viol("reopen", format!("{}: then {op:?} fails: {e}", what()));
            }
            m.apply(op);
        }
        if let Some(d) = l.read()?.differs(&m) {
            return viol("reopen", format!("{}: later {d}", what()));
        }
    }
    l.close()
}

#[derive(Default, Clone, Copy)]
pub struct Count {
    pub positions: u64,
    pub images: u64,
    pub distinct: u64,
}

/// Every crash within operation k of the history.
pub fn crashes(r: &Recorded, k: usize, subset_limit: usize) -> Res<Count> {
    let mut n = Count::default();
    let mut before = Model::default();
    for op in &r.ops[..k] {
        before.apply(*op);
    }
    let mut after = before.clone();
    after.apply(r.ops[k]);
    let mut seen: HashSet<u64> = HashSet::new();
    // durable image as of the last sync, and the writes since then
    let mut durable = r.base.clone();
    let mut pending: Vec<&Dop> = vec![];
    for p in 0..=r.end[k] {
        if p >= r.begin[k] {
            n.positions += 1;
            let acked = p == r.end[k];
            let want = if acked { vec![after.clone()] } else { possible(&before, Some(r.ops[k])) };
            let mut masks: Vec<(Vec<bool>, Option<(usize, usize)>)> = vec![];
            let w = pending.len();
            if w <= subset_limit {
                for x in 0..1u32 << w {
                    masks.push(((0..w).map(|i| x >> i & 1 == 1).collect(), None));
                }
            } else {
                masks.push((vec![false; w], None));
                masks.push((vec![true; w], None));
                for i in 0..w {
                    masks.push(((0..w).map(|j| j == i).collect(), None));
                    masks.push(((0..w).map(|j| j != i).collect(), None));
                    // suffixes: later writes overtook earlier ones
                    masks.push(((0..w).map(|j| j > i).collect(), None));
                }
                for i in 0..if w <= 10 { w } else { 0 } {
                    for j in i + 1..w {
                        masks.push(((0..w).map(|x| x != i && x != j).collect(), None));
                    }
                }
            }
            // torn: everything but one write, of which only a part is there
            for i in 0..w {
                if let Dop::Write(_, d) = pending[i] {
                    let mut cuts = vec![1, 512, d.len() / 2, d.len().saturating_sub(1)];
                    cuts.retain(|c| *c > 0 && *c < d.len());
                    cuts.sort();
                    cuts.dedup();
                    for c in cuts {
                        masks.push((vec![true; w], Some((i, c))));
                        masks.push(((0..w).map(|j| j == i).collect(), Some((i, c))));
                    }
                }
            }
            for (mask, torn) in masks {
                // length changes are not lost
                let mut img = durable.clone();
                for (i, d) in pending.iter().enumerate() {
                    match d {
                        Dop::Write(off, data) if mask[i] => match torn {
                            Some((t, c)) if t == i => apply(&mut img, &Dop::Write(*off, data[..c].to_vec())),
                            _ => apply(&mut img, d),
                        },
                        Dop::SetLen(_) => apply(&mut img, d),
                        _ => {}
                    }
                }
                n.images += 1;
                let mut h = std::collections::hash_map::DefaultHasher::new();
                // the image is the durable one with these differences
                (acked, p - pending.len(), &mask, torn).hash(&mut h);
                let mut part: Vec<u64> = vec![];
                for (i, d) in pending.iter().enumerate() {
                    if mask[i] {
                        if let Dop::Write(o, _) = d {
                            part.push(*o);
                        }
                    }
                }
                part.hash(&mut h);
                if !seen.insert(h.finish()) {
                    continue;
                }
                n.distinct += 1;
                let mk = mask.clone();
                let kept = move || mk.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>();
                let ops = &r.ops;
                judge(
                    img,
                    &want,
                    &|| format!("history {ops:?}, crash in operation {k} ({}) after device operation {p}, unsynced writes kept {} torn {torn:?}", if acked { "returned" } else { "running" }, kept()),
                    n.distinct % 8 == 1,
                )?;
            }
        }
        if p < r.dops.len() {
            match &r.dops[p] {
                Dop::Sync => {
                    for d in pending.drain(..) {
                        apply(&mut durable, d);
                    }
                }
                d => pending.push(d),
            }
        }
    }
    Ok(n)
}

/// The history on a device on which one operation (or all from it on) fails.
pub fn failing(ops: &[Op], base: &[u8], at: u64, once: bool) -> Res<bool> {
    let mut l = Live::open(base.to_vec())?;
    let start = l.dev.with(|s| {
        s.record = true;
        s.fail_at = Some(s.count + at);
        s.fail_once = once;
        s.image.clone()
    });
    let mut states = vec![Model::default()];
    let mut outcome = vec![];
    let what = |o: &Vec<bool>| format!("history {ops:?}, device operation {at} {}, outcomes {o:?}", if once { "fails" } else { "and later ones fail" });
    for op in ops {
        if *op == Op::Reopen {
            outcome.push(true);
            continue;
        }
        let r = match l.perform(*op) {
            Ok(r) => r,
            Err(v) if matches!(op, Op::Reget(_)) && v.kind == "error" => Err(anyhow::anyhow!("{}", v.detail)),
            Err(v) => return viol(v.kind, format!("{}: {}", what(&outcome), v.detail)),
        };
        outcome.push(r.is_ok());
        states = match r {
            Ok(()) => states
                .into_iter()
                .map(|mut m| {
                    m.apply(*op);
                    m
                })
                .collect(),
            Err(_) => {
                let mut v: Vec<Model> = states.iter().flat_map(|m| possible(m, Some(*op))).collect();
                v.sort();
                v.dedup();
                v
            }
        };
    }
    let (failed, dops) = l.dev.with(|s| {
        s.fail_at = None;
        (s.failed, s.ops.clone())
    });
    // a crash: only what was synced, or all that was written
    let mut durable = start;
    let mut pending = vec![];
    for d in &dops {
        match d {
            Dop::Sync => {
                for d in pending.drain(..) {
                    apply(&mut durable, d);
                }
            }
            d => pending.push(d),
        }
    }
    let mut all = durable.clone();
    for d in &pending {
        apply(&mut all, d);
        if let Dop::SetLen(_) = d {
            apply(&mut durable, d);
        }
    }
    judge(durable, &states, &|| what(&outcome) + ", then a crash that loses unsynced writes", true)?;
    judge(all, &states, &|| what(&outcome) + ", then a crash", true)?;
    // or an orderly end
    l.close()?;
    let img = l.dev.with(|s| s.image.clone());
    judge(img, &states, &|| what(&outcome) + ", then closed", true)?;
    Ok(failed > 0)
}
/// Device operations of a history without failures.
pub fn device_ops(ops: &[Op], base: &[u8]) -> Res<u64> {
    let mut l = Live::open(base.to_vec())?;
    let n = l.dev.with(|s| s.count);
    for op in ops {
        if *op == Op::Reopen {
            continue;
        }
        let _ = l.perform(*op)?;
    }
    let m = l.dev.with(|s| s.count);
    l.close()?;
    Ok(m - n)
}

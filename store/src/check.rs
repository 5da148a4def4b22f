use crate::crash::*;
use crate::map::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d)
}

pub struct Ctx {
    pub deadline: Instant,
    pub threads: usize,
    pub viol: Mutex<Option<(String, Viol)>>,
    pub stop: AtomicBool,
    pub execs: AtomicU64,
    pub steps: AtomicU64,
    pub stages: Mutex<Vec<Value>>,
    pub complete: AtomicBool,
}
impl Ctx {
    /// All items, on all threads; the results in order. False if cut.
    fn par<T: Sync, R: Send>(&self, stage: &str, items: &[T], show: impl Fn(&T) -> String + Sync, f: impl Fn(&T) -> Res<R> + Sync) -> Vec<R> {
        let t = Instant::now();
        let next = AtomicUsize::new(0);
        let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(items.len().max(1)) {
                s.spawn(|| loop {
                    if self.stop.load(Ordering::Relaxed) || Instant::now() > self.deadline {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&items[i])));
                    self.execs.fetch_add(1, Ordering::Relaxed);
                    match r {
                        Ok(Ok(r)) => out.lock().unwrap().push((i, r)),
                        Ok(Err(v)) => self.report(show(&items[i]), v),
                        Err(e) => {
                            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            self.report(show(&items[i]), Viol { kind: "panic", detail: m })
                        }
                    }
                });
            }
        });
        let mut o = out.into_inner().unwrap();
        o.sort_by_key(|x| x.0);
        let done = o.len() == items.len();
        if !done {
            self.complete.store(false, Ordering::Relaxed);
        }
        self.stages.lock().unwrap().push(json!({"stage": stage, "cases": items.len(), "done": o.len(), "exhausted": done, "wall_s": t.elapsed().as_secs_f64()}));
        o.into_iter().map(|x| x.1).collect()
    }
    fn report(&self, case: String, v: Viol) {
        self.stop.store(true, Ordering::Relaxed);
        let mut l = self.viol.lock().unwrap();
        if l.is_none() {
            *l = Some((case, v));
        }
    }
}

fn sequences(alpha: &[Op], len: usize) -> Vec<Vec<Op>> {
    let mut v = vec![vec![]];
    for _ in 0..len {
        v = v.into_iter().flat_map(|s: Vec<Op>| alpha.iter().map(move |o| [s.clone(), vec![*o]].concat())).collect();
    }
    v
}

/// All reachable states and all operations in each.
fn states(c: &Ctx) -> (usize, u64) {
    let alpha = alphabet();
    let mut seen: BTreeSet<Model> = BTreeSet::new();
    seen.insert(Model::default());
    let mut front: Vec<(Model, Vec<Op>)> = vec![(Model::default(), vec![])];
    let mut transitions = 0;
    let mut level = 0;
    while !front.is_empty() {
        let items: Vec<&(Model, Vec<Op>)> = front.iter().collect();
        let r = c.par(
            &format!("all operations in all states at distance {level}"),
            &items,
            |x| format!("{:?}", x.1),
            |(m, path)| {
                let mut l = Live::open(vec![])?;
                for op in path {
                    if let Err(e) = l.perform(*op)? {
                        return viol("error", format!("{op:?} fails: {e}"));
                    }
                }
                l.close()?;
                let img = l.dev.with(|s| s.image.clone());
                let mut out = vec![];
                for op in &alpha {
                    let mut n = m.clone();
                    n.apply(*op);
                    let mut l = Live::open(img.clone())?;
                    if let Err(e) = l.perform(*op)? {
                        return viol("error", format!("after {path:?}: {op:?} fails: {e}"));
                    }
                    if let Some(d) = l.read()?.differs(&n) {
                        return viol("map", format!("after {path:?} reopened and {op:?}: {d}"));
                    }
                    l.close()?;
                    c.steps.fetch_add(1, Ordering::Relaxed);
                    out.push((n, *op));
                }
                Ok(out)
            },
        );
        transitions += r.iter().map(|x| x.len() as u64).sum::<u64>();
        let mut nf = vec![];
        for (i, out) in r.into_iter().enumerate() {
            for (n, op) in out {
                if seen.insert(n.clone()) {
                    nf.push((n, [front[i].1.clone(), vec![op]].concat()));
                }
            }
            if c.stop.load(Ordering::Relaxed) {
                break;
            }
        }
        if c.stop.load(Ordering::Relaxed) || !c.complete.load(Ordering::Relaxed) {
            break;
        }
        front = nf;
        level += 1;
    }
    (seen.len(), transitions)
}

fn batches(max: usize) -> Vec<Batch> {
    // contents of the batches: what they overwrite, neighbours, other shards
    let pool: Vec<(usize, u64, u8)> = vec![(0, 2, 0), (0, 1, 1), (1, 2, 1), (0, 2, 1)];
    let mut v = vec![];
    for n in 1..=max {
        let mut seqs: Vec<Vec<(usize, u64, u8)>> = vec![vec![]];
        for _ in 0..n {
            seqs = seqs.into_iter().flat_map(|s| pool.iter().map(move |p| [s.clone(), vec![*p]].concat())).collect();
        }
        // compositions of n
        for mask in 0..1u32 << (n - 1) {
            let mut sizes = vec![1];
            for i in 0..n - 1 {
                if mask >> i & 1 == 1 {
                    sizes.push(1)
                } else {
                    *sizes.last_mut().unwrap() += 1
                }
            }
            for s in &seqs {
                v.push(Batch { ins: s.clone(), sizes: sizes.clone(), del: None });
            }
            if n <= 3 {
                for s in &seqs {
                    for k in 0..sizes.len() {
                        v.push(Batch { ins: s.clone(), sizes: sizes.clone(), del: Some((k, 0, 2)) });
                    }
                }
            }
        }
    }
    v
}

pub fn check(id: &str, root: &str) -> i32 {
    if id != "P15" && id != "P16" {
        eprintln!("unknown property {id}");
        return 2;
    }
    let t0 = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let secs = env_u64("VERIF_SECS", if thorough { 780 } else { 75 });
    std::panic::set_hook(Box::new(|_| {}));
    let c = Ctx {
        deadline: t0 + Duration::from_secs(secs),
        threads: env_u64("VERIF_THREADS", 8) as usize,
        viol: Mutex::new(None),
        stop: AtomicBool::new(false),
        execs: AtomicU64::new(0),
        steps: AtomicU64::new(0),
        stages: Mutex::new(vec![]),
        complete: AtomicBool::new(true),
    };
    let mut extra: BTreeMap<&str, Value> = BTreeMap::new();
    let (mut nstates, mut ntrans) = (0u64, 0u64);
    let samples: Vec<Value>;
    if id == "P15" {
        let b = batches(if thorough { 5 } else { 3 });
        samples = b.iter().step_by(b.len() / 3 + 1).map(|x| json!(format!("{x:?}"))).collect();
        let r = c.par("all batches", &b, |x| format!("{x:?}"), run_batch);
        ntrans += r.iter().sum::<u64>();
        let small = small_alphabet();
        for d in 1..=if thorough { 5 } else { 3 } {
            let s = sequences(&small, d);
            // shorter ones were compared already
            let r = c.par(&format!("all sequences of {d} operations on one live instance"), &s, |x| format!("{x:?}"), |x| run_seq(x, x.len() - 1));
            ntrans += r.len() as u64;
            if c.stop.load(Ordering::Relaxed) {
                break;
            }
        }
        if !c.stop.load(Ordering::Relaxed) {
            let (s, t) = states(&c);
            nstates += s as u64;
            ntrans += t;
        }
        extra.insert("operations_in_the_alphabet", json!(alphabet().len()));
    } else {
        // a store that was in use before: shards exist
        let base: Vec<u8> = {
            let mut l = Live::open(vec![]).expect("open");
            l.close().expect("close");
            l.dev.with(|s| s.image.clone())
        };
        let alpha: Vec<Op> = crash_alphabet();
        let mut cnt = Count::default();
        let mut fails = 0u64;
        samples = vec![json!(format!("{:?}", alpha))];
        for d in 1..=if thorough { 4 } else { 2 } {
            let s = sequences(&alpha, d);
            let r = c.par(
                &format!("all crashes in the last operation of all histories of {d} operations"),
                &s,
                |x| format!("{x:?}"),
                |x| {
                    let r = record(x, &base)?;
                    crashes(&r, x.len() - 1, if thorough { 7 } else { 5 })
                },
            );
            for x in r {
                cnt.positions += x.positions;
                cnt.images += x.images;
                cnt.distinct += x.distinct;
            }
            if d <= if thorough { 3 } else { 2 } && !c.stop.load(Ordering::Relaxed) {
                let mut cases = vec![];
                let n = c.par(&format!("device operations of histories of {d} operations"), &s, |x| format!("{x:?}"), |x| device_ops(x, &base));
                if n.len() == s.len() {
                    for (x, n) in s.iter().zip(&n) {
                        for at in 0..*n {
                            cases.push((x.clone(), at, true));
                            cases.push((x.clone(), at, false));
                        }
                    }
                }
                let r = c.par(&format!("every device operation failing, histories of {d} operations"), &cases, |x| format!("{x:?}"), |x| failing(&x.0, &base, x.1, x.2));
                fails += r.iter().filter(|x| **x).count() as u64;
            }
            if c.stop.load(Ordering::Relaxed) {
                break;
            }
        }
        nstates = cnt.distinct;
        ntrans = cnt.images;
        extra.insert("crash_positions", json!(cnt.positions));
        extra.insert("crash_images_reopened", json!(cnt.distinct));
        extra.insert("device_failures", json!(fails));
    }
    let mut n = 0;
    if let Some((case, v)) = c.viol.lock().unwrap().take() {
        n = 1;
        std::fs::create_dir_all(format!("{root}/replays")).ok();
        let path = format!("{root}/replays/{id}-{}.json", v.kind);
        let j = json!({"property": id, "kind": v.kind, "case": case, "detail": v.detail, "replay": format!("cd {root} && ./check.sh {id}")});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).ok();
        println!("{}: {} [{case}]", v.kind, v.detail);
        println!("VIOLATION property={id} replay={path}");
    }
    let execs = c.execs.load(Ordering::Relaxed);
    let ev = json!({
        "property": id, "tier": tier, "seed": env_u64("VERIF_SEED", 1), "level": "model_checking",
        "coverage": {
            "states": nstates.max(1), "transitions": ntrans, "traces_validated_against_impl": execs,
            "exhaustive": c.complete.load(Ordering::Relaxed) && n == 0,
            "stages": *c.stages.lock().unwrap(),
            "details": extra,
            "samples": samples,
            "rule": "every case runs the real redb backend on a recording device in memory and compares all contents with a model (maps and cells)",
        },
        "assumptions": ["a write that is synced is durable; unsynced writes may be lost in any subset, torn at any byte of the cuts tried; changes of the length are not lost", "redb itself is part of what is executed"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": n,
    });
    std::fs::create_dir_all(format!("{root}/evidence")).ok();
    std::fs::write(format!("{root}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{id}: {execs} cases, {nstates} states, {ntrans} transitions, exhaustive {}, {n} violations, {:.1} s", c.complete.load(Ordering::Relaxed), t0.elapsed().as_secs_f64());
    for s in c.stages.lock().unwrap().iter() {
        println!("  {} {}/{} {:.1}s", s["stage"].as_str().unwrap(), s["done"], s["cases"], s["wall_s"].as_f64().unwrap());
    }
    (n > 0) as i32
}

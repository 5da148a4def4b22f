//! Stateless exploration: every execution is the real code run from scratch
//! under a list of decisions; the tree of decisions is walked exhaustively
//! within the deviation budget, executions with fewer deviations first.
use crate::monitor::Viol;
use crate::world::{self, World};
use simrt::{Budget, ChoiceRec, Class, Sim};
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Scenario {
    pub name: String,
    pub budget: Budget,
    pub nodes: u32,
    pub shards: Vec<u32>,
    /// Explored after everything of a lower rank (plus deviations).
    pub rank: u32,
    pub run: Arc<dyn Fn(&Rc<World>) + Send + Sync>,
}
impl Scenario {
    pub fn new(name: impl Into<String>, nodes: u32, run: impl Fn(&Rc<World>) + Send + Sync + 'static) -> Self {
        Scenario { name: name.into(), budget: Budget::none(), nodes, shards: vec![0], rank: 0, run: Arc::new(run) }
    }
    pub fn budget(mut self, b: Budget) -> Self {
        self.budget = b;
        self
    }
    pub fn rank(mut self, r: u32) -> Self {
        self.rank = r;
        self
    }
    pub fn shards(mut self, s: Vec<u32>) -> Self {
        self.shards = s;
        self
    }
}

pub struct Exec {
    pub choices: Vec<ChoiceRec>,
    pub viols: Vec<Viol>,
    pub diverged: Option<String>,
    pub overrun: bool,
    pub steps: u64,
    pub msgs: u64,
    pub panics: u64,
    pub used: u32,
    pub states: Vec<u64>,
    pub trace: Vec<String>,
    pub checks: BTreeMap<&'static str, u64>,
    pub vtime: u64,
    pub final_hash: u64,
}

thread_local! {
    static STATES: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
}
/// Note the present global state (disks, applications, outcomes).
pub fn note_state(w: &World) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for ((n, s), d) in w.disks.borrow().iter() {
        (n, s, d.term, &d.voted).hash(&mut h);
        for (i, e) in &d.log {
            (i, e.prev, e.this, &e.cmd).hash(&mut h);
        }
        d.snaps.hash(&mut h);
    }
    for ((n, s), a) in w.apps.borrow().iter() {
        (n, s, &a.ops, a.last).hash(&mut h);
    }
    for o in w.ops.borrow().iter() {
        format!("{:?}", o.res).hash(&mut h);
    }
    simrt::sim().down.borrow().hash(&mut h);
    simrt::sim().alive.borrow().hash(&mut h);
    let v = h.finish();
    STATES.with(|s| s.borrow_mut().push(v));
    v
}

fn execute_here(sc: &Scenario, prefix: Vec<u32>, expected: Vec<(u32, Class)>, verbose: bool) -> Exec {
    simrt::enter_deterministic_thread();
    let s = Sim::install(prefix, expected, sc.budget.clone());
    s.verbose.set(verbose);
    let w = world::install(sc.nodes, sc.shards.clone());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.run)(&w)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        s.diverged.borrow_mut().get_or_insert(format!("scenario panicked: {m}"));
    }
    let final_hash = note_state(&w);
    if s.overrun.get() {
        w.mon.borrow_mut().report("livelock", format!("more than {} steps", s.step_limit.get()));
    }
    let out = Exec {
        choices: s.choices.borrow().clone(),
        viols: w.mon.borrow().viols.clone(),
        diverged: s.diverged.borrow().clone(),
        overrun: s.overrun.get(),
        steps: s.steps.get(),
        msgs: s.msgs.get(),
        panics: s.panics.get(),
        used: s.used_total(),
        states: STATES.with(|s| std::mem::take(&mut *s.borrow_mut())),
        trace: std::mem::take(&mut *s.trace.borrow_mut()),
        checks: w.mon.borrow().checks.clone(),
        vtime: s.now(),
        final_hash,
    };
    world::uninstall();
    out
}

/// Run one execution on a fresh thread (fresh thread-locals, fresh clock).
pub fn execute(sc: &Scenario, prefix: Vec<u32>, expected: Vec<(u32, Class)>, verbose: bool, wall: Duration) -> Exec {
    let sc = sc.clone();
    let (tx, rx) = std::sync::mpsc::channel();
    let p2 = prefix.clone();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let r = execute_here(&sc, p2, expected, verbose);
            tx.send(r).ok();
        })
        .unwrap();
    match rx.recv_timeout(wall) {
        Ok(r) => {
            h.join().ok();
            r
        }
        Err(_) => Exec {
            choices: vec![],
            viols: vec![Viol { kind: "hang", detail: format!("execution does not finish within {wall:?} of real time (a step never yields); decisions {prefix:?}"), at: 0 }],
            diverged: None,
            overrun: true,
            steps: 0,
            msgs: 0,
            panics: 0,
            used: 0,
            states: vec![],
            trace: vec![],
            checks: Default::default(),
            vtime: 0,
            final_hash: 0,
        },
    }
}

#[derive(Clone)]
pub struct Found {
    pub scenario: String,
    pub viol: Viol,
    pub choices: Vec<u32>,
    pub tags: Vec<String>,
}

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub steps: u64,
    pub msgs: u64,
    pub choices: u64,
    pub states: HashSet<u64>,
    pub finals: HashSet<u64>,
    pub nontrivial: u64,
    pub max_used: u32,
    pub exhausted: bool,
    pub left: u64,
    pub checks: BTreeMap<String, u64>,
    pub panics: u64,
    pub per_scenario: BTreeMap<String, (u64, bool)>,
    pub samples: Vec<String>,
    pub wall: f64,
    pub rechecked: u64,
}

pub struct Outcome {
    pub stats: Stats,
    pub found: Vec<Found>,
    pub errors: Vec<String>,
}

/// A decision other than the one taken in an execution already made:
/// its first `at` decisions, then `alt`.
struct Job {
    sc: usize,
    parent: Arc<Vec<(u32, u32, Class)>>,
    at: usize,
    alt: u32,
}
impl Job {
    fn root(sc: usize) -> Self {
        Job { sc, parent: Arc::new(vec![]), at: 0, alt: u32::MAX }
    }
    fn prefix(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.parent[..self.at].iter().map(|x| x.0).collect();
        if self.alt != u32::MAX {
            v.push(self.alt);
        }
        v
    }
    fn expected(&self) -> Vec<(u32, Class)> {
        if self.alt == u32::MAX {
            return vec![];
        }
        self.parent[..=self.at].iter().map(|x| (x.1, x.2)).collect()
    }
}

struct Shared {
    // buckets by (scenario group order, deviations)
    q: Mutex<QState>,
    cv: Condvar,
}
/// Jobs of one rank; the scenarios take turns.
#[derive(Default)]
struct Bucket {
    jobs: BTreeMap<usize, Vec<Job>>,
    last: usize,
}
impl Bucket {
    fn push(&mut self, j: Job) {
        self.jobs.entry(j.sc).or_default().push(j);
    }
    fn pop(&mut self) -> Option<Job> {
        let k = self.jobs.range(self.last + 1..).next().or_else(|| self.jobs.iter().next()).map(|x| *x.0)?;
        self.last = k;
        let v = self.jobs.get_mut(&k).unwrap();
        let j = v.pop();
        if v.is_empty() {
            self.jobs.remove(&k);
        }
        j
    }
}
struct QState {
    buckets: BTreeMap<u32, Bucket>,
    busy: usize,
    stop: bool,
}

pub struct Opts {
    pub threads: usize,
    pub deadline: Instant,
    /// stop as soon as a violation of one of these kinds is found
    pub stop_on: Box<dyn Fn(&str, &Viol) -> bool + Send + Sync>,
    pub max_found: usize,
    pub exec_wall: Duration,
    /// every so many executions one is repeated (0: never)
    pub recheck: u64,
}

pub fn explore(scs: &[Scenario], opts: Opts) -> Outcome {
    let t0 = Instant::now();
    let shared = Arc::new(Shared {
        q: Mutex::new(QState { buckets: BTreeMap::new(), busy: 0, stop: false }),
        cv: Condvar::new(),
    });
    {
        let mut q = shared.q.lock().unwrap();
        for (i, s) in scs.iter().enumerate().rev() {
            q.buckets.entry(s.rank).or_default().push(Job::root(i));
        }
    }
    let out = Arc::new(Mutex::new(Outcome { stats: Stats::default(), found: vec![], errors: vec![] }));
    let stop = Arc::new(AtomicBool::new(false));
    let execs = Arc::new(AtomicU64::new(0));
    let opts = Arc::new(opts);
    let scs: Arc<Vec<Scenario>> = Arc::new(scs.to_vec());
    let mut hs = vec![];
    for _ in 0..opts.threads {
        let (shared, out, stop, opts, scs, execs) = (shared.clone(), out.clone(), stop.clone(), opts.clone(), scs.clone(), execs.clone());
        hs.push(std::thread::spawn(move || loop {
            let job = {
                let mut q = shared.q.lock().unwrap();
                loop {
                    if q.stop || stop.load(Ordering::SeqCst) || Instant::now() > opts.deadline {
                        q.stop = true;
                        shared.cv.notify_all();
                        break None;
                    }
                    let k = q.buckets.iter().next().map(|x| *x.0);
                    if let Some(k) = k {
                        let v = q.buckets.get_mut(&k).unwrap();
                        let j = v.pop().unwrap();
                        if v.jobs.is_empty() {
                            q.buckets.remove(&k);
                        }
                        q.busy += 1;
                        break Some(j);
                    }
                    if q.busy == 0 {
                        shared.cv.notify_all();
                        break None;
                    }
                    q = shared.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                }
            };
            let Some(job) = job else { break };
            let sc = &scs[job.sc];
            let prefix = job.prefix();
            let ex = execute(sc, prefix.clone(), job.expected(), false, opts.exec_wall);
            let nth = execs.fetch_add(1, Ordering::Relaxed);
            // the same decisions lead to the same execution
            let mut differs = None;
            if opts.recheck > 0 && nth % opts.recheck == 0 && !ex.choices.is_empty() {
                let again = execute(sc, ex.choices.iter().map(|c| c.chosen).collect(), vec![], false, opts.exec_wall);
                if again.final_hash != ex.final_hash || again.steps != ex.steps || again.choices.len() != ex.choices.len() {
                    differs = Some(format!("not deterministic: {} steps and {} steps", ex.steps, again.steps));
                }
            }
            // children
            let mut kids: Vec<(u32, Job)> = vec![];
            let mut used = 0u32;
            let me: Arc<Vec<(u32, u32, Class)>> = Arc::new(ex.choices.iter().map(|c| (c.chosen, c.n, c.class)).collect());
            for (i, c) in ex.choices.iter().enumerate() {
                if i >= prefix.len() {
                    for alt in (0..c.n).rev() {
                        if alt == c.chosen {
                            continue;
                        }
                        let cost = used + if c.class != Class::Free && alt != 0 { 1 } else { 0 };
                        kids.push((cost, Job { sc: job.sc, parent: me.clone(), at: i, alt }));
                    }
                }
                if c.class != Class::Free && c.chosen != 0 {
                    used += 1;
                }
            }
            {
                let mut q = shared.q.lock().unwrap();
                if ex.diverged.is_none() {
                    for (k, j) in kids {
                        q.buckets.entry(k + sc.rank).or_default().push(j);
                    }
                }
                q.busy -= 1;
                shared.cv.notify_all();
            }
            let mut o = out.lock().unwrap();
            let st = &mut o.stats;
            st.executions += 1;
            st.steps += ex.steps;
            st.msgs += ex.msgs;
            st.panics += ex.panics;
            st.choices += ex.choices.len() as u64;
            st.states.extend(ex.states.iter());
            if st.finals.insert(ex.final_hash) {
                st.nontrivial += 1;
            }
            st.max_used = st.max_used.max(ex.used);
            st.per_scenario.entry(sc.name.clone()).or_insert((0, true)).0 += 1;
            for (k, v) in &ex.checks {
                *st.checks.entry(k.to_string()).or_insert(0) += v;
            }
            if st.samples.len() < 4 && (st.executions % 97 == 1) {
                let d: Vec<String> = ex.choices.iter().filter(|c| c.chosen != 0 || c.class == Class::Free).map(|c| format!("{}={}", c.tag, c.chosen)).collect();
                let s = format!("{}: [{}] steps={} msgs={} vtime={}ms", sc.name, d.join(", "), ex.steps, ex.msgs, ex.vtime / simrt::MS);
                st.samples.push(s);
            }
            if nth % opts.recheck.max(1) == 0 {
                o.stats.rechecked += 1;
            }
            if let Some(d) = ex.diverged.or(differs) {
                if o.errors.len() < 20 {
                    o.errors.push(format!("{}: {d} (decisions {:?})", sc.name, prefix));
                }
            }
            for v in ex.viols {
                if (opts.stop_on)(&sc.name, &v) {
                    let dup = o.found.iter().any(|f| f.scenario == sc.name && f.viol.kind == v.kind);
                    if o.found.len() < opts.max_found && !dup {
                        let tags = ex.choices.iter().filter(|c| c.chosen != 0 || c.class == Class::Free).map(|c| format!("{}={}", c.tag, c.chosen)).collect();
                        let choices = if ex.choices.is_empty() { prefix.clone() } else { ex.choices.iter().map(|c| c.chosen).collect() };
                        o.found.push(Found { scenario: sc.name.clone(), viol: v, choices, tags });
                    }
                    if o.found.len() >= opts.max_found {
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            }
        }));
    }
    for h in hs {
        h.join().ok();
    }
    for j in shared.q.lock().unwrap().buckets.values().flat_map(|b| b.jobs.values().flatten()) {
        let n = &scs[j.sc].name;
        out.lock().unwrap().stats.per_scenario.entry(n.clone()).or_insert((0, false)).1 = false;
    }
    let left: u64 = shared.q.lock().unwrap().buckets.values().flat_map(|b| b.jobs.values()).map(|v| v.len() as u64).sum();
    let mut o = std::mem::replace(&mut *out.lock().unwrap(), Outcome { stats: Stats::default(), found: vec![], errors: vec![] });
    o.stats.left = left;
    o.stats.exhausted = left == 0;
    o.stats.wall = t0.elapsed().as_secs_f64();
    o
}

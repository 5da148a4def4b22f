//! P15: the backend against a map.
use crate::device::Device;
use anyhow::Result;
use bytes::Bytes;
use sorock::process::{Ballot, Clock, Entry, RaftBallotStore, RaftLogStore};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

pub const LIMIT: Duration = Duration::from_secs(20);

struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}
pub fn poll_once<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Poll<F::Output> {
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    f.as_mut().poll(&mut Context::from_waker(&w))
}
/// None if it takes too long.
pub fn wait<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Option<F::Output> {
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let t = Instant::now();
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
            return Some(x);
        }
        let Some(left) = LIMIT.checked_sub(t.elapsed()) else { return None };
        std::thread::park_timeout(left);
    }
}

#[derive(Debug)]
pub struct Viol {
    pub kind: &'static str,
    pub detail: String,
}
pub fn viol<T>(kind: &'static str, detail: String) -> std::result::Result<T, Viol> {
    Err(Viol { kind, detail })
}
pub type Res<T> = std::result::Result<T, Viol>;

pub const SHARDS: [u32; 4] = [1, 11, u32::MAX, 1 + (1 << 16)];
pub const INDEXES: [u64; 4] = [1, 2, 300, 1 << 40];

/// The entry of a variant at an index.
pub fn entry(i: u64, v: u8) -> Entry {
    let (p, c, cmd): (u64, u64, Vec<u8>) = match v {
        0 => (0, 1, vec![]),
        1 => (1 << 49, 1 << 50, (0..5000u32).map(|x| (x * 7 + i as u32) as u8).collect()),
        _ => (3, 3, vec![0, 255, v]),
    };
    Entry { prev_clock: Clock { term: p, index: i - 1 }, this_clock: Clock { term: c, index: i }, command: Bytes::from(cmd) }
}
pub fn same(a: &Entry, b: &Entry) -> bool {
    a.prev_clock == b.prev_clock && a.this_clock == b.this_clock && a.command == b.command
}
pub fn ballot(v: u8) -> Ballot {
    match v {
        0 => Ballot::new(),
        1 => Ballot { cur_term: 1, voted_for: Some("http://n1:1/".parse::<sorock::NodeId>().unwrap()) },
        2 => Ballot { cur_term: u64::MAX - 1, voted_for: None },
        _ => Ballot { cur_term: 1 << 33, voted_for: Some("https://Node-1.example:65535/a/b?c=d".parse::<sorock::NodeId>().unwrap()) },
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Model {
    pub logs: [BTreeMap<u64, u8>; 4],
    pub ballots: [u8; 4],
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Ins(usize, u64, u8),
    Del(usize, u64),
    Bal(usize, u8),
    Reget(usize),
    Reopen,
    /// these two in one batch behind another insertion
    Pair((usize, u64, u8), (usize, u64, u8)),
}
impl Model {
    pub fn apply(&mut self, op: Op) {
        match op {
            Op::Ins(s, i, v) => {
                self.logs[s].insert(i, v);
            }
            Op::Del(s, i) => {
                self.logs[s] = self.logs[s].split_off(&i);
            }
            Op::Bal(s, v) => self.ballots[s] = v,
            Op::Pair(a, b) => {
                self.apply(Op::Ins(a.0, a.1, a.2));
                self.apply(Op::Ins(b.0, b.1, b.2));
            }
            Op::Reget(_) | Op::Reopen => {}
        }
    }
}

pub type Log = Arc<dyn RaftLogStore>;
pub type Bal = Arc<dyn RaftBallotStore>;

/// A backend on a device with its handles.
pub struct Live {
    pub dev: Device,
    pub be: Option<sorock::backends::redb::Backend>,
    pub h: Vec<Option<(Log, Bal)>>,
}
pub fn get(be: &sorock::backends::redb::Backend, s: usize) -> Result<(Log, Bal)> {
    let (l, b) = be.get(SHARDS[s])?;
    Ok((Arc::new(l), Arc::new(b)))
}
impl Live {
    pub fn open(image: Vec<u8>) -> Res<Self> {
        let dev = Device::new(image);
        let mut l = Live { dev, be: None, h: vec![None; SHARDS.len()] };
        l.start()?;
        Ok(l)
    }
    fn start(&mut self) -> Res<()> {
        let db = match redb::Database::builder().create_with_backend(self.dev.clone()) {
            Ok(db) => db,
            Err(e) => return viol("open", format!("the database does not open: {e}")),
        };
        self.be = Some(sorock::backends::redb::Backend::new(db));
        for s in 0..SHARDS.len() {
            self.reget(s)?;
        }
        Ok(())
    }
    pub fn reget(&mut self, s: usize) -> Res<()> {
        match get(self.be.as_ref().unwrap(), s) {
            Ok(h) => self.h[s] = Some(h),
            Err(e) => return viol("error", format!("no handle for shard {}: {e}", SHARDS[s])),
        }
        Ok(())
    }
    /// Everything is closed afterwards.
    pub fn close(&mut self) -> Res<()> {
        self.h = vec![None; SHARDS.len()];
        self.be = None;
        let t = Instant::now();
        while Arc::strong_count(&self.dev.0) > 1 {
            if t.elapsed() > LIMIT {
                return viol("reaper", "the database is still open long after the backend was dropped".into());
            }
            if t.elapsed() > Duration::from_millis(2) {
                std::thread::sleep(Duration::from_micros(100));
            } else {
                std::thread::yield_now();
            }
        }
        Ok(())
    }
    pub fn log(&self, s: usize) -> Log {
        self.h[s].as_ref().unwrap().0.clone()
    }
    pub fn bal(&self, s: usize) -> Bal {
        self.h[s].as_ref().unwrap().1.clone()
    }
    pub fn insert(&self, s: usize, i: u64, v: u8) -> Pin<Box<dyn Future<Output = Result<()>> + Send>> {
        let l = self.log(s);
        Box::pin(async move { l.insert_entry(i, entry(i, v)).await })
    }
    pub fn delete(&self, s: usize, i: u64) -> Pin<Box<dyn Future<Output = Result<()>> + Send>> {
        let l = self.log(s);
        Box::pin(async move { l.delete_entries_before(i).await })
    }
    pub fn save(&self, s: usize, v: u8) -> Pin<Box<dyn Future<Output = Result<()>> + Send>> {
        let l = self.bal(s);
        Box::pin(async move { l.save_ballot(ballot(v)).await })
    }
    /// The outcome of the operation.
    pub fn perform(&mut self, op: Op) -> Res<Result<()>> {
        let hang = |x: Option<Result<()>>| match x {
            Some(r) => Ok(r),
            None => viol("hang", format!("{op:?} does not return")),
        };
        match op {
            Op::Ins(s, i, v) => hang(wait(&mut self.insert(s, i, v))),
            Op::Del(s, i) => hang(wait(&mut self.delete(s, i))),
            Op::Bal(s, v) => hang(wait(&mut self.save(s, v))),
            Op::Reget(s) => self.reget(s).map(Ok),
            Op::Reopen => {
                self.close()?;
                self.start().map(Ok)
            }
            Op::Pair(a, b) => {
                // the reaper is at the gate with something else while both queue up
                self.dev.close();
                let mut plug = self.insert(2, 9, 2);
                let t = Instant::now();
                loop {
                    match poll_once(&mut plug) {
                        // a device that failed before is not asked again
                        Poll::Ready(Err(e)) => {
                            self.dev.open();
                            return Ok(Err(e));
                        }
                        Poll::Ready(Ok(())) => {
                            self.dev.open();
                            return viol("early", "an insertion returned before anything was written to the device".into());
                        }
                        Poll::Pending => {}
                    }
                    if self.dev.wait_blocked(Duration::from_millis(1)) {
                        break;
                    }
                    if t.elapsed() > LIMIT {
                        self.dev.open();
                        return viol("hang", "an insertion never reaches the device".into());
                    }
                }
                let mut x = self.insert(a.0, a.1, a.2);
                let mut y = self.insert(b.0, b.1, b.2);
                let early = poll_once(&mut x).is_ready() | poll_once(&mut y).is_ready() | poll_once(&mut plug).is_ready();
                self.dev.open();
                if early {
                    return viol("early", "an insertion returned before anything was written to the device".into());
                }
                let p = hang(wait(&mut plug))?;
                let x = hang(wait(&mut x))?;
                let y = hang(wait(&mut y))?;
                Ok(p.and(x).and(y))
            }
        }
    }
    /// What is in the store.
    pub fn read(&self) -> Res<Contents> {
        let mut c = Contents::default();
        for s in 0..SHARDS.len() {
            let l = self.log(s);
            let b = self.bal(s);
            let mut f: Pin<Box<dyn Future<Output = Result<(u64, u64, Vec<(u64, Option<Entry>)>, Ballot)>>>> = Box::pin(async move {
                let head = l.get_head_index().await?;
                let last = l.get_last_index().await?;
                let mut es = vec![];
                for i in [1, 2, 3, 9, 299, 300, 301, 1 << 40, (1 << 40) + 1, 1 << 32] {
                    es.push((i, l.get_entry(i).await?));
                }
                Ok((head, last, es, b.load_ballot().await?))
            });
            match wait(&mut f) {
                Some(Ok(x)) => c.0.push(x),
                Some(Err(e)) => return viol("error", format!("reading shard {} fails: {e}", SHARDS[s])),
                None => return viol("hang", format!("reading shard {} does not return", SHARDS[s])),
            }
        }
        Ok(c)
    }
}
#[derive(Default)]
pub struct Contents(pub Vec<(u64, u64, Vec<(u64, Option<Entry>)>, Ballot)>);
impl Contents {
    /// How it differs from the model; the plug of batches is left out.
    pub fn differs(&self, m: &Model) -> Option<String> {
        for s in 0..SHARDS.len() {
            let (head, last, es, b) = &self.0[s];
            let log = &m.logs[s];
            // the plug
            let plug = s == 2 && es.iter().any(|(i, e)| *i == 9 && e.is_some()) && !log.contains_key(&9);
            let mut want = log.clone();
            if plug {
                want.insert(9, 2);
            }
            let wh = want.keys().next().copied().unwrap_or(0);
            let wl = want.keys().last().copied().unwrap_or(0);
            if *head != wh || *last != wl {
                return Some(format!("shard {}: log goes from {head} to {last} instead of {wh} to {wl}", SHARDS[s]));
            }
            for (i, e) in es {
                match (e, want.get(i)) {
                    (None, None) => {}
                    (Some(e), Some(v)) if same(e, &entry(*i, *v)) => {}
                    (e, w) => {
                        return Some(format!(
                            "shard {} entry {i}: {:?} instead of {:?}",
                            SHARDS[s],
                            e.as_ref().map(|e| (e.prev_clock, e.this_clock, e.command.len())),
                            w.map(|v| {
                                let e = entry(*i, *v);
                                (e.prev_clock, e.this_clock, e.command.len())
                            })
                        ))
                    }
                }
            }
            if *b != ballot(m.ballots[s]) {
                return Some(format!("shard {}: ballot {b:?} instead of {:?}", SHARDS[s], ballot(m.ballots[s])));
            }
        }
        None
    }
}

/// All operations on two shards.
pub fn alphabet() -> Vec<Op> {
    let mut v = vec![];
    for i in INDEXES {
        for x in 0..2 {
            v.push(Op::Ins(0, i, x));
        }
    }
    v.push(Op::Ins(1, 1, 0));
    v.push(Op::Ins(1, 1 << 40, 1));
    for i in [0, 1, 2, 3, 300, 301, u64::MAX] {
        v.push(Op::Del(0, i));
    }
    v.push(Op::Del(1, 2));
    v.push(Op::Del(1, u64::MAX));
    for x in 1..4 {
        v.push(Op::Bal(0, x));
    }
    v.push(Op::Bal(1, 1));
    v.push(Op::Reget(0));
    v.push(Op::Reopen);
    v
}
pub fn small_alphabet() -> Vec<Op> {
    vec![
        Op::Ins(0, 1, 0),
        Op::Ins(0, 2, 1),
        Op::Ins(0, 2, 2),
        Op::Ins(0, 300, 1),
        Op::Ins(1, 2, 0),
        Op::Del(0, 2),
        Op::Del(1, 301),
        Op::Bal(0, 1),
        Op::Bal(1, 2),
        Op::Reget(0),
        Op::Reopen,
        Op::Pair((0, 1, 1), (0, 2, 0)),
        Op::Pair((0, 2, 0), (1, 1, 2)),
        Op::Pair((1, 2, 1), (1, 2, 2)),
    ]
}

/// A sequence on one live instance; contents are compared after every step
/// from `from` on.
pub fn run_seq(ops: &[Op], from: usize) -> Res<Model> {
    let mut l = Live::open(vec![])?;
    let mut m = Model::default();
    for (k, op) in ops.iter().enumerate() {
        let r = l.perform(*op)?;
        if let Err(e) = r {
            return viol("error", format!("{op:?} fails: {e}"));
        }
        m.apply(*op);
        if k >= from {
            if let Some(d) = l.read()?.differs(&m) {
                return viol("map", format!("after {op:?}: {d}"));
            }
        }
    }
    l.close()?;
    Ok(m)
}

/// Insertions in batches of given sizes, a deletion that waits among them.
#[derive(Clone, Debug)]
pub struct Batch {
    pub ins: Vec<(usize, u64, u8)>,
    pub sizes: Vec<usize>,
    /// a deletion started while batch n is at the gate
    pub del: Option<(usize, usize, u64)>,
}
pub fn run_batch(b: &Batch) -> Res<u64> {
    let mut l = Live::open(vec![])?;
    let r = batch_inner(&mut l, b);
    l.dev.open();
    let r = r?;
    l.close()?;
    Ok(r)
}
fn batch_inner(l: &mut Live, b: &Batch) -> Res<u64> {
    let mut before = Model::default();
    before.logs[0].insert(1, 2);
    before.logs[0].insert(300, 0);
    for (i, v) in [(1, 2), (300, 0)] {
        if let Err(e) = l.perform(Op::Ins(0, i, v))? {
            return viol("error", format!("insertion fails: {e}"));
        }
    }
    // the plug occupies the reaper
    l.dev.close();
    let mut at_gate: Vec<Pin<Box<dyn Future<Output = Result<()>> + Send>>> = vec![l.insert(2, 9, 2)];
    let _ = poll_once(&mut at_gate[0]);
    if !l.dev.wait_blocked(LIMIT) {
        return viol("hang", "an insertion never reaches the device".into());
    }
    let mut now = before.clone();
    now.logs[2].insert(9, 2);
    let mut next = 0;
    let mut deletion: Option<std::thread::JoinHandle<Res<Result<()>>>> = None;
    let mut steps = 0;
    for (k, size) in b.sizes.iter().copied().chain([0]).enumerate() {
        // queue the next batch behind the one at the gate
        let mut queued = vec![];
        let mut after = now.clone();
        for _ in 0..size {
            let (s, i, v) = b.ins[next];
            next += 1;
            let mut f = l.insert(s, i, v);
            if poll_once(&mut f).is_ready() {
                return viol("early", format!("insertion {i} returned before it was written"));
            }
            after.apply(Op::Ins(s, i, v));
            queued.push(f);
        }
        if let Some((n, s, i)) = b.del {
            if n == k {
                let log = l.log(s);
                deletion = Some(std::thread::spawn(move || {
                    let mut f: Pin<Box<dyn Future<Output = Result<()>> + Send>> = Box::pin(async move { log.delete_entries_before(i).await });
                    match wait(&mut f) {
                        Some(r) => Ok(r),
                        None => viol("hang", "deletion does not return".into()),
                    }
                }));
            }
        }
        // what is at the gate is neither done nor seen
        for f in at_gate.iter_mut() {
            if poll_once(f).is_ready() {
                return viol("early", "an insertion returned before its batch was written".into());
            }
        }
        if deletion.is_none() {
            if let Some(d) = l.read()?.differs(&before) {
                return viol("early", format!("an insertion is seen before its batch was written: {d}"));
            }
        }
        // let it through; then the next batch stands at the gate
        l.dev.with(|s| s.closed = false);
        l.dev.0 .1.notify_all();
        for f in at_gate.iter_mut() {
            match wait(f) {
                Some(Ok(())) => {}
                Some(Err(e)) => return viol("error", format!("insertion fails: {e}")),
                None => return viol("hang", "an insertion does not return".into()),
            }
        }
        steps += 1;
        if size == 0 {
            before = now.clone();
            break;
        }
        // Whether the reaper already has the next batch through is a race, so
        // wait for it rather than for the gate.
        for f in queued.iter_mut() {
            match wait(f) {
                Some(Ok(())) => {}
                Some(Err(e)) => return viol("error", format!("insertion fails: {e}")),
                None => return viol("hang", "an insertion does not return".into()),
            }
        }
        steps += 1;
        now = after;
        before = now.clone();
        if deletion.is_none() {
            if let Some(d) = l.read()?.differs(&now) {
                return viol("map", format!("after a batch: {d}"));
            }
        }
        // a plug for the next round
        l.dev.close();
        at_gate = vec![l.insert(2, 9, 2)];
        let _ = poll_once(&mut at_gate[0]);
        if !l.dev.wait_blocked(LIMIT) {
            return viol("hang", "an insertion never reaches the device".into());
        }
    }
    l.dev.open();
    if let Some(h) = deletion {
        match h.join() {
            Ok(Ok(Ok(()))) => {}
            Ok(Ok(Err(e))) => return viol("error", format!("deletion fails: {e}")),
            Ok(Err(v)) => return Err(v),
            Err(_) => return viol("error", "deletion panics".into()),
        }
        // somewhere among the insertions
        let (n, s, i) = b.del.unwrap();
        let c = l.read()?;
        let first: usize = b.sizes[..n.min(b.sizes.len())].iter().sum();
        let mut ok = false;
        let mut last = None;
        for at in first..=b.ins.len() {
            let mut m = Model::default();
            m.logs[0].insert(1, 2);
            m.logs[0].insert(300, 0);
            m.logs[2].insert(9, 2);
            for (k, (s2, i2, v2)) in b.ins.iter().enumerate() {
                if k == at {
                    m.apply(Op::Del(s, i));
                }
                m.apply(Op::Ins(*s2, *i2, *v2));
            }
            if at == b.ins.len() {
                m.apply(Op::Del(s, i));
            }
            match c.differs(&m) {
                None => ok = true,
                d => last = d,
            }
        }
        if !ok {
            return viol("map", format!("insertions and a deletion at once fit no order: {}", last.unwrap_or_default()));
        }
    } else if let Some(d) = l.read()?.differs(&before) {
        return viol("map", format!("after all batches: {d}"));
    }
    Ok(steps)
}

pub fn crash_alphabet() -> Vec<Op> {
    vec![
        Op::Ins(0, 1, 0),
        Op::Ins(0, 2, 1),
        Op::Ins(1, 1, 2),
        Op::Del(0, 2),
        Op::Bal(0, 1),
        Op::Bal(0, 2),
        Op::Reget(0),
        Op::Reopen,
        Op::Pair((0, 1, 1), (0, 2, 0)),
        Op::Pair((0, 2, 0), (1, 1, 1)),
    ]
}

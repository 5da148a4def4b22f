//! The cluster under test: real sorock nodes on simulated disks and network,
//! an append-list application, clients, and the record of what they saw.
use crate::monitor::Monitor;
use crate::proto::Command;
use bytes::Bytes;
use simrt::{sim, Class, SendFut, CLIENT, MS};
use sorock::process::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tonic::transport::{reset_network, set_name, set_observer, set_server, Event};

pub type Shard = u32;
pub type Node = u32;

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub prev: (u64, u64),
    pub this: (u64, u64),
    pub cmd: Bytes,
}
impl Ent {
    pub fn command(&self) -> Option<Command> {
        Command::parse(&self.cmd)
    }
    pub fn config(&self) -> Option<BTreeSet<String>> {
        match self.command() {
            Some(Command::Snapshot { membership }) => Some(membership),
            Some(Command::ClusterConfiguration { membership }) => Some(membership),
            _ => None,
        }
    }
    pub fn is_snapshot(&self) -> bool {
        matches!(self.command(), Some(Command::Snapshot { .. }))
    }
}

#[derive(Clone, Default, Debug)]
pub struct Disk {
    pub log: BTreeMap<u64, Ent>,
    pub term: u64,
    pub voted: Option<String>,
    pub snaps: BTreeMap<u64, Vec<u32>>,
    /// Entries whose insertion has not returned.
    pub inflight: BTreeSet<u64>,
    /// Entries behind one that was overwritten: no part of the node's log until they are
    /// inserted again or the node looks for the end of its log.
    pub stale: BTreeSet<u64>,
}
impl Disk {
    /// The end of what the node takes for its log.
    pub fn own_last(&self) -> u64 {
        let i = self.chain_last();
        self.stale.iter().next().map_or(i, |x| i.min(x - 1))
    }
    /// The last entry whose insertion has returned.
    pub fn stable_last(&self) -> (u64, u64) {
        let mut i = self.own_last();
        while self.inflight.contains(&i) {
            i -= 1;
        }
        self.log.get(&i).map(|e| e.this).unwrap_or((0, 0))
    }
    pub fn last(&self) -> u64 {
        self.log.keys().next_back().copied().unwrap_or(0)
    }
    pub fn snap_index(&self) -> u64 {
        self.log.iter().rev().find(|(_, e)| e.is_snapshot()).map(|x| *x.0).unwrap_or(0)
    }
    /// Indices after which the chain of previous clocks breaks (a stale suffix).
    pub fn chain_last(&self) -> u64 {
        let mut prev: Option<(u64, (u64, u64))> = None;
        for (i, e) in &self.log {
            if let Some((pi, pc)) = prev {
                if *i == pi + 1 && e.prev != pc && !e.is_snapshot() {
                    return pi;
                }
            }
            prev = Some((*i, e.this));
        }
        self.last()
    }
    /// Does this disk hold the entry with this clock (directly or in a snapshot)?
    pub fn holds(&self, term: u64, index: u64) -> bool {
        match self.log.get(&index) {
            Some(e) => e.this == (term, index),
            None => self.snap_index() > index,
        }
    }
    pub fn configs(&self) -> Vec<(u64, BTreeSet<String>)> {
        let last = self.chain_last();
        self.log.range(..=last).filter_map(|(i, e)| e.config().map(|c| (*i, c))).collect()
    }
}

#[derive(Clone, Default, Debug)]
pub struct AppVol {
    pub ops: Vec<u32>,
    pub last: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum OpKind {
    Write { op: u32, rid: String },
    Raw { message: Bytes, rid: String },
    Read,
    Add(Node),
    Remove(Node),
    Timeout,
}
#[derive(Clone, Debug)]
pub enum OpRes {
    Pending,
    /// write: (op, position); read: list
    Wrote(u32, u32),
    List(Vec<u32>),
    Done,
    Err(String),
    Garbled(String),
}
#[derive(Clone, Debug)]
pub struct OpRec {
    pub shard: Shard,
    pub node: Node,
    pub kind: OpKind,
    pub start: u64,
    pub end: u64,
    pub res: OpRes,
    task: usize,
}
impl OpRec {
    pub fn ok(&self) -> bool {
        matches!(self.res, OpRes::Wrote(..) | OpRes::List(_) | OpRes::Done)
    }
    pub fn pending(&self) -> bool {
        matches!(self.res, OpRes::Pending)
    }
}

pub struct World {
    pub n: u32,
    pub shards: Vec<Shard>,
    pub disks: RefCell<BTreeMap<(Node, Shard), Disk>>,
    pub apps: RefCell<BTreeMap<(Node, Shard), AppVol>>,
    pub nodes: RefCell<BTreeMap<Node, sorock::RaftNode>>,
    pub incarnation: RefCell<BTreeMap<Node, u32>>,
    pub detached: RefCell<BTreeSet<(Node, Shard)>>,
    pub start_failed: RefCell<Vec<String>>,
    pub mon: RefCell<Monitor>,
    pub ops: RefCell<Vec<OpRec>>,
    pub next_op: Cell<u32>,
    /// storage calls that are points of the exploration
    pub points: RefCell<BTreeSet<&'static str>>,
    pub crash_tags: RefCell<BTreeSet<&'static str>>,
    /// Nodes whose storage fails every operation that changes it.
    pub bad_disks: RefCell<BTreeSet<Node>>,
    pub scripted: RefCell<BTreeSet<Node>>,
    pub app_reads: Cell<u64>,
    /// The logs did not grow from a bootstrap.
    pub preset: Cell<bool>,
    /// operations that formed the cluster
    pub boot_ops: Cell<usize>,
    pub detached_at: RefCell<BTreeMap<(Node, Shard), u64>>,
    /// operations that are known from elsewhere
    pub known: RefCell<BTreeSet<(Shard, u32)>>,
    /// judges the commit index in a heartbeat
    pub on_heartbeat: RefCell<Option<Box<dyn Fn(u64) -> Option<String>>>>,
}

thread_local! {
    static W: RefCell<Option<Rc<World>>> = const { RefCell::new(None) };
}
pub fn w() -> Rc<World> {
    W.with(|w| w.borrow().as_ref().expect("no world").clone())
}
/// Nodes differ in the host, in the port, or in both.
pub fn name(n: Node) -> String {
    if n > 0 && n < 20 {
        let host = (b'a' + ((n - 1) / 2) as u8) as char;
        format!("http://{host}:{}/", 50001 + (n / 2) % 2)
    } else {
        format!("http://n{n}/")
    }
}
pub fn node_of(s: &str) -> Node {
    thread_local!(static KNOWN: std::collections::HashMap<String, Node> = (0..2000).map(|n| (name(n), n)).collect());
    KNOWN.with(|k| k.get(s).copied().unwrap_or(0))
}
fn nid(n: Node) -> sorock_node_id {
    name(n).parse().unwrap()
}
#[allow(non_camel_case_types)]
type sorock_node_id = sorock::NodeId;

pub fn ent(e: &Entry) -> Ent {
    Ent {
        prev: (e.prev_clock.term, e.prev_clock.index),
        this: (e.this_clock.term, e.this_clock.index),
        cmd: e.command.clone(),
    }
}

/// An insertion on its way.
struct Inflight(Node, Shard, u64, (u64, u64), bool);
impl Drop for Inflight {
    fn drop(&mut self) {
        let world = W.with(|w| w.try_borrow().ok().and_then(|w| w.clone()));
        if let Some(w) = world {
            if let Ok(mut d) = w.disks.try_borrow_mut() {
                d.get_mut(&(self.0, self.1)).unwrap().inflight.remove(&self.2);
            }
            if !self.4 {
                if let Ok(mut m) = w.mon.try_borrow_mut() {
                    m.abandoned(self.0, self.1, self.3);
                }
            }
        }
    }
}

async fn pt(tag: &'static str) {
    let on = w().points.borrow().contains(tag);
    if on {
        SendFut(simrt::point(tag)).await
    }
}
/// The operation may fail and do nothing.
fn fp(tag: &'static str) -> anyhow::Result<()> {
    anyhow::ensure!(!w().bad_disks.borrow().contains(&simrt::sim().cur_node()), "{tag} failed");
    anyhow::ensure!(!simrt::fail_point(tag), "{tag} failed");
    Ok(())
}
async fn cp(tag: &'static str) {
    let on = {
        let w = w();
        let c = w.crash_tags.borrow();
        c.contains(tag) || c.contains("*")
    };
    if on {
        SendFut(simrt::crash_point(tag)).await
    }
}

pub struct Log(pub Node, pub Shard);
#[async_trait::async_trait]
impl RaftLogStore for Log {
    async fn insert_entry(&self, i: Index, e: Entry) -> anyhow::Result<()> {
        pt("log.insert").await;
        fp("log.insert")?;
        let mut fl = Inflight(self.0, self.1, i, (e.this_clock.term, i), false);
        {
            let w = w();
            let e = ent(&e);
            sim().log(|| format!("s{} log.insert {i} {:?} prev {:?} {:?}", self.1, e.this, e.prev, e.command()));
            w.mon.borrow_mut().on_insert(&w, self.0, self.1, i, &e);
            let mut d = w.disks.borrow_mut();
            let d = d.get_mut(&(self.0, self.1)).unwrap();
            d.stale.remove(&i);
            if d.log.get(&i).map(|x| x.this) != Some(e.this) {
                d.stale = d.log.range(i + 1..).map(|x| *x.0).collect();
            }
            d.log.insert(i, e);
            d.inflight.insert(i);
        }
        cp("log.insert").await;
        pt("log.inserted").await;
        fl.4 = true;
        Ok(())
    }
    async fn delete_entries_before(&self, i: Index) -> anyhow::Result<()> {
        pt("log.delete").await;
        fp("log.delete")?;
        {
            let w = w();
            let mut d = w.disks.borrow_mut();
            let d = d.get_mut(&(self.0, self.1)).unwrap();
            let keep = d.log.split_off(&i);
            let n = d.log.len();
            if n > 0 {
                sim().log(|| format!("s{} log.delete before {i}: {n}", self.1));
            }
            d.log = keep;
            d.stale = d.stale.split_off(&i);
            if n > 0 {
                let d = d.clone();
                w.mon.borrow_mut().on_truncate_head(&w, self.0, self.1, &d);
            }
        }
        cp("log.delete").await;
        Ok(())
    }
    async fn get_entry(&self, i: Index) -> anyhow::Result<Option<Entry>> {
        pt("log.get").await;
        let w = w();
        let d = w.disks.borrow();
        Ok(d[&(self.0, self.1)].log.get(&i).map(|e| Entry {
            prev_clock: sorock_clock(e.prev),
            this_clock: sorock_clock(e.this),
            command: e.cmd.clone(),
        }))
    }
    async fn get_head_index(&self) -> anyhow::Result<Index> {
        let w = w();
        let d = w.disks.borrow();
        Ok(d[&(self.0, self.1)].log.keys().next().copied().unwrap_or(0))
    }
    async fn get_last_index(&self) -> anyhow::Result<Index> {
        pt("log.last").await;
        let w = w();
        let mut d = w.disks.borrow_mut();
        let d = d.get_mut(&(self.0, self.1)).unwrap();
        d.stale.clear();
        Ok(d.last())
    }
}
fn sorock_clock(c: (u64, u64)) -> Clock {
    Clock { term: c.0, index: c.1 }
}

pub struct Bal(pub Node, pub Shard);
#[async_trait::async_trait]
impl RaftBallotStore for Bal {
    async fn save_ballot(&self, v: Ballot) -> anyhow::Result<()> {
        pt("ballot.save").await;
        fp("ballot.save")?;
        let changed;
        {
            let w = w();
            let voted = v.voted_for.as_ref().map(|x| x.to_string());
            let old = {
                let d = w.disks.borrow();
                let d = &d[&(self.0, self.1)];
                (d.term, d.voted.clone())
            };
            changed = old != (v.cur_term, voted.clone());
            if changed {
                sim().log(|| format!("s{} ballot.save {} {:?}", self.1, v.cur_term, voted));
            }
            let cfgs = w.disks.borrow()[&(self.0, self.1)].configs();
            w.mon.borrow_mut().on_ballot(self.0, self.1, old, (v.cur_term, voted.clone()), &cfgs, &w.scripted.borrow());
            let mut d = w.disks.borrow_mut();
            let d = d.get_mut(&(self.0, self.1)).unwrap();
            d.term = v.cur_term;
            d.voted = voted;
        }
        if changed {
            cp("ballot.save").await;
        }
        Ok(())
    }
    async fn load_ballot(&self) -> anyhow::Result<Ballot> {
        pt("ballot.load").await;
        let w = w();
        let d = w.disks.borrow();
        let d = &d[&(self.0, self.1)];
        Ok(Ballot { cur_term: d.term, voted_for: d.voted.as_ref().map(|x| x.parse().unwrap()) })
    }
}

pub fn enc_list(v: &[u32]) -> Bytes {
    let mut o = vec![b'L'];
    for x in v {
        o.extend_from_slice(&x.to_be_bytes());
    }
    o.into()
}
pub fn dec_list(b: &[u8]) -> Option<Vec<u32>> {
    if b.first() != Some(&b'L') || b.len() % 4 != 1 {
        return None;
    }
    Some(b[1..].chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect())
}
/// A snapshot does not tell its length.
pub fn enc_snap(v: &[u32]) -> Vec<u8> {
    v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
pub fn dec_snap(b: &[u8]) -> Vec<u32> {
    b.chunks(4).map(|c| c.iter().fold(0, |a, x| a << 8 | *x as u32)).collect()
}
/// Distinct ids that agree when cut, trimmed or compared without case.
pub fn request_id(op: u32) -> String {
    let k = op / 6;
    match op % 6 {
        0 => format!("r{k}"),
        1 => format!("R{k}"),
        2 => format!("r{k} "),
        3 => format!("r{k}{}", "x".repeat(100)),
        4 => format!("r{k}{}y", "x".repeat(100)),
        _ => format!("{}r{k}", "x".repeat(100)),
    }
}
pub fn enc_write(op: u32) -> Bytes {
    let mut o = vec![b'W'];
    o.extend_from_slice(&op.to_be_bytes());
    o.into()
}
pub fn dec_write(b: &[u8]) -> Option<u32> {
    if b.len() != 5 || b[0] != b'W' {
        return None;
    }
    Some(u32::from_be_bytes(b[1..5].try_into().unwrap()))
}

pub struct TestApp(pub Node, pub Shard);
#[async_trait::async_trait]
impl RaftApp for TestApp {
    async fn process_read(&self, _request: &[u8]) -> anyhow::Result<Bytes> {
        pt("app.read").await;
        let w = w();
        w.app_reads.set(w.app_reads.get() + 1);
        let a = w.apps.borrow();
        let ops = &a[&(self.0, self.1)].ops;
        w.mon.borrow_mut().on_app_read(&w, self.0, self.1, ops);
        Ok(enc_list(ops))
    }
    async fn process_write(&self, request: &[u8], i: Index) -> anyhow::Result<Bytes> {
        pt("app.write").await;
        fp("app.write")?;
        let r = {
            let w = w();
            let Some(op) = dec_write(request) else {
                let sent = w.ops.borrow().iter().any(|o| o.shard == self.1 && matches!(&o.kind, OpKind::Raw { message, .. } if &message[..] == request));
                if sent {
                    let mut a = w.apps.borrow_mut();
                    let a = a.get_mut(&(self.0, self.1)).unwrap();
                    if i <= a.last {
                        w.mon.borrow_mut().report("apply-order", format!("n{} s{}: entry {i} applied after {}", self.0, self.1, a.last));
                    }
                    a.last = i;
                    sim().log(|| format!("s{} app.write @{i} raw {request:?}", self.1));
                    return Ok(Bytes::copy_from_slice(request));
                }
                w.mon.borrow_mut().report("garbled", format!("n{} s{} got an unknown command at {i}", self.0, self.1));
                anyhow::bail!("bad request")
            };
            let (pos, ops) = {
                let mut a = w.apps.borrow_mut();
                let a = a.get_mut(&(self.0, self.1)).unwrap();
                let last = a.last;
                w.mon.borrow_mut().on_apply(&w, self.0, self.1, i, op, last, &a.ops);
                let pos = a.ops.len() as u32;
                a.ops.push(op);
                a.last = i;
                (pos, a.ops.clone())
            };
            sim().log(|| format!("s{} app.write @{i} op {op} -> {ops:?}", self.1));
            w.mon.borrow_mut().on_state(&w, self.0, self.1, i, &ops);
            let mut o = vec![b'R'];
            o.extend_from_slice(&op.to_be_bytes());
            o.extend_from_slice(&pos.to_be_bytes());
            Ok(o.into())
        };
        pt("app.written").await;
        r
    }
    async fn install_snapshot(&self, i: Index) -> anyhow::Result<()> {
        pt("app.install").await;
        fp("app.install")?;
        let w = w();
        let snap = w.disks.borrow()[&(self.0, self.1)].snaps.get(&i).cloned();
        let Some(snap) = snap else {
            w.mon.borrow_mut().report("snapshot", format!("n{} s{} told to install snapshot {i} which it does not have", self.0, self.1));
            anyhow::bail!("no snapshot {i}")
        };
        sim().log(|| format!("s{} app.install @{i} {snap:?}", self.1));
        w.mon.borrow_mut().on_state(&w, self.0, self.1, i, &snap);
        let mut a = w.apps.borrow_mut();
        let a = a.get_mut(&(self.0, self.1)).unwrap();
        if a.last > i {
            w.mon.borrow_mut().report("rollback", format!("n{} s{} application at {} rolled back to snapshot {i}", self.0, self.1, a.last));
        }
        a.ops = snap;
        a.last = i;
        Ok(())
    }
    async fn save_snapshot(&self, st: SnapshotStream, i: Index) -> anyhow::Result<()> {
        let mut st = st;
        let mut buf = vec![];
        while let Some(c) = SendFut(futures::StreamExt::next(&mut st)).await {
            buf.extend_from_slice(&c?);
        }
        pt("app.save").await;
        fp("app.save")?;
        // whatever came without an error is taken for the snapshot
        let v = dec_snap(&buf);
        {
            let w = w();
            sim().log(|| format!("s{} app.save_snapshot @{i} {v:?}", self.1));
            w.mon.borrow_mut().on_state(&w, self.0, self.1, i, &v);
            w.disks.borrow_mut().get_mut(&(self.0, self.1)).unwrap().snaps.insert(i, v);
        }
        cp("app.save").await;
        Ok(())
    }
    async fn open_snapshot(&self, i: Index) -> anyhow::Result<SnapshotStream> {
        pt("app.open").await;
        fp("app.open")?;
        let w = w();
        let s = w.disks.borrow()[&(self.0, self.1)].snaps.get(&i).cloned();
        let Some(s) = s else {
            anyhow::bail!("no snapshot {i}")
        };
        // a chunk for each operation; reading may fail on the way
        let b = enc_snap(&s);
        let mut chunks = vec![];
        for (i, c) in b.chunks(4).enumerate() {
            if i == 1 {
                chunks.push(Ok(Bytes::new()));
                if let Err(e) = fp("app.chunk") {
                    chunks.push(Err(e));
                    break;
                }
            }
            chunks.push(Ok(Bytes::copy_from_slice(c)));
        }
        Ok(Box::pin(futures::stream::iter(chunks)))
    }
    async fn delete_snapshots_before(&self, i: Index) -> anyhow::Result<()> {
        {
            let w = w();
            let mut d = w.disks.borrow_mut();
            let d = d.get_mut(&(self.0, self.1)).unwrap();
            let keep = d.snaps.split_off(&i);
            let n = d.snaps.len();
            d.snaps = keep;
            if n > 0 {
                sim().log(|| format!("s{} app.delete_snapshots before {i}", self.1));
                let d = d.clone();
                w.mon.borrow_mut().on_snapshot_delete(self.0, self.1, &d);
            }
        }
        Ok(())
    }
    async fn get_latest_snapshot(&self) -> anyhow::Result<Index> {
        let w = w();
        let d = w.disks.borrow();
        Ok(d[&(self.0, self.1)].snaps.keys().next_back().copied().unwrap_or(0))
    }
}

pub fn install(n: u32, shards: Vec<Shard>) -> Rc<World> {
    reset_network();
    let world = Rc::new(World {
        n,
        shards: shards.clone(),
        disks: Default::default(),
        apps: Default::default(),
        nodes: Default::default(),
        incarnation: Default::default(),
        detached: Default::default(),
        start_failed: Default::default(),
        mon: RefCell::new(Monitor::new(n)),
        ops: Default::default(),
        next_op: Cell::new(1),
        points: Default::default(),
        crash_tags: Default::default(),
        bad_disks: Default::default(),
        scripted: Default::default(),
        app_reads: Cell::new(0),
        preset: Cell::new(false),
        boot_ops: Default::default(),
        detached_at: Default::default(),
        known: Default::default(),
        on_heartbeat: Default::default(),
    });
    for i in 1..=n {
        set_name(&name(i), i);
        for s in &shards {
            world.disks.borrow_mut().insert((i, *s), Disk::default());
            world.apps.borrow_mut().insert((i, *s), AppVol::default());
        }
    }
    set_name("client", CLIENT);
    W.with(|c| *c.borrow_mut() = Some(world.clone()));
    set_observer(Some(Rc::new(|e: &Event| {
        let w = w();
        crate::monitor::observe(&w, e);
    })));
    simrt::set_crash_hook(Some(Rc::new(|n| w().crash(n))));
    world
}
pub fn uninstall() {
    let world = W.with(|c| c.borrow().clone());
    if let Some(world) = &world {
        for i in 1..=world.n {
            sim().kill_node(i);
        }
        let ns = std::mem::take(&mut *world.nodes.borrow_mut());
        drop(ns);
    }
    simrt::set_crash_hook(None);
    reset_network();
    simrt::Sim::uninstall();
    W.with(|c| *c.borrow_mut() = None);
}

impl World {
    // ---- nodes -----------------------------------------------------------
    pub fn start(self: &Rc<Self>, n: Node) {
        *self.incarnation.borrow_mut().entry(n).or_insert(0) += 1;
        sim().log(|| format!("start n{n}"));
        sim().alive.borrow_mut().insert(n);
        let w = self.clone();
        sim().spawn_on(n, async move {
            let node = sorock::RaftNode::new(nid(n));
            w.nodes.borrow_mut().insert(n, node.clone());
            for s in w.shards.clone() {
                if w.detached.borrow().contains(&(n, s)) {
                    continue;
                }
                w.attach_inner(&node, n, s).await;
            }
            let svc = sorock::raft_service::new(node);
            set_server(&name(n), n, Some(tonic::transport::serve(svc)));
        });
    }
    async fn attach_inner(self: &Rc<Self>, node: &sorock::RaftNode, n: Node, s: Shard) {
        let driver = node.get_driver(s);
        match RaftProcess::new(TestApp(n, s), Log(n, s), Bal(n, s), driver).await {
            Ok(p) => node.attach_process(s, p),
            Err(e) => {
                self.start_failed.borrow_mut().push(format!("n{n} s{s}: {e:#}"));
                self.mon.borrow_mut().report("restart", format!("n{n} s{s} failed to start: {e:#}"));
            }
        }
    }
    pub fn crash(&self, n: Node) {
        sim().log(|| format!("crash n{n}"));
        sim().alive.borrow_mut().remove(&n);
        self.mon.borrow_mut().node_gone(n);
        set_server(&name(n), n, None);
        sim().kill_node(n);
        let node = self.nodes.borrow_mut().remove(&n);
        drop(node);
        sim().kill_node(n);
        for s in &self.shards {
            self.apps.borrow_mut().insert((n, *s), AppVol::default());
            if let Some(d) = self.disks.borrow_mut().get_mut(&(n, *s)) {
                d.inflight.clear();
            }
            self.mon.borrow_mut().forget(n, *s);
        }
    }
    pub fn alive(&self, n: Node) -> bool {
        sim().is_alive(n)
    }
    pub fn detach(self: &Rc<Self>, n: Node, s: Shard) {
        self.detached.borrow_mut().insert((n, s));
        self.detached_at.borrow_mut().insert((n, s), sim().now());
        let node = self.nodes.borrow().get(&n).cloned();
        if let Some(node) = node {
            sim().spawn_on(n, async move {
                node.detach_process(s);
            });
        }
    }
    pub fn attach(self: &Rc<Self>, n: Node, s: Shard) {
        self.detached.borrow_mut().remove(&(n, s));
        let node = self.nodes.borrow().get(&n).cloned();
        if let Some(node) = node {
            let w = self.clone();
            w.apps.borrow_mut().insert((n, s), AppVol::default());
            w.mon.borrow_mut().forget(n, s);
            sim().spawn_on(n, async move {
                w.attach_inner(&node, n, s).await;
            });
        }
    }
    /// Application-level snapshot at the last applied write.
    pub fn snapshot(&self, n: Node, s: Shard) -> u64 {
        let a = self.apps.borrow()[&(n, s)].clone();
        if a.last == 0 {
            return 0;
        }
        sim().log(|| format!("n{n} s{s} makes snapshot @{} {:?}", a.last, a.ops));
        self.disks.borrow_mut().get_mut(&(n, s)).unwrap().snaps.insert(a.last, a.ops);
        a.last
    }

    // ---- time ------------------------------------------------------------
    pub fn run(&self, ms: u64) {
        let s = sim();
        s.run_until(s.now() + ms * MS, || false);
        crate::explore::note_state(self);
    }
    /// Run until `f` holds, at most `ms`; true if it came to hold.
    pub fn run_till(&self, ms: u64, f: impl Fn() -> bool) -> bool {
        self.run_till_by(10, ms, f)
    }
    pub fn run_till_by(&self, step: u64, ms: u64, f: impl Fn() -> bool) -> bool {
        let s = sim();
        if f() {
            return true;
        }
        let end = s.now() + ms * MS;
        while s.now() < end && !s.overrun.get() {
            let t = (s.now() + step * MS).min(end);
            s.run_until(t, || false);
            if f() {
                return true;
            }
        }
        f()
    }

    // ---- links -----------------------------------------------------------
    pub fn cut(&self, a: Node, b: Node) {
        let s = sim();
        let mut d = s.down.borrow_mut();
        d.insert((a, b));
        d.insert((b, a));
    }
    pub fn cut_one_way(&self, a: Node, b: Node) {
        sim().down.borrow_mut().insert((a, b));
    }
    pub fn isolate(&self, a: Node) {
        for b in 1..=self.n {
            if b != a {
                self.cut(a, b);
            }
        }
    }
    pub fn heal(&self) {
        sim().down.borrow_mut().clear();
    }
    /// Only nodes of the same group can talk.
    pub fn partition(&self, groups: &[&[Node]]) {
        self.heal();
        for a in 1..=self.n {
            for b in 1..=self.n {
                if a != b && !groups.iter().any(|g| g.contains(&a) && g.contains(&b)) {
                    self.cut_one_way(a, b);
                }
            }
        }
    }

    // ---- clients ---------------------------------------------------------
    fn submit(self: &Rc<Self>, shard: Shard, node: Node, kind: OpKind) -> usize {
        let i = self.ops.borrow().len();
        let now = sim().now();
        self.ops.borrow_mut().push(OpRec {
            shard,
            node,
            kind: kind.clone(),
            start: now,
            end: u64::MAX,
            res: OpRes::Pending,
            task: usize::MAX,
        });
        sim().log(|| format!("client op{i} s{shard} via n{node}: {kind:?}"));
        let w = self.clone();
        let task = sim().spawn_on(CLIENT, async move {
            let ep = tonic::transport::Endpoint::new(name(node)).unwrap();
            let mut cli = sorock::client::RaftClient::new(ep.connect_lazy());
            let res = match kind {
                OpKind::Write { op, rid } => {
                    let req = sorock::client::WriteRequest {
                        shard_id: shard,
                        message: enc_write(op),
                        request_id: rid,
                    };
                    match cli.write(req).await {
                        Ok(r) => {
                            let b = r.into_inner().message;
                            if b.len() == 9 && b[0] == b'R' {
                                OpRes::Wrote(
                                    u32::from_be_bytes(b[1..5].try_into().unwrap()),
                                    u32::from_be_bytes(b[5..9].try_into().unwrap()),
                                )
                            } else {
                                OpRes::Garbled(format!("{b:?}"))
                            }
                        }
                        Err(e) => OpRes::Err(e.message().to_string()),
                    }
                }
                OpKind::Raw { message, rid } => {
                    let req = sorock::client::WriteRequest { shard_id: shard, message, request_id: rid };
                    let want = req.message.clone();
                    match cli.write(req).await {
                        Ok(r) if r.get_ref().message == want => OpRes::Done,
                        Ok(r) => OpRes::Garbled(format!("{:?} for the request {want:?}", r.get_ref().message)),
                        Err(e) => OpRes::Err(e.message().to_string()),
                    }
                }
                OpKind::Read => {
                    let req = sorock::client::ReadRequest { shard_id: shard, message: Bytes::from_static(b"Q") };
                    match cli.read(req).await {
                        Ok(r) => {
                            let b = r.into_inner().message;
                            match dec_list(&b) {
                                Some(v) => OpRes::List(v),
                                None => OpRes::Garbled(format!("{b:?}")),
                            }
                        }
                        Err(e) => OpRes::Err(e.message().to_string()),
                    }
                }
                OpKind::Add(x) => {
                    let req = sorock::client::AddServerRequest { shard_id: shard, server_id: name(x) };
                    match cli.add_server(req).await {
                        Ok(_) => OpRes::Done,
                        Err(e) => OpRes::Err(e.message().to_string()),
                    }
                }
                OpKind::Remove(x) => {
                    let req = sorock::client::RemoveServerRequest { shard_id: shard, server_id: name(x) };
                    match cli.remove_server(req).await {
                        Ok(_) => OpRes::Done,
                        Err(e) => OpRes::Err(e.message().to_string()),
                    }
                }
                OpKind::Timeout => {
                    match cli.send_timeout_now(sorock::client::TimeoutNow { shard_id: shard }).await {
                        Ok(_) => OpRes::Done,
                        Err(e) => OpRes::Err(e.message().to_string()),
                    }
                }
            };
            w.finish(i, res);
        });
        self.ops.borrow_mut()[i].task = task;
        i
    }
    fn finish(self: &Rc<Self>, i: usize, res: OpRes) {
        let now = sim().now();
        sim().log(|| format!("client op{i} -> {res:?}"));
        let rec = {
            let mut o = self.ops.borrow_mut();
            let r = &mut o[i];
            r.res = res;
            r.end = now;
            r.clone()
        };
        self.mon.borrow_mut().on_response(self, i, &rec);
    }
    pub fn write(self: &Rc<Self>, shard: Shard, node: Node) -> usize {
        let op = self.next_op.get();
        self.next_op.set(op + 1);
        self.submit(shard, node, OpKind::Write { op, rid: request_id(op) })
    }
    /// Send an earlier write again (same request id), maybe elsewhere.
    pub fn retry(self: &Rc<Self>, i: usize, node: Node) -> usize {
        let r = self.ops.borrow()[i].clone();
        self.submit(r.shard, node, r.kind)
    }
    pub fn read(self: &Rc<Self>, shard: Shard, node: Node) -> usize {
        self.submit(shard, node, OpKind::Read)
    }
    pub fn add(self: &Rc<Self>, shard: Shard, via: Node, x: Node) -> usize {
        self.submit(shard, via, OpKind::Add(x))
    }
    pub fn remove(self: &Rc<Self>, shard: Shard, via: Node, x: Node) -> usize {
        self.submit(shard, via, OpKind::Remove(x))
    }
    pub fn timeout_now(self: &Rc<Self>, shard: Shard, node: Node) -> usize {
        self.submit(shard, node, OpKind::Timeout)
    }
    /// The client goes away.
    pub fn cancel(&self, i: usize) {
        let t = {
            let mut o = self.ops.borrow_mut();
            if !o[i].pending() {
                return;
            }
            o[i].res = OpRes::Err("cancelled by client".into());
            o[i].task
        };
        sim().abort(t);
    }
    pub fn op(&self, i: usize) -> OpRec {
        self.ops.borrow()[i].clone()
    }
    pub fn is_pending(&self, i: usize) -> bool {
        self.ops.borrow()[i].pending()
    }
    pub fn acked(&self, i: usize) -> bool {
        self.ops.borrow()[i].ok()
    }

    /// A write whose content is not one of the application's.
    pub fn raw_write(self: &Rc<Self>, shard: Shard, node: Node, message: bytes::Bytes, rid: &str) -> usize {
        self.submit(shard, node, OpKind::Raw { message, rid: rid.to_string() })
    }
    pub fn known_op(&self, s: Shard, op: u32) {
        self.known.borrow_mut().insert((s, op));
    }
    /// At most one node behaves as the leader of each shard.
    pub fn one_leader(&self) {
        self.run(1500);
        for s in &self.shards {
            let v = self.mon.borrow().recent_leaders(*s, 900);
            if v.len() > 1 {
                self.mon.borrow_mut().report("stepdown", format!("s{s}: {v:?} all act as leaders though the network is fine"));
            }
        }
    }

    // ---- observation -----------------------------------------------------
    /// The node that most recently proved to be leader, by heartbeats.
    pub fn leader(&self, s: Shard) -> Option<Node> {
        self.mon.borrow().leader_of(s)
    }
    pub fn disk(&self, n: Node, s: Shard) -> Disk {
        self.disks.borrow()[&(n, s)].clone()
    }
    pub fn state(&self, n: Node, s: Shard) -> Vec<u32> {
        self.apps.borrow()[&(n, s)].ops.clone()
    }

    // ---- standard phases -------------------------------------------------
    /// Form a cluster of nodes 1..=k (node 1 first) on every shard, without
    /// exploring anything on the way.
    pub fn bootstrap(self: &Rc<Self>, k: u32) -> bool {
        for n in 1..=self.n {
            if !self.scripted.borrow().contains(&n) {
                self.start(n);
            }
        }
        self.run(5);
        for s in self.shards.clone() {
            for x in 1..=k {
                let mut ok = false;
                for _ in 0..5 {
                    let i = self.add(s, 1, x);
                    self.run_till(3000, || !self.is_pending(i));
                    if self.acked(i) {
                        ok = true;
                        break;
                    }
                    self.run(300);
                }
                if !ok {
                    self.mon.borrow_mut().report("bootstrap", format!("could not add n{x} to s{s}"));
                    return false;
                }
            }
            // everybody knows the members
            let ok = self.run_till(3000, || {
                (1..=k).all(|n| {
                    self.disks.borrow()[&(n, s)].configs().last().map_or(0, |c| c.1.len()) == k as usize
                })
            });
            if !ok {
                self.mon.borrow_mut().report("bootstrap", format!("members of s{s} do not all learn the membership"));
                return false;
            }
        }
        self.boot_ops.set(self.ops.borrow().len());
        // A few heartbeats: failure detectors have a history, commits are known.
        self.run(1500);
        true
    }
    /// Members according to the last configuration in the leader's log, or in
    /// the most advanced log.
    pub fn members(&self, s: Shard) -> BTreeSet<Node> {
        let disks = self.disks.borrow();
        let best = match self.leader(s) {
            Some(l) => Some(&disks[&(l, s)]),
            None => None,
        };
        let best = best.or_else(|| {
            (1..=self.n)
                .map(|n| &disks[&(n, s)])
                .max_by_key(|d| d.log.values().next_back().map(|e| e.this).unwrap_or((0, 0)))
        });
        let Some(d) = best else { return BTreeSet::new() };
        d.configs().last().map(|c| c.1.iter().map(|x| node_of(x)).collect()).unwrap_or_default()
    }
    /// Stop all faults, wait until the cluster serves again and all members
    /// agree, and check the history. `true` if it converged.
    pub fn heal_and_converge(self: &Rc<Self>, limit_ms: u64) -> bool {
        let all = self.converge(&self.shards.clone(), limit_ms);
        self.mon.borrow_mut().check_history(self);
        if all {
            self.check_rest();
            self.check_used_config();
            self.check_answered();
        }
        all
    }
    /// Everybody has got an answer, be it an error. (A node that was removed hears of nothing,
    /// so it does not answer what others have passed on to it either.)
    fn check_answered(self: &Rc<Self>) {
        let serves: BTreeSet<(Node, Shard)> = self.shards.iter().filter(|s| { let m = self.members(**s); (1..=self.n).all(|n| m.contains(&n) || self.disk(n, **s).log.is_empty()) }).flat_map(|s| self.members(*s).into_iter().filter(|n| !self.detached.borrow().contains(&(*n, *s))).map(|n| (n, *s))).collect();
        let o = self.ops.borrow();
        let left: Vec<String> = o.iter().enumerate().filter(|(_, o)| o.pending() && serves.contains(&(o.node, o.shard))).map(|(i, o)| format!("op{i} {:?} through n{} at {} ms", o.kind, o.node, o.start / MS)).collect();
        drop(o);
        let mut m = self.mon.borrow_mut();
        m.tick("answered");
        if let Some(l) = left.first() {
            m.report("unanswered", format!("the cluster works again, but {l} was never answered"));
        }
    }
    /// Left alone, a cluster that works stays as it is: leaders lead, terms and logs do not move,
    /// and the nodes do little.
    fn check_rest(self: &Rc<Self>) {
        let s = sim();
        // what was delayed has to come through first
        let longest = s.hold_menu.borrow().iter().copied().max().unwrap_or(0);
        self.run(1000.max((s.last_deviation.get() + longest.max(3000 * MS) + 1000 * MS).saturating_sub(s.now()) / MS));
        let busy = || (0..self.ops.borrow().len()).any(|i| self.is_pending(i));
        if busy() || !self.scripted.borrow().is_empty() {
            return;
        }
        let look = || -> Vec<_> {
            let mut v = vec![];
            for sh in self.shards.clone() {
                for n in self.members(sh) {
                    if n <= self.n && self.alive(n) && !self.detached.borrow().contains(&(n, sh)) {
                        let d = self.disk(n, sh);
                        v.push((sh, n, self.leader(sh), d.term, d.voted.clone(), d.stable_last()));
                    }
                }
            }
            v
        };
        // (the last entries of a leader may still be on their way)
        let same = |v: &[(Shard, Node, Option<Node>, u64, Option<String>, (u64, u64))]| v.windows(2).all(|w| w[0].0 != w[1].0 || w[0].5 == w[1].5);
        self.run_till(8000, || same(&look()));
        let before = look();
        if !same(&before) {
            self.mon.borrow_mut().report("restless", format!("(shard, node, leader, term, vote, last entry): logs stay different: {before:?}"));
        }
        let (mut before, mut t0, mut steps, mut msgs) = (before, s.now(), s.steps.get(), s.msgs.get());
        self.run(2000);
        let mut after = look();
        if before != after {
            // (an election timeout that began before the cluster recovered lasts up to 3 s)
            self.run(4000);
            (before, t0, steps, msgs) = (look(), s.now(), s.steps.get(), s.msgs.get());
            self.run(2000);
            after = look();
        }
        // (some 80 steps and 8 messages of a replica in a second)
        let k = before.len() as u64 * (s.now() - t0) / MS / 1000;
        let (steps, msgs) = (s.steps.get() - steps, s.msgs.get() - msgs);
        self.mon.borrow_mut().tick("rest");
        if let Some((b, a)) = before.iter().zip(&after).find(|(b, a)| b != a) {
            self.mon.borrow_mut().report("restless", format!("nothing happens, but (shard, node, leader, term, vote, last entry) {b:?} becomes {a:?}"));
        }
        if steps > 2000 * k || msgs > 200 * k {
            self.mon.borrow_mut().report("restless", format!("nothing happens, but {} replicas make {steps} steps and send {msgs} messages in 2 s", before.len()));
        }
    }
    /// Where configurations changed (and perhaps went away again), every member has to act on
    /// the one in the log: it campaigns among the members and leads the members.
    fn check_used_config(self: &Rc<Self>) {
        for sh in self.shards.clone() {
            let changed = self.preset.get() || self.ops.borrow()[self.boot_ops.get()..].iter().any(|o| o.shard == sh && matches!(o.kind, OpKind::Add(_) | OpKind::Remove(_)));
            let ms = self.members(sh);
            let here = |n: &Node| *n <= self.n && self.alive(*n) && !self.detached.borrow().contains(&(*n, sh)) && !self.scripted.borrow().contains(n);
            if !changed || !ms.iter().all(here) {
                continue;
            }
            for m in ms.iter().copied() {
                let sent = |what: &str| -> BTreeSet<Node> {
                    let mon = self.mon.borrow();
                    let r = mon.raft_sent.as_ref().unwrap();
                    r.iter().filter(|x| x.0 == sh && x.1 == m && x.3 == what).map(|x| x.2).collect()
                };
                self.mon.borrow_mut().raft_sent = Some(Default::default());
                self.timeout_now(sh, m);
                self.run(400);
                if self.members(sh) != ms {
                    break;
                }
                let votes = sent("vote");
                if !votes.is_subset(&ms) {
                    self.mon.borrow_mut().report("config-used", format!("s{sh}: n{m} asks {votes:?} for votes, but the members are {ms:?}"));
                }
                if self.leader(sh) != Some(m) {
                    continue;
                }
                self.mon.borrow_mut().raft_sent = Some(Default::default());
                let others: BTreeSet<Node> = ms.iter().copied().filter(|x| *x != m).collect();
                self.run(700);
                // (a heartbeat may still be held back)
                self.run_till(5000, || sent("heartbeat").is_superset(&others) || self.leader(sh) != Some(m));
                if self.members(sh) != ms || self.leader(sh) != Some(m) {
                    break;
                }
                let (hb, st) = (sent("heartbeat"), sent("stream"));
                if hb != others {
                    self.mon.borrow_mut().report("config-used", format!("s{sh}: the leader n{m} sends heartbeats to {hb:?}, but the other members are {others:?}"));
                }
                if !st.is_subset(&others) {
                    self.mon.borrow_mut().report("config-used", format!("s{sh}: the leader n{m} replicates to {st:?}, but the other members are {others:?}"));
                }
            }
            self.mon.borrow_mut().raft_sent = None;
        }
    }
    /// All faults end; these shards have to serve and to agree.
    pub fn converge(self: &Rc<Self>, shards: &[Shard], limit_ms: u64) -> bool {
        let s = sim();
        for c in [Class::Hold, Class::Drop, Class::Crash, Class::Cancel, Class::Fail] {
            s.enable(c, false);
        }
        self.heal();
        self.bad_disks.borrow_mut().clear();
        s.skew.borrow_mut().clear();
        for n in 1..=self.n {
            if !self.alive(n) && !self.scripted.borrow().contains(&n) && self.incarnation.borrow().get(&n).copied().unwrap_or(0) > 0 {
                self.start(n);
            }
        }
        let mut all = true;
        for sh in shards.iter().copied() {
            let t0 = s.now();
            let end = t0 + limit_ms * MS;
            let mut done = false;
            let mut why = String::new();
            'outer: while s.now() < end && !s.overrun.get() {
                // one write through each member, with patience
                let ms: Vec<Node> = self.members(sh).into_iter().filter(|n| *n <= self.n && self.alive(*n) && !self.detached.borrow().contains(&(*n, sh))).collect();
                if ms.is_empty() {
                    why = "no members".into();
                    self.run(200);
                    continue;
                }
                for m in &ms {
                    let i = self.write(sh, *m);
                    self.run_till(2000, || !self.is_pending(i));
                    if !self.acked(i) {
                        why = format!("write through n{m}: {:?}", self.op(i).res);
                        if self.is_pending(i) {
                            self.cancel(i);
                        }
                        self.run(400);
                        continue 'outer;
                    }
                }
                // all agree
                let agree = || {
                    let a = self.apps.borrow();
                    let first = &a[&(ms[0], sh)].ops;
                    ms.iter().all(|m| &a[&(*m, sh)].ops == first)
                };
                // ... on everything that was acknowledged (what is still missing
                // when time is over is for the history check to tell)
                let full = || {
                    let a = self.apps.borrow();
                    let first = &a[&(ms[0], sh)].ops;
                    self.ops.borrow().iter().all(|o| match (&o.kind, &o.res) {
                        (OpKind::Write { op, .. }, OpRes::Wrote(..)) if o.shard == sh => first.contains(op),
                        _ => true,
                    })
                };
                let ok = self.run_till(3000, || agree() && full()) || agree();
                if ok {
                    // and every member serves reads, with nothing following them
                    for m in &ms {
                        let i = self.read(sh, *m);
                        self.run_till(2000, || !self.is_pending(i));
                        if !self.acked(i) {
                            why = format!("read through n{m}: {:?}", self.op(i).res);
                            if self.is_pending(i) {
                                self.cancel(i);
                            }
                            self.run(400);
                            continue 'outer;
                        }
                    }
                    // (a request from before may have been served meanwhile)
                    self.run_till(3000, || agree() && full());
                    done = true;
                    break;
                }
                why = format!(
                    "replicas do not converge: {:?}",
                    ms.iter().map(|m| (*m, self.state(*m, sh))).collect::<Vec<_>>()
                );
            }
            if !done {
                all = false;
                let kind = if why.starts_with("replicas do not") { self.mon.borrow().apart(sh, "liveness") } else { "liveness" };
                self.mon.borrow_mut().report(kind, format!("s{sh} does not recover within {limit_ms} ms after all faults stop: {why}"));
            } else {
                let m = self.members(sh).into_iter().next().unwrap_or(1);
                let st = self.state(m, sh);
                let ms = self.members(sh);
                {
                    let mut mon = self.mon.borrow_mut();
                    mon.check_membership(self, sh, &ms);
                    mon.converged(sh, st);
                }
                // what snapshots replace does not stay
                let kept = |n: Node| -> Option<String> {
                    let ds = self.disks.borrow();
                    let d = &ds[&(n, sh)];
                    let (snap, first) = (d.snap_index(), d.log.keys().next().copied().unwrap_or(0));
                    if first < snap {
                        return Some(format!("the log of n{n} starts at {first}, but it has a snapshot at {snap}"));
                    }
                    let ks: Vec<u64> = d.snaps.keys().copied().collect();
                    if ks.iter().any(|k| *k != snap) {
                        return Some(format!("n{n} has the snapshots {ks:?}, but uses the one at {snap}"));
                    }
                    None
                };
                let ms: Vec<Node> = ms.into_iter().filter(|n| *n <= self.n && self.alive(*n) && !self.detached.borrow().contains(&(*n, sh)) && !self.scripted.borrow().contains(n)).collect();
                if !self.run_till(8000, || ms.iter().all(|n| kept(*n).is_none())) {
                    for e in ms.iter().filter_map(|n| kept(*n)) {
                        self.mon.borrow_mut().report("garbage", format!("s{sh}: 8 s after all faults ended {e}"));
                    }
                }
            }
        }
        all
    }
}

/// What a scripted peer answers.
pub type Script = Rc<dyn Fn(&str, &[u8]) -> Option<Bytes>>;
pub fn serve_script(n: Node, f: Script) {
    use http_body_util::BodyExt;
    w().scripted.borrow_mut().insert(n);
    sim().alive.borrow_mut().insert(n);
    let h: tonic::transport::Handler = Rc::new(move |req| {
        let f = f.clone();
        Box::pin(async move {
            let path = req.uri().path().to_string();
            let mut body = req.into_body();
            let mut buf = vec![];
            while let Some(Ok(fr)) = body.frame().await {
                if let Some(d) = fr.data_ref() {
                    buf.extend_from_slice(d);
                }
            }
            let out = f(&path, &buf);
            match out {
                Some(b) => {
                    let mut tr = http::HeaderMap::new();
                    tr.insert("grpc-status", "0".parse().unwrap());
                    http::Response::builder()
                        .header("content-type", "application/grpc")
                        .body(tonic::transport::ready_body(vec![
                            Ok(http_body_frame_data(b)),
                            Ok(http_body_frame_trailers(tr)),
                        ]))
                        .unwrap()
                }
                None => {
                    std::future::pending::<()>().await;
                    unreachable!()
                }
            }
        })
    });
    set_server(&name(n), n, Some(h));
}
fn http_body_frame_data(b: Bytes) -> http_body::Frame<Bytes> {
    http_body::Frame::data(b)
}
fn http_body_frame_trailers(h: http::HeaderMap) -> http_body::Frame<Bytes> {
    http_body::Frame::trailers(h)
}

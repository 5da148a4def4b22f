//! Invariants watched over every execution.
//!
//! They are stated over what can be seen from outside the nodes: the entries
//! and ballots that reach the disks, the messages on the network, the calls
//! into the application, and the answers clients get.
use crate::proto::{self, Command};
use crate::world::*;
use simrt::sim;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use tonic::transport::Event;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: &'static str,
    pub detail: String,
    pub at: u64,
}

#[derive(Clone, Debug)]
pub struct Applied {
    pub op: u32,
    pub term: u64,
    pub node: Node,
    pub at: u64,
}

pub struct Monitor {
    pub viols: Vec<Viol>,
    /// (shard, term, index) -> (prev, command; None for a snapshot marker)
    canon: BTreeMap<(Shard, u64, u64), ((u64, u64), Option<bytes::Bytes>)>,
    /// (shard, voter, term) -> candidate
    grants: BTreeMap<(Shard, Node, u64), String>,
    /// (shard, term) -> leader
    pub leaders: BTreeMap<(Shard, u64), (Node, u64)>,
    last_hb: BTreeMap<Shard, (u64, Node)>,
    pub applied: BTreeMap<(Shard, u64), Applied>,
    pub states: BTreeMap<(Shard, u64), Vec<u32>>,
    /// highest committed clock known through leaders' announcements
    pub committed: BTreeMap<Shard, BTreeMap<u64, (u64, u64)>>,
    /// the first term in which an entry is known to be committed
    commit_term: BTreeMap<(Shard, u64), u64>,
    pub final_order: BTreeMap<Shard, Vec<u32>>,
    pub max_term: BTreeMap<Shard, u64>,
    /// check counters, for the evidence
    pub checks: BTreeMap<&'static str, u64>,
    pub stepdowns: u64,
    pub rid_of: BTreeMap<u32, String>,
    pub hb_counts: BTreeMap<(Shard, Node, Node), u64>,
    /// Who sent what to whom, while somebody wants to know.
    pub raft_sent: Option<BTreeSet<(Shard, Node, Node, &'static str)>>,
    pub snap_fetches: u64,
    pub n: u32,
    pub vote_reqs: Vec<(u64, Node, Node, proto::VoteRequest)>,
    /// (shard, candidate, term) -> nodes that granted a pre-vote
    prevotes: BTreeMap<(Shard, Node, u64), BTreeSet<Node>>,
    /// (shard, node) -> times of the last heartbeats that reached it
    hb_seen: BTreeMap<(Shard, Node), Vec<u64>>,
    /// (shard, node) -> last time it sent a heartbeat, and the term
    hb_sent: BTreeMap<(Shard, Node), (u64, u64)>,
    pub app_reads: Vec<AppRead>,
    pub muted: BTreeSet<&'static str>,
    /// entries whose creation was given up by the caller while the insertion was on its way
    orphans: BTreeMap<(Shard, u64, u64), Node>,
    /// configurations in force when pre-votes were asked for
    prevote_cfg: BTreeMap<(Shard, Node, u64), Vec<BTreeSet<String>>>,
    /// When a leader appended to its own log.
    own_appends: BTreeMap<(Node, Shard, u64), u64>,
    /// (node, shard, op) -> when the running process executed it
    executed: BTreeMap<(Node, Shard, u32), u64>,
    /// Shards where replicas may have parted for a reason that is reported already.
    tainted: BTreeSet<Shard>,
    /// what a running process has applied or announced as committed
    knows: BTreeMap<(Node, Shard), u64>,
    /// configuration named by the snapshot that a history starts with
    base_cfg: BTreeMap<(Shard, u64, u64), BTreeSet<String>>,
    /// terms in which somebody campaigned
    campaigns: BTreeSet<(Shard, u64)>,
}
/// How long a replica remembers a completed request.
/// Stands for whoever led a term before the history begins.
pub const PRESET: Node = 63;
const MEMORY: u64 = 5000 * simrt::MS;

/// The application was asked for its state.
#[derive(Clone, Debug)]
pub struct AppRead {
    pub shard: Shard,
    pub node: Node,
    pub at: u64,
    pub ops: Vec<u32>,
    /// The node leads its current term and can not know that a later leader exists.
    pub deposed: bool,
}

impl Monitor {
    pub fn new(n: u32) -> Self {
        Monitor {
            viols: vec![],
            canon: Default::default(),
            grants: Default::default(),
            leaders: Default::default(),
            last_hb: Default::default(),
            applied: Default::default(),
            states: Default::default(),
            committed: Default::default(),
            commit_term: Default::default(),
            final_order: Default::default(),
            max_term: Default::default(),
            checks: Default::default(),
            stepdowns: 0,
            rid_of: Default::default(),
            hb_counts: Default::default(),
            raft_sent: None,
            snap_fetches: 0,
            n,
            vote_reqs: vec![],
            prevotes: Default::default(),
            hb_seen: Default::default(),
            hb_sent: Default::default(),
            app_reads: vec![],
            muted: Default::default(),
            orphans: Default::default(),
            prevote_cfg: Default::default(),
            executed: Default::default(),
            own_appends: Default::default(),
            tainted: Default::default(),
            knows: Default::default(),
            base_cfg: Default::default(),
            campaigns: Default::default(),
        }
    }
    pub fn report(&mut self, kind: &'static str, detail: String) {
        if self.muted.contains(kind) {
            return;
        }
        let at = sim().now();
        sim().log(|| format!("!!! {kind}: {detail}"));
        // one of a kind is enough to tell; keep the first few
        if self.viols.iter().filter(|v| v.kind == kind).count() < 3 {
            self.viols.push(Viol { kind, detail, at });
        }
    }
    pub fn tick(&mut self, k: &'static str) {
        *self.checks.entry(k).or_insert(0) += 1;
    }
    pub fn leader_of(&self, s: Shard) -> Option<Node> {
        self.last_hb.get(&s).map(|x| x.1)
    }
    pub fn leader_term(&self, s: Shard) -> u64 {
        self.last_hb.get(&s).map(|x| x.0).unwrap_or(0)
    }

    // ---- disks -----------------------------------------------------------
    pub fn on_insert(&mut self, w: &World, n: Node, s: Shard, i: u64, e: &Ent) {
        self.tick("log-match");
        if e.this.1 != i {
            self.report("log-match", format!("n{n} s{s}: entry {:?} stored at index {i}", e.this));
        }
        if i > 0 && e.prev.1 + 1 != i {
            self.report("log-match", format!("n{n} s{s}: entry {i} follows {:?}", e.prev));
        }
        if e.prev.0 > e.this.0 {
            self.report("log-match", format!("n{n} s{s}: term goes down at {i}: {:?} -> {:?}", e.prev, e.this));
        }
        let snap = e.is_snapshot();
        let cmd = if snap { None } else { Some(e.cmd.clone()) };
        let key = (s, e.this.0, i);
        if snap {
            self.check_snapshot_config(n, s, e);
        }
        match self.orphans.get(&key) {
            // Its creator makes another one instead.
            Some(x) if *x == n => {
                self.orphans.remove(&key);
                self.canon.insert(key, (e.prev, cmd.clone()));
            }
            Some(_) => {
                self.orphans.remove(&key);
            }
            None => {}
        }
        match self.canon.get_mut(&key) {
            None => {
                self.canon.insert(key, (e.prev, cmd));
                if e.this.0 > 0 {
                    self.on_create(w, n, s, e);
                }
            }
            Some((p, c)) => {
                let (p, c0) = (*p, c.clone());
                if p != e.prev {
                    self.report("log-match", format!("n{n} s{s}: two entries with clock {:?} follow {p:?} and {:?}", e.this, e.prev));
                }
                match (c0, cmd) {
                    (Some(a), Some(b)) if a != b => {
                        self.report(
                            "log-match",
                            format!("n{n} s{s}: two entries with clock {:?}: {:?} and {:?}", e.this, Command::parse(&a), Command::parse(&b)),
                        );
                    }
                    (None, Some(b)) => {
                        if let Some(x) = self.canon.get_mut(&key) {
                            x.1 = Some(b);
                        }
                    }
                    _ => {}
                }
            }
        }
        if self.leaders.get(&(s, e.this.0)).map_or(false, |l| l.0 == n) {
            self.own_appends.insert((n, s, i), sim().now());
        } else {
            self.own_appends.remove(&(n, s, i));
        }
        // An entry whose index is applied here may not change its clock.
        let (old, applied_here) = {
            let d = w.disks.borrow();
            let a = w.apps.borrow();
            (d[&(n, s)].log.get(&i).map(|e| e.this), a[&(n, s)].last >= i)
        };
        if let Some(old) = old {
            if old != e.this {
                self.tick("overwrite");
                if applied_here {
                    self.report("overwrite-applied", format!("n{n} s{s}: entry {old:?} was applied here and is replaced by {:?}", e.this));
                }
                if let Some(c) = self.committed.get(&s).and_then(|m| m.get(&i)) {
                    if *c == old {
                        self.report("overwrite-committed", format!("n{n} s{s}: committed entry {old:?} replaced by {:?}", e.this));
                    }
                }
            }
        }
    }
    /// A snapshot entry names the configuration in force at its index.
    fn check_snapshot_config(&mut self, n: Node, s: Shard, e: &Ent) {
        let Some(have) = e.config() else { return };
        let (mut t, mut i) = e.this;
        let want = loop {
            match self.canon.get(&(s, t, i)) {
                Some((p, Some(c))) => {
                    if let Some(Command::ClusterConfiguration { membership }) = Command::parse(c) {
                        break Some(membership);
                    }
                    if i <= 1 {
                        break None;
                    }
                    (t, i) = *p;
                }
                _ => break self.base_cfg.get(&(s, t, i)).cloned(),
            }
        };
        match want {
            Some(c) => {
                self.tick("snapshot-config");
                if c != have {
                    self.report("snapshot-config", format!("n{n} s{s}: the snapshot at {:?} names the members {have:?}, but they were {c:?}", e.this));
                }
            }
            None => {
                self.base_cfg.insert((s, e.this.0, e.this.1), have);
            }
        }
    }
    /// An entry that existed nowhere before this.
    fn on_create(&mut self, w: &World, n: Node, s: Shard, e: &Ent) {
        let term = e.this.0;
        let d = w.disks.borrow()[&(n, s)].clone();
        match self.leaders.get(&(s, term)).map(|x| x.0) {
            Some(l) if l != n && l != PRESET => {
                self.report("two-leaders", format!("s{s}: n{n} makes an entry {:?} of term {term} which n{l} leads", e.this));
                return;
            }
            Some(_) => {}
            None => {
                if d.term == term {
                    self.on_leader(w, n, s, term);
                } else if d.term > term {
                    self.report("two-leaders", format!("s{s}: n{n} makes an entry {:?} though it is in term {} already", e.this, d.term));
                }
            }
        }
        if e.is_snapshot() {
            return;
        }
        let Some(cfg) = e.config() else { return };
        // A new configuration.
        self.tick("config");
        let cs = d.configs();
        let Some((p, old)) = cs.iter().rev().find(|(i, _)| *i < e.this.1) else { return };
        let diff = old.symmetric_difference(&cfg).count();
        if diff > 1 {
            self.report("config-step", format!("s{s}: n{n} changes {diff} members at once: {old:?} -> {cfg:?}"));
        }
        let disks = w.disks.borrow();
        let scripted = w.scripted.borrow();
        let holders = |t: u64, i: u64, c: &BTreeSet<String>| c.iter().filter(|x| scripted.contains(&node_of(x)) || disks.get(&(node_of(x), s)).map_or(false, |d| d.holds(t, i))).count();
        let pt = d.log[p].this.0;
        if *p > 1 && holders(pt, *p, old) * 2 < old.len() {
            self.report("config-overlap", format!("s{s}: n{n} makes a configuration at {} before the one at {p} is committed", e.this.1));
        }
        // single-server changes are safe only after an entry of the own term is committed
        let own = d.log.values().filter(|x| x.this.0 == term && x.this.1 < e.this.1).any(|x| holders(x.this.0, x.this.1, old) * 2 >= old.len());
        if !own {
            self.report("config-overlap", format!("s{s}: n{n} makes a configuration at {} before it committed anything in term {term}", e.this.1));
        }
    }
    /// The insertion never returned to its caller.
    pub fn abandoned(&mut self, n: Node, s: Shard, c: (u64, u64)) {
        if self.leaders.get(&(s, c.0)).map_or(false, |l| l.0 == n) {
            self.orphans.insert((s, c.0, c.1), n);
        }
    }
    /// Tell the monitor about entries that exist from the start.
    pub fn seed(&mut self, s: Shard, e: &Ent) {
        let cmd = if e.is_snapshot() { None } else { Some(e.cmd.clone()) };
        if let (true, Some(c)) = (e.is_snapshot(), e.config()) {
            self.base_cfg.entry((s, e.this.0, e.this.1)).or_insert(c);
        }
        self.canon.entry((s, e.this.0, e.this.1)).or_insert((e.prev, cmd));
    }
    pub fn seed_leader(&mut self, s: Shard, term: u64, n: Node) {
        self.leaders.insert((s, term), (n, sim().now()));
    }
    pub fn on_app_read(&mut self, w: &World, n: Node, s: Shard, ops: &[u32]) {
        let t = w.disks.borrow()[&(n, s)].term;
        let leads = self.leaders.get(&(s, t)).map_or(false, |x| x.0 == n);
        let later = self.leaders.range((s, t + 1)..=(s, u64::MAX)).next().is_some();
        self.app_reads.push(AppRead { shard: s, node: n, at: sim().now(), ops: ops.to_vec(), deposed: leads && later });
    }
    pub fn on_truncate_head(&mut self, _w: &World, n: Node, s: Shard, d: &Disk) {
        self.tick("compaction");
        // The log still starts with a snapshot entry and has no hole.
        let Some((i0, e0)) = d.log.iter().next() else {
            self.report("compaction", format!("n{n} s{s}: log is empty after compaction"));
            return;
        };
        if !e0.is_snapshot() {
            self.report("compaction", format!("n{n} s{s}: log starts with a plain entry {i0} after compaction"));
        }
        let mut p = *i0;
        for i in d.log.keys().skip(1) {
            if *i != p + 1 {
                self.report("compaction", format!("n{n} s{s}: hole in log between {p} and {i}"));
            }
            p = *i;
        }
    }
    pub fn on_snapshot_delete(&mut self, n: Node, s: Shard, d: &Disk) {
        self.tick("snapshot");
        let si = d.snap_index();
        if si > 1 && !d.snaps.contains_key(&si) {
            self.report("snapshot", format!("n{n} s{s}: snapshot {si} is named by the log but was deleted"));
        }
    }
    pub fn on_ballot(&mut self, n: Node, s: Shard, old: (u64, Option<String>), new: (u64, Option<String>), cfgs: &[(u64, BTreeSet<String>)], scripted: &BTreeSet<Node>) {
        self.tick("ballot");
        if new.0 < old.0 {
            self.report("term-monotonic", format!("n{n} s{s}: term goes from {} to {}", old.0, new.0));
        }
        if new.0 == old.0 && old.1.is_some() && new.1 != old.1 {
            let lead = self.leaders.get(&(s, new.0)).map(|x| name(x.0));
            if new.1.is_none() || lead.is_some() && new.1 != lead {
                self.report("vote-change", format!("n{n} s{s}: vote of term {} changes from {:?} to {:?}", new.0, old.1, new.1));
            } else if lead.is_none() {
                self.report("vote-change", format!("n{n} s{s}: vote of term {} changes from {:?} to {:?} with no leader", new.0, old.1, new.1));
            }
        }
        // A term is entered because somebody campaigns in it, not because he asks whether he may.
        if new.0 > old.0 && new.1.as_deref() != Some(name(n).as_str()) && scripted.is_empty() {
            self.tick("prevote-term");
            if !self.campaigns.contains(&(s, new.0)) && !self.leaders.contains_key(&(s, new.0)) {
                self.report("prevote", format!("n{n} s{s} goes to term {} in which nobody campaigned", new.0));
            }
        }
        if new.0 > old.0 && new.1.as_deref() == Some(name(n).as_str()) {
            self.campaigns.insert((s, new.0));
            self.tick("prevote");
            let got = self.prevotes.get(&(s, n, new.0)).cloned().unwrap_or_default();
            let mut asked = self.prevote_cfg.get(&(s, n, new.0)).cloned().unwrap_or_default();
            asked.extend(cfgs.last().map(|c| c.1.clone()));
            if let Some(c) = asked.last() {
                let ok = asked.iter().any(|c| {
                    let k = c.iter().filter(|x| got.contains(&node_of(x)) || node_of(x) == n || scripted.contains(&node_of(x))).count();
                    k * 2 > c.len()
                });
                if !ok {
                    self.report("prevote", format!("n{n} s{s} campaigns in term {} with the consent of {got:?} of {c:?} only", new.0));
                }
            }
        }
        let m = self.max_term.entry(s).or_insert(0);
        *m = (*m).max(new.0);
    }

    // ---- application -----------------------------------------------------
    pub fn on_apply(&mut self, w: &World, n: Node, s: Shard, i: u64, op: u32, last: u64, ops: &[u32]) {
        self.tick("apply");
        if i <= last {
            self.report("apply-order", format!("n{n} s{s}: entry {i} applied after {last}"));
        }
        let now = sim().now();
        if ops.contains(&op) {
            // Two ways to forget an executed request are known, both of which
            // make replicas differ from then on.
            let kind = match self.executed.get(&(n, s, op)) {
                Some(t) if now - t >= MEMORY => "dup-exec-expired",
                None => "dup-exec-snapshot",
                Some(_) => "dup-exec",
            };
            self.report(kind, format!("n{n} s{s}: op {op} executed twice (again at {i})"));
            if kind != "dup-exec" {
                self.tainted.insert(s);
            }
        }
        self.executed.insert((n, s, op), now);
        self.learn(n, s, i);
        let (term, cfgs, log_op, compacted) = {
            let d = w.disks.borrow();
            let d = &d[&(n, s)];
            let e = d.log.get(&i);
            // an entry in the hands of the application may go when a snapshot comes
            let compacted = d.log.keys().next().map_or(false, |h| i < *h);
            let log_op = match e.and_then(|e| e.command()) {
                Some(Command::ExecuteRequest { message, .. }) => dec_write(&message),
                _ => None,
            };
            (e.map(|e| e.this.0).unwrap_or(0), d.configs(), log_op, compacted)
        };
        if log_op != Some(op) && !compacted {
            self.report("apply-order", format!("n{n} s{s}: op {op} applied as entry {i}, but the log has {log_op:?} there"));
        }
        match self.applied.get(&(s, i)) {
            None if compacted => {}
            None => {
                let at = sim().now();
                self.applied.insert((s, i), Applied { op, term, node: n, at });
            }
            Some(a) => {
                if a.op != op {
                    let a = a.clone();
                    self.report("state-machine", format!("s{s} entry {i}: n{} applied op {}, n{n} applied op {op}", a.node, a.op));
                }
            }
        }
        self.check_majority(w, n, s, term, i, &cfgs, "applied");
    }
    pub fn on_state(&mut self, _w: &World, n: Node, s: Shard, i: u64, ops: &[u32]) {
        self.tick("state-machine");
        match self.states.get(&(s, i)) {
            None => {
                self.states.insert((s, i), ops.to_vec());
            }
            Some(x) => {
                if x != ops {
                    let x = x.clone();
                    let k = self.apart(s, "state-machine");
                    self.report(k, format!("s{s} state at {i}: {x:?} before, {ops:?} on n{n}"));
                }
            }
        }
    }
    /// Could a node without the committed entry still win an election?
    fn check_unsafe(&mut self, w: &World, n: Node, s: Shard, term: u64, i: u64, how: &str) {
        self.tick("commit-unsafe");
        let disks = w.disks.borrow();
        let scripted = w.scripted.borrow();
        if !scripted.is_empty() {
            return;
        }
        let last = |d: &Disk| d.log.get(&d.chain_last()).map(|e| e.this).unwrap_or((0, 0));
        let mut bad = vec![];
        for x in 1..=w.n {
            let d = &disks[&(x, s)];
            if d.log.is_empty() || d.holds(term, i) {
                continue;
            }
            let mine = last(d);
            let Some((_, c)) = d.configs().last().cloned() else { continue };
            if !c.contains(&name(x)) {
                continue;
            }
            let votes = c.iter().filter(|y| disks.get(&(node_of(y), s)).map_or(false, |d| last(d) <= mine)).count();
            if votes * 2 > c.len() {
                bad.push(x);
            }
        }
        drop(disks);
        drop(scripted);
        if !bad.is_empty() {
            self.report("commit-unsafe", format!("s{s}: entry {i} (term {term}) {how} by n{n}, but {bad:?} could be elected without it"));
        }
    }
    /// Entry (term, index) counts as committed: is it on the disks of a majority?
    fn check_majority(&mut self, w: &World, n: Node, s: Shard, term: u64, i: u64, cfgs: &[(u64, BTreeSet<String>)], how: &str) {
        if term == 0 || i == 0 {
            return;
        }
        self.tick("commit-majority");
        let now_term = w.disks.borrow()[&(n, s)].term.max(term);
        let m = self.committed.entry(s).or_default();
        let t = self.commit_term.entry((s, i)).or_insert(now_term);
        *t = (*t).min(now_term);
        match m.get(&i) {
            None => {
                m.insert(i, (term, i));
                // and everything before it
                let mut clash = None;
                if let Some(d) = w.disks.borrow().get(&(n, s)) {
                    for (j, e) in d.log.range(..i) {
                        let t = self.commit_term.entry((s, *j)).or_insert(now_term);
                        *t = (*t).min(now_term);
                        let c = m.entry(*j).or_insert(e.this);
                        if c.0 != e.this.0 {
                            clash = Some((*c, e.this));
                        }
                    }
                }
                if let Some((a, b)) = clash {
                    self.report("commit-unique", format!("s{s}: commit of {i} by n{n} implies {b:?}, but {a:?} is committed there"));
                }
                self.check_unsafe(w, n, s, term, i, how);
            }
            Some(c) if c.0 != term => {
                let c = *c;
                self.report("commit-unique", format!("s{s}: entry {i} committed with term {} and with term {term} ({how} by n{n})", c.0));
                return;
            }
            _ => {}
        }
        let disks = w.disks.borrow();
        let holders: BTreeSet<String> = (1..=w.n).filter(|x| disks[&(*x, s)].holds(term, i)).map(name).collect();
        // any configuration that may be in force: the last one at or before i, and later ones
        let first = cfgs.iter().rposition(|c| c.0 <= i).unwrap_or(0);
        let scripted = w.scripted.borrow();
        let enough = |c: &BTreeSet<String>| {
            let k = c.iter().filter(|x| holders.contains(*x) || scripted.contains(&node_of(x))).count();
            k * 2 > c.len()
        };
        // the leader may have counted in a configuration that this node has yet to receive
        let ok = cfgs[first..].iter().any(|(_, c)| enough(c))
            || (1..=w.n).any(|x| {
                let d = &disks[&(x, s)];
                d.holds(term, i) && d.configs().iter().any(|(j, c)| *j > i && enough(c))
            });
        if !ok {
            self.report("commit-majority", format!("s{s}: entry {i} (term {term}) {how} by n{n} is only on {holders:?}; configurations {:?}", &cfgs[first..]));
        }
    }

    /// A leader hands over because it was removed: only once that is committed.
    fn on_hand_over(&mut self, w: &World, n: Node, s: Shard) {
        self.tick("stepdown-early");
        let disks = w.disks.borrow();
        let Some(d) = disks.get(&(n, s)) else { return };
        let cfgs = d.configs();
        let committed = cfgs.iter().enumerate().any(|(k, (i, c))| {
            if c.contains(&name(n)) {
                return false;
            }
            let term = d.log[i].this.0;
            cfgs[k..].iter().any(|(_, c)| {
                let h = c.iter().filter(|x| w.scripted.borrow().contains(&node_of(x)) || disks.get(&(node_of(x), s)).map_or(false, |d| d.holds(term, *i))).count();
                h * 2 > c.len() || c.is_empty()
            })
        });
        if !committed {
            self.report("stepdown-early", format!("s{s}: n{n} hands over, but no removal of it is committed: {cfgs:?}"));
        }
    }

    // ---- network ---------------------------------------------------------
    fn on_leader(&mut self, w: &World, n: Node, s: Shard, term: u64) {
        self.tick("election");
        let now = sim().now();
        match self.leaders.get(&(s, term)) {
            Some((l, _)) if *l == PRESET => {}
            Some((l, _)) if *l != n => {
                let l = *l;
                self.report("two-leaders", format!("s{s}: n{l} and n{n} both lead term {term}"));
            }
            Some(_) => {}
            None => {
                // first sign of leadership of this term
                let d = w.disks.borrow()[&(n, s)].clone();
                if d.term == term {
                    self.leaders.insert((s, term), (n, now));
                    // leader completeness
                    let missing: Vec<_> = self
                        .committed
                        .get(&s)
                        .into_iter()
                        .flatten()
                        .filter(|(i, c)| self.commit_term.get(&(s, **i)).map_or(true, |t| *t < term) && !d.holds(c.0, **i))
                        .map(|(_, c)| *c)
                        .collect();
                    self.tick("leader-complete");
                    if let Some(c) = missing.first() {
                        self.report("leader-complete", format!("s{s}: n{n} leads term {term} without committed entry {c:?}"));
                    }
                    // it was elected by a majority
                    if let Some((_, c)) = d.configs().last() {
                        self.tick("election-majority");
                        let scripted = w.scripted.borrow();
                        let k = c.iter().map(|x| node_of(x)).filter(|x| *x == n || scripted.contains(x) || self.grants.get(&(s, *x, term)).map_or(false, |g| node_of(g) == n)).count();
                        if k * 2 <= c.len() {
                            let g: Vec<_> = self.grants.iter().filter(|(k, v)| k.0 == s && k.2 == term && node_of(v) == n).map(|(k, _)| k.1).collect();
                            self.report("election-majority", format!("s{s}: n{n} leads term {term} with the votes of {g:?} in {c:?}"));
                        }
                    }
                    // a leader is a member of its configuration
                    if let Some((i, c)) = d.configs().last() {
                        // unless its removal is not committed as far as it knows
                        if !c.contains(&name(n)) && self.knows.get(&(n, s)).map_or(false, |k| k >= i) {
                            self.report("non-member-leader", format!("s{s}: n{n} leads term {term} but knows that its removal at {i} is committed"));
                        }
                    }
                }
            }
        }
        let e = self.last_hb.entry(s).or_insert((term, n));
        if term >= e.0 {
            *e = (term, n);
        }
    }
}

pub fn observe(w: &Rc<World>, e: &Event) {
    match e {
        Event::Sent { src, dst, path, frame } => {
            if *src >= 64 {
                return;
            }
            if path.ends_with("/SendHeartbeat") {
                for h in proto::unframe::<proto::Heartbeat>(frame) {
                    let l = node_of(&h.leader_id);
                    let mut m = w.mon.borrow_mut();
                    if l != *src {
                        m.report("heartbeat-sender", format!("n{src} sends a heartbeat in the name of {}", h.leader_id));
                    }
                    for (s, st) in &h.states {
                        if !w.shards.contains(s) {
                            if !w.scripted.borrow().contains(src) {
                                m.report("heartbeat-sender", format!("n{src} sends a heartbeat for s{s} which nobody has"));
                            }
                            continue;
                        }
                        if let Some(r) = &mut m.raft_sent {
                            r.insert((*s, *src, *dst, "heartbeat"));
                        }
                        *m.hb_counts.entry((*s, *src, *dst)).or_insert(0) += 1;
                        if w.detached.borrow().contains(&(*src, *s)) {
                            let since = w.detached_at.borrow().get(&(*src, *s)).copied().unwrap_or(0);
                            if sim().now() > since + 1000 * simrt::MS {
                            m.report("zombie", format!("n{src} still sends heartbeats for detached s{s}"));
                            }
                        }
                        m.on_leader(w, *src, *s, st.leader_term);
                        m.learn(*src, *s, st.leader_commit_index);
                        m.hb_sent.insert((*s, *src), (st.leader_term, sim().now()));
                        let d = w.disks.borrow()[&(*src, *s)].clone();
                        let c = st.leader_commit_index;
                        if let Some(f) = &*w.on_heartbeat.borrow() {
                            if let Some(e) = f(c) {
                                m.report("commit-majority", e);
                            }
                        }
                        if d.term == st.leader_term && c > 0 {
                            match d.log.get(&c) {
                                Some(e) => {
                                    let cfgs = d.configs();
                                    m.check_majority(w, *src, *s, e.this.0, c, &cfgs, "announced as committed");
                                }
                                None => {
                                    if d.snap_index() < c {
                                        m.report("commit-majority", format!("s{s}: n{src} announces commit {c} beyond its log"));
                                    }
                                }
                            }
                        }
                    }
                }
            } else if path.ends_with("/RequestVote") {
                for v in proto::unframe::<proto::VoteRequest>(frame) {
                    let mut m = w.mon.borrow_mut();
                    m.vote_reqs.push((sim().now(), *src, *dst, v.clone()));
                    if let Some(r) = &mut m.raft_sent {
                        r.insert((v.shard_id, *src, *dst, "vote"));
                    }
                    if w.scripted.borrow().contains(src) {
                        continue;
                    }
                    let d = w.disks.borrow()[&(*src, v.shard_id)].clone();
                    if node_of(&v.candidate_id) != *src {
                        m.report("vote-persist", format!("n{src} asks for votes in the name of {}", v.candidate_id));
                    }
                    m.tick("vote-persist");
                    if v.pre_vote {
                        let c = d.configs().last().map(|c| c.1.clone()).unwrap_or_default();
                        m.prevote_cfg.entry((v.shard_id, *src, v.vote_term)).or_default().push(c);
                    }
                    if !v.pre_vote {
                        let lead = m.leaders.get(&(v.shard_id, v.vote_term)).map(|x| name(x.0));
                        if d.term < v.vote_term || d.term == v.vote_term && d.voted.as_deref() != Some(name(*src).as_str()) && (lead.is_none() || d.voted != lead) {
                            m.report("vote-persist", format!("n{src} s{} asks for votes in term {} while its disk says {} {:?}", v.shard_id, v.vote_term, d.term, d.voted));
                        }
                        m.grant(v.shard_id, *src, v.vote_term, &v.candidate_id);
                    }
                }
            } else if path.ends_with("/SendReplicationStream") {
                for c in proto::unframe::<proto::StreamChunk>(frame) {
                    if let Some(proto::Elem::Header(h)) = c.elem {
                        if *src < 64 && h.leader_term > 0 && w.disks.borrow().get(&(*src, h.shard_id)).map_or(false, |d| d.term == h.leader_term) {
                            w.mon.borrow_mut().on_leader(w, *src, h.shard_id, h.leader_term);
                        }
                        if let Some(r) = &mut w.mon.borrow_mut().raft_sent {
                            r.insert((h.shard_id, *src, *dst, "stream"));
                        }
                        if node_of(&h.sender_id) != *src {
                            w.mon.borrow_mut().report("heartbeat-sender", format!("n{src} replicates in the name of {}", h.sender_id));
                        }
                    }
                }
            } else if path.ends_with("/SendTimeoutNow") && src != dst && !w.scripted.borrow().contains(src) {
                for t in proto::unframe::<proto::TimeoutNow>(frame) {
                    w.mon.borrow_mut().on_hand_over(w, *src, t.shard_id);
                }
            } else if path.ends_with("/GetSnapshot") {
                w.mon.borrow_mut().snap_fetches += 1;
            }
        }
        Event::Delivered { dst, path, frame, .. } => {
            if path.ends_with("/SendHeartbeat") && *dst < 64 {
                for h in proto::unframe::<proto::Heartbeat>(frame) {
                    let mut m = w.mon.borrow_mut();
                    for (s, st) in &h.states {
                        let t = w.disks.borrow().get(&(*dst, *s)).map_or(0, |d| d.term);
                        if st.leader_term >= t {
                            let v = m.hb_seen.entry((*s, *dst)).or_default();
                            v.push(sim().now());
                            if v.len() > 6 {
                                v.remove(0);
                            }
                        }
                    }
                }
            }
        }
        Event::Answered { src, dst, path, req, frame } => {
            if path.ends_with("/RequestVote") && *dst < 64 && !w.scripted.borrow().contains(dst) {
                let q = proto::unframe::<proto::VoteRequest>(req);
                let a = proto::unframe::<proto::VoteResponse>(frame);
                if let (Some(q), Some(a)) = (q.first(), a.first()) {
                    w.mon.borrow_mut().on_vote_response(w, *src, *dst, q, a.vote_granted);
                }
            }
        }
        _ => {}
    }
}

impl Monitor {
    /// `voter` voted for `cand` in `term`.
    pub fn grant(&mut self, s: Shard, voter: Node, term: u64, cand: &str) {
        self.tick("vote-once");
        match self.grants.get(&(s, voter, term)) {
            None => {
                self.grants.insert((s, voter, term), cand.to_string());
            }
            // who leads the term already gains nothing
            Some(c) if c != cand && self.leaders.get(&(s, term)).map(|x| name(x.0)).as_deref() != Some(cand) => {
                let c = c.clone();
                self.report("vote-once", format!("n{voter} s{s} votes in term {term} for {c} and for {cand}"));
            }
            _ => {}
        }
    }
    /// Response of `dst` to a vote request of `src`.
    pub fn on_vote_response(&mut self, w: &World, src: Node, dst: Node, req: &proto::VoteRequest, granted: bool) {
        if !granted {
            return;
        }
        let d = w.disks.borrow()[&(dst, req.shard_id)].clone();
        let now = sim().now();
        let ms = simrt::MS;
        if !req.force_vote {
            self.tick("disrupt");
            if let Some(h) = self.hb_seen.get(&(req.shard_id, dst)) {
                let regular = h.len() >= 5 && h.windows(2).all(|x| x[1] - x[0] >= 250 * ms && x[1] - x[0] <= 350 * ms);
                if regular && now - h[h.len() - 1] < 250 * ms {
                    self.report("disrupt", format!("n{dst} s{} consents to an election of {} while it hears from the leader", req.shard_id, req.candidate_id));
                }
            }
            if let Some((t, at)) = self.hb_sent.get(&(req.shard_id, dst)) {
                let member = d.configs().last().map_or(false, |c| c.1.contains(&name(dst)));
                let forced = self.vote_reqs.iter().any(|(_, _, x, v)| *x == dst && v.shard_id == req.shard_id && v.force_vote && v.vote_term > *t);
                if *t == d.term && now - at < 250 * ms && member && !forced {
                    self.report("disrupt", format!("n{dst} s{} leads term {t} and consents to an election of {}", req.shard_id, req.candidate_id));
                }
            }
        }
        if req.pre_vote {
            self.prevotes.entry((req.shard_id, src, req.vote_term)).or_default().insert(dst);
        }
        // The candidate's log is at least as good as the voter's.
        let cc = req.candidate_clock.clone().unwrap_or_default();
        // (what a leader appends between its decision to vote and the answer can not be committed by it)
        let asked = self.vote_reqs.iter().rev().find(|(_, a, b, v)| *a == src && *b == dst && v == req).map_or(now, |x| x.0);
        let mut last = d.stable_last();
        while last.1 > 0 && self.own_appends.get(&(dst, req.shard_id, last.1)).map_or(false, |t| *t >= asked) {
            last = d.log.get(&(last.1 - 1)).map(|e| e.this).unwrap_or((0, 0));
        }
        // (where steps stop between two accesses, an entry may be on the disk before it counts as part of the log)
        let exact = !simrt::sim().preempt.get();
        if exact && last.0 < req.vote_term && (d.term == req.vote_term || req.pre_vote) && (cc.term, cc.index) < last {
            self.report("vote-log", format!("n{dst} s{} votes in term {} for {} whose last entry is {cc:?}, but has {last:?}", req.shard_id, req.vote_term, req.candidate_id));
        }
        if req.pre_vote {
            return;
        }
        self.tick("vote-persist");
        if d.term < req.vote_term || d.term == req.vote_term && d.voted.as_deref() != Some(req.candidate_id.as_str()) {
            let lead = self.leaders.get(&(req.shard_id, req.vote_term)).map(|x| name(x.0));
            if d.term < req.vote_term || d.voted != lead {
                self.report(
                    "vote-persist",
                    format!("n{dst} s{} grants term {} to {} while its disk says {} {:?}", req.shard_id, req.vote_term, req.candidate_id, d.term, d.voted),
                );
            }
        }
        // The candidate's log is at least as good as what the voter has applied or committed.
        let cc = req.candidate_clock.clone().unwrap_or_default();
        let worst = self
            .committed
            .get(&req.shard_id)
            .into_iter()
            .flatten()
            .filter(|(i, c)| self.commit_term.get(&(req.shard_id, **i)).map_or(true, |t| *t < req.vote_term) && d.holds(c.0, **i) && !d.inflight.contains(i))
            .map(|(_, c)| *c)
            .max();
        if let Some(c) = worst {
            if (cc.term, cc.index) < c {
                self.report("vote-log", format!("n{dst} s{} votes in term {} for {} whose last entry is {cc:?}, but holds committed {c:?}", req.shard_id, req.vote_term, req.candidate_id));
            }
        }
        self.grant(req.shard_id, dst, req.vote_term, &req.candidate_id);
    }

    // ---- clients ---------------------------------------------------------
    pub fn on_response(&mut self, _w: &World, i: usize, r: &OpRec) {
        self.tick("response");
        match (&r.kind, &r.res) {
            (OpKind::Write { op, .. }, OpRes::Wrote(o, _)) if o != op => {
                self.report("response", format!("op{i}: write {op} answered with the result of write {o}"));
            }
            (OpKind::Write { .. }, OpRes::List(l)) => {
                self.report("response", format!("op{i}: write answered with a list {l:?}"))
            }
            (OpKind::Read, OpRes::Wrote(..)) => self.report("response", format!("op{i}: read answered with a write result")),
            (_, OpRes::Garbled(b)) => self.report("response", format!("op{i}: garbled answer {b}")),
            _ => {}
        }
    }
    /// The process of `n` is gone with everything in its memory.
    pub fn forget(&mut self, n: Node, s: Shard) {
        self.executed.retain(|k, _| (k.0, k.1) != (n, s));
        self.knows.remove(&(n, s));
    }
    fn learn(&mut self, n: Node, s: Shard, i: u64) {
        let k = self.knows.entry((n, s)).or_insert(0);
        *k = (*k).max(i);
    }
    /// The kind under which a consequence of replicas parting is reported.
    pub fn apart(&self, s: Shard, kind: &'static str) -> &'static str {
        if self.tainted.contains(&s) {
            "dup-exec-consequence"
        } else {
            kind
        }
    }
    pub fn recent_leaders(&self, s: Shard, ms: u64) -> Vec<Node> {
        let now = sim().now();
        self.hb_sent.iter().filter(|(k, (_, at))| k.0 == s && now - at < ms * simrt::MS).map(|(k, _)| k.1).collect()
    }
    pub fn node_gone(&mut self, n: Node) {
        self.hb_seen.retain(|k, _| k.1 != n);
        self.hb_sent.retain(|k, _| k.1 != n);
    }
    /// Acknowledged membership changes are in force.
    pub fn check_membership(&mut self, w: &World, s: Shard, members: &BTreeSet<Node>) {
        self.tick("membership");
        let ops = w.ops.borrow();
        let on: Vec<(Node, bool, &OpRec)> = ops
            .iter()
            .filter(|r| r.shard == s)
            .filter_map(|r| match r.kind {
                OpKind::Add(x) => Some((x, true, r)),
                OpKind::Remove(x) => Some((x, false, r)),
                _ => None,
            })
            .collect();
        for (x, add, r) in &on {
            if !r.ok() {
                continue;
            }
            // nothing else about x that may come after it
            if on.iter().any(|(y, _, q)| y == x && !std::ptr::eq(*q, *r) && q.end > r.start) {
                continue;
            }
            if members.contains(x) != *add {
                self.report("member-lost", format!("s{s}: {} of n{x} was acknowledged, yet the members are {members:?}", if *add { "addition" } else { "removal" }));
            }
        }
        // nobody is a member who was never asked for
        for m in members {
            if !on.iter().any(|(y, a, _)| y == m && *a) && !w.preset.get() {
                self.report("member-lost", format!("s{s}: n{m} is a member but was never added"));
            }
        }
    }
    pub fn converged(&mut self, s: Shard, state: Vec<u32>) {
        self.final_order.insert(s, state);
    }
    /// The client history against the final order of operations.
    pub fn check_history(&mut self, w: &World) {
        let ops = w.ops.borrow().clone();
        for s in &w.shards {
            // Without convergence: the longest state seen anywhere.
            let order: Vec<u32> = match self.final_order.get(s) {
                Some(o) => o.clone(),
                None => self.states.iter().filter(|x| x.0 .0 == *s).map(|x| x.1.clone()).max_by_key(|x| x.len()).unwrap_or_default(),
            };
            let converged = self.final_order.contains_key(s);
            let pos = |op: u32| order.iter().position(|x| *x == op);
            let h: Vec<(usize, &OpRec)> = ops.iter().enumerate().filter(|(_, r)| r.shard == *s).collect();
            self.tick("history");
            // acknowledged writes are there, where the answer said
            for (i, r) in &h {
                if let (OpKind::Write { op, .. }, OpRes::Wrote(_, p)) = (&r.kind, &r.res) {
                    match pos(*op) {
                        None => {
                            if converged {
                                let k = self.apart(*s, "ack-lost");
                                self.report(k, format!("s{s} op{i}: acknowledged write {op} is not in {order:?}"));
                            }
                        }
                        Some(q) if q as u32 != *p => {
                            let k = self.apart(*s, "ack-pos");
                            self.report(k, format!("s{s} op{i}: write {op} acknowledged at position {p} but is at {q} in {order:?}"));
                        }
                        _ => {}
                    }
                }
            }
            for (i, x) in order.iter().enumerate() {
                if order[..i].contains(x) {
                    let k = self.apart(*s, "dup-exec");
                    self.report(k, format!("s{s}: op {x} twice in {order:?}"));
                }
                let known = w.known.borrow().contains(&(*s, *x)) || h.iter().any(|(_, r)| matches!(r.kind, OpKind::Write { op, .. } if op == *x));
                if !known {
                    self.report("response", format!("s{s}: op {x} was never requested on this shard"));
                }
            }
            // real-time order of acknowledged writes
            let ws: Vec<(&OpRec, u32, u32)> = h
                .iter()
                .filter_map(|(_, r)| match (&r.kind, &r.res) {
                    (OpKind::Write { op, .. }, OpRes::Wrote(_, p)) => Some((*r, *op, *p)),
                    _ => None,
                })
                .collect();
            for a in &ws {
                for b in &ws {
                    // the first submission of b's request counts
                    let bstart = h.iter().filter(|(_, r)| matches!(r.kind, OpKind::Write { op, .. } if op == b.1)).map(|(_, r)| r.start).min().unwrap();
                    if a.1 != b.1 && a.0.end < bstart && a.2 > b.2 {
                        let k = self.apart(*s, "write-order");
                        self.report(k, format!("s{s}: write {} acknowledged before write {} began, yet comes after it", a.1, b.1));
                    }
                }
            }
            // reads
            for (i, r) in &h {
                let (OpKind::Read, OpRes::List(l)) = (&r.kind, &r.res) else { continue };
                self.tick("read");
                if l.len() > order.len() || order[..l.len()] != l[..] {
                    if converged {
                        let k = self.apart(*s, "read-prefix");
                        self.report(k, format!("s{s} op{i}: read {l:?} is no prefix of {order:?}"));
                    }
                    continue;
                }
                let answers: Vec<bool> = self.app_reads.iter().filter(|a| a.shard == *s && a.at >= r.start && a.at <= r.end && a.ops == *l).map(|a| a.deposed).collect();
                let stale = if self.tainted.contains(s) { "dup-exec-consequence" } else if !answers.is_empty() && answers.iter().all(|x| *x) { "stale-read-deposed" } else { "stale-read" };
                for a in &ws {
                    if a.0.end < r.start && !l.contains(&a.1) {
                        self.report(stale, format!("s{s} op{i}: read {l:?} misses write {} acknowledged before", a.1));
                        break;
                    }
                }
                for x in l.iter() {
                    let began = w.known.borrow().contains(&(*s, *x)) || h.iter().any(|(_, q)| matches!(q.kind, OpKind::Write { op, .. } if op == *x) && q.start <= r.end);
                    if !began {
                        self.report("stale-read", format!("s{s} op{i}: read {l:?} contains {x} which was not requested yet"));
                    }
                }
                for (j, q) in &h {
                    if let (OpKind::Read, OpRes::List(m)) = (&q.kind, &q.res) {
                        if q.end < r.start && m.len() > l.len() {
                            self.report(stale, format!("s{s} op{i}: read {l:?} after op{j} had read {m:?}"));
                        }
                    }
                }
            }
        }
    }
}

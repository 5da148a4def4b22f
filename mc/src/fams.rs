//! More scenario families: logs that do not grow from a bootstrap, single
//! nodes among scripted peers, several shards, forming a cluster, leadership.
use crate::explore::*;
use crate::monitor::PRESET;
use crate::proto::{self, Command};
use crate::scen::*;
use crate::world::*;
use simrt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn choose(tag: &str, n: usize) -> usize {
    sim().choose(Class::Free, n as u32, || tag.to_string()) as usize
}
fn set(ns: &[Node]) -> BTreeSet<String> {
    ns.iter().map(|n| name(*n)).collect()
}

// ---- preset logs -------------------------------------------------------------

/// The log whose entries from index 3 on have these terms. Capital letters
/// stand for configurations.
fn build_log(members: &[Node], terms: &str, cfgs: &BTreeMap<(u64, u64), BTreeSet<String>>) -> Vec<Ent> {
    let mut v = vec![];
    let mut prev = (0, 0);
    let mut push = |term: u64, c: Command, v: &mut Vec<Ent>| {
        let i = prev.1 + 1;
        v.push(Ent { prev, this: (term, i), cmd: c.bytes() });
        prev = (term, i);
    };
    push(0, Command::Snapshot { membership: set(members) }, &mut v);
    push(1, Command::Barrier(1), &mut v);
    let mut last = 1;
    for ch in terms.chars() {
        let t = ch.to_digit(10).unwrap() as u64;
        let i = v.len() as u64 + 1;
        let c = if t != last {
            Command::Barrier(t)
        } else if let Some(m) = cfgs.get(&(t, i)) {
            Command::ClusterConfiguration { membership: m.clone() }
        } else {
            let op = (100 * t + i) as u32;
            Command::ExecuteRequest { message: enc_write(op).to_vec(), request_id: request_id(op) }
        };
        push(t, c, &mut v);
        last = t;
    }
    v
}
fn preset(w: &Rc<World>, members: &[Node], logs: &[(Node, &str)], cfgs: &BTreeMap<(u64, u64), BTreeSet<String>>) {
    preset_shard(w, 0, members, logs, cfgs);
}
fn preset_shard(w: &Rc<World>, sh: Shard, members: &[Node], logs: &[(Node, &str)], cfgs: &BTreeMap<(u64, u64), BTreeSet<String>>) {
    w.preset.set(true);
    let top = logs.iter().flat_map(|l| l.1.chars()).filter_map(|c| c.to_digit(10)).max().unwrap_or(1) as u64;
    let mut ops = BTreeSet::new();
    for (n, l) in logs {
        let es = build_log(members, l, cfgs);
        let mut d = Disk { term: top, ..Default::default() };
        for e in es {
            if let Some(Command::ExecuteRequest { message, .. }) = e.command() {
                ops.insert(dec_write(&message).unwrap());
            }
            w.mon.borrow_mut().seed(sh, &e);
            d.log.insert(e.this.1, e);
        }
        w.disks.borrow_mut().insert((*n, sh), d);
    }
    for t in 1..=top {
        w.mon.borrow_mut().seed_leader(sh, t, PRESET);
    }
    for op in ops {
        w.known_op(sh, op);
    }
}

type U = (&'static str, &'static [&'static str]);
const UNIVERSES: &[U] = &[
    ("a", &["", "2", "22", "3", "33"]),
    ("b", &["", "22", "23", "233", "2"]),
    ("c", &["", "222", "2223", "3", "2"]),
    ("d", &["", "22", "3", "24", "244"]),
    ("e", &["", "22", "33", "34", "344"]),
];

fn pre3(w: &Rc<World>, u: U, k: usize) {
    let mut logs = vec![];
    for n in 1..=3 {
        logs.push((n, u.1[choose("log", u.1.len())]));
    }
    preset(w, &[1, 2, 3], &logs, &BTreeMap::new());
    for n in 1..=3 {
        w.start(n);
    }
    w.run(5);
    use Act::*;
    sequences(w, k, &[Tn(1), Tn(2), Tn(3), W(1), W(2)], 300, 3000);
    w.heal_and_converge(40000);
}
/// Indices and terms that do not fit into 32 bits.
fn big(w: &Rc<World>, k: usize) {
    const B: u64 = (1 << 33) + 3;
    const T: u64 = (1 << 34) + 1;
    w.preset.set(true);
    let m = set(&[1, 2, 3]);
    let mut es = vec![Ent { prev: (T - 1, B - 1), this: (T - 1, B), cmd: Command::Snapshot { membership: m }.bytes() }];
    es.push(Ent { prev: (T - 1, B), this: (T, B + 1), cmd: Command::Barrier(T).bytes() });
    let op = 101;
    es.push(Ent { prev: (T, B + 1), this: (T, B + 2), cmd: Command::ExecuteRequest { message: enc_write(op).to_vec(), request_id: request_id(op) }.bytes() });
    for e in &es {
        w.mon.borrow_mut().seed(0, e);
    }
    // the second one lacks an entry, the third one has nothing
    for (n, len) in [(1, 3), (2, 2)] {
        let mut d = Disk { term: T, ..Default::default() };
        d.snaps.insert(B, vec![]);
        for e in &es[..len] {
            d.log.insert(e.this.1, e.clone());
        }
        w.disks.borrow_mut().insert((n, 0), d);
    }
    w.mon.borrow_mut().seed_leader(0, T - 1, PRESET);
    w.mon.borrow_mut().seed_leader(0, T, PRESET);
    w.known_op(0, op);
    for n in 1..=3 {
        w.start(n);
    }
    w.run(5);
    use Act::*;
    sequences(w, k, &[Tn(1), Tn(2), W(1), W(3), Snap(1), Iso(1), Heal, Crash(2), Wait], 300, 3000);
    w.heal_and_converge(40000);
}
/// Five nodes as in figure 8 of the Raft paper and around it.
fn pre5(w: &Rc<World>) {
    const LOGS: &[&str] = &["", "2", "3", "24"];
    let mut logs = vec![(1, "2")];
    for n in 2..=5 {
        logs.push((n, LOGS[choose("log", LOGS.len())]));
    }
    preset(w, &[1, 2, 3, 4, 5], &logs, &BTreeMap::new());
    for n in 1..=5 {
        w.start(n);
    }
    w.run(5);
    // a first leader that reaches only some, then another one
    let first = [1, 5][choose("first", 2)];
    let cut: &[Node] = [&[][..], &[4][..], &[3, 4][..]][choose("cut", 3)];
    for c in cut {
        if *c != first {
            w.isolate(*c);
        }
    }
    w.timeout_now(0, first);
    w.run(60);
    w.crash(first);
    w.heal();
    w.timeout_now(0, if first == 1 { 5 } else { 1 });
    w.run(100);
    w.timeout_now(0, 2);
    w.run(400);
    w.heal_and_converge(40000);
}
/// A change of members somewhere in the logs.
fn prem(w: &Rc<World>, k: usize) {
    let mut cfgs = BTreeMap::new();
    cfgs.insert((2, 4), if choose("cfg", 2) == 0 { set(&[1, 2]) } else { set(&[1, 2, 3, 4]) });
    // the first entry of term 2 is on a majority: otherwise there is no change
    const L1: &[&str] = &["22", "222"];
    const L2: &[&str] = &["2", "22", "23"];
    const L3: &[&str] = &["", "2", "23", "233"];
    let logs = vec![(1, L1[choose("log", L1.len())]), (2, L2[choose("log", L2.len())]), (3, L3[choose("log", L3.len())])];
    let c4 = cfgs[&(2, 4)].len() == 4;
    // the one that made the change has it on its own only, when term 3 exists without it
    if logs[1].1 == "22" && logs[2].1.contains('3') {
        return;
    }
    preset(w, &[1, 2, 3], &logs, &cfgs);
    for n in 1..=if c4 { 4 } else { 3 } {
        w.start(n);
    }
    w.run(5);
    use Act::*;
    let acts: &[Act] = if c4 { &[Tn(1), Tn(2), Tn(3), W(2), Add(4), Rm(3)] } else { &[Tn(1), Tn(2), Tn(3), W(2), Rm(3), Rm(1)] };
    sequences(w, k, acts, 300, 3000);
    w.heal_and_converge(40000);
}

// ---- scripted peers ----------------------------------------------------------

struct RawCodec;
struct Enc;
struct Dec;
impl tonic::codec::Encoder for Enc {
    type Item = bytes::Bytes;
    type Error = tonic::Status;
    fn encode(&mut self, item: Self::Item, dst: &mut tonic::codec::EncodeBuf<'_>) -> Result<(), Self::Error> {
        bytes::BufMut::put_slice(dst, &item);
        Ok(())
    }
}
impl tonic::codec::Decoder for Dec {
    type Item = bytes::Bytes;
    type Error = tonic::Status;
    fn decode(&mut self, src: &mut tonic::codec::DecodeBuf<'_>) -> Result<Option<Self::Item>, Self::Error> {
        let n = bytes::Buf::remaining(src);
        Ok(Some(bytes::Buf::copy_to_bytes(src, n)))
    }
}
impl tonic::codec::Codec for RawCodec {
    type Encode = bytes::Bytes;
    type Decode = bytes::Bytes;
    type Encoder = Enc;
    type Decoder = Dec;
    fn encoder(&mut self) -> Enc {
        Enc
    }
    fn decoder(&mut self) -> Dec {
        Dec
    }
}
/// Send messages from a scripted node in one call; the answer if there is one.
pub fn call<R: prost::Message + Default + 'static>(w: &Rc<World>, from: Node, to: Node, path: &'static str, msgs: Vec<Vec<u8>>, wait: u64) -> Option<R> {
    let out: Rc<RefCell<Option<Option<R>>>> = Rc::new(RefCell::new(None));
    let o = out.clone();
    let task = sim().spawn_on(from, async move {
        let ep = tonic::transport::Endpoint::new(name(to)).unwrap();
        let mut g = tonic::client::Grpc::new(ep.connect_lazy());
        let r: Result<tonic::Response<bytes::Bytes>, tonic::Status> = async {
            g.ready().await.map_err(|_| tonic::Status::unavailable("not ready"))?;
            let st = futures::stream::iter(msgs.into_iter().map(bytes::Bytes::from));
            g.client_streaming(tonic::Request::new(st), http::uri::PathAndQuery::from_static(path), RawCodec).await
        }
        .await;
        let r = r.ok().and_then(|r| R::decode(r.into_inner()).ok());
        *o.borrow_mut() = Some(r);
    });
    w.run_till(wait, || out.borrow().is_some());
    let r = out.borrow_mut().take();
    match r {
        Some(r) => r,
        None => {
            sim().abort(task);
            None
        }
    }
}
fn enc<M: prost::Message>(m: M) -> Vec<u8> {
    m.encode_to_vec()
}
const VOTE: &str = "/sorock.Raft/RequestVote";
const BEAT: &str = "/sorock.Raft/SendHeartbeat";
const STREAM: &str = "/sorock.Raft/SendReplicationStream";

fn deny_all() -> Script {
    Rc::new(|path: &str, _b: &[u8]| {
        if path.ends_with("/RequestVote") {
            Some(proto::frame(&proto::VoteResponse { vote_granted: false }))
        } else if path.ends_with("/SendHeartbeat") {
            Some(proto::frame(&proto::Empty {}))
        } else {
            None
        }
    })
}
fn beat(w: &Rc<World>, from: Node, to: Node, term: u64, commit: u64) -> bool {
    let mut h = proto::Heartbeat { leader_id: name(from), states: Default::default() };
    h.states.insert(0, proto::LeaderCommitState { leader_term: term, leader_commit_index: commit });
    call::<proto::Empty>(w, from, to, BEAT, vec![enc(h)], 100).is_some()
}

/// Every sequence of vote requests, heartbeats and restarts against the rules
/// for granting votes.
fn peer_vote(w: &Rc<World>, k: usize) {
    #[derive(Clone, Copy, Debug)]
    enum M {
        V { term: u64, cand: Node, clock: (u64, u64), pre: bool, force: bool },
        B { term: u64, from: Node },
        Restart,
        Quiet,
    }
    const OLD: (u64, u64) = (1, 9);
    const EQ: (u64, u64) = (2, 4);
    const NEW: (u64, u64) = (3, 3);
    let mut ms = vec![];
    for term in [3, 4] {
        for cand in [2, 3] {
            for clock in [OLD, EQ] {
                ms.push(M::V { term, cand, clock, pre: false, force: true });
            }
        }
    }
    ms.push(M::V { term: 4, cand: 2, clock: NEW, pre: false, force: true });
    ms.push(M::V { term: 4, cand: 3, clock: (2, 3), pre: false, force: true });
    ms.push(M::V { term: 2, cand: 2, clock: EQ, pre: false, force: true });
    ms.push(M::V { term: 4, cand: 3, clock: EQ, pre: false, force: false });
    for (term, clock) in [(4, OLD), (4, EQ), (5, EQ)] {
        ms.push(M::V { term, cand: 3, clock, pre: true, force: true });
    }
    ms.push(M::V { term: 4, cand: 2, clock: EQ, pre: true, force: false });
    ms.push(M::B { term: 3, from: 2 });
    ms.push(M::B { term: 4, from: 3 });
    ms.push(M::B { term: 2, from: 3 });
    ms.push(M::Restart);
    ms.push(M::Quiet);

    for n in [2, 3] {
        serve_script(n, deny_all());
    }
    preset(w, &[1, 2, 3], &[(1, "22")], &BTreeMap::new());
    w.disks.borrow_mut().get_mut(&(1, 0)).unwrap().term = 3;
    w.start(1);
    w.run(5);
    // the model of the voter
    let mut term = 3;
    let mut voted: Option<Node> = None;
    let mut lead: Option<Node> = None;
    for i in 0..k {
        let m = ms[choose(&format!("msg{i}"), ms.len())];
        sim().log(|| format!("MSG {m:?} model term {term} voted {voted:?} leader {lead:?}"));
        match m {
            M::V { term: t, cand, clock, pre, force } => {
                let req = proto::VoteRequest {
                    shard_id: 0,
                    vote_term: t,
                    candidate_id: name(cand),
                    candidate_clock: Some(proto::Clock { term: clock.0, index: clock.1 }),
                    force_vote: force,
                    pre_vote: pre,
                };
                let was = w.disk(1, 0);
                let got = call::<proto::VoteResponse>(w, cand, 1, VOTE, vec![enc(req)], 200).map(|r| r.vote_granted);
                if pre {
                    // asking for consent leaves no vote and no term behind
                    let d = w.disk(1, 0);
                    if d.term >= t && was.term < t || d.term == was.term && d.voted != was.voted {
                        w.mon.borrow_mut().report("prevote", format!("a pre-vote for term {t} takes n1 from {:?} to {:?}", (was.term, was.voted), (d.term, d.voted.clone())));
                    }
                }
                let free = t > term || t == term && (voted.is_none() || voted == Some(cand) || lead == Some(cand));
                let may = free && clock >= EQ;
                // a leader of the term makes the vote pointless
                let must = may && force && !(t == term && lead.is_some());
                let mut m = w.mon.borrow_mut();
                match got {
                    Some(true) if !may => m.report("vote-model", format!("n1 grants {req_s} though it is in term {term}, voted {voted:?}, its log ends with {EQ:?}", req_s = format!("{:?}", (t, cand, clock, pre, force)))),
                    Some(false) if must => m.report("vote-model", format!("n1 refuses {:?} though it is in term {term}, voted {voted:?}, its log ends with {EQ:?}", (t, cand, clock, pre, force))),
                    None => m.report("vote-model", format!("n1 does not answer {:?}", (t, cand, clock, pre, force))),
                    _ => {}
                }
                drop(m);
                // (who refuses without having heard of the term may forget it)
                if !pre && got == Some(true) {
                    if t > term {
                        term = t;
                        voted = None;
                        lead = None;
                    }
                    if got == Some(true) {
                        voted = Some(cand);
                    }
                }
            }
            M::B { term: t, from } => {
                // no two leaders of a term
                if t == term && lead.map_or(false, |l| l != from) || w.mon.borrow().leaders.get(&(0, t)).map_or(false, |l| l.0 != from && l.0 != PRESET) {
                    return;
                }
                if t >= term {
                    w.mon.borrow_mut().seed_leader(0, t, from);
                }
                beat(w, from, 1, t, 0);
                if t >= term {
                    if t > term {
                        voted = None;
                    }
                    term = t;
                    lead = Some(from);
                }
            }
            M::Restart => {
                w.crash(1);
                w.run(5);
                w.start(1);
                w.run(5);
            }
            M::Quiet => w.run(2500),
        }
        note_state(w);
        let d = w.disk(1, 0);
        if d.term < term {
            w.mon.borrow_mut().report("vote-model", format!("n1 is in term {} on disk though it took part in term {term}", d.term));
        }
        // adopting a newer term is always allowed
        if d.term > term {
            term = d.term;
            voted = None;
            lead = None;
        }
        if voted.is_some() && d.term == term && d.voted != voted.map(name) && d.voted != lead.map(name) {
            w.mon.borrow_mut().report("vote-model", format!("n1 voted for {voted:?} in term {term} but its disk says {:?}", d.voted));
        }
    }
}

/// Ask n1 for its consent to candidates whose logs end before and at `last`.
/// This tells what it takes for its last entry and changes nothing.
fn probe_last(w: &Rc<World>, term: u64, last: (u64, u64)) {
    let was = w.disk(1, 0);
    for (clock, may) in [((last.0, last.1 - 1), false), ((last.0.saturating_sub(1), last.1 + 9), last.0 == 0), (last, true)] {
        let req = proto::VoteRequest {
            shard_id: 0,
            vote_term: term + 1,
            candidate_id: name(3),
            candidate_clock: Some(proto::Clock { term: clock.0, index: clock.1 }),
            force_vote: true,
            pre_vote: true,
        };
        let got = call::<proto::VoteResponse>(w, 3, 1, VOTE, vec![enc(req)], 200).map(|r| r.vote_granted);
        if got != Some(may) {
            w.mon.borrow_mut().report("vote-log", format!("n1, whose log ends with {last:?}, answers {got:?} to a pre-vote for a log that ends with {clock:?}"));
        }
    }
    let d = w.disk(1, 0);
    if (d.term, &d.voted) != (was.term, &was.voted) {
        w.mon.borrow_mut().report("prevote", format!("a pre-vote in the same term takes n1 from {:?} to {:?}", (was.term, was.voted), (d.term, d.voted)));
    }
}

/// Every sequence of replication streams of two leaders, heartbeats and
/// restarts against the rules for taking entries over.
fn peer_stream(w: &Rc<World>, k: usize, mine: &'static str, a_log: &'static str, b_log: &'static str) {
    #[derive(Clone, Copy, Debug)]
    enum M {
        /// leader (0: a, 1: b), previous index, number of entries
        S(usize, u64, u64),
        /// the leader's claim does not fit: previous clock of another term
        Bad(usize, u64),
        Beat(usize, u64),
        Restart,
    }
    let cf = BTreeMap::new();
    let logs = [build_log(&[1, 2, 3], a_log, &cf), build_log(&[1, 2, 3], b_log, &cf)];
    let terms = [4u64, 5u64];
    let node = [2u32, 3u32];
    let mut ms = vec![];
    for l in [1, 0] {
        let n = logs[l].len() as u64;
        for p in 1..n {
            for c in 1..=(n - p).min(3) {
                ms.push(M::S(l, p, c));
            }
        }
        ms.push(M::Bad(l, n - 1));
        ms.push(M::Beat(l, n));
        ms.push(M::Beat(l, n - 1));
    }
    ms.push(M::Restart);
    for n in [2, 3] {
        serve_script(n, deny_all());
    }
    preset(w, &[1, 2, 3], &[(1, mine)], &BTreeMap::new());
    for l in 0..2 {
        for e in &logs[l] {
            w.mon.borrow_mut().seed(0, e);
            if let Some(Command::ExecuteRequest { message, .. }) = e.command() {
                w.known_op(0, dec_write(&message).unwrap());
            }
        }
        w.mon.borrow_mut().seed_leader(0, terms[l], node[l]);
    }
    w.start(1);
    w.run(5);
    let mut log: Vec<(u64, u64)> = w.disk(1, 0).log.values().map(|e| e.this).collect();
    let mut ever: BTreeSet<(u64, u64)> = log.iter().copied().collect();
    let mut term = w.disk(1, 0).term;
    let mut committed = 0u64;
    for i in 0..k {
        let m = ms[choose(&format!("msg{i}"), ms.len())];
        sim().log(|| format!("MSG {m:?} model term {term} log {log:?} committed {committed}"));
        match m {
            M::S(l, p, c) => {
                let es = &logs[l];
                let head = proto::StreamHeader {
                    shard_id: 0,
                    sender_id: name(node[l]),
                    prev_clock: Some(proto::Clock { term: es[p as usize - 1].this.0, index: p }),
                    leader_term: terms[l],
                };
                let mut v = vec![enc(proto::StreamChunk { elem: Some(proto::Elem::Header(head)) })];
                for e in &es[p as usize..(p + c) as usize] {
                    v.push(enc(proto::StreamChunk {
                        elem: Some(proto::Elem::Entry(proto::StreamEntry { clock: Some(proto::Clock { term: e.this.0, index: e.this.1 }), command: e.cmd.clone() })),
                    }));
                }
                let r = call::<proto::StreamResponse>(w, node[l], 1, STREAM, v, 300);
                let before = log.clone();
                let mut took = 0;
                if terms[l] >= term {
                    term = terms[l];
                    for e in &es[p as usize..(p + c) as usize] {
                        let i = e.this.1 as usize;
                        if log.get(i - 1) == Some(&e.this) {
                            took += 1;
                            continue;
                        }
                        if log.get(i - 2) != Some(&e.prev) {
                            break;
                        }
                        log.truncate(i - 1);
                        log.push(e.this);
                        took += 1;
                    }
                }
                let d = w.disk(1, 0);
                ever.extend(log.iter().copied());
                let now: Vec<(u64, u64)> = d.log.range(..=d.own_last()).map(|(_, e)| e.this).collect();
                let mut mon = w.mon.borrow_mut();
                let Some(r) = r else {
                    mon.report("stream-model", format!("no answer to {m:?} with log {before:?} in term {term}"));
                    return;
                };
                if r.n_inserted > took {
                    mon.report("stream-model", format!("{m:?}: n1 claims {} entries, but can have only {took}; log {before:?}", r.n_inserted));
                }
                if took > 0 && r.n_inserted == 0 {
                    mon.report("stream-model", format!("{m:?}: n1 takes nothing though its log {before:?} has the previous entry"));
                }
                // (what was overwritten may come back as the successor of what it succeeded)
                if !now.starts_with(&log) || !now[log.len()..].iter().all(|e| ever.contains(e)) {
                    mon.report("stream-model", format!("{m:?}: log {before:?} becomes {now:?} instead of {log:?}"));
                    return;
                }
                log = now.clone();
                for j in 0..r.n_inserted {
                    let e = &es[(p + j) as usize];
                    if d.log.get(&e.this.1).map(|x| x.this) != Some(e.this) {
                        mon.report("stream-model", format!("{m:?}: n1 claims to have {:?} but its log is {now:?}", e.this));
                    }
                }
            }
            M::Bad(l, p) => {
                let e = &logs[l][p as usize];
                let head = proto::StreamHeader {
                    shard_id: 0,
                    sender_id: name(node[l]),
                    prev_clock: Some(proto::Clock { term: 3, index: p + 7 }),
                    leader_term: terms[l],
                };
                // a leader whose log is longer than it is here: nothing can be taken
                let far = proto::StreamEntry { clock: Some(proto::Clock { term: terms[l], index: p + 8 }), command: Command::Barrier(terms[l]).bytes() };
                let v = vec![
                    enc(proto::StreamChunk { elem: Some(proto::Elem::Header(head)) }),
                    enc(proto::StreamChunk { elem: Some(proto::Elem::Entry(far)) }),
                ];
                let _ = e;
                let r = call::<proto::StreamResponse>(w, node[l], 1, STREAM, v, 300);
                if terms[l] >= term {
                    term = terms[l];
                }
                let d = w.disk(1, 0);
                let now: Vec<(u64, u64)> = d.log.range(..=d.own_last()).map(|(_, e)| e.this).collect();
                if r.map_or(false, |r| r.n_inserted > 0) || now != log {
                    w.mon.borrow_mut().report("stream-model", format!("{m:?}: n1 takes an entry over a gap: {log:?} becomes {now:?}"));
                    return;
                }
            }
            M::Beat(l, c) => {
                // What leader a commits is in the log of leader b.
                let common = logs[0].iter().zip(&logs[1]).take_while(|(x, y)| x.this == y.this).count() as u64;
                let c = if l == 0 { c.min(common) } else { c };
                beat(w, node[l], 1, terms[l], c);
                if terms[l] >= term {
                    term = terms[l];
                    // what n1 shares with the leader, up to c
                    let same = log.iter().zip(logs[l].iter()).take_while(|(x, e)| **x == e.this).count() as u64;
                    committed = committed.max(same.min(c));
                }
            }
            M::Restart => {
                w.crash(1);
                w.run(5);
                w.start(1);
                w.run(5);
                let d = w.disk(1, 0);
                let now: Vec<(u64, u64)> = d.log.range(..=d.own_last()).map(|(_, e)| e.this).collect();
                if !now.starts_with(&log) || !now[log.len()..].iter().all(|e| ever.contains(e)) {
                    w.mon.borrow_mut().report("stream-model", format!("{m:?}: log {log:?} becomes {now:?}"));
                    return;
                }
                log = now;
            }
        }
        // let it apply
        w.run(30);
        note_state(w);
        let last = w.apps.borrow()[&(1, 0)].last;
        if last > committed {
            w.mon.borrow_mut().report("commit-model", format!("n1 applied entry {last}, but only {committed} can be committed; log {log:?} term {term}"));
        }
        let d = w.disk(1, 0);
        if d.term > 5 || d.term < term {
            w.mon.borrow_mut().report("stream-model", format!("term on disk is {} instead of {term}", d.term));
        }
        term = d.term;
    }
    probe_last(w, term, *log.last().unwrap());
    // the newer leader brings it up to date
    let es = &logs[1];
    let n = es.len() as u64;
    for p in (1..n).rev() {
        let head = proto::StreamHeader { shard_id: 0, sender_id: name(3), prev_clock: Some(proto::Clock { term: es[p as usize - 1].this.0, index: p }), leader_term: 5 };
        let mut v = vec![enc(proto::StreamChunk { elem: Some(proto::Elem::Header(head)) })];
        for e in &es[p as usize..] {
            v.push(enc(proto::StreamChunk {
                elem: Some(proto::Elem::Entry(proto::StreamEntry { clock: Some(proto::Clock { term: e.this.0, index: e.this.1 }), command: e.cmd.clone() })),
            }));
        }
        let r = call::<proto::StreamResponse>(w, 3, 1, STREAM, v, 300);
        if r.map_or(false, |r| r.n_inserted == n - p) {
            break;
        }
    }
    beat(w, 3, 1, 5, n);
    w.run(1500);
    let want: Vec<u32> = es
        .iter()
        .filter_map(|e| match e.command() {
            Some(Command::ExecuteRequest { message, .. }) => dec_write(&message),
            _ => None,
        })
        .collect();
    let got = w.state(1, 0);
    if got != want {
        w.mon.borrow_mut().report("stream-model", format!("after the leader of term 5 brought n1 up to date its state is {got:?} instead of {want:?}"));
    }
}

/// Every sequence of streams that start with a snapshot or go on from one,
/// of an older leader's streams, of heartbeats and of restarts, against the
/// rules for taking entries and snapshots over.
fn peer_snap(w: &Rc<World>, k: usize, mine: &'static str) {
    #[derive(Clone, Copy, Debug)]
    enum M {
        /// snapshot at the index and so many entries
        Snap(u64, u64),
        /// the snapshot can not be fetched
        Broken(u64),
        /// entries after the index
        S(u64, u64),
        /// entries of the older leader after the index
        Old(u64, u64),
        Beat(u64),
        Restart,
    }
    let cf = BTreeMap::new();
    // 3: barrier 2, 4: barrier 4, 5: write, 6: write, 7: barrier 5, 8: write
    let es = build_log(&[1, 2, 3], "244455", &cf);
    let old = build_log(&[1, 2, 3], "244", &cf);
    let n = es.len() as u64;
    let ms = [
        M::Snap(6, 1),
        M::Snap(5, 1),
        M::Snap(5, 2),
        M::Snap(8, 0),
        M::Snap(6, 0),
        M::S(6, 2),
        M::S(5, 1),
        M::S(7, 1),
        M::Old(3, 2),
        M::Old(2, 1),
        M::Broken(6),
        M::Broken(8),
        M::Beat(6),
        M::Beat(8),
        M::Restart,
    ];
    let ops_to = |i: u64| -> Vec<u32> {
        es.iter()
            .filter(|e| e.this.1 <= i)
            .filter_map(|e| match e.command() {
                Some(Command::ExecuteRequest { message, .. }) => dec_write(&message),
                _ => None,
            })
            .collect()
    };
    let broken = Rc::new(std::cell::Cell::new(false));
    {
        let deny = deny_all();
        serve_script(2, deny.clone());
        let all: BTreeMap<u64, Vec<u32>> = (1..=n).map(|i| (i, ops_to(i))).collect();
        let broken = broken.clone();
        serve_script(
            3,
            Rc::new(move |path: &str, b: &[u8]| {
                if path.ends_with("/GetSnapshot") {
                    if broken.get() {
                        return None;
                    }
                    let q = proto::unframe::<proto::GetSnapshotRequest>(b);
                    return Some(proto::frame(&proto::SnapshotChunk { data: enc_snap(&all[&q[0].index]).into() }));
                }
                deny(path, b)
            }),
        );
    }
    preset(w, &[1, 2, 3], &[(1, mine)], &BTreeMap::new());
    for e in es.iter().chain(&old) {
        w.mon.borrow_mut().seed(0, e);
        if let Some(Command::ExecuteRequest { message, .. }) = e.command() {
            w.known_op(0, dec_write(&message).unwrap());
        }
    }
    w.mon.borrow_mut().seed_leader(0, 4, 2);
    w.mon.borrow_mut().seed_leader(0, 5, 3);
    w.start(1);
    w.run(5);
    let mut log: BTreeMap<u64, (u64, u64)> = w.disk(1, 0).log.iter().map(|(i, e)| (*i, e.this)).collect();
    let mut base = 1u64;
    let mut term = w.disk(1, 0).term;
    let mut committed = 0u64;
    let snap_ent = |i: u64| -> Ent {
        let e = &es[i as usize - 1];
        Ent { prev: e.prev, this: e.this, cmd: Command::Snapshot { membership: set(&[1, 2, 3]) }.bytes() }
    };
    let send = |from: Node, lt: u64, list: &[Ent]| -> Option<proto::StreamResponse> {
        let p = list[0].prev;
        let head = proto::StreamHeader { shard_id: 0, sender_id: name(from), prev_clock: Some(proto::Clock { term: p.0, index: p.1 }), leader_term: lt };
        let mut v = vec![enc(proto::StreamChunk { elem: Some(proto::Elem::Header(head)) })];
        for e in list {
            v.push(enc(proto::StreamChunk {
                elem: Some(proto::Elem::Entry(proto::StreamEntry { clock: Some(proto::Clock { term: e.this.0, index: e.this.1 }), command: e.cmd.clone() })),
            }));
        }
        call::<proto::StreamResponse>(w, from, 1, STREAM, v, 300)
    };
    for i in 0..k {
        let m = ms[choose(&format!("msg{i}"), ms.len())];
        sim().log(|| format!("MSG {m:?} model term {term} base {base} log {log:?} committed {committed}"));
        let (from, lt, list) = match m {
            M::Snap(s, c) => {
                let mut l = vec![snap_ent(s)];
                l.extend_from_slice(&es[s as usize..(s + c) as usize]);
                (3, 5, l)
            }
            M::Broken(s) => (3, 5, vec![snap_ent(s)]),
            M::S(p, c) => (3, 5, es[p as usize..(p + c) as usize].to_vec()),
            M::Old(p, c) => (2, 4, old[p as usize..(p + c) as usize].to_vec()),
            M::Beat(c) => {
                beat(w, 3, 1, 5, c);
                if 5 >= term {
                    term = 5;
                    // what it has of the leader's log without a gap, up to c
                    let same = (1..=n).take_while(|j| *j <= base && base > 1 || log.get(j) == Some(&es[*j as usize - 1].this)).last().unwrap_or(0);
                    committed = committed.max(same.min(c));
                }
                (0, 0, vec![])
            }
            M::Restart => {
                w.crash(1);
                w.run(5);
                w.start(1);
                w.run(5);
                (0, 0, vec![])
            }
        };
        if from != 0 {
            let isbroken = matches!(m, M::Broken(_));
            broken.set(isbroken);
            let r = send(from, lt, &list);
            let before = log.clone();
            let mut took = 0;
            // nothing comes of a snapshot that can not be had, unless it is not needed
            let mut silent = false;
            if lt >= term {
                term = lt;
                for e in &list {
                    let i = e.this.1;
                    if i <= base || log.get(&i) == Some(&e.this) {
                        took += 1;
                        continue;
                    }
                    if e.is_snapshot() {
                        if isbroken {
                            silent = true;
                            break;
                        }
                        log.clear();
                        log.insert(i, e.this);
                        base = i;
                        committed = committed.max(i);
                        took += 1;
                        continue;
                    }
                    if log.get(&(i - 1)) != Some(&e.prev) {
                        break;
                    }
                    log.split_off(&i);
                    log.insert(i, e.this);
                    took += 1;
                }
            }
            let d = w.disk(1, 0);
            let now: BTreeMap<u64, (u64, u64)> = d.log.range(base..=d.own_last().max(base)).map(|(i, e)| (*i, e.this)).collect();
            let mut mon = w.mon.borrow_mut();
            match r {
                None if !silent => {
                    mon.report("stream-model", format!("no answer to {m:?} with log {before:?} in term {term}"));
                    return;
                }
                Some(r) if r.n_inserted > took => mon.report("stream-model", format!("{m:?}: n1 claims {} entries, but can have only {took}; log {before:?}", r.n_inserted)),
                Some(r) if took > 0 && r.n_inserted == 0 => mon.report("stream-model", format!("{m:?}: n1 takes nothing of {took}; log {before:?}")),
                _ => {}
            }
            if now != log {
                mon.report("stream-model", format!("{m:?}: log {before:?} becomes {now:?} instead of {log:?}"));
                return;
            }
        }
        broken.set(false);
        w.run(30);
        note_state(w);
        let (last, st) = {
            let a = w.apps.borrow();
            (a[&(1, 0)].last, a[&(1, 0)].ops.clone())
        };
        if last > committed {
            w.mon.borrow_mut().report("commit-model", format!("n1 applied entry {last}, but only {committed} can be committed; log {log:?} term {term}"));
        } else if st != ops_to(last) {
            w.mon.borrow_mut().report("stream-model", format!("after {m:?} the state of n1 at {last} is {st:?} instead of {:?}", ops_to(last)));
        }
        let d = w.disk(1, 0);
        if d.term > 5 || d.term < term {
            w.mon.borrow_mut().report("stream-model", format!("term on disk is {} instead of {term}", d.term));
        }
        term = d.term;
    }
    probe_last(w, term, *log.values().next_back().unwrap());
    let mut tail = vec![snap_ent(6)];
    tail.extend_from_slice(&es[6..]);
    send(3, 5, &tail);
    beat(w, 3, 1, 5, n);
    w.run(1500);
    let (want, got) = (ops_to(n), w.state(1, 0));
    if got != want {
        w.mon.borrow_mut().report("stream-model", format!("after the leader of term 5 brought n1 up to date its state is {got:?} instead of {want:?}"));
    }
}

/// A leader whose followers answer streams at will: it may announce as
/// committed only what a majority claims to have.
fn peer_lead(w: &Rc<World>, k: usize) {
    // answers of the followers: per stream a choice
    let claims: Rc<RefCell<BTreeMap<Node, u64>>> = Rc::new(RefCell::new(BTreeMap::new()));
    preset(w, &[1, 2, 3], &[(1, "22")], &BTreeMap::new());
    let budget = Rc::new(std::cell::Cell::new(k));
    for n in [2u32, 3] {
        let claims = claims.clone();
        let budget = budget.clone();
        let f: Script = Rc::new(move |path: &str, b: &[u8]| {
            if path.ends_with("/RequestVote") {
                return Some(proto::frame(&proto::VoteResponse { vote_granted: true }));
            }
            if path.ends_with("/SendHeartbeat") {
                return Some(proto::frame(&proto::Empty {}));
            }
            if path.ends_with("/SendReplicationStream") {
                let mut prev = 0;
                let mut cnt = 0u64;
                for c in proto::unframe::<proto::StreamChunk>(b) {
                    match c.elem {
                        Some(proto::Elem::Header(h)) => prev = h.prev_clock.map_or(0, |c| c.index),
                        Some(proto::Elem::Entry(_)) => cnt += 1,
                        None => {}
                    }
                }
                // full, all but one, nothing (short log), no answer
                let a = if budget.get() > 0 {
                    budget.set(budget.get() - 1);
                    sim().choose(Class::Free, 4, || format!("answer n{n} {prev}+{cnt}"))
                } else {
                    0
                };
                let (took, last) = match a {
                    0 => (cnt, prev + cnt),
                    1 => (cnt - 1, if cnt == 1 { prev } else { prev + cnt - 1 }),
                    2 => (0, 1),
                    _ => return None,
                };
                if took > 0 {
                    let mut c = claims.borrow_mut();
                    let e = c.entry(n).or_insert(0);
                    *e = (*e).max(prev + took);
                }
                return Some(proto::frame(&proto::StreamResponse { n_inserted: took, log_last_index: last, term: 0 }));
            }
            None
        });
        serve_script(n, f);
    }
    w.on_heartbeat.replace(Some(Box::new(move |c| {
        let best = claims.borrow().values().copied().max().unwrap_or(0);
        if c > best {
            Some(format!("n1 announces commit {c}, but nobody else claims more than {best}"))
        } else {
            None
        }
    })));
    w.start(1);
    w.run(5);
    w.timeout_now(0, 1);
    w.run(50);
    w.write(0, 1);
    w.run(20);
    w.write(0, 1);
    w.write(0, 1);
    w.run(3500);
    note_state(w);
}

/// Many entries at once for whoever was away.
fn bulk(w: &Rc<World>) {
    let who = [3u32, 1, 2][choose("away(n3|leader|crash n2)", 3)];
    let count = [9, 33, 70][choose("writes(9|33|70)", 3)];
    let snap = choose("snap", 2) == 1;
    let gap = [0u64, 2][choose("gap", 2)];
    if who == 2 {
        w.crash(2);
    } else {
        w.isolate(who);
    }
    if who == 1 {
        for _ in 0..5 {
            w.write(0, 1);
        }
        w.timeout_now(0, 2);
        w.run(1500);
    }
    let via = if who == 1 { 2 } else { 1 };
    for i in 0..count {
        w.write(0, via);
        if gap > 0 {
            w.run(gap);
        }
        if snap && i == count / 2 {
            w.run(1200);
            for n in 1..=3 {
                if n != who {
                    w.snapshot(n, 0);
                }
            }
            w.run(2200);
        }
    }
    w.run(1000);
    note_state(w);
    w.heal();
    if who == 2 {
        w.start(2);
    }
    w.run(3000);
    note_state(w);
    if !snap || who != 2 {
        let st = w.state(via, 0);
        let lag = w.state(who, 0);
        if st != lag {
            w.mon.borrow_mut().report("liveness", format!("n{who} is back for 3 s and has only {} of {} writes", lag.len(), st.len()));
        }
    }
}
/// Requests at one time to a healthy cluster: each is served.
fn burst(w: &Rc<World>, k: usize) {
    let n = w.n as usize;
    let gap = choose("gap(0|1)", 2) as u64;
    let t0 = w.ops.borrow().len();
    for i in 0..k {
        let a = choose(&format!("req{i}"), 2 * n);
        let at = 1 + (a / 2) as u32;
        if a % 2 == 0 {
            w.write(0, at);
        } else {
            w.read(0, at);
        }
        if gap > 0 {
            w.run(gap);
        }
    }
    let all = || w.ops.borrow()[t0..].iter().all(|o| !o.pending());
    w.run_till(2000, all);
    note_state(w);
    let bad: Vec<String> = w.ops.borrow()[t0..].iter().filter(|o| !o.ok()).map(|o| format!("{:?} via n{}: {:?}", o.kind, o.node, o.res)).collect();
    if let Some(b) = bad.first() {
        w.mon.borrow_mut().report("unserved", format!("a healthy cluster does not serve within 2 s: {b}"));
    }
}

/// Every sequence of heartbeats for some shards: those of the node take what is
/// for them, whatever else the heartbeat carries.
fn peer_beat(w: &Rc<World>, k: usize) {
    for n in [2, 3] {
        serve_script(n, deny_all());
    }
    let mine = w.shards.clone();
    for s in &mine {
        preset_shard(w, *s, &[1, 2, 3], &[(1, "22")], &BTreeMap::new());
    }
    w.start(1);
    w.run(5);
    // n2 makes sure that n1 has its log
    for s in &mine {
        let head = proto::StreamHeader { shard_id: *s, sender_id: name(2), prev_clock: Some(proto::Clock { term: 2, index: 3 }), leader_term: 2 };
        let e = w.disk(1, *s).log[&4].clone();
        let v = vec![
            enc(proto::StreamChunk { elem: Some(proto::Elem::Header(head)) }),
            enc(proto::StreamChunk { elem: Some(proto::Elem::Entry(proto::StreamEntry { clock: Some(proto::Clock { term: 2, index: 4 }), command: e.cmd.clone() })) }),
        ];
        let r = call::<proto::StreamResponse>(w, 2, 1, STREAM, v, 300);
        if r.map(|r| r.n_inserted) != Some(1) {
            w.mon.borrow_mut().report("shard-beat", format!("s{s}: n1 does not acknowledge an entry it has"));
            return;
        }
    }
    let mut term: BTreeMap<Shard, u64> = mine.iter().map(|s| (*s, 2)).collect();
    let mut done: BTreeMap<Shard, bool> = mine.iter().map(|s| (*s, false)).collect();
    let mut may: BTreeMap<Shard, bool> = done.clone();
    for i in 0..k {
        let mut h = proto::Heartbeat { leader_id: name(2), states: Default::default() };
        for s in &mine {
            let t = [0, 2, 1, 3][choose(&format!("beat{i} s{s}(-|term 2|term 1|term 3)"), 4)];
            if t == 0 {
                continue;
            }
            h.states.insert(*s, proto::LeaderCommitState { leader_term: t, leader_commit_index: 4 });
            let cur = term.get_mut(s).unwrap();
            if t >= *cur {
                may.insert(*s, true);
                if t == 2 {
                    done.insert(*s, true);
                }
                *cur = t;
            }
        }
        // shards that are not here
        for s in [[].as_slice(), &[5], &[6, 10, 11], &[5, 6, 10, 11, 12, 13, 14, 15]][choose(&format!("beat{i} others"), 4)] {
            h.states.insert(*s, proto::LeaderCommitState { leader_term: 2, leader_commit_index: 4 });
        }
        let ok = call::<proto::Empty>(w, 2, 1, BEAT, vec![enc(h)], 100).is_some();
        // it looks for committed entries once a second
        w.run(if i + 1 == k { 2500 } else { 100 });
        note_state(w);
        let mut bad = vec![];
        if !ok {
            bad.push("the heartbeat is not answered".to_string());
        }
        for s in &mine {
            let (d, last) = (w.disk(1, *s), w.apps.borrow()[&(1, *s)].last);
            if d.term != term[s] {
                bad.push(format!("s{s} is in term {} instead of {}", d.term, term[s]));
            }
            if i + 1 == k && done[s] && last < 4 {
                bad.push(format!("s{s} got the heartbeat that commits entry 4, but is at {last}"));
            }
            if !may[s] && last == 4 {
                bad.push(format!("s{s} applied entry 4 though nobody told that it is committed"));
            }
        }
        for b in bad {
            w.mon.borrow_mut().report("shard-beat", b);
        }
    }
}

// ---- shards ------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sh {
    W(Shard, Node),
    R(Shard, Node),
    Tn(Shard, Node),
    Detach(Node, Shard),
    Attach(Node, Shard),
    Iso(Node),
    Heal,
    Crash(Node),
    Restart(Node),
    Wait,
}
fn shard_seq(w: &Rc<World>, k: usize, acts: &[Sh], gap: u64) {
    for i in 0..k {
        let en: Vec<Sh> = acts
            .iter()
            .copied()
            .filter(|a| match a {
                Sh::W(_, n) | Sh::R(_, n) => w.alive(*n),
                Sh::Tn(s, n) => w.alive(*n) && !w.detached.borrow().contains(&(*n, *s)),
                Sh::Detach(n, s) => w.alive(*n) && !w.detached.borrow().contains(&(*n, *s)),
                Sh::Attach(n, s) => w.alive(*n) && w.detached.borrow().contains(&(*n, *s)),
                Sh::Iso(n) => w.alive(*n) && sim().down.borrow().is_empty(),
                Sh::Heal => !sim().down.borrow().is_empty(),
                Sh::Crash(n) => w.alive(*n),
                Sh::Restart(n) => !w.alive(*n),
                Sh::Wait => true,
            })
            .collect();
        let a = en[choose(&format!("act{i}({en:?})"), en.len())];
        sim().log(|| format!("ACT {a:?}"));
        match a {
            Sh::W(s, n) => {
                w.write(s, n);
            }
            Sh::R(s, n) => {
                w.read(s, n);
            }
            Sh::Tn(s, n) => {
                w.timeout_now(s, n);
            }
            Sh::Detach(n, s) => w.detach(n, s),
            Sh::Attach(n, s) => w.attach(n, s),
            Sh::Iso(n) => w.isolate(n),
            Sh::Heal => w.heal(),
            Sh::Crash(n) => w.crash(n),
            Sh::Restart(n) => w.start(n),
            Sh::Wait => w.run(3000),
        }
        w.run(gap);
        note_state(w);
    }
}

// ---- leadership ----------------------------------------------------------------

/// In a healthy cluster the node that is told to take over does so.
fn lead_seq(w: &Rc<World>, k: usize) {
    for i in 0..k {
        let a = choose(&format!("act{i}(tn1|tn2|tn3|w|wait|snap)"), 6);
        match a {
            0..=2 => {
                let n = a as u32 + 1;
                // followers are up to date before
                let t0 = w.mon.borrow().leader_term(0);
                w.timeout_now(0, n);
                let ok = w.run_till(1500, || w.leader(0) == Some(n) && w.mon.borrow().leader_term(0) > t0);
                let l = w.leader(0);
                if !ok && l != Some(n) {
                    w.mon.borrow_mut().report("transfer", format!("n{n} was told to take over but n{l:?} leads 1.5 s later"));
                }
                // right after the election it may still refuse
                let mut i = w.write(0, n);
                for _ in 0..5 {
                    w.run_till(1000, || !w.is_pending(i));
                    if w.acked(i) {
                        break;
                    }
                    w.run(200);
                    i = w.write(0, n);
                }
                w.run_till(1000, || !w.is_pending(i));
                if !w.acked(i) {
                    w.mon.borrow_mut().report("transfer", format!("the new leader n{n} does not serve: {:?}", w.op(i).res));
                }
                w.run(2300);
            }
            3 => {
                w.write(0, 1 + (i as u32 % 3));
                w.run(1200);
            }
            4 => w.run(2000),
            _ => {
                for n in 1..=3 {
                    w.snapshot(n, 0);
                }
                w.run(2300);
            }
        }
        note_state(w);
    }
    w.one_leader();
}
/// A leader that is removed hands over.
fn lead_rm(w: &Rc<World>, boot: u32) {
    let who = 1 + choose("leader", boot as usize) as u32;
    if who != 1 {
        w.timeout_now(0, who);
        w.run(1500);
    }
    let before = choose("writes", 2);
    for _ in 0..before {
        w.write(0, who);
        w.run(100);
    }
    if choose("snap", 2) == 1 && before > 0 {
        for n in 1..=boot {
            w.snapshot(n, 0);
        }
        w.run(2300);
    }
    let via = 1 + choose("via", boot as usize) as u32;
    let r = w.remove(0, via, who);
    let settle = [40, 1500][choose("then", 2)];
    w.run(settle);
    if w.is_pending(r) {
        w.run(500);
    }
    let acked = w.acked(r);
    w.run(2500);
    if acked {
        let l = w.leader(0);
        if l == Some(who) || l.is_none() {
            w.mon.borrow_mut().report("stepdown", format!("n{who} was removed 2.5 s ago, but the leader is {l:?}"));
        }
    }
    let other = (1..=boot).find(|x| *x != who).unwrap();
    let i = w.write(0, other);
    w.run_till(1000, || !w.is_pending(i));
    if !w.acked(i) {
        w.mon.borrow_mut().report("stepdown", format!("no service 2.5 s after leader n{who} was removed: {:?}", w.op(i).res));
    }
    w.one_leader();
}

// ---- forming a cluster -----------------------------------------------------------

fn boot_seq(w: &Rc<World>, k: usize, gap: u64, retry: bool) {
    for n in 1..=w.n {
        w.start(n);
    }
    w.run(5);
    let i = w.add(0, 1, 1);
    w.run([3, 40, 800][choose("gap0", 3)]);
    if !w.acked(i) && retry {
        w.add(0, 1, 1);
        w.run(300);
    }
    use Act::*;
    let mut acts = vec![Add(1), Add(2), Add(3), AddVia(2, 3), AddVia(3, 2), W(1), W(2), Rm(2), Wait];
    if w.n < 3 {
        acts.retain(|a| !matches!(a, Add(3) | AddVia(2, 3) | AddVia(3, 2)));
    }
    sequences(w, k, &acts, gap, 1500);
    w.heal_and_converge(40000);
}

/// Requests that can not be served are refused, the rest goes on.
fn odd_requests(w: &Rc<World>, k: usize) {
    for i in 0..k {
        let before = w.ops.borrow().len();
        let a = choose(&format!("odd{i}"), 11);
        let expect_err = match a {
            0 => {
                w.write(9, 1);
                true
            }
            1 => {
                w.read(9, 2);
                true
            }
            2 => {
                w.timeout_now(9, 2);
                true
            }
            3 => {
                w.add(9, 2, 2);
                true
            }
            4 => {
                w.raw_write(0, 2, bytes::Bytes::from_static(b"nonsense"), "odd");
                false
            }
            5 => {
                w.raw_write(0, 1, bytes::Bytes::new(), "");
                false
            }
            6 => {
                w.read(0, 3);
                false
            }
            7 => {
                w.write(0, 3);
                false
            }
            8 => {
                w.remove(0, 2, 7);
                false
            }
            9 => {
                // all byte values, and more of them than fit into 16 bits
                let m: Vec<u8> = (0..70_001u32).map(|x| (x ^ x >> 8) as u8).collect();
                w.raw_write(0, 3, m.into(), &"é\0\u{1F980}".repeat(100));
                false
            }
            _ => {
                w.add(0, 1, 2);
                false
            }
        };
        w.run(200);
        let ops = w.ops.borrow();
        let o = &ops[before];
        if expect_err && !matches!(o.res, OpRes::Err(_)) {
            let s = format!("request for a shard nobody has: {:?}", o.res);
            drop(ops);
            w.mon.borrow_mut().report("response", s);
        }
    }
}

/// Histories of the known findings.
fn known_stale(w: &Rc<World>) {
    w.isolate(1);
    w.timeout_now(0, 2);
    w.run(1000);
    let i = w.write(0, 2);
    w.run_till(1000, || !w.is_pending(i));
    w.read(0, 1);
    w.run(1000);
}
fn known_expired(w: &Rc<World>) {
    let i = w.write(0, 1);
    w.run(6000);
    w.retry(i, 1);
    w.run(1000);
}
fn known_snapshot(w: &Rc<World>) {
    w.isolate(3);
    let i = w.write(0, 1);
    w.run(10);
    w.write(0, 1);
    w.run(1450);
    w.snapshot(1, 0);
    w.snapshot(2, 0);
    w.run(1100);
    w.heal();
    w.run(1200);
    w.retry(i, 1);
    w.run(2500);
}

pub fn add(v: &mut Vec<Scenario>) {
    for (nm, f) in [("stale", known_stale as fn(&Rc<World>)), ("expired", known_expired), ("snapshot", known_snapshot)] {
        v.push(Scenario::new(format!("known.{nm}"), 3, move |w: &Rc<World>| {
            if !w.bootstrap(3) {
                return;
            }
            f(w);
            w.heal_and_converge(40000);
        }));
    }
    for u in UNIVERSES {
        for k in 1..=3 {
            v.push(Scenario::new(format!("pre3.{}.k{k}", u.0), 3, move |w: &Rc<World>| pre3(w, *u, k)).rank(k as u32 - 1));
        }
    }
    for k in 1..=4 {
        v.push(Scenario::new(format!("big.k{k}"), 3, move |w: &Rc<World>| big(w, k)).rank(k as u32 - 1));
    }
    v.push(Scenario::new("pre5", 5, pre5));
    for k in 1..=3 {
        v.push(Scenario::new(format!("prem.k{k}"), 4, move |w: &Rc<World>| prem(w, k)).rank(k as u32 - 1));
        v.push(Scenario::new(format!("peer.vote.k{}", k + 1), 3, move |w: &Rc<World>| peer_vote(w, k + 1)).rank(k as u32 - 1));
        for (nm, mine, a, b) in [("x", "23", "244", "255"), ("y", "2233", "2444", "25"), ("z", "", "244", "2455"), ("v", "244", "2444", "2455"), ("u", "2222", "24", "22225")] {
            v.push(Scenario::new(format!("peer.stream.{nm}.k{k}"), 3, move |w: &Rc<World>| peer_stream(w, k, mine, a, b)).rank(k as u32 - 1));
        }
    }
    for k in 1..=4 {
        for (nm, mine) in [("n", ""), ("s", "24"), ("t", "233333"), ("u", "2444")] {
            v.push(Scenario::new(format!("peer.snap.{nm}.k{k}"), 3, move |w: &Rc<World>| peer_snap(w, k, mine)).rank(if k <= 2 { 0 } else { k as u32 - 2 }));
        }
        for (nm, nodes, lead) in [("a", 3, 1), ("b", 3, 2), ("c", 2, 1), ("d", 1, 1)] {
            v.push(Scenario::new(format!("burst.{nm}.k{k}"), nodes, move |w: &Rc<World>| {
                if !w.bootstrap(nodes) {
                    return;
                }
                if lead != 1 {
                    w.timeout_now(0, lead);
                    w.run(1500);
                }
                burst(w, k);
                w.heal_and_converge(40000);
            }).rank(if k <= 2 { 0 } else { k as u32 - 2 }));
        }
    }
    v.push(Scenario::new("bulk", 3, |w: &Rc<World>| {
        if !w.bootstrap(3) {
            return;
        }
        bulk(w);
        w.heal_and_converge(40000);
    }));
    for k in 1..=3 {
        v.push(Scenario::new(format!("peer.beat.k{k}"), 3, move |w: &Rc<World>| peer_beat(w, k)).shards(vec![7, 7 + (1 << 16)]).rank(k as u32 - 1));
    }
    for k in [2, 4, 6] {
        v.push(Scenario::new(format!("peer.lead.k{k}"), 3, move |w: &Rc<World>| peer_lead(w, k)).rank(k as u32 / 2 - 1));
    }
    use Sh::*;
    let sets: &[(&str, &[Sh], u64)] = &[
        ("mix", &[W(7, 1), W(8, 1), R(7, 2), R(8, 2), Tn(7, 2), Tn(8, 3), Iso(1), Heal, Wait], 40),
        ("detach", &[Detach(1, 7), Attach(1, 7), Detach(2, 7), Attach(2, 7), Detach(3, 8), Attach(3, 8), W(7, 1), W(8, 1), Tn(8, 2), Wait], 1200),
        ("crash", &[W(7, 1), W(8, 2), Tn(7, 2), Crash(1), Restart(1), Crash(2), Restart(2), Wait], 400),
    ];
    for (nm, acts, gap) in sets {
        for k in 1..=4 {
            let (acts, gap) = (*acts, *gap);
            v.push(
                Scenario::new(format!("shard.{nm}.k{k}"), 3, move |w: &Rc<World>| {
                    if !w.bootstrap(3) {
                        return;
                    }
                    shard_seq(w, k, acts, gap);
                    // whoever is left serves
                    if !w.detached.borrow().is_empty() {
                        let ok: Vec<Shard> = w.shards.iter().copied().filter(|s| w.detached.borrow().iter().filter(|d| d.1 == *s).count() * 2 < w.n as usize).collect();
                        w.converge(&ok, 30000);
                    }
                    let det = w.detached.borrow().clone();
                    for (n, s) in det {
                        if w.alive(n) {
                            w.attach(n, s);
                        } else {
                            w.detached.borrow_mut().remove(&(n, s));
                        }
                    }
                    w.heal_and_converge(40000);
                })
                .shards(vec![7, 7 + (1 << 16)])
                .rank(if k <= 2 { 0 } else { k as u32 - 2 }),
            );
        }
    }
    for k in 1..=4 {
        v.push(Scenario::new(format!("lead.seq.k{k}"), 3, move |w: &Rc<World>| {
            if !w.bootstrap(3) {
                return;
            }
            lead_seq(w, k);
            w.heal_and_converge(40000);
        }).rank(if k <= 2 { 0 } else { k as u32 - 2 }));
        v.push(Scenario::new(format!("odd.k{k}"), 3, move |w: &Rc<World>| {
            if !w.bootstrap(3) {
                return;
            }
            odd_requests(w, k);
            w.heal_and_converge(40000);
        }).rank(if k <= 2 { 0 } else { k as u32 - 2 }));
    }
    for n in [2, 3, 4] {
        v.push(Scenario::new(format!("lead.rm.n{n}"), n, move |w: &Rc<World>| {
            if !w.bootstrap(n) {
                return;
            }
            lead_rm(w, n);
            w.heal_and_converge(40000);
        }));
    }
    for k in 1..=4 {
        for (nm, gap) in [("fast", 4), ("slow", 400)] {
            v.push(Scenario::new(format!("boot.{nm}.k{k}"), 3, move |w: &Rc<World>| boot_seq(w, k, gap, true)).rank(if k <= 2 { 0 } else { k as u32 - 2 }));
        }
    }
    v.push(
        Scenario::new("boot.crash", 2, move |w: &Rc<World>| {
            w.crash_tags.borrow_mut().insert("*");
            sim().enable(Class::Crash, true);
            for n in 1..=2 {
                w.start(n);
            }
            w.run(5);
            w.add(0, 1, 1);
            w.run(500);
            if !w.alive(1) {
                w.start(1);
                w.run(3000);
            }
            w.add(0, 1, 1);
            w.run(500);
            w.add(0, 1, 2);
            w.run(1500);
            for n in 1..=2 {
                if !w.alive(n) {
                    w.start(n);
                }
            }
            w.run(3000);
            sim().enable(Class::Crash, false);
            // the operator repeats what was not acknowledged
            for x in [1, 2] {
                let i = w.add(0, 1, x);
                w.run_till(3000, || !w.is_pending(i));
                w.run(500);
            }
            w.heal_and_converge(40000);
        })
        .budget(Budget::none().with(Class::Crash, 2)),
    );
}

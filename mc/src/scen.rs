//! Scenarios: what the environment does, and what is left open for the
//! explorer to decide.
use crate::explore::*;
use crate::world::*;
use simrt::*;
use std::rc::Rc;

/// One thing the environment may do.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// write through a node
    W(Node),
    /// read through a node
    R(Node),
    /// tell a node to campaign
    Tn(Node),
    /// cut a node off
    Iso(Node),
    /// reconnect everybody
    Heal,
    Crash(Node),
    Restart(Node),
    /// let time pass until somebody must have noticed
    Wait,
    /// application snapshot
    Snap(Node),
    Add(Node),
    Rm(Node),
    AddVia(Node, Node),
    /// the client gives up on its last pending request
    Cx,
    /// send the last write again
    Rt(Node),
    /// messages from a to b are lost
    OneWay(Node, Node),
    /// the storage of a node fails until further notice
    Bad(Node),
    Good(Node),
}

fn enabled(w: &World, a: Act) -> bool {
    let iso = |n: Node| (1..=w.n).any(|b| sim().down.borrow().contains(&(n, b)));
    match a {
        Act::W(n) | Act::R(n) | Act::Tn(n) => w.alive(n),
        Act::Snap(n) => w.alive(n) && w.apps.borrow()[&(n, 0)].last > w.disk(n, 0).snaps.keys().next_back().copied().unwrap_or(1),
        Act::Iso(n) => !iso(n) && w.alive(n),
        Act::Heal => !sim().down.borrow().is_empty(),
        Act::Crash(n) => w.alive(n),
        Act::Restart(n) => !w.alive(n),
        Act::Wait => true,
        Act::Add(n) | Act::Rm(n) | Act::AddVia(n, _) => w.alive(n),
        Act::Cx => w.ops.borrow().last().map_or(false, |o| o.pending()),
        Act::Rt(n) => w.alive(n) && last_write(w).is_some(),
        Act::Bad(n) => w.alive(n) && !w.bad_disks.borrow().contains(&n),
        Act::Good(n) => w.bad_disks.borrow().contains(&n),
        Act::OneWay(a, b) => !sim().down.borrow().contains(&(a, b)),
    }
}
fn last_write(w: &World) -> Option<usize> {
    w.ops.borrow().iter().rposition(|o| matches!(o.kind, OpKind::Write { .. }))
}
fn perform(w: &Rc<World>, a: Act, gap: u64, wait: u64) {
    match a {
        Act::W(n) => {
            w.write(0, n);
        }
        Act::R(n) => {
            w.read(0, n);
        }
        Act::Tn(n) => {
            w.timeout_now(0, n);
        }
        Act::Iso(n) => w.isolate(n),
        Act::Heal => w.heal(),
        Act::Crash(n) => w.crash(n),
        Act::Restart(n) => w.start(n),
        Act::Wait => w.run(wait),
        Act::Snap(n) => {
            w.snapshot(n, 0);
        }
        Act::Add(n) => {
            w.add(0, 1, n);
        }
        Act::Rm(n) => {
            w.remove(0, 1, n);
        }
        Act::AddVia(v, n) => {
            w.add(0, v, n);
        }
        Act::Cx => {
            let i = w.ops.borrow().len() - 1;
            w.cancel(i);
        }
        Act::Rt(n) => {
            let i = last_write(w).unwrap();
            w.retry(i, n);
        }
        Act::Bad(n) => {
            w.bad_disks.borrow_mut().insert(n);
        }
        Act::Good(n) => {
            w.bad_disks.borrow_mut().remove(&n);
        }
        Act::OneWay(a, b) => w.cut_one_way(a, b),
    }
    w.run(gap);
}
/// Every sequence of `k` enabled actions.
pub fn sequences(w: &Rc<World>, k: usize, acts: &[Act], gap: u64, wait: u64) {
    let mut last = None;
    for i in 0..k {
        let en: Vec<Act> = acts.iter().copied().filter(|a| enabled(w, *a) && !(last == Some(*a) && *a == Act::Wait)).collect();
        if en.is_empty() {
            return;
        }
        let c = sim().choose(Class::Free, en.len() as u32, || {
            format!("act{i}({})", en.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join("|"))
        });
        let a = en[c as usize];
        sim().log(|| format!("ACT {a:?}"));
        last = Some(a);
        perform(w, a, gap, wait);
        note_state(w);
    }
}


// ---- scripts: a history with open timing, losses and crashes -----------------

#[derive(Clone, Copy)]
pub struct Hist {
    pub name: &'static str,
    pub nodes: u32,
    pub boot: u32,
    pub run: fn(&Rc<World>),
}

fn s_write(w: &Rc<World>) {
    w.write(0, 1);
    w.write(0, 2);
    w.read(0, 3);
    w.run(600);
}
fn s_elect2(w: &Rc<World>) {
    w.timeout_now(0, 2);
    w.timeout_now(0, 3);
    w.write(0, 1);
    w.run(1500);
    w.write(0, 2);
    w.run(200);
}
fn s_cut(w: &Rc<World>) {
    w.write(0, 1);
    w.run(100);
    w.isolate(1);
    w.write(0, 1);
    w.run(4000);
    w.write(0, 2);
    w.run(400);
    w.heal();
    w.run(1200);
    w.read(0, 1);
    w.write(0, 1);
    w.run(300);
}
fn s_snap(w: &Rc<World>) {
    w.isolate(3);
    w.write(0, 1);
    w.write(0, 1);
    w.run(200);
    w.snapshot(1, 0);
    w.run(2200);
    w.write(0, 1);
    w.run(100);
    w.heal();
    w.run(2500);
    w.write(0, 2);
    w.run(400);
}
fn s_snap_all(w: &Rc<World>) {
    for _ in 0..2 {
        w.write(0, 1);
        w.run(150);
        for n in 1..=3 {
            w.snapshot(n, 0);
        }
        w.run(1300);
    }
    w.write(0, 2);
    w.run(400);
}
fn s_snap_lead(w: &Rc<World>) {
    // a follower falls behind a snapshot, and the leader changes while it catches up
    w.isolate(3);
    w.write(0, 1);
    w.write(0, 2);
    w.run(400);
    w.snapshot(1, 0);
    w.snapshot(2, 0);
    w.run(2200);
    w.heal();
    w.timeout_now(0, 2);
    w.run(1500);
    w.write(0, 3);
    w.run(1000);
}
fn s_add(w: &Rc<World>) {
    w.write(0, 1);
    w.add(0, 1, 4);
    w.write(0, 2);
    w.run(1500);
    w.write(0, 4);
    w.run(400);
}
fn s_rm_leader(w: &Rc<World>) {
    w.write(0, 1);
    w.remove(0, 1, 1);
    w.write(0, 2);
    w.run(4000);
    w.write(0, 3);
    w.run(400);
}
fn s_rm_cut(w: &Rc<World>) {
    // the remaining members cannot elect anybody; the removed leader could
    w.write(0, 1);
    w.run(1400);
    w.cut(2, 3);
    w.remove(0, 1, 1);
    w.run(6000);
    w.heal();
    w.write(0, 2);
    w.run(1400);
}
fn s_rm_follower(w: &Rc<World>) {
    w.write(0, 1);
    w.remove(0, 2, 3);
    w.write(0, 2);
    w.run(1500);
    w.write(0, 1);
    w.run(400);
}
fn s_add_rm(w: &Rc<World>) {
    w.add(0, 1, 4);
    w.remove(0, 2, 3);
    w.write(0, 1);
    w.run(2500);
    w.write(0, 2);
    w.run(400);
}
fn s_conf2(w: &Rc<World>) {
    // two changes at the same time at the leader
    w.add(0, 1, 4);
    w.remove(0, 1, 3);
    w.write(0, 1);
    w.run(2500);
    w.write(0, 2);
    w.run(400);
}
fn s_conf_cut(w: &Rc<World>) {
    // changes that can not be committed, one after the other
    w.isolate(1);
    w.add(0, 1, 4);
    w.run(30);
    w.remove(0, 1, 3);
    w.write(0, 1);
    w.run(30);
    w.remove(0, 1, 2);
    w.run(700);
    w.heal();
    w.run(2500);
    w.write(0, 2);
    w.run(400);
}
fn s_add_tn(w: &Rc<World>) {
    w.add(0, 1, 4);
    w.run(20);
    w.timeout_now(0, 2);
    w.run(2500);
    w.write(0, 2);
    w.run(400);
}
fn s_add_cut(w: &Rc<World>) {
    // a change of members that the rest never learns
    w.isolate(1);
    w.add(0, 1, 4);
    w.write(0, 1);
    w.run(4000);
    w.remove(0, 2, 3);
    w.write(0, 2);
    w.run(1000);
    w.heal();
    w.run(2000);
    w.write(0, 2);
    w.run(400);
}
fn s_retry(w: &Rc<World>) {
    let a = w.write(0, 2);
    let b = w.retry(a, 3);
    let c = w.retry(a, 1);
    w.run(400);
    let d = w.retry(a, 2);
    w.read(0, 2);
    w.run(300);
    for i in [a, b, c, d] {
        w.cancel(i);
    }
}
fn s_retry_lead(w: &Rc<World>) {
    let a = w.write(0, 1);
    w.run(10);
    w.timeout_now(0, 2);
    w.run(600);
    let b = w.retry(a, 2);
    w.write(0, 3);
    w.run(600);
    w.cancel(a);
    w.cancel(b);
    let c = w.retry(a, 3);
    w.run(600);
    w.cancel(c);
}
fn s_retry_cut(w: &Rc<World>) {
    w.isolate(1);
    let a = w.write(0, 1);
    w.run(4000);
    let b = w.retry(a, 2);
    w.write(0, 2);
    w.run(400);
    w.heal();
    w.run(1500);
    w.cancel(a);
    w.cancel(b);
}
fn s_restart_f(w: &Rc<World>) {
    w.write(0, 1);
    w.run(60);
    w.crash(2);
    w.write(0, 1);
    w.run(400);
    w.start(2);
    w.write(0, 3);
    w.run(700);
    w.read(0, 2);
    w.run(200);
}
fn s_restart_l(w: &Rc<World>) {
    w.write(0, 1);
    w.run(60);
    w.crash(1);
    w.run(4000);
    w.write(0, 2);
    w.run(300);
    w.start(1);
    w.run(700);
    w.read(0, 1);
    w.write(0, 1);
    w.run(400);
}
fn s_restart_snap(w: &Rc<World>) {
    w.write(0, 1);
    w.write(0, 1);
    w.run(400);
    w.snapshot(2, 0);
    w.run(2200);
    w.write(0, 1);
    w.run(100);
    w.crash(2);
    w.run(300);
    w.start(2);
    w.run(1500);
    w.write(0, 2);
    w.run(400);
}
fn s_tn(w: &Rc<World>) {
    w.write(0, 1);
    w.timeout_now(0, 2);
    w.write(0, 2);
    w.read(0, 3);
    w.run(1500);
    w.write(0, 3);
    w.run(300);
}
fn s_flap(w: &Rc<World>) {
    w.write(0, 1);
    w.timeout_now(0, 2);
    w.run(350);
    w.write(0, 2);
    w.timeout_now(0, 3);
    w.run(350);
    w.write(0, 3);
    w.timeout_now(0, 1);
    w.run(350);
    w.write(0, 1);
    w.read(0, 2);
    w.run(500);
}
fn s_prevote(w: &Rc<World>) {
    let before = w.mon.borrow().leader_term(0);
    w.isolate(3);
    w.run(6000);
    w.heal();
    w.run(3000);
    let after = w.mon.borrow().leader_term(0);
    // exact only when nothing else was lost or held back
    if sim().used_total() == 0 && after != before {
        w.mon.borrow_mut().report("disrupt", format!("the term went from {before} to {after} because an isolated node came back"));
    }
    w.write(0, 3);
    w.run(300);
}
fn s_tn_twice(w: &Rc<World>) {
    // asked to take over again while it campaigns, with one voter
    w.write(0, 1);
    w.run(1400);
    w.isolate(3);
    w.timeout_now(0, 2);
    w.run(3);
    w.timeout_now(0, 2);
    w.run(700);
    w.timeout_now(0, 1);
    w.timeout_now(0, 1);
    w.write(0, 2);
    w.run(700);
}
fn s_old_leader(w: &Rc<World>) {
    // a leader that comes back meets a campaign
    w.isolate(1);
    w.write(0, 1);
    w.timeout_now(0, 2);
    w.run(800);
    w.write(0, 2);
    w.run(100);
    w.partition(&[&[1, 3], &[2]]);
    w.timeout_now(0, 3);
    w.run(800);
    w.heal();
    w.timeout_now(0, 1);
    w.write(0, 3);
    w.run(800);
}
fn s_cut_snap(w: &Rc<World>) {
    // a request waits at a leader whose log is replaced by a snapshot
    w.isolate(1);
    w.write(0, 1);
    w.run(4000);
    w.write(0, 2);
    w.write(0, 3);
    w.run(800);
    w.snapshot(2, 0);
    w.snapshot(3, 0);
    w.run(2200);
    w.heal();
    w.run(2500);
    w.write(0, 1);
    w.run(400);
}
fn s_ack_back(w: &Rc<World>) {
    // what a leader knows about a follower from an earlier term is no longer true
    w.run(1400);
    w.partition(&[&[1, 2], &[3, 4, 5]]);
    w.write(0, 1);
    w.write(0, 1);
    w.write(0, 1);
    w.run(500);
    w.timeout_now(0, 3);
    w.run(500);
    w.heal();
    w.run(1000);
    w.partition(&[&[1, 3, 4, 5], &[2]]);
    w.timeout_now(0, 1);
    w.run(10);
    w.partition(&[&[1, 3], &[2], &[4], &[5]]);
    w.run(1500);
    w.partition(&[&[1], &[2, 4, 5], &[3]]);
    w.run(3000);
    w.write(0, 2);
    w.run(500);
}
fn s_fig8(w: &Rc<World>) {
    // an entry of an old term gets onto a majority and is overwritten all the same
    w.run(1400);
    let k = w.disk(1, 0).chain_last() + 1;
    w.isolate(1);
    w.write(0, 1);
    w.run(30);
    w.timeout_now(0, 2);
    w.run_till_by(1, 1000, || w.disk(2, 0).log.contains_key(&k));
    w.partition(&[&[1], &[2], &[3]]);
    w.run(50);
    w.partition(&[&[1, 3], &[2]]);
    w.timeout_now(0, 3);
    w.run(20);
    w.timeout_now(0, 1);
    w.run_till_by(1, 1500, || w.disk(3, 0).log.contains_key(&k));
    w.run(1);
    w.partition(&[&[1], &[2], &[3]]);
    w.run(3300);
    w.partition(&[&[1], &[2, 3]]);
    w.timeout_now(0, 2);
    w.run(1000);
    w.write(0, 2);
    w.run(500);
}
fn s_snap_busy(w: &Rc<World>) {
    // a follower is late with an entry when a snapshot beyond it arrives
    w.write(0, 1);
    w.run(1100);
    w.isolate(3);
    w.write(0, 1);
    w.write(0, 2);
    w.run(500);
    w.snapshot(1, 0);
    w.snapshot(2, 0);
    w.run(2500);
    w.heal();
    w.run(1500);
    w.write(0, 1);
    w.run(600);
    w.read(0, 3);
    w.run(300);
}
fn s_split5(w: &Rc<World>) {
    w.write(0, 1);
    w.run(100);
    w.partition(&[&[1, 2], &[3, 4, 5]]);
    w.write(0, 1);
    w.run(4000);
    w.write(0, 3);
    w.run(500);
    w.partition(&[&[1, 2, 3], &[4, 5]]);
    w.run(3000);
    w.write(0, 4);
    w.write(0, 2);
    w.run(500);
    w.heal();
    w.run(1000);
}

pub const SCRIPTS: &[Hist] = &[
    Hist { name: "write", nodes: 3, boot: 3, run: s_write },
    Hist { name: "elect2", nodes: 3, boot: 3, run: s_elect2 },
    Hist { name: "cut", nodes: 3, boot: 3, run: s_cut },
    Hist { name: "snap", nodes: 3, boot: 3, run: s_snap },
    Hist { name: "snapall", nodes: 3, boot: 3, run: s_snap_all },
    Hist { name: "snaplead", nodes: 3, boot: 3, run: s_snap_lead },
    Hist { name: "add", nodes: 4, boot: 3, run: s_add },
    Hist { name: "rmleader", nodes: 3, boot: 3, run: s_rm_leader },
    Hist { name: "rmfollower", nodes: 3, boot: 3, run: s_rm_follower },
    Hist { name: "addrm", nodes: 4, boot: 3, run: s_add_rm },
    Hist { name: "conf2", nodes: 4, boot: 3, run: s_conf2 },
    Hist { name: "confcut", nodes: 4, boot: 3, run: s_conf_cut },
    Hist { name: "addtn", nodes: 4, boot: 3, run: s_add_tn },
    Hist { name: "addcut", nodes: 4, boot: 3, run: s_add_cut },
    Hist { name: "retry", nodes: 3, boot: 3, run: s_retry },
    Hist { name: "retrylead", nodes: 3, boot: 3, run: s_retry_lead },
    Hist { name: "retrycut", nodes: 3, boot: 3, run: s_retry_cut },
    Hist { name: "restartf", nodes: 3, boot: 3, run: s_restart_f },
    Hist { name: "restartl", nodes: 3, boot: 3, run: s_restart_l },
    Hist { name: "restartsnap", nodes: 3, boot: 3, run: s_restart_snap },
    Hist { name: "tn", nodes: 3, boot: 3, run: s_tn },
    Hist { name: "flap", nodes: 3, boot: 3, run: s_flap },
    Hist { name: "prevote", nodes: 3, boot: 3, run: s_prevote },
    Hist { name: "tntwice", nodes: 3, boot: 3, run: s_tn_twice },
    Hist { name: "oldleader", nodes: 3, boot: 3, run: s_old_leader },
    Hist { name: "cutsnap", nodes: 3, boot: 3, run: s_cut_snap },
    Hist { name: "ackback", nodes: 5, boot: 5, run: s_ack_back },
    Hist { name: "fig8", nodes: 3, boot: 3, run: s_fig8 },
    Hist { name: "snapbusy", nodes: 3, boot: 3, run: s_snap_busy },
    Hist { name: "rmcut", nodes: 3, boot: 3, run: s_rm_cut },
    Hist { name: "split5", nodes: 5, boot: 5, run: s_split5 },
];

/// All storage points.
pub const POINTS: &[&str] = &[
    "log.insert", "log.inserted", "log.delete", "log.get", "log.last", "ballot.save", "ballot.load", "app.read", "app.write", "app.written", "app.install", "app.save", "app.open",
];
/// Acquisitions of locks.
pub const LOCKS: &[&str] = &["lock"];
/// Accesses to atomics, also those inside of locks that spin.
pub const ATOMICS: &[&str] = &["atomic"];
/// Only messages, the responses too.
pub const REPLIES: &[&str] = &["reply"];
/// Points where a step takes effect.
pub const EFFECTS: &[&str] = &["log.insert", "log.delete", "ballot.save", "app.read", "app.write", "app.install", "app.save", "app.open"];

fn scripted(sc: Hist, class: &'static str, budget: Budget, points: &'static [&'static str], menu: &'static [u64], classes: &'static [Class]) -> Scenario {
    let n = budget.total;
    Scenario::new(format!("{class}{n}.{}", sc.name), sc.nodes, move |w: &Rc<World>| {
        if !w.bootstrap(sc.boot) {
            return;
        }
        for p in points {
            w.points.borrow_mut().insert(p);
            match *p {
                "reply" => sim().reply_points.set(true),
                "lock" => sim().lock_points.set(true),
                "atomic" => sim().preempt.set(true),
                _ => {}
            }
        }
        w.crash_tags.borrow_mut().insert("*");
        if !menu.is_empty() {
            *sim().hold_menu.borrow_mut() = menu.to_vec();
        }
        for c in classes {
            sim().enable(*c, true);
        }
        (sc.run)(w);
        w.heal_and_converge(40000);
    })
    .budget(budget)
}

pub fn all() -> Vec<Scenario> {
    let mut v = vec![];
    v.push(Scenario::new("smoke", 3, |w: &Rc<World>| {
        if !w.bootstrap(3) {
            return;
        }
        let a = w.write(0, 1);
        let b = w.write(0, 2);
        let r = w.read(0, 3);
        w.run(500);
        let _ = (a, b, r);
        w.heal_and_converge(20000);
    }));
    use Act::*;
    let seqs: &[(&'static str, u32, u32, u64, u64, &'static [Act])] = &[
        ("part", 3, 3, 150, 4000, &[W(1), W(2), Iso(1), Iso(2), Heal, Tn(2), Tn(3), Wait, R(1), R(2)]),
        ("crash", 3, 3, 150, 4000, &[W(1), W(2), Crash(1), Crash(2), Crash(3), Restart(1), Restart(2), Restart(3), Wait]),
        ("snap", 3, 3, 350, 4000, &[W(1), Snap(1), Snap(2), Iso(2), Heal, Crash(2), Restart(2), Crash(1), Restart(1), Tn(3), Wait]),
        ("snapslow", 3, 3, 1200, 4000, &[W(1), Snap(1), Snap(2), Iso(2), Heal, Crash(2), Restart(2), Tn(2)]),
        ("mem", 4, 3, 40, 2500, &[W(1), Add(4), Rm(4), Rm(3), Rm(1), Tn(2), Wait, Iso(1), Heal]),
        ("mem2", 3, 2, 40, 2500, &[W(1), Add(3), Rm(3), Rm(2), Rm(1), Tn(2), Wait, Crash(1), Restart(1)]),
        ("conf", 4, 3, 1, 2500, &[Add(4), Rm(3), Rm(1), AddVia(2, 4), W(1), Iso(1), Heal, Tn(2), Wait]),
        ("confsnap", 4, 3, 250, 2500, &[Add(4), Rm(3), Rm(4), W(1), Snap(1), Snap(2), Snap(4), Tn(2)]),
        ("disk", 3, 3, 150, 4000, &[W(1), W(2), Bad(1), Bad(2), Good(1), Good(2), Crash(1), Restart(1), Tn(2), Snap(2), Iso(1), Heal, Wait]),
        ("retry", 3, 3, 1, 1000, &[W(1), W(2), Rt(1), Rt(2), Rt(3), Cx, Tn(2), Wait]),
        ("retryslow", 3, 3, 60, 900, &[W(1), W(2), Rt(1), Rt(2), Cx, Crash(1), Restart(1), Tn(2), Wait]),
        ("oneway", 3, 3, 150, 4000, &[W(1), W(2), OneWay(1, 2), OneWay(2, 1), OneWay(1, 3), OneWay(3, 1), OneWay(2, 3), Heal, Wait]),
        ("five", 5, 5, 60, 3500, &[W(1), W(2), Iso(1), Iso(2), Crash(3), Restart(3), Tn(2), Tn(4), Heal, Wait]),
        ("one", 1, 1, 60, 1200, &[W(1), R(1), Crash(1), Restart(1), Snap(1), Tn(1), Wait, Rt(1)]),
        ("two", 2, 2, 60, 3000, &[W(1), R(2), Crash(1), Restart(1), Crash(2), Restart(2), Tn(2), Wait]),
        ("vote", 3, 3, 2, 700, &[Tn(1), Tn(2), Tn(3), Iso(1), Iso(3), Heal, Wait, W(1)]),
        ("fast", 3, 3, 3, 1000, &[W(1), W(2), R(1), R(3), Tn(2), Tn(3), Iso(1), Heal, Wait]),
    ];
    for (nm, nodes, boot, gap, wait, acts) in seqs {
        for k in 1..=6 {
            let (boot, gap, wait, acts) = (*boot, *gap, *wait, *acts);
            v.push(Scenario::new(format!("seq.{nm}.k{k}"), *nodes, move |w: &Rc<World>| {
                if !w.bootstrap(boot) {
                    return;
                }
                sequences(w, k, acts, gap, wait);
                w.heal_and_converge(40000);
            }).rank(if k <= 2 { 0 } else { k as u32 - 2 }));
        }
    }
    static FINE: &[u64] = &[3 * MS, 400 * MS, 3000 * MS];
    static LONG: &[u64] = &[8000 * MS];
    static COARSE: &[u64] = &[400 * MS, 3000 * MS];
    for sc in SCRIPTS {
        let b = |c: Class, n: u32| Budget::none().with(c, n);
        v.push(scripted(*sc, "hold", b(Class::Hold, 1), POINTS, FINE, &[Class::Hold]));
        v.push(scripted(*sc, "long", b(Class::Hold, 1), POINTS, LONG, &[Class::Hold]));
        v.push(scripted(*sc, "long", b(Class::Hold, 2), EFFECTS, LONG, &[Class::Hold]).rank(2));
        v.push(scripted(*sc, "hold", b(Class::Hold, 2), EFFECTS, COARSE, &[Class::Hold]).rank(1));
        v.push(scripted(*sc, "lock", b(Class::Hold, 1), LOCKS, FINE, &[Class::Hold]));
        v.push(scripted(*sc, "atomic", b(Class::Hold, 1), ATOMICS, COARSE, &[Class::Hold]).rank(1));
        v.push(scripted(*sc, "lock", b(Class::Hold, 2), LOCKS, COARSE, &[Class::Hold]).rank(2));
        v.push(scripted(*sc, "net", b(Class::Hold, 1), REPLIES, FINE, &[Class::Hold]));
        v.push(scripted(*sc, "net", b(Class::Hold, 2), REPLIES, FINE, &[Class::Hold]).rank(1));
        v.push(scripted(*sc, "drop", b(Class::Drop, 1), &[], &[], &[Class::Drop]));
        v.push(scripted(*sc, "drop", b(Class::Drop, 2), &[], &[], &[Class::Drop]).rank(1));
        v.push(scripted(*sc, "crash", b(Class::Crash, 1), &[], &[], &[Class::Crash]));
        v.push(scripted(*sc, "crash", b(Class::Crash, 2), &[], &[], &[Class::Crash]).rank(1));
        v.push(scripted(*sc, "fail", b(Class::Fail, 1), &[], &[], &[Class::Fail]));
        v.push(scripted(*sc, "fail", b(Class::Fail, 2), &[], &[], &[Class::Fail]).rank(1));
        v.push(scripted(*sc, "mix", Budget::none().with(Class::Hold, 1).with(Class::Drop, 1).with(Class::Crash, 1).total(2), EFFECTS, COARSE, &[Class::Hold, Class::Drop, Class::Crash]).rank(1));
    }
    crate::fams::add(&mut v);
    v
}

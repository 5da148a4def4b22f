//! Which scenarios and which invariants decide which property.

pub struct Prop {
    pub id: &'static str,
    /// Kinds of violations that refute it. `kind@text` stands for the kind in
    /// scenarios whose name contains the text.
    pub kinds: &'static [&'static str],
    /// Scenarios explored first (prefixes of names).
    pub first: &'static [&'static str],
    /// Then these.
    pub then: &'static [&'static str],
}

/// Every script with one deviation.
pub const SINGLE: &[&str] = &["hold1.", "drop1.", "crash1.", "fail1.", "lock1.", "net1.", "long1."];
/// Short sequences of everything.
pub const SHORT: &[&str] = &[
    "seq.part.k3", "seq.crash.k3", "seq.mem.k3", "seq.mem2.k3", "seq.snap.k3", "seq.snapslow.k3", "seq.retry.k3", "seq.oneway.k3", "seq.five.k3", "seq.one.k4", "seq.two.k4", "seq.fast.k3", "seq.conf.k3", "seq.confsnap.k3", "seq.disk.k3", "seq.vote.k4", "bulk", "burst.",
    "pre3.a.k2", "pre3.b.k2", "pre3.c.k2", "pre3.d.k2", "pre3.e.k2", "prem.k2", "pre5", "big.k4", "peer.", "shard.mix.k3", "shard.detach.k3", "shard.crash.k3", "lead.seq.k3", "lead.rm", "boot.", "odd.k3",
];
/// Deeper, for the thorough tier.
pub const DEEP: &[&[&str]] = &[
    &["atomic1."],
    &["seq."],
    &["pre3.", "prem.", "peer.", "shard.", "lead.", "boot.", "odd.", "burst.", "big."],
    &["crash2.", "drop2.", "fail2."],
    &["hold2.", "net2."],
    &["lock2."],
    &["mix2."],
];

pub const PROPS: &[Prop] = &[
    Prop {
        id: "P01",
        kinds: &["two-leaders", "vote-once", "election-majority", "non-member-leader"],
        first: &["smoke", "big.k2", "big.k3", "net1.tntwice", "net1.oldleader", "seq.vote.k3", "peer.vote.k2", "peer.vote.k3", "pre3.a.k1", "pre3.b.k1", "pre3.d.k1", "prem.k1", "lead.seq.k2", "seq.part.k2", "hold1.elect2", "hold1.tn", "hold1.flap", "drop1.elect2", "drop1.tn", "crash1.elect2", "crash1.tn", "crash1.flap", "hold1.add", "lead.rm", "boot.fast.k2", "seq.conf.k2"],
        then: &["net1.", "seq.vote.k4", "net2.tntwice", "crash1.", "hold1.", "seq.conf.k3", "hold2.elect2", "crash2.elect2", "crash2.tn", "pre3.a.k2", "pre3.e.k2", "prem.k2", "boot.crash"],
    },
    Prop {
        id: "P02",
        kinds: &["term-monotonic", "vote-change", "vote-persist", "vote-once", "vote-model"],
        first: &["smoke", "big.k2", "big.k3", "net1.tntwice", "net1.oldleader", "seq.vote.k3", "peer.vote.k2", "peer.vote.k3", "crash1.elect2", "crash1.tn", "crash1.flap", "seq.crash.k2", "hold1.elect2", "hold1.tn", "hold1.flap", "hold1.cut", "lead.seq.k2", "pre3.a.k1", "peer.stream.x.k2", "boot.crash", "fail1.elect2", "seq.disk.k2"],
        then: &["net1.", "seq.vote.k4", "crash1.", "hold1.", "crash2.elect2", "crash2.tn", "seq.crash.k3", "peer.vote.k4"],
    },
    Prop {
        id: "P03",
        kinds: &["log-match", "overwrite-committed", "overwrite-applied", "stream-model", "vote-log@peer"],
        first: &["smoke", "big.k2", "big.k3", "lock1.tn", "lock1.elect2", "hold1.tntwice", "hold1.fig8", "bulk", "peer.snap.n.k2", "peer.snap.s.k2", "peer.snap.t.k2", "peer.snap.u.k2", "peer.stream.x.k2", "peer.stream.y.k2", "peer.stream.z.k2", "peer.stream.v.k2", "peer.stream.u.k2", "pre3.a.k1", "pre3.b.k1", "pre3.c.k1", "pre3.d.k1", "pre3.e.k1", "prem.k1", "seq.part.k2", "crash1.cut", "crash1.flap", "drop1.cut", "drop1.flap", "hold1.cut", "hold1.flap", "hold1.snap"],
        then: &["net1.", "peer.stream.", "peer.snap.n.k3", "peer.snap.s.k3", "peer.snap.t.k3", "peer.snap.u.k3", "hold1.", "crash1.", "drop1.", "pre3.a.k2", "pre3.c.k2", "pre3.d.k2", "pre5"],
    },
    Prop {
        id: "P04",
        kinds: &["ack-lost", "ack-pos", "overwrite-committed", "overwrite-applied", "leader-complete", "commit-unsafe", "commit-majority"],
        first: &["smoke", "big.k2", "big.k3", "net1.ackback", "lock1.elect2", "drop1.fig8", "crash1.ackback", "net1.cut", "crash1.write", "crash1.elect2", "crash1.cut", "crash1.tn", "crash1.restart", "drop1.cut", "drop1.elect2", "hold1.elect2", "hold1.cut", "seq.crash.k2", "seq.part.k2", "pre3.a.k1", "pre5", "shard.crash.k2", "lead.rm", "bulk", "fail1.write", "fail1.cut", "fail1.restartf", "seq.disk.k2", "hold1.split5"],
        then: &["atomic1.fig8", "crash1.", "drop1.", "hold1.", "fail1.", "seq.disk.k3", "seq.crash.k3", "seq.part.k3", "seq.oneway.k3", "seq.two.k4", "crash2.write", "crash2.restart"],
    },
    Prop {
        id: "P05",
        kinds: &["state-machine", "apply-order", "commit-unique", "overwrite-applied", "rollback", "garbled", "stream-model@peer.snap"],
        first: &["smoke", "big.k2", "big.k3", "long1.snapbusy", "lock1.tn", "hold1.write", "hold1.cut", "hold1.elect2", "crash1.cut", "crash1.restart", "crash1.snap", "drop1.cut", "drop1.snap", "seq.part.k2", "seq.crash.k2", "pre3.a.k1", "pre3.c.k1", "pre5", "odd.k2", "shard.mix.k2", "peer.stream.x.k2", "peer.stream.v.k2", "peer.stream.u.k2", "bulk", "peer.snap.n.k2", "peer.snap.u.k2", "fail1.write"],
        then: &["net1.", "hold1.", "crash1.", "drop1.", "seq.snap.k3", "seq.part.k3", "shard.crash.k3"],
    },
    Prop {
        id: "P06",
        kinds: &["dup-exec"],
        first: &["smoke", "big.k2", "big.k3", "net1.retry", "seq.retry.k2", "seq.retry.k3", "seq.retryslow.k2", "seq.retryslow.k3", "hold1.retry", "drop1.retry", "crash1.retry", "seq.one.k3"],
        then: &["seq.retry.k4", "seq.retryslow.k4", "hold2.retry", "crash2.retry", "drop2.retry", "hold1.", "crash1.", "drop1."],
    },
    Prop {
        id: "P07",
        kinds: &["stale-read", "read-prefix", "write-order"],
        first: &["smoke", "big.k2", "big.k3", "net1.tn", "net1.oldleader", "seq.fast.k2", "seq.fast.k3", "seq.part.k2", "seq.one.k3", "seq.two.k3", "hold1.write", "hold1.elect2", "hold1.tn", "hold1.flap", "crash1.elect2", "crash1.restart", "drop1.elect2", "shard.mix.k2", "odd.k2", "lead.seq.k2", "burst.a.k3", "burst.b.k2", "bulk"],
        then: &["net1.", "seq.part.k3", "hold1.", "crash1.", "drop1.", "seq.one.k5", "seq.two.k4", "seq.snap.k3", "hold2.elect2", "hold2.tn"],
    },
    Prop {
        id: "P08",
        kinds: &["commit-majority", "commit-unsafe", "commit-unique", "commit-model", "leader-complete", "vote-log"],
        first: &["smoke", "big.k2", "big.k3", "net1.ackback", "lock1.elect2", "hold1.fig8", "net1.cut", "peer.lead", "peer.stream.x.k2", "peer.stream.y.k2", "peer.stream.v.k2", "peer.stream.u.k2", "pre5", "pre3.a.k1", "pre3.b.k1", "pre3.c.k1", "prem.k1", "hold1.cut", "hold1.write", "drop1.cut", "crash1.cut", "seq.part.k2", "lead.rm", "hold1.add", "hold1.rmfollower", "seq.conf.k2", "bulk", "peer.snap.u.k2"],
        then: &["atomic1.fig8", "net1.", "peer.stream.", "seq.conf.k3", "hold1.", "drop1.", "crash1.", "pre3.b.k2", "prem.k2", "seq.mem.k3", "seq.five.k3", "boot.fast.k3"],
    },
    Prop {
        id: "P09",
        kinds: &["config-used", "config-step", "config-overlap", "snapshot-config", "member-lost", "non-member-leader", "bootstrap", "commit-unsafe", "election-majority", "liveness@mem", "liveness@add", "liveness@rm", "liveness@boot", "liveness@prem", "liveness@conf", "stepdown"],
        first: &["smoke", "big.k2", "big.k3", "drop1.rmcut", "hold1.rmcut", "net1.conf2", "boot.fast.k2", "boot.slow.k2", "boot.crash", "seq.mem.k2", "seq.mem2.k2", "seq.conf.k2", "seq.conf.k3", "seq.confsnap.k2", "hold1.conf", "drop1.conf", "crash1.conf", "prem.k1", "hold1.add", "hold1.rm", "crash1.add", "crash1.rm", "drop1.add", "drop1.rm", "lead.rm"],
        then: &["lock1.conf", "atomic1.addtn", "lock1.add", "lock1.rm", "seq.mem.k3", "seq.mem2.k3", "seq.confsnap.k3", "boot.fast.k3", "boot.slow.k3", "prem.k2", "hold1.", "crash1.", "drop1.", "seq.mem2.k4"],
    },
    Prop {
        id: "P10",
        kinds: &["snapshot", "garbage", "snapshot-config", "compaction", "rollback", "state-machine@snap", "ack-lost@snap", "ack-pos@snap", "liveness@snap", "liveness@add", "state-machine@add", "log-match@snap", "bootstrap@snap", "stream-model@peer.snap", "vote-log@peer.snap", "commit-model@peer.snap", "liveness@bulk", "state-machine@bulk"],
        first: &["smoke", "big.k2", "big.k3", "long1.snap", "net1.snap", "hold1.snap", "crash1.snap", "drop1.snap", "crash1.restartsnap", "hold1.restartsnap", "seq.snap.k2", "seq.snapslow.k2", "seq.one.k3", "lead.rm", "hold1.add", "seq.confsnap.k2", "seq.confsnap.k3", "bulk", "peer.snap.n.k2", "peer.snap.s.k2", "peer.snap.t.k2", "peer.snap.u.k2", "fail1.snap"],
        then: &["seq.snap.k3", "seq.snapslow.k3", "peer.snap.n.k3", "peer.snap.s.k3", "peer.snap.t.k3", "peer.snap.u.k3", "crash2.snap", "drop2.snap", "seq.one.k5", "hold1.", "crash1.", "drop1."],
    },
    Prop {
        id: "P11",
        kinds: &["restart", "state-machine", "ack-lost", "ack-pos", "term-monotonic", "vote-once", "liveness@crash", "liveness@restart", "liveness@one", "liveness@two", "rollback", "member-lost", "bootstrap", "snapshot", "snapshot-config"],
        first: &["smoke", "big.k2", "big.k3", "crash1.fig8", "crash1.cutsnap", "crash1.write", "crash1.restart", "crash1.elect2", "crash1.snap", "crash1.add", "crash1.rm", "seq.crash.k2", "seq.one.k3", "seq.two.k3", "shard.crash.k2", "boot.crash", "hold1.restart", "seq.disk.k2", "fail1.restart", "bulk"],
        then: &["crash1.", "seq.crash.k3", "seq.one.k5", "seq.two.k4", "shard.crash.k3", "crash2.write", "crash2.restart", "crash2.snap", "seq.mem2.k3"],
    },
    Prop {
        id: "P12",
        kinds: &["disrupt", "prevote", "restless"],
        first: &["smoke", "big.k2", "big.k3", "net1.prevote", "seq.vote.k3", "hold1.prevote", "drop1.prevote", "crash1.prevote", "seq.oneway.k2", "seq.part.k2", "hold1.elect2", "hold1.tn", "drop1.elect2", "peer.vote.k2", "peer.vote.k3", "pre3.a.k1", "hold1.rm", "hold1.add", "lead.rm", "seq.mem.k2"],
        then: &["net1.", "seq.oneway.k3", "hold2.prevote", "drop2.prevote", "seq.five.k3", "hold1.", "drop1.", "crash1.", "seq.part.k3"],
    },
    Prop {
        id: "P13",
        kinds: &["liveness", "livelock", "hang", "unserved", "unanswered", "restless"],
        first: &["smoke", "big.k2", "big.k3", "long1.snapbusy", "crash1.fig8", "net1.oldleader", "seq.part.k2", "seq.crash.k2", "seq.oneway.k2", "seq.five.k2", "seq.two.k2", "seq.mem.k2", "pre3.a.k1", "pre3.e.k1", "prem.k1", "drop1.elect2", "drop1.tn", "drop1.flap", "drop1.cut", "hold1.elect2", "hold1.tn", "crash1.elect2", "crash1.tn", "boot.slow.k2", "shard.detach.k2", "burst.a.k2", "burst.b.k2", "burst.c.k3", "burst.d.k3", "bulk", "seq.conf.k2", "seq.disk.k2", "fail1.write", "fail1.elect2", "fail1.tn"],
        then: &["drop1.", "crash1.", "hold1.", "fail1.", "burst.", "seq.conf.k3", "seq.part.k3", "seq.crash.k3", "seq.snapslow.k3", "seq.oneway.k3", "pre5", "seq.mem2.k3"],
    },
    Prop {
        id: "P14",
        kinds: &["response@shard", "shard-beat", "zombie", "garbled@shard", "heartbeat-sender", "liveness@shard", "stale-read@shard", "state-machine@shard", "commit-majority@shard", "two-leaders@shard", "ack-lost@shard", "vote-once@shard", "log-match@shard"],
        first: &["smoke", "peer.beat.k1", "peer.beat.k2", "shard.detach.k2", "shard.mix.k3", "shard.detach.k3", "shard.crash.k3", "odd.k2", "hold1.flap"],
        then: &["shard."],
    },
    Prop {
        id: "P17",
        kinds: &["transfer", "stepdown", "stepdown-early"],
        first: &["smoke", "big.k2", "big.k3", "drop1.rmcut", "net1.tn", "lead.seq.k3", "lead.rm", "hold1.rmleader", "drop1.rmleader", "crash1.rmleader", "seq.mem.k2", "seq.mem2.k2"],
        then: &["atomic1.tn", "net1.", "lead.seq.k4", "hold2.rmleader", "seq.mem.k3", "seq.mem2.k3"],
    },
    Prop {
        id: "P18",
        kinds: &["response", "garbled", "ack-pos", "write-order", "liveness@odd", "liveness@smoke", "unserved", "unanswered"],
        first: &["smoke", "big.k2", "big.k3", "net1.cutsnap", "net1.write", "odd.k3", "burst.a.k3", "burst.b.k3", "burst.c.k3", "burst.d.k3", "seq.fast.k3", "seq.part.k2", "seq.one.k3", "shard.mix.k2", "hold1.write", "hold1.elect2", "drop1.elect2", "crash1.elect2", "drop1.write", "hold1.tn"],
        then: &["hold1.cutsnap", "drop1.cutsnap", "net1.", "hold1.", "drop1.", "crash1.", "seq.part.k3", "seq.fast.k4", "odd.k4", "shard.mix.k4"],
    },
];

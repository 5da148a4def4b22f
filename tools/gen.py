#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "sorock/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech], "observe_at": [observe], "hook_needed": None}})

SCHED = "every interleaving of tasks at storage, application and network operations, every loss or delay of a message and every crash point within the bound on deviations, over the histories of the scenarios"
WHY = "The tests run one timing of a healthy cluster on real time; a violation needs a particular order of messages, timers and storage operations, or a fault at a particular point."

prop("P01", "At most one leader per term in a shard",
     "In each shard at most one node acts as leader of a term: it wins with the votes of a majority of the members it knows, each member votes for at most one candidate of a term, and a node that knows it was removed does not lead on. Nobody makes log entries or sends heartbeats in a term it did not win.",
     ["schedules", "crash_points", "fault_sequences", "configurations"], SCHED + "; logs, members and the order of vote requests vary as well",
     WHY, ["process/voter/election.rs", "process/voter/heartbeat.rs", "process/voter/mod.rs", "process/command_log/producer.rs"],
     [("request_vote / receive_vote_request", "process/voter/election.rs"), ("append in the led term", "process/command_log/producer.rs")],
     "votes, heartbeats and streams on the network; entries inserted into the log stores; ballots saved")
prop("P02", "Terms never go back and a vote is durable before it is told",
     "The term a node has on disk never decreases. Before a node grants a vote or asks for votes its ballot is on disk, and within a term the vote never changes to another candidate, also after a restart.",
     ["schedules", "crash_points", "histories"], SCHED + "; every sequence of vote requests, heartbeats and restarts against a node up to the bound",
     WHY, ["process/voter/election.rs", "process/voter/heartbeat.rs", "process/mod.rs"],
     [("ballot is saved before the answer", "process/voter/election.rs"), ("adoption of newer terms", "process/voter/heartbeat.rs")],
     "ballot store and vote requests / answers on the network")
prop("P03", "Logs that share an entry share everything before it",
     "If two logs have an entry of the same term at the same index, then the entry and all entries before it are the same. A follower takes an entry over only behind the entry it follows in the leader's log, replaces what conflicts, keeps what is the same, ignores deposed leaders, and claims only what it has.",
     ["schedules", "crash_points", "inputs", "histories"], SCHED + "; every sequence of replication streams of two leaders (offsets, lengths, gaps, conflicts) and restarts up to the bound",
     WHY, ["process/command_log/producer.rs", "process/command_log/mod.rs", "process/peer_svc/replication.rs", "raft_service/stream.rs"],
     [("try_insert", "process/command_log/producer.rs"), ("insert_entry / truncation", "process/command_log/mod.rs"), ("advance_once", "process/peer_svc/replication.rs")],
     "log stores of all nodes after every insertion; answers to streams")
prop("P04", "An acknowledged write is never lost",
     "Once a write was acknowledged to a client, every later leader has it in its log or snapshot, it is never overwritten, and it is in the state of every replica that goes on, at the position the answer told. This holds whatever minority crashes, restarts or is cut off afterwards.",
     ["schedules", "crash_points", "fault_sequences", "histories"], SCHED,
     WHY, ["process/command_log/consumer.rs", "process/command_log/producer.rs", "process/peer_svc/mod.rs", "process/voter/election.rs"],
     [("commit index", "process/peer_svc/mod.rs"), ("completion is answered after application", "process/command_log/consumer.rs")],
     "answers to clients, logs and final states after all faults end")
prop("P05", "All replicas apply the same commands in the same order",
     "For every shard and index all replicas apply the same command, each in the order of the log, without gaps and never back, exactly as the client sent it. Equal applied indices mean equal states.",
     ["schedules", "crash_points", "fault_sequences", "histories"], SCHED,
     WHY, ["process/command_log/consumer.rs", "process/command_log/mod.rs", "process/thread/advance_user.rs"],
     [("advance_user_process", "process/command_log/consumer.rs"), ("follower commit", "process/voter/heartbeat.rs")],
     "calls of the application: process_write and install_snapshot with index, content and resulting state")
prop("P06", "A request id is executed at most once",
     "A write that a client sends again with the same request id, to any node and after any fault, within the memory of the deduplication is executed at most once on every replica. This holds whether the first attempt was acknowledged, pending, or its answer lost.",
     ["schedules", "crash_points", "histories"], SCHED + "; retries at every point of sequences of writes, elections and restarts",
     WHY, ["process/command_log/response_cache.rs", "process/command_log/consumer.rs"],
     [("response cache", "process/command_log/response_cache.rs"), ("execution of requests", "process/command_log/consumer.rs")],
     "calls of process_write")
prop("P07", "Reads see every write acknowledged before they began",
     "A read sees all writes acknowledged before it began, and nothing that is undone later; successive reads never go back. The order of writes that do not overlap is kept.",
     ["schedules", "crash_points", "histories"], SCHED,
     WHY, ["process/query_queue.rs", "process/raft_process/queue.rs", "process/thread/query_execution.rs"],
     [("query queue / read index", "process/query_queue.rs"), ("process_read", "process/raft_process/queue.rs")],
     "invocations and answers of clients' reads and writes")
prop("P08", "Only what a majority holds in the leader's term is committed",
     "Nothing is announced, answered or applied as committed before the entry, or a later one of the leader's own term, is in the logs of a majority of the configuration in force. A follower treats as committed only entries known to be the leader's. Whoever could win an election has every committed entry.",
     ["schedules", "crash_points", "inputs", "configurations"], SCHED + "; every answer of followers to streams, and every combination of preset logs",
     WHY, ["process/peer_svc/mod.rs", "process/voter/heartbeat.rs", "process/command_log/membership.rs", "process/voter/election.rs"],
     [("find_new_commit_index", "process/peer_svc/mod.rs"), ("receive_heartbeat", "process/voter/heartbeat.rs")],
     "commit indices in heartbeats, calls of the application, logs of all members")
prop("P09", "Membership changes are single steps that never split the cluster",
     "A configuration differs from the one before by one member, is begun only after the one before and an entry of the leader's own term are committed, and takes effect on a member when it is in its log, and only there. An acknowledged addition or removal stays in force, forming a cluster gives one cluster, and the shard keeps serving after it.",
     ["schedules", "crash_points", "histories", "configurations"], SCHED + "; sequences of additions and removals with elections, partitions and crashes",
     WHY, ["process/command_log/membership.rs", "process/raft_process/cluster.rs", "process/raft_process/queue.rs"],
     [("set_membership", "process/command_log/membership.rs"), ("add_server / remove_server", "process/raft_process/cluster.rs"), ("process_kern_request", "process/raft_process/queue.rs")],
     "configurations in the log stores, answers to add_server / remove_server, membership listing")
prop("P10", "Snapshots replace a prefix of the log without loss",
     "A snapshot stands for exactly the commands up to its index: installing it gives the state of a replica that applied them one by one, the log is compacted only up to a snapshot that is applied and kept, and a snapshot named by a log exists. Replicas that fell behind a compaction, and new ones, catch up by snapshot. What a snapshot replaces, entries and older snapshots, is eventually removed.",
     ["schedules", "crash_points", "histories"], SCHED + "; sequences of snapshots, writes, partitions, crashes and elections",
     WHY, ["process/command_log/consumer.rs", "process/command_log/mod.rs", "process/peer_svc/replication.rs", "process/thread/log_compaction.rs", "process/thread/snapshot_deleter.rs"],
     [("open_snapshot / insert_snapshot", "process/command_log/mod.rs"), ("compaction and deletion", "process/command_log/consumer.rs")],
     "snapshot store, log stores, states of applications")
prop("P11", "A node resumes after a crash with all it promised",
     "A node that stops at any point and restarts from its disks resumes: its log, ballot, members and snapshot are what they were, its application reaches the state of the others, nothing it promised is forgotten, and the shard serves again.",
     ["crash_points", "schedules", "histories"], "every storage operation of every node as crash point (up to two crashes) over the histories of the scenarios, and sequences of crashes and restarts",
     WHY, ["process/command_log/mod.rs", "process/command_log/consumer.rs", "process/raft_process/mod.rs", "process/voter/mod.rs"],
     [("restore_state", "process/command_log/mod.rs"), ("RaftProcess::new", "process/raft_process/mod.rs")],
     "state after restart, service after recovery")
prop("P12", "A node that is out of touch does not disturb a working leader",
     "While members hear regularly from a leader they do not consent to elections by others, unless the leader handed over or was told to. A node asks for real votes only after a majority consented in a pre-vote, so a node that cannot win raises no terms.",
     ["schedules", "fault_sequences", "histories"], SCHED + "; one-way and two-way partitions",
     WHY, ["process/voter/election.rs", "process/voter/failure_detector.rs"],
     [("pre-vote", "process/voter/election.rs"), ("leader_failed", "process/voter/failure_detector.rs")],
     "vote requests and answers on the network, heartbeats seen")
prop("P13", "Service returns once faults end",
     "When a majority of the members is up and connected, a leader is elected, all replicas reach the same state, and every member serves writes and reads, within bounded time, whatever happened before. Nothing spins or blocks forever. A cluster that works and is left alone stays as it is: leaders keep leading, terms and logs do not move, and the nodes do little.",
     ["schedules", "fault_sequences", "crash_points", "histories"], SCHED + "; after each of them all faults end and 40 s of virtual time are given",
     WHY, ["process/voter/election.rs", "process/voter/stepdown.rs", "process/thread/replication.rs", "communicator/mod.rs"],
     [("election timeout", "process/thread/election.rs"), ("replication", "process/thread/replication.rs")],
     "answers to clients, leaders and states after recovery")
prop("P14", "Shards of a node are independent",
     "Requests, votes, heartbeats and streams of one shard affect only that shard, also when nodes carry many of them over shared connections. A detached shard stops acting, can be attached again, and its failure leaves the others at work.",
     ["schedules", "fault_sequences", "histories", "configurations"], "every sequence of writes, reads, elections, detach / attach, partitions and crashes over two shards up to the bound",
     WHY, ["node.rs", "communicator/heartbeat_multiplex.rs", "communicator/mod.rs", "raft_service/mod.rs"],
     [("heartbeat multiplexer", "communicator/heartbeat_multiplex.rs"), ("attach / detach", "node.rs")],
     "answers and states per shard, heartbeats on the network")
prop("P15", "The redb backend is an ordered map per shard",
     "For every sequence of operations the redb log store behaves as an ordered map from index to entry and the ballot store as one cell, per shard, for every index and content, also when insertions are batched, when handles are obtained again and when the database is reopened. An operation that returned is visible to every later one, one that failed is reported as failed.",
     ["inputs", "histories", "schedules"], "all reachable states of two shards over small domains of indices and contents, all operations in each of them; all sequences of operations up to the bound on one live instance; all partitions of insertions into batches",
     "The unit test inserts two entries into one shard; batching by the reaper thread depends on timing that tests do not control.",
     ["backends/redb/mod.rs", "backends/redb/log.rs", "backends/redb/ballot.rs"],
     [("Reaper", "backends/redb/log.rs"), ("value::ser / desr", "backends/redb/log.rs")],
     "results of the RaftLogStore and RaftBallotStore interfaces")
prop("P16", "The redb backend keeps what it acknowledged across any crash",
     "After a crash at any point, with any subset of unsynced writes lost or torn, the reopened store holds every operation that had returned, and of those in flight a prefix, each entirely or not at all. After a failing write or sync no operation is reported as done that is not kept.",
     ["crash_points", "fault_sequences", "histories"], "every prefix of the recorded device operations of every history in the bound, subsets and tearings of the unsynced writes; every single device operation failing",
     "The tests use an in-memory device that never crashes.",
     ["backends/redb/mod.rs", "backends/redb/log.rs", "backends/redb/ballot.rs"],
     [("commit before notification", "backends/redb/log.rs"), ("save_ballot", "backends/redb/ballot.rs")],
     "device operations of redb and contents after reopening")
prop("P17", "Leadership is handed over on request and by a removed leader",
     "A member that is up to date and told to take over becomes leader and serves. A leader that is removed from the cluster stops leading once its removal is committed, not before, and the rest goes on under another leader without waiting for a failure to be detected.",
     ["schedules", "histories", "configurations"], "every sequence of hand-overs, writes and snapshots up to the bound; removal of every leader in clusters of two to four nodes through every member; with single deviations in timing, losses and crashes",
     WHY, ["process/voter/stepdown.rs", "process/voter/election.rs", "process/raft_process/mod.rs", "process/thread/stepdown.rs"],
     [("try_stepdown / TimeoutNow", "process/voter/stepdown.rs")],
     "leader after a hand-over, service after removal")
prop("P18", "Each client gets the answer to its own request, through any node",
     "A request sent to any member is answered with the outcome of that very request, once it took effect, with the bytes the application returned, or with an error; once a majority of the members works, none is left without an answer. Requests for shards that do not exist are refused and disturb nothing.",
     ["schedules", "inputs", "histories"], SCHED + "; every sequence of ordinary and odd requests up to the bound",
     WHY, ["raft_service/mod.rs", "process/raft_process/responder.rs", "process/raft_process/queue.rs", "process/command_log/consumer.rs"],
     [("completions", "process/raft_process/responder.rs"), ("redirection to the leader", "process/raft_process/queue.rs")],
     "answers to clients")
assert all(len(p["title"]) <= 80 for p in P)
with open(root + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

STORE = {"P15", "P16"}
tech = {
    "mc": "stateless model checking of the real code: exhaustive deviation-bounded enumeration of schedules, losses, crash points and operation sequences under a controlled scheduler, network, clock and disk",
    "P15": "explicit-state search over all reachable store states and exhaustive operation sequences and batch partitions on the real backend against a map",
    "P16": "exhaustive enumeration of crash points, lost and torn unsynced writes and device failures of the real backend on a recording device",
}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the public interfaces (log store, ballot store, application, gRPC) and replacements of tokio's tasks and timers, tonic's transport and moka's clock, chosen by [patch.crates-io] in /verif/mc/Cargo.toml, are enough."}
for p in P:
    if p["id"] in STORE and not os.path.exists(root + "/store/Cargo.toml"):
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"],
                        "technique": tech.get(p["id"], tech["mc"]), "level": "model_checking",
                        "level_note": "exhaustive within the bounds named in DESIGN.md and counted in the evidence; the deepest scenarios are cut by the time limit, which the evidence states"})
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=2)
open(root + "/MANIFEST.json", "a").write("\n")

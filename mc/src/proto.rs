//! Mirror of sorock.proto, used to read what travels on the simulated network
//! and to speak for scripted peers.
use prost::{Message, Oneof};
use std::collections::HashMap;

#[derive(Clone, PartialEq, Message)]
pub struct Clock {
    #[prost(uint64, tag = "1")]
    pub term: u64,
    #[prost(uint64, tag = "2")]
    pub index: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct WriteRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(bytes = "bytes", tag = "2")]
    pub message: bytes::Bytes,
    #[prost(string, tag = "3")]
    pub request_id: String,
}
#[derive(Clone, PartialEq, Message)]
pub struct ReadRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(bytes = "bytes", tag = "2")]
    pub message: bytes::Bytes,
}
#[derive(Clone, PartialEq, Message)]
pub struct Response {
    #[prost(bytes = "bytes", tag = "1")]
    pub message: bytes::Bytes,
}
#[derive(Clone, PartialEq, Message)]
pub struct KernRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(bytes = "bytes", tag = "2")]
    pub message: bytes::Bytes,
}
#[derive(Clone, PartialEq, Message)]
pub struct StreamHeader {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(string, tag = "2")]
    pub sender_id: String,
    #[prost(message, optional, tag = "3")]
    pub prev_clock: Option<Clock>,
    #[prost(uint64, tag = "4")]
    pub leader_term: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct StreamEntry {
    #[prost(message, optional, tag = "1")]
    pub clock: Option<Clock>,
    #[prost(bytes = "bytes", tag = "2")]
    pub command: bytes::Bytes,
}
#[derive(Clone, PartialEq, Message)]
pub struct StreamChunk {
    #[prost(oneof = "Elem", tags = "1, 2")]
    pub elem: Option<Elem>,
}
#[derive(Clone, PartialEq, Oneof)]
pub enum Elem {
    #[prost(message, tag = "1")]
    Header(StreamHeader),
    #[prost(message, tag = "2")]
    Entry(StreamEntry),
}
#[derive(Clone, PartialEq, Message)]
pub struct StreamResponse {
    #[prost(uint64, tag = "1")]
    pub n_inserted: u64,
    #[prost(uint64, tag = "2")]
    pub log_last_index: u64,
    #[prost(uint64, tag = "3")]
    pub term: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct GetSnapshotRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(uint64, tag = "2")]
    pub index: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct SnapshotChunk {
    #[prost(bytes = "bytes", tag = "1")]
    pub data: bytes::Bytes,
}
#[derive(Clone, PartialEq, Message)]
pub struct VoteRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(uint64, tag = "2")]
    pub vote_term: u64,
    #[prost(string, tag = "3")]
    pub candidate_id: String,
    #[prost(message, optional, tag = "4")]
    pub candidate_clock: Option<Clock>,
    #[prost(bool, tag = "5")]
    pub force_vote: bool,
    #[prost(bool, tag = "6")]
    pub pre_vote: bool,
}
#[derive(Clone, PartialEq, Message)]
pub struct VoteResponse {
    #[prost(bool, tag = "1")]
    pub vote_granted: bool,
}
#[derive(Clone, PartialEq, Message)]
pub struct LeaderCommitState {
    #[prost(uint64, tag = "1")]
    pub leader_term: u64,
    #[prost(uint64, tag = "2")]
    pub leader_commit_index: u64,
}
#[derive(Clone, PartialEq, Message)]
pub struct Heartbeat {
    #[prost(string, tag = "1")]
    pub leader_id: String,
    #[prost(map = "uint32, message", tag = "2")]
    pub states: HashMap<u32, LeaderCommitState>,
}
#[derive(Clone, PartialEq, Message)]
pub struct ServerRequest {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
    #[prost(string, tag = "2")]
    pub server_id: String,
}
#[derive(Clone, PartialEq, Message)]
pub struct TimeoutNow {
    #[prost(uint32, tag = "1")]
    pub shard_id: u32,
}
#[derive(Clone, PartialEq, Message)]
pub struct Empty {}

pub fn frame<M: Message>(m: &M) -> bytes::Bytes {
    let b = m.encode_to_vec();
    let mut out = Vec::with_capacity(b.len() + 5);
    out.push(0);
    out.extend_from_slice(&(b.len() as u32).to_be_bytes());
    out.extend_from_slice(&b);
    out.into()
}
/// Every message in a data frame.
pub fn unframe<M: Message + Default>(mut f: &[u8]) -> Vec<M> {
    let mut out = vec![];
    while f.len() >= 5 {
        let n = u32::from_be_bytes(f[1..5].try_into().unwrap()) as usize;
        if f.len() < 5 + n {
            break;
        }
        if let Ok(m) = M::decode(&f[5..5 + n]) {
            out.push(m);
        }
        f = &f[5 + n..];
    }
    out
}

/// Mirror of the log commands.
#[derive(serde::Serialize, serde::Deserialize, Clone, PartialEq, Debug)]
pub enum Command {
    Barrier(u64),
    ClusterConfiguration { membership: std::collections::BTreeSet<String> },
    Snapshot { membership: std::collections::BTreeSet<String> },
    ExecuteRequest {
        #[serde(with = "serde_bytes")]
        message: Vec<u8>,
        request_id: String,
    },
    CompleteRequest { request_id: String },
}
impl Command {
    pub fn parse(b: &[u8]) -> Option<Command> {
        bincode::deserialize(b).ok()
    }
    pub fn bytes(&self) -> bytes::Bytes {
        bincode::serialize(self).unwrap().into()
    }
}

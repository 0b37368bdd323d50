//! Stand-in for openraft 0.9: the data types and storage traits the repository
//! implements, and a small single-voter Raft (leader of itself) with follower
//! entry points, so that the repository's storage can be driven as openraft drives it.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug, Display};
use std::future::Future;
use std::hash::Hash;
use std::marker::PhantomData;
use std::ops::RangeBounds;
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;

use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

pub trait OptionalSend: Send {}
impl<T: Send + ?Sized> OptionalSend for T {}

pub trait NodeId: Sized + Send + Sync + Eq + PartialEq + Ord + PartialOrd + Debug + Display + Hash + Copy + Clone + Default + Serialize + DeserializeOwned + 'static {}
impl<T> NodeId for T where T: Sized + Send + Sync + Eq + PartialEq + Ord + PartialOrd + Debug + Display + Hash + Copy + Clone + Default + Serialize + DeserializeOwned + 'static {}
pub trait Node: Sized + Send + Sync + Eq + PartialEq + Debug + Clone + Default + Serialize + DeserializeOwned + 'static {}
impl<T> Node for T where T: Sized + Send + Sync + Eq + PartialEq + Debug + Clone + Default + Serialize + DeserializeOwned + 'static {}
pub trait AppData: Clone + Debug + Send + Sync + Serialize + DeserializeOwned + 'static {}
impl<T: Clone + Debug + Send + Sync + Serialize + DeserializeOwned + 'static> AppData for T {}

pub trait RaftTypeConfig: Sized + Send + Sync + Debug + Clone + Copy + Default + Eq + PartialEq + Ord + PartialOrd + 'static {
    type D: AppData;
    type R: AppData + Default;
    type NodeId: NodeId;
    type Node: Node;
    type Entry;
    type SnapshotData: Send + Sync + Unpin + 'static;
    type AsyncRuntime;
}
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
pub struct TokioRuntime;

#[macro_export]
macro_rules! declare_raft_types {
    ($(#[$m:meta])* $v:vis $id:ident : $($k:ident = $t:ty),* $(,)?) => {
        $(#[$m])*
        #[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd)]
        #[derive(serde::Deserialize, serde::Serialize)]
        $v struct $id {}
        impl $crate::RaftTypeConfig for $id { $(type $k = $t;)* }
    };
}

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct LeaderId<NID: NodeId> { pub term: u64, pub node_id: NID }
pub type CommittedLeaderId<NID> = LeaderId<NID>;
impl<NID: NodeId> LeaderId<NID> { pub fn new(term: u64, node_id: NID) -> Self { LeaderId { term, node_id } } }
impl<NID: NodeId> Display for LeaderId<NID> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "T{}-N{}", self.term, self.node_id) } }

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct LogId<NID: NodeId> { pub leader_id: CommittedLeaderId<NID>, pub index: u64 }
impl<NID: NodeId> LogId<NID> { pub fn new(leader_id: CommittedLeaderId<NID>, index: u64) -> Self { LogId { leader_id, index } } }
impl<NID: NodeId> Display for LogId<NID> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}-{}", self.leader_id, self.index) } }

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Vote<NID: NodeId> { pub leader_id: LeaderId<NID>, pub committed: bool }
impl<NID: NodeId> Vote<NID> {
    pub fn new(term: u64, node_id: NID) -> Self { Vote { leader_id: LeaderId::new(term, node_id), committed: false } }
    pub fn new_committed(term: u64, node_id: NID) -> Self { Vote { leader_id: LeaderId::new(term, node_id), committed: true } }
}

pub trait IntoNodes<NID: NodeId, N: Node> { fn into_nodes(self) -> BTreeMap<NID, N>; }
impl<NID: NodeId, N: Node> IntoNodes<NID, N> for BTreeMap<NID, N> { fn into_nodes(self) -> BTreeMap<NID, N> { self } }
impl<NID: NodeId, N: Node> IntoNodes<NID, N> for () { fn into_nodes(self) -> BTreeMap<NID, N> { BTreeMap::new() } }
impl<NID: NodeId, N: Node> IntoNodes<NID, N> for BTreeSet<NID> { fn into_nodes(self) -> BTreeMap<NID, N> { self.into_iter().map(|i| (i, N::default())).collect() } }
impl<NID: NodeId, N: Node> IntoNodes<NID, N> for Option<BTreeSet<NID>> { fn into_nodes(self) -> BTreeMap<NID, N> { self.unwrap_or_default().into_nodes() } }

#[derive(Debug, Default, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Membership<NID: NodeId, N: Node> { configs: Vec<BTreeSet<NID>>, nodes: BTreeMap<NID, N> }
impl<NID: NodeId, N: Node> Membership<NID, N> {
    pub fn new<T: IntoNodes<NID, N>>(configs: Vec<BTreeSet<NID>>, nodes: T) -> Self {
        let mut nodes = nodes.into_nodes();
        for c in &configs { for n in c { nodes.entry(*n).or_default(); } }
        Membership { configs, nodes }
    }
    pub fn get_joint_config(&self) -> &Vec<BTreeSet<NID>> { &self.configs }
    pub fn nodes(&self) -> impl Iterator<Item = (&NID, &N)> { self.nodes.iter() }
    pub fn get_node(&self, id: &NID) -> Option<&N> { self.nodes.get(id) }
    pub fn voter_ids(&self) -> impl Iterator<Item = NID> { self.configs.iter().flatten().copied().collect::<BTreeSet<_>>().into_iter() }
    pub fn learner_ids(&self) -> impl Iterator<Item = NID> { let v: BTreeSet<NID> = self.voter_ids().collect(); self.nodes.keys().copied().filter(|n| !v.contains(n)).collect::<Vec<_>>().into_iter() }
}

#[derive(Debug, Default, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct StoredMembership<NID: NodeId, N: Node> { log_id: Option<LogId<NID>>, membership: Membership<NID, N> }
impl<NID: NodeId, N: Node> StoredMembership<NID, N> {
    pub fn new(log_id: Option<LogId<NID>>, membership: Membership<NID, N>) -> Self { StoredMembership { log_id, membership } }
    pub fn log_id(&self) -> &Option<LogId<NID>> { &self.log_id }
    pub fn membership(&self) -> &Membership<NID, N> { &self.membership }
    pub fn voter_ids(&self) -> impl Iterator<Item = NID> { self.membership.voter_ids() }
    pub fn nodes(&self) -> impl Iterator<Item = (&NID, &N)> { self.membership.nodes() }
}

#[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum EntryPayload<C: RaftTypeConfig> { Blank, Normal(C::D), Membership(Membership<C::NodeId, C::Node>) }
impl<C: RaftTypeConfig> Debug for EntryPayload<C> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { EntryPayload::Blank => write!(f, "blank"), EntryPayload::Normal(_) => write!(f, "normal"), EntryPayload::Membership(m) => write!(f, "membership: {m:?}") } } }
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Entry<C: RaftTypeConfig> { pub log_id: LogId<C::NodeId>, pub payload: EntryPayload<C> }
impl<C: RaftTypeConfig> Debug for Entry<C> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}:{:?}", self.log_id, self.payload) } }
impl<C: RaftTypeConfig> Default for Entry<C> { fn default() -> Self { Entry { log_id: LogId::default(), payload: EntryPayload::Blank } } }
impl<C: RaftTypeConfig> PartialEq for Entry<C> where C::D: PartialEq {
    fn eq(&self, o: &Self) -> bool {
        self.log_id == o.log_id && match (&self.payload, &o.payload) {
            (EntryPayload::Blank, EntryPayload::Blank) => true,
            (EntryPayload::Normal(a), EntryPayload::Normal(b)) => a == b,
            (EntryPayload::Membership(a), EntryPayload::Membership(b)) => a == b,
            _ => false,
        }
    }
}

pub trait MessageSummary<M> { fn summary(&self) -> String; }
impl<T: Debug> MessageSummary<T> for T { fn summary(&self) -> String { format!("{self:?}") } }

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum SnapshotPolicy { LogsSinceLast(u64), Never }
#[derive(Debug, Clone)]
pub struct Config {
    pub cluster_name: String, pub election_timeout_min: u64, pub election_timeout_max: u64, pub heartbeat_interval: u64,
    pub install_snapshot_timeout: u64, pub replication_lag_threshold: u64, pub snapshot_policy: SnapshotPolicy,
    pub max_in_snapshot_log_to_keep: u64, pub enable_tick: bool, pub enable_heartbeat: bool, pub enable_elect: bool,
}
impl Default for Config {
    fn default() -> Self {
        Config { cluster_name: "foo".into(), election_timeout_min: 150, election_timeout_max: 300, heartbeat_interval: 50, install_snapshot_timeout: 200,
            replication_lag_threshold: 5000, snapshot_policy: SnapshotPolicy::LogsSinceLast(5000), max_in_snapshot_log_to_keep: 1000,
            enable_tick: true, enable_heartbeat: true, enable_elect: true }
    }
}
#[derive(Debug)]
pub struct ConfigError(String);
impl Config {
    pub fn validate(self) -> Result<Config, ConfigError> {
        if self.election_timeout_min >= self.election_timeout_max { return Err(ConfigError("election timeout".into())); }
        if self.election_timeout_min <= self.heartbeat_interval { return Err(ConfigError("heartbeat".into())); }
        Ok(self)
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Serialize, Deserialize)]
pub enum ServerState { #[default] Learner, Follower, Candidate, Leader, Shutdown }
impl ServerState { pub fn is_leader(&self) -> bool { *self == ServerState::Leader } }

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct SnapshotMeta<NID: NodeId, N: Node> { pub last_log_id: Option<LogId<NID>>, pub last_membership: StoredMembership<NID, N>, pub snapshot_id: String }

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct RaftMetrics<NID: NodeId, N: Node> {
    pub id: NID, pub current_term: u64, pub vote: Vote<NID>, pub last_log_index: Option<u64>, pub last_applied: Option<LogId<NID>>,
    pub snapshot: Option<LogId<NID>>, pub purged: Option<LogId<NID>>, pub state: ServerState, pub current_leader: Option<NID>,
    pub membership_config: Arc<StoredMembership<NID, N>>, pub replication: Option<BTreeMap<NID, Option<LogId<NID>>>>,
}

pub mod errors_impl {}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct StorageIOError { pub subject: String, pub msg: String }
macro_rules! sio { ($($f:ident),*) => { impl StorageIOError { $(pub fn $f(e: impl Display) -> Self { StorageIOError { subject: stringify!($f).into(), msg: e.to_string() } })* } } }
sio!(read, write, read_logs, write_logs, read_vote, write_vote, read_state_machine, write_state_machine);
impl Display for StorageIOError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}: {}", self.subject, self.msg) } }
impl std::error::Error for StorageIOError {}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum StorageError<NID: NodeId> { IO { source: StorageIOError }, Defensive { _p: PhantomData<NID>, msg: String } }
impl<NID: NodeId> From<StorageIOError> for StorageError<NID> { fn from(source: StorageIOError) -> Self { StorageError::IO { source } } }
impl<NID: NodeId> Display for StorageError<NID> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { match self { StorageError::IO { source } => write!(f, "{source}"), StorageError::Defensive { msg, .. } => f.write_str(msg) } } }
impl<NID: NodeId> std::error::Error for StorageError<NID> {}

pub mod error {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub enum Infallible {}
    impl Display for Infallible { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
    impl std::error::Error for Infallible {}
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub struct ForwardToLeader<NID: NodeId, N: Node> { pub leader_id: Option<NID>, pub leader_node: Option<N> }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub enum Fatal<NID: NodeId> { StorageError(StorageError<NID>), Panicked, Stopped }
    impl<NID: NodeId> Display for Fatal<NID> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
    impl<NID: NodeId> std::error::Error for Fatal<NID> {}
    impl<NID: NodeId> From<StorageError<NID>> for Fatal<NID> { fn from(e: StorageError<NID>) -> Self { Fatal::StorageError(e) } }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound(serialize = "E: Serialize", deserialize = "E: for<'d> Deserialize<'d>"))]
    pub enum RaftError<NID: NodeId, E = Infallible> { APIError(E), Fatal(Fatal<NID>) }
    impl<NID: NodeId, E: Debug> Display for RaftError<NID, E> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
    impl<NID: NodeId, E: Debug> std::error::Error for RaftError<NID, E> {}
    impl<NID: NodeId, E> From<StorageError<NID>> for RaftError<NID, E> { fn from(e: StorageError<NID>) -> Self { RaftError::Fatal(e.into()) } }
    impl<NID: NodeId, N: Node> RaftError<NID, ClientWriteError<NID, N>> {
        pub fn forward_to_leader(&self) -> Option<&ForwardToLeader<NID, N>> { match self { RaftError::APIError(ClientWriteError::ForwardToLeader(f)) => Some(f), _ => None } }
    }
    impl<NID: NodeId, N: Node> RaftError<NID, CheckIsLeaderError<NID, N>> {
        pub fn forward_to_leader(&self) -> Option<&ForwardToLeader<NID, N>> { match self { RaftError::APIError(CheckIsLeaderError::ForwardToLeader(f)) => Some(f), _ => None } }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub enum ClientWriteError<NID: NodeId, N: Node> { ForwardToLeader(ForwardToLeader<NID, N>), ChangeMembershipError(String) }
    impl<NID: NodeId, N: Node> Display for ClientWriteError<NID, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub enum CheckIsLeaderError<NID: NodeId, N: Node> { ForwardToLeader(ForwardToLeader<NID, N>), QuorumNotEnough(String) }
    impl<NID: NodeId, N: Node> Display for CheckIsLeaderError<NID, N> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub struct NotAllowed<NID: NodeId> { pub last_log_id: Option<LogId<NID>>, pub vote: Vote<NID> }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub enum InitializeError<NID: NodeId, N: Node> { NotAllowed(NotAllowed<NID>), NotInMembers(String, PhantomData<N>) }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    pub struct InstallSnapshotError(pub String);
    impl Display for InstallSnapshotError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for InstallSnapshotError {}
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct NetworkError(String);
    impl NetworkError { pub fn new<E: std::error::Error + ?Sized>(e: &E) -> Self { NetworkError(e.to_string()) } }
    #[derive(Debug, Clone)]
    pub struct RemoteError<NID: NodeId, N: Node, T> { pub target: NID, pub target_node: Option<N>, pub source: T }
    impl<NID: NodeId, N: Node, T> RemoteError<NID, N, T> { pub fn new(target: NID, e: T) -> Self { RemoteError { target, target_node: None, source: e } } }
    #[derive(Debug, Clone)]
    pub enum RPCError<NID: NodeId, N: Node, E> { Timeout(String), Unreachable(String), Network(NetworkError), RemoteError(RemoteError<NID, N, E>) }
    #[derive(Debug, Clone)]
    pub enum WaitError { Timeout(Duration, String), ShuttingDown }
    impl Display for WaitError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
}
use error::*;

pub mod raft {
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub struct VoteRequest<NID: NodeId> { pub vote: Vote<NID>, pub last_log_id: Option<LogId<NID>> }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub struct VoteResponse<NID: NodeId> { pub vote: Vote<NID>, pub vote_granted: bool, pub last_log_id: Option<LogId<NID>> }
    #[derive(Clone, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub struct AppendEntriesRequest<C: RaftTypeConfig> { pub vote: Vote<C::NodeId>, pub prev_log_id: Option<LogId<C::NodeId>>, pub entries: Vec<Entry<C>>, pub leader_commit: Option<LogId<C::NodeId>> }
    impl<C: RaftTypeConfig> Debug for AppendEntriesRequest<C> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "prev {:?} entries {:?}", self.prev_log_id, self.entries) } }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub enum AppendEntriesResponse<NID: NodeId> { Success, PartialSuccess(Option<LogId<NID>>), Conflict, HigherVote(Vote<NID>) }
    #[derive(Clone, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub struct InstallSnapshotRequest<C: RaftTypeConfig> { pub vote: Vote<C::NodeId>, pub meta: SnapshotMeta<C::NodeId, C::Node>, pub offset: u64, pub data: Vec<u8>, pub done: bool }
    impl<C: RaftTypeConfig> Debug for InstallSnapshotRequest<C> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "meta {:?} off {} len {} done {}", self.meta, self.offset, self.data.len(), self.done) } }
    #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub struct InstallSnapshotResponse<NID: NodeId> { pub vote: Vote<NID> }
    #[derive(Clone, Serialize, Deserialize)]
    #[serde(bound = "")]
    pub struct ClientWriteResponse<C: RaftTypeConfig> { pub log_id: LogId<C::NodeId>, pub data: C::R, pub membership: Option<Membership<C::NodeId, C::Node>> }
    impl<C: RaftTypeConfig> Debug for ClientWriteResponse<C> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.log_id) } }
}
use raft::*;

pub mod network {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct RPCOption { ttl: Duration }
    impl RPCOption { pub fn new(ttl: Duration) -> Self { RPCOption { ttl } } pub fn hard_ttl(&self) -> Duration { self.ttl } }
    pub trait RaftNetwork<C: RaftTypeConfig>: Send + Sync + 'static {
        fn append_entries(&mut self, rpc: AppendEntriesRequest<C>, option: RPCOption) -> impl Future<Output = Result<AppendEntriesResponse<C::NodeId>, RPCError<C::NodeId, C::Node, RaftError<C::NodeId>>>> + Send;
        fn install_snapshot(&mut self, rpc: InstallSnapshotRequest<C>, option: RPCOption) -> impl Future<Output = Result<InstallSnapshotResponse<C::NodeId>, RPCError<C::NodeId, C::Node, RaftError<C::NodeId, InstallSnapshotError>>>> + Send;
        fn vote(&mut self, rpc: VoteRequest<C::NodeId>, option: RPCOption) -> impl Future<Output = Result<VoteResponse<C::NodeId>, RPCError<C::NodeId, C::Node, RaftError<C::NodeId>>>> + Send;
    }
    pub trait RaftNetworkFactory<C: RaftTypeConfig>: Send + Sync + 'static {
        type Network: RaftNetwork<C>;
        fn new_client(&mut self, target: C::NodeId, node: &C::Node) -> impl Future<Output = Self::Network> + Send;
    }
}

pub mod storage {
    use super::*;
    pub struct Snapshot<C: RaftTypeConfig> { pub meta: SnapshotMeta<C::NodeId, C::Node>, pub snapshot: Box<C::SnapshotData> }
    #[derive(Debug, Clone, Default, PartialEq, Eq)]
    pub struct LogState<C: RaftTypeConfig> { pub last_purged_log_id: Option<LogId<C::NodeId>>, pub last_log_id: Option<LogId<C::NodeId>> }
    pub trait RaftLogReader<C: RaftTypeConfig>: Send + Sync + 'static {
        fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + Send>(&mut self, range: RB) -> impl Future<Output = Result<Vec<Entry<C>>, StorageError<C::NodeId>>> + Send;
    }
    pub trait RaftSnapshotBuilder<C: RaftTypeConfig>: Send + Sync + 'static {
        fn build_snapshot(&mut self) -> impl Future<Output = Result<Snapshot<C>, StorageError<C::NodeId>>> + Send;
    }
    pub trait RaftStorage<C: RaftTypeConfig>: RaftLogReader<C> + Send + Sync + 'static {
        type LogReader: RaftLogReader<C>;
        type SnapshotBuilder: RaftSnapshotBuilder<C>;
        fn save_vote(&mut self, vote: &Vote<C::NodeId>) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send;
        fn read_vote(&mut self) -> impl Future<Output = Result<Option<Vote<C::NodeId>>, StorageError<C::NodeId>>> + Send;
        fn get_log_state(&mut self) -> impl Future<Output = Result<LogState<C>, StorageError<C::NodeId>>> + Send;
        fn get_log_reader(&mut self) -> impl Future<Output = Self::LogReader> + Send;
        fn append_to_log<I>(&mut self, entries: I) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send where I: IntoIterator<Item = Entry<C>> + Send;
        fn delete_conflict_logs_since(&mut self, log_id: LogId<C::NodeId>) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send;
        fn purge_logs_upto(&mut self, log_id: LogId<C::NodeId>) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send;
        fn last_applied_state(&mut self) -> impl Future<Output = Result<(Option<LogId<C::NodeId>>, StoredMembership<C::NodeId, C::Node>), StorageError<C::NodeId>>> + Send;
        fn apply_to_state_machine(&mut self, entries: &[Entry<C>]) -> impl Future<Output = Result<Vec<C::R>, StorageError<C::NodeId>>> + Send;
        fn get_snapshot_builder(&mut self) -> impl Future<Output = Self::SnapshotBuilder> + Send;
        fn begin_receiving_snapshot(&mut self) -> impl Future<Output = Result<Box<C::SnapshotData>, StorageError<C::NodeId>>> + Send;
        fn install_snapshot(&mut self, meta: &SnapshotMeta<C::NodeId, C::Node>, snapshot: Box<C::SnapshotData>) -> impl Future<Output = Result<(), StorageError<C::NodeId>>> + Send;
        fn get_current_snapshot(&mut self) -> impl Future<Output = Result<Option<Snapshot<C>>, StorageError<C::NodeId>>> + Send;
    }
    pub struct Adaptor<C, S> { pub(crate) s: S, p: PhantomData<fn() -> C> }
    impl<C: RaftTypeConfig, S: RaftStorage<C> + Clone> Adaptor<C, S> {
        pub fn new(s: S) -> (Self, Self) { (Adaptor { s: s.clone(), p: PhantomData }, Adaptor { s, p: PhantomData }) }
    }
}
pub use storage::{LogState, RaftLogReader, RaftSnapshotBuilder, RaftStorage, Snapshot};
pub use network::{RaftNetwork, RaftNetworkFactory};

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
type SResult<C, T> = Result<T, StorageError<<C as RaftTypeConfig>::NodeId>>;
trait Dyn<C: RaftTypeConfig>: Send + Sync {
    fn save_vote<'a>(&'a mut self, v: Vote<C::NodeId>) -> Fut<'a, SResult<C, ()>>;
    fn read_vote<'a>(&'a mut self) -> Fut<'a, SResult<C, Option<Vote<C::NodeId>>>>;
    fn log_state<'a>(&'a mut self) -> Fut<'a, SResult<C, LogState<C>>>;
    fn entries<'a>(&'a mut self, from: u64, to: u64) -> Fut<'a, SResult<C, Vec<Entry<C>>>>;
    fn append<'a>(&'a mut self, e: Vec<Entry<C>>) -> Fut<'a, SResult<C, ()>>;
    fn truncate<'a>(&'a mut self, l: LogId<C::NodeId>) -> Fut<'a, SResult<C, ()>>;
    fn purge<'a>(&'a mut self, l: LogId<C::NodeId>) -> Fut<'a, SResult<C, ()>>;
    fn applied<'a>(&'a mut self) -> Fut<'a, SResult<C, (Option<LogId<C::NodeId>>, StoredMembership<C::NodeId, C::Node>)>>;
    fn apply<'a>(&'a mut self, e: Vec<Entry<C>>) -> Fut<'a, SResult<C, Vec<C::R>>>;
    fn snapshot<'a>(&'a mut self) -> Fut<'a, SResult<C, SnapshotMeta<C::NodeId, C::Node>>>;
}
impl<C: RaftTypeConfig, S: RaftStorage<C>> Dyn<C> for storage::Adaptor<C, S> {
    fn save_vote<'a>(&'a mut self, v: Vote<C::NodeId>) -> Fut<'a, SResult<C, ()>> { Box::pin(async move { self.s.save_vote(&v).await }) }
    fn read_vote<'a>(&'a mut self) -> Fut<'a, SResult<C, Option<Vote<C::NodeId>>>> { Box::pin(self.s.read_vote()) }
    fn log_state<'a>(&'a mut self) -> Fut<'a, SResult<C, LogState<C>>> { Box::pin(self.s.get_log_state()) }
    fn entries<'a>(&'a mut self, from: u64, to: u64) -> Fut<'a, SResult<C, Vec<Entry<C>>>> { Box::pin(self.s.try_get_log_entries(from..to)) }
    fn append<'a>(&'a mut self, e: Vec<Entry<C>>) -> Fut<'a, SResult<C, ()>> { Box::pin(async move { self.s.append_to_log(e).await }) }
    fn truncate<'a>(&'a mut self, l: LogId<C::NodeId>) -> Fut<'a, SResult<C, ()>> { Box::pin(self.s.delete_conflict_logs_since(l)) }
    fn purge<'a>(&'a mut self, l: LogId<C::NodeId>) -> Fut<'a, SResult<C, ()>> { Box::pin(self.s.purge_logs_upto(l)) }
    fn applied<'a>(&'a mut self) -> Fut<'a, SResult<C, (Option<LogId<C::NodeId>>, StoredMembership<C::NodeId, C::Node>)>> { Box::pin(self.s.last_applied_state()) }
    fn apply<'a>(&'a mut self, e: Vec<Entry<C>>) -> Fut<'a, SResult<C, Vec<C::R>>> { Box::pin(async move { self.s.apply_to_state_machine(&e).await }) }
    fn snapshot<'a>(&'a mut self) -> Fut<'a, SResult<C, SnapshotMeta<C::NodeId, C::Node>>> { Box::pin(async move { let mut b = self.s.get_snapshot_builder().await; Ok(b.build_snapshot().await?.meta) }) }
}

struct Core<C: RaftTypeConfig> { st: Box<dyn Dyn<C>>, down: bool, since: u64 }
struct Shared<C: RaftTypeConfig> {
    id: C::NodeId, config: Arc<Config>, core: tokio::sync::Mutex<Core<C>>,
    tx: tokio::sync::watch::Sender<RaftMetrics<C::NodeId, C::Node>>, rx: tokio::sync::watch::Receiver<RaftMetrics<C::NodeId, C::Node>>,
}
pub struct Raft<C: RaftTypeConfig>(Arc<Shared<C>>);
impl<C: RaftTypeConfig> Clone for Raft<C> { fn clone(&self) -> Self { Raft(self.0.clone()) } }

type WriteResult<C> = Result<ClientWriteResponse<C>, RaftError<<C as RaftTypeConfig>::NodeId, ClientWriteError<<C as RaftTypeConfig>::NodeId, <C as RaftTypeConfig>::Node>>>;

impl<C: RaftTypeConfig> Raft<C> {
    pub async fn new<N, S>(id: C::NodeId, config: Arc<Config>, _network: N, log: storage::Adaptor<C, S>, _sm: storage::Adaptor<C, S>) -> Result<Self, Fatal<C::NodeId>>
    where N: RaftNetworkFactory<C>, S: RaftStorage<C> {
        let mut st: Box<dyn Dyn<C>> = Box::new(log);
        let vote = st.read_vote().await?.unwrap_or_default();
        let ls = st.log_state().await?;
        let (mut applied, mut mem) = st.applied().await?;
        // membership entries of the log that are not applied yet
        let to = ls.last_log_id.map_or(0, |l| l.index + 1);
        let from = applied.map_or(0, |l| l.index + 1);
        if from < to { for e in st.entries(from, to).await? { if let EntryPayload::Membership(m) = &e.payload { mem = StoredMembership::new(Some(e.log_id), m.clone()); } } }
        let sole = mem.membership().get_joint_config().iter().flatten().all(|n| *n == id) && !mem.membership().get_joint_config().is_empty();
        let m = RaftMetrics { id, current_term: vote.leader_id.term, vote, last_log_index: ls.last_log_id.map(|l| l.index), last_applied: applied, snapshot: None, purged: ls.last_purged_log_id,
            state: ServerState::Follower, current_leader: None, membership_config: Arc::new(mem), replication: None };
        let (tx, rx) = tokio::sync::watch::channel(m);
        let r = Raft(Arc::new(Shared { id, config, core: tokio::sync::Mutex::new(Core { st, down: false, since: 0 }), tx, rx }));
        if sole {
            // a restarted sole voter re-elects itself; everything in its log is committed
            if from < to {
                let mut c = r.0.core.lock().await;
                let es = c.st.entries(from, to).await?;
                applied = es.last().map(|e| e.log_id).or(applied);
                c.st.apply(es).await?;
                r.0.tx.send_modify(|m| m.last_applied = applied);
            }
            r.elect().await?;
        }
        Ok(r)
    }
    async fn elect(&self) -> Result<(), Fatal<C::NodeId>> {
        let mut c = self.0.core.lock().await;
        let term = self.0.rx.borrow().current_term + 1;
        let v = Vote::new_committed(term, self.0.id);
        c.st.save_vote(v).await?;
        self.0.tx.send_modify(|m| { m.vote = v; m.current_term = term; m.state = ServerState::Leader; m.current_leader = Some(self.0.id); m.replication = Some(BTreeMap::new()); });
        self.write(&mut c, EntryPayload::Blank).await?;
        Ok(())
    }
    async fn write(&self, c: &mut Core<C>, payload: EntryPayload<C>) -> Result<ClientWriteResponse<C>, Fatal<C::NodeId>> {
        if c.down { return Err(Fatal::Stopped); }
        let last = c.st.log_state().await?;
        let last_idx = last.last_log_id.or(last.last_purged_log_id).map_or(None, |l| Some(l.index));
        let term = self.0.rx.borrow().current_term;
        let log_id = LogId::new(LeaderId::new(term, self.0.id), last_idx.map_or(0, |i| i + 1));
        let mem = if let EntryPayload::Membership(m) = &payload { Some(m.clone()) } else { None };
        let e = Entry { log_id, payload };
        c.st.append(vec![e.clone()]).await?;
        let mut r = c.st.apply(vec![e]).await?;
        c.since += 1;
        self.0.tx.send_modify(|m| {
            m.last_log_index = Some(log_id.index);
            m.last_applied = Some(log_id);
            if let Some(x) = &mem { m.membership_config = Arc::new(StoredMembership::new(Some(log_id), x.clone())); }
        });
        if let SnapshotPolicy::LogsSinceLast(n) = self.0.config.snapshot_policy { if c.since >= n { self.snap(c).await?; } }
        Ok(ClientWriteResponse { log_id, data: r.pop().unwrap_or_default(), membership: mem })
    }
    async fn snap(&self, c: &mut Core<C>) -> Result<(), Fatal<C::NodeId>> {
        c.since = 0;
        let meta = c.st.snapshot().await?;
        if let Some(l) = meta.last_log_id {
            self.0.tx.send_modify(|m| m.snapshot = Some(l));
            let keep = self.0.config.max_in_snapshot_log_to_keep;
            let upto = l.index.checked_sub(keep);
            if let Some(i) = upto {
                if let Some(e) = c.st.entries(i, i + 1).await?.pop() {
                    if self.0.rx.borrow().purged.map_or(true, |p| p.index < i) {
                        c.st.purge(e.log_id).await?;
                        self.0.tx.send_modify(|m| m.purged = Some(e.log_id));
                    }
                }
            }
        }
        Ok(())
    }
    pub async fn initialize<T: IntoNodes<C::NodeId, C::Node>>(&self, nodes: T) -> Result<(), RaftError<C::NodeId, InitializeError<C::NodeId, C::Node>>> {
        let nodes = nodes.into_nodes();
        {
            let mut c = self.0.core.lock().await;
            let ls = c.st.log_state().await?;
            let m = self.0.rx.borrow().clone();
            if ls.last_log_id.is_some() || ls.last_purged_log_id.is_some() || m.vote != Vote::default() {
                return Err(RaftError::APIError(InitializeError::NotAllowed(NotAllowed { last_log_id: ls.last_log_id, vote: m.vote })));
            }
            let mem = Membership::new(vec![nodes.keys().copied().collect()], nodes);
            let e = Entry { log_id: LogId::default(), payload: EntryPayload::Membership(mem.clone()) };
            c.st.append(vec![e.clone()]).await?;
            c.st.apply(vec![e]).await?;
            self.0.tx.send_modify(|m| { m.last_log_index = Some(0); m.last_applied = Some(LogId::default()); m.membership_config = Arc::new(StoredMembership::new(Some(LogId::default()), mem)); });
        }
        self.elect().await.map_err(RaftError::Fatal)
    }
    pub async fn is_initialized(&self) -> Result<bool, Fatal<C::NodeId>> {
        let ls = self.0.core.lock().await.st.log_state().await?;
        Ok(ls.last_log_id.is_some() || ls.last_purged_log_id.is_some() || self.0.rx.borrow().vote != Vote::default())
    }
    fn forward(&self) -> ForwardToLeader<C::NodeId, C::Node> {
        let m = self.0.rx.borrow();
        ForwardToLeader { leader_id: m.current_leader, leader_node: m.current_leader.and_then(|l| m.membership_config.membership().get_node(&l).cloned()) }
    }
    fn leads(&self) -> bool { self.0.rx.borrow().state == ServerState::Leader }
    pub async fn client_write(&self, d: C::D) -> WriteResult<C> {
        if !self.leads() { return Err(RaftError::APIError(ClientWriteError::ForwardToLeader(self.forward()))); }
        let mut c = self.0.core.lock().await;
        self.write(&mut c, EntryPayload::Normal(d)).await.map_err(RaftError::Fatal)
    }
    async fn set_members(&self, mem: Membership<C::NodeId, C::Node>) -> WriteResult<C> {
        if !self.leads() { return Err(RaftError::APIError(ClientWriteError::ForwardToLeader(self.forward()))); }
        let mut c = self.0.core.lock().await;
        self.write(&mut c, EntryPayload::Membership(mem)).await.map_err(RaftError::Fatal)
    }
    pub async fn add_learner(&self, id: C::NodeId, node: C::Node, _blocking: bool) -> WriteResult<C> {
        let m = self.0.rx.borrow().membership_config.membership().clone();
        let mut nodes: BTreeMap<_, _> = m.nodes().map(|(k, v)| (*k, v.clone())).collect();
        nodes.insert(id, node);
        self.set_members(Membership::new(m.get_joint_config().clone(), nodes)).await
    }
    pub async fn change_membership(&self, ids: BTreeSet<C::NodeId>, retain: bool) -> WriteResult<C> {
        let m = self.0.rx.borrow().membership_config.membership().clone();
        let nodes: BTreeMap<_, _> = m.nodes().filter(|(k, _)| retain || ids.contains(k)).map(|(k, v)| (*k, v.clone())).collect();
        if let Some(x) = ids.iter().find(|i| !nodes.contains_key(i)) { return Err(RaftError::APIError(ClientWriteError::ChangeMembershipError(format!("learner {x} not found")))); }
        self.set_members(Membership::new(vec![ids], nodes)).await
    }
    pub async fn shutdown(&self) -> Result<(), Fatal<C::NodeId>> {
        self.0.core.lock().await.down = true;
        self.0.tx.send_modify(|m| { m.state = ServerState::Shutdown; m.current_leader = None; });
        Ok(())
    }
    pub fn metrics(&self) -> tokio::sync::watch::Receiver<RaftMetrics<C::NodeId, C::Node>> { self.0.rx.clone() }
    pub fn wait(&self, timeout: Option<Duration>) -> Wait<C> { Wait { rx: self.0.rx.clone(), timeout: timeout.unwrap_or(Duration::from_secs(3600)) } }
    pub fn trigger(&self) -> Trigger<C> { Trigger(self.clone()) }
    pub async fn current_leader(&self) -> Option<C::NodeId> { self.0.rx.borrow().current_leader }
    pub async fn ensure_linearizable(&self) -> Result<Option<LogId<C::NodeId>>, RaftError<C::NodeId, CheckIsLeaderError<C::NodeId, C::Node>>> {
        if !self.leads() { return Err(RaftError::APIError(CheckIsLeaderError::ForwardToLeader(self.forward()))); }
        Ok(self.0.rx.borrow().last_applied)
    }
    pub async fn vote(&self, r: VoteRequest<C::NodeId>) -> Result<VoteResponse<C::NodeId>, RaftError<C::NodeId>> {
        let mut c = self.0.core.lock().await;
        let ls = c.st.log_state().await?;
        let cur = self.0.rx.borrow().vote;
        let ok = (r.vote.leader_id, r.vote.committed) >= (cur.leader_id, cur.committed) && r.last_log_id >= ls.last_log_id;
        if ok { c.st.save_vote(r.vote).await?; self.0.tx.send_modify(|m| { m.vote = r.vote; m.current_term = r.vote.leader_id.term; m.state = ServerState::Follower; m.current_leader = None; }); }
        Ok(VoteResponse { vote: self.0.rx.borrow().vote, vote_granted: ok, last_log_id: ls.last_log_id })
    }
    pub async fn append_entries(&self, r: AppendEntriesRequest<C>) -> Result<AppendEntriesResponse<C::NodeId>, RaftError<C::NodeId>> {
        let mut c = self.0.core.lock().await;
        let m = self.0.rx.borrow().clone();
        if r.vote.leader_id < m.vote.leader_id { return Ok(AppendEntriesResponse::HigherVote(m.vote)); }
        c.st.save_vote(r.vote).await?;
        self.0.tx.send_modify(|m| { m.vote = r.vote; m.current_term = r.vote.leader_id.term; m.state = ServerState::Follower; m.current_leader = Some(r.vote.leader_id.node_id); });
        if let Some(p) = r.prev_log_id {
            let ls = c.st.log_state().await?;
            let known = m.last_applied.map_or(false, |a| a.index >= p.index) || ls.last_purged_log_id == Some(p) || c.st.entries(p.index, p.index + 1).await?.first().map(|e| e.log_id) == Some(p);
            if !known { if let Some(e) = c.st.entries(p.index, p.index + 1).await?.first() { let l = e.log_id; c.st.truncate(l).await?; } return Ok(AppendEntriesResponse::Conflict); }
        }
        let mut new = r.entries;
        while let Some(f) = new.first() {
            match c.st.entries(f.log_id.index, f.log_id.index + 1).await?.first() {
                Some(e) if e.log_id == f.log_id => { new.remove(0); }
                Some(e) => { let l = e.log_id; c.st.truncate(l).await?; break; }
                None => break,
            }
        }
        if !new.is_empty() { c.st.append(new).await?; }
        if let Some(lc) = r.leader_commit {
            let from = self.0.rx.borrow().last_applied.map_or(0, |l| l.index + 1);
            if lc.index >= from { let es = c.st.entries(from, lc.index + 1).await?; let l = es.last().map(|e| e.log_id); c.st.apply(es).await?; if l.is_some() { self.0.tx.send_modify(|m| m.last_applied = l); } }
        }
        Ok(AppendEntriesResponse::Success)
    }
    pub async fn install_snapshot(&self, _r: InstallSnapshotRequest<C>) -> Result<InstallSnapshotResponse<C::NodeId>, RaftError<C::NodeId, InstallSnapshotError>> {
        Err(RaftError::APIError(InstallSnapshotError("not modelled by the stand-in".into())))
    }
}
pub struct Wait<C: RaftTypeConfig> { rx: tokio::sync::watch::Receiver<RaftMetrics<C::NodeId, C::Node>>, timeout: Duration }
impl<C: RaftTypeConfig> Wait<C> {
    pub async fn metrics<F: Fn(&RaftMetrics<C::NodeId, C::Node>) -> bool + OptionalSend>(&self, f: F, msg: impl ToString) -> Result<RaftMetrics<C::NodeId, C::Node>, WaitError> {
        let mut rx = self.rx.clone();
        let msg = msg.to_string();
        let to = self.timeout;
        tokio::time::timeout(to, async move { loop { { let m = rx.borrow_and_update().clone(); if f(&m) { return Ok(m); } } if rx.changed().await.is_err() { return Err(WaitError::ShuttingDown); } } })
            .await.unwrap_or(Err(WaitError::Timeout(to, msg)))
    }
}
pub struct Trigger<C: RaftTypeConfig>(Raft<C>);
impl<C: RaftTypeConfig> Trigger<C> {
    pub async fn snapshot(&self) -> Result<(), Fatal<C::NodeId>> { let mut c = self.0 .0.core.lock().await; if c.down { return Err(Fatal::Stopped); } self.0.snap(&mut c).await }
}

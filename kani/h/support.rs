//! Environment of the code under test: storage, application, identities.
//! Everything here is a model written for verification; see DESIGN.md.
use super::*;
use crate::process::*;
use kenv::nd;
use std::collections::HashSet;

pub fn nid(n: u8) -> NodeId {
    NodeId::new(Uri(n))
}
pub fn num(id: &NodeId) -> u8 {
    id.0 .0
}
pub fn nd_node(n: u8) -> NodeId {
    nid(nd::below(n))
}
pub fn clock(term: u64, index: u64) -> Clock {
    Clock { term, index }
}

// ------------------------------------------------------------------ the log
/// Indices 1..=LN can be stored.
pub const LN: usize = 6;
#[derive(Clone, Copy)]
pub struct Slot {
    pub on: bool,
    pub prev: Clock,
    pub this: Clock,
    pub cmd: Bytes,
}
const NOSLOT: Slot = Slot {
    on: false,
    prev: Clock { term: 0, index: 0 },
    this: Clock { term: 0, index: 0 },
    cmd: Bytes::new(),
};
pub struct LogSt {
    pub s: [Slot; LN + 1],
    pub inserts: u64,
    /// index and clock of the last insertion
    pub last_insert: u64,
    pub deletes: u64,
}
kenv::gstatic! { pub LOG: LogSt = LogSt { s: [NOSLOT; LN + 1], inserts: 0, last_insert: 0, deletes: 0 }; }
/// storage failures: `true` makes the operation in progress fail
kenv::gstatic! { pub LOG_FAILS: Option<fn() -> bool> = None; }

pub fn log() -> &'static mut LogSt {
    unsafe { &mut *std::ptr::addr_of_mut!(LOG.1) }
}
impl LogSt {
    pub fn put(&mut self, prev_term: u64, term: u64, index: u64, cmd: Bytes) {
        self.s[index as usize] =
            Slot { on: true, prev: clock(prev_term, index - 1), this: clock(term, index), cmd };
    }
    pub fn last(&self) -> u64 {
        let mut r = 0;
        let mut i = 1;
        while i <= LN {
            if self.s[i].on {
                r = i as u64
            }
            i += 1;
        }
        r
    }
    pub fn head(&self) -> u64 {
        let mut r = 0;
        let mut i = LN;
        while i >= 1 {
            if self.s[i].on {
                r = i as u64
            }
            i -= 1;
        }
        r
    }
    // a copy: the solver mishandles slices of an array reached by a symbolic index
    pub fn at(&self, i: u64) -> Option<Slot> {
        let mut r = None;
        let mut k = 1;
        while k <= LN {
            if k as u64 == i && self.s[k].on {
                r = Some(self.s[k]);
            }
            k += 1;
        }
        r
    }
    pub fn term(&self, i: u64) -> u64 {
        match self.at(i) {
            Some(s) => s.this.term,
            None => 0,
        }
    }
}
fn log_fails() -> bool {
    match unsafe { LOG_FAILS.1 } {
        Some(f) => f(),
        None => false,
    }
}
pub struct LogM;
#[async_trait::async_trait]
impl RaftLogStore for LogM {
    async fn insert_entry(&self, i: Index, e: Entry) -> Result<()> {
        kenv::fut::yield_point().await;
        ensure!(!log_fails());
        assert!(i >= 1 && i <= LN as u64, "KENV-CAPACITY");
        let l = log();
        l.s[i as usize] = Slot { on: true, prev: e.prev_clock, this: e.this_clock, cmd: e.command };
        l.inserts += 1;
        l.last_insert = i;
        kenv::fut::yield_point().await;
        Ok(())
    }
    async fn delete_entries_before(&self, i: Index) -> Result<()> {
        kenv::fut::yield_point().await;
        ensure!(!log_fails());
        let l = log();
        l.deletes += 1;
        let mut k = 1;
        while k <= LN {
            if (k as u64) < i {
                l.s[k].on = false
            }
            k += 1;
        }
        Ok(())
    }
    async fn get_entry(&self, i: Index) -> Result<Option<Entry>> {
        kenv::fut::yield_point().await;
        ensure!(!log_fails());
        Ok(match log().at(i) {
            Some(s) => Some(Entry { prev_clock: s.prev, this_clock: s.this, command: s.cmd }),
            None => None,
        })
    }
    async fn get_head_index(&self) -> Result<Index> {
        kenv::fut::yield_point().await;
        ensure!(!log_fails());
        Ok(log().head())
    }
    async fn get_last_index(&self) -> Result<Index> {
        kenv::fut::yield_point().await;
        ensure!(!log_fails());
        Ok(log().last())
    }
}

// --------------------------------------------------------------- the ballot
pub struct BalSt {
    pub term: u64,
    pub vote: Option<u8>,
    pub saves: u64,
}
kenv::gstatic! { pub BAL: BalSt = BalSt { term: 0, vote: None, saves: 0 }; }
kenv::gstatic! { pub BAL_FAILS: Option<fn() -> bool> = None; }
pub fn bal() -> &'static mut BalSt {
    unsafe { &mut *std::ptr::addr_of_mut!(BAL.1) }
}
fn bal_fails() -> bool {
    match unsafe { BAL_FAILS.1 } {
        Some(f) => f(),
        None => false,
    }
}
pub struct BalM;
#[async_trait::async_trait]
impl RaftBallotStore for BalM {
    async fn save_ballot(&self, v: Ballot) -> Result<()> {
        kenv::fut::yield_point().await;
        ensure!(!bal_fails());
        let b = bal();
        b.term = v.cur_term;
        b.vote = v.voted_for.as_ref().map(num);
        b.saves += 1;
        Ok(())
    }
    async fn load_ballot(&self) -> Result<Ballot> {
        kenv::fut::yield_point().await;
        ensure!(!bal_fails());
        let b = bal();
        Ok(Ballot { cur_term: b.term, voted_for: b.vote.map(nid) })
    }
}

// ----------------------------------------------------------- the application
pub struct AppSt {
    pub writes: u64,
    /// index and first request byte of the last write
    pub last_write: (u64, u8),
    pub reads: u64,
    pub installs: u64,
    pub last_install: u64,
    pub saves: u64,
    pub last_save: u64,
    pub deletes: u64,
    pub last_delete: u64,
    pub opens: u64,
    pub last_open: u64,
    pub latest: u64,
    pub fail: Option<fn() -> bool>,
    /// called when a write is applied
    pub on_write: Option<fn(u64, &[u8])>,
    pub on_read: Option<fn(&[u8])>,
}
kenv::gstatic! { pub APP: AppSt = AppSt {
    writes: 0,
    last_write: (0, 0),
    reads: 0,
    installs: 0,
    last_install: 0,
    saves: 0,
    last_save: 0,
    deletes: 0,
    last_delete: 0,
    opens: 0,
    last_open: 0,
    latest: 0,
    fail: None,
    on_write: None,
    on_read: None,
}; }
pub fn app() -> &'static mut AppSt {
    unsafe { &mut *std::ptr::addr_of_mut!(APP.1) }
}
fn app_fails() -> bool {
    match app().fail {
        Some(f) => f(),
        None => false,
    }
}
pub struct AppM;
#[async_trait::async_trait]
impl RaftApp for AppM {
    async fn process_read(&self, request: &[u8]) -> Result<Bytes> {
        app().reads += 1;
        if let Some(f) = app().on_read {
            f(request)
        }
        ensure!(!app_fails());
        Ok(Bytes::copy_from_slice(request))
    }
    async fn process_write(&self, request: &[u8], entry_index: Index) -> Result<Bytes> {
        ensure!(!app_fails());
        let a = app();
        a.writes += 1;
        a.last_write = (entry_index, if request.len() > 0 { request[0] } else { 0 });
        if let Some(f) = a.on_write {
            f(entry_index, request)
        }
        // the response identifies request and position
        let r = [entry_index as u8, a.last_write.1];
        Ok(Bytes::copy_from_slice(&r))
    }
    async fn install_snapshot(&self, snapshot_index: Index) -> Result<()> {
        ensure!(!app_fails());
        let a = app();
        a.installs += 1;
        a.last_install = snapshot_index;
        Ok(())
    }
    async fn save_snapshot(&self, st: SnapshotStream, snapshot_index: Index) -> Result<()> {
        ensure!(!app_fails());
        let a = app();
        a.saves += 1;
        a.last_save = snapshot_index;
        std::mem::forget(st);
        Ok(())
    }
    async fn open_snapshot(&self, snapshot_index: Index) -> Result<SnapshotStream> {
        ensure!(!app_fails());
        let a = app();
        a.opens += 1;
        a.last_open = snapshot_index;
        Ok(Box::pin(futures::stream::iter(None::<Result<Bytes>>)))
    }
    async fn delete_snapshots_before(&self, i: Index) -> Result<()> {
        ensure!(!app_fails());
        let a = app();
        a.deletes += 1;
        a.last_delete = i;
        Ok(())
    }
    async fn get_latest_snapshot(&self) -> Result<Index> {
        ensure!(!app_fails());
        Ok(app().latest)
    }
}

// ------------------------------------------------------------------ the node
pub const ME: u8 = 0;
pub const SHARD: ShardId = 1;

pub fn set(ids: &[u8]) -> HashSet<NodeId> {
    let mut m = HashSet::new();
    let mut i = 0;
    while i < ids.len() {
        m.insert(nid(ids[i]));
        i += 1;
    }
    m
}
/// Start (or restart) the Raft process on what is in the stores.
pub fn boot() -> (RaftNode, Arc<RaftProcess>) {
    let node = RaftNode::new(nid(ME));
    let p = match kenv::fut::run(RaftProcess::new(AppM, LogM, BalM, node.get_driver(SHARD))) {
        Ok(p) => p,
        Err(_) => panic!("KENV: boot"),
    };
    node.attach_process(SHARD, p);
    let p = node.get_process(SHARD).unwrap();
    (node, p)
}
/// the gRPC service on top of the node
pub fn service(node: &RaftNode) -> Arc<impl crate::raft::raft_server::Raft> {
    crate::raft_service::new(node.clone()).inner
}
pub fn req<T>(t: T) -> tonic::Request<T> {
    tonic::Request::new(t)
}

// ------------------------------------------------------------- for harnesses
/// `claim!(P01, cond, "text")`: the assertion belongs to property P01 and is
/// checked only by the check of that property. `claim!(P01.tag, ..)` can be
/// listed as a known finding.
#[macro_export]
macro_rules! claim {
    ($p:ident, $c:expr, $m:literal) => {{
        // the condition may have effects
        let c: bool = $c;
        if $crate::khs_on::$p {
            $crate::khs_assert!(c, concat!("[", stringify!($p), "] ", $m));
        }
    }};
    ($p:ident . $t:ident, $c:expr, $m:literal) => {{
        let c: bool = $c;
        if $crate::khs_on::$p {
            $crate::khs_assert!(c, concat!("[", stringify!($p), ".", stringify!($t), "] ", $m));
        }
    }};
}
#[cfg(kani)]
#[macro_export]
macro_rules! khs_assert {
    ($c:expr, $m:expr) => { kani::assert($c, $m) };
}
#[cfg(not(kani))]
#[macro_export]
macro_rules! khs_assert {
    ($c:expr, $m:expr) => { assert!($c, "{}", $m) };
}
pub use crate::claim;


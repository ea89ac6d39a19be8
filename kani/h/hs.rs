//! Helpers shared by the harnesses.
pub(crate) use super::*;
pub(crate) use crate::claim;
pub(crate) use crate::khs::*;
pub(crate) use crate::process::raft_process::kh as rp;
pub(crate) use crate::process::command_log::kh as lg;
pub(crate) use crate::raft::raft_server::Raft;
pub(crate) use kenv::{fut, nd, witness};
pub(crate) use voter::ElectionState;
pub const SC: Ordering = Ordering::SeqCst;

pub fn cfg_cmd(ids: &[u8]) -> Bytes {
    Command::serialize(Command::ClusterConfiguration { membership: set(ids) })
}
pub fn snap_cmd(ids: &[u8]) -> Bytes {
    Command::serialize(Command::Snapshot { membership: set(ids) })
}
pub fn bar_cmd(t: u64) -> Bytes {
    Command::serialize(Command::Barrier(t))
}
pub fn exec_cmd(msg: &[u8], rid: &str) -> Bytes {
    // spelled out: constant for the model checker
    let mut w = serde::W::new();
    w.put(Command::TAG_EXECUTEREQUEST);
    kenv::ser::put_bytes(msg, &mut w);
    kenv::ser::put_bytes(rid.as_bytes(), &mut w);
    w.bytes()
}
pub fn done_cmd(rid: &str) -> Bytes {
    let mut w = serde::W::new();
    w.put(Command::TAG_COMPLETEREQUEST);
    kenv::ser::put_bytes(rid.as_bytes(), &mut w);
    w.bytes()
}
/// Nothing but these commands is ever decoded (anything else fails).
pub fn only(cmds: &[Bytes]) {
    kenv::ser::only(cmds)
}
pub fn wire_clock(c: Clock) -> Option<crate::raft::Clock> {
    Some(crate::raft::Clock { term: c.term, index: c.index })
}
/// A running node in the cluster `ids`, on a log that holds the snapshot entry
/// of index 1 only.
pub fn world(ids: &[u8]) -> (RaftNode, Arc<RaftProcess>) {
    let (node, p) = boot();
    rp::join(&p, set(ids), 1);
    log().put(0, 0, 1, snap_cmd(ids));
    (node, p)
}
/// Append `more` entries (barriers) at 2.. with arbitrary nondecreasing terms.
pub fn grow(more: u64) {
    let mut i = 2;
    let mut prev = 0;
    while i < 2 + more {
        let t = nd::u64();
        nd::assume(t >= prev);
        log().put(prev, t, i, bar_cmd(t));
        prev = t;
        i += 1;
    }
}
/// 1..=max entries
pub fn grow_upto(max: u64) -> u64 {
    let n = 1 + nd::below(max as u8) as u64;
    let mut i = 2;
    let mut prev = 0;
    while i <= max {
        let t = nd::u64();
        nd::assume(t >= prev);
        if i <= n {
            log().put(prev, t, i, bar_cmd(t));
        }
        prev = t;
        i += 1;
    }
    n
}
/// Any ballot: any term, any (or no) vote among `n` nodes.
pub fn nd_ballot(n: u8) -> (u64, Option<u8>) {
    let b = bal();
    b.term = nd::u64();
    b.vote = if nd::bool() { Some(nd::below(n)) } else { None };
    (b.term, b.vote)
}
pub fn suspect(yes: bool) {
    kenv::rand_m::set_phi(if yes { 100.0 } else { 0.0 });
}
pub fn is_leader(s: ElectionState) -> bool {
    matches!(s, ElectionState::Leader)
}
pub fn is_follower(s: ElectionState) -> bool {
    matches!(s, ElectionState::Follower)
}
pub fn is_candidate(s: ElectionState) -> bool {
    matches!(s, ElectionState::Candidate)
}
pub fn same_state(a: ElectionState, b: ElectionState) -> bool {
    (is_leader(a) && is_leader(b)) || (is_follower(a) && is_follower(b)) || (is_candidate(a) && is_candidate(b))
}
pub fn nd_state() -> ElectionState {
    match nd::below(3) {
        0 => ElectionState::Leader,
        1 => ElectionState::Candidate,
        _ => ElectionState::Follower,
    }
}
/// Run a background thread for `ticks` timer expiries; then (it waits forever)
/// `check` is called. Does not return.
pub fn drive<T>(make: impl FnOnce() -> T, ticks: u64, check: fn()) {
    kenv::time_m::set_ticks(ticks);
    kenv::time_m::set_sleep_ends(true);
    kenv::sched::set_block(Some(check));
    kenv::time_m::set_run(true);
    std::mem::forget(make());
    panic!("KENV: the thread ended");
}
pub fn safe_term(p: &RaftProcess, t: u64) {
    rp::voter(p).commit_safe_term(t)
}

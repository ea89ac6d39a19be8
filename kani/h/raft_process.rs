use super::*;
pub fn voter(p: &RaftProcess) -> &Voter {
    &p.voter
}
pub fn peers(p: &RaftProcess) -> &PeerSvc {
    &p.peers
}
pub fn cl(p: &RaftProcess) -> &CommandLog {
    &p.command_log
}

/// Put the node into a cluster with members `m`, known from the log entry at `index`.
pub fn join(p: &RaftProcess, m: HashSet<NodeId>, index: Index) {
    let r = kenv::fut::run(p.peers.set_membership(m, index, Ref(p.voter.clone())));
    if r.is_err() {
        panic!("KENV: set_membership");
    }
}
use crate::khs::nid;
use crate::process::peer_svc::kh as ps;
pub fn set_raw_membership(p: &RaftProcess, m: HashSet<NodeId>) {
    ps::set_raw_membership(&p.peers, m)
}
/// (match_index, next_index)
pub fn progress(p: &RaftProcess, n: u8) -> (Index, Index) {
    let x = ps::progress(&p.peers, &nid(n));
    (x.0, x.1)
}
pub fn progress_cnt(p: &RaftProcess, n: u8) -> Index {
    ps::progress(&p.peers, &nid(n)).2
}
pub fn set_progress(p: &RaftProcess, n: u8, m: Index, next: Index, cnt: Index) {
    ps::set_progress(&p.peers, &nid(n), m, next, cnt)
}
pub fn has_peer(p: &RaftProcess, n: u8) -> bool {
    ps::has_peer(&p.peers, &nid(n))
}
pub fn n_peers(p: &RaftProcess) -> usize {
    ps::n_peers(&p.peers)
}
pub fn n_threads(p: &RaftProcess) -> usize {
    ps::n_threads(&p.peers)
}
pub fn driver(p: &RaftProcess) -> RaftDriver {
    p.driver.clone()
}
pub fn query_tx(p: &RaftProcess) -> query_queue::Producer {
    p.query_tx.clone()
}
pub fn is_member(p: &RaftProcess, n: u8) -> bool {
    p.peers.read_membership().contains(&nid(n))
}
pub fn n_members(p: &RaftProcess) -> usize {
    p.peers.read_membership().len()
}
pub fn members(p: &RaftProcess) -> HashSet<NodeId> {
    p.peers.read_membership()
}

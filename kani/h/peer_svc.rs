use super::*;
pub fn set_raw_membership(p: &PeerSvc, m: HashSet<NodeId>) {
    *p.membership.write() = m;
}
pub fn progress(p: &PeerSvc, id: &NodeId) -> (Index, Index, Index) {
    match p.peer_contexts.read().get(id) {
        Some(c) => (c.progress.match_index, c.progress.next_index, c.progress.next_max_cnt),
        None => panic!("KENV: no such peer"),
    }
}
pub fn has_peer(p: &PeerSvc, id: &NodeId) -> bool {
    p.peer_contexts.read().contains_key(id)
}
pub fn n_peers(p: &PeerSvc) -> usize {
    p.peer_contexts.read().len()
}
pub fn n_threads(p: &PeerSvc) -> usize {
    p.peer_threads.lock().len()
}
pub fn set_progress(p: &PeerSvc, id: &NodeId, match_index: Index, next_index: Index, next_max_cnt: Index) {
    let mut g = p.peer_contexts.write();
    match g.get_mut(id) {
        Some(c) => c.progress = ReplicationProgress { match_index, next_index, next_max_cnt },
        None => panic!("KENV: no such peer"),
    }
}

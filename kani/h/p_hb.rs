//! Heartbeats (P03, P08).
use super::hs::*;

fn beat(from: u8, shard: u32, term: u64, commit: u64) -> tonic::Request<crate::raft::Heartbeat> {
    let mut m = std::collections::HashMap::new();
    m.insert(shard, crate::raft::LeaderCommitState { leader_term: term, leader_commit_index: commit });
    req(crate::raft::Heartbeat { leader_id: nid(from).to_string(), leader_commit_states: m })
}
/// One heartbeat to a node in any state.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p08_heartbeat() {
    let (node, p) = world(&[0, 1, 2]);
    let n = grow_upto(4);
    let (t0, v0) = nd_ballot(3);
    suspect(nd::bool());
    let s0 = nd_state();
    rp::voter(&p).write_election_state(s0);
    let c0 = nd::u64();
    nd::assume(c0 <= n);
    rp::cl(&p).commit_pointer.store(c0, SC);
    let (lt, lc, from) = (nd::u64(), nd::u64(), nd::below(3));
    // a leader of the own term is not this node, nor a second one
    let pings = kenv::rand_m::pings();
    let r = fut::run(service(&node).send_heartbeat(beat(from, SHARD, lt, lc)));
    std::mem::forget(r);
    let (t1, v1) = (bal().term, bal().vote);
    let s1 = rp::voter(&p).read_election_state();
    let c1 = rp::cl(&p).commit_pointer.load(SC);
    claim!(P08, c1 >= c0, "the commit index never decreases");
    claim!(P08, c1 == c0 || c1 <= lc, "a follower commits no further than the leader told");
    claim!(P08, c1 == c0 || c1 <= n, "a follower commits no further than its log");
    if c1 > c0 {
        claim!(P08, log().term(c1) == lt, "a follower commits only entries known to match the leader's log");
        claim!(P08, lt >= t0, "a stale leader does not move the commit index");
    }
    // progress: everything up to the leader's commit index that is known to match
    if lt >= t0 && lc >= 1 {
        let m = if lc < n { lc } else { n };
        if log().term(m) == lt {
            claim!(P08, c1 >= m, "the commit index follows the leader's");
        }
    }
    claim!(P03, t1 == if lt > t0 { lt } else { t0 }, "a heartbeat raises the term, never lowers it");
    if lt < t0 {
        claim!(P03, v1 == v0 && same_state(s0, s1) && kenv::rand_m::pings() == pings && c1 == c0, "a stale heartbeat has no effect");
    }
    if lt > t0 {
        claim!(P03, is_follower(s1), "learning a newer term means stepping down");
    }
    if lt >= t0 {
        claim!(P25, v1 == Some(from), "the heartbeat's sender is known as leader");
        claim!(P05, kenv::rand_m::pings() > pings, "a heartbeat of the current leader keeps it alive");
    }
    claim!(P01, t1 != t0 || v0.is_none() || v1 == v0 || (lt == t0 && v1 == Some(from)), "within a term only its leader's heartbeat replaces the vote");
    claim!(P08, log().inserts == 0, "heartbeats do not touch the log");
    witness!(c1 > c0, "commit advanced");
    witness!(lt > t0, "new term learned");
    witness!(lt < t0, "stale heartbeat");
    std::mem::forget((node, p));
}
/// A heartbeat names the commit states of many shards: other shards are not touched.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p08_other_shard() {
    let (node, p) = world(&[0, 1, 2]);
    let (t0, v0) = nd_ballot(3);
    rp::cl(&p).commit_pointer.store(0, SC);
    let r = fut::run(service(&node).send_heartbeat(beat(1, 7, nd::u64(), nd::u64())));
    claim!(P30, r.is_ok(), "heartbeats for unknown shards are ignored");
    claim!(P30, bal().term == t0 && bal().vote == v0 && rp::cl(&p).commit_pointer.load(SC) == 0, "a heartbeat affects only the shards it names");
    witness!(r.is_ok(), "ok");
    std::mem::forget((node, p, r));
}

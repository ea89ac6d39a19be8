//! The node's own elections (P05-P07).
use super::hs::*;

struct E {
    /// ballot and last log clock when the election started
    t0: u64,
    v0: Option<u8>,
    last: Clock,
    force: bool,
    pre_grants: u8,
    grants: u8,
    pre_asked: [bool; 6],
    asked: [bool; 6],
    any: bool,
    p: Option<Arc<RaftProcess>>,
    n: u8,
    early_leader: bool,
}
kenv::gstatic! { ST: E = E {
    t0: 0, v0: None, last: Clock { term: 0, index: 0 }, force: false, pre_grants: 0, grants: 0,
    pre_asked: [false; 6], asked: [false; 6], any: false, p: None, n: 0, early_leader: false,
}; }
fn st() -> &'static mut E {
    unsafe { &mut *std::ptr::addr_of_mut!(ST.1) }
}
fn on_vote(dest: u8, r: crate::raft::VoteRequest) -> Option<crate::raft::VoteResponse> {
    let e = st();
    e.any = true;
    let c = match r.candidate_clock {
        Some(c) => clock(c.term, c.index),
        None => clock(0, 0),
    };
    claim!(P06, c == e.last, "a candidate presents the clock of its own last entry");
    claim!(P06, r.vote_term == e.t0 + 1, "a candidate runs at the term after its own");
    claim!(P06, r.candidate_id == nid(ME).to_string(), "a candidate asks for itself");
    claim!(P06, r.shard_id == SHARD, "votes are asked for the own shard");
    claim!(P06, dest != ME && dest < e.n, "only the other members are asked");
    claim!(P05, r.force_vote == e.force, "only a leadership transfer forces votes");
    if r.pre_vote {
        claim!(P04, bal().term == e.t0 && bal().vote == e.v0, "no ballot change before the pre-vote is won");
        e.pre_asked[dest as usize] = true;
    } else {
        claim!(P06, bal().term == e.t0 + 1 && bal().vote == Some(ME), "the vote for itself is persisted before votes are asked");
        claim!(P04, e.pre_grants + 1 > e.n / 2, "the real election starts only after a won pre-vote");
        e.asked[dest as usize] = true;
    }
    if nd::bool() {
        return None;
    }
    let g = nd::bool();
    if g {
        if r.pre_vote { e.pre_grants += 1 } else { e.grants += 1 }
    }
    Some(crate::raft::VoteResponse { vote_granted: g })
}
/// at every scheduling point: a leader already has its barrier in the log
fn watch() {
    let e = st();
    if let Some(p) = &e.p {
        if is_leader(rp::voter(p).read_election_state()) {
            claim!(P07, log().last() == e.last.index + 1 && log().term(e.last.index + 1) == e.t0 + 1,
                "the barrier of the new term is in the log before the node acts as leader");
        }
    }
}
fn setup(ids: &[u8], max: u64) -> (RaftNode, Arc<RaftProcess>) {
    let (node, p) = world(ids);
    let n = grow_upto(max);
    let e = st();
    let (t0, v0) = nd_ballot(3);
    nd::assume(t0 < u64::MAX - 1);
    e.t0 = t0;
    e.v0 = v0;
    e.last = clock(log().term(n), n);
    e.n = ids.len() as u8;
    e.p = Some(p.clone());
    unsafe { crate::raft::knet::REQUEST_VOTE.1 = Some(on_vote) }
    (node, p)
}
fn outcome(p: &Arc<RaftProcess>, s0: ElectionState) {
    let e = st();
    let s1 = rp::voter(p).read_election_state();
    let (t1, v1) = (bal().term, bal().vote);
    let maj = e.n / 2 + 1;
    let last1 = log().last();
    if e.pre_grants + 1 < maj {
        claim!(P04, t1 == e.t0 && v1 == e.v0 && bal().saves == 0, "a lost pre-vote leaves the ballot alone");
        claim!(P04, same_state(s0, s1), "a lost pre-vote leaves the role alone");
    } else {
        claim!(P06, bal().saves == 0 || (t1 == e.t0 + 1 && v1 == Some(ME)), "the candidate votes for itself and only itself");
    }
    if is_leader(s1) {
        claim!(P06, e.grants + 1 >= maj && e.pre_grants + 1 >= maj, "a leader has the votes of a majority");
        claim!(P06, t1 == e.t0 + 1 && v1 == Some(ME), "a leader has voted for itself in its term");
        claim!(P07, last1 == e.last.index + 1, "a new leader appends exactly one entry");
        if let Some(x) = log().at(e.last.index + 1) {
            claim!(P07, x.this == clock(e.t0 + 1, e.last.index + 1) && x.prev == e.last, "the barrier carries the new term and follows the log");
            let isb = match Command::deserialize(&x.cmd) {
                Command::Barrier(t) => t == e.t0 + 1,
                _ => false,
            };
            claim!(P07, isb, "the first entry of a leader is the barrier of its term");
        }
    } else {
        claim!(P06, is_follower(s1), "a lost election ends in the follower role");
        claim!(P07, last1 == e.last.index && log().inserts == 0, "a node that does not win appends nothing");
    }
    // it does win when everyone it asked says yes
    if e.grants + 1 >= maj && e.pre_grants + 1 >= maj {
        claim!(P06, is_leader(s1), "a majority of votes is enough");
    }
}
fn elect(ids: &[u8], max: u64) {
    let (node, p) = setup(ids, max);
    st().force = true;
    // leftovers of an earlier reign
    for i in 1..ids.len() {
        rp::set_progress(&p, ids[i], nd::u64(), nd::u64(), nd::u64());
    }
    kenv::sched::set_interfere(Some(watch));
    let r = fut::run(service(&node).send_timeout_now(req(crate::raft::TimeoutNow { shard_id: SHARD })));
    kenv::sched::set_interfere(None);
    outcome(&p, ElectionState::Follower);
    if is_leader(rp::voter(&p).read_election_state()) {
        for i in 1..ids.len() {
            let (m, n) = rp::progress(&p, ids[i]);
            claim!(P07, m == 0, "a new leader assumes nothing replicated");
            claim!(P07, n <= st().last.index + 1, "a new leader starts replicating at its barrier or before");
        }
        // and takes no requests until the barrier is applied
        let b = fut::run(rp::voter(&p).allow_queue_new_entry());
        let b = match b { Ok(x) => x, Err(_) => false };
        claim!(P07, !b, "no entries are accepted before the barrier is applied");
    }
    witness!(is_leader(rp::voter(&p).read_election_state()), "elected");
    witness!(is_follower(rp::voter(&p).read_election_state()) && bal().saves > 0, "election lost");
    witness!(bal().saves == 0, "pre-vote lost");
    std::mem::forget((node, p, r));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p06_elect3() {
    elect(&[0, 1, 2], 2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p06_elect2() {
    let (node, p) = setup(&[0, 1], 2);
    st().force = true;
    let r = fut::run(service(&node).send_timeout_now(req(crate::raft::TimeoutNow { shard_id: SHARD })));
    outcome(&p, ElectionState::Follower);
    witness!(is_leader(rp::voter(&p).read_election_state()), "elected");
    witness!(bal().saves == 0, "pre-vote lost");
    std::mem::forget((node, p, r));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p06_elect4() {
    let (node, p) = setup(&[0, 1, 2, 3], 1);
    st().force = true;
    let r = fut::run(service(&node).send_timeout_now(req(crate::raft::TimeoutNow { shard_id: SHARD })));
    outcome(&p, ElectionState::Follower);
    witness!(is_leader(rp::voter(&p).read_election_state()), "elected");
    witness!(is_follower(rp::voter(&p).read_election_state()) && bal().saves > 0, "election lost");
    std::mem::forget((node, p, r));
}

// ---- the election timer
struct T {
    s0: ElectionState,
    member: bool,
    suspected_at_end: bool,
    flipped: bool,
}
kenv::gstatic! { TM: T = T { s0: ElectionState::Follower, member: true, suspected_at_end: false, flipped: false }; }
fn tm() -> &'static mut T {
    unsafe { &mut *std::ptr::addr_of_mut!(TM.1) }
}
/// the leader may come back to life (or die) during the random wait
fn flip() {
    if !tm().flipped {
        tm().flipped = true;
        let x = nd::bool();
        suspect(x);
        tm().suspected_at_end = x;
    }
}
fn timer_end() {
    let e = st();
    if let Some(p) = &e.p {
        if e.any || bal().saves > 0 {
            claim!(P05, is_follower(tm().s0), "only a follower starts an election by timeout");
            claim!(P05, tm().suspected_at_end, "an election starts only when the leader is suspected");
            claim!(P05, tm().member, "a node outside the configuration does not start elections");
        } else {
            claim!(P05, same_state(tm().s0, rp::voter(p).read_election_state()), "without an election the role stays");
        }
        if e.any {
            outcome(p, tm().s0);
        }
    }
}
fn timer_end_member() {
    let e = st();
    timer_end();
    witness!(e.any, "timer started an election");
    witness!(!e.any && is_leader(tm().s0), "timer idle");
}
fn timer_end_nonmember() {
    timer_end();
    witness!(true, "end reached");
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p05_timer() {
    let (node, p) = setup(&[0, 1], 1);
    let t = tm();
    t.s0 = nd_state();
    t.suspected_at_end = nd::bool();
    suspect(t.suspected_at_end);
    rp::voter(&p).write_election_state(t.s0);
    kenv::sched::set_interfere(Some(flip));
    let v = rp::voter(&p).clone();
    std::mem::forget((node, p));
    drive(|| thread::election::new(v), 1, timer_end_member);
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p05_timer_nonmember() {
    let (node, p) = setup(&[0, 1], 1);
    rp::set_raw_membership(&p, set(&[1, 2]));
    let t = tm();
    t.s0 = ElectionState::Follower;
    t.member = false;
    t.suspected_at_end = true;
    suspect(true);
    let v = rp::voter(&p).clone();
    std::mem::forget((node, p));
    drive(|| thread::election::new(v), 1, timer_end_nonmember);
}

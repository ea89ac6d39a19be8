//! Vote requests (P01-P05).
use super::hs::*;

fn vreq(cand: u8, clk: Clock, term: u64, force: bool, pre: bool) -> tonic::Request<crate::raft::VoteRequest> {
    req(crate::raft::VoteRequest {
        shard_id: SHARD,
        candidate_id: nid(cand).to_string(),
        candidate_clock: wire_clock(clk),
        vote_term: term,
        force_vote: force,
        pre_vote: pre,
    })
}
fn granted(r: Result<tonic::Response<crate::raft::VoteResponse>, tonic::Status>) -> bool {
    match r {
        Ok(x) => x.into_inner().vote_granted,
        Err(_) => false,
    }
}
fn flaky() -> bool {
    nd::bool()
}

/// One vote request to a node in any state. With `fails`, the ballot store may fail.
fn vote(fails: bool) {
    let (node, p) = world(&[0, 1, 2]);
    let n = grow_upto(3);
    let (t0, v0) = nd_ballot(3);
    let suspected = nd::bool();
    suspect(suspected);
    let s0 = nd_state();
    rp::voter(&p).write_election_state(s0);
    let c0 = nd::u64();
    rp::cl(&p).commit_pointer.store(c0, SC);
    let svc = service(&node);
    let (ct, cand) = (nd::u64(), nd::below(3));
    let cc = clock(nd::u64(), nd::u64());
    let (force, pre) = (nd::bool(), nd::bool());
    let last = clock(log().term(n), n);
    let inserts = log().inserts;
    if fails {
        unsafe { BAL_FAILS.1 = Some(flaky) }
    }
    let g = granted(fut::run(svc.request_vote(vreq(cand, cc, ct, force, pre))));
    let (t1, v1) = (bal().term, bal().vote);
    let s1 = rp::voter(&p).read_election_state();
    if g && !pre {
        claim!(P01, t1 == ct && v1 == Some(cand), "a granted vote is persisted before the reply");
        claim!(P01, !(t0 == ct && v0.is_some() && v0 != Some(cand)), "at most one vote per term");
    }
    claim!(P01, t1 != t0 || v0.is_none() || v1 == v0, "a recorded vote is not changed by vote requests of the same term");
    claim!(P01, v1.is_none() || (t1 == t0 && v1 == v0) || (g && !pre) || fails, "a vote is recorded only when granted");
    if g {
        claim!(
            P02,
            cc.term > last.term || (cc.term == last.term && cc.index >= last.index),
            "votes go only to candidates whose log is at least as up to date"
        );
        claim!(P03, ct >= t0, "no vote for a stale term");
    }
    claim!(P03, t1 >= t0, "the term never decreases");
    if ct < t0 {
        claim!(P03, t1 == t0 && v1 == v0 && same_state(s0, s1), "a stale vote request has no effect");
    }
    if t1 > t0 {
        claim!(P03, t1 == ct, "the term moves only to the term of the message");
        claim!(P03, is_follower(s1), "learning a newer term means stepping down");
    }
    if pre {
        claim!(P04, t1 == t0 && v1 == v0 && bal().saves == 0, "a pre-vote leaves the ballot alone");
        claim!(P04, same_state(s0, s1), "a pre-vote leaves the role alone");
        // it answers what the real vote would
        if g {
            claim!(P04, ct >= t0 && !(t0 == ct && v0.is_some() && v0 != Some(cand)), "a pre-vote grant predicts the vote");
        }
    }
    if !force && !suspected {
        claim!(P05, !g && t1 == t0 && v1 == v0 && same_state(s0, s1), "while the leader is alive, vote requests are ignored");
    }
    if force || suspected {
        // no vote is withheld without a reason
        if !fails && ct >= t0 && (ct > t0 || v0.is_none() || v0 == Some(cand))
            && (cc.term > last.term || (cc.term == last.term && cc.index >= last.index))
        {
            claim!(P05, g, "an eligible candidate gets the vote when the leader is suspected or the vote is forced");
        }
    }
    claim!(P03, rp::cl(&p).commit_pointer.load(SC) == c0 && log().inserts == inserts,
        "votes touch neither log nor commit index");
    witness!(g && !pre, "vote granted");
    witness!(g && pre, "pre-vote granted");
    witness!(!g && ct == t0 && v0.is_some(), "vote refused");
    witness!(t1 > t0 && !g, "term adopted without a vote");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p01_vote() {
    vote(false)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p01_vote_store_fails() {
    vote(true)
}

struct Race {
    node: Option<RaftNode>,
    cand: u8,
    term: u64,
    clk: Clock,
    ran: bool,
    granted: bool,
}
kenv::gstatic! { RACE: Race = Race { node: None, cand: 0, term: 0, clk: Clock { term: 0, index: 0 }, ran: false, granted: false }; }
fn rival() {
    let r = unsafe { &mut *std::ptr::addr_of_mut!(RACE.1) };
    if !r.ran && nd::bool() {
        r.ran = true;
        if let Some(node) = &r.node {
            let svc = service(node);
            r.granted = granted(fut::run(svc.request_vote(vreq(r.cand, r.clk, r.term, true, false))));
        }
    }
}
/// Two candidates ask at the same time; the second request runs at any
/// scheduling point of the first.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p01_race() {
    let (node, p) = world(&[0, 1, 2]);
    let (t0, v0) = nd_ballot(3);
    suspect(true);
    let svc = service(&node);
    let ct = nd::u64();
    let cc = clock(nd::u64(), nd::u64());
    let r = unsafe { &mut *std::ptr::addr_of_mut!(RACE.1) };
    *r = Race { node: Some(node.clone()), cand: 2, term: nd::u64(), clk: clock(nd::u64(), nd::u64()), ran: false, granted: false };
    kenv::sched::set_interfere(Some(rival));
    let g = granted(fut::run(svc.request_vote(vreq(1, cc, ct, true, false))));
    kenv::sched::set_interfere(None);
    claim!(P01, !(g && r.granted && r.term == ct), "two concurrent candidates of one term do not both get the vote");
    if g && r.granted {
        let hi = if ct > r.term { ct } else { r.term };
        claim!(P01, bal().term == hi, "the later vote stays recorded");
        claim!(P03, bal().term == hi, "the term never decreases under concurrent requests");
    }
    claim!(P03, bal().term >= t0, "the term never decreases under concurrent requests");
    if bal().term == t0 && v0.is_some() {
        claim!(P01, bal().vote == v0, "a recorded vote stays under concurrent requests");
    }
    witness!(g && r.ran, "race, first granted");
    witness!(r.granted && !g, "race, second granted");
    std::mem::forget((node, p));
}

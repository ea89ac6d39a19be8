//! Membership changes (P16), leaving the cluster and handing leadership over (P18).
use super::hs::*;
use super::p_append::lead;
use super::p_repl::{deliver, elem, El};
use crate::raft;

struct M {
    p: Option<Arc<RaftProcess>>,
    at: u8,
    /// the other request has been handled
    ran: bool,
    ok: bool,
    sent: u64,
    dest: u8,
    state: Option<bool>,
    node: u8,
    add: bool,
}
kenv::gstatic! { MM: M = M { p: None, at: 255, ran: false, ok: false, sent: 0, dest: 99, state: None, node: 77, add: false }; }
fn mm() -> &'static mut M {
    unsafe { &mut *std::ptr::addr_of_mut!(MM.1) }
}
fn me() -> Arc<RaftProcess> {
    match &mm().p {
        Some(p) => p.clone(),
        None => panic!("KENV"),
    }
}
fn kern_req(add: bool, n: u8) -> request::KernRequest {
    // spelled out: constant for the model checker
    request::KernRequest { message: Bytes::copy_from_slice(&[if add { 0 } else { 1 }, n]) }
}
fn kern_bytes(add: bool, n: u8) -> Bytes {
    kern_req(add, n).message
}
/// Everything in the log gets committed.
fn commit_all() {
    let p = me();
    let n = log().last();
    let (_, k, _, _) = lg::ptrs(rp::cl(&p));
    if n > k {
        rp::cl(&p).commit_pointer.store(n, SC);
        let mut i = 0;
        while i < 2 {
            if lg::kern(rp::cl(&p)) < n {
                let _ = fut::run(rp::cl(&p).advance_kern_process(rp::voter(&p).clone()));
            }
            i += 1;
        }
    }
    std::mem::forget(p);
}
/// In force: the configuration of entry `at`, and nothing is left of another.
fn in_force(p: &RaftProcess, m: &[u8], at: u64) {
    let want = set(m);
    claim!(P16, rp::members(p) == want, "the last configuration in the log is in force");
    claim!(P16, lg::membership_at(rp::cl(p)) == at, "the node knows which entry its membership comes from");
    let mut i = 1;
    while i < 5 {
        let peer = want.contains(&nid(i));
        claim!(P16, rp::has_peer(p, i) == peer, "a node has exactly the other members as peers");
        i += 1;
    }
    claim!(P16, rp::n_threads(p) == rp::n_peers(p), "every peer is served, and nobody else");
}
fn request(add: bool, n: u8, want: &[u8]) {
    let (node, p) = world(&[0, 1, 2]);
    let t = lead(&p);
    mm().p = Some(p.clone());
    lg::set_ptrs(rp::cl(&p), 2, 2, 2);
    let c = cfg_cmd(want);
    only(&[c, kern_bytes(add, n)]);
    kenv::sched::set_idle(Some(commit_all));
    let r = fut::run(p.process_kern_request(kern_req(add, n)));
    claim!(P16, r.is_ok(), "a membership change is carried out");
    match log().at(3) {
        Some(x) => claim!(P16, x.cmd == c && x.this == clock(t, 3), "a membership change adds or removes exactly the server of the request"),
        None => claim!(P16, false, "a membership change is in the log"),
    }
    claim!(P16, lg::kern(rp::cl(&p)) == 3, "a membership change is acknowledged once it is committed");
    claim!(P16, log().inserts == 2, "a membership change is one entry");
    in_force(&p, want, 3);
    witness!(true, "changed");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_add() {
    request(true, 3, &[0, 1, 2, 3])
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_remove() {
    request(false, 2, &[0, 1])
}
/// The leader itself is to leave.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_remove_self() {
    request(false, 0, &[1, 2])
}
/// Somebody who is a member already.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_add_member() {
    request(true, 2, &[0, 1, 2])
}
fn blocked() {
    claim!(P16, false, "a membership change that is not carried out is refused");
}
fn waits() {
    let (commit, kern, _, _) = lg::ptrs(rp::cl(&me()));
    claim!(P16, commit >= 3, "a membership change waits for the one before it");
    claim!(P16, kern < 4, "a client does not wait for a committed membership change");
}
/// The preceding change may not be committed yet.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_pending() {
    let (node, p) = world(&[0, 1, 2]);
    let t = lead(&p);
    mm().p = Some(p.clone());
    log().put(t, t, 3, cfg_cmd(&[0, 1, 2, 3]));
    rp::join(&p, set(&[0, 1, 2, 3]), 3);
    let k = 1 + nd::below(3) as u64;
    lg::set_ptrs(rp::cl(&p), k, k, k);
    let c = cfg_cmd(&[0, 1, 2]);
    only(&[c, kern_bytes(false, 3)]);
    kenv::sched::set_block(Some(waits));
    witness!(true, "asked");
    let r = fut::run(p.process_kern_request(kern_req(false, 3)));
    // accepted requests wait; only refused ones get here
    claim!(P16, r.is_err(), "a membership change is acknowledged once it is committed");
    claim!(P16, log().last() == 3, "a refused membership change is not in the log");
    claim!(P16, k < 3, "a membership change is carried out");
    in_force(&p, &[0, 1, 2, 3], 3);
    witness!(k < 3, "refused");
    std::mem::forget((node, p));
}
/// Two changes are requested at the same time. The second is carried out while
/// the first is at its `at`-th scheduling point.
fn second() {
    let s = mm();
    if s.at == 0 && !s.ran {
        s.ran = true;
        let p = me();
        s.ok = fut::run(p.process_kern_request(kern_req(false, 2))).is_ok();
        std::mem::forget(p);
    }
    s.at = s.at.wrapping_sub(1);
}
fn two(at: u8) {
    let (node, p) = world(&[0, 1, 2]);
    lead(&p);
    mm().p = Some(p.clone());
    lg::set_ptrs(rp::cl(&p), 2, 2, 2);
    let (b, ab, a) = (cfg_cmd(&[0, 1]), cfg_cmd(&[0, 1, 3]), cfg_cmd(&[0, 1, 2, 3]));
    only(&[b, ab, a, kern_bytes(true, 3), kern_bytes(false, 2)]);
    kenv::sched::set_idle(Some(commit_all));
    kenv::sched::set_nested_idle(Some(commit_all));
    kenv::sched::set_interfere(Some(second));
    mm().at = at;
    witness!(true, "asked");
    let _ = fut::run(p.process_kern_request(kern_req(true, 3)));
    kenv::sched::set_interfere(None);
    let s = mm();
    if s.ran && s.ok {
        // one after the other
        if let (Some(x), Some(y)) = (log().at(3), log().at(4)) {
            let first_b = x.cmd == b && y.cmd == ab;
            let first_a = x.cmd == a && y.cmd == ab;
            claim!(P16, first_b || first_a, "consecutive configurations differ by one server");
        }
    }
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_two0() {
    two(0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_two1() {
    two(1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_two2() {
    two(2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_two3() {
    two(3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_two4() {
    two(4)
}
/// A follower; log: 1 snapshot {0,1,2}, 2 barrier.
fn follower() -> (RaftNode, Arc<RaftProcess>, u64) {
    let (node, p) = world(&[0, 1, 2]);
    let t = nd::u64();
    nd::assume(t < u64::MAX);
    log().put(0, t, 2, bar_cmd(7));
    bal().term = t;
    lg::set_ptrs(rp::cl(&p), 2, 2, 2);
    (node, p, t)
}
/// A configuration arrives from the leader.
fn arrives(m: &[u8]) {
    let (node, p, t) = follower();
    let c = cfg_cmd(m);
    only(&[c]);
    match deliver(&p, 1, clock(t, 2), [elem(El { on: true, this: clock(t, 3), cmd: c })]) {
        Ok((k, _)) => claim!(P16, k == 1, "a configuration is replicated like any entry"),
        Err(_) => claim!(P16, false, "a configuration is replicated like any entry"),
    }
    in_force(&p, m, 3);
    witness!(true, "arrived");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_follower_add() {
    arrives(&[0, 1, 2, 3])
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_follower_remove() {
    arrives(&[0, 1])
}
/// A configuration that does not follow the log does not take effect.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_refused() {
    let (node, p, t) = follower();
    let c = cfg_cmd(&[0, 1]);
    only(&[c]);
    let prev = clock(nd::u64(), nd::upto(4));
    nd::assume(prev != clock(t, 2) && prev != clock(0, 1));
    match deliver(&p, 1, prev, [elem(El { on: true, this: clock(t, prev.index + 1), cmd: c })]) {
        Ok((k, _)) => claim!(P10, k == 0, "entries that do not follow the log are refused"),
        Err(_) => {}
    }
    in_force(&p, &[0, 1, 2], 1);
    witness!(true, "refused");
    std::mem::forget((node, p));
}
/// A configuration that was not committed is replaced by an entry of a later leader.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_replaced() {
    let (node, p, t) = follower();
    let c = cfg_cmd(&[0, 1, 2, 3]);
    let b = bar_cmd(7);
    log().put(t, t, 3, c);
    rp::join(&p, set(&[0, 1, 2, 3]), 3);
    only(&[b, snap_cmd(&[0, 1, 2])]);
    let t2 = nd::u64();
    nd::assume(t2 > t);
    match deliver(&p, 1, clock(t, 2), [elem(El { on: true, this: clock(t2, 3), cmd: b })]) {
        Ok((k, _)) => claim!(P10, k == 1, "an entry that follows the log is accepted"),
        Err(_) => claim!(P10, false, "an entry that follows the log is accepted"),
    }
    in_force(&p, &[0, 1, 2], 1);
    witness!(true, "replaced");
    std::mem::forget((node, p));
}
/// The leader's snapshot is older than the last configuration of the follower.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_old_snapshot() {
    let (node, p, t) = follower();
    let b = bar_cmd(7);
    log().put(t, t, 3, b);
    log().put(t, t, 4, cfg_cmd(&[0, 1]));
    rp::join(&p, set(&[0, 1]), 4);
    lg::set_ptrs(rp::cl(&p), 4, 4, 4);
    let s = snap_cmd(&[0, 1, 2]);
    only(&[s]);
    unsafe { raft::knet::GET_SNAPSHOT.1 = Some(get_snapshot) };
    let _ = deliver(&p, 1, clock(0, 0), [elem(El { on: true, this: clock(t, 3), cmd: s })]);
    in_force(&p, &[0, 1], 4);
    witness!(true, "arrived");
    std::mem::forget((node, p));
}
fn get_snapshot(_: u8, _: raft::GetSnapshotRequest) -> Option<tonic::Streaming<raft::SnapshotChunk>> {
    Some(kenv::tonic_m::fixed([Ok(raft::SnapshotChunk { data: Bytes::copy_from_slice(&[1]).into() })]))
}
/// A node that is in no cluster is told to found one, or to add somebody else.
fn found(n: u8) {
    let (node, p) = boot();
    only(&[snap_cmd(&[0]), kern_bytes(true, n)]);
    unsafe { raft::knet::SEND_TIMEOUT_NOW.1 = Some(timeout_now) };
    let ok = fut::run(p.add_server(request::AddServer { server_id: nid(n) })).is_ok();
    if n == ME {
        claim!(P16, ok, "a node founds a cluster");
        match log().at(1) {
            Some(x) => claim!(P16, x.cmd == snap_cmd(&[0]) && x.this == clock(0, 1) && log().inserts == 1, "the founder is the only member"),
            None => claim!(P16, false, "the founder is the only member"),
        }
        in_force(&p, &[0], 1);
        claim!(P16, mm().sent == 1 && mm().dest == ME, "the founder becomes leader");
    } else {
        claim!(P16, !ok && log().inserts == 0, "only the founder itself starts a cluster");
        claim!(P16, rp::n_members(&p) == 0, "only the founder itself starts a cluster");
    }
    witness!(true, "asked");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_found() {
    found(ME)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p16_found_other() {
    found(1)
}
fn timeout_now(dest: u8, r: raft::TimeoutNow) -> Option<()> {
    let s = mm();
    s.sent += 1;
    s.dest = dest;
    if r.shard_id == SHARD {
        s.node = dest;
    }
    if let Some(p) = &s.p {
        s.state = Some(is_leader(rp::voter(p).read_election_state()));
    }
    Some(())
}

// ---------------------------------------------------------------- P18
/// The configuration without (or with) the node is entry 3 of its log.
fn leaving(m: &[u8]) {
    let (node, p) = world(&[0, 1, 2]);
    let t = nd::u64();
    log().put(0, t, 2, bar_cmd(7));
    log().put(t, t, 3, cfg_cmd(m));
    log().put(t, t, 4, bar_cmd(7));
    rp::join(&p, set(m), 3);
    mm().p = Some(p.clone());
    only(&[cfg_cmd(m)]);
    let gone = m[0] != ME;
    let e = nd_state();
    rp::voter(&p).write_election_state(e);
    let c = nd::upto(4);
    lg::set_ptrs(rp::cl(&p), c, 0, 0);
    let (m1, m2) = (nd::upto(4), nd::upto(4));
    rp::set_progress(&p, 1, m1, m1 + 1, 1);
    rp::set_progress(&p, 2, m2, m2 + 1, 1);
    bal().term = t;
    unsafe { raft::knet::SEND_TIMEOUT_NOW.1 = Some(timeout_now) };
    let _ = fut::run(rp::voter(&p).try_stepdown());
    let s = mm();
    let now = rp::voter(&p).read_election_state();
    if is_leader(e) && gone && c >= 3 {
        claim!(P18, is_follower(now), "a leader that has been removed resigns");
        claim!(P18, s.sent == 1 && (s.dest == 1 || s.dest == 2), "a leader that resigns tells a member to take over");
        claim!(P18, s.node == s.dest, "the member is told for the right shard");
        claim!(P18, if s.dest == 1 { m1 >= m2 } else { m2 >= m1 }, "the member that takes over has the most complete log");
        claim!(P18, s.state == Some(false), "a leader resigns before another takes over");
        witness!(true, "resigned");
    } else {
        claim!(P18, same_state(now, e) && s.sent == 0, "a leader resigns only if it has been removed and that is committed");
        witness!(is_leader(e), "stays");
    }
    claim!(P18, bal().saves == 0 && log().inserts == 0 && bal().term == t, "resigning changes neither log nor ballot");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p18_removed() {
    leaving(&[1, 2])
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p18_member() {
    leaving(&[0, 1, 2])
}
/// A member is told to take over: it asks for (forced) votes at once, even if it
/// has a live leader.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p18_take_over() {
    let (node, p) = world(&[0, 1, 2]);
    let t = nd::u64();
    nd::assume(t < u64::MAX);
    bal().term = t;
    bal().vote = Some(2);
    suspect(false);
    unsafe { raft::knet::REQUEST_VOTE.1 = Some(forced) };
    let _ = fut::run(p.send_timeout_now());
    claim!(P18, mm().sent >= 1, "a node that is told to take over asks for votes");
    claim!(P18, bal().term == t + 1, "a node that takes over starts a term of its own");
    witness!(true, "told");
    std::mem::forget((node, p));
}
fn forced(_: u8, r: raft::VoteRequest) -> Option<raft::VoteResponse> {
    mm().sent += 1;
    claim!(P18, r.force_vote, "the votes of a transfer are given in spite of a live leader");
    Some(raft::VoteResponse { vote_granted: true })
}

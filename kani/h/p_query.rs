//! Reads (P24) and requests that reach a node which is not the leader (P25).
use super::hs::*;
use crate::process::query_queue::kh as qq;
use crate::raft;

struct Q {
    p: Option<Arc<RaftProcess>>,
    /// commit position when the request arrived
    c0: u64,
    execs: u8,
    ran: [bool; 4],
    applied: u64,
    sent: u8,
    dest: u8,
    ok: bool,
    safe: bool,
    fail: bool,
}
kenv::gstatic! { ST: Q = Q { p: None, c0: 0, execs: 0, ran: [false; 4], applied: 0, sent: 0, dest: 0, ok: false, safe: false, fail: false }; }
fn st() -> &'static mut Q {
    unsafe { &mut *std::ptr::addr_of_mut!(ST.1) }
}
fn app_fail() -> bool {
    let f = nd::bool();
    st().fail |= f;
    f
}
type Rx = oneshot::Receiver<Bytes>;
fn ask(q: &query_queue::Producer, i: u64, m: u8) -> Rx {
    let (c, rx) = completion::prepare_user_completion();
    if q.register(i, query_queue::Query { message: Bytes::copy_from_slice(&[m]), user_completion: c }).is_err() {
        panic!("KENV: register")
    }
    rx
}
fn saw(m: &[u8]) {
    let s = st();
    let k = if m.len() == 1 { m[0] } else { 0 };
    if k < 4 {
        claim!(P24, !s.ran[k as usize], "a read is executed once");
        s.ran[k as usize] = true;
    }
    s.execs += 1;
}
fn answered(rx: &mut Rx, m: u8) -> bool {
    match rx.try_recv() {
        Ok(x) => {
            claim!(P24, x.len == 1 && x.b[0] == m, "a client gets the response to its own read");
            true
        }
        Err(_) => false,
    }
}
/// Reads wait until the application has caught up.
fn queue(u: u64) {
    let a = App::new(AppM);
    let (q, px) = query_queue::new(Ref(a));
    app().on_read = Some(saw);
    let mut r1 = ask(&q, 2, 1);
    let mut r2 = ask(&q, 3, 2);
    let mut r3 = ask(&q, 3, 3);
    let _ = fut::run(px.process(u));
    let s = st();
    claim!(P24, s.ran[1] == (u >= 2), "a read is executed once the application has reached its index, not before");
    claim!(P24, s.ran[2] == (u >= 3) && s.ran[3] == (u >= 3), "a read is executed once the application has reached its index, not before");
    claim!(P24, answered(&mut r1, 1) == (u >= 2), "an executed read is answered");
    claim!(P24, answered(&mut r2, 2) == (u >= 3), "an executed read is answered");
    claim!(P24, answered(&mut r3, 3) == (u >= 3), "an executed read is answered");
    witness!(s.execs == if u < 2 { 0 } else if u < 3 { 1 } else { 3 }, "processed");
    std::mem::forget((q, px, r1, r2, r3));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p24_queue1() {
    queue(1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p24_queue2() {
    queue(2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p24_queue3() {
    queue(3)
}
/// The application fails: the client learns it, later reads are not affected.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p24_failed() {
    let a = App::new(AppM);
    let (q, px) = query_queue::new(Ref(a));
    app().on_read = Some(saw);
    app().fail = Some(app_fail);
    let mut r1 = ask(&q, 2, 1);
    let mut r2 = ask(&q, 3, 2);
    let _ = fut::run(px.process(2));
    let s = st();
    claim!(P24, s.ran[1] && !s.ran[2], "a read is executed once the application has reached its index, not before");
    let got = answered(&mut r1, 1);
    claim!(P24, got != s.fail, "a read is answered if and only if the application could execute it");
    claim!(P24, got || r1.is_abandoned(), "the client of a failed read is told");
    claim!(P24, !r2.is_full() && !r2.is_abandoned(), "other reads keep waiting");
    witness!(got, "answered");
    witness!(!got, "failed");
    std::mem::forget((q, px, r1, r2));
}
fn me() -> Arc<RaftProcess> {
    match &st().p {
        Some(p) => p.clone(),
        None => panic!("KENV"),
    }
}
fn on_read(_: &[u8]) {
    let s = st();
    s.execs += 1;
    claim!(P24, s.applied >= s.c0, "a read sees everything committed before it arrived");
}
/// The application moves on, then the waiting reads are processed.
fn go_on() {
    let s = st();
    let p = me();
    if s.execs == 0 {
        rp::cl(&p).user_pointer.store(s.applied, SC);
        let px = qq::processor(&rp::query_tx(&p), lg::app(rp::cl(&p)));
        let _ = fut::run(px.process(s.applied));
        std::mem::forget(px);
    }
    std::mem::forget(p);
}
fn stuck() {
    let s = st();
    claim!(P24, s.applied < s.c0, "a read is answered once the application has caught up");
}
/// A read at the leader.
fn leader(applied: u64) {
    let (node, p) = world(&[0, 1, 2]);
    let s = st();
    let t = nd::u64();
    bal().term = t;
    bal().vote = Some(ME);
    rp::voter(&p).write_election_state(ElectionState::Leader);
    let sf = nd::u64();
    safe_term(&p, sf);
    s.safe = sf == t;
    s.c0 = 3;
    let u0 = 1 + nd::below(3) as u64;
    nd::assume(u0 <= applied);
    lg::set_ptrs(rp::cl(&p), s.c0, s.c0, u0);
    s.applied = applied;
    s.p = Some(p.clone());
    app().on_read = Some(on_read);
    kenv::sched::set_idle(Some(go_on));
    kenv::sched::set_block(Some(stuck));
    witness!(s.safe, "a read at a leader");
    let r = fut::run(p.process_user_read_request(request::UserReadRequest { message: Bytes::copy_from_slice(&[7]) }));
    match r {
        Ok(x) => {
            claim!(P24, s.safe, "a leader answers reads only after the barrier of its term is committed");
            claim!(P24, s.execs == 1, "a read is executed once");
            claim!(P24, x.len == 1 && x.b[0] == 7, "a client gets the response to its own read");
            claim!(P24.unconfirmed, s.sent > 0, "a leader makes sure that it has not been deposed before it answers a read");
        }
        Err(_) => {
            claim!(P24, !s.safe, "a leader answers reads");
            witness!(!s.safe, "refused");
        }
    }
    claim!(P24, log().inserts == 0 && bal().saves == 0 && app().writes == 0, "a read changes nothing");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p24_leader_waits() {
    leader(2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p24_leader() {
    leader(3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p24_leader_ahead() {
    leader(4)
}

// ---------------------------------------------------------------- P25
fn fw_write(dest: u8, r: raft::WriteRequest) -> Option<raft::Response> {
    let s = st();
    s.sent += 1;
    s.dest = dest;
    claim!(P25, r.shard_id == SHARD, "a forwarded request keeps its shard");
    claim!(P25, r.message.len == 1 && r.message.b[0] == 9 && r.request_id.len() == 1 && r.request_id.as_bytes()[0] == b'a', "a forwarded request keeps contents and identity");
    reply()
}
fn fw_read(dest: u8, r: raft::ReadRequest) -> Option<raft::Response> {
    let s = st();
    s.sent += 1;
    s.dest = dest;
    claim!(P25, r.shard_id == SHARD, "a forwarded request keeps its shard");
    claim!(P25, r.message.len == 1 && r.message.b[0] == 9, "a forwarded request keeps contents and identity");
    reply()
}
fn fw_kern(dest: u8, r: raft::KernRequest) -> Option<()> {
    let s = st();
    s.sent += 1;
    s.dest = dest;
    claim!(P25, r.shard_id == SHARD, "a forwarded request keeps its shard");
    claim!(P25, r.message.len == kern_msg().len && r.message.b == kern_msg().b, "a forwarded request keeps contents and identity");
    match reply() {
        Some(_) => Some(()),
        None => None,
    }
}
fn reply() -> Option<raft::Response> {
    let s = st();
    s.ok = nd::bool();
    if s.ok {
        Some(raft::Response { message: Bytes::copy_from_slice(&[5]) })
    } else {
        None
    }
}
fn kern_msg() -> Bytes {
    kern_message::KernRequest::AddServer(nid(3)).serialize()
}
/// The node is not the leader; any ballot.
fn not_leader(e: ElectionState) -> (RaftNode, Arc<RaftProcess>, Option<u8>) {
    let (node, p) = world(&[0, 1, 2]);
    let (_, v) = nd_ballot(3);
    rp::voter(&p).write_election_state(e);
    (node, p, v)
}
fn routed(v: Option<u8>, ok: bool) {
    let s = st();
    match v {
        None => claim!(P25, s.sent == 0 && !ok, "without a known leader a request fails"),
        Some(ME) => claim!(P25, s.sent == 0 && !ok, "a node that is not leader does not send a request to itself"),
        Some(l) => {
            claim!(P25, s.sent == 1 && s.dest == l, "a request is passed once, to the leader the node knows");
            claim!(P25, ok == s.ok, "the client gets the leader's answer");
            witness!(ok, "forwarded");
        }
    }
    witness!(v.is_none(), "no leader");
    claim!(P25, log().inserts == 0 && bal().saves == 0 && app().writes == 0 && app().reads == 0, "a node that is not leader does not handle requests itself");
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p25_write() {
    fwd_write(ElectionState::Follower)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p25_write_candidate() {
    fwd_write(ElectionState::Candidate)
}
fn fwd_write(e: ElectionState) {
    let (node, p, v) = not_leader(e);
    unsafe { raft::knet::WRITE.1 = Some(fw_write) }
    let r = fut::run(p.process_user_write_request(request::UserWriteRequest {
        message: Bytes::copy_from_slice(&[9]),
        request_id: "a".to_string(),
    }));
    let ok = match r {
        Ok(x) => {
            claim!(P25, x.len == 1 && x.b[0] == 5, "the client gets the leader's answer");
            true
        }
        Err(_) => false,
    };
    routed(v, ok);
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p25_read() {
    fwd_read(ElectionState::Follower)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p25_read_candidate() {
    fwd_read(ElectionState::Candidate)
}
fn fwd_read(e: ElectionState) {
    let (node, p, v) = not_leader(e);
    unsafe { raft::knet::READ.1 = Some(fw_read) }
    let r = fut::run(p.process_user_read_request(request::UserReadRequest { message: Bytes::copy_from_slice(&[9]) }));
    let ok = match r {
        Ok(x) => {
            claim!(P25, x.len == 1 && x.b[0] == 5, "the client gets the leader's answer");
            true
        }
        Err(_) => false,
    };
    routed(v, ok);
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p25_config() {
    fwd_config(ElectionState::Follower)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p25_config_candidate() {
    fwd_config(ElectionState::Candidate)
}
fn fwd_config(e: ElectionState) {
    let (node, p, v) = not_leader(e);
    unsafe { raft::knet::PROCESS_KERN_REQUEST.1 = Some(fw_kern) }
    let ok = fut::run(p.process_kern_request(request::KernRequest { message: kern_msg() })).is_ok();
    routed(v, ok);
    std::mem::forget((node, p));
}

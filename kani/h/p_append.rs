//! What a leader appends to its log (P11).
use super::hs::*;
use crate::raft;

struct A {
    p: Option<Arc<RaftProcess>>,
    /// term the node leads at first; term of the other leader
    t1: u64,
    t2: u64,
    /// what the other leader does
    ran: bool,
    done: bool,
    applied: bool,
    ins: bool,
    safe: bool,
    /// index and command of the other leader's entry
    idx: u64,
    cmd: Bytes,
    /// the other leader acts at this scheduling point
    at: u8,
}
kenv::gstatic! { ST: A = A { p: None, t1: 0, t2: 0, ran: false, done: false, applied: false, ins: false, safe: false, idx: 3, cmd: Bytes::new(), at: 0 }; }
fn st() -> &'static mut A {
    unsafe { &mut *std::ptr::addr_of_mut!(ST.1) }
}
/// Make the node leader of term `t1`: log 1 = snapshot, 2 = its barrier.
pub fn lead(p: &Arc<RaftProcess>) -> u64 {
    let t1 = nd::u64();
    nd::assume(t1 >= 1 && t1 < u64::MAX);
    lead_in(p, t1)
}
fn lead_in(p: &Arc<RaftProcess>, t1: u64) -> u64 {
    bal().term = t1;
    bal().vote = Some(ME);
    let bar = bar_cmd(7);
    match fut::run(rp::cl(p).append_new_entry(bar, Some(t1), None)) {
        Ok(i) => claim!(P11, i == 2, "an appended entry goes to the end of the log"),
        Err(_) => panic!("KENV: barrier"),
    }
    rp::voter(p).write_election_state(ElectionState::Leader);
    safe_term(p, t1);
    st().t1 = t1;
    st().p = Some(p.clone());
    witness!(true, "a leader");
    t1
}
/// Another node has become leader of a later term.
fn rival() {
    let s = st();
    if s.at == 0 {
        s.ran = true;
        depose();
    }
    s.at = s.at.wrapping_sub(1);
}
fn depose() {
    let s = st();
    let p = match &s.p {
        Some(p) => p.clone(),
        None => panic!("KENV"),
    };
    rp::voter(&p).write_election_state(ElectionState::Follower);
    bal().term = s.t2;
    bal().vote = Some(1);
    if s.ins {
        let e = Entry { prev_clock: clock(s.t1, s.idx - 1), this_clock: clock(s.t2, s.idx), command: s.cmd };
        match fut::run(rp::cl(&p).try_insert_entry(e, nid(1), driver(&p))) {
            Ok(command_log::TryInsertResult::Inserted) => s.done = true,
            Ok(_) => {}
            Err(_) => panic!("KENV: insert"),
        }
        if s.safe {
            safe_term(&p, s.t2);
        }
    }
    std::mem::forget(p);
}
fn driver(p: &RaftProcess) -> RaftDriver {
    rp::driver(p)
}
/// No entry but those of the other leader has its term; entries are chained.
fn check() {
    let s = st();
    if s.done {
        match log().at(s.idx) {
            Some(x) => claim!(P11, x.this.term == s.t2, "a deposed node does not overwrite the new leader's entry"),
            None => claim!(P11, false, "a deposed node does not overwrite the new leader's entry"),
        }
    }
    let mut i = 2;
    while i <= 5 {
        if let Some(x) = log().at(i) {
            let theirs = i == s.idx && s.ran && s.ins;
            claim!(P11, theirs || x.this.term == s.t1, "an entry a node appends carries the term the node leads");
            claim!(P11, x.this.index == i, "an appended entry goes to the end of the log");
            if let Some(y) = log().at(i - 1) {
                claim!(P11, x.prev == y.this, "an appended entry is chained to the entry before it");
            } else {
                claim!(P11, false, "appending leaves no gap in the log");
            }
            claim!(P11, x.this.term >= x.prev.term, "terms in a log do not decrease");
        }
        i += 1;
    }
}
fn blocked_check() {
    let s = st();
    check();
    if !s.ran {
        claim!(P11, log().last() == 3, "a leader appends a request to its log");
    }
}
/// A client write races with the end of the leadership.
fn race(at: u8) {
    let (node, p) = world(&[0, 1, 2]);
    let t1 = lead(&p);
    let s = st();
    s.t2 = nd::u64();
    nd::assume(s.t2 > t1);
    s.ins = true;
    s.safe = true;
    s.at = at;
    let e = exec_cmd(&[9], "a");
    only(&[e]);
    s.cmd = e;
    kenv::sched::set_interfere(Some(rival));
    kenv::sched::set_block(Some(blocked_check));
    let _ = fut::run(p.process_user_write_request(request::UserWriteRequest {
        message: Bytes::copy_from_slice(&[9]),
        request_id: "a".to_string(),
    }));
    kenv::sched::set_interfere(None);
    check();
    claim!(P11, s.ran, "a leader appends a request to its log");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_race0() {
    race(0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_race1() {
    race(1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_race2() {
    race(2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_race3() {
    race(3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_race4() {
    race(4)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_race5() {
    race(5)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_race6() {
    race(6)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_race7() {
    race(7)
}
/// The request of log entry 3 is applied and answered, and the leader notes that
/// in its log, while another node has become leader and written its first entry.
fn complete(at: u8) {
    let (node, p) = world(&[0, 1, 2]);
    let t1 = lead(&p);
    let s = st();
    s.t2 = nd::u64();
    nd::assume(s.t2 > t1);
    s.ins = true;
    s.cmd = bar_cmd(7);
    s.idx = 4;
    s.at = at;
    let e = exec_cmd(&[9], "a");
    only(&[e, done_cmd("a"), s.cmd]);
    match fut::run(rp::cl(&p).append_new_entry(e, None, None)) {
        Ok(i) => claim!(P11, i == 3, "an appended entry goes to the end of the log"),
        Err(_) => claim!(P11, false, "a leader appends a request to its log"),
    }
    let (c, rx) = completion::prepare_user_completion();
    rp::cl(&p).register_completion(3, Completion::User(c));
    lg::set_ptrs(rp::cl(&p), 3, 3, 2);
    if at == 255 {
        s.ran = true;
        depose();
    } else {
        kenv::sched::set_interfere(Some(rival));
    }
    let _ = fut::run(rp::cl(&p).advance_user_process(lg::app(rp::cl(&p))));
    kenv::sched::set_interfere(None);
    check();
    std::mem::forget((node, p, rx));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_complete() {
    complete(255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_complete0() {
    complete(0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_complete1() {
    complete(1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_complete2() {
    complete(2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_complete3() {
    complete(3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p11_complete4() {
    complete(4)
}

// ---------------------------------------------------------------- P23
/// Everything in the log is committed and applied.
fn apply_all() {
    let s = st();
    let p = match &s.p {
        Some(p) => p.clone(),
        None => panic!("KENV"),
    };
    let n = log().last();
    if n == 3 {
        lg::set_ptrs(rp::cl(&p), 3, 3, 2);
        let ok = fut::run(rp::cl(&p).advance_user_process(lg::app(rp::cl(&p)))).is_ok();
        claim!(P23, ok, "a committed request is applied");
        s.applied = true;
    }
    std::mem::forget(p);
}
/// the task that commits and applies is as fast as it can be
fn fast() {
    let s = st();
    if s.at == 0 && !s.applied {
        apply_all();
    }
    s.at = s.at.wrapping_sub(1);
}
fn idle_apply() {
    if !st().applied {
        apply_all();
    }
}
fn p23_blocked() {
    claim!(P23, !st().applied, "a client does not wait for an entry that has been applied or replaced");
}
fn client_write(rival_at: u8, fast_at: u8) {
    let (node, p) = world(&[0, 1, 2]);
    let t1 = lead(&p);
    let s = st();
    s.t2 = nd::u64();
    nd::assume(s.t2 > t1);
    s.ins = true;
    s.safe = true;
    s.cmd = bar_cmd(7);
    let e = exec_cmd(&[9], "a");
    if rival_at < 255 {
        only(&[e, s.cmd, done_cmd("a")]);
    } else {
        only(&[e, done_cmd("a")]);
    }
    lg::set_ptrs(rp::cl(&p), 2, 2, 2);
    kenv::sched::set_idle(Some(idle_apply));
    if rival_at < 255 {
        s.at = rival_at;
        kenv::sched::set_interfere(Some(rival));
    } else if fast_at < 255 {
        s.at = fast_at;
        kenv::sched::set_interfere(Some(fast));
    }
    kenv::sched::set_idle(Some(idle_apply));
    kenv::sched::set_block(Some(p23_blocked));
    let r = fut::run(p.process_user_write_request(request::UserWriteRequest {
        message: Bytes::copy_from_slice(&[9]),
        request_id: "a".to_string(),
    }));
    match r {
        Ok(x) => {
            claim!(P23, x.len == 2 && x.b[0] == 3 && x.b[1] == 9, "a client gets the response to its own request");
            claim!(P23, app().writes == 1 && app().last_write == (3, 9), "a response is given only for a request that was executed");
        }
        Err(_) => {
            claim!(P23, s.ran, "a request to a leader is executed");
        }
    }
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_write() {
    client_write(255, 255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_rival0() {
    client_write(0, 255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_rival1() {
    client_write(1, 255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_rival2() {
    client_write(2, 255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_rival3() {
    client_write(3, 255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_rival4() {
    client_write(4, 255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_rival5() {
    client_write(5, 255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_rival6() {
    client_write(6, 255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_rival7() {
    client_write(7, 255)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_fast2() {
    client_write(255, 2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_fast3() {
    client_write(255, 3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_fast4() {
    client_write(255, 4)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_fast5() {
    client_write(255, 5)
}
/// A client waits for entry 3; a new leader replaces the entry.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p23_replaced() {
    let (node, p) = world(&[0, 1, 2]);
    let t1 = lead_in(&p, 3);
    let s = st();
    s.t2 = 5;
    let e = exec_cmd(&[9], "a");
    let e2 = exec_cmd(&[8], "b");
    only(&[e2, done_cmd("b")]);
    match fut::run(rp::cl(&p).append_new_entry(e, None, None)) {
        Ok(i) => claim!(P11, i == 3, "an appended entry goes to the end of the log"),
        Err(_) => claim!(P11, false, "a leader appends a request to its log"),
    }
    let (c, mut rx) = completion::prepare_user_completion();
    rp::cl(&p).register_completion(3, Completion::User(c));
    rp::voter(&p).write_election_state(ElectionState::Follower);
    bal().term = s.t2;
    lg::set_ptrs(rp::cl(&p), 2, 2, 2);
    let e = Entry { prev_clock: clock(t1, 2), this_clock: clock(s.t2, 3), command: e2 };
    let r = fut::run(rp::cl(&p).try_insert_entry(e, nid(1), driver(&p)));
    kenv::sched::set_interfere(None);
    claim!(P10, matches!(r, Ok(command_log::TryInsertResult::Inserted)), "an entry of the new leader is accepted");
    claim!(P23, !rx.is_full(), "a client does not get the response to the request that replaced its own");
    claim!(P23, rx.is_abandoned(), "a client whose request was replaced is told");
    std::mem::forget((node, p, rx));
}

//! Application of committed entries (P21), exactly-once execution (P22).
use super::hs::*;

struct A {
    /// writes seen by the application, in order: index, first byte
    w: [(u64, u8); 4],
    n: usize,
    fails: u8,
}
kenv::gstatic! { ST: A = A { w: [(0, 0); 4], n: 0, fails: 0 }; }
fn st() -> &'static mut A {
    unsafe { &mut *std::ptr::addr_of_mut!(ST.1) }
}
fn on_write(i: u64, m: &[u8]) {
    let s = st();
    if s.n < 4 {
        s.w[s.n] = (i, if m.len() == 1 { m[0] } else { 255 });
    }
    s.n += 1;
}
fn flaky() -> bool {
    let f = nd::bool();
    if f {
        st().fails += 1;
    }
    f
}
fn always_fail() -> bool {
    true
}
fn step(p: &Arc<RaftProcess>) -> bool {
    fut::run(rp::cl(p).advance_user_process(lg::app(rp::cl(p)))).is_ok()
}
fn kstep(p: &Arc<RaftProcess>) -> bool {
    fut::run(rp::cl(p).advance_kern_process(rp::voter(p).clone())).is_ok()
}
fn start() -> (RaftNode, Arc<RaftProcess>) {
    let (node, p) = world(&[0, 1, 2]);
    app().on_write = Some(on_write);
    (node, p)
}
fn put(i: u64, c: Bytes) {
    log().put(1, 1, i, c)
}
/// One application step at user position 1 for the entry `c` at 2; the kernel
/// position is anything from 1 to 3.
fn one(c: Bytes, write: bool, install: bool) {
    let (node, p) = start();
    only(&[c]);
    put(2, c);
    put(3, c);
    let k = 1 + nd::below(3) as u64;
    lg::set_ptrs(rp::cl(&p), 3, k, 1);
    app().fail = Some(flaky);
    let ok = step(&p);
    let s = st();
    let (commit, kern, user, _) = lg::ptrs(rp::cl(&p));
    claim!(P21, commit == 3 && kern == k, "applying moves nothing but the applied position");
    claim!(P21, user == 1 || user == 2, "applying proceeds entry by entry");
    claim!(P21, user <= kern, "nothing is applied before it is committed");
    claim!(P21, ok == (user == 2), "the applied position moves if and only if applying succeeded");
    if k == 1 {
        claim!(P21, !ok && s.n == 0 && app().installs == 0 && s.fails == 0, "nothing is applied before it is committed");
    } else if s.fails == 0 {
        claim!(P21, ok, "a committed entry is applied");
        claim!(P21, s.n == write as usize, "a write is applied exactly once and nothing else is");
        if write {
            claim!(P21, s.w[0] == (2, 9), "the application gets the request and the index of the entry");
        }
        claim!(P21, app().installs == install as u64, "a snapshot is installed when its entry is applied");
        if install {
            claim!(P21, app().last_install == 2, "the snapshot of the entry is installed");
        }
    } else {
        claim!(P21, !ok && s.n == 0, "a failed entry is not skipped");
    }
    witness!(ok, "applied");
    witness!(!ok && k == 1, "nothing to apply");
    witness!(log().inserts == 0, "log untouched");
    claim!(P21, log().inserts == 0 && log().deletes == 0, "applying without a waiting client does not touch the log");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p21_exec() {
    one(exec_cmd(&[9], "a"), true, false)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p21_done() {
    one(done_cmd("a"), false, false)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p21_barrier() {
    one(bar_cmd(5), false, false)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p21_config() {
    one(cfg_cmd(&[0, 1]), false, false)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p21_snapshot() {
    one(snap_cmd(&[0, 1, 2]), false, true)
}
/// The entries of a log are applied in order, each once, also when the
/// application or the store fails in between.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p21_order() {
    let (node, p) = start();
    let (a, b) = (exec_cmd(&[9], "a"), exec_cmd(&[8], "b"));
    only(&[a, b, bar_cmd(5)]);
    put(2, a);
    put(3, bar_cmd(5));
    put(4, b);
    lg::set_ptrs(rp::cl(&p), 4, 4, 1);
    // the first attempt fails
    app().fail = Some(always_fail);
    claim!(P21, !step(&p), "a failed entry is not skipped");
    app().fail = None;
    claim!(P21, step(&p) && step(&p) && step(&p), "a failed entry is retried");
    claim!(P21, !step(&p), "nothing is applied before it is committed");
    let s = st();
    claim!(P21, s.n == 2 && s.w[0] == (2, 9) && s.w[1] == (4, 8), "writes are applied in log order, each once");
    witness!(s.n == 2, "both applied");
    std::mem::forget((node, p));
}
/// The kernel part: a committed barrier opens the leader for requests.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p21_kern() {
    let (node, p) = start();
    let t = nd::u64();
    let c = bar_cmd(t);
    put(2, c);
    let k = 1 + nd::below(2) as u64;
    lg::set_ptrs(rp::cl(&p), k, 1, 1);
    bal().term = nd::u64();
    safe_term(&p, 0);
    let ok = kstep(&p);
    let (commit, kern, user, _) = lg::ptrs(rp::cl(&p));
    claim!(P21, commit == k && user == 1 && kern <= commit, "nothing is processed before it is committed");
    claim!(P21, ok == (k == 2) && kern == k, "a committed entry is processed");
    let open = match fut::run(rp::voter(&p).allow_queue_new_entry()) {
        Ok(x) => x,
        Err(_) => panic!("KENV"),
    };
    claim!(P07, open == (bal().term == if k == 2 { t } else { 0 }), "requests are taken once the barrier of the current term is committed");
    witness!(ok && open, "opened");
    witness!(!ok, "not committed");
    std::mem::forget((node, p));
}

type Rx = oneshot::Receiver<Bytes>;
fn wait(p: &Arc<RaftProcess>, i: u64) -> Rx {
    let (c, rx) = completion::prepare_user_completion();
    rp::cl(p).register_completion(i, Completion::User(c));
    rx
}
/// the client got the response of the write applied at `i` with request byte `b`
fn got(rx: &mut Rx, i: u8, b: u8) -> bool {
    match rx.try_recv() {
        Ok(x) => x.len == 2 && x.b[0] == i && x.b[1] == b,
        Err(_) => false,
    }
}
fn all(p: &Arc<RaftProcess>, to: u64) {
    lg::set_ptrs(rp::cl(p), to, to, 1);
    let mut i = 1;
    while i < to {
        claim!(P21, step(p), "a committed entry is applied");
        i += 1;
    }
}
/// A request that is in the log twice is executed once; every client that waits
/// gets the response of that execution.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p22_retry_leader() {
    let (node, p) = start();
    let a = exec_cmd(&[9], "a");
    let bar = bar_cmd(1);
    only(&[a, done_cmd("a"), bar]);
    // the node becomes the leader of term 1
    match fut::run(rp::cl(&p).append_new_entry(bar, Some(1), None)) {
        Ok(2) => {}
        _ => panic!("KENV"),
    }
    put(3, a);
    put(4, a);
    let n = log().inserts;
    let mut r1 = wait(&p, 3);
    let mut r2 = wait(&p, 4);
    all(&p, 4);
    claim!(P22, st().n == 1, "a retried request is executed once");
    claim!(P23, got(&mut r1, 3, 9), "a client gets the response to its request");
    claim!(P22, got(&mut r2, 3, 9), "a retry gets the response of the execution");
    claim!(P22, log().inserts > n, "the end of a request is recorded in the log");
    witness!(st().n == 1, "executed");
    std::mem::forget((node, p, r1, r2));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p22_retry_follower() {
    let (node, p) = start();
    let a = exec_cmd(&[9], "a");
    let d = done_cmd("a");
    only(&[a, d]);
    put(2, a);
    put(3, a);
    put(4, d);
    put(5, a);
    all(&p, 5);
    claim!(P22, st().n == 1 && st().w[0] == (2, 9), "a retried request is executed once, at its first entry");
    witness!(st().n == 1, "executed");
    std::mem::forget((node, p));
}
/// The client was gone when its request was executed; it comes back.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p22_client_gone() {
    let (node, p) = start();
    let a = exec_cmd(&[9], "a");
    only(&[a, done_cmd("a")]);
    put(2, a);
    put(3, a);
    drop(wait(&p, 2));
    let mut r2 = wait(&p, 3);
    all(&p, 3);
    claim!(P22, st().n == 1, "a retried request is executed once");
    claim!(P22, got(&mut r2, 2, 9), "a retry gets the response of the execution");
    witness!(st().n == 1, "executed");
    std::mem::forget((node, p, r2));
}
/// The execution failed; nobody is answered before it has succeeded.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p22_failed() {
    let (node, p) = start();
    let a = exec_cmd(&[9], "a");
    only(&[a, done_cmd("a")]);
    put(2, a);
    let mut r = wait(&p, 2);
    lg::set_ptrs(rp::cl(&p), 2, 2, 1);
    app().fail = Some(always_fail);
    claim!(P21, !step(&p), "a failed entry is not skipped");
    claim!(P23, !r.is_full() && !r.is_abandoned(), "no response before the request is executed");
    app().fail = None;
    claim!(P21, step(&p), "a failed entry is retried");
    claim!(P22, st().n == 1, "a request whose execution failed is executed");
    claim!(P23, got(&mut r, 2, 9), "a client gets the response to its request");
    witness!(st().n == 1, "executed");
    std::mem::forget((node, p, r));
}
/// Different requests are executed even if their contents are the same.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p22_distinct() {
    let (node, p) = start();
    let a = exec_cmd(&[9], "a");
    let b = exec_cmd(&[9], "b");
    only(&[a, b]);
    put(2, a);
    put(3, b);
    all(&p, 3);
    claim!(P22, st().n == 2, "different requests are executed each");
    claim!(P22, st().w[0] == (2, 9) && st().w[1] == (3, 9), "different requests are executed each");
    witness!(st().n == 2, "executed");
    std::mem::forget((node, p));
}

//! Snapshots: installing one from the leader (P19), making one and deleting what
//! it covers (P20), restarting (P26).
use super::hs::*;
use super::p_repl::{deliver, elem, El};
use crate::raft;

struct S {
    fetches: u64,
    from: u8,
    idx: u64,
    shard: u32,
    /// the snapshot had been saved and the log had not been touched when ...
    ins_at_fetch: u64,
    refuse: bool,
    p: Option<Arc<RaftProcess>>,
    fetched_at: u64,
    cmd: Bytes,
    at: u8,
}
kenv::gstatic! { SS: S = S { fetches: 0, from: 99, idx: 0, shard: 0, ins_at_fetch: 0, refuse: false, p: None, fetched_at: 0, cmd: Bytes::new(), at: 0 }; }
fn ss() -> &'static mut S {
    unsafe { &mut *std::ptr::addr_of_mut!(SS.1) }
}
fn get_snapshot(n: u8, r: raft::GetSnapshotRequest) -> Option<tonic::Streaming<raft::SnapshotChunk>> {
    let s = ss();
    s.fetches += 1;
    s.from = n;
    s.idx = r.index;
    s.shard = r.shard_id;
    s.ins_at_fetch = log().inserts;
    if s.refuse {
        return None;
    }
    Some(kenv::tonic_m::fixed([Ok(raft::SnapshotChunk { data: Bytes::copy_from_slice(&[1]).into() })]))
}
fn always() -> bool {
    true
}
/// A follower with log 1..3, on which everything up to `user` is applied. (That it
/// has no peers yet keeps the model small.)
fn follower(commit: u64, kern: u64, user: u64) -> (RaftNode, Arc<RaftProcess>, u64) {
    let (node, p) = boot();
    log().put(0, 0, 1, snap_cmd(&[0, 1, 2]));
    let t = nd::u64();
    let b = bar_cmd(7);
    log().put(0, t, 2, b);
    log().put(t, t, 3, b);
    bal().term = t;
    lg::set_ptrs(rp::cl(&p), commit, kern, user);
    unsafe { raft::knet::GET_SNAPSHOT.1 = Some(get_snapshot) };
    (node, p, t)
}
/// The entry of a snapshot reaches the log; in `p19_install` it comes through the
/// whole of the replication path instead.
fn insert(p: &RaftProcess, this: Clock, c: Bytes) -> Result<(u64, u64)> {
    let e = Entry { prev_clock: clock(0, 0), this_clock: this, command: c };
    match fut::run(rp::cl(p).try_insert_entry(e, nid(2), rp::driver(p))) {
        Ok(command_log::TryInsertResult::Inserted) => Ok((1, log().last())),
        Ok(_) => Ok((0, log().last())),
        Err(e) => Err(e),
    }
}
fn unchanged(p: &RaftProcess, l0: &[Option<Slot>; 3], ptrs: (u64, u64, u64, u64)) {
    claim!(P19, lg::ptrs(rp::cl(p)) == ptrs, "a refused snapshot changes no position");
    let mut i = 0;
    while i < 3 {
        if let (Some(x), Some(y)) = (log().at(i as u64 + 1), l0[i]) {
            claim!(P19, x.this == y.this && x.cmd == y.cmd, "a refused snapshot does not change the log");
        } else {
            claim!(P19, false, "a refused snapshot does not change the log");
        }
        i += 1;
    }
}
/// A snapshot beyond the follower's log arrives.
fn install(fail: u8) {
    let (node, p, _) = follower(3, 3, 3);
    let c = snap_cmd(&[0, 1]);
    only(&[c]);
    let t = nd::u64();
    let l0 = [log().at(1), log().at(2), log().at(3)];
    let p0 = lg::ptrs(rp::cl(&p));
    let n0 = log().inserts;
    match fail {
        1 => ss().refuse = true,
        2 => app().fail = Some(always),
        _ => {}
    }
    let r = if fail == 0 {
        deliver(&p, 2, clock(0, 0), [elem(El { on: true, this: clock(t, 5), cmd: c })])
    } else {
        insert(&p, clock(t, 5), c)
    };
    app().fail = None;
    witness!(true, "delivered");
    let s = ss();
    claim!(P19, s.fetches == 1 && s.from == 2 && s.idx == 5 && s.shard == SHARD, "a snapshot is fetched from the sender of its entry");
    claim!(P19, s.ins_at_fetch == n0, "the entry of a snapshot is inserted after the snapshot was fetched");
    if fail > 0 {
        claim!(P19, log().inserts == n0, "the entry of a snapshot is inserted only if the snapshot could be fetched");
        unchanged(&p, &l0, p0);
    } else {
        claim!(P19, app().saves == 1 && app().last_save == 5, "a fetched snapshot is saved");
        match r {
            Ok((k, last)) => claim!(P19, k == 1 && last == 5, "a newer snapshot is accepted"),
            Err(_) => claim!(P19, false, "a newer snapshot is accepted"),
        }
        match log().at(5) {
            Some(x) => claim!(P19, x.this == clock(t, 5) && x.cmd == c, "a snapshot is in the log at its index"),
            None => claim!(P19, false, "a snapshot is in the log at its index"),
        }
        let (commit, kern, user, snap) = lg::ptrs(rp::cl(&p));
        claim!(P19, commit == 4 && kern == 4 && user == 4 && snap == 5, "application resumes with the snapshot");
        claim!(P17, rp::is_member(&p, 0) && rp::is_member(&p, 1) && !rp::is_member(&p, 2), "the membership of a snapshot takes effect");
        claim!(P20, log().deletes == 0, "entries are deleted by compaction only");
    }
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p19_install() {
    install(0)
}
/// The sender cannot deliver the snapshot.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p19_no_fetch() {
    install(1)
}
/// The application cannot save the snapshot.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p19_no_save() {
    install(2)
}
/// The snapshot the follower already has, or an older one, arrives (again); the
/// follower has applied entries after it.
fn again(i: u64, own: u64) {
    let (node, p, t) = follower(3, 3, 3);
    let c = snap_cmd(&[0, 1, 2]);
    only(&[c]);
    // the follower's snapshot is the entry at `own`
    log().put(if own == 1 { 0 } else { t }, t, own, c);
    lg::set_snap(rp::cl(&p), own);
    let l0 = [log().at(1), log().at(2), log().at(3)];
    let p0 = lg::ptrs(rp::cl(&p));
    let n0 = log().inserts;
    let r = insert(&p, clock(t, i), c);
    witness!(true, "delivered");
    claim!(P19, log().inserts == n0, "a snapshot that is not newer does not rewrite the log");
    claim!(P19, i >= own || r.is_err(), "a snapshot older than the follower's own is refused");
    unchanged(&p, &l0, p0);
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p19_again() {
    again(2, 2)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p19_older() {
    again(2, 3)
}
/// The application is applying the entry before the snapshot when it arrives.
fn arrive() {
    let s = ss();
    if s.at == 0 {
        let p = match &s.p {
            Some(p) => p.clone(),
            None => panic!("KENV"),
        };
        let e = Entry { prev_clock: clock(0, 0), this_clock: clock(9, 5), command: s.cmd };
        match fut::run(rp::cl(&p).try_insert_entry(e, nid(2), rp::driver(&p))) {
            Ok(command_log::TryInsertResult::Inserted) => {}
            _ => panic!("KENV: install"),
        }
        s.fetched_at = 1;
        std::mem::forget(p);
    }
    s.at = s.at.wrapping_sub(1);
}
fn racing(at: u8) {
    let (node, p, _) = follower(3, 3, 2);
    let c = snap_cmd(&[0, 1, 2]);
    let b = bar_cmd(7);
    only(&[c, b]);
    let s = ss();
    s.cmd = c;
    s.p = Some(p.clone());
    s.at = at;
    kenv::sched::set_interfere(Some(arrive));
    let _ = fut::run(rp::cl(&p).advance_user_process(lg::app(rp::cl(&p))));
    kenv::sched::set_interfere(None);
    let (commit, kern, user, snap) = lg::ptrs(rp::cl(&p));
    if s.fetched_at == 1 {
        claim!(P19, commit == 4 && kern == 4 && user == 4 && snap == 5, "application resumes with the snapshot");
    }
    witness!(true, "ran");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p19_racing0() {
    racing(0)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p19_racing1() {
    racing(1)
}

// ---------------------------------------------------------------- P20
/// The application has made a snapshot at `i`; log: 1 snapshot {0,1,2},
/// 2 configuration {0,1}, 3 and 4 barriers.
fn make(i: u64, own: u64) {
    let (node, p) = world(&[0, 1, 2]);
    let t = nd::u64();
    let b = bar_cmd(7);
    let c = cfg_cmd(&[0, 1]);
    let s01 = snap_cmd(&[0, 1]);
    let s012 = snap_cmd(&[0, 1, 2]);
    log().put(0, t, 2, c);
    log().put(t, t, 3, b);
    log().put(t, t, 4, b);
    only(&[s012, s01, c, b]);
    lg::set_ptrs(rp::cl(&p), 4, 4, 4);
    lg::set_snap(rp::cl(&p), own);
    app().latest = i;
    let l0 = [log().at(1), log().at(2), log().at(3), log().at(4)];
    let p0 = lg::ptrs(rp::cl(&p));
    let ok = fut::run(rp::cl(&p).advance_snapshot_index()).is_ok();
    let p1 = lg::ptrs(rp::cl(&p));
    claim!(P20, ok, "a snapshot of the application becomes the snapshot of the log");
    claim!(P20, p1.3 == if i > own { i } else { own }, "the snapshot position is that of the newest snapshot");
    claim!(P20, (p1.0, p1.1, p1.2) == (p0.0, p0.1, p0.2), "making a snapshot moves no other position");
    let mut k = 1;
    while k <= 4 {
        match (log().at(k), l0[k as usize - 1]) {
            (Some(x), Some(y)) => {
                claim!(P20, x.this == y.this && x.prev == y.prev, "a snapshot entry keeps the clock of the entry it replaces");
                if k == i && i > own {
                    claim!(P20, x.cmd == s01, "a snapshot entry carries the membership of its position");
                } else {
                    claim!(P20, x.cmd == y.cmd, "making a snapshot changes no other entry");
                }
            }
            _ => claim!(P20, false, "making a snapshot deletes no entry"),
        }
        k += 1;
    }
    witness!(true, "made");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p20_make2() {
    make(2, 1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p20_make4() {
    make(4, 1)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p20_make_older() {
    make(2, 3)
}
/// Compaction of a log of 4 entries whose snapshot is anywhere.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p20_compact() {
    let (node, p) = world(&[0, 1, 2]);
    grow(3);
    let s = nd::upto(4);
    lg::set_ptrs(rp::cl(&p), 4, 4, 4);
    lg::set_snap(rp::cl(&p), s);
    unsafe { LOG_FAILS.1 = Some(flaky) };
    let l0 = [log().at(1), log().at(2), log().at(3), log().at(4)];
    let ok = fut::run(rp::cl(&p).delete_old_entries()).is_ok();
    let mut k = 1;
    while k <= 4 {
        match (log().at(k), l0[k as usize - 1]) {
            (Some(x), Some(y)) => {
                claim!(P20, x.this == y.this && x.prev == y.prev && x.cmd == y.cmd, "compaction changes no entry");
                claim!(P20, !ok || k >= s, "compaction deletes everything before the snapshot");
            }
            (None, Some(_)) => claim!(P20, k < s, "compaction deletes nothing but what the snapshot covers"),
            _ => claim!(P20, false, "compaction adds no entry"),
        }
        k += 1;
    }
    witness!(ok && s == 3, "compacted");
    witness!(!ok, "failed");
    std::mem::forget((node, p));
}
fn flaky() -> bool {
    nd::bool()
}
/// Old snapshots of the application are deleted, the current one is not.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p20_delete_snapshots() {
    let (node, p) = world(&[0, 1, 2]);
    let s = nd::u64();
    lg::set_snap(rp::cl(&p), s);
    let _ = fut::run(rp::cl(&p).delete_old_snapshots());
    claim!(P20, app().deletes == 1 && app().last_delete == s, "snapshots before the current one are deleted, not the current one");
    witness!(true, "deleted");
    std::mem::forget((node, p));
}

// ---------------------------------------------------------------- P26
fn restart(snap: u64, cfg: u64) {
    let t = nd::u64();
    let s = snap_cmd(&[0, 1, 2]);
    let c = cfg_cmd(&[0, 1]);
    let b = bar_cmd(7);
    let mut i = snap;
    // a log that begins with the snapshot
    while i <= 4 {
        log().put(t, t, i, if i == snap { s } else if i == cfg { c } else { b });
        i += 1;
    }
    only(&[s, c, b]);
    let (bt, bv) = nd_ballot(3);
    let (node, p) = boot();
    let (commit, kern, user, _) = lg::ptrs(rp::cl(&p));
    claim!(P26, commit == snap - 1 && kern == snap - 1 && user == snap - 1, "a restarted node resumes with its last snapshot");
    claim!(P26, log().inserts == 0 && log().deletes == 0, "a restart does not change the log");
    claim!(P26, bal().term == bt && bal().vote == bv && bal().saves == 0, "a restart does not change the ballot");
    claim!(P26, rp::is_member(&p, 0) && rp::is_member(&p, 1) && rp::is_member(&p, 2) == (cfg <= snap || cfg > 4), "a restarted node has the last membership of its log");
    claim!(P17, rp::is_member(&p, 2) == (cfg <= snap || cfg > 4), "a restarted node has the last membership of its log");
    claim!(P26, lg::membership_at(rp::cl(&p)) == if cfg > snap && cfg <= 4 { cfg } else { snap }, "a restarted node knows where its membership comes from");
    claim!(P26, is_follower(rp::voter(&p).read_election_state()), "a restarted node is a follower");
    claim!(P26, app().writes == 0 && app().installs == 0, "a restart alone applies nothing");
    witness!(true, "restarted");
    std::mem::forget((node, p));
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p26_snap1() {
    restart(1, 9)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p26_snap2_cfg3() {
    restart(2, 3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p26_snap4() {
    restart(4, 9)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p26_snap1_cfg4() {
    restart(1, 4)
}
/// A node that has never been part of a cluster.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p26_empty() {
    let (bt, bv) = nd_ballot(3);
    let (node, p) = boot();
    let (commit, kern, user, _) = lg::ptrs(rp::cl(&p));
    claim!(P26, commit == 0 && kern == 0 && user == 0, "a new node has committed and applied nothing");
    claim!(P26, rp::n_members(&p) == 0, "a new node is in no cluster");
    claim!(P26, bal().term == bt && bal().vote == bv && bal().saves == 0, "a restart does not change the ballot");
    claim!(P26, is_follower(rp::voter(&p).read_election_state()), "a restarted node is a follower");
    witness!(true, "started");
    std::mem::forget((node, p));
}

//! The leader's commit rule (P09).
use super::hs::*;

struct C {
    p: Option<Arc<RaftProcess>>,
    c0: u64,
    n: u64,
    /// number of members, own membership, match indices of the others
    members: u8,
    me_in: bool,
    m: [u64; 5],
    s0: ElectionState,
}
kenv::gstatic! { ST: C = C { p: None, c0: 0, n: 0, members: 0, me_in: true, m: [0; 5], s0: ElectionState::Follower }; }
fn st() -> &'static mut C {
    unsafe { &mut *std::ptr::addr_of_mut!(ST.1) }
}
fn end() {
    let s = st();
    if let Some(p) = &s.p {
        let c1 = rp::cl(p).commit_pointer.load(SC);
        claim!(P09, c1 >= s.c0, "the commit index never decreases");
        if !is_leader(s.s0) {
            claim!(P09, c1 == s.c0, "only a leader moves the commit index by itself");
        }
        if c1 > s.c0 {
            let mut have = 0;
            if s.me_in && s.n >= c1 { have += 1 }
            let mut i = 1;
            while i < 5 {
                if s.m[i] >= c1 { have += 1 }
                i += 1;
            }
            claim!(P09, 2 * have > s.members, "an entry is committed only when a majority of the configuration stores it");
            claim!(P09, log().term(c1) == bal().term, "a leader commits by counting replicas only entries of its own term");
        }
        // progress
        let mut k = s.c0 + 1;
        while k <= 4 {
            let mut have = 0;
            if s.me_in && s.n >= k { have += 1 }
            let mut i = 1;
            while i < 5 {
                if s.m[i] >= k { have += 1 }
                i += 1;
            }
            if is_leader(s.s0) && k <= s.n && 2 * have > s.members && log().term(k) == bal().term {
                claim!(P09, c1 >= k, "an entry of the own term stored by a majority is committed");
            }
            k += 1;
        }
        claim!(P09, log().inserts == 0 && bal().saves == 0, "committing changes neither log nor ballot");
        witness!(c1 > s.c0, "commit advanced");
        witness!(c1 == s.c0 && is_leader(s.s0), "commit not advanced");
    }
}
/// Members `ids` with arbitrary replication state; `ids` may or may not contain this node.
fn commit(ids: &[u8], max: u64) {
    let (node, p) = world(ids);
    let n = grow_upto(max);
    let (t0, _) = nd_ballot(3);
    nd::assume(t0 >= log().term(n));
    let s = st();
    s.members = ids.len() as u8;
    s.me_in = false;
    for i in 0..ids.len() {
        if ids[i] == ME {
            s.me_in = true;
        } else {
            let m = nd::upto(max);
            nd::assume(m <= n);
            s.m[ids[i] as usize] = m;
            rp::set_progress(&p, ids[i], m, m + 1, 1);
        }
    }
    s.n = n;
    s.c0 = nd::upto(n);
    rp::cl(&p).commit_pointer.store(s.c0, SC);
    s.s0 = nd_state();
    rp::voter(&p).write_election_state(s.s0);
    s.p = Some(p.clone());
    let (cl, ps, vt) = (rp::cl(&p).clone(), rp::peers(&p).clone(), rp::voter(&p).clone());
    std::mem::forget((node, p));
    let (rtx, rrx) = thread::notify();
    let (ctx, crx) = thread::notify();
    rtx.push_event(thread::ReplicationEvent);
    std::mem::forget((rtx, crx));
    drive(|| thread::advance_commit::new(cl, Ref(ps), Ref(vt), rrx, ctx), 0, end);
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p09_commit1() {
    commit(&[0], 3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p09_commit2() {
    commit(&[0, 1], 3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p09_commit3() {
    commit(&[0, 1, 2], 4)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p09_commit4() {
    commit(&[0, 1, 2, 3], 3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p09_commit5() {
    commit(&[0, 1, 2, 3, 4], 3)
}
/// A leader that is no longer in the configuration does not count itself.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p09_removed2() {
    commit(&[1, 2], 3)
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p09_removed3() {
    commit(&[1, 2, 3], 3)
}

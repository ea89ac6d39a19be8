//! Log replication: what a follower inserts (P10), what a leader appends
//! (P11), how a leader drives a follower (P12).
use super::hs::*;
use crate::raft::replication_stream_chunk::Elem;
use crate::raft::{ReplicationStreamChunk, ReplicationStreamEntry, ReplicationStreamHeader, ReplicationStreamResponse};

#[derive(Clone, Copy)]
pub struct El {
    pub on: bool,
    pub this: Clock,
    pub cmd: Bytes,
}
pub fn elem(e: El) -> Option<request::ReplicationStreamElem> {
    if e.on {
        Some(request::ReplicationStreamElem { this_clock: e.this, command: e.cmd })
    } else {
        None
    }
}
/// (accepted, reported end of the log)
pub fn deliver<const N: usize>(
    p: &RaftProcess,
    from: u8,
    prev: Clock,
    e: [Option<request::ReplicationStreamElem>; N],
) -> Result<(u64, u64)> {
    let r = request::ReplicationStream { sender_id: nid(from), prev_clock: prev, entries: fut::given(e) };
    match fut::run(p.send_replication_stream(r)) {
        Ok(x) => Ok((x.n_inserted, x.log_last_index)),
        Err(e) => Err(e),
    }
}

/// A replication stream of up to two entries reaches a node with any log.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p10_insert() {
    let (node, p) = world(&[0, 1, 2]);
    let n = grow_upto(3);
    let (t0, _) = nd_ballot(3);
    nd::assume(t0 >= log().term(n));
    let c0 = nd::upto(n);
    rp::cl(&p).commit_pointer.store(c0, SC);
    only(&[bar_cmd(7)]);
    let prev = clock(nd::u64(), nd::upto(4));
    let e1 = El { on: nd::bool(), this: clock(nd::u64(), prev.index + 1), cmd: bar_cmd(7) };
    let e2 = El { on: nd::bool(), this: clock(nd::u64(), prev.index + 2), cmd: bar_cmd(7) };
    // a leader's log: terms do not decrease
    nd::assume(prev.term <= e1.this.term && e1.this.term <= e2.this.term);
    let old = [log().at(1), log().at(2), log().at(3), log().at(4), log().at(5), log().at(6)];
    let writes0 = log().inserts;
    let (k, last) = match deliver(&p, 1, prev, [elem(e1), elem(e2)]) {
        Ok(x) => x,
        Err(_) => panic!("KENV: refused"),
    };
    let fits = match old_at(&old, prev.index) {
        Some(s) => s.this == prev,
        None => false,
    };
    if !fits {
        claim!(P10, k == 0 && log().inserts == writes0, "entries that do not follow the log are refused");
    }
    if !e1.on {
        claim!(P10, k == 0 && log().inserts == writes0, "nothing is taken after a gap in the stream");
    }
    if fits && e1.on {
        claim!(P10, k >= 1, "an entry that follows the log is accepted");
        if e2.on {
            claim!(P10, k == 2, "all entries that follow the log are accepted");
        } else {
            claim!(P10, k == 1, "nothing is taken after a gap in the stream");
        }
    }
    if k >= 1 {
        has(prev.index + 1, prev, e1, old_at(&old, prev.index + 1));
    }
    if k >= 2 {
        has(prev.index + 2, e1.this, e2, old_at(&old, prev.index + 2));
    }
    claim!(P10, last == log().last(), "the reported end of the log is the end of the log");
    let mut i = 1;
    while i <= LN as u64 {
        if i <= prev.index || i > prev.index + k {
            let same = match (old_at(&old, i), log().at(i)) {
                (Some(a), Some(b)) => a.this == b.this && a.prev == b.prev && a.cmd == b.cmd,
                (None, None) => true,
                // a conflicting suffix may go
                (Some(_), None) => i > prev.index + k && k > 0,
                _ => false,
            };
            claim!(P10, same, "entries outside the stream are not touched");
        }
        i += 1;
    }
    claim!(P10, rp::cl(&p).commit_pointer.load(SC) == c0, "replication does not commit");
    claim!(P10, bal().saves == 0, "replication does not touch the ballot");
    // the log matches the leader's up to its end once an entry was overwritten
    if k == 2 && log().inserts > writes0 {
        let mut i = 2;
        let mut chained = true;
        while i <= LN as u64 {
            if let (Some(a), Some(b)) = (log().at(i - 1), log().at(i)) {
                if i >= 2 && b.prev != a.this {
                    chained = false;
                }
            }
            i += 1;
        }
        claim!(P10.suffix, chained, "every entry follows the entry before it");
    }
    witness!(k == 2 && log().inserts == writes0 + 2, "two entries inserted");
    witness!(k == 2 && log().inserts == writes0, "two entries known");
    witness!(k == 0 && fits, "gap");
    witness!(k == 0 && e1.on, "refused");
    witness!(k >= 1 && prev.index + 1 <= n && log().inserts > writes0, "conflict overwritten");
    std::mem::forget((node, p));
}
fn old_at(o: &[Option<Slot>; 6], i: u64) -> Option<Slot> {
    let mut r = None;
    let mut k = 0;
    while k < 6 {
        if k as u64 + 1 == i {
            r = o[k];
        }
        k += 1;
    }
    r
}
fn has(i: u64, prev: Clock, e: El, before: Option<Slot>) {
    if let Some(s) = log().at(i) {
        claim!(P10, s.this == e.this, "an accepted entry is in the log with its clock");
        let known = match before {
            Some(b) => b.this == e.this,
            None => false,
        };
        if known {
            if let Some(b) = before {
                claim!(P10, s.cmd == b.cmd && s.prev == b.prev, "an entry with the same clock is kept");
            }
        } else {
            claim!(P10, s.cmd == e.cmd, "an accepted entry is stored with its command");
            claim!(P10, s.prev == prev, "an accepted entry is chained to the entry before it");
        }
    } else {
        claim!(P10, false, "an accepted entry is in the log");
    }
}

// ------------------------------------------------------------------- leader
pub struct Sent {
    pub p: Option<Arc<RaftProcess>>,
    pub calls: u64,
    pub dest: u8,
    pub shard: u32,
    pub prev: Clock,
    pub n: u64,
    pub gaps: bool,
    pub e: [Clock; 3],
    pub cmd: [Bytes; 3],
    /// what the follower answers
    pub fails: bool,
    pub took: u64,
    pub last: u64,
    /// what happens while the request is under way
    pub reset: Option<u64>,
}
kenv::gstatic! { SENT: Sent = Sent {
    p: None, calls: 0, dest: 0, shard: 0, prev: Clock { term: 0, index: 0 }, n: 0, gaps: false,
    e: [Clock { term: 0, index: 0 }; 3], cmd: [Bytes::new(); 3], fails: false, took: 0, last: 0, reset: None,
}; }
pub fn sent() -> &'static mut Sent {
    unsafe { &mut *std::ptr::addr_of_mut!(SENT.1) }
}
fn plain(c: Option<crate::raft::Clock>) -> Clock {
    match c {
        Some(c) => Clock { term: c.term, index: c.index },
        None => Clock { term: u64::MAX, index: u64::MAX },
    }
}
fn on_stream(dest: u8, st: crate::raft::knet::RepStream) -> Option<ReplicationStreamResponse> {
    use futures::StreamExt;
    let s = sent();
    let mut st = st;
    s.calls += 1;
    s.dest = dest;
    if let Some(c) = fut::run(st.next()) {
        match c.elem {
            Some(Elem::Header(h)) => {
                s.shard = h.shard_id;
                s.prev = plain(h.prev_clock);
                std::mem::forget(h.sender_id);
            }
            _ => s.gaps = true,
        }
    }
    let mut i = 0;
    while i < 3 {
        match fut::run(st.next()) {
            Some(c) => {
                match c.elem {
                    Some(Elem::Entry(e)) => {
                        s.e[i] = plain(e.clock);
                        s.cmd[i] = e.command;
                    }
                    _ => s.gaps = true,
                }
                s.n += 1;
            }
            None => break,
        }
        i += 1;
    }
    std::mem::forget(st);
    if let Some(k) = s.reset {
        if let Some(p) = &s.p {
            rp::peers(p).reset_progress(k);
        }
    }
    if s.fails {
        return None;
    }
    nd::assume(s.took <= s.n);
    Some(ReplicationStreamResponse { n_inserted: s.took, log_last_index: s.last })
}
/// One round of replication to follower 1, whatever is believed about it.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p12_round2() {
    let t = round(false, 2);
    witness!(t.2 == 2 && t.0 && !t.1, "two taken");
    witness!(t.2 == 0 && t.0 && !t.1, "refused");
    witness!(t.2 == 1 && t.3 == 2 && !t.1, "partly taken");
    witness!(t.1 && t.0, "failed");
    witness!(!t.0, "nothing sent");
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p12_round3() {
    let t = round(false, 3);
    witness!(t.2 == 1 && t.0 && !t.1, "taken");
    witness!(t.2 == 0 && t.0 && !t.1, "refused");
    witness!(!t.0, "nothing sent");
}
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p12_round4() {
    let t = round(false, 4);
    witness!(!t.0, "nothing sent");
}
/// The leader was elected anew while the request was under way.
#[cfg_attr(kani, kani::proof, kani::unwind(18))]
pub fn p12_late_answer() {
    let t = round(true, 2);
    witness!(t.2 == 1 && t.0 && !t.1, "late answer");
}
/// (sent, failed, taken, sent entries)
fn round(late: bool, x0: u64) -> (bool, bool, u64, u64) {
    let (node, p) = world(&[0, 1, 2]);
    let n = grow_upto(3);
    let snap = nd::upto(3);
    rp::cl(&p).snapshot_pointer.store(snap, SC);
    let (m0, c0) = (nd::u64(), nd::u64());
    nd::assume(x0 <= n + 1 && m0 < x0 && c0 >= 1 && c0 < 1000);
    rp::set_progress(&p, 1, m0, x0, c0);
    let (om, ox) = (nd::u64(), nd::u64());
    rp::set_progress(&p, 2, om, ox, 1);
    let s = sent();
    s.p = Some(p.clone());
    s.fails = nd::bool();
    s.took = nd::upto(3);
    s.last = nd::upto(4);
    if late {
        s.reset = Some(n + 1);
    }
    unsafe { crate::raft::knet::SEND_REPLICATION_STREAM.1 = Some(on_stream) };
    let r = fut::run(rp::peers(&p).advance_replication(nid(1)));
    let (m1, x1) = rp::progress(&p, 1);
    let c1 = rp::progress_cnt(&p, 1);
    claim!(P12, late || rp::progress(&p, 2) == (om, ox), "replication to one follower does not change what is known about another");
    claim!(P12, log().inserts == 0, "replication does not change the leader's log");
    if x0 > n || (x0 < snap) {
        claim!(P12, s.calls == 0, "nothing is sent that the log does not hold");
    }
    if x0 < snap && x0 <= n {
        claim!(P12, (m1, x1) == (0, snap), "a follower that needs compacted entries starts over from the snapshot");
    }
    if s.calls > 0 {
        claim!(P12, s.calls == 1 && s.dest == 1, "the stream goes to the follower");
        claim!(P13, s.shard == SHARD, "the stream names its shard");
        claim!(P12, !s.gaps && s.n >= 1 && s.n <= c0 && x0 + s.n - 1 <= n, "what is sent are entries of the log, as many as planned at most");
        if let Some(f) = log().at(x0) {
            claim!(P12, s.prev == f.prev, "the stream names the entry before its first");
        }
        let mut i = 0;
        while i < 3 {
            if (i as u64) < s.n {
                let same = match log().at(x0 + i as u64) {
                    Some(a) => a.this == s.e[i] && a.cmd == s.cmd[i],
                    None => false,
                };
                claim!(P12, same, "entries are sent as they are in the log, in order");
            }
            i += 1;
        }
        if late {
            claim!(P12, (m1, x1) == (0, n + 1), "an answer to a request of an earlier leadership is not counted");
        } else if s.fails {
            claim!(P12, (m1, x1) == (m0, x0), "a failed call leaves what is known about the follower");
        } else if s.took == 0 {
            claim!(P12, m1 == m0, "a refusal confirms nothing");
            claim!(P12, x1 < x0 && x1 <= s.last + 1, "after a refusal replication moves back");
            claim!(P12, x1 == if x0 - 1 < s.last + 1 { x0 - 1 } else { s.last + 1 }, "after a refusal replication moves back step by step or to the follower's end");
            claim!(P12, x1 >= 1, "replication starts at an entry");
        } else {
            claim!(P12, m1 == x0 + s.took - 1, "exactly the entries the follower took count as replicated");
            claim!(P12, x1 == m1 + 1, "replication continues after what the follower took");
        }
        claim!(P12, c1 >= 1, "a round always sends something");
    } else {
        claim!(P12, (m1, x1) == (m0, x0) || (x0 < snap), "without a request nothing is learned about the follower");
    }
    if !late {
        if x0 <= n && x0 >= snap {
            claim!(P12, s.calls == 1, "entries the follower lacks are sent");
        }
        claim!(P12, r.is_ok() || s.fails || x0 > n, "a round with something to send succeeds");
    }
    std::mem::forget((node, p, r));
    (s.calls > 0, s.fails, s.took, s.n)
}

use super::*;
pub fn kern(c: &CommandLog) -> Index {
    c.kern_pointer.load(Ordering::SeqCst)
}
pub fn set_ptrs(c: &CommandLog, commit: Index, kern: Index, user: Index) {
    c.commit_pointer.store(commit, Ordering::SeqCst);
    c.kern_pointer.store(kern, Ordering::SeqCst);
    c.user_pointer.store(user, Ordering::SeqCst);
}
/// (commit, kern, user, snapshot)
pub fn ptrs(c: &CommandLog) -> (Index, Index, Index, Index) {
    (
        c.commit_pointer.load(Ordering::SeqCst),
        c.kern_pointer.load(Ordering::SeqCst),
        c.user_pointer.load(Ordering::SeqCst),
        c.snapshot_pointer.load(Ordering::SeqCst),
    )
}
pub fn app(c: &CommandLog) -> App {
    c.app.clone()
}
pub fn set_snap(c: &CommandLog, i: Index) {
    c.snapshot_pointer.store(i, Ordering::SeqCst)
}
pub fn membership_at(c: &CommandLog) -> Index {
    c.membership_pointer.load(Ordering::SeqCst)
}

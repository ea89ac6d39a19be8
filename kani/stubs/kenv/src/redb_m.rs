//! `redb`: named tables of ordered keys, write transactions that become
//! visible (and durable) atomically at commit, and may fail.
use std::cell::UnsafeCell;
use std::marker::PhantomData;
use std::ops::{Bound, RangeBounds};
use crate::arc::Arc;

const NT: usize = 4;
const NR: usize = 4;

#[derive(Debug)]
pub struct DbError;
impl std::fmt::Display for DbError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("db")
    }
}
impl std::error::Error for DbError {}

pub trait KeyM {
    type Own;
    fn un(k: u64) -> Self::Own;
}
impl KeyM for u64 {
    type Own = u64;
    fn un(k: u64) -> u64 {
        k
    }
}
impl KeyM for () {
    type Own = ();
    fn un(_: u64) {}
}
pub trait ToKey<K> {
    fn to_key(&self) -> u64;
}
impl ToKey<u64> for u64 {
    fn to_key(&self) -> u64 {
        *self
    }
}
impl ToKey<u64> for &u64 {
    fn to_key(&self) -> u64 {
        **self
    }
}
impl ToKey<()> for () {
    fn to_key(&self) -> u64 {
        0
    }
}

/// A stored value.
#[derive(Clone, Copy)]
struct Val {
    b: [u8; crate::ser::WCAP],
    n: usize,
}
#[derive(Clone, Copy)]
struct Tab {
    name: [u8; 12],
    nlen: usize,
    used: bool,
    row: [Option<(u64, Val)>; NR],
}
const EMPTY: Tab = Tab { name: [0; 12], nlen: 0, used: false, row: [None; NR] };
#[derive(Clone, Copy)]
struct State {
    t: [Tab; NT],
}
impl State {
    fn find(&self, s: &str) -> Option<usize> {
        let s = s.as_bytes();
        let mut i = 0;
        while i < NT {
            if self.t[i].used && self.t[i].nlen == s.len() && self.t[i].name[..s.len()] == *s {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn create(&mut self, s: &str) -> usize {
        if let Some(i) = self.find(s) {
            return i;
        }
        let s = s.as_bytes();
        assert!(s.len() <= 12, "KENV-CAPACITY");
        let mut i = 0;
        while i < NT {
            if !self.t[i].used {
                self.t[i].used = true;
                self.t[i].name[..s.len()].copy_from_slice(s);
                self.t[i].nlen = s.len();
                return i;
            }
            i += 1;
        }
        panic!("KENV-CAPACITY")
    }
}
pub struct Database {
    st: UnsafeCell<State>,
}
unsafe impl Send for Database {}
unsafe impl Sync for Database {}

crate::gstatic! { COMMIT_FAILS: bool = false; }
/// the next commits fail
pub fn set_commit_fails(b: bool) {
    unsafe { COMMIT_FAILS.1 = b }
}
crate::gstatic! { COMMITS: u64 = 0; }
pub fn commits() -> u64 {
    unsafe { COMMITS.1 }
}

pub struct Builder;
impl Builder {
    pub fn create_with_backend<B>(&self, _: B) -> Result<Database, DbError> {
        Ok(Database::empty())
    }
}
impl Database {
    pub fn empty() -> Self {
        Database { st: UnsafeCell::new(State { t: [EMPTY; NT] }) }
    }
    pub fn builder() -> Builder {
        Builder
    }
    fn st(&self) -> &mut State {
        unsafe { &mut *self.st.get() }
    }
    pub fn begin_write(&self) -> Result<WriteTransaction<'_>, DbError> {
        Ok(WriteTransaction { db: self, st: UnsafeCell::new(*self.st()) })
    }
    pub fn begin_read(&self) -> Result<ReadTransaction, DbError> {
        Ok(ReadTransaction { st: Arc::new(*self.st()) })
    }
}
pub struct WriteTransaction<'a> {
    db: &'a Database,
    st: UnsafeCell<State>,
}
impl<'a> WriteTransaction<'a> {
    pub fn open_table<'t, K, V>(&'t self, d: TableDefinition<'_, K, V>) -> Result<Table<'t, K, V>, DbError> {
        let st = unsafe { &mut *self.st.get() };
        let i = st.create(d.name);
        Ok(Table { t: &mut st.t[i], p: PhantomData })
    }
    pub fn commit(self) -> Result<(), DbError> {
        if unsafe { COMMIT_FAILS.1 } {
            return Err(DbError);
        }
        unsafe { COMMITS.1 += 1 };
        *self.db.st() = unsafe { *self.st.get() };
        Ok(())
    }
    pub fn abort(self) -> Result<(), DbError> {
        Ok(())
    }
    pub fn set_durability(&mut self, d: Durability) {
        let _ = d;
    }
}
pub enum Durability {
    None,
    Eventual,
    Immediate,
}
pub struct ReadTransaction {
    st: Arc<State>,
}
impl ReadTransaction {
    pub fn open_table<K, V>(&self, d: TableDefinition<'_, K, V>) -> Result<ReadOnlyTable<K, V>, DbError> {
        match self.st.find(d.name) {
            Some(i) => Ok(ReadOnlyTable { t: self.st.t[i], p: PhantomData }),
            None => Err(DbError),
        }
    }
}
pub struct TableDefinition<'a, K, V> {
    name: &'a str,
    p: PhantomData<(K, V)>,
}
impl<'a, K, V> TableDefinition<'a, K, V> {
    pub const fn new(name: &'a str) -> Self {
        TableDefinition { name, p: PhantomData }
    }
}
pub struct Table<'t, K, V> {
    t: &'t mut Tab,
    p: PhantomData<(K, V)>,
}
pub struct ReadOnlyTable<K, V> {
    t: Tab,
    p: PhantomData<(K, V)>,
}
pub struct AccessGuard<V>(V);
impl<V: Clone> AccessGuard<V> {
    pub fn value(&self) -> V {
        self.0.clone()
    }
}
fn bounds(r: &impl RangeBounds<u64>, k: u64) -> bool {
    (match r.start_bound() {
        Bound::Included(s) => k >= *s,
        Bound::Excluded(s) => k > *s,
        Bound::Unbounded => true,
    }) && (match r.end_bound() {
        Bound::Included(s) => k <= *s,
        Bound::Excluded(s) => k < *s,
        Bound::Unbounded => true,
    })
}
fn out(v: &Val) -> AccessGuard<Vec<u8>> {
    AccessGuard(v.b[..v.n].to_vec())
}
fn get(t: &Tab, k: u64) -> Option<AccessGuard<Vec<u8>>> {
    let mut i = 0;
    while i < NR {
        if let Some((kk, v)) = &t.row[i] {
            if *kk == k {
                return Some(out(v));
            }
        }
        i += 1;
    }
    None
}
/// extreme key
fn end(t: &Tab, last: bool) -> Option<usize> {
    let mut best: Option<(usize, u64)> = None;
    let mut i = 0;
    while i < NR {
        if let Some((k, _)) = &t.row[i] {
            best = match best {
                Some((_, b)) if (last && b > *k) || (!last && b < *k) => best,
                _ => Some((i, *k)),
            };
        }
        i += 1;
    }
    best.map(|x| x.0)
}
pub trait ReadableTableMetadata {
    fn tab(&self) -> &Tab2;
    fn len(&self) -> Result<u64, DbError> {
        let mut n = 0;
        for r in self.tab().0.row.iter() {
            if r.is_some() {
                n += 1
            }
        }
        Ok(n)
    }
    fn is_empty(&self) -> Result<bool, DbError> {
        Ok(self.len()? == 0)
    }
}
/// opaque
#[repr(transparent)]
pub struct Tab2(Tab);
fn t2(t: &Tab) -> &Tab2 {
    unsafe { &*(t as *const Tab as *const Tab2) }
}
impl<K, V> ReadableTableMetadata for Table<'_, K, V> {
    fn tab(&self) -> &Tab2 {
        t2(self.t)
    }
}
impl<K, V> ReadableTableMetadata for ReadOnlyTable<K, V> {
    fn tab(&self) -> &Tab2 {
        t2(&self.t)
    }
}
pub trait ReadableTable<K: KeyM, V>: ReadableTableMetadata {
    fn get<Q: ToKey<K>>(&self, k: Q) -> Result<Option<AccessGuard<Vec<u8>>>, DbError> {
        Ok(get(&self.tab().0, k.to_key()))
    }
    fn first(&self) -> Result<Option<(AccessGuard<K::Own>, AccessGuard<Vec<u8>>)>, DbError> {
        let t = &self.tab().0;
        Ok(end(t, false).and_then(|i| t.row[i].as_ref().map(|(k, v)| (AccessGuard(K::un(*k)), out(v)))))
    }
    fn last(&self) -> Result<Option<(AccessGuard<K::Own>, AccessGuard<Vec<u8>>)>, DbError> {
        let t = &self.tab().0;
        Ok(end(t, true).and_then(|i| t.row[i].as_ref().map(|(k, v)| (AccessGuard(K::un(*k)), out(v)))))
    }
}
impl<K: KeyM, V> ReadableTable<K, V> for Table<'_, K, V> {}
impl<K: KeyM, V> ReadableTable<K, V> for ReadOnlyTable<K, V> {}
impl<K: KeyM, V> Table<'_, K, V> {
    pub fn insert<Q: ToKey<K>>(&mut self, k: Q, v: Vec<u8>) -> Result<Option<AccessGuard<Vec<u8>>>, DbError> {
        let k = k.to_key();
        let mut val = Val { b: [0; crate::ser::WCAP], n: v.len() };
        val.b[..v.len()].copy_from_slice(&v);
        let old = get(self.t, k);
        let mut at = NR;
        let mut i = 0;
        while i < NR {
            match &self.t.row[i] {
                Some((kk, _)) if *kk == k => {
                    at = i;
                    break;
                }
                None if at == NR => at = i,
                _ => {}
            }
            i += 1;
        }
        assert!(at < NR, "KENV-CAPACITY");
        self.t.row[at] = Some((k, val));
        Ok(old)
    }
    pub fn remove<Q: ToKey<K>>(&mut self, k: Q) -> Result<Option<AccessGuard<Vec<u8>>>, DbError> {
        let k = k.to_key();
        let old = get(self.t, k);
        for r in self.t.row.iter_mut() {
            if matches!(r, Some((kk, _)) if *kk == k) {
                *r = None
            }
        }
        Ok(old)
    }
}
impl<V> Table<'_, u64, V> {
    pub fn retain_in<F: FnMut(u64, Vec<u8>) -> bool>(
        &mut self,
        r: impl RangeBounds<u64>,
        mut f: F,
    ) -> Result<(), DbError> {
        for row in self.t.row.iter_mut() {
            let drop = match row {
                Some((k, v)) if bounds(&r, *k) => !f(*k, v.b[..v.n].to_vec()),
                _ => false,
            };
            if drop {
                *row = None
            }
        }
        Ok(())
    }
    pub fn retain<F: FnMut(u64, Vec<u8>) -> bool>(&mut self, f: F) -> Result<(), DbError> {
        self.retain_in(.., f)
    }
}

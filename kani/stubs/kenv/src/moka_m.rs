//! `moka::sync::Cache` with the harness clock.
use crate::coll::HashMap;
use crate::time_m::now_ms;
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use crate::arc::Arc;
use std::time::Duration;

struct Inner<K, V> {
    m: UnsafeCell<HashMap<K, (V, u64, u64)>>,
    ttl: Option<u64>,
    tti: Option<u64>,
}
unsafe impl<K, V> Send for Inner<K, V> {}
unsafe impl<K, V> Sync for Inner<K, V> {}
pub struct Cache<K, V>(Arc<Inner<K, V>>);
impl<K, V> Clone for Cache<K, V> {
    fn clone(&self) -> Self {
        Cache(self.0.clone())
    }
}
pub struct Builder<K, V> {
    ttl: Option<u64>,
    tti: Option<u64>,
    p: std::marker::PhantomData<(K, V)>,
}
impl<K: Eq, V: Clone> Builder<K, V> {
    pub fn initial_capacity(self, _: usize) -> Self {
        self
    }
    pub fn max_capacity(self, _: u64) -> Self {
        self
    }
    pub fn time_to_live(mut self, d: Duration) -> Self {
        self.ttl = Some(d.as_millis() as u64);
        self
    }
    pub fn time_to_idle(mut self, d: Duration) -> Self {
        self.tti = Some(d.as_millis() as u64);
        self
    }
    pub fn build(self) -> Cache<K, V> {
        Cache(Arc::new(Inner { m: UnsafeCell::new(HashMap::new()), ttl: self.ttl, tti: self.tti }))
    }
}
impl<K: Eq, V: Clone> Cache<K, V> {
    pub fn new(_: u64) -> Self {
        Self::builder().build()
    }
    pub fn builder() -> Builder<K, V> {
        Builder { ttl: None, tti: None, p: std::marker::PhantomData }
    }
    fn m(&self) -> &mut HashMap<K, (V, u64, u64)> {
        unsafe { &mut *self.0.m.get() }
    }
    fn live<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&mut (V, u64, u64)>
    where
        K: Borrow<Q>,
    {
        let now = now_ms();
        match self.m().get_mut(k) {
            Some(e) => {
                let dead = matches!(self.0.ttl, Some(t) if now - e.1 >= t)
                    || matches!(self.0.tti, Some(t) if now - e.2 >= t);
                if dead {
                    None
                } else {
                    Some(e)
                }
            }
            None => None,
        }
    }
    pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.live(k).is_some()
    }
    pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        match self.live(k) {
            Some(e) => {
                e.2 = now_ms();
                Some(e.0.clone())
            }
            None => None,
        }
    }
    pub fn insert(&self, k: K, v: V) {
        let n = now_ms();
        self.m().insert(k, (v, n, n));
    }
    pub fn get_with(&self, k: K, f: impl FnOnce() -> V) -> V {
        if let Some(v) = self.get(&k) {
            return v;
        }
        let v = f();
        self.insert(k, v.clone());
        v
    }
    pub fn invalidate<Q: ?Sized + Eq>(&self, k: &Q)
    where
        K: Borrow<Q>,
    {
        self.m().remove(k);
    }
    pub fn remove<Q: ?Sized + Eq>(&self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.m().remove(k).map(|x| x.0)
    }
}

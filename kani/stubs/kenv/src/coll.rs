//! Bounded, allocation-free models of the std collections. Semantics follow
//! std; at most CAP elements (exceeding it fails with "KENV-CAPACITY").
use std::borrow::Borrow;
use std::fmt::Debug;
use std::ops::{Bound, RangeBounds};

pub const CAP: usize = 5;

/// dense inline vector
pub struct Dense<T> {
    pub len: usize,
    pub s: [Option<T>; CAP],
}
impl<T> Dense<T> {
    pub const fn new() -> Self {
        Self { len: 0, s: [const { None }; CAP] }
    }
    #[inline]
    fn push(&mut self, t: T) {
        assert!(self.len < CAP, "KENV-CAPACITY");
        self.s[self.len] = Some(t);
        self.len += 1;
    }
    #[inline]
    fn at(&self, i: usize) -> &T {
        match &self.s[i] {
            Some(x) => x,
            None => unreachable!("KENV-DENSE"),
        }
    }
    #[inline]
    fn at_mut(&mut self, i: usize) -> &mut T {
        match &mut self.s[i] {
            Some(x) => x,
            None => unreachable!("KENV-DENSE"),
        }
    }
    /// remove, keeping order
    fn remove(&mut self, i: usize) -> T {
        let out = self.s[i].take();
        let mut k = 0;
        while k + 1 < CAP {
            if k >= i && k + 1 < self.len {
                let x = self.s[k + 1].take();
                self.s[k] = x;
            }
            k += 1;
        }
        self.len -= 1;
        match out {
            Some(x) => x,
            None => unreachable!("KENV-DENSE"),
        }
    }
    /// insert at `i`, keeping order
    fn insert_at(&mut self, i: usize, t: T) {
        assert!(self.len < CAP, "KENV-CAPACITY");
        let mut k = CAP - 1;
        while k > 0 {
            if k > i && k <= self.len {
                let x = self.s[k - 1].take();
                self.s[k] = x;
            }
            k -= 1;
        }
        self.s[i] = Some(t);
        self.len += 1;
    }
}
impl<T: Clone> Clone for Dense<T> {
    fn clone(&self) -> Self {
        let mut out = Self::new();
        let mut i = 0;
        while i < CAP {
            if let Some(x) = &self.s[i] {
                out.s[i] = Some(x.clone());
            }
            i += 1;
        }
        out.len = self.len;
        out
    }
}

pub struct DIter<'a, T> {
    d: &'a Dense<T>,
    lo: usize,
    hi: usize,
}
impl<'a, T> Iterator for DIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.lo < self.hi && self.lo < CAP {
            let x = self.d.at(self.lo);
            self.lo += 1;
            Some(x)
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hi - self.lo, Some(self.hi - self.lo))
    }
}
impl<'a, T> ExactSizeIterator for DIter<'a, T> {}
impl<'a, T> DoubleEndedIterator for DIter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        if self.lo < self.hi {
            self.hi -= 1;
            Some(self.d.at(self.hi))
        } else {
            None
        }
    }
}
impl<'a, T> Clone for DIter<'a, T> {
    fn clone(&self) -> Self {
        DIter { d: self.d, lo: self.lo, hi: self.hi }
    }
}
pub struct DIntoIter<T> {
    d: Dense<T>,
    lo: usize,
}
impl<T> Iterator for DIntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.lo < self.d.len && self.lo < CAP {
            let x = self.d.s[self.lo].take();
            self.lo += 1;
            x
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.d.len - self.lo;
        (n, Some(n))
    }
}
impl<T> ExactSizeIterator for DIntoIter<T> {}
impl<T> DoubleEndedIterator for DIntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        if self.lo < self.d.len {
            self.d.len -= 1;
            let i = self.d.len;
            self.d.s[i].take()
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- HashSet

/// Sets of node ids (the only one-byte type there is) are bit masks: a mask
/// stays constant for the model checker where an array of options does not.
pub struct HashSet<T> {
    m: u64,
    d: *mut Dense<T>,
}
unsafe impl<T: Send> Send for HashSet<T> {}
unsafe impl<T: Sync> Sync for HashSet<T> {}
static CODES: [u8; CAP] = [0, 1, 2, 3, 4];
fn small<T>() -> bool {
    std::mem::size_of::<T>() == 1
}
fn code<T>(t: &T) -> usize {
    let c = unsafe { *(t as *const T as *const u8) } as usize;
    assert!(c < CAP, "KENV-CAPACITY");
    c
}
fn by_code<'a, T>(c: usize) -> &'a T {
    unsafe { &*(&CODES[c] as *const u8 as *const T) }
}
pub struct SIter<'a, T> {
    m: u64,
    at: usize,
    d: Option<DIter<'a, T>>,
}
impl<'a, T> Iterator for SIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if !small::<T>() {
            return match &mut self.d {
                Some(d) => d.next(),
                None => None,
            };
        }
        while self.at < CAP {
            let c = self.at;
            self.at += 1;
            if self.m >> c & 1 == 1 {
                return Some(by_code(c));
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = match &self.d {
            Some(d) => d.len(),
            None => count(self.m >> self.at),
        };
        (n, Some(n))
    }
}
fn count(m: u64) -> usize {
    let mut n = 0;
    let mut i = 0;
    while i < CAP {
        if m >> i & 1 == 1 {
            n += 1;
        }
        i += 1;
    }
    n
}
impl<'a, T> ExactSizeIterator for SIter<'a, T> {}
impl<'a, T> Clone for SIter<'a, T> {
    fn clone(&self) -> Self {
        SIter { m: self.m, at: self.at, d: self.d.clone() }
    }
}
pub struct SIntoIter<T> {
    m: u64,
    at: usize,
    d: Option<DIntoIter<T>>,
}
impl<T> Iterator for SIntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if !small::<T>() {
            return match &mut self.d {
                Some(d) => d.next(),
                None => None,
            };
        }
        while self.at < CAP {
            let c = self.at;
            self.at += 1;
            if self.m >> c & 1 == 1 {
                return Some(unsafe { std::ptr::read(by_code::<T>(c)) });
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = match &self.d {
            Some(d) => d.len(),
            None => count(self.m >> self.at),
        };
        (n, Some(n))
    }
}
impl<T> ExactSizeIterator for SIntoIter<T> {}
impl<T> HashSet<T> {
    pub const fn new() -> Self {
        Self { m: 0, d: std::ptr::null_mut() }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    fn dense(&self) -> Option<&Dense<T>> {
        if self.d.is_null() {
            None
        } else {
            Some(unsafe { &*self.d })
        }
    }
    fn dense_mut(&mut self) -> &mut Dense<T> {
        if self.d.is_null() {
            self.d = Box::into_raw(Box::new(Dense::new()));
        }
        unsafe { &mut *self.d }
    }
    pub fn len(&self) -> usize {
        if small::<T>() {
            count(self.m)
        } else {
            match self.dense() {
                Some(d) => d.len,
                None => 0,
            }
        }
    }
    pub fn is_empty(&self) -> bool {
        if small::<T>() {
            self.m == 0
        } else {
            self.len() == 0
        }
    }
    pub fn iter(&self) -> SIter<'_, T> {
        SIter {
            m: self.m,
            at: 0,
            d: if small::<T>() {
                None
            } else {
                self.dense().map(|d| DIter { d, lo: 0, hi: d.len })
            },
        }
    }
    pub fn drain(&mut self) -> SIntoIter<T> {
        std::mem::take(self).into_iter()
    }
    pub fn clear(&mut self) {
        *self = Self::new();
    }
}
impl<T: Eq> HashSet<T> {
    pub fn retain(&mut self, mut f: impl FnMut(&T) -> bool) {
        let old = std::mem::take(self);
        for x in old {
            if f(&x) {
                self.insert(x);
            }
        }
    }
    fn find<Q: ?Sized + Eq>(&self, q: &Q) -> Option<usize>
    where
        T: Borrow<Q>,
    {
        let mut i = 0;
        while i < CAP {
            if self.has(i) && self.nth(i).borrow() == q {
                return Some(i);
            }
            i += 1;
        }
        None
    }
    fn has(&self, i: usize) -> bool {
        if small::<T>() {
            self.m >> i & 1 == 1
        } else {
            i < self.len()
        }
    }
    fn nth(&self, i: usize) -> &T {
        if small::<T>() {
            by_code(i)
        } else {
            match self.dense() {
                Some(d) => d.at(i),
                None => unreachable!("KENV-DENSE"),
            }
        }
    }
    pub fn contains<Q: ?Sized + Eq>(&self, q: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        let mut r = false;
        let mut i = 0;
        while i < CAP {
            if self.has(i) && self.nth(i).borrow() == q {
                r = true;
            }
            i += 1;
        }
        r
    }
    pub fn get<Q: ?Sized + Eq>(&self, q: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        self.find(q).map(|i| self.nth(i))
    }
    pub fn insert(&mut self, t: T) -> bool {
        if small::<T>() {
            let b = 1 << code(&t);
            let new = self.m & b == 0;
            self.m |= b;
            new
        } else if self.contains(&t) {
            false
        } else {
            self.dense_mut().push(t);
            true
        }
    }
    pub fn replace(&mut self, t: T) -> Option<T> {
        let old = self.take(&t);
        self.insert(t);
        old
    }
    pub fn take<Q: ?Sized + Eq>(&mut self, q: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        match self.find(q) {
            Some(i) => Some(if small::<T>() {
                self.m &= !(1 << i);
                unsafe { std::ptr::read(by_code::<T>(i)) }
            } else {
                self.dense_mut().remove(i)
            }),
            None => None,
        }
    }
    pub fn remove<Q: ?Sized + Eq>(&mut self, q: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.take(q).is_some()
    }
    pub fn is_subset(&self, o: &Self) -> bool {
        self.iter().all(|x| o.contains(x))
    }
    pub fn is_superset(&self, o: &Self) -> bool {
        o.is_subset(self)
    }
    pub fn is_disjoint(&self, o: &Self) -> bool {
        !self.iter().any(|x| o.contains(x))
    }
    pub fn difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a {
        self.iter().filter(move |x| !o.contains(*x))
    }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a {
        self.iter().filter(move |x| o.contains(*x))
    }
    pub fn union<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a {
        self.iter().chain(o.difference(self))
    }
    pub fn symmetric_difference<'a>(&'a self, o: &'a Self) -> impl Iterator<Item = &'a T> + 'a {
        self.difference(o).chain(o.difference(self))
    }
}
impl<T> Default for HashSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for HashSet<T> {
    fn clone(&self) -> Self {
        match self.dense() {
            Some(d) if !small::<T>() => Self { m: 0, d: Box::into_raw(Box::new(d.clone())) },
            _ => Self { m: self.m, d: std::ptr::null_mut() },
        }
    }
}
impl<T: Eq> PartialEq for HashSet<T> {
    fn eq(&self, o: &Self) -> bool {
        if small::<T>() {
            return self.m == o.m;
        }
        self.len() == o.len() && self.is_subset(o)
    }
}
impl<T: Eq> Eq for HashSet<T> {}
impl<T: Debug> Debug for HashSet<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("HashSet")
    }
}
impl<T> IntoIterator for HashSet<T> {
    type Item = T;
    type IntoIter = SIntoIter<T>;
    fn into_iter(self) -> SIntoIter<T> {
        SIntoIter {
            m: self.m,
            at: 0,
            d: if small::<T>() || self.d.is_null() {
                None
            } else {
                Some(DIntoIter { d: *unsafe { Box::from_raw(self.d) }, lo: 0 })
            },
        }
    }
}
impl<'a, T> IntoIterator for &'a HashSet<T> {
    type Item = &'a T;
    type IntoIter = SIter<'a, T>;
    fn into_iter(self) -> SIter<'a, T> {
        self.iter()
    }
}
impl<T: Eq> FromIterator<T> for HashSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut out = Self::new();
        out.extend(it);
        out
    }
}
impl<T: Eq> Extend<T> for HashSet<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            self.insert(x);
        }
    }
}
impl<'a, T: Eq + Copy + 'a> Extend<&'a T> for HashSet<T> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for x in it {
            self.insert(*x);
        }
    }
}
impl<T: Eq, const N: usize> From<[T; N]> for HashSet<T> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}

// ------------------------------------------------------- HashMap / BTreeMap

macro_rules! map_common {
    ($M:ident, $Bound:ident) => {
        pub struct $M<K, V>(Dense<(K, V)>);
        impl<K, V> $M<K, V> {
            pub const fn new() -> Self {
                Self(Dense::new())
            }
            pub fn with_capacity(_: usize) -> Self {
                Self::new()
            }
            pub fn len(&self) -> usize {
                self.0.len
            }
            pub fn is_empty(&self) -> bool {
                self.0.len == 0
            }
            pub fn clear(&mut self) {
                *self = Self::new();
            }
            pub fn drain(&mut self) -> DIntoIter<(K, V)> {
                std::mem::take(self).into_iter()
            }
            pub fn iter(&self) -> MIter<'_, K, V> {
                MIter(DIter { d: &self.0, lo: 0, hi: self.0.len })
            }
            pub fn iter_mut(&mut self) -> MIterMut<'_, K, V> {
                MIterMut { it: self.0.s.iter_mut() }
            }
            pub fn keys(&self) -> impl DoubleEndedIterator<Item = &K> + '_ {
                self.iter().map(|(k, _)| k)
            }
            pub fn values(&self) -> impl DoubleEndedIterator<Item = &V> + '_ {
                self.iter().map(|(_, v)| v)
            }
            pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ {
                self.iter_mut().map(|(_, v)| v)
            }
            pub fn into_keys(self) -> impl Iterator<Item = K> {
                self.into_iter().map(|(k, _)| k)
            }
            pub fn into_values(self) -> impl Iterator<Item = V> {
                self.into_iter().map(|(_, v)| v)
            }
            pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
                let old = std::mem::take(self);
                for (k, mut v) in old {
                    if f(&k, &mut v) {
                        self.0.push((k, v));
                    }
                }
            }
        }
        impl<K: $Bound, V> $M<K, V> {
            fn find<Q: ?Sized + $Bound>(&self, q: &Q) -> Option<usize>
            where
                K: Borrow<Q>,
            {
                let mut r = None;
                let mut i = 0;
                while i < CAP {
                    if i < self.0.len && self.0.at(i).0.borrow() == q {
                        r = Some(i);
                    }
                    i += 1;
                }
                r
            }
            pub fn contains_key<Q: ?Sized + $Bound>(&self, q: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.find(q).is_some()
            }
            pub fn get<Q: ?Sized + $Bound>(&self, q: &Q) -> Option<&V>
            where
                K: Borrow<Q>,
            {
                match self.find(q) {
                    Some(i) => Some(&self.0.at(i).1),
                    None => None,
                }
            }
            pub fn get_key_value<Q: ?Sized + $Bound>(&self, q: &Q) -> Option<(&K, &V)>
            where
                K: Borrow<Q>,
            {
                self.find(q).map(|i| {
                    let x = self.0.at(i);
                    (&x.0, &x.1)
                })
            }
            pub fn get_mut<Q: ?Sized + $Bound>(&mut self, q: &Q) -> Option<&mut V>
            where
                K: Borrow<Q>,
            {
                match self.find(q) {
                    Some(i) => Some(&mut self.0.at_mut(i).1),
                    None => None,
                }
            }
            pub fn remove_entry<Q: ?Sized + $Bound>(&mut self, q: &Q) -> Option<(K, V)>
            where
                K: Borrow<Q>,
            {
                match self.find(q) {
                    Some(i) => Some(self.0.remove(i)),
                    None => None,
                }
            }
            pub fn remove<Q: ?Sized + $Bound>(&mut self, q: &Q) -> Option<V>
            where
                K: Borrow<Q>,
            {
                match self.find(q) {
                    Some(i) => Some(self.0.remove(i).1),
                    None => None,
                }
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.find(&k) {
                    Some(i) => Some(std::mem::replace(&mut self.0.at_mut(i).1, v)),
                    None => {
                        self.insert_new(k, v);
                        None
                    }
                }
            }
            pub fn entry(&mut self, k: K) -> $crate::coll::entry::Entry<'_, Self, K, V> {
                let at = self.find(&k);
                $crate::coll::entry::Entry::mk(self, k, at)
            }
        }
        impl<K: $Bound, V> entry::Backing<K, V> for $M<K, V> {
            fn put_new(&mut self, k: K, v: V) -> usize {
                self.insert_new(k, v)
            }
            fn slot(&mut self, i: usize) -> &mut (K, V) {
                self.0.at_mut(i)
            }
            fn take(&mut self, i: usize) -> (K, V) {
                self.0.remove(i)
            }
        }
        impl<K, V> Default for $M<K, V> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<K: Clone, V: Clone> Clone for $M<K, V> {
            fn clone(&self) -> Self {
                Self(self.0.clone())
            }
        }
        impl<K: $Bound, V: PartialEq> PartialEq for $M<K, V> {
            fn eq(&self, o: &Self) -> bool {
                self.len() == o.len() && self.iter().all(|(k, v)| o.get(k) == Some(v))
            }
        }
        impl<K, V> Debug for $M<K, V> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Map")
            }
        }
        impl<K, V> IntoIterator for $M<K, V> {
            type Item = (K, V);
            type IntoIter = DIntoIter<(K, V)>;
            fn into_iter(self) -> DIntoIter<(K, V)> {
                DIntoIter { d: self.0, lo: 0 }
            }
        }
        impl<'a, K, V> IntoIterator for &'a $M<K, V> {
            type Item = (&'a K, &'a V);
            type IntoIter = MIter<'a, K, V>;
            fn into_iter(self) -> MIter<'a, K, V> {
                self.iter()
            }
        }
        impl<'a, K, V> IntoIterator for &'a mut $M<K, V> {
            type Item = (&'a K, &'a mut V);
            type IntoIter = MIterMut<'a, K, V>;
            fn into_iter(self) -> MIterMut<'a, K, V> {
                self.iter_mut()
            }
        }
        impl<K: $Bound, V> FromIterator<(K, V)> for $M<K, V> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
                let mut out = Self::new();
                out.extend(it);
                out
            }
        }
        impl<K: $Bound, V> Extend<(K, V)> for $M<K, V> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
                for (k, v) in it {
                    self.insert(k, v);
                }
            }
        }
        impl<K: $Bound, V, const N: usize> From<[(K, V); N]> for $M<K, V> {
            fn from(a: [(K, V); N]) -> Self {
                a.into_iter().collect()
            }
        }
        impl<K: $Bound + Borrow<Q>, V, Q: ?Sized + $Bound> std::ops::Index<&Q> for $M<K, V> {
            type Output = V;
            fn index(&self, q: &Q) -> &V {
                self.get(q).expect("no entry found for key")
            }
        }
    };
}

pub struct MIter<'a, K, V>(DIter<'a, (K, V)>);
impl<'a, K, V> Iterator for MIter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<(&'a K, &'a V)> {
        match self.0.next() {
            Some((k, v)) => Some((k, v)),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<'a, K, V> ExactSizeIterator for MIter<'a, K, V> {}
impl<'a, K, V> DoubleEndedIterator for MIter<'a, K, V> {
    fn next_back(&mut self) -> Option<(&'a K, &'a V)> {
        self.0.next_back().map(|(k, v)| (k, v))
    }
}
pub struct MIterMut<'a, K, V> {
    it: std::slice::IterMut<'a, Option<(K, V)>>,
}
impl<'a, K, V> Iterator for MIterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<(&'a K, &'a mut V)> {
        match self.it.next() {
            Some(Some((k, v))) => Some((&*k, v)),
            _ => None,
        }
    }
}

map_common!(HashMap, Eq);
map_common!(BTreeMap, Ord);

impl<K: Eq, V> HashMap<K, V> {
    fn insert_new(&mut self, k: K, v: V) -> usize {
        self.0.push((k, v));
        self.0.len - 1
    }
}
impl<K: Ord, V> BTreeMap<K, V> {
    fn rank<Q: ?Sized + Ord>(&self, q: &Q) -> usize
    where
        K: Borrow<Q>,
    {
        let mut r = 0;
        let mut i = 0;
        while i < CAP {
            if i < self.0.len && self.0.at(i).0.borrow() < q {
                r += 1;
            }
            i += 1;
        }
        r
    }
    fn insert_new(&mut self, k: K, v: V) -> usize {
        let at = self.rank(&k);
        self.0.insert_at(at, (k, v));
        at
    }
    /// `[key, ..)` is moved out
    pub fn split_off<Q: ?Sized + Ord>(&mut self, q: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let r = self.rank(q);
        let n = self.0.len;
        let mut hi = Self::new();
        let mut i = 0;
        while i < CAP {
            if i >= r && i < n {
                hi.0.s[hi.0.len] = self.0.s[i].take();
                hi.0.len += 1;
            }
            i += 1;
        }
        if r < n {
            self.0.len = r;
        }
        hi
    }
    pub fn append(&mut self, o: &mut Self) {
        for (k, v) in std::mem::take(o) {
            self.insert(k, v);
        }
    }
    pub fn first_key_value(&self) -> Option<(&K, &V)> {
        self.iter().next()
    }
    pub fn last_key_value(&self) -> Option<(&K, &V)> {
        self.iter().next_back()
    }
    pub fn pop_first(&mut self) -> Option<(K, V)> {
        if self.0.len == 0 {
            None
        } else {
            Some(self.0.remove(0))
        }
    }
    pub fn pop_last(&mut self) -> Option<(K, V)> {
        if self.0.len == 0 {
            None
        } else {
            Some(self.0.remove(self.0.len - 1))
        }
    }
    pub fn range<Q: ?Sized + Ord, R: RangeBounds<Q>>(&self, r: R) -> MIter<'_, K, V>
    where
        K: Borrow<Q>,
    {
        let mut lo = 0;
        let mut hi = 0;
        let mut i = 0;
        while i < CAP {
            if i < self.0.len {
                let k = self.0.at(i).0.borrow();
                let below = match r.start_bound() {
                    Bound::Included(s) => k < s,
                    Bound::Excluded(s) => k <= s,
                    Bound::Unbounded => false,
                };
                let above = match r.end_bound() {
                    Bound::Included(s) => k > s,
                    Bound::Excluded(s) => k >= s,
                    Bound::Unbounded => false,
                };
                if below {
                    lo += 1;
                }
                if !above {
                    hi += 1;
                }
            }
            i += 1;
        }
        MIter(DIter { d: &self.0, lo, hi: if hi < lo { lo } else { hi } })
    }
}

pub mod entry {
    pub trait Backing<K, V> {
        fn put_new(&mut self, k: K, v: V) -> usize;
        fn slot(&mut self, i: usize) -> &mut (K, V);
        fn take(&mut self, i: usize) -> (K, V);
    }
    pub struct OccupiedEntry<'a, M, K, V> {
        m: &'a mut M,
        at: usize,
        p: std::marker::PhantomData<(K, V)>,
    }
    pub struct VacantEntry<'a, M, K, V> {
        m: &'a mut M,
        k: K,
        p: std::marker::PhantomData<V>,
    }
    pub enum Entry<'a, M, K, V> {
        Occupied(OccupiedEntry<'a, M, K, V>),
        Vacant(VacantEntry<'a, M, K, V>),
    }
    impl<'a, K: 'a, V: 'a, M: Backing<K, V>> Entry<'a, M, K, V> {
        pub(super) fn mk(m: &'a mut M, k: K, at: Option<usize>) -> Self {
            match at {
                Some(at) => Entry::Occupied(OccupiedEntry { m, at, p: std::marker::PhantomData }),
                None => Entry::Vacant(VacantEntry { m, k, p: std::marker::PhantomData }),
            }
        }
        pub fn or_insert_with(self, f: impl FnOnce() -> V) -> &'a mut V {
            match self {
                Entry::Occupied(o) => &mut o.m.slot(o.at).1,
                Entry::Vacant(v) => v.insert(f()),
            }
        }
        pub fn or_insert(self, v: V) -> &'a mut V {
            self.or_insert_with(|| v)
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self {
            if let Entry::Occupied(o) = &mut self {
                f(&mut o.m.slot(o.at).1);
            }
            self
        }
    }
    impl<'a, K: 'a, V: 'a, M: Backing<K, V>> OccupiedEntry<'a, M, K, V> {
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.m.slot(self.at).1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.m.slot(self.at).1
        }
        pub fn insert(&mut self, v: V) -> V {
            std::mem::replace(self.get_mut(), v)
        }
        pub fn remove(self) -> V {
            self.m.take(self.at).1
        }
    }
    impl<'a, K: 'a, V: 'a, M: Backing<K, V>> VacantEntry<'a, M, K, V> {
        pub fn insert(self, v: V) -> &'a mut V {
            let at = self.m.put_new(self.k, v);
            &mut self.m.slot(at).1
        }
    }
}

/// ordered set over the ordered map model
pub struct BTreeSet<T>(BTreeMap<T, ()>);
impl<T: Ord> BTreeSet<T> {
    pub fn new() -> Self {
        Self(BTreeMap::new())
    }
    pub fn insert(&mut self, t: T) -> bool {
        self.0.insert(t, ()).is_none()
    }
    pub fn contains(&self, t: &T) -> bool {
        self.0.contains_key(t)
    }
    pub fn remove(&mut self, t: &T) -> bool {
        self.0.remove(t).is_some()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> impl DoubleEndedIterator<Item = &T> + '_ {
        self.0.iter().map(|x| x.0)
    }
    pub fn first(&self) -> Option<&T> {
        self.0.first_key_value().map(|x| x.0)
    }
    pub fn last(&self) -> Option<&T> {
        self.0.last_key_value().map(|x| x.0)
    }
}
impl<T: Ord> Default for BTreeSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Ord> FromIterator<T> for BTreeSet<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        Self(it.into_iter().map(|x| (x, ())).collect())
    }
}
impl<T: Ord> IntoIterator for BTreeSet<T> {
    type Item = T;
    type IntoIter = std::iter::Map<DIntoIter<(T, ())>, fn((T, ())) -> T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter().map(|x| x.0)
    }
}

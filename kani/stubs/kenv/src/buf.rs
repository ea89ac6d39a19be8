//! `bytes::Bytes`, bounded and inline.
use std::ops::Deref;

pub const BCAP: usize = 16;

#[derive(Clone, Copy)]
pub struct Bytes {
    pub b: [u8; BCAP],
    pub len: usize,
}
impl Bytes {
    pub const fn new() -> Self {
        Bytes { b: [0; BCAP], len: 0 }
    }
    pub fn copy_from_slice(s: &[u8]) -> Self {
        assert!(s.len() <= BCAP, "KENV-CAPACITY");
        let mut b = [0u8; BCAP];
        let n = s.len();
        let mut i = 0;
        while i < BCAP {
            if i < n {
                b[i] = s[i];
            }
            i += 1;
        }
        Bytes { b, len: n }
    }
    pub fn from_static(s: &'static [u8]) -> Self {
        Self::copy_from_slice(s)
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.b[..self.len].to_vec()
    }
    pub fn slice(&self, r: impl std::ops::RangeBounds<usize>) -> Self {
        use std::ops::Bound::*;
        let lo = match r.start_bound() {
            Included(x) => *x,
            Excluded(x) => *x + 1,
            Unbounded => 0,
        };
        let hi = match r.end_bound() {
            Included(x) => *x + 1,
            Excluded(x) => *x,
            Unbounded => self.len,
        };
        Self::copy_from_slice(&self.b[lo..hi])
    }
}
impl Default for Bytes {
    fn default() -> Self {
        Self::new()
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.b[..self.len]
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        self
    }
}
impl From<Vec<u8>> for Bytes {
    fn from(v: Vec<u8>) -> Self {
        Self::copy_from_slice(&v)
    }
}
impl From<Bytes> for Vec<u8> {
    fn from(v: Bytes) -> Self {
        v.to_vec()
    }
}
impl From<&'static str> for Bytes {
    fn from(v: &'static str) -> Self {
        Self::copy_from_slice(v.as_bytes())
    }
}
impl From<&'static [u8]> for Bytes {
    fn from(v: &'static [u8]) -> Self {
        Self::copy_from_slice(v)
    }
}
impl From<String> for Bytes {
    fn from(v: String) -> Self {
        Self::copy_from_slice(v.as_bytes())
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Self) -> bool {
        let mut r = self.len == o.len;
        let mut i = 0;
        while i < BCAP {
            if i < self.len && self.b[i] != o.b[i] {
                r = false;
            }
            i += 1;
        }
        r
    }
}
impl Eq for Bytes {}
impl std::fmt::Debug for Bytes {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Bytes")
    }
}

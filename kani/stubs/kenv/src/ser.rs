//! Byte codec: models serde + bincode (fields in order, enum by position).
use crate::buf::Bytes;

pub const WCAP: usize = 64;
pub struct W {
    pub buf: [u8; WCAP],
    pub len: usize,
    first: Option<u8>,
}
impl W {
    pub fn new() -> Self {
        W { buf: [0; WCAP], len: 0, first: None }
    }
    pub fn bytes(&self) -> Bytes {
        Bytes::copy_from_slice(&self.buf[..self.len])
    }
    #[inline]
    pub fn put(&mut self, b: u8) {
        if self.first.is_none() {
            self.first = Some(b);
        }
        assert!(self.len < WCAP, "KENV-CAPACITY");
        self.buf[self.len] = b;
        self.len += 1;
    }
    pub fn put_all(&mut self, b: &[u8]) {
        assert!(self.len + b.len() <= WCAP, "KENV-CAPACITY");
        let mut i = 0;
        while i < b.len() {
            self.buf[self.len] = b[i];
            self.len += 1;
            i += 1;
        }
    }
}
/// Reading past the end yields zeros and sets `bad`: decoders return plain
/// values, so that the variant of a decoded enum stays a constant.
pub struct R<'de> {
    pub buf: &'de [u8],
    pub pos: usize,
    pub bad: bool,
}
impl<'de> R<'de> {
    #[inline]
    pub fn get(&mut self) -> u8 {
        if self.pos < self.buf.len() {
            let b = self.buf[self.pos];
            self.pos += 1;
            b
        } else {
            self.bad = true;
            0
        }
    }
    pub fn get_n(&mut self, n: usize) -> &'de [u8] {
        if n <= self.buf.len() - self.pos {
            let b = &self.buf[self.pos..self.pos + n];
            self.pos += n;
            b
        } else {
            self.bad = true;
            &self.buf[..0]
        }
    }
}

crate::gstatic! { pub ONLY: ([Bytes; 5], usize) = ([Bytes::new(); 5], 0); }
/// Harnesses may declare what is ever decoded: decoding anything else fails,
/// and execution does not have to explore it.
pub fn only(xs: &[Bytes]) {
    unsafe {
        let mut i = 0;
        while i < xs.len() {
            ONLY.1 .0[i] = xs[i];
            i += 1;
        }
        ONLY.1 .1 = xs.len();
    }
}
fn same(b: &[u8], c: &Bytes) -> bool {
    let mut i = 0;
    while i < c.len {
        if b[i] != c.b[i] {
            return false;
        }
        i += 1;
    }
    true
}

pub trait Serialize {
    fn ser(&self, w: &mut W);
}
pub trait Deserialize<'de>: Sized {
    fn de(r: &mut R<'de>) -> Self;
}

impl<T: Serialize + ?Sized> Serialize for &T {
    fn ser(&self, w: &mut W) {
        (**self).ser(w)
    }
}
macro_rules! int {
    ($t:ty, $n:literal) => {
        impl Serialize for $t {
            fn ser(&self, w: &mut W) {
                w.put_all(&self.to_le_bytes());
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn de(r: &mut R<'de>) -> Self {
                let s = r.get_n($n);
                let mut x: $t = 0;
                let mut i = 0;
                while i < s.len() {
                    x |= (s[i] as $t) << (8 * i);
                    i += 1;
                }
                x
            }
        }
    };
}
int!(u8, 1);
int!(u16, 2);
int!(u32, 4);
int!(u64, 8);
int!(i64, 8);
impl Serialize for bool {
    fn ser(&self, w: &mut W) {
        w.put(*self as u8)
    }
}
impl<'de> Deserialize<'de> for bool {
    fn de(r: &mut R<'de>) -> Self {
        let b = r.get();
        if b > 1 {
            r.bad = true;
        }
        b == 1
    }
}
impl<T: Serialize> Serialize for Option<T> {
    fn ser(&self, w: &mut W) {
        match self {
            None => w.put(0),
            Some(x) => {
                w.put(1);
                x.ser(w)
            }
        }
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Option<T> {
    fn de(r: &mut R<'de>) -> Self {
        let b = r.get();
        if b > 1 {
            r.bad = true;
        }
        if b == 1 {
            Some(T::de(r))
        } else {
            None
        }
    }
}
impl<A: Serialize, B: Serialize> Serialize for (A, B) {
    fn ser(&self, w: &mut W) {
        self.0.ser(w);
        self.1.ser(w);
    }
}
impl<'de, A: Deserialize<'de>, B: Deserialize<'de>> Deserialize<'de> for (A, B) {
    fn de(r: &mut R<'de>) -> Self {
        let a = A::de(r);
        (a, B::de(r))
    }
}
pub fn put_bytes(b: &[u8], w: &mut W) {
    w.put(b.len() as u8);
    w.put_all(b);
}
pub fn get_bytes<'de>(r: &mut R<'de>) -> &'de [u8] {
    let n = r.get() as usize;
    r.get_n(n)
}
impl Serialize for String {
    fn ser(&self, w: &mut W) {
        put_bytes(self.as_bytes(), w)
    }
}
impl<'de> Deserialize<'de> for String {
    fn de(r: &mut R<'de>) -> Self {
        // strings of the model are ASCII
        let b = get_bytes(r);
        unsafe { String::from_utf8_unchecked(b.to_vec()) }
    }
}
impl Serialize for Bytes {
    fn ser(&self, w: &mut W) {
        put_bytes(self, w)
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn de(r: &mut R<'de>) -> Self {
        Bytes::copy_from_slice(get_bytes(r))
    }
}
impl Serialize for Vec<u8> {
    fn ser(&self, w: &mut W) {
        put_bytes(self, w)
    }
}
impl<'de> Deserialize<'de> for Vec<u8> {
    fn de(r: &mut R<'de>) -> Self {
        get_bytes(r).to_vec()
    }
}

// Sets have a fixed-size encoding so that positions stay concrete.
impl<T: Serialize> Serialize for crate::coll::HashSet<T> {
    fn ser(&self, w: &mut W) {
        w.put(self.len() as u8);
        let mut it = self.iter();
        let mut i = 0;
        while i < crate::coll::CAP {
            match it.next() {
                Some(x) => x.ser(w),
                None => w.put(0),
            }
            i += 1;
        }
    }
}
impl<'de, T: Deserialize<'de> + Eq> Deserialize<'de> for crate::coll::HashSet<T> {
    fn de(r: &mut R<'de>) -> Self {
        let n = r.get() as usize;
        let mut out = Self::new();
        let mut i = 0;
        while i < crate::coll::CAP {
            if i < n {
                out.insert(T::de(r));
            } else {
                r.get();
            }
            i += 1;
        }
        out
    }
}
// Only in native replays: in order, as the model's sets are.
impl<T: Serialize> Serialize for std::collections::HashSet<T> {
    fn ser(&self, w: &mut W) {
        w.put(self.len() as u8);
        let mut xs: Vec<Vec<u8>> = self
            .iter()
            .map(|x| {
                let mut e = W::new();
                x.ser(&mut e);
                e.buf[..e.len].to_vec()
            })
            .collect();
        xs.sort();
        for x in xs {
            for b in x {
                w.put(b)
            }
        }
        for _ in self.len()..crate::coll::CAP {
            w.put(0)
        }
    }
}
impl<'de, T: Deserialize<'de> + Eq + std::hash::Hash> Deserialize<'de> for std::collections::HashSet<T> {
    fn de(r: &mut R<'de>) -> Self {
        let n = r.get() as usize;
        let mut out = Self::new();
        for i in 0..crate::coll::CAP {
            if i < n {
                out.insert(T::de(r));
            } else {
                r.get();
            }
        }
        out
    }
}

// ---- bincode
/// Large and without unused values, so that `Result<Command, CodecError>` gets
/// a tag of its own.
pub struct CodecError(pub [u64; 128]);
impl CodecError {
    fn new() -> Self {
        CodecError([0; 128])
    }
}
impl std::fmt::Debug for CodecError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("codec")
    }
}
impl std::fmt::Display for CodecError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("codec")
    }
}
impl std::error::Error for CodecError {}
pub fn serialize<T: Serialize + ?Sized>(x: &T) -> Result<Vec<u8>, CodecError> {
    let mut w = W::new();
    x.ser(&mut w);
    let k = unsafe { ONLY.1 .1 };
    if k > 0 {
        // the variant is constant even if the rest is not
        let mut n = 0;
        let mut at = 0;
        let mut i = 0;
        while i < k {
            let c = unsafe { ONLY.1 .0[i] };
            if w.first == Some(c.b[0]) {
                n += 1;
                at = i;
            }
            i += 1;
        }
        if n == 1 {
            let c = unsafe { ONLY.1 .0[at] };
            if w.len != c.len || !same(&w.buf, &c) {
                panic!("KENV: encoded something unexpected");
            }
            return Ok(vec_of(&c));
        }
        i = 0;
        while i < k {
            let c = unsafe { ONLY.1 .0[i] };
            if w.len == c.len && same(&w.buf, &c) {
                return Ok(vec_of(&c));
            }
            i += 1;
        }
        panic!("KENV: encoded something unexpected");
    }
    let mut v = Vec::with_capacity(WCAP);
    let mut i = 0;
    while i < w.len {
        v.push(w.buf[i]);
        i += 1;
    }
    Ok(v)
}
fn vec_of(c: &Bytes) -> Vec<u8> {
    // one typed assignment: keeps the bytes constant for the model checker
    unsafe { Vec::from_raw_parts(Box::into_raw(Box::new(c.b)) as *mut u8, c.len, crate::buf::BCAP) }
}
pub fn deserialize<'de, T: Deserialize<'de>>(b: &'de [u8]) -> Result<T, CodecError> {
    let k = unsafe { ONLY.1 .1 };
    if k > 0 {
        let mut i = 0;
        while i < k {
            let c = unsafe { &ONLY.1 .0[i] };
            if b.len() == c.len && same(b, c) {
                return dec(&c.b[..c.len]);
            }
            i += 1;
        }
        panic!("KENV: decoded something unexpected");
    }
    dec(b)
}
fn dec<'de, T: Deserialize<'de>>(b: &'de [u8]) -> Result<T, CodecError> {
    let mut r = R { buf: b, pos: 0, bad: false };
    let x = T::de(&mut r);
    if r.bad {
        return Err(CodecError::new());
    }
    Ok(x)
}
// ---- serde_bytes
pub fn bytes_serialize<T: AsRef<[u8]> + ?Sized>(x: &T, w: &mut W) {
    put_bytes(x.as_ref(), w)
}
pub trait FromSlice<'de>: Sized {
    fn from_slice(b: &'de [u8]) -> Self;
}
impl<'de> FromSlice<'de> for &'de [u8] {
    fn from_slice(b: &'de [u8]) -> Self {
        b
    }
}
impl<'de> FromSlice<'de> for Vec<u8> {
    fn from_slice(b: &'de [u8]) -> Self {
        b.to_vec()
    }
}
impl<'de> FromSlice<'de> for Bytes {
    fn from_slice(b: &'de [u8]) -> Self {
        Bytes::copy_from_slice(b)
    }
}
pub fn bytes_deserialize<'de, T: FromSlice<'de>>(r: &mut R<'de>) -> T {
    T::from_slice(get_bytes(r))
}

//! `http::Uri`: node addresses are drawn from a finite set, written as one
//! ASCII character.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Uri(pub u8);
impl Uri {
    pub fn from_static(_: &'static str) -> Self {
        Uri(99)
    }
}
impl std::fmt::Debug for Uri {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
impl std::fmt::Display for Uri {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let b = [b'a' + (self.0 & 15)];
        f.write_str(unsafe { std::str::from_utf8_unchecked(&b) })
    }
}
#[derive(Debug)]
pub struct InvalidUri;
impl std::fmt::Display for InvalidUri {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("uri")
    }
}
impl std::error::Error for InvalidUri {}
impl std::str::FromStr for Uri {
    type Err = InvalidUri;
    fn from_str(s: &str) -> Result<Self, InvalidUri> {
        let b = s.as_bytes();
        if b.len() == 1 && b[0] >= b'a' && b[0] < b'a' + 16 {
            Ok(Uri(b[0] - b'a'))
        } else {
            Err(InvalidUri)
        }
    }
}

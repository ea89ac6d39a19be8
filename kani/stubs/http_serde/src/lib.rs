pub mod uri {
    use kenv::{ser::{R, W}, uri::Uri};
    pub fn serialize(u: &Uri, w: &mut W) { w.put(u.0) }
    pub fn deserialize(r: &mut R<'_>) -> Uri { Uri(r.get()) }
}

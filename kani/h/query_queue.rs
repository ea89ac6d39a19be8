use super::*;
/// the consuming end for what `p` registers
pub fn processor(p: &Producer, app: App) -> Processor {
    Processor { app: Ref(app), inner: p.inner.clone() }
}

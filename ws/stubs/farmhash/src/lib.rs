//! Type-only stub of the git dependency `farmhash` (analysis never runs it).
pub fn fingerprint64(_s: &[u8]) -> u64 {
    unimplemented!()
}

//! Ideal hash: equal inputs give equal outputs, different inputs different outputs.
extern "C" {
    fn ksym_hash(p: *const u8, n: usize, out: *mut u8);
    fn ksym_assume(c: bool);
    fn ksym_sym(p: *const u8, n: usize, w: u32) -> u64;
    static KSYM_XOF: core::sync::atomic::AtomicU8;
}
pub const OUT_LEN: usize = 32;
pub const KEY_LEN: usize = 32;

fn h(x: &[u8]) -> [u8; 32] { let mut o = [0u8; 32]; unsafe { ksym_hash(x.as_ptr(), x.len(), o.as_mut_ptr()) }; o }

#[derive(Clone, Copy, Hash, PartialEq, Eq)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Hash([u8; 32]);
impl Hash {
    pub const fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn as_slice(&self) -> &[u8] { &self.0 }
    pub const fn from_bytes(b: [u8; 32]) -> Self { Hash(b) }
    pub fn to_hex(&self) -> String { self.0.iter().map(|b| format!("{b:02x}")).collect() }
}
impl From<[u8; 32]> for Hash { fn from(b: [u8; 32]) -> Self { Hash(b) } }
impl From<Hash> for [u8; 32] { fn from(h: Hash) -> Self { h.0 } }
impl PartialEq<[u8; 32]> for Hash { fn eq(&self, o: &[u8; 32]) -> bool { self.0 == *o } }
impl PartialEq<[u8]> for Hash { fn eq(&self, o: &[u8]) -> bool { self.0 == *o } }
impl core::fmt::Display for Hash { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str(&self.to_hex()) } }
impl core::fmt::Debug for Hash { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.debug_tuple("Hash").field(&self.to_hex()).finish() } }

pub fn hash(input: &[u8]) -> Hash { Hash(h(input)) }
fn tagged(tag: &[u8], ctx: &[u8], m: &[u8]) -> [u8; 32] {
    let mut v = Vec::with_capacity(tag.len() + ctx.len() + m.len() + 8);
    v.extend_from_slice(tag); v.extend_from_slice(&(ctx.len() as u64).to_le_bytes()); v.extend_from_slice(ctx); v.extend_from_slice(m);
    h(&v)
}
pub fn derive_key(context: &str, m: &[u8]) -> [u8; 32] { tagged(b"blake3/derive", context.as_bytes(), m) }
pub fn keyed_hash(key: &[u8; 32], m: &[u8]) -> Hash { Hash(tagged(b"blake3/keyed", key, m)) }

#[derive(Clone, Default)]
pub struct Hasher { mode: Vec<u8>, buf: Vec<u8> }
impl Hasher {
    pub fn new() -> Self { Self::default() }
    pub fn new_keyed(key: &[u8; 32]) -> Self { let mut m = b"blake3/keyed".to_vec(); m.extend_from_slice(&32u64.to_le_bytes()); m.extend_from_slice(key); Hasher { mode: m, buf: vec![] } }
    pub fn new_derive_key(c: &str) -> Self { let mut m = b"blake3/derive".to_vec(); m.extend_from_slice(&(c.len() as u64).to_le_bytes()); m.extend_from_slice(c.as_bytes()); Hasher { mode: m, buf: vec![] } }
    pub fn reset(&mut self) -> &mut Self { self.buf.clear(); self }
    pub fn update(&mut self, x: &[u8]) -> &mut Self { self.buf.extend_from_slice(x); self }
    fn all(&self) -> Vec<u8> { let mut v = self.mode.clone(); v.extend_from_slice(&self.buf); v }
    pub fn finalize(&self) -> Hash { Hash(h(&self.all())) }
    pub fn finalize_xof(&self) -> OutputReader { OutputReader { root: h(&self.all()), pos: 0 } }
    pub fn count(&self) -> u64 { self.buf.len() as u64 }
}
#[derive(Clone)]
pub struct OutputReader { root: [u8; 32], pos: u64 }
impl OutputReader {
    pub fn fill(&mut self, buf: &mut [u8]) {
        // where a harness asks for it, any output of bounded length
        let left = unsafe { KSYM_XOF.load(core::sync::atomic::Ordering::Relaxed) };
        if left > 0 {
            unsafe { ksym_assume(left as usize > buf.len()); KSYM_XOF.store(left - buf.len() as u8, core::sync::atomic::Ordering::Relaxed); }
            for b in buf.iter_mut() { *b = unsafe { ksym_sym(b"xof".as_ptr(), 3, 8) } as u8; }
            return;
        }
        let mut cur: Option<(u64, [u8; 32])> = None;
        for b in buf.iter_mut() {
            let blk = self.pos / 32;
            if cur.map(|c| c.0) != Some(blk) { cur = Some((blk, if blk == 0 { self.root } else { tagged(b"blake3/xof", &self.root, &blk.to_le_bytes()) })); }
            *b = cur.unwrap().1[(self.pos % 32) as usize];
            self.pos += 1;
        }
    }
    pub fn position(&self) -> u64 { self.pos }
    pub fn set_position(&mut self, p: u64) { self.pos = p; }
}

//! Ideal AEAD: ciphertexts open only under the key, nonce and associated data they were sealed with.
pub use aead::{self, consts, AeadCore, AeadInPlace, Error, KeyInit, KeySizeUser};
#[cfg(feature = "alloc")]
pub use aead::Aead;
#[cfg(feature = "getrandom")]
pub use aead::rand_core;
use aead::consts::{U0, U12, U16, U24, U32};
use aead::generic_array::GenericArray;
extern "C" { fn ksym_hash(p: *const u8, n: usize, out: *mut u8); }
pub type Key = GenericArray<u8, U32>;
pub type Nonce = GenericArray<u8, U12>;
pub type XNonce = GenericArray<u8, U24>;
pub type Tag = GenericArray<u8, U16>;

fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut v = Vec::new();
    for p in parts { v.extend_from_slice(&(p.len() as u32).to_le_bytes()); v.extend_from_slice(p); }
    let mut o = [0u8; 32]; unsafe { ksym_hash(v.as_ptr(), v.len(), o.as_mut_ptr()) }; o
}
macro_rules! cipher { ($n:ident, $nonce:ty) => {
    #[derive(Clone)]
    pub struct $n([u8; 32]);
    impl KeySizeUser for $n { type KeySize = U32; }
    impl KeyInit for $n { fn new(k: &Key) -> Self { let mut b = [0u8; 32]; b.copy_from_slice(k); $n(b) } }
    impl AeadCore for $n { type NonceSize = $nonce; type TagSize = U16; type CiphertextOverhead = U0; }
    impl $n {
        fn stream(&self, nonce: &[u8], buf: &mut [u8]) {
            for (i, c) in buf.chunks_mut(32).enumerate() {
                let k = h(&[b"aead/ks", &self.0, nonce, &(i as u64).to_le_bytes()]);
                for (b, k) in c.iter_mut().zip(k) { *b ^= k; }
            }
        }
        fn tag(&self, nonce: &[u8], aad: &[u8], ct: &[u8]) -> Tag { let t = h(&[b"aead/tag", &self.0, nonce, aad, ct]); let mut o = Tag::default(); o.copy_from_slice(&t[..16]); o }
    }
    impl AeadInPlace for $n {
        fn encrypt_in_place_detached(&self, n: &GenericArray<u8, $nonce>, aad: &[u8], buf: &mut [u8]) -> Result<Tag, Error> {
            self.stream(n, buf);
            Ok(self.tag(n, aad, buf))
        }
        fn decrypt_in_place_detached(&self, n: &GenericArray<u8, $nonce>, aad: &[u8], buf: &mut [u8], tag: &Tag) -> Result<(), Error> {
            let want = self.tag(n, aad, buf);
            let mut d = 0u8;
            for (a, b) in want.iter().zip(tag.iter()) { d |= a ^ b; }
            if d != 0 { return Err(Error); }
            self.stream(n, buf);
            Ok(())
        }
    }
} }
cipher!(XChaCha20Poly1305, U24);
cipher!(ChaCha20Poly1305, U12);

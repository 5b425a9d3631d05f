//! Ideal Diffie-Hellman: both sides derive the same secret, determined by the unordered key pair.
use rand_core::{CryptoRng, RngCore};
use serde::{Deserialize, Serialize};
extern "C" { fn ksym_hash(p: *const u8, n: usize, out: *mut u8); }
const MASK: u8 = 0xC3;

#[derive(PartialEq, Eq, Hash, Copy, Clone, Debug, Serialize, Deserialize)]
pub struct PublicKey([u8; 32]);
impl PublicKey { pub fn to_bytes(&self) -> [u8; 32] { self.0 } pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } }
impl AsRef<[u8]> for PublicKey { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<[u8; 32]> for PublicKey { fn from(b: [u8; 32]) -> Self { PublicKey(b) } }
fn pk(s: &[u8; 32]) -> PublicKey { let mut o = *s; for b in o.iter_mut() { *b ^= MASK; } PublicKey(o) }
fn dh(s: &[u8; 32], p: &PublicKey) -> SharedSecret {
    let me = pk(s).0;
    let mut v = [0u8; 76];
    v[..12].copy_from_slice(b"x25519/share");
    for i in 0..32 { v[12 + i] = me[i] ^ p.0[i]; v[44 + i] = me[i].wrapping_add(p.0[i]); }
    let mut o = [0u8; 32]; unsafe { ksym_hash(v.as_ptr(), v.len(), o.as_mut_ptr()) };
    SharedSecret(o)
}
pub struct SharedSecret([u8; 32]);
impl SharedSecret { pub fn to_bytes(&self) -> [u8; 32] { self.0 } pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } pub fn was_contributory(&self) -> bool { true } }
macro_rules! secret { ($n:ident, $($by:tt)*) => {
    impl $n {
        pub fn random_from_rng<R: RngCore + CryptoRng>(mut r: R) -> Self { let mut b = [0u8; 32]; r.fill_bytes(&mut b); $n(b) }
        pub fn diffie_hellman($($by)* self, p: &PublicKey) -> SharedSecret { dh(&self.0, p) }
    }
    impl From<&$n> for PublicKey { fn from(s: &$n) -> PublicKey { pk(&s.0) } }
} }
pub struct EphemeralSecret([u8; 32]);
secret!(EphemeralSecret,);
#[derive(Clone)]
pub struct ReusableSecret([u8; 32]);
secret!(ReusableSecret, &);
#[derive(Clone, Serialize, Deserialize)]
pub struct StaticSecret([u8; 32]);
secret!(StaticSecret, &);
impl StaticSecret { pub fn to_bytes(&self) -> [u8; 32] { self.0 } pub fn as_bytes(&self) -> &[u8; 32] { &self.0 } }
impl From<[u8; 32]> for StaticSecret { fn from(b: [u8; 32]) -> Self { StaticSecret(b) } }
impl AsRef<[u8]> for StaticSecret { fn as_ref(&self) -> &[u8] { &self.0 } }

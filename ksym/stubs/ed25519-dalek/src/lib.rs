//! Ideal signatures: a signature verifies exactly for the key and message it was made with.
use serde::{de::Error as _, de::SeqAccess, de::Visitor, ser::SerializeTuple, Deserialize, Deserializer, Serialize, Serializer};
pub use signature::{Error as SignatureError, Signer, Verifier};
extern "C" { fn ksym_hash(p: *const u8, n: usize, out: *mut u8); }
fn h(tag: &[u8], a: &[u8], b: &[u8]) -> [u8; 32] {
    let mut v = Vec::with_capacity(tag.len() + a.len() + b.len());
    v.extend_from_slice(tag); v.extend_from_slice(a); v.extend_from_slice(b);
    let mut o = [0u8; 32]; unsafe { ksym_hash(v.as_ptr(), v.len(), o.as_mut_ptr()) }; o
}
pub const PUBLIC_KEY_LENGTH: usize = 32;
pub const SECRET_KEY_LENGTH: usize = 32;
pub const SIGNATURE_LENGTH: usize = 64;
pub type SecretKey = [u8; 32];

#[derive(Copy, Clone, Default, Eq, PartialEq, Hash)]
pub struct VerifyingKey([u8; 32]);
impl core::fmt::Debug for VerifyingKey { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "VerifyingKey({:?})", &self.0[..4]) } }
impl VerifyingKey {
    pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.0 }
    pub fn from_bytes(b: &[u8; 32]) -> Result<Self, SignatureError> { Ok(Self(*b)) }
    pub fn verify_strict(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { self.verify(m, s) }
    pub fn is_weak(&self) -> bool { false }
}
impl AsRef<[u8]> for VerifyingKey { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<&SigningKey> for VerifyingKey { fn from(s: &SigningKey) -> Self { s.verifying_key() } }
impl TryFrom<&[u8]> for VerifyingKey { type Error = SignatureError; fn try_from(b: &[u8]) -> Result<Self, SignatureError> { Ok(Self(b.try_into().map_err(|_| SignatureError::new())?)) } }
impl Verifier<Signature> for VerifyingKey {
    fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> {
        if sig(self, m).0 == s.0 { Ok(()) } else { Err(SignatureError::new()) }
    }
}
fn sig(vk: &VerifyingKey, m: &[u8]) -> Signature {
    let r = h(b"ed25519/sig", &vk.0, m);
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&r);
    for i in 0..32 { o[32 + i] = r[31 - i] ^ 0x5a; }
    Signature(o)
}
struct BytesVisitor;
impl<'de> Visitor<'de> for BytesVisitor {
    type Value = [u8; 32];
    fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("32 bytes") }
    fn visit_bytes<E: serde::de::Error>(self, b: &[u8]) -> Result<[u8; 32], E> { b.try_into().map_err(|_| E::invalid_length(b.len(), &self)) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<[u8; 32], A::Error> {
        let mut o = [0u8; 32];
        for (i, b) in o.iter_mut().enumerate() { *b = s.next_element()?.ok_or_else(|| A::Error::invalid_length(i, &"32 bytes"))?; }
        Ok(o)
    }
}
impl Serialize for VerifyingKey { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
impl<'d> Deserialize<'d> for VerifyingKey { fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> { Ok(Self(d.deserialize_bytes(BytesVisitor)?)) } }

#[derive(Clone)]
pub struct SigningKey { secret: [u8; 32], vk: VerifyingKey }
impl SigningKey {
    pub fn from_bytes(s: &[u8; 32]) -> Self { SigningKey { secret: *s, vk: VerifyingKey(h(b"ed25519/vk", s, &[])) } }
    pub fn generate<R: rand_core::CryptoRngCore + ?Sized>(r: &mut R) -> Self { let mut s = [0u8; 32]; r.fill_bytes(&mut s); Self::from_bytes(&s) }
    pub fn to_bytes(&self) -> [u8; 32] { self.secret }
    pub fn as_bytes(&self) -> &[u8; 32] { &self.secret }
    pub fn verifying_key(&self) -> VerifyingKey { self.vk }
    pub fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { self.vk.verify(m, s) }
}
impl core::fmt::Debug for SigningKey { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("SigningKey") } }
impl PartialEq for SigningKey { fn eq(&self, o: &Self) -> bool { self.secret == o.secret } }
impl Eq for SigningKey {}
impl AsRef<VerifyingKey> for SigningKey { fn as_ref(&self) -> &VerifyingKey { &self.vk } }
impl From<[u8; 32]> for SigningKey { fn from(b: [u8; 32]) -> Self { Self::from_bytes(&b) } }
impl From<&[u8; 32]> for SigningKey { fn from(b: &[u8; 32]) -> Self { Self::from_bytes(b) } }
impl TryFrom<&[u8]> for SigningKey { type Error = SignatureError; fn try_from(b: &[u8]) -> Result<Self, SignatureError> { let a: [u8; 32] = b.try_into().map_err(|_| SignatureError::new())?; Ok(Self::from_bytes(&a)) } }
impl Signer<Signature> for SigningKey { fn try_sign(&self, m: &[u8]) -> Result<Signature, SignatureError> { Ok(sig(&self.vk, m)) } }
impl Verifier<Signature> for SigningKey { fn verify(&self, m: &[u8], s: &Signature) -> Result<(), SignatureError> { Verifier::verify(&self.vk, m, s) } }
impl signature::Keypair for SigningKey { type VerifyingKey = VerifyingKey; fn verifying_key(&self) -> VerifyingKey { self.vk } }
impl Serialize for SigningKey { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.secret) } }
impl<'d> Deserialize<'d> for SigningKey { fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> { Ok(Self::from_bytes(&d.deserialize_bytes(BytesVisitor)?)) } }

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Signature([u8; 64]);
impl core::fmt::Debug for Signature { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { write!(f, "Signature({:?})", &self.0[..4]) } }
impl core::fmt::Display for Signature { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { for b in self.0 { write!(f, "{b:02X}")?; } Ok(()) } }
impl Signature {
    pub fn from_bytes(b: &[u8; 64]) -> Self { Signature(*b) }
    pub fn from_slice(b: &[u8]) -> Result<Self, SignatureError> { Ok(Signature(b.try_into().map_err(|_| SignatureError::new())?)) }
    pub fn to_bytes(&self) -> [u8; 64] { self.0 }
    pub fn to_vec(&self) -> Vec<u8> { self.0.to_vec() }
    pub fn r_bytes(&self) -> &[u8; 32] { self.0[..32].try_into().unwrap() }
    pub fn s_bytes(&self) -> &[u8; 32] { self.0[32..].try_into().unwrap() }
}
impl From<[u8; 64]> for Signature { fn from(b: [u8; 64]) -> Self { Signature(b) } }
impl From<&[u8; 64]> for Signature { fn from(b: &[u8; 64]) -> Self { Signature(*b) } }
impl From<Signature> for [u8; 64] { fn from(s: Signature) -> Self { s.0 } }
impl TryFrom<&[u8]> for Signature { type Error = SignatureError; fn try_from(b: &[u8]) -> Result<Self, SignatureError> { Self::from_slice(b) } }
impl signature::SignatureEncoding for Signature { type Repr = [u8; 64]; }
impl Serialize for Signature { fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { let mut t = s.serialize_tuple(64)?; for b in &self.0 { t.serialize_element(b)?; } t.end() } }
struct SigVisitor;
impl<'de> Visitor<'de> for SigVisitor {
    type Value = Signature;
    fn expecting(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("64 bytes") }
    fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<Signature, A::Error> {
        let mut o = [0u8; 64];
        for (i, b) in o.iter_mut().enumerate() { *b = s.next_element()?.ok_or_else(|| A::Error::invalid_length(i, &"64 bytes"))?; }
        Ok(Signature(o))
    }
}
impl<'d> Deserialize<'d> for Signature { fn deserialize<D: Deserializer<'d>>(d: D) -> Result<Self, D::Error> { d.deserialize_tuple(64, SigVisitor) } }

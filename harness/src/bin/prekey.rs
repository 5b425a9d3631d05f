//! Prekeys: an add-only, rotating set every replica agrees on, from which a key can always be drawn.
use harness::*;
use keyhive_core::principal::{document::id::DocumentId, individual::{op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp}, Individual}};
use keyhive_crypto::{share_key::{ShareKey, ShareSecretKey}, signed::Signed};
use std::{collections::BTreeSet, sync::Arc};

fn signer() -> MemorySigner { MemorySigner::generate(&mut rand::rngs::OsRng) }
fn key() -> ShareKey { ShareSecretKey::generate(&mut rand::rngs::OsRng).share_key() }
fn add(s: &MemorySigner, k: ShareKey) -> KeyOp { KeyOp::from(Arc::new(s.try_sign_sync(AddKeyOp { share_key: k }).unwrap())) }
fn rotate(s: &MemorySigner, old: ShareKey, new: ShareKey) -> KeyOp { KeyOp::from(Arc::new(s.try_sign_sync(RotateKeyOp { old, new }).unwrap())) }
fn doc() -> DocumentId { let s = signer(); use keyhive_crypto::verifiable::Verifiable; keyhive_core::principal::identifier::Identifier::from(s.verifying_key()).into() }
fn raw(o: &KeyOp) -> Vec<u8> { bincode::serialize(o).unwrap() }

/// An individual with up to `arg` prekeys: whatever the document, one of them is picked.
#[no_mangle]
pub extern "C-unwind" fn h_pick(arg: u64) {
    let s = signer();
    let n = choice("prekeys", arg) as usize + 1;
    let keys: Vec<ShareKey> = (0..n).map(|_| key()).collect();
    let mut i = Individual::new(add(&s, keys[0]));
    for k in &keys[1..] { i.receive_prekey_op(add(&s, *k)).unwrap(); }
    // the hash of the identifiers that the choice depends on is any value; a replay has to look for such a document
    for _ in 0..if ksym::NATIVE { 2000 } else { 1 } {
        let d = doc();
        ksym::any_xof(true);
        let p = *i.pick_prekey(d);
        ksym::any_xof(false);
        check(keys.contains(&p), "a picked prekey is one of the individual's");
    }
    cover("picked");
}
/// Any `arg` operations over three keys, in two orders.
#[no_mangle]
pub extern "C-unwind" fn h_ops(arg: u64) {
    let s = signer();
    let keys = [key(), key(), key()];
    let mut ops = vec![];
    for _ in 0..arg {
        let n = choice("new", 3) as usize;
        let o = choice("old", 4) as usize;
        ops.push(if o == 3 { add(&s, keys[n]) } else { rotate(&s, keys[o], keys[n]) });
    }
    let build = |v: &[KeyOp]| { let mut i = Individual::new(v[0].clone()); for o in &v[1..] { check(i.receive_prekey_op(o.clone()).is_ok(), "an individual's own operations are accepted"); } i };
    let other = ksym::permute("order", ops.clone());
    let (a, mut b) = (build(&ops), build(&other));
    check(a == b, "the same operations give the same prekeys in any order");
    for o in &ops { check(b.receive_prekey_op(o.clone()).is_ok(), "a known operation is accepted"); }
    check(a == b, "receiving operations again changes nothing");
    // not signed by it
    let t = signer();
    check(b.receive_prekey_op(add(&t, keys[0])).is_err(), "another's operation is refused");
    if let KeyOp::Add(x) = add(&t, keys[1]) { let mut y: Signed<AddKeyOp> = x.as_ref().clone(); { use keyhive_crypto::verifiable::Verifiable; y.issuer = s.verifying_key(); } check(b.receive_prekey_op(KeyOp::from(Arc::new(y))).is_err(), "a forged operation is refused"); }
    check(a == b, "a refused operation changes nothing");
    // forks
    let (x, y) = ops.split_at(ops.len().div_ceil(2));
    let mut f = build(x);
    { let mut g = keyhive_core::transact::fork::Fork::fork(&f); for o in y { check(g.receive_prekey_op(o.clone()).is_ok(), "an individual's own operations are accepted"); } keyhive_core::transact::merge::Merge::merge(&mut f, g); }
    check(f == a, "merging a fork gives the union");
    // what is sent on
    let sent = KeyOp::topsort(a.prekey_ops());
    let (want, got): (BTreeSet<_>, Vec<_>) = (ops.iter().map(raw).collect(), sent.iter().map(|o| raw(o)).collect());
    check(got.iter().cloned().collect::<BTreeSet<_>>() == want && got.len() == want.len(), "every operation is sent on, once");
    let cyclic = { let e: Vec<(ShareKey, ShareKey)> = sent.iter().filter_map(|o| match o.as_ref() { KeyOp::Rotate(r) => Some((r.payload.old, r.payload.new)), _ => None }).collect();
        (0..3).any(|i| { let mut r = vec![keys[i]]; let mut n = 0; while n < r.len() { for (o, w) in &e { if *o == r[n] { if *w == keys[i] { return true; } if !r.contains(w) { r.push(*w); } } } n += 1; } false }) };
    if cyclic { cover("cyclic"); }
    // always something to draw, and nothing retired while anything else is there
    let retired: BTreeSet<ShareKey> = ops.iter().filter_map(|o| match o { KeyOp::Rotate(r) => Some(r.payload.old), _ => None }).collect();
    let live: BTreeSet<ShareKey> = ops.iter().map(|o| *o.new_key()).filter(|k| !retired.contains(k)).collect();
    let p = *a.pick_prekey(doc());
    if live.is_empty() { cover("all-retired"); check(keys.contains(&p), "there is always a prekey"); } else { check(live.contains(&p), "a picked prekey is a current one"); }
    if !retired.is_empty() { cover("rotated"); }
}
entries!(h_pick, h_ops);

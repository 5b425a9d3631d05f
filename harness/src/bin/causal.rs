//! Causal decryption, the ciphertext store, and what a ciphertext is bound to.
use beekem::{encrypted::EncryptedContent, operation::CgkaOperation, pcs_key::PcsKey};
use future_form::{FutureForm, Sendable};
use futures::lock::Mutex;
use harness::*;
use keyhive_core::{access::Access, keyhive::Keyhive, listener::no_listener::NoListener, crypto::{digest::Digest, envelope::Envelope}, store::ciphertext::{memory::MemoryCiphertextStore, CausalDecryptionState, CiphertextStore, CiphertextStoreExt}};
use keyhive_crypto::{signed::Signed, siv::Siv, symmetric_key::SymmetricKey};
use std::{cell::RefCell, collections::{BTreeSet, HashMap}, marker::PhantomData, sync::Arc};

type Ct = EncryptedContent<Vec<u8>, C>;
type St = MemoryCiphertextStore<C, Vec<u8>>;
fn cref(i: usize) -> C { [i as u8 + 1; 32] }
fn text(i: usize) -> Vec<u8> { vec![i as u8; i + 1] }
fn hash_of<T: serde::Serialize>(n: u8) -> Digest<T> { Digest { raw: blake3::hash(&[n]), _phantom: PhantomData } }
/// Subset of `0..k`.
fn subset(n: &str, k: usize) -> Vec<usize> { let m = choice(n, 1 << k); (0..k).filter(|j| m >> j & 1 == 1).collect() }
/// What decrypting `from` must yield: the contents reached through those at hand, and those reached but missing.
fn oracle(from: &[usize], up: &[Vec<usize>], have: &[bool]) -> (BTreeSet<usize>, BTreeSet<usize>) {
    let (mut ok, mut miss, mut todo) = (BTreeSet::new(), BTreeSet::new(), from.to_vec());
    while let Some(i) = todo.pop() {
        if !have[i] { miss.insert(i); continue; }
        if ok.insert(i) { todo.extend(&up[i]); }
    }
    (ok, miss)
}
fn judge(s: &CausalDecryptionState<C, Vec<u8>>, ok: &BTreeSet<usize>, miss: &BTreeSet<usize>, keys: &[SymmetricKey]) {
    check(s.complete.len() == ok.len(), "everything within reach is decrypted once");
    for (r, t) in &s.complete { let i = r[0] as usize - 1; check(ok.contains(&i) && *t == text(i), "what is decrypted is what was written"); }
    check(s.next.len() == miss.len() && miss.iter().all(|i| s.next.get(&cref(*i)) == Some(&keys[*i])), "the keys of what is missing are told");
    check(ok.iter().all(|i| s.keys.get(&cref(*i)) == Some(&keys[*i])), "the keys of what was decrypted are told");
}
/// `n` contents of a document, each naming any of the earlier ones, in any epochs; a later reader decrypts the last.
#[no_mangle]
pub extern "C-unwind" fn h_history(n: u64) {
    let n = n as usize;
    block_on(async {
        let a = keyhive();
        let store: Store = Arc::new(Mutex::new(St::new()));
        let b: Kh = Keyhive::generate(MemorySigner::generate(&mut rand::rngs::OsRng), store.clone(), NoListener, rand::rngs::OsRng).await.unwrap();
        meet(&a, &b).await; meet(&b, &a).await;
        let d = new_doc(&a).await; let dm = mem_doc(&d).await;
        let (mut cts, mut keys, mut up): (Vec<Arc<Ct>>, Vec<SymmetricKey>, Vec<Vec<usize>>) = (vec![], vec![], vec![]);
        for i in 0..n {
            if i > 0 && ksym::flag("epoch") { a.force_pcs_update(d.dupe()).await.unwrap(); }
            if i + 1 == n { check(a.add_member(agent_in(&a, id_of(&b).await).await, &dm, Access::Read, &[]).await.is_ok(), "a founder can add"); }
            let named = subset("named", i);
            let e = Envelope { plaintext: text(i), ancestors: named.iter().map(|j| (cref(*j), keys[*j])).collect::<HashMap<_, _>>() };
            let preds: Vec<C> = named.iter().map(|j| cref(*j)).collect();
            let (x, k) = a.try_encrypt_content_keyed(d.dupe(), &cref(i), &preds, &bincode::serialize(&e).unwrap()).await.unwrap();
            let x = x.encrypted_content();
            cts.push(Arc::new(Ct::new(x.nonce, x.ciphertext.clone(), x.pcs_key_hash, x.pcs_update_op_hash, x.content_ref, x.pred_refs)));
            keys.push(k); up.push(named);
        }
        ingest(&b, all_events(&a).await).await;
        let bd = doc_in(&b, &d).await.unwrap();
        let have: Vec<bool> = (0..n).map(|i| i + 1 < n && !ksym::flag("missing")).collect();
        for i in 0..n - 1 { if have[i] { let s = store.lock().await; s.insert(cts[i].clone()).await; } }
        let (ok, miss) = oracle(&up[n - 1], &up, &have);
        let r = b.try_causal_decrypt_content(bd, &cts[n - 1]).await;
        check(r.is_ok(), "a reader decrypts the history");
        let Ok(s) = r else { return };
        judge(&s, &ok, &miss, &keys);
        if !miss.is_empty() { cover("missing"); }
        if ok.len() > 1 { cover("deep"); }
        // the rest arrives
        for i in 0..n - 1 { if !have[i] { let s = store.lock().await; s.insert(cts[i].clone()).await; } }
        let mut todo: Vec<_> = s.next.iter().map(|(r, k)| (cts[r[0] as usize - 1].clone(), *k)).collect();
        let left: Vec<bool> = (0..n).map(|i| !ok.contains(&i)).collect();
        let starts: Vec<usize> = miss.iter().copied().collect();
        let (ok2, miss2) = oracle(&starts, &up, &left);
        let r = CiphertextStoreExt::<Sendable, _, _>::try_causal_decrypt(&store, &mut todo).await;
        check(r.is_ok(), "a reader decrypts the rest");
        if let Ok(s) = r { judge(&s, &ok2, &miss2, &keys); }
        cover("done");
    });
}
/// A store whose reads of one content fail.
struct Faulty { inner: St, bad: Option<C>, marked: RefCell<Vec<C>> }
// SAFETY: used by one thread only.
unsafe impl Sync for Faulty {}
impl CiphertextStore<Sendable, C, Vec<u8>> for Faulty {
    type GetCiphertextError = String;
    type MarkDecryptedError = String;
    fn get_ciphertext<'a>(&'a self, id: &'a C) -> <Sendable as FutureForm>::Future<'a, Result<Option<Arc<Ct>>, String>> {
        Box::pin(async move { if self.bad == Some(*id) { Err("unreadable".into()) } else { Ok(self.inner.get_by_content_ref(id).await) } })
    }
    fn get_ciphertext_by_pcs_update<'a>(&'a self, op: &'a Digest<Signed<CgkaOperation>>) -> <Sendable as FutureForm>::Future<'a, Result<Vec<Arc<Ct>>, String>> { Box::pin(async move { Ok(self.inner.get_by_pcs_update(op).await) }) }
    fn mark_decrypted<'a>(&'a self, id: &'a C) -> <Sendable as FutureForm>::Future<'a, Result<(), String>> { Box::pin(async move { self.marked.borrow_mut().push(*id); Ok(()) }) }
}
/// The same below the document: `arg` % 10 contents; any of them damaged or unreadable, any one link with a wrong key.
#[no_mangle]
pub extern "C-unwind" fn h_faults(arg: u64) {
    let n = (arg % 10) as usize;
    ksym::seed(choice("seed", 1 + arg / 10));
    block_on(async {
        let mut rng = rand::rngs::OsRng;
        let keys: Vec<SymmetricKey> = (0..n).map(|_| SymmetricKey::generate(&mut rng)).collect();
        let other = SymmetricKey::generate(&mut rng);
        let mut up: Vec<Vec<usize>> = vec![];
        for i in 0..n { up.push(subset("named", i)); }
        // a fault: 0 none, 1 damaged ciphertext, 2 not an envelope, 3 unreadable, 4 one wrong link
        let fault = choice("fault", 5);
        let at = if fault > 0 { choice("at", n as u64) as usize } else { 0 };
        if fault == 3 || fault == 4 { assume(at + 1 < n); }
        let by = if fault == 4 { let p: Vec<usize> = (0..n).filter(|i| up[*i].contains(&at)).collect(); *ksym::pick("by", &p) } else { 0 };
        let store = Faulty { inner: St::new(), bad: if fault == 3 { Some(cref(at)) } else { None }, marked: RefCell::new(vec![]) };
        let mut top = None;
        for i in 0..n {
            let e = Envelope { plaintext: text(i), ancestors: up[i].iter().map(|j| (cref(*j), if fault == 4 && at == *j && by == i { other } else { keys[*j] })).collect::<HashMap<_, _>>() };
            let mut bytes = bincode::serialize(&e).unwrap();
            if fault == 2 && at == i { bytes.truncate(3); }
            let nonce = Siv::new(&keys[i], &bytes, b"doc");
            keys[i].try_encrypt(nonce, &mut bytes).unwrap();
            if fault == 1 && at == i { bytes[0] ^= 1; }
            let ct = Arc::new(Ct::new(nonce, bytes, hash_of::<PcsKey>(0), hash_of(1), cref(i), hash_of(2)));
            if i + 1 < n { store.inner.insert(ct.clone()).await; } else { top = Some(ct); }
        }
        let mut todo = vec![(top.unwrap(), keys[n - 1])];
        let r = CiphertextStoreExt::<Sendable, _, _>::try_causal_decrypt(&store, &mut todo).await;
        // who can be decrypted at all
        let mut cut = up.clone();
        if fault == 4 { cut[by].retain(|j| *j != at); }
        let have: Vec<bool> = (0..n).map(|i| !(fault > 0 && fault < 4 && at == i)).collect();
        let (ok, gone) = oracle(&[n - 1], &cut, &have);
        let (err, s) = match r { Ok(s) => (None, s), Err(e) => (Some(e.cannot.len()), e.progress) };
        let reached = ok.contains(&by) && fault == 4;
        let broken = !gone.is_empty() || (reached && !ok.contains(&at));
        check(err.is_some() == broken, "decryption fails exactly when something within reach cannot be read");
        if let Some(k) = err { check(k == 1 || fault == 3, "only what cannot be read is reported"); cover("failed"); }
        let none = BTreeSet::new();
        judge(&s, &ok, if fault == 3 { &gone } else { &none }, &keys);
        let marked: BTreeSet<C> = store.marked.borrow().iter().copied().collect();
        check(marked == ok.iter().map(|i| cref(*i)).collect(), "exactly what was decrypted is marked");
        if reached && ok.contains(&at) { cover("second link"); }
        cover("judged");
    });
}
/// `n` changes to the in-memory store against the plain set of what it holds.
#[no_mangle]
pub extern "C-unwind" fn h_store(n: u64) {
    block_on(async {
        // two references, two updates, two sizes
        let items: Vec<Arc<Ct>> = (0..8u8).map(|i| Arc::new(Ct::new([i; 24].into(), vec![i; 4 + (i >> 2) as usize], hash_of::<PcsKey>(0), hash_of(i >> 1 & 1), cref((i & 1) as usize), hash_of(9)))).collect();
        let st = St::new();
        let mut model = BTreeSet::new();
        for _ in 0..n {
            match choice("change", 3) {
                0 => { let i = choice("item", 8) as usize; st.insert(items[i].clone()).await; model.insert(i); }
                1 => { let i = choice("item", 8) as usize; let r = st.remove(&Digest::hash(items[i].as_ref())).await; let had = model.remove(&i); check(r.is_some() == had, "removing says whether it was there"); if had { cover("removed"); } }
                _ => { let i = choice("ref", 2) as usize; let r = st.remove_all(&cref(i)).await; let k = model.len(); model.retain(|x| x & 1 != i); check(r == (k != model.len()), "removing all says whether any was there"); if r { cover("removed all"); } }
            }
            for i in 0..2usize {
                let best = st.get_by_content_ref(&cref(i)).await;
                let max = model.iter().filter(|x| **x & 1 == i).map(|x| x >> 2).max();
                check(best.is_some() == max.is_some(), "a stored ciphertext is found by its content");
                if let (Some(b), Some(m)) = (best, max) { check(model.iter().any(|x| items[*x] == b) && b.content_ref == cref(i) && b.ciphertext.len() == 4 + m, "the largest ciphertext of a content is found"); }
                let by: BTreeSet<Vec<u8>> = st.get_by_pcs_update(&hash_of(i as u8)).await.iter().map(|x| x.nonce.as_bytes().to_vec()).collect();
                let want: BTreeSet<Vec<u8>> = model.iter().filter(|x| **x >> 1 & 1 == i).map(|x| items[*x].nonce.as_bytes().to_vec()).collect();
                check(by == want, "the ciphertexts of an update are found by it");
            }
        }
        cover("done");
    });
}
/// A content of the present (`arg` 0) or a former (1) epoch with any one byte replaced by any other, or (2, 3) said to be of any update, or (4, 5) with any one bit flipped, comes first.
#[no_mangle]
pub extern "C-unwind" fn h_content(arg: u64) {
    block_on(async {
        let ks: Vec<Kh> = (0..3).map(|_| keyhive()).collect();
        for i in 0..3 { for j in 0..3 { if i != j { meet(&ks[i], &ks[j]).await; } } }
        let (a, b, c) = (&ks[0], &ks[1], &ks[2]);
        let d = new_doc(a).await; let dm = mem_doc(&d).await;
        for k in [b, c] { a.add_member(agent_in(a, id_of(k).await).await, &dm, Access::Edit, &[]).await.unwrap(); }
        let x1 = a.try_encrypt_content(d.dupe(), &cref(0), &vec![], b"one").await.unwrap();
        let (op, _, _) = a.force_pcs_update(d.dupe()).await.unwrap();
        let x2 = a.try_encrypt_content(d.dupe(), &cref(1), &vec![cref(0)], b"two").await.unwrap();
        let evs = all_events(a).await;
        ingest(b, evs.clone()).await;
        let bd = doc_in(b, &d).await.unwrap();
        let (x, w) = if arg % 2 == 0 { (&x2, b"two") } else { (&x1, b"one") };
        let x = x.encrypted_content();
        let t: Ct = if arg / 2 != 1 {
            let mut bytes = bincode::serialize(x).unwrap();
            let at = choice("at", bytes.len() as u64) as usize;
            let v = if arg < 2 { ksym::byte("value") } else { bytes[at] ^ 1 << choice("bit", 8) };
            assume(v != bytes[at]);
            bytes[at] = v;
            let Ok(t) = bincode::deserialize::<Ct>(&bytes) else { cover("unreadable"); return };
            t
        } else {
            // another operation of the same document
            let mut ops: Vec<Digest<Signed<CgkaOperation>>> = evs.iter().filter_map(|e| if let Sev::CgkaOperation(o) = e { Some(Digest::hash(o.as_ref())) } else { None }).collect();
            ops.sort();
            let o = *ksym::pick("op", &ops);
            assume(o != x.pcs_update_op_hash);
            let _ = &op;
            Ct::new(x.nonce, x.ciphertext.clone(), x.pcs_key_hash, o, x.content_ref, x.pred_refs)
        };
        match b.try_decrypt_content(bd.dupe(), &t).await {
            Ok(p) => { check(p == w, "altered content never decrypts to something else"); check(t.ciphertext == x.ciphertext && t.nonce == x.nonce && t.content_ref == x.content_ref && t.pred_refs == x.pred_refs, "altered content is refused"); cover("opened"); }
            Err(_) => cover("refused"),
        }
        for (x, w) in [(&x1, b"one"), (&x2, b"two")] { check(b.try_decrypt_content(bd.dupe(), x.encrypted_content()).await.ok() == Some(w.to_vec()), "the authentic content still decrypts"); }
        // neither does it get in the way of what follows
        let y = b.try_encrypt_content(bd.dupe(), &cref(2), &vec![], b"three").await.unwrap();
        ingest(a, all_events(b).await).await;
        a.force_pcs_update(d.dupe()).await.unwrap();
        ingest(c, all_events(a).await).await;
        let cd = doc_in(c, &d).await.unwrap();
        for (x, w) in [(&y, &b"three"[..]), (&x2, b"two"), (&x1, b"one")] { check(c.try_decrypt_content(cd.dupe(), x.encrypted_content()).await.ok() == Some(w.to_vec()), "readers read what is written after altered content"); }
        cover("done");
    });
}
/// Sealed text of up to `n` bytes.
#[no_mangle]
pub extern "C-unwind" fn h_seal(n: u64) {
    let mut rng = rand::rngs::OsRng;
    let (k, other) = (SymmetricKey::generate(&mut rng), SymmetricKey::generate(&mut rng));
    let len = choice("length", n + 1) as usize;
    let p = ksym::bytes("text", len);
    let ad = ksym::bytes("ad", choice("ad length", 3) as usize);
    let Ok(blob) = k.try_seal(&p, &ad) else { check(false, "text can be sealed"); return };
    check(k.try_open(&blob).ok() == Some(p.clone()), "sealed text opens to itself");
    check(other.try_open(&blob).is_err(), "sealed text does not open with another key");
    check(k.try_seal(&p, &ad).ok() == Some(blob.clone()), "sealing is deterministic");
    let mut t = blob.clone();
    match choice("change", 3) {
        0 => { let at = choice("at", t.len() as u64) as usize; let v = ksym::byte("value"); assume(v != t[at]); t[at] = v; }
        1 => t.truncate(choice("short", t.len() as u64) as usize),
        _ => t.push(ksym::byte("more")),
    }
    check(k.try_open(&t).is_err(), "altered sealed text is refused");
    cover("sealed");
}
entries!(h_history, h_faults, h_store, h_content, h_seal);

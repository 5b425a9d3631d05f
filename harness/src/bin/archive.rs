//! A saved and restored keyhive is the same keyhive.
use future_form::Sendable;
use futures::lock::Mutex;
use harness::*;
use keyhive_core::{access::Access, archive::Archive, keyhive::Keyhive, listener::no_listener::NoListener, principal::{document::EncryptedContentWithUpdate, membered::Membered}, store::ciphertext::memory::MemoryCiphertextStore};
use std::collections::BTreeSet;
use std::sync::Arc;

async fn restore(a: &Archive<C>, sk: &MemorySigner) -> Kh {
    let bytes = bincode::serialize(a).unwrap();
    let back: Archive<C> = bincode::deserialize(&bytes).unwrap();
    check(back == *a, "a saved archive reads back");
    let store = Arc::new(Mutex::new(MemoryCiphertextStore::new()));
    match Keyhive::try_from_archive(&back, sk.clone(), store, NoListener, Arc::new(Mutex::new(rand::rngs::OsRng))).await {
        Ok(k) => k,
        Err(_) => { check(false, "an archive can be restored"); assume(false); unreachable!() }
    }
}
async fn events(k: &Kh, of: &Kh) -> BTreeSet<Vec<u8>> { events_for(k, of).await.iter().map(|e| bincode::serialize(e).unwrap()).collect() }
async fn at(k: &Kh, m: &Mem) -> Option<Mem> { match m { Membered::Group(id, _) => the_group(k, *id).await, Membered::Document(id, _) => match k.get_document(*id).await { Some(d) => Some(mem_doc(&d).await), None => None } } }
async fn waiting(k: &Kh) -> BTreeSet<Vec<u8>> { k.pending_event_hashes().await.iter().map(|h| h.raw.as_bytes().to_vec()).collect() }
/// Two keyhives of one user cannot be told apart.
async fn same(x: &Kh, y: &Kh, ms: &[Mem], others: &[&Kh]) {
    for m in ms {
        let (p, q) = (at(x, m).await, at(y, m).await);
        check(p.is_some() == q.is_some(), "the restored keyhive knows the same groups and documents");
        if let (Some(p), Some(q)) = (p, q) {
            let (v, w) = (view(&p).await, view(&q).await);
            check(v.members == w.members && v.access == w.access, "the restored keyhive has the same members");
            check(v.revoked == w.revoked, "the restored keyhive has the same former members");
            check(v.dheads == w.dheads && v.rheads == w.rheads, "the restored keyhive has the same heads");
        }
    }
    for o in others { check(events(x, o).await == events(y, o).await, "the restored keyhive sends the same events"); }
    check(waiting(x).await == waiting(y).await, "the restored keyhive waits for the same events");
}
async fn reads(k: &Kh, d: &Doc, e: &EncryptedContentWithUpdate<C>) -> Option<Vec<u8>> {
    let d = doc_in(k, d).await?;
    k.try_decrypt_content(d, e.encrypted_content()).await.ok()
}
/// 0 Alice, 1 Bob, 2 Carol; group g, document d. `arg` % 10 changes, then whoever `arg` / 10 says is saved and restored, then one more.
#[no_mangle]
pub extern "C-unwind" fn h_archive(arg: u64) {
    block_on(async {
        let sks: Vec<MemorySigner> = (0..3).map(|_| MemorySigner::generate(&mut rand::rngs::OsRng)).collect();
        let ks: Vec<Kh> = sks.iter().map(|s| keyhive_with(s.clone())).collect();
        for i in 0..3 { for j in 0..3 { if i != j { meet(&ks[i], &ks[j]).await; } } }
        let a = &ks[0];
        let g = a.generate_group(vec![]).await.unwrap(); let gm = mem_group(&g).await;
        let d = new_doc(a).await; let dm = mem_doc(&d).await;
        let ms = [gm.clone(), dm.clone()];
        let bob = agent_in(a, id_of(&ks[1]).await).await;
        let carol = agent_in(a, id_of(&ks[2]).await).await;
        let mut xs = vec![];
        let me = (arg / 10) as usize;
        let step = |n: u64| { let (bob, carol, gm, dm, g, d) = (bob.clone(), carol.clone(), gm.clone(), dm.clone(), g.dupe(), d.dupe()); async move {
            let flip = |who: Ag, m: Mem, l: Access| async move {
                if m.members().await.contains_key(&who.id()) { check(a.revoke_member(who.id(), true, &m).await.is_ok(), "a founder can revoke"); cover("revoked"); }
                else { check(a.add_member(who, &m, l, &[]).await.is_ok(), "a founder can add"); }
                None
            };
            match n {
                0 => flip(bob, dm, Access::Edit).await,
                1 => flip(carol, gm, Access::Read).await,
                2 => flip(agent_group(&g).await, dm, Access::Edit).await,
                3 => { a.force_pcs_update(d).await.unwrap(); None }
                4 => { a.expand_prekeys().await.unwrap(); None }
                _ => Some(a.try_encrypt_content(d, &[9; 32], &vec![], b"words").await.unwrap()),
            }
        } };
        for _ in 0..arg % 10 { if let Some(x) = step(choice("step", 6)).await { xs.push(x); } }
        note("history");
        let mut evs = all_events(a).await;
        // one event may be missing, so that others wait for it
        let mut held = vec![];
        if me > 0 && ksym::flag("held") { evs.sort_by_key(|e| bincode::serialize(e).unwrap()); let i = choice("which", evs.len() as u64) as usize; held.push(evs.remove(i)); }
        for k in &ks[1..] { ingest(k, evs.clone()).await; }
        let k = &ks[me];
        if !waiting(k).await.is_empty() { cover("waiting"); }
        let ar = k.into_archive().await;
        let r = restore(&ar, &sks[me]).await;
        check(r.into_archive().await == ar, "saving again gives the same archive");
        let others: Vec<&Kh> = ks.iter().collect();
        same(k, &r, &ms, &others).await;
        for x in &xs { check(reads(k, &d, x).await == reads(&r, &d, x).await, "the restored keyhive reads the same content"); }
        note("restored");
        // life goes on
        let on = if me == 0 { &r } else { a };
        if me == 0 {
            let d2 = doc_in(&r, &d).await.unwrap();
            let x = r.try_encrypt_content(d2, &[5; 32], &vec![], b"later").await.unwrap();
            let e2 = all_events(&r).await;
            for o in &ks { ingest(o, e2.clone()).await; }
            for o in &ks[1..] {
                let who = id_of(o).await;
                let member = { let l = d.lock().await; l.transitive_members().await.get(&who).is_some_and(|(_, a)| *a >= Access::Read) };
                check((reads(o, &d, &x).await == Some(b"later".to_vec())) == member, "readers read what the restored keyhive writes");
                if member { cover("reader"); }
            }
            check(reads(k, &d, &x).await == Some(b"later".to_vec()), "the author reads what its restored keyhive writes");
        } else {
            if let Some(x) = step(choice("later", 6)).await { xs.push(x); }
            let mut e2 = all_events(on).await; e2.extend(held);
            for o in [k, &r] { ingest(o, e2.clone()).await; }
            same(k, &r, &ms, &others).await;
            for x in &xs { let v = reads(k, &d, x).await; if v.is_some() { cover("reader"); } check(v == reads(&r, &d, x).await, "the restored keyhive reads the same content"); }
        }
        cover("done");
    });
}
/// Another keyhive of the same user takes the archive in.
#[no_mangle]
pub extern "C-unwind" fn h_merge(arg: u64) {
    block_on(async {
        let sks: Vec<MemorySigner> = (0..3).map(|_| MemorySigner::generate(&mut rand::rngs::OsRng)).collect();
        let ks: Vec<Kh> = sks.iter().map(|s| keyhive_with(s.clone())).collect();
        for i in 0..3 { for j in 0..3 { if i != j { meet(&ks[i], &ks[j]).await; } } }
        let a = &ks[0];
        let g = a.generate_group(vec![]).await.unwrap(); let gm = mem_group(&g).await;
        let d = new_doc(a).await; let dm = mem_doc(&d).await;
        let ms = [gm.clone(), dm.clone()];
        for _ in 0..arg {
            let (who, m) = (agent_in(a, id_of(&ks[1 + choice("who", 2) as usize]).await).await, ms[choice("to", 2) as usize].clone());
            if m.members().await.contains_key(&who.id()) { a.revoke_member(who.id(), true, &m).await.unwrap(); cover("revoked"); } else { a.add_member(who, &m, Access::Edit, &[]).await.unwrap(); }
        }
        let mut evs = all_events(a).await;
        let held = ksym::flag("held");
        if held { evs.sort_by_key(|e| bincode::serialize(e).unwrap()); let i = choice("which", evs.len() as u64) as usize; let e = evs.remove(i); note(&format!("held {e:?}").chars().take(200).collect::<String>()); }
        let k = &ks[1];
        ingest(k, evs).await;
        let (mut xs, mut sent) = (vec![], vec![]);
        // keys may change hands before and after
        let reader = { let who = id_of(k).await; let l = d.lock().await; l.transitive_members().await.contains_key(&who) } && waiting(k).await.is_empty();
        if reader {
            let kd = doc_in(k, &d).await.unwrap();
            if ksym::flag("rotate") { k.force_pcs_update(kd.dupe()).await.unwrap(); sent = all_events(k).await; ingest(a, sent.clone()).await; cover("rotated"); }
            xs.push(a.try_encrypt_content(d.dupe(), &[9; 32], &vec![], b"words").await.unwrap());
            if ksym::flag("told") { ingest(k, all_events(a).await).await; }
        }
        let r = keyhive_with(sks[1].clone());
        if !held && !sent.is_empty() && ksym::flag("knew") { ingest(&r, all_events(a).await).await; }
        let ar = k.into_archive().await;
        check(r.ingest_archive(ar.clone()).await.is_ok(), "an archive can be merged");
        check(r.ingest_archive(ar).await.is_ok(), "an archive can be merged again");
        for m in &ms {
            let (p, q) = (at(k, m).await, at(&r, m).await);
            check(p.is_some() == q.is_some(), "the merged keyhive knows the same groups and documents");
            if let (Some(p), Some(q)) = (p, q) { let (v, w) = (view(&p).await, view(&q).await); check(v == w, "the merged keyhive has the same members"); }
        }
        check(waiting(k).await == waiting(&r).await, "the merged keyhive waits for the same events");
        if reader {
            for o in [k, &r] { ingest(o, all_events(a).await).await; }
            for x in &xs { check(reads(k, &d, x).await == Some(b"words".to_vec()), "a reader reads"); check(reads(&r, &d, x).await == Some(b"words".to_vec()), "the merged keyhive reads the same content"); }
            let rd = doc_in(&r, &d).await.unwrap();
            let y = r.try_encrypt_content(rd, &[5; 32], &vec![], b"later").await.unwrap();
            let e2 = all_events(&r).await;
            ingest(a, e2).await;
            check(reads(a, &d, &y).await == Some(b"later".to_vec()), "readers read what the merged keyhive writes");
            // the other way round: each has keys the other does not
            if ksym::flag("both") { let kd = doc_in(k, &d).await.unwrap(); k.force_pcs_update(kd).await.unwrap(); }
            check(k.ingest_archive(r.into_archive().await).await.is_ok(), "an archive can be merged back");
            check(reads(k, &d, &y).await == Some(b"later".to_vec()), "the other keyhive reads what the merged one wrote");
            ingest(a, all_events(k).await).await;
            let z = a.try_encrypt_content(d.dupe(), &[6; 32], &vec![], b"last").await.unwrap();
            ingest(k, all_events(a).await).await;
            check(reads(k, &d, &z).await == Some(b"last".to_vec()), "the other keyhive goes on reading");
            cover("read");
        }
        cover("merged");
    });
}
entries!(h_archive, h_merge);

//! Events take effect only when they are authentic and their author may make them.
use harness::*;
use beekem::{id::MemberId, operation::CgkaOperation};
use keyhive_core::{access::Access, contact_card::ContactCard, principal::individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp}};
use keyhive_crypto::{share_key::ShareSecretKey, signed::Signed, signer::sync_signer::SyncSignerBasic};
use std::collections::BTreeSet;

fn ser(e: &Sev) -> Vec<u8> { bincode::serialize(e).unwrap() }
fn is_key(e: &Sev) -> bool { matches!(e, Sev::PrekeysExpanded(_) | Sev::PrekeyRotated(_)) }
async fn held(k: &Kh) -> BTreeSet<Vec<u8>> { all_events(k).await.iter().map(ser).collect() }

/// Alice, Bob, Carol and Dave; Alice has a group and a document that the others belong to. The last event is of kind `kind`.
async fn scene(kind: u64) -> (Vec<Kh>, Doc, Vec<Sev>, Sev) {
    let ks: Vec<Kh> = (0..4).map(|_| keyhive()).collect();
    for i in 0..4 { for j in 0..4 { if i != j { meet(&ks[i], &ks[j]).await; } } }
    let a = &ks[0];
    let d = new_doc(a).await;
    let m = mem_doc(&d).await;
    a.add_member(agent_in(a, id_of(&ks[1]).await).await, &m, Access::Edit, &[]).await.unwrap();
    a.add_member(agent_in(a, id_of(&ks[2]).await).await, &m, Access::Read, &[]).await.unwrap();
    let before = all_events(a).await;
    match kind {
        0 => { a.expand_prekeys().await.unwrap(); }
        1 => { let k = *a.contact_card().await.unwrap().share_key(); a.rotate_prekey(k).await.unwrap(); }
        2 | 3 => { a.add_member(agent_in(a, id_of(&ks[3]).await).await, &m, Access::Read, &[]).await.unwrap(); }
        4 | 5 => { a.revoke_member(id_of(&ks[2]).await, true, &m).await.unwrap(); }
        _ => { a.force_pcs_update(d.dupe()).await.unwrap(); }
    }
    let known: Vec<Vec<u8>> = before.iter().map(ser).collect();
    let mut new: Vec<Sev> = all_events(a).await.into_iter().filter(|e| !known.contains(&ser(e))).collect();
    let i = new.iter().position(|e| match e { Sev::CgkaOperation(_) => kind == 3 || kind >= 5, Sev::Delegated(_) => kind == 2, Sev::Revoked(_) => kind == 4, _ => kind < 2 }).unwrap();
    let e = new.remove(i);
    // what the event depends on arrives with it
    let mut rest = before; rest.extend(new);
    (ks, d, rest, e)
}
/// Any byte of an event replaced by any other; from `arg` 10 on, the authentic one is there already.
#[no_mangle]
pub extern "C-unwind" fn h_tamper(arg: u64) {
    block_on(async {
        let (ks, _d, rest, e) = scene(arg % 10).await;
        let b = &ks[1];
        ingest(b, rest.clone()).await;
        if arg >= 10 { ingest(b, vec![e.clone()]).await; }
        let before = b.into_archive().await;
        let mut bytes = ser(&e);
        let at = choice("at", bytes.len() as u64) as usize;
        let v = ksym::byte("value");
        assume(v != bytes[at]);
        bytes[at] = v;
        let Ok(t) = bincode::deserialize::<Sev>(&bytes) else { cover("unreadable"); return };
        let r = b.receive_static_event(t.clone()).await;
        check(r.is_err(), "an altered event is refused");
        cover("refused");
        check(b.into_archive().await == before, "an altered event changes nothing");
        if is_key(&e) { return; }
        let h = held(b).await;
        let _ = b.ingest_unsorted_static_events(vec![t.clone()]).await;
        check(held(b).await == h, "an altered event that waits changes nothing");
        check(b.receive_static_event(e).await.is_ok(), "the authentic event is still accepted");
    });
}
/// A prekey operation over any keys, signed by any of three people in the name of any of three.
#[no_mangle]
pub extern "C-unwind" fn h_name(_: u64) {
    block_on(async {
        let sks: Vec<MemorySigner> = (0..3).map(|_| MemorySigner::generate(&mut rand::rngs::OsRng)).collect();
        let ks: Vec<Kh> = sks.iter().map(|s| keyhive_with(s.clone())).collect();
        let b = &ks[0];
        // the third is unknown here
        meet(b, &ks[1]).await;
        let theirs = ks[1].contact_card().await.unwrap();
        check(b.receive_contact_card(&theirs).await.is_ok(), "a contact card is accepted");
        let fresh = ShareSecretKey::generate(&mut rand::rngs::OsRng).share_key();
        let keys = [*theirs.share_key(), *ks[1].contact_card().await.unwrap().share_key(), fresh, *b.contact_card().await.unwrap().share_key()];
        let new = keys[choice("new", 4) as usize];
        let rotate = choice("rotate", 2) == 1;
        let old = if rotate { keys[choice("old", 4) as usize] } else { fresh };
        assume(!rotate || old != new);
        let (by, of) = (choice("signer", 3) as usize, choice("name", 3) as usize);
        let name = id_of(&ks[of]).await.0;
        let op = if rotate { KeyOp::Rotate(std::sync::Arc::new(Signed::new(RotateKeyOp { old, new }, name, sks[by].try_sign_sync(RotateKeyOp { old, new }).unwrap().signature().clone()))) }
            else { KeyOp::Add(std::sync::Arc::new(Signed::new(AddKeyOp { share_key: new }, name, sks[by].try_sign_sync(AddKeyOp { share_key: new }).unwrap().signature().clone()))) };
        let before = b.into_archive().await;
        let r = if choice("way", 2) == 0 { b.receive_prekey_op(&op).await.is_ok() } else { b.receive_static_event(match &op { KeyOp::Add(o) => Sev::PrekeysExpanded(Box::new((**o).clone())), KeyOp::Rotate(o) => Sev::PrekeyRotated(Box::new((**o).clone())) }).await.is_ok() };
        check(r == (by == of), "a prekey operation is accepted exactly from its author");
        if !r { check(b.into_archive().await == before, "a forged prekey operation changes nothing"); cover("refused"); } else { cover("read"); }
    });
}
/// Any byte of a contact card replaced by any other; the receiver knows the person (`arg` 1) or not (0).
#[no_mangle]
pub extern "C-unwind" fn h_card(arg: u64) {
    block_on(async {
        let (a, b) = (keyhive(), keyhive());
        let card = a.contact_card().await.unwrap();
        if arg == 1 { check(b.receive_contact_card(&card).await.is_ok(), "a contact card is accepted"); }
        let before = b.into_archive().await;
        let mut bytes = bincode::serialize(&card).unwrap();
        let at = choice("at", bytes.len() as u64) as usize;
        let v = ksym::byte("value");
        assume(v != bytes[at]);
        bytes[at] = v;
        let Ok(t) = bincode::deserialize::<ContactCard>(&bytes) else { cover("unreadable"); return };
        check(b.receive_contact_card(&t).await.is_err(), "an altered contact card is refused");
        let op: KeyOp = t.op().clone();
        check(b.receive_prekey_op(&op).await.is_err(), "an altered prekey operation is refused");
        check(b.into_archive().await == before, "an altered contact card changes nothing");
        cover("refused");
        check(b.receive_contact_card(&card).await.is_ok(), "a contact card is accepted");
    });
}
/// A key agreement operation signed by any of five people, about any of them: only readers change it, and only for readers.
#[no_mangle]
pub extern "C-unwind" fn h_author(arg: u64) {
    block_on(async {
        // Alice founded it, Bob reads, Rita relays, Mallory is nobody, Carol reads through a group
        let sks: Vec<MemorySigner> = (0..5).map(|_| MemorySigner::generate(&mut rand::rngs::OsRng)).collect();
        let ks: Vec<Kh> = sks.iter().map(|s| keyhive_with(s.clone())).collect();
        for i in 0..5 { for j in 0..5 { if i != j { meet(&ks[i], &ks[j]).await; } } }
        let a = &ks[0];
        let d = new_doc(a).await;
        let m = mem_doc(&d).await;
        a.add_member(agent_in(a, id_of(&ks[1]).await).await, &m, Access::Read, &[]).await.unwrap();
        a.add_member(agent_in(a, id_of(&ks[2]).await).await, &m, Access::Relay, &[]).await.unwrap();
        let g = a.generate_group(vec![]).await.unwrap();
        a.add_member(agent_in(a, id_of(&ks[4]).await).await, &mem_group(&g).await, Access::Edit, &[]).await.unwrap();
        a.add_member(agent_group(&g).await, &m, Access::Read, &[]).await.unwrap();
        let evs = all_events(a).await;
        for i in [1usize, 4] { ingest(&ks[i], evs.clone()).await; }
        let reader = [true, true, false, false, true];
        // a genuine operation to imitate, by Bob
        let bd = doc_in(&ks[1], &d).await.unwrap();
        let (op, _, _) = ks[1].force_pcs_update(bd).await.unwrap();
        let CgkaOperation::Update { new_path, predecessors, doc_id, .. } = op.payload().clone() else { unreachable!() };
        let (signer, about) = (choice("signer", 5) as usize, choice("about", 5) as usize);
        let x = MemberId(id_of(&ks[about]).await.0);
        let pk = *ks[about].contact_card().await.unwrap().share_key();
        let early = arg == 1;
        let preds = if early { vec![] } else { predecessors };
        let (what, allowed) = match choice("what", 3) {
            0 => (CgkaOperation::Add { added_id: x, pk, leaf_index: 9, predecessors: preds, add_predecessors: vec![], doc_id }, reader[signer] && reader[about]),
            1 => (CgkaOperation::Remove { id: x, leaf_idx: 1, removed_keys: vec![], predecessors: preds, doc_id }, reader[signer]),
            _ => {
                let mut p = new_path.clone();
                let y = if ksym::flag("leaf-too") { p.leaf_id = x; x } else { p.leaf_id };
                (CgkaOperation::Update { id: x, new_path: p, predecessors: preds, doc_id }, reader[signer] && about == signer && y == x)
            }
        };
        assume(!allowed);
        let forged = sks[signer].try_sign_sync(what).unwrap();
        let f = Sev::CgkaOperation(Box::new(forged));
        // whoever receives it: the founder, or Dave who only knows the members so far
        let dave = keyhive();
        let victim = if early {
            for k in &ks { meet(&dave, k).await; meet(k, &dave).await; }
            a.add_member(agent_in(a, id_of(&dave).await).await, &m, Access::Read, &[]).await.unwrap();
            ingest(&dave, all_events(a).await.into_iter().filter(|e| !matches!(e, Sev::CgkaOperation(_))).collect()).await;
            &dave
        } else { a };
        let before = held(victim).await;
        let r = victim.receive_static_event(f.clone()).await;
        check(r.is_err(), "an operation its author may not make is refused");
        let _ = victim.ingest_unsorted_static_events(vec![f.clone()]).await;
        check(held(victim).await == before, "an operation its author may not make changes nothing");
        cover("refused");
        // and everything goes on
        let evs = all_events(a).await;
        ingest(victim, evs.clone()).await;
        let c = a.try_encrypt_content(d.dupe(), &[9; 32], &vec![], b"words").await.unwrap();
        let evs = all_events(a).await;
        for (i, k) in ks.iter().enumerate().chain([(5, &dave)]) {
            if i == 5 && !early { continue; }
            ingest(k, evs.clone()).await;
            let Some(kd) = doc_in(k, &d).await else { continue };
            let plain = k.try_decrypt_content(kd, c.encrypted_content()).await.ok();
            check(plain.is_some() == (i == 5 || reader[i]), "readers read, and only they");
        }
        cover("read");
    });
}
entries!(h_tamper, h_card, h_author);

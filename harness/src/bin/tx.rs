//! Transactions: a fork's changes take effect all together or not at all.
use future_form::Sendable;
use futures::lock::Mutex;
use harness::*;
use keyhive_core::{access::Access, keyhive::Keyhive, listener::{log::Log, membership::MembershipListener}, principal::{document::{id::DocumentId, EncryptedContentWithUpdate}, group::id::GroupId, identifier::Identifier, membered::Membered}, transact::transact_async};
use keyhive_core::{principal::group::revocation::StaticRevocation, store::ciphertext::memory::MemoryCiphertextStore};
use keyhive_crypto::digest::Digest;
use std::{cell::{Cell, RefCell}, collections::{BTreeMap, BTreeSet}, sync::Arc};

type K<L> = Keyhive<Sendable, MemorySigner, C, Vec<u8>, Store, L, rand::rngs::OsRng>;
type Lg = Log<Sendable, MemorySigner, C>;
type Enc = (DocumentId, EncryptedContentWithUpdate<C>, Vec<u8>);
struct Ids { bob: Identifier, carol: Identifier, g: GroupId, d: DocumentId, theirs: Vec<Sev> }
#[derive(Default)]
struct Done { groups: Vec<GroupId>, docs: Vec<DocumentId>, xs: Vec<Enc> }

async fn step<L: MembershipListener<Sendable, MemorySigner, C>>(k: &K<L>, n: u64, i: &Ids, tag: u8, done: &RefCell<Done>) {
    let g = k.get_group(i.g).await.unwrap();
    let d = k.get_document(i.d).await.unwrap();
    let (gm, dm) = (Membered::Group(i.g, g.dupe()), Membered::Document(i.d, d.dupe()));
    let bob = k.get_agent(i.bob).await.unwrap();
    let carol = k.get_agent(i.carol).await.unwrap();
    match n {
        0 | 1 => {
            let (who, m, l) = if n == 0 { (carol, gm, Access::Read) } else { (bob, dm, Access::Edit) };
            if m.members().await.contains_key(&who.id()) { check(k.revoke_member(who.id(), true, &m).await.is_ok(), "a founder can revoke"); cover("revoked"); }
            else { check(k.add_member(who, &m, l, &[]).await.is_ok(), "a founder can add"); }
        }
        2 => {
            let n = k.generate_group(vec![]).await.unwrap();
            let id = { let l = n.lock().await; l.group_id() };
            k.add_member(carol, &Membered::Group(id, n.dupe()), Access::Read, &[]).await.unwrap();
            k.add_member(keyhive_core::principal::agent::Agent::Group(id, n), &dm, Access::Read, &[]).await.unwrap();
            done.borrow_mut().groups.push(id);
        }
        3 => {
            let n = k.generate_doc(vec![], nonempty::nonempty![[tag; 32]]).await.unwrap();
            let id = { let l = n.lock().await; l.doc_id() };
            k.add_member(bob, &Membered::Document(id, n.dupe()), Access::Edit, &[]).await.unwrap();
            let x = k.try_encrypt_content(n, &[tag + 1; 32], &vec![], &[tag; 3]).await.unwrap();
            let mut done = done.borrow_mut();
            done.docs.push(id); done.xs.push((id, x, vec![tag; 3]));
        }
        4 => { k.force_pcs_update(d).await.unwrap(); }
        5 => { k.expand_prekeys().await.unwrap(); }
        6 => { let x = k.try_encrypt_content(d, &[tag + 2; 32], &vec![], &[tag; 4]).await.unwrap(); done.borrow_mut().xs.push((i.d, x, vec![tag; 4])); }
        _ => { check(k.ingest_unsorted_static_events(i.theirs.clone()).await.is_empty(), "complete events apply"); cover("received"); }
    }
}
async fn events<L: MembershipListener<Sendable, MemorySigner, C>>(k: &K<L>) -> Vec<Sev> { let a = k.get_agent(k.id().into()).await.unwrap(); k.static_events_for_agent(&a).await.into_values().collect() }
fn set(v: &[Sev]) -> BTreeSet<Vec<u8>> { v.iter().map(|e| bincode::serialize(e).unwrap()).collect() }
async fn snapshot(k: &Kh, i: &Ids) -> (BTreeSet<Vec<u8>>, Vec<View>, usize, usize, Vec<u8>) {
    let g = Membered::Group(i.g, k.get_group(i.g).await.unwrap());
    let d = Membered::Document(i.d, k.get_document(i.d).await.unwrap());
    let evs = set(&events(k).await);
    let vs = vec![view(&g).await, view(&d).await];
    let ng = { let l = k.groups().lock().await; l.len() };
    let nd = { let l = k.documents().lock().await; l.len() };
    (evs, vs, ng, nd, bincode::serialize(&k.into_archive().await.id()).unwrap())
}
/// `arg` % 10 steps in the transaction and `arg` / 10 meanwhile.
#[no_mangle]
pub extern "C-unwind" fn h_tx(arg: u64) {
    block_on(async {
        let (b, c) = (keyhive(), keyhive());
        let trunk = Arc::new(Mutex::new(keyhive()));
        let i;
        {
            let a = trunk.lock().await;
            for (x, y) in [(&*a, &b), (&*a, &c), (&b, &a), (&b, &c), (&c, &a), (&c, &b)] { meet(x, y).await; }
            let g = a.generate_group(vec![]).await.unwrap(); let gm = mem_group(&g).await;
            let d = new_doc(&a).await; let dm = mem_doc(&d).await;
            a.add_member(agent_in(&a, id_of(&b).await).await, &gm, Access::Admin, &[]).await.unwrap();
            a.add_member(agent_group(&g).await, &dm, Access::Edit, &[]).await.unwrap();
            ingest(&b, all_events(&a).await).await;
            let gid = { let l = g.lock().await; l.group_id() };
            let did = { let l = d.lock().await; l.doc_id() };
            let bg = the_group(&b, gid).await.unwrap();
            b.add_member(agent_in(&b, id_of(&c).await).await, &bg, Access::Edit, &[]).await.unwrap();
            let theirs = all_events(&b).await;
            i = Ids { bob: id_of(&b).await, carol: id_of(&c).await, g: gid, d: did, theirs };
        }
        note("set up");
        let before = { let a = trunk.lock().await; snapshot(&a, &i).await };
        let done = RefCell::new(Done::default());
        let evs: RefCell<Vec<Sev>> = RefCell::new(vec![]);
        let keys = Cell::new(0);
        let fail = arg / 10 == 0 && ksym::flag("fail");
        let r = {
            let (i, done, evs, keys, trunk2, before) = (&i, &done, &evs, &keys, trunk.clone(), &before);
            transact_async(&trunk, async |fork: K<Lg>| {
                check(set(&events(&fork).await) == before.0, "a transaction starts from the present state");
                note("forked");
                for _ in 0..arg % 10 { step(&fork, choice("step", 8), i, 10, done).await; }
                for _ in 0..arg / 10 { let a = trunk2.lock().await; step(&a, choice("meanwhile", 8), i, 20, done).await; }
                if fail { return Err(()); }
                note("stepped");
                evs.borrow_mut().extend(events(&fork).await);
                { let a = trunk2.lock().await; evs.borrow_mut().extend(events(&a).await); }
                let ps = { let l = fork.active().lock().await; let ind = l.individual(); let ind = ind.lock().await; ind.prekey_ops().len() };
                keys.set(ps);
                note("merge");
                Ok(fork)
            }).await
        };
        note("transaction done");
        let a = trunk.lock().await;
        check(r.is_ok() != fail, "a transaction fails only when it says so");
        if fail {
            check(snapshot(&a, &i).await == before, "a failed transaction changes nothing");
            cover("failed");
        } else {
            let after = set(&events(&a).await);
            check(set(&evs.borrow()).is_subset(&after), "nothing that a transaction did is lost");
            check(a.pending_event_hashes().await.is_empty(), "nothing of a transaction is left waiting");
            let done = done.borrow();
            let mut all = evs.borrow().clone();
            for k in [&b, &c] { check(ingest(k, all.clone()).await == 0, "others accept what a transaction did"); }
            for gid in done.groups.iter().chain([&i.g]) {
                let x = the_group(&a, *gid).await; let y = the_group(&c, *gid).await;
                check(x.is_some() && y.is_some(), "a new group is there after the transaction");
                if let (Some(x), Some(y)) = (x, y) { check(view(&x).await == view(&y).await, "others agree on the members after the transaction"); }
            }
            for did in done.docs.iter().chain([&i.d]) {
                let (x, y) = (a.get_document(*did).await, c.get_document(*did).await);
                check(x.is_some() && y.is_some(), "a new document is there after the transaction");
                if let (Some(x), Some(y)) = (x, y) { check(view(&mem_doc(&x).await).await == view(&mem_doc(&y).await).await, "others agree on the members after the transaction"); }
            }
            for (did, x, w) in &done.xs {
                let Some(d) = a.get_document(*did).await else { continue };
                check(a.try_decrypt_content(d, x.encrypted_content()).await.ok().as_ref() == Some(w), "what was encrypted in the transaction can be read after it");
                cover("read");
            }
            // life goes on
            let d = a.get_document(i.d).await.unwrap();
            let x = a.try_encrypt_content(d, &[77; 32], &vec![], b"later").await;
            check(x.is_ok(), "one can go on after a transaction");
            let Ok(x) = x else { return };
            all = all_events(&a).await;
            check(ingest(&b, all).await == 0, "others accept what comes after a transaction");
            let d = b.get_document(i.d).await.unwrap();
            check(b.try_decrypt_content(d, x.encrypted_content()).await.ok() == Some(b"later".to_vec()), "readers read what is written after a transaction");
            cover("done");
        }
    });
}
/// `arg` changes made by a keyhive with a listener; another keyhive follows what is announced.
#[no_mangle]
pub extern "C-unwind" fn h_log(arg: u64) {
    block_on(async {
        let (b, c) = (keyhive(), keyhive());
        let log: Lg = Log::new();
        let store: Store = Arc::new(Mutex::new(MemoryCiphertextStore::new()));
        let a: K<Lg> = Keyhive::generate(MemorySigner::generate(&mut rand::rngs::OsRng), store, log.clone(), rand::rngs::OsRng).await.unwrap();
        for k in [&b, &c] { let card = k.contact_card().await.unwrap(); a.receive_contact_card(&card).await.unwrap(); let card = a.contact_card().await.unwrap(); k.receive_contact_card(&card).await.unwrap(); }
        meet(&b, &c).await;
        let g = a.generate_group(vec![]).await.unwrap();
        let d = a.generate_doc(vec![], nonempty::nonempty![[7u8; 32]]).await.unwrap();
        let gid = { let l = g.lock().await; l.group_id() };
        let did = { let l = d.lock().await; l.doc_id() };
        let gm = Membered::Group(gid, g.dupe());
        let bob = a.get_agent(id_of(&b).await).await.unwrap();
        a.add_member(bob, &gm, Access::Admin, &[]).await.unwrap();
        a.add_member(keyhive_core::principal::agent::Agent::Group(gid, g), &Membered::Document(did, d), Access::Edit, &[]).await.unwrap();
        let i = Ids { bob: id_of(&b).await, carol: id_of(&c).await, g: gid, d: did, theirs: vec![] };
        let start = events(&a).await;
        check(ingest(&b, start.clone()).await == 0, "complete events apply");
        let of = a.get_agent(i.carol).await.unwrap();
        let theirs = set(&a.static_events_for_agent(&of).await.into_values().collect::<Vec<_>>());
        log.clear().await;
        let done = RefCell::new(Done::default());
        for _ in 0..arg { step(&a, choice("step", 7), &i, 10, &done).await; }
        note("changed");
        let said: Vec<Sev> = { let l = log.0.lock().await; l.iter().map(|e| Sev::from(e.clone())).collect() };
        let (new, said2, mut old) = (set(&events(&a).await), set(&said), set(&start));
        old.extend(theirs); // known before, though nobody's business until she is a member
        check(new.iter().all(|e| old.contains(e) || said2.contains(e)), "every change is announced");
        check(said2.iter().all(|e| new.contains(e) || old.contains(e)), "nothing but changes is announced");
        check(said.len() == said2.len(), "a change is announced once");
        a.ingest_unsorted_static_events(start.iter().chain(&said).cloned().collect()).await;
        check(log.len().await == said.len(), "what is received again is not announced again");
        for e in said { check(b.receive_static_event(e).await.is_ok(), "announced changes apply in the order announced"); }
        let done = done.borrow();
        for id in done.groups.iter().chain([&i.g]) {
            let (x, y) = (a.get_group(*id).await.unwrap(), the_group(&b, *id).await);
            check(y.is_some(), "who follows the announcements knows the same groups");
            if let Some(y) = y { let x = { let l = x.lock().await; l.transitive_members().await.into_iter().map(|(k, (_, v))| (*k.as_bytes(), v)).collect::<BTreeMap<_, _>>() }; check(x == view(&y).await.access, "who follows the announcements agrees on the members"); }
        }
        for id in done.docs.iter().chain([&i.d]) {
            let (x, y) = (a.get_document(*id).await.unwrap(), b.get_document(*id).await);
            check(y.is_some(), "who follows the announcements knows the same documents");
            if let Some(y) = y { let x = { let l = x.lock().await; l.transitive_members().await.into_iter().map(|(k, (_, v))| (*k.as_bytes(), v)).collect::<BTreeMap<_, _>>() }; check(x == view(&mem_doc(&y).await).await.access, "who follows the announcements agrees on the members"); }
        }
        for (did, x, w) in &done.xs {
            let Some(d) = b.get_document(*did).await else { continue };
            check(b.try_decrypt_content(d, x.encrypted_content()).await.ok().as_ref() == Some(w), "who follows the announcements can read");
            cover("read");
        }
        cover("followed");
    });
}
/// What is received but refused, or waits, is not announced. Two groups of Alice's; Bob, a reader of the one, or Mallory revoke.
#[no_mangle]
pub extern "C-unwind" fn h_refused(_: u64) {
    block_on(async {
        let sks: Vec<MemorySigner> = (0..4).map(|_| MemorySigner::generate(&mut rand::rngs::OsRng)).collect();
        let ks: Vec<Kh> = sks.iter().map(|s| keyhive_with(s.clone())).collect();
        for i in 0..4 { for j in 0..4 { if i != j { meet(&ks[i], &ks[j]).await; } } }
        let log: Lg = Log::new();
        let store: Store = Arc::new(Mutex::new(MemoryCiphertextStore::new()));
        let l: K<Lg> = Keyhive::generate(MemorySigner::generate(&mut rand::rngs::OsRng), store, log.clone(), rand::rngs::OsRng).await.unwrap();
        let a = &ks[0];
        let g = a.generate_group(vec![]).await.unwrap();
        let m = mem_group(&g).await;
        let ids: Vec<Identifier> = { let mut v = vec![]; for k in &ks { v.push(id_of(k).await); } v };
        let lv = [Access::Relay, Access::Read, Access::Edit];
        let mut dl = vec![];
        for i in 1..3 { dl.push(a.add_member(agent_in(a, ids[i]).await, &m, *ksym::pick("level", &lv), &[]).await.unwrap().delegation); }
        dl.push(a.add_member(agent_in(a, ids[3]).await, &m, Access::Admin, &[]).await.unwrap().delegation);
        l.ingest_unsorted_static_events(all_events(a).await).await;
        log.clear().await;
        // anyone revokes anyone with any of these delegations as proof
        let by = choice("by", 4) as usize;
        let (what, proof) = (choice("what", 3) as usize, choice("proof", 4) as usize);
        let raw = StaticRevocation::<C> { revoke: Digest::hash(dl[what].as_ref()).coerce(), proof: if proof < 3 { Some(Digest::hash(dl[proof].as_ref()).coerce()) } else { None }, after_content: Default::default() };
        let r = sks[by].try_sign_sync(raw).unwrap();
        let of = l.get_agent(ids[0]).await.unwrap();
        let seen = || async { l.static_events_for_agent(&of).await.into_values().map(|e| bincode::serialize(&e).unwrap()).collect::<BTreeSet<_>>() };
        let before = seen().await;
        let res = l.receive_static_event(Sev::Revoked(r.into())).await;
        let n = log.len().await;
        if res.is_ok() { cover("accepted"); check(n == 1, "what takes effect is announced"); }
        else { cover("refused"); check(n == 0, "what is refused is not announced"); check(seen().await == before, "what is refused changes nothing"); }
    });
}
entries!(h_tx, h_log, h_refused);

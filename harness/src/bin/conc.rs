//! Calls on one keyhive that run at the same time, from wherever the first is put off for the second.
use harness::*;
use keyhive_core::principal::{membered::Membered, peer::Peer};
use keyhive_core::{access::Access, principal::{agent::Agent, document::{id::DocumentId, EncryptedContentWithUpdate}, group::id::GroupId, identifier::Identifier}};
use std::{cell::RefCell, sync::atomic::{AtomicU64, Ordering::SeqCst}};

static BUDGET: AtomicU64 = AtomicU64::new(0);
/// Whether the task about to take a lock lets the other go first.
fn put_off() -> bool {
    if BUDGET.load(SeqCst) == 0 { return false; }
    // How many locks a call takes depends on the hash seeds: a replay looks for the place.
    if ksym::NATIVE { if rand::random::<u8>() >= 8 { return false; } } else if choice("wait", 2) == 0 { return false; }
    BUDGET.fetch_sub(1, SeqCst);
    cover("put off");
    true
}
type Enc = EncryptedContentWithUpdate<C>;
struct Ids { bob: Identifier, carol: Identifier, dave: Identifier, g: GroupId, h: GroupId, d: DocumentId, x2: DocumentId, theirs: Vec<Sev>, x: Enc, card: keyhive_core::contact_card::ContactCard }
#[derive(Default)]
struct Done { groups: Vec<GroupId>, docs: Vec<DocumentId>, xs: Vec<(DocumentId, Enc, Vec<u8>)>, archives: Vec<keyhive_core::archive::Archive<C>> }
pub const CALLS: u64 = 21;
async fn call(k: &Kh, n: u64, i: &Ids, tag: u8, done: &RefCell<Done>) {
    let (g, h, d) = (k.get_group(i.g).await.unwrap(), k.get_group(i.h).await.unwrap(), k.get_document(i.d).await.unwrap());
    let (hm, dm) = (Membered::Group(i.h, h.dupe()), Membered::Document(i.d, d.dupe()));
    match n {
        0 => { let who = k.get_agent(i.carol).await.unwrap(); check(k.add_member(who, &hm, Access::Read, &[d]).await.is_ok(), "a founder can add"); }
        1 => { let who = k.get_agent(i.carol).await.unwrap(); check(k.add_member(who, &dm, Access::Edit, &[k.get_document(i.x2).await.unwrap()]).await.is_ok(), "a founder can add"); }
        2 => { check(k.revoke_member(i.bob, true, &hm).await.is_ok(), "a founder can revoke"); }
        3 => { check(k.revoke_member(i.dave, true, &dm).await.is_ok(), "a founder can revoke"); }
        4 => {
            let n = k.generate_group(vec![Peer::Group(i.g, g)]).await.unwrap();
            let id = { let l = n.lock().await; l.group_id() };
            done.borrow_mut().groups.push(id);
        }
        5 => {
            let n = k.generate_doc(vec![Peer::Group(i.g, g)], nonempty::nonempty![[tag; 32]]).await.unwrap();
            let id = { let l = n.lock().await; l.doc_id() };
            done.borrow_mut().docs.push(id);
        }
        6 => { let x = k.try_encrypt_content(d, &[tag + 2; 32], &vec![], &[tag; 4]).await.unwrap(); done.borrow_mut().xs.push((i.d, x, vec![tag; 4])); }
        7 => { check(k.force_pcs_update(d).await.is_ok(), "a member can update"); }
        8 => { k.expand_prekeys().await.unwrap(); }
        9 => { check(k.ingest_unsorted_static_events(i.theirs.clone()).await.is_empty(), "complete events apply"); }
        10 => { let who = k.get_agent(i.bob).await.unwrap(); check(!k.static_events_for_agent(&who).await.is_empty(), "there are events"); }
        11 => { let ar = k.into_archive().await; done.borrow_mut().archives.push(ar); }
        12 => { check(!k.reachable_docs().await.is_empty(), "there are documents"); }
        13 => { check(k.try_decrypt_content(d, i.x.encrypted_content()).await.ok() == Some(b"before".to_vec()), "what was readable is"); }
        14 => { check(k.receive_contact_card(&i.card).await.is_ok(), "a card is accepted"); }
        15 => { let l = g.lock().await; check(l.transitive_members().await.len() >= 2, "there are members"); }
        16 => { let who = Agent::Document(i.d, d.dupe()); let n = k.generate_group(vec![]).await.unwrap(); let id = { let l = n.lock().await; l.group_id() }; check(k.add_member(who, &Membered::Group(id, n), Access::Read, &[d]).await.is_ok(), "a founder can add"); done.borrow_mut().groups.push(id); }
        17 => { let x = k.get_document(i.x2).await.unwrap(); check(k.add_member(Agent::Group(i.g, g), &Membered::Document(i.x2, x), Access::Read, &[d]).await.is_ok(), "a founder can add"); }
        18 => { let ind = k.individual().await; let pk = { let l = ind.lock().await; *l.pick_prekey(i.d) }; check(k.rotate_prekey(pk).await.is_ok(), "a prekey can be rotated"); }
        19 => { check(k.revoke_member(i.g.into(), true, &dm).await.is_ok(), "a founder can revoke"); }
        _ => { let all = k.membership_ops_for_all_agents().await; let c = k.cgka_ops_for_all_agents().await; let p = k.reachable_prekey_ops_for_all_agents().await; drop((all, c, p)); }
    }
}
/// `arg`: how often the first call is put off at most; +10: the second may be, too; +100·n: only the n-th (of 7) part of the first calls, or (8, 9) some of those in the longer ones.
#[no_mangle]
pub extern "C-unwind" fn h_conc(arg: u64) {
    block_on(async {
        let sk = MemorySigner::generate(&mut rand::rngs::OsRng);
        let [a, b, c, e] = [keyhive_with(sk.clone()), keyhive(), keyhive(), keyhive()];
        for x in [&a, &b, &c, &e] { for y in [&a, &b, &c] { if x.id() != y.id() { meet(x, y).await; } } }
        meet(&b, &e).await; meet(&a, &e).await;
        let h = a.generate_group(vec![]).await.unwrap();
        let g = a.generate_group(vec![]).await.unwrap();
        let d = new_doc(&a).await;
        let x2 = { let d = new_doc(&a).await; let l = d.lock().await; l.doc_id() };
        let (hm, gm, dm) = (mem_group(&h).await, mem_group(&g).await, mem_doc(&d).await);
        let i = {
            let bob = a.get_agent(id_of(&b).await).await.unwrap();
            let dave = a.get_agent(id_of(&e).await).await.unwrap();
            a.add_member(bob, &hm, Access::Admin, &[]).await.unwrap();
            a.add_member(agent_group(&h).await, &gm, Access::Edit, &[]).await.unwrap();
            a.add_member(agent_group(&g).await, &dm, Access::Edit, &[]).await.unwrap();
            a.add_member(dave, &dm, Access::Read, &[]).await.unwrap();
            let x = a.try_encrypt_content(d.dupe(), &[1; 32], &vec![], b"before").await.unwrap();
            ingest(&b, all_events(&a).await).await;
            let bh = { let id = { let l = h.lock().await; l.group_id() }; the_group(&b, id).await.unwrap() };
            let dave = b.get_agent(id_of(&e).await).await.unwrap();
            let u = b.add_member(dave, &bh, Access::Edit, &[]).await.unwrap();
            Ids { bob: id_of(&b).await, carol: id_of(&c).await, dave: id_of(&e).await, g: { let l = g.lock().await; l.group_id() }, h: { let l = h.lock().await; l.group_id() }, d: { let l = d.lock().await; l.doc_id() }, x2, theirs: sev_add(&u), x, card: c.contact_card().await.unwrap() }
        };
        drop((h, g, d, hm, gm, dm));
        note("ready");
        let done = RefCell::new(Done::default());
        let n = match arg / 100 { 0 => choice("first", CALLS), 8 => [5, 9, 11][choice("first", 3) as usize], 9 => [18, 19][choice("first", 2) as usize], p => (p - 1) * 3 + choice("first", 3) };
        let m = choice("second", CALLS);
        BUDGET.store(arg % 10, SeqCst);
        futures_util::lock::set_yield_hook(Some(put_off));
        let ok = ksym::race(call(&a, n, &i, 10, &done), async { if arg / 10 % 10 == 0 { BUDGET.store(0, SeqCst); } call(&a, m, &i, 20, &done).await });
        futures_util::lock::set_yield_hook(None);
        check(ok, "calls at the same time all end");
        if !ok { return; }
        cover("both");
        let mut done = done.into_inner();
        done.docs.extend([i.d, x2]); done.groups.extend([i.g, i.h]);
        for id in &done.groups { check(a.get_group(*id).await.is_some(), "nothing that a call did is lost"); }
        // A backup taken meanwhile is as good as any: it can be restored, and takes up what it lacks.
        for ar in done.archives {
            let store: Store = std::sync::Arc::new(futures::lock::Mutex::new(keyhive_core::store::ciphertext::memory::MemoryCiphertextStore::new()));
            let r: Result<Kh, _> = Kh::try_from_archive(&ar, sk.clone(), store, keyhive_core::listener::no_listener::NoListener, std::sync::Arc::new(futures::lock::Mutex::new(rand::rngs::OsRng))).await;
            check(r.is_ok(), "a backup made meanwhile can be restored");
            let Ok(r) = r else { continue };
            check(ingest(&r, all_events(&a).await).await == 0, "a backup made meanwhile takes up what it lacks");
            for id in &done.groups {
                let (x, y) = (the_group(&a, *id).await.unwrap(), the_group(&r, *id).await);
                check(y.is_some(), "a backup made meanwhile takes up what it lacks");
                if let Some(y) = y { check(view(&x).await.access == view(&y).await.access, "a backup made meanwhile agrees on the members"); }
            }
            for id in &done.docs {
                let (x, y) = (mem_doc(&a.get_document(*id).await.unwrap()).await, r.get_document(*id).await);
                check(y.is_some(), "a backup made meanwhile takes up what it lacks");
                if let Some(y) = y { check(view(&x).await.access == view(&mem_doc(&y).await).await.access, "a backup made meanwhile agrees on the members"); }
            }
            cover("restored");
        }
        // Every document goes on, and all who may read it can.
        for (j, id) in done.docs.clone().into_iter().enumerate() {
            let Some(d) = a.get_document(id).await else { check(false, "nothing that a call did is lost"); continue };
            let x = a.try_encrypt_content(d, &[40 + j as u8; 32], &vec![], b"later").await;
            check(x.is_ok(), "a document stays in use");
            if let Ok(x) = x { done.xs.push((id, x, b"later".to_vec())); }
        }
        // What Bob did meanwhile arrives at the latest now; the documents made here were not known to him.
        check(ingest(&a, i.theirs.clone()).await == 0, "complete events apply");
        let everything = all_events(&a).await;
        for k in [&b, &c, &e] {
            let evs = events_for(&a, k).await;
            check(ingest(k, evs).await == 0, "others accept what the calls did");
            for id in &done.docs {
                let x = mem_doc(&a.get_document(*id).await.unwrap()).await;
                if dm_access(&x, id_of(k).await).await.is_none() { continue; }
                let y = k.get_document(*id).await;
                check(y.is_some(), "members know the document");
                let Some(y) = y else { continue };
                check(view(&x).await.access == view(&mem_doc(&y).await).await.access, "others agree on the members");
            }
            // Others may pass on whatever there is.
            ingest(k, everything.clone()).await;
            for (id, x, w) in &done.xs {
                let dm = mem_doc(&a.get_document(*id).await.unwrap()).await;
                let may = dm_access(&dm, id_of(k).await).await.is_some_and(|l| l >= Access::Read);
                let Some(d) = k.get_document(*id).await else { continue };
                if !may && w.as_slice() == b"later" { check(k.try_decrypt_content(d.dupe(), x.encrypted_content()).await.is_err(), "nobody else reads what comes after"); cover("unreadable"); }
                if !may || w.as_slice() != b"later" || (k.id() == e.id() && (*id != i.d || n == 3 || m == 3 || n == 19 || m == 19)) { continue; }
                check(k.try_decrypt_content(d, x.encrypted_content()).await.ok().as_ref() == Some(w), "readers read what comes after");
                cover("read");
            }
        }
    });
}
async fn dm_access(m: &Mem, id: Identifier) -> Option<Access> { m.transitive_members().await.get(&id).map(|(_, l)| *l) }
entries!(h_conc);

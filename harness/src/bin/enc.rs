//! Who can decrypt: exactly the readers.
use harness::*;
use keyhive_core::access::Access;

async fn decrypts(k: &Kh, d: &Doc, e: &keyhive_core::principal::document::EncryptedContentWithUpdate<C>, want: &[u8]) -> bool {
    let Some(d) = doc_in(k, d).await else { return false };
    match k.try_decrypt_content(d, e.encrypted_content()).await {
        Ok(p) => { check(p == want, "decryption returns what was encrypted"); true }
        Err(_) => false,
    }
}
/// 0 Alice's document; 1 Bob direct; 2 Carol through group h; 3 Dave nowhere.
#[no_mangle]
pub extern "C-unwind" fn h_readers(mode: u64) {
    block_on(async {
        let ks: Vec<Kh> = (0..4).map(|_| keyhive()).collect();
        for i in 0..4 { for j in 0..4 { if i != j { meet(&ks[i], &ks[j]).await; } } }
        let a = &ks[0];
        let h = a.generate_group(vec![]).await.unwrap(); let hm = mem_group(&h).await;
        let d = new_doc(a).await; let dm = mem_doc(&d).await;
        let opt = |n: &str| match choice(n, 5) { 0 => None, n => Some(LEVELS[n as usize - 1]) };
        // in either order, the group's members and the group's access
        let (lb, lh, lc) = (opt("bob"), opt("h"), opt("carol"));
        let early = ksym::flag("carol-first");
        let bob = agent_in(a, id_of(&ks[1]).await).await;
        if let Some(l) = lb { a.add_member(bob, &dm, l, &[]).await.unwrap(); }
        for step in [early, !early] {
            if step { if let Some(l) = lc { a.add_member(agent_in(a, id_of(&ks[2]).await).await, &hm, l, &[]).await.unwrap(); } }
            else if let Some(l) = lh { a.add_member(agent_group(&h).await, &dm, l, &[]).await.unwrap(); }
        }
        note("members");
        let reads = |l: Option<Access>| l.is_some_and(|l| l >= Access::Read);
        let (rb, rc) = (reads(lb), reads(lh) && reads(lc));
        let x0 = a.try_encrypt_content(d.dupe(), &[1; 32], &vec![], b"hello").await.unwrap();
        let evs = all_events(a).await;
        for k in &ks[1..] { ingest(k, evs.clone()).await; }
        check(decrypts(a, &d, &x0, b"hello").await, "the author can decrypt");
        check(decrypts(&ks[1], &d, &x0, b"hello").await == rb, "a direct member decrypts iff it is a reader");
        check(decrypts(&ks[2], &d, &x0, b"hello").await == rc, "a group member decrypts iff it is a reader");
        check(!decrypts(&ks[3], &d, &x0, b"hello").await, "an outsider cannot decrypt");
        if rb && rc { cover("both-read"); }
        if lb == Some(Access::Relay) { cover("relay"); }
        if mode == 0 { return; }
        // one revocation, then more content
        let (mut rb, mut rc) = (rb, rc);
        match choice("revoke", 3) {
            0 => { if lb.is_none() { return; } let u = a.revoke_member(id_of(&ks[1]).await, true, &dm).await; check(u.is_ok(), "a founder can revoke"); rb = false; }
            1 => { if lh.is_none() { return; } let hid = { let l = h.lock().await; l.id() }; let u = a.revoke_member(hid, true, &dm).await; check(u.is_ok(), "a founder can revoke"); rc = false; }
            _ => { if lc.is_none() { return; } let u = a.revoke_member(id_of(&ks[2]).await, true, &hm).await; check(u.is_ok(), "a founder can revoke"); rc = false; }
        }
        let x1 = a.try_encrypt_content(d.dupe(), &[2; 32], &vec![[1; 32]], b"again").await.unwrap();
        let evs = all_events(a).await;
        for k in &ks[1..] { ingest(k, evs.clone()).await; }
        check(decrypts(a, &d, &x1, b"again").await, "the author can decrypt after a revocation");
        check(decrypts(&ks[1], &d, &x1, b"again").await == rb, "after a revocation a direct member decrypts iff it is still a reader");
        check(decrypts(&ks[2], &d, &x1, b"again").await == rc, "after a revocation a group member decrypts iff it is still a reader");
        check(!decrypts(&ks[3], &d, &x1, b"again").await, "an outsider cannot decrypt");
        if rb { check(decrypts(&ks[1], &d, &x0, b"hello").await, "a reader keeps decrypting older content"); }
        if rb || rc { cover("remaining-reader"); }
        cover("revoked");
    });
}
entries!(h_readers);

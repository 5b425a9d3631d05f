//! Ingestion of events: any order, any batching, duplicates.
use harness::*;
use keyhive_core::access::Access;
use std::collections::BTreeSet;

fn bytes_of(e: &Sev) -> Vec<u8> { bincode::serialize(e).unwrap() }
async fn held(k: &Kh) -> BTreeSet<Vec<u8>> { all_events(k).await.iter().map(bytes_of).collect() }
/// Everything observable about the group, the document and what can be read.
async fn same(a: &Kh, b: &Kh, g: Option<&Grp>, d: &Doc) {
    let did = { let l = d.lock().await; l.doc_id() };
    if let Some(g) = g {
        let gid = { let l = g.lock().await; l.group_id() };
        let (ga, gb) = (the_group(a, gid).await, the_group(b, gid).await);
        check(ga.is_some() == gb.is_some(), "the group is known");
        if let (Some(x), Some(y)) = (ga, gb) { check(view(&x).await == view(&y).await, "replicas with the same events agree on the group"); }
    }
    let (da, db) = (a.get_document(did).await, b.get_document(did).await);
    check(da.is_some() == db.is_some(), "the document is known");
    if let (Some(x), Some(y)) = (da, db) {
        check(view(&mem_doc(&x).await).await == view(&mem_doc(&y).await).await, "replicas with the same events agree on the document");
        let (x, y) = (a.cgka_ops_for_doc(&did).await, b.cgka_ops_for_doc(&did).await);
        let f = |v: Vec<std::sync::Arc<keyhive_crypto::signed::Signed<beekem::operation::CgkaOperation>>>| v.into_iter().map(|o| bincode::serialize(o.as_ref()).unwrap()).collect::<BTreeSet<_>>();
        if let (Ok(Some(x)), Ok(Some(y))) = (x, y) { check(f(x) == f(y), "replicas with the same events agree on the key agreement's operations"); } else { check(false, "the document has key agreement operations"); }
    }
}
/// `arg`'s last digit: 0 deliver one by one; 1 in two batches, split any way; 2 one by one in every order; 3 one by one, fewer orders; 4 in two batches, one of them of one or two. Other digits: scenario.
#[no_mangle]
pub extern "C-unwind" fn h_order(arg: u64) {
    block_on(async {
        let ks: Vec<Kh> = (0..3).map(|_| keyhive()).collect();
        let (a, c) = (&ks[0], &ks[2]);
        for j in 1..3 { meet(a, &ks[j]).await; }
        let g = if arg / 10 == 1 { None } else { Some(a.generate_group(vec![]).await.unwrap()) };
        let d = new_doc(a).await;
        let dm = mem_doc(&d).await;
        let bob = agent_in(a, id_of(&ks[1]).await).await;
        let carol = agent_in(a, id_of(c).await).await;
        match arg / 10 {
            0 => { let g = g.as_ref().unwrap(); let gm = mem_group(g).await; a.add_member(agent_group(g).await, &dm, Access::Edit, &[]).await.unwrap(); a.add_member(carol, &gm, Access::Read, &[]).await.unwrap(); }
            1 => { a.add_member(carol, &dm, Access::Read, &[]).await.unwrap(); a.add_member(bob, &dm, Access::Edit, &[]).await.unwrap(); a.revoke_member(id_of(&ks[1]).await, true, &dm).await.unwrap(); }
            _ => { let g = g.as_ref().unwrap(); let gm = mem_group(g).await; a.add_member(bob, &gm, Access::Admin, &[]).await.unwrap(); a.add_member(agent_group(g).await, &dm, Access::Read, &[]).await.unwrap(); a.add_member(carol, &gm, Access::Read, &[]).await.unwrap(); a.revoke_member(id_of(&ks[1]).await, true, &gm).await.unwrap(); }
        }
        let x = a.try_encrypt_content(d.dupe(), &[1; 32], &vec![], b"hello").await.unwrap();
        let evs = all_events(a).await;
        let (pre, mut rest): (Vec<Sev>, Vec<Sev>) = evs.into_iter().partition(|e| matches!(e, Sev::PrekeysExpanded(_) | Sev::PrekeyRotated(_)));
        rest.sort_by_key(bytes_of);
        if std::env::var("DBG").is_ok() { println!("{} {} {:?}", pre.len(), rest.len(), rest.iter().map(|e| match e { Sev::Delegated(_) => 'd', Sev::Revoked(_) => 'r', Sev::CgkaOperation(_) => 'c', _ => 'p' }).collect::<Vec<_>>()); }
        note("ready");
        let late = ksym::flag("prekeys-last");
        if !late { check(ingest(c, pre.clone()).await == 0, "prekeys never wait"); }
        let mut left = 0;
        if ![1, 4].contains(&(arg % 10)) {
            let all = rest.clone();
            // all orders, or: any two first, any one last, the others in either direction
            let order = if arg % 10 == 2 { ksym::permute("next", all) } else {
                let mut all = all;
                let take = |n: &str, all: &mut Vec<Sev>| { let i = choice(n, all.len() as u64) as usize; all.remove(i) };
                let mut o = vec![take("first", &mut all)];
                if arg % 10 == 0 { o.push(take("second", &mut all)); }
                let z = take("last", &mut all);
                if ksym::flag("reverse") { all.reverse(); }
                o.into_iter().chain(all).chain([z]).collect()
            };
            for e in order { left = ingest(c, vec![e]).await; if left > 0 { cover("waited"); } }
        } else {
            let (mut one, mut two) = (vec![], vec![]);
            if arg % 10 == 1 { for e in rest.clone() { if ksym::flag("batch") { two.push(e) } else { one.push(e) } } } else {
                one = rest.clone();
                let i = choice("one", one.len() as u64) as usize;
                two.push(one.remove(i));
                let j = choice("other", one.len() as u64 + 1) as usize;
                if j < i { assume(false); } else if j < one.len() { two.push(one.remove(j)); }
                if ksym::flag("early") { std::mem::swap(&mut one, &mut two); }
            }
            if ksym::flag("reverse") { one.reverse(); two.reverse(); }
            ingest(c, one).await;
            left = ingest(c, two).await;
        }
        if late { left = ingest(c, pre).await; }
        check(left == 0, "nothing waits once everything arrived");
        check(c.pending_event_hashes().await.is_empty(), "nothing is left pending");
        same(a, c, g.as_ref(), &d).await;
        let dc = doc_in(c, &d).await;
        if let Some(dc) = dc { check(c.try_decrypt_content(dc, x.encrypted_content()).await.ok().as_deref() == Some(&b"hello"[..]), "a reader with all events decrypts"); }
        check(held(c).await.is_superset(&rest.iter().map(bytes_of).collect()), "what was received can be sent on");
        // again
        let before = held(c).await;
        check(ingest(c, rest.clone()).await == 0, "known events never wait");
        check(held(c).await == before, "receiving events again changes nothing");
        same(a, c, g.as_ref(), &d).await;
        cover("done");
    });
}
entries!(h_order);

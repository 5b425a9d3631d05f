//! What a replica sends an agent is complete, and does not depend on how it is asked for.
use harness::*;
use keyhive_core::access::Access;
use keyhive_core::event::Event;
use future_form::Sendable;
use keyhive_core::listener::no_listener::NoListener;
use std::collections::BTreeSet;

fn bytes_of(e: &Sev) -> Vec<u8> { bincode::serialize(e).unwrap() }
type Ev = Event<Sendable, MemorySigner, C, NoListener>;

/// The per-agent and the all-agents queries, for one agent.
async fn agree(k: &Kh, id: keyhive_core::principal::identifier::Identifier) -> BTreeSet<Vec<u8>> {
    let ag = k.get_agent(id).await.unwrap();
    let one: BTreeSet<Vec<u8>> = k.static_events_for_agent(&ag).await.values().map(bytes_of).collect();
    let mut all = BTreeSet::new();
    let (m, p, c) = (k.membership_ops_for_all_agents().await, k.reachable_prekey_ops_for_all_agents().await, k.cgka_ops_for_all_agents().await);
    if let Some(i) = m.ops_for_agent(&id) { for (_, o) in i { all.insert(bytes_of(&Ev::from(o.clone()).into())); } }
    if let Some(i) = p.ops_for_agent(&id) { for o in i { all.insert(bytes_of(&Ev::from(o.as_ref().dupe()).into())); } }
    if let Some(i) = c.ops_for_agent(&id) { for o in i { all.insert(bytes_of(&Ev::from(o.dupe()).into())); } }
    if one != all { for (n, x) in [("only one by one", one.difference(&all)), ("only in all", all.difference(&one))] { for e in x { note(n); note(&format!("{:?}", bincode::deserialize::<Sev>(e).unwrap()).chars().take(300).collect::<String>()); } } }
    check(one == all, "asking for one agent or for all gives the same events");
    one
}
/// Alice makes `arg` changes among two groups, two documents and three others; each of them gets what she would send it.
#[no_mangle]
pub extern "C-unwind" fn h_sync(arg: u64) {
    block_on(async {
        let ks: Vec<Kh> = (0..4).map(|_| keyhive()).collect();
        let a = &ks[0];
        for k in &ks[1..] { meet(a, k).await; }
        let (g, h) = (a.generate_group(vec![]).await.unwrap(), a.generate_group(vec![]).await.unwrap());
        let (d, e) = (new_doc(a).await, new_doc(a).await);
        let ms = [mem_group(&g).await, mem_group(&h).await, mem_doc(&d).await, mem_doc(&e).await];
        // who can be added: bob, carol, g, h, d
        let mut subjects = vec![agent_group(&g).await, agent_group(&h).await];
        { let id = { let l = d.lock().await; l.doc_id() }; subjects.push(keyhive_core::principal::agent::Agent::Document(id, d.dupe())); }
        for k in &ks[1..3] { subjects.push(agent_in(a, id_of(k).await).await); }
        note("ready");
        let mut revoked = false;
        let mut used = false;
        for _ in 0..arg {
            let (s, m) = (choice("subject", 5) as usize, choice("to", 4) as usize);
            // g and h, bob and carol are alike until used: g is used before h
            if s == 0 || m == 0 { used = true; }
            assume(used || (s != 1 && m != 1));
            assume(subjects[s].id() != match m { 0 => ms[0].agent_id().into(), 1 => ms[1].agent_id().into(), 2 => ms[2].agent_id().into(), _ => ms[3].agent_id().into() });
            let there = ms[m].members().await.contains_key(&subjects[s].id());
            if there { check(a.revoke_member(subjects[s].id(), true, &ms[m]).await.is_ok(), "a founder can revoke"); revoked = true; }
            else { check(a.add_member(subjects[s].clone(), &ms[m], Access::Edit, &[]).await.is_ok(), "a founder can add"); }
        }
        if revoked { cover("revoked"); }
        let mut got = false;
        for k in &ks[1..] {
            let id = id_of(k).await;
            let sent = agree(a, id).await;
            let evs = events_for(a, k).await;
            let p = k.ingest_unsorted_static_events(evs).await;
            check(p.is_empty(), "what an agent is sent stands on its own");
            for m in &ms {
                let there = { let t = match m { keyhive_core::principal::membered::Membered::Group(_, g) => { let l = g.lock().await; l.transitive_members().await } keyhive_core::principal::membered::Membered::Document(_, d) => { let l = d.lock().await; l.transitive_members().await } }; t.contains_key(&id) };
                let mine = match m { keyhive_core::principal::membered::Membered::Group(id, _) => the_group(k, *id).await, keyhive_core::principal::membered::Membered::Document(id, _) => match k.get_document(*id).await { Some(d) => Some(mem_doc(&d).await), None => None } };
                if there {
                    got = true;
                    check(mine.is_some(), "a member is sent what it belongs to");
                    if let Some(x) = mine { check(view(&x).await == view(m).await, "a member sees the sender's view of what it belongs to"); }
                }
            }
            let _ = sent;
        }
        let _ = agree(a, id_of(a).await).await;
        if got { cover("synced"); }
        cover("done");
    });
}
/// The group or document as `k` holds it.
async fn at(k: &Kh, m: &Mem) -> Option<Mem> { match m { keyhive_core::principal::membered::Membered::Group(id, _) => the_group(k, *id).await, keyhive_core::principal::membered::Membered::Document(id, _) => match k.get_document(*id).await { Some(d) => Some(mem_doc(&d).await), None => None } } }
async fn reach(m: &Mem) -> BTreeSet<[u8; 32]> { m.transitive_members().await.keys().map(|k| *k.as_bytes()).collect() }
/// `from` sends `to` what it selects for it.
async fn hand(from: &Kh, to: &Kh, ms: &[Mem]) {
    let id = id_of(to).await;
    if from.get_agent(id).await.is_none() { return; }
    let _ = agree(from, id).await;
    let evs = events_for(from, to).await;
    let n = evs.len();
    let left = to.ingest_unsorted_static_events(evs).await;
    if !left.is_empty() { for e in &left { note(&format!("waiting of {n}: {e:?}").chars().take(300).collect::<String>()); } }
    check(left.is_empty(), "what an agent is sent stands on its own");
    for m in ms {
        let Some(m) = at(from, m).await else { continue };
        if !reach(&m).await.contains(id.as_bytes()) { continue; }
        let mine = at(to, &m).await;
        check(mine.is_some(), "a member is sent what it belongs to");
        if mine.is_some() { cover("synced"); }
    }
}
/// Two admins of a group (`arg` 0) or document (1): the second acts on what the first did, then whoever was touched is sent what each admin selects for it. `arg` / 10: actions of the second.
#[no_mangle]
pub extern "C-unwind" fn h_admins(arg: u64) {
    block_on(async {
        let ks: Vec<Kh> = (0..4).map(|_| keyhive()).collect();
        let (a, b) = (&ks[0], &ks[1]);
        for k in &ks[1..] { meet(a, k).await; }
        for k in &ks[2..] { meet(b, k).await; }
        let h = a.generate_group(vec![]).await.unwrap();
        let hm = mem_group(&h).await;
        let m = if arg % 10 == 0 { let g = a.generate_group(vec![]).await.unwrap(); mem_group(&g).await } else { let d = new_doc(a).await; mem_doc(&d).await };
        let ms = [m.clone(), hm.clone()];
        let (bob, carol, dan) = (agent_in(a, id_of(b).await).await, agent_in(a, id_of(&ks[2]).await).await, agent_in(a, id_of(&ks[3]).await).await);
        // carol in the group or in a member group of it
        let nested = ksym::flag("nested");
        let first = ksym::flag("carol-first");
        if first { if nested { a.add_member(carol.clone(), &hm, Access::Read, &[]).await.unwrap(); a.add_member(agent_group(&h).await, &m, Access::Edit, &[]).await.unwrap(); } else { a.add_member(carol.clone(), &m, Access::Edit, &[]).await.unwrap(); } }
        a.add_member(bob.clone(), &m, Access::Admin, &[]).await.unwrap();
        if !first { if nested { a.add_member(agent_group(&h).await, &m, Access::Edit, &[]).await.unwrap(); a.add_member(carol.clone(), &hm, Access::Read, &[]).await.unwrap(); } else { a.add_member(carol.clone(), &m, Access::Edit, &[]).await.unwrap(); } }
        if ksym::flag("dan") { a.add_member(dan.clone(), &m, Access::Read, &[]).await.unwrap(); cover("dan"); }
        hand(a, b, &ms).await;
        note("ready");
        for _ in 0..arg / 10 {
            let Some(mb) = at(b, &m).await else { return };
            let who = [id_of(&ks[2]).await, id_of(&ks[3]).await, hm.agent_id().into(), id_of(a).await][choice("who", 4) as usize];
            let members = mb.members().await;
            // it may have lost its access with the founder's
            assume(members.contains_key(&id_of(b).await));
            if members.contains_key(&who) {
                let retain = ksym::flag("retain");
                let r = b.revoke_member(who, retain, &mb).await;
                // whoever retains what rests on the founder's authority needs authority of its own
                check(r.is_ok() || retain && who == id_of(a).await, "an admin can revoke");
                assume(r.is_ok());
                cover("revoked");
            } else {
                let Some(x) = b.get_agent(who).await else { assume(false); return };
                check(b.add_member(x, &mb, Access::Read, &[]).await.is_ok(), "an admin can add");
                cover("added");
            }
        }
        hand(b, a, &ms).await;
        if let (Some(x), Some(y)) = (at(a, &m).await, at(b, &m).await) { let id = id_of(a).await; if reach(&y).await.contains(id.as_bytes()) { check(view(&x).await == view(&y).await, "the admins agree"); } }
        let from = if ksym::flag("from-founder") { a } else { b };
        for k in &ks[2..] {
            hand(from, k, &ms).await;
            let id = id_of(k).await;
            let (x, y) = (at(from, &m).await.unwrap(), at(k, &m).await);
            if reach(&x).await.contains(id.as_bytes()) { if let Some(y) = y { check(view(&x).await == view(&y).await, "a member sees the sender's view of what it belongs to"); } }
            else if let Some(y) = y { check(!reach(&y).await.contains(id.as_bytes()), "a former member that knew the group sees that it is out"); cover("former"); }
        }
        cover("done");
    });
}
entries!(h_sync, h_admins);

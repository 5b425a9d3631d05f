//! Only authorized operations change who has access.
use harness::*;
use keyhive_core::{access::Access, principal::{group::{delegation::StaticDelegation, id::GroupId, revocation::StaticRevocation}, identifier::Identifier}};
use keyhive_crypto::{digest::Digest, signed::Signed};
use std::collections::BTreeMap;

type Dlg = Signed<StaticDelegation<C>>;
struct W { ks: Vec<Kh>, sg: Vec<MemorySigner>, g: Mem, h: Mem, dl: Vec<Dlg>, lv: Vec<Access> }
fn dlg_of(evs: &[Sev]) -> Dlg { for e in evs { if let Sev::Delegated(d) = e { return d.clone(); } } panic!("no delegation") }
fn vk(s: &MemorySigner) -> [u8; 32] { use keyhive_crypto::verifiable::Verifiable; s.verifying_key().to_bytes() }

/// 0 Alice founds g and h; 1 Bob in g; 2 Carol in g (through Bob); 3 Dave in h, which is in g; 4 Mallory in neither.
async fn world(lv: Vec<Access>) -> W {
    let sg: Vec<MemorySigner> = (0..5).map(|_| MemorySigner::generate(&mut rand::rngs::OsRng)).collect();
    let ks: Vec<Kh> = vec![keyhive_with(sg[0].clone()), keyhive_with(sg[1].clone())];
    let mut peers = vec![];
    for s in &sg[2..] { peers.push(keyhive_with(s.clone())); }
    for p in ks.iter().chain(peers.iter()) { for k in &ks { if k.id() != p.id() { meet(k, p).await; } } }
    let a = &ks[0];
    let (g, h) = (a.generate_group(vec![]).await.unwrap(), a.generate_group(vec![]).await.unwrap());
    let (g, h) = (mem_group(&g).await, mem_group(&h).await);
    let mut dl = vec![];
    let root = mem_events(&g).await; dl.push(dlg_of(&root));
    let hroot = mem_events(&h).await;
    let u = a.add_member(agent_in(a, id_of(&ks[1]).await).await, &g, lv[0], &[]).await.unwrap();
    let bobs = sev_add(&u); dl.push(dlg_of(&bobs));
    // Bob admits Carol on his own replica
    let b = &ks[1];
    let _ = b.ingest_unsorted_static_events([root.clone(), bobs.clone()].concat()).await;
    let bg = the_group(b, gid(&g)).await.unwrap();
    let u = b.add_member(agent_in(b, id_of(&peers[0]).await).await, &bg, lv[1], &[]).await;
    check(u.is_ok() == (lv[1] <= lv[0]), "a member delegates exactly what it holds or less");
    if let Ok(u) = u { dl.push(dlg_of(&sev_add(&u))); let _ = a.ingest_unsorted_static_events(sev_add(&u)).await; } else { dl.push(dl[1].clone()); }
    let hg = match &h { Mem::Group(_, x) => agent_group(x).await, _ => unreachable!() };
    let u = a.add_member(hg, &g, lv[2], &[]).await.unwrap(); dl.push(dlg_of(&sev_add(&u)));
    let u = a.add_member(agent_in(a, id_of(&peers[1]).await).await, &h, lv[3], &[]).await.unwrap(); dl.push(dlg_of(&sev_add(&u)));
    let _ = hroot;
    W { ks, sg, g, h, dl, lv }
}
fn gid(m: &Mem) -> GroupId { match m { Mem::Group(i, _) => *i, _ => unreachable!() } }
fn ident(b: &[u8; 32]) -> Identifier { ed25519_dalek::VerifyingKey::from_bytes(b).unwrap().into() }

/// A delegation crafted by anyone with any fields.
#[no_mangle]
pub extern "C-unwind" fn h_delegate(_m: u64) {
    block_on(async {
        let lv = vec![sym_access("bob"), sym_access("carol"), sym_access("h"), sym_access("dave")];
        let w = world(lv).await;
        note("world");
        let a = &w.ks[0];
        let (s, p) = (choice("signer", 5) as usize, choice("proof", 6) as usize);
        let can = sym_access("can");
        let to = if ksym::flag("to-bob") { 1 } else { 4 };
        let proof = if p == 5 { None } else { Some(&w.dl[p]) };
        let d = StaticDelegation { can, proof: proof.map(|p| Digest::hash(p)), delegate: ident(&vk(&w.sg[to])), after_revocations: vec![], after_content: BTreeMap::new() };
        let d: Dlg = w.sg[s].try_sign_sync(d).unwrap();
        let (b1, b2) = (view(&w.g).await, view(&w.h).await);
        let r = a.receive_static_event(Sev::Delegated(d.clone())).await;
        let (v1, v2) = (view(&w.g).await, view(&w.h).await);
        let me = vk(&w.sg[s]);
        let ok = match proof {
            None => false,
            Some(p) => can <= p.payload().can && (*p.payload().delegate.as_bytes() == me || p.payload().delegate == w.h.agent_id().into() && {
                // members of h: Alice (admin) and Dave
                let have = if s == 0 { Some(Access::Admin) } else if s == 3 { Some(w.lv[3]) } else { None };
                have.is_some_and(|x| can <= x) }),
        };
        let took = v1.members != b1.members || v2.members != b2.members;
        if ok { let sig = d.signature().to_bytes();
            check(r.is_ok() && (v1.members.values().any(|d| d.contains(&sig)) || v2.members.values().any(|d| d.contains(&sig))), "an authorized delegation takes effect"); cover("authorized"); }
        else {
            check(!took, "an unauthorized delegation adds nobody");
            check(v1.access == b1.access && v2.access == b2.access, "an unauthorized delegation changes no access");
            if proof.is_some() { check(r.is_err(), "an unauthorized delegation is refused"); }
            check(v1 == b1 && v2 == b2, "an unauthorized delegation leaves no trace");
            cover("unauthorized");
        }
    });
}
/// A revocation crafted by anyone with any fields.
#[no_mangle]
pub extern "C-unwind" fn h_revoke(_m: u64) {
    block_on(async {
        let lv = vec![sym_access("bob"), sym_access("carol"), sym_access("h"), sym_access("dave")];
        assume(lv[1] <= lv[0]);
        let w = world(lv).await;
        let a = &w.ks[0];
        let (s, p, x) = (choice("signer", 5) as usize, choice("proof", 6) as usize, choice("target", 5) as usize);
        let proof = if p == 5 { None } else { Some(&w.dl[p]) };
        let r = StaticRevocation { revoke: Digest::hash(&w.dl[x]), proof: proof.map(|p| Digest::hash(p)), after_content: BTreeMap::new() };
        let r: Signed<StaticRevocation<C>> = w.sg[s].try_sign_sync(r).unwrap();
        let (b1, b2) = (view(&w.g).await, view(&w.h).await);
        let res = a.receive_static_event(Sev::Revoked(r)).await;
        let (v1, v2) = (view(&w.g).await, view(&w.h).await);
        // who the signer is with respect to each delegation
        let issued = |i: usize| match i { 2 => s == 1, 0 => false, _ => s == 0 };
        let holds = |i: usize| match i { 0 => s == 0, 1 => s == 1, 2 => s == 2, 4 => s == 3, _ => false };
        let under = |d: usize, p: usize| d == p || d == 2 && p <= 1 || p == 0 && d < 4;
        let same_group = |i: usize, j: usize| (i == 4) == (j == 4);
        let via_h = |min: Access| s == 0 || s == 3 && w.lv[3] >= min;
        let ok = p < 5 && same_group(p, x) && (
            under(x, p) && (issued(p) || holds(p))
            || holds(p) && w.dl[p].payload().can == Access::Admin
            || p == 3 && via_h(w.dl[x].payload().can));
        if !ok {
            check(v1 == b1 && v2 == b2, "an unauthorized revocation changes nothing");
            cover("unauthorized-revocation");
        } else {
            check(res.is_ok(), "an authorized revocation is accepted");
            let t = if x == 4 { &v2 } else { &v1 };
            let has = |i: usize| { let sig = w.dl[i].signature().to_bytes(); t.members.values().any(|d| d.contains(&sig)) };
            check(!has(x), "an authorized revocation ends the delegation");
            if x == 1 { check(!has(2), "a revocation ends the delegations that rest on the revoked one"); }
            if x == 0 { check(v1.members.is_empty() && v1.access.is_empty(), "revoking the root ends every delegation"); }
            if x == 2 { check(has(1) && has(3), "a revocation ends nothing else"); }
            cover("authorized-revocation");
        }
    });
}
entries!(h_delegate, h_revoke);

//! Membership as a function of the operations received, and what a revocation does to it.
use future_form::Sendable;
use harness::*;
use keyhive_core::{access::Access, listener::no_listener::NoListener, principal::{group::{delegation::Delegation, membership_operation::MembershipOperation, revocation::Revocation, id::GroupId}, identifier::Identifier}};
use keyhive_crypto::signed::Signed;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Op = MembershipOperation<Sendable, MemorySigner, C, NoListener>;
type D = Arc<Signed<Delegation<Sendable, MemorySigner, C, NoListener>>>;
type R = Arc<Signed<Revocation<Sendable, MemorySigner, C, NoListener>>>;
type Sig = [u8; 64];
fn sig(d: &D) -> Sig { d.signature().to_bytes() }
/// Any level; when the history is longer, one that can and one that cannot change membership.
fn lv(n: &str, steps: u64) -> Access { if steps < 2 { sym_access(n) } else if ksym::flag(n) { Access::Admin } else { Access::Read } }
fn lineage(d: &D) -> Vec<D> { let mut v = vec![d.clone()]; let mut d = d.clone(); while let Some(p) = d.payload().proof() { let p = p.clone(); v.push(p.clone()); d = p; } v }

/// A creator and others; everyone knows everyone's keys.
struct World { ks: Vec<Kh>, gid: GroupId, sent: Vec<Sev>, ds: Vec<D>, rs: Vec<R> }
async fn world(n: usize) -> World {
    let ks: Vec<Kh> = (0..n).map(|_| keyhive()).collect();
    for i in 0..n { for j in 0..n { if i != j { meet(&ks[i], &ks[j]).await; } } }
    let g = ks[0].generate_group(vec![]).await.unwrap();
    let gid = { let l = g.lock().await; l.group_id() };
    let m = mem_group(&g).await;
    let ds = m.members().await.values().flatten().cloned().collect();
    World { ks, gid, sent: mem_events(&m).await, ds, rs: vec![] }
}
impl World {
    async fn at(&self, i: usize) -> Option<Mem> { the_group(&self.ks[i], self.gid).await }
    async fn add(&mut self, me: usize, who: usize, a: Access) -> Option<Vec<Sev>> {
        let g = self.at(me).await?;
        let to = agent_in(&self.ks[me], id_of(&self.ks[who]).await).await;
        match self.ks[me].add_member(to, &g, a, &[]).await { Ok(u) => { self.ds.push(u.delegation.clone()); Some(sev_add(&u)) } Err(_) => None }
    }
    async fn revoke(&mut self, me: usize, who: usize, retain: bool) -> Option<Vec<Sev>> {
        let g = self.at(me).await?;
        let before = view(&g).await;
        let to: Identifier = id_of(&self.ks[who]).await;
        match self.ks[me].revoke_member(to, retain, &g).await {
            Ok(u) => { self.rs.extend(u.revocations().iter().cloned()); self.ds.extend(u.redelegations().iter().cloned()); Some(sev_rev(&u)) }
            Err(_) => { check(view(&g).await == before, "a refused revocation changes nothing"); None }
        }
    }
    async fn start(&self, to: &[usize]) { for i in to { let _ = self.ks[*i].ingest_unsorted_static_events(self.sent.clone()).await; } }
    async fn tell(&mut self, evs: Vec<Sev>, to: &[usize]) { for i in to { let _ = self.ks[*i].ingest_unsorted_static_events(evs.clone()).await; } self.sent.extend(evs); }
    /// Best level of each direct member, as replica `i` sees it.
    async fn levels(&self, i: usize) -> BTreeMap<[u8; 32], Access> { match self.at(i).await { None => BTreeMap::new(), Some(g) => levels(&g).await } }
    /// Bounds on what the operations so far may leave in force.
    fn model(&self) -> (BTreeSet<Sig>, BTreeSet<Sig>) {
        let root = self.gid.as_bytes();
        let gone: BTreeSet<Sig> = self.rs.iter().map(|r| sig(r.payload().revoked())).collect();
        // nothing above it revoked: certainly in force
        let least = self.ds.iter().filter(|d| lineage(d).iter().all(|x| !gone.contains(&sig(x)))).map(sig).collect();
        // revoked by someone whose own standing nobody else disputes: certainly not
        let dead: BTreeSet<Sig> = self.rs.iter().filter(|r| match r.payload().proof() { None => true, Some(p) => lineage(&p).iter().all(|x| self.rs.iter().all(|q| q.issuer() == r.issuer() || sig(q.payload().revoked()) != sig(x))) }).map(|r| sig(r.payload().revoked())).collect();
        let mut most: BTreeSet<Sig> = BTreeSet::new();
        loop {
            let n = most.len();
            for d in &self.ds {
                if dead.contains(&sig(d)) { continue; }
                let by_root = d.issuer().as_bytes() == root;
                let by_proof = d.payload().proof().is_some_and(|p| most.contains(&sig(p)));
                let other = d.payload().proof().is_some_and(|p| self.ds.iter().any(|o| most.contains(&sig(o)) && sig(o) != sig(p) && o.payload().delegate().id().as_bytes() == d.issuer().as_bytes() && o.payload().can() >= p.payload().can()));
                if by_root || by_proof || other { most.insert(sig(d)); }
            }
            if most.len() == n { return (least, most); }
        }
    }
    /// Whether the operations leave room for it to be a member.
    fn may_stay(&self, who: &[u8; 32]) -> bool { let (_, most) = self.model(); self.ds.iter().any(|d| most.contains(&sig(d)) && d.payload().delegate().id().as_bytes() == who) }
    async fn agree(&self, who: &[usize]) {
        let (least, most) = self.model();
        let mut first: Option<View> = None;
        let sent: BTreeSet<Vec<u8>> = self.sent.iter().filter(|e| !matches!(e, Sev::CgkaOperation(_))).map(|e| bincode::serialize(e).unwrap()).collect();
        for i in who {
            let Some(g) = self.at(*i).await else { check(false, "every replica that was told knows the group"); continue };
            let live: BTreeSet<Sig> = g.members().await.values().flatten().map(sig).collect();
            check(least.iter().all(|d| live.contains(d)), "what no revocation touches stays");
            check(live.iter().all(|d| most.contains(d)), "what is revoked, and what rests on it alone, goes");
            let v = view(&g).await;
            if *i != who[who.len() - 1] { } else {
            let held: BTreeSet<Vec<u8>> = mem_events(&g).await.iter().map(|e| bincode::serialize(e).unwrap()).collect();
            check(held == sent, "every operation can be reached from the heads");
            }
            match &first { None => first = Some(v), Some(f) => { check(v.members == f.members && v.access == f.access, "replicas with the same operations have the same members"); check(v.revoked == f.revoked, "replicas with the same operations have the same former members"); } }
        }
    }
}
async fn levels(g: &Mem) -> BTreeMap<[u8; 32], Access> { g.members().await.iter().map(|(k, ds)| (*k.as_bytes(), ds.iter().map(|d| d.payload().can()).max().unwrap())).collect() }

/// A history of grants among four people, then `arg` % 10 revocations (or additions) one after the other by anyone.
#[no_mangle]
pub extern "C-unwind" fn h_effect(arg: u64) {
    block_on(async {
        let mut w = world(4).await;
        let all = [0usize, 1, 2, 3];
        w.start(&all).await;
        let e = w.add(0, 1, lv("bob", arg % 10 + arg / 10)).await.unwrap(); w.tell(e, &all).await;
        for who in [2usize, 3] {
            let by = choice("by", who as u64) as usize;
            let Some(e) = w.add(by, who, lv("level", arg % 10 + arg / 10)).await else { assume(false); return };
            w.tell(e, &all).await;
        }
        if arg >= 10 && ksym::flag("twice") {
            let (by, who) = (choice("by2", 4) as usize, 1 + choice("who2", 3) as usize);
            assume(by != who);
            let Some(e) = w.add(by, who, lv("level2", arg % 10 + arg / 10)).await else { assume(false); return };
            w.tell(e, &all).await;
            cover("twice");
        }
        note("granted");
        for n in 0..arg % 10 {
            let (by, who) = (choice("actor", 4) as usize, choice("target", 4) as usize);
            let before = w.levels(by).await;
            let (me, it) = (*id_of(&w.ks[by]).await.as_bytes(), *id_of(&w.ks[who]).await.as_bytes());
            if before.contains_key(&it) {
                let retain = ksym::flag("retain");
                let r = w.revoke(by, who, retain).await;
                match r {
                    None => { check(before.get(&me) != Some(&Access::Admin) || retain, "an admin can revoke"); assume(n + 1 == arg % 10); cover("refused"); }
                    Some(e) => {
                        check(before.contains_key(&me), "only a member can revoke");
                        cover("revoked");
                        w.tell(e, &all).await;
                        let after = w.levels(by).await;
                        if !w.may_stay(&it) { check(!after.contains_key(&it), "a revoked member is out"); cover("out"); }
                        if retain && by != who { for (k, l) in &before { if *k != it { check(after.get(k) == Some(l), "the retained members keep their access"); } } cover("retained"); }
                    }
                }
            } else {
                match w.add(by, who, lv("again", arg % 10 + arg / 10)).await { None => assume(n + 1 == arg % 10), Some(e) => { w.tell(e, &all).await; cover("re-added"); } }
            }
            w.agree(&all).await;
        }
        cover("done");
    });
}
/// Concurrent operations by two members (`arg` % 10 = 1: or three), delivered in any order, with repeats; `arg` / 10: with any order among the hashes of the operations.
#[no_mangle]
pub extern "C-unwind" fn h_converge(arg: u64) {
    block_on(async {
        let mut w = world(4).await;
        w.start(&[1, 2]).await;
        let three = arg % 10 == 1;
        // Alice admits Bob and Carol
        let e = w.add(0, 1, Access::Admin).await.unwrap(); w.tell(e, &[0, 1, 2]).await;
        let by = choice("by", 2) as usize;
        let e = w.add(by, 2, if three || ksym::flag("carol") { Access::Admin } else { Access::Read }).await.unwrap(); w.tell(e, &[0, 1, 2]).await;
        let base = w.sent.clone();
        note("setup");
        ksym::ranks(arg >= 10);
        let mut evs = vec![];
        for me in 0..3usize {
            if !three && me == 2 || three && me == 0 && !ksym::flag("founder-too") { continue; }
            let who = choice("who", 4) as usize;
            let e = match choice("kind", 3) { 0 => w.add(me, who, Access::Read).await, k => w.revoke(me, who, k == 1).await };
            let Some(e) = e else { assume(false); return };
            if e.is_empty() { assume(false); }
            evs.extend(e);
        }
        note("ops");
        w.tell(base, &[3]).await;
        let p = if evs.len() <= 3 { ksym::permute("order", evs.clone()) } else { let mut p = evs.clone(); if ksym::flag("backwards") { p.reverse(); } p.rotate_left(choice("from", evs.len() as u64) as usize); p };
        for e in p { let _ = w.ks[3].ingest_unsorted_static_events(vec![e]).await; }
        for _ in 0..2 { for i in [2usize, 0] { for e in &evs { let _ = w.ks[i].ingest_unsorted_static_events(vec![e.clone()]).await; } } }
        w.sent.extend(evs.clone());
        w.agree(&[0, 2, 3]).await;
        if evs.len() >= 2 { cover("concurrent"); }
        if !w.rs.is_empty() { cover("revoked"); }
        if w.rs.len() > 1 && w.rs[0].issuer() != w.rs[w.rs.len() - 1].issuer() { cover("two-revokers"); }
    });
}
/// A member that was removed, and whether later changes can undo that: 0, its remover is removed; 1, someone it had added is asked about after it is admitted again.
#[no_mangle]
pub extern "C-unwind" fn h_undone(arg: u64) {
    for _ in 0..choice("salt", 6) { let _ = keyhive(); }
    block_on(async {
        let mut w = world(4).await;
        w.start(&[1, 2]).await;
        let e = w.add(0, 1, Access::Admin).await.unwrap(); w.tell(e, &[0, 1, 2]).await;
        let e = w.add(if arg == 0 { 0 } else { 1 }, 2, Access::Read).await.unwrap(); w.tell(e, &[0, 1, 2]).await;
        let carol = *id_of(&w.ks[2]).await.as_bytes();
        if arg == 0 {
            let e = w.revoke(1, 2, false).await.unwrap(); w.tell(e, &[0, 2]).await;
            let by = choice("by", 2) as usize;
            let e = w.revoke(by, 1, ksym::flag("retain")).await.unwrap(); w.tell(e, &[0, 1, 2]).await;
            check(!w.levels(0).await.contains_key(&carol), "a removal outlives the later removal of whoever made it");
        } else {
            let e = w.revoke(0, 1, false).await.unwrap(); w.tell(e, &[0, 1, 2]).await;
            check(!w.levels(0).await.contains_key(&carol), "what is revoked, and what rests on it alone, goes");
            let e = w.add(0, 1, Access::Admin).await.unwrap(); w.tell(e, &[0, 1, 2]).await;
            check(!w.levels(0).await.contains_key(&carol), "admitting a member again brings back only that member");
        }
        w.agree(&[0, 1, 2]).await;
        cover("undone");
    });
}
entries!(h_effect, h_converge, h_undone);

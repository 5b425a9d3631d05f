//! Effective access through nested groups.
use harness::*;
use keyhive_core::access::Access;
use std::collections::BTreeMap;

type Edges = BTreeMap<[u8; 32], Vec<([u8; 32], Access)>>;
/// max over delegation paths of the min along the path, by plain relaxation.
fn oracle(root: [u8; 32], e: &Edges) -> BTreeMap<[u8; 32], Access> {
    let mut best: BTreeMap<[u8; 32], Access> = BTreeMap::new();
    let n = e.len() + 1;
    for _ in 0..n {
        for (g, ms) in e {
            let up = if *g == root { Some(Access::Admin) } else { best.get(g).copied() };
            let Some(up) = up else { continue };
            for (m, a) in ms {
                if *m == root { continue; }
                let v = if *a < up { *a } else { up };
                let better = match best.get(m) { None => true, Some(o) => *o < v };
                if better { best.insert(*m, v); }
            }
        }
    }
    best
}
#[no_mangle]
pub extern "C-unwind" fn h_access(n: u64) {
    ksym::seed(choice("seed", 3));
    let (a, b) = (keyhive(), keyhive());
    block_on(async {
        let bob = meet(&a, &b).await;
        let mut gs = vec![];
        for _ in 0..n { gs.push(a.generate_group(vec![]).await.unwrap()); }
        let mut edges = Edges::new();
        let me = *id_of(&a).await.as_bytes();
        let mut ids = vec![];
        for g in &gs { let l = g.lock().await; ids.push(*l.id().as_bytes()); }
        for i in &ids { edges.insert(*i, vec![(me, Access::Admin)]); }
        for i in 0..gs.len() {
            let m = mem_group(&gs[i]).await;
            for j in 0..=gs.len() {
                if i == j || !ksym::flag("edge") { continue; }
                let acc = sym_access("acc");
                let (who, wid) = if j == gs.len() { (bob.dupe(), *bob.id().as_bytes()) } else { (agent_group(&gs[j]).await, ids[j]) };
                let r = a.add_member(who, &m, acc, &[]).await;
                check(r.is_ok(), "admin can add");
                edges.get_mut(&ids[i]).unwrap().push((wid, acc));
            }
        }
        for (i, g) in gs.iter().enumerate() {
            if i > 0 && n > 2 { break; }
            let got = { let l = g.lock().await; l.transitive_members().await };
            let want = oracle(ids[i], &edges);
            check(got.keys().all(|k| want.contains_key(k.as_bytes())), "only reachable agents");
            for (k, v) in &want {
                match got.get(&keyhive_core_id(k)) { None => check(false, "reachable agent missing"), Some((_, x)) => { check(*x <= *v, "no more than the best path grants"); check(*x >= *v, "no less than the best path grants"); } }
            }
            if got.len() >= 3 { cover("nested"); }
        }
    });
}
fn keyhive_core_id(b: &[u8; 32]) -> keyhive_core::principal::identifier::Identifier { ed25519_dalek::VerifyingKey::from_bytes(b).unwrap().into() }
use dupe::Dupe;
entries!(h_access);

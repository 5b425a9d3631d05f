//! Continuous group key agreement: concurrent changes converge; exactly the members share the key.
use beekem::{cgka::Cgka, encrypted::EncryptedContent, id::{MemberId, TreeId}, keys::ShareKeyMap, operation::CgkaOperation};
use future_form::Sendable;
use harness::*;
use keyhive_crypto::{share_key::{ShareKey, ShareSecretKey}, signed::Signed, verifiable::Verifiable};
use std::{collections::BTreeSet, sync::Arc};

type Op = Arc<Signed<CgkaOperation>>;
/// One participant: identity, initial key, and its replica.
struct P { sk: MemberSigner, id: MemberId, pk: ShareKey, pk2: ShareKey, c: Cgka }
type MemberSigner = MemorySigner;
struct W { doc: TreeId, init: Signed<CgkaOperation>, founder: (MemberId, ShareKey), log: Vec<Op> }

fn fresh(w: &W, id: MemberId, pk: ShareKey, sk: ShareSecretKey) -> Cgka {
    let mut m = ShareKeyMap::new(); m.insert(pk, sk);
    Cgka::new_from_init_add(w.doc, w.founder.0, w.founder.1, w.init.clone()).unwrap().with_new_owner(id, m).unwrap()
}
fn key() -> (ShareKey, ShareSecretKey) { let s = ShareSecretKey::generate(&mut rand::rngs::OsRng); (s.share_key(), s) }

async fn setup(n: usize, members: usize) -> (W, Vec<P>) {
    let mut ids = vec![];
    for _ in 0..n { let sk = MemorySigner::generate(&mut rand::rngs::OsRng); let (pk, ssk) = key(); ids.push((MemberId(sk.verifying_key()), pk, ssk, sk)); }
    let doc = TreeId(MemorySigner::generate(&mut rand::rngs::OsRng).verifying_key());
    let c = Cgka::new::<Sendable, _>(doc, ids[0].0, ids[0].1, &ids[0].3).await.unwrap();
    let w = W { doc, init: c.init_add_op(), founder: (ids[0].0, ids[0].1), log: vec![] };
    let mut ps: Vec<P> = ids.into_iter().map(|(id, pk, ssk, sk)| { let mut c = fresh(&w, id, pk, ssk); let (pk2, ssk2) = key(); c.owner_sks.insert(pk2, ssk2); P { sk, id, pk, pk2, c } }).collect();
    let mut w = w;
    for k in 1..members {
        let (id, pk) = (ps[k].id, ps[k].pk);
        let sk = ps[0].sk.clone();
        let o = ps[0].c.add::<Sendable, _>(id, pk, &sk).await.unwrap().unwrap();
        w.log.push(Arc::new(o));
    }
    for k in 1..members { for o in &w.log { ps[k].c.merge_concurrent_operation(o.clone()).unwrap(); } }
    (w, ps)
}
/// What an operation was, for the oracle.
#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Update, Add(usize), Remove(usize) }

/// One operation by `who` over the participants, chosen among those possible at its replica; `None` to do nothing.
async fn act(ps: &mut [P], who: usize, name: &str, here: &mut BTreeSet<usize>, idle: bool) -> Option<(K, Op)> {
    let n = ps.len() as u64;
    let c = choice(name, n + 2);
    if c == n + 1 { assume(idle); return None; }
    let sk = ps[who].sk.clone();
    if c == n {
        assume(here.contains(&who));
        let (pk, ssk) = key();
        let r = ps[who].c.update::<Sendable, _, _>(pk, ssk, &sk, &mut rand::rngs::OsRng).await;
        check(r.is_ok(), "a member can rotate its key");
        return r.ok().map(|(_, o)| (K::Update, Arc::new(o)));
    }
    let t = c as usize;
    let id = ps[t].id;
    if here.contains(&t) {
        assume(here.len() > 1);
        let r = ps[who].c.remove::<Sendable, _>(id, &sk).await;
        check(matches!(r, Ok(Some(_))), "a member can be removed");
        here.remove(&t);
        r.ok().flatten().map(|o| (K::Remove(t), Arc::new(o)))
    } else {
        // the two branches may know different keys of it
        let pk = if who == 0 { ps[t].pk } else { ps[t].pk2 };
        let r = ps[who].c.add::<Sendable, _>(id, pk, &sk).await;
        check(matches!(r, Ok(Some(_))), "a participant outside the group can be added");
        here.insert(t);
        r.ok().flatten().map(|o| (K::Add(t), Arc::new(o)))
    }
}
/// The secrets a replica in state `base` can get hold of as it receives `order`, trying to open the group's key at every step.
fn harvest(base: &Cgka, sks: &ShareKeyMap, order: &[Op]) -> ShareKeyMap {
    let mut c = beekem::transact::Fork::fork(base);
    beekem::transact::Merge::merge(&mut c.owner_sks, sks.clone());
    let _ = c.secret_from_root();
    for o in order { let _ = c.merge_concurrent_operation(o.clone()); let mut d = beekem::transact::Fork::fork(&c); let _ = d.secret_from_root(); beekem::transact::Merge::merge(&mut c.owner_sks, d.owner_sks); }
    c.owner_sks
}
fn deliver(c: &mut Cgka, o: &Op) { let r = c.merge_concurrent_operation(o.clone()); check(r.is_ok(), "an operation whose predecessors are known merges"); }

/// `by` encrypts; everyone in `here` decrypts, with no one else's key material able to.
async fn agree(w: &mut W, ps: &mut [P], by: usize, here: &BTreeSet<usize>, tag: u8, pose: bool) {
    let n = ps.len();
    let sk = ps[by].sk.clone();
    let content = [tag; 5];
    let r = ps[by].c.new_app_secret_for::<Sendable, _, [u8; 32], _>(&[tag; 32], &content, &vec![], &sk, &mut rand::rngs::OsRng).await;
    check(r.is_ok(), "a member can encrypt");
    let Ok((secret, op)) = r else { return };
    let enc: EncryptedContent<Vec<u8>, [u8; 32]> = secret.try_encrypt(&content).unwrap();
    if let Some(o) = op { let o = Arc::new(o); for k in 0..n { if k != by { deliver(&mut ps[k].c, &o); } } w.log.push(o); }
    for k in 0..n {
        let got = ps[k].c.decryption_key_for(&enc).ok().and_then(|s| enc.try_decrypt(s).ok());
        if here.contains(&k) { check(got.as_deref() == Some(&content[..]), "every member decrypts what a member encrypts"); check(ps[k].c.group_size() as usize == here.len(), "replicas agree on the group's size"); }
        else { check(got.is_none(), "no one outside the group decrypts"); }
        if here.contains(&k) { continue; }
        if !pose { continue; }
        // with its secrets, posing as each member
        for t in here {
            let sks = ps[k].c.owner_sks.clone();
            let mut c = Cgka::new_from_init_add(w.doc, w.founder.0, w.founder.1, w.init.clone()).unwrap().with_new_owner(ps[*t].id, sks).unwrap();
            for o in &w.log { let _ = c.merge_concurrent_operation(o.clone()); }
            let got = c.decryption_key_for(&enc).ok().and_then(|s| enc.try_decrypt(s).ok());
            check(got.is_none(), "an outsider's secrets open nothing, whoever it poses as");
        }
    }
}

/// Members 0,1,2 of four participants. Two members act concurrently (`arg` = ops of the first and second, decimal digits), all exchange, then one encrypts.
#[no_mangle]
pub extern "C-unwind" fn h_concurrent(arg: u64) {
    block_on(async {
        let (post, n, m, la, lb) = (arg / 10000, (arg / 1000 % 10) as usize, (arg / 100 % 10) as usize, arg / 10 % 10, arg % 10);
        let (mut w, mut ps) = setup(n, m).await;
        let mut here: BTreeSet<usize> = (0..m).collect();
        if ksym::flag("keyed") { agree(&mut w, &mut ps[..m], 0, &here, 9, false).await; cover("keyed"); }
        // the branches
        let (mut ha, mut hb) = (here.clone(), here.clone());
        let (mut oa, mut ob) = (vec![], vec![]);
        let base: Vec<Cgka> = ps.iter().map(|p| beekem::transact::Fork::fork(&p.c)).collect();
        for _ in 0..la { if let Some(x) = act(&mut ps, 0, "a", &mut ha, true).await { oa.push(x); } else { break; } }
        for _ in 0..lb { if let Some(x) = act(&mut ps, 1, "b", &mut hb, true).await { ob.push(x); } else { break; } }
        // membership: additions apply, a removal beats what is concurrent to it, within a branch the last one wins
        for t in 0..n {
            let last = |o: &Vec<(K, Op)>| o.iter().rev().find_map(|x| match x.0 { K::Add(i) if i == t => Some(true), K::Remove(i) if i == t => Some(false), _ => None });
            let touched = |o: &Vec<(K, Op)>| o.iter().any(|x| x.0 == K::Remove(t));
            let fin = match (last(&oa), last(&ob)) { (None, None) => continue, (Some(x), None) | (None, Some(x)) => x, (Some(x), Some(y)) if x == y => x, _ => { assume(false); touched(&oa) } };
            if fin { here.insert(t); } else { here.remove(&t); }
        }
        // everyone receives both branches, either first
        let mut order: Vec<(u8, Op)> = oa.iter().map(|x| (0, x.1.clone())).chain(ob.iter().map(|x| (1, x.1.clone()))).collect();
        for o in &order { if o.0 == 1 { deliver(&mut ps[0].c, &o.1); } else { deliver(&mut ps[1].c, &o.1); } }
        if !oa.is_empty() && !ob.is_empty() { cover("concurrent"); if ksym::flag("second-first") { order = order.iter().filter(|o| o.0 == 1).chain(order.iter().filter(|o| o.0 == 0)).cloned().collect(); } }
        w.log.extend(order.iter().map(|o| o.1.clone()));
        for k in m..n { for o in &w.log.clone()[..w.log.len() - order.len()] { deliver(&mut ps[k].c, o); } }
        for k in 2..n { for o in &order { deliver(&mut ps[k].c, &o.1); } }
        assume(!here.is_empty());
        // whoever is out now has tried to open every key on the way, whichever branch came first
        if post == 0 { for k in (0..m).filter(|k| !here.contains(k)) {
            let (x, y): (Vec<Op>, Vec<Op>) = (oa.iter().map(|o| o.1.clone()).collect(), ob.iter().map(|o| o.1.clone()).collect());
            for (f, g) in [(&x, &y), (&y, &x)] {
                let all: Vec<Op> = f.iter().chain(g).cloned().collect();
                let got = harvest(&base[k], &ps[k].c.owner_sks, &all);
                beekem::transact::Merge::merge(&mut ps[k].c.owner_sks, got);
            }
        } }
        let by = here.iter().copied().nth(choice("by", here.len() as u64) as usize).unwrap();
        agree(&mut w, &mut ps, by, &here, 1, post == 0).await;
        cover("agreed");
        if here.len() < m { cover("removed"); }
        // then one more change, known to all, and content from any member
        if post == 0 { return; }
        let Some((_, o)) = act(&mut ps, by, "post", &mut here, false).await else { return };
        for k in 0..n { if k != by { deliver(&mut ps[k].c, &o); } }
        w.log.push(o);
        let by = here.iter().copied().nth(choice("by2", here.len() as u64) as usize).unwrap();
        agree(&mut w, &mut ps, by, &here, 2, true).await;
        cover("changed");
    });
}

/// A replica forks; original and fork each see some of two members' operations, then merge (`arg` = operations).
#[no_mangle]
pub extern "C-unwind" fn h_fork(arg: u64) {
    block_on(async {
        let (mut w, mut ps) = setup(4, 3).await;
        let mut here: BTreeSet<usize> = (0..3).collect();
        agree(&mut w, &mut ps[..3], 0, &here, 9, false).await;
        for o in &w.log { deliver(&mut ps[3].c, o); }
        // the forking replica: a member, or one holding the operations without being a member
        let who = if ksym::flag("outsider") { cover("outsider"); 3 } else { 2 };
        let mut f = beekem::transact::Fork::fork(&ps[who].c);
        for i in 0..arg {
            // operations by members 0 and 1, delivered at once to everyone but the forking replica
            let by = choice("by", 2) as usize;
            assume(here.contains(&by));
            let Some((_, o)) = act(&mut ps, by, "op", &mut here, false).await else { return };
            for k in 0..4 { if k != by && k != who { deliver(&mut ps[k].c, &o); } }
            w.log.push(o.clone());
            // causal order: each side has a prefix
            let to = choice("to", 3);
            if i == 0 { if to != 1 { deliver(&mut ps[who].c, &o); } if to != 0 { deliver(&mut f, &o); } }
            else {
                let n = w.log.len();
                for (side, c) in [(0, &mut ps[who].c), (1, &mut f)] { if to != 1 - side { for o in &w.log[..n] { deliver(c, o); } } }
            }
        }
        let own = ksym::flag("own-op");
        if own && who == 2 && here.contains(&who) {
            let (pk, ssk) = key(); let sk = ps[who].sk.clone();
            let r = f.update::<Sendable, _, _>(pk, ssk, &sk, &mut rand::rngs::OsRng).await;
            // fails if all it knows is that it was removed
            if let Ok((_, o)) = r {
                let o = Arc::new(o);
                for k in 0..4 { if k != who { deliver(&mut ps[k].c, &o); } }
                w.log.push(o);
                cover("own");
            }
        } else { assume(!own); }
        let mut c = beekem::transact::Fork::fork(&ps[who].c);
        beekem::transact::Merge::merge(&mut c, f);
        ps[who].c = c;
        for o in &w.log { deliver(&mut ps[who].c, o); }
        assume(!here.is_empty());
        for by in here.clone() { agree(&mut w, &mut ps, by, &here, by as u8, false).await; }
        cover("merged");
    });
}
/// Two members act concurrently, a third who knows both acts and encrypts; a fourth participant receives all of it in any order.
#[no_mangle]
pub extern "C-unwind" fn h_late(arg: u64) {
    block_on(async {
        let (mut w, mut ps) = setup(5, 4).await;
        let mut here: BTreeSet<usize> = (0..4).collect();
        let n0 = w.log.len();
        let (mut ha, mut hb) = (here.clone(), here.clone());
        let mut evs: Vec<Op> = vec![];
        for by in [0, 1] {
            let h = if by == 0 { &mut ha } else { &mut hb };
            // a rotation, an addition or (`arg` 1) a removal of a bystander
            let c = choice("op", if arg == 0 { 2 } else { 3 });
            let sk = ps[by].sk.clone();
            let (id4, pk4, id2) = (ps[4].id, ps[4].pk, ps[2].id);
            let o = match c {
                0 => { let (pk, ssk) = key(); ps[by].c.update::<Sendable, _, _>(pk, ssk, &sk, &mut rand::rngs::OsRng).await.unwrap().1 }
                1 => { h.insert(4); ps[by].c.add::<Sendable, _>(id4, pk4, &sk).await.unwrap().unwrap() }
                _ => { assume(by == 0); h.remove(&2); ps[by].c.remove::<Sendable, _>(id2, &sk).await.unwrap().unwrap() }
            };
            evs.push(Arc::new(o));
        }
        if ha.contains(&4) || hb.contains(&4) { here.insert(4); }
        if !ha.contains(&2) { here.remove(&2); }
        deliver(&mut ps[0].c, &evs[1]); deliver(&mut ps[1].c, &evs[0]);
        // one who knows both encrypts
        let by = choice("by", 2) as usize;
        let sk = ps[by].sk.clone();
        let content = [3u8; 5];
        let r = ps[by].c.new_app_secret_for::<Sendable, _, [u8; 32], _>(&[3; 32], &content, &vec![], &sk, &mut rand::rngs::OsRng).await;
        check(r.is_ok(), "a member can encrypt");
        let Ok((secret, op)) = r else { return };
        let enc: EncryptedContent<Vec<u8>, [u8; 32]> = secret.try_encrypt(&content).unwrap();
        if let Some(o) = op { evs.push(Arc::new(o)); cover("fresh-key"); }
        w.log.extend(evs.clone());
        let known = |got: &[Op], o: &Op| { let p = o.payload.predecessors(); let d: BTreeSet<_> = w.log[..n0].iter().chain(got).map(|x| keyhive_crypto::digest::Digest::hash(x.as_ref())).chain([keyhive_crypto::digest::Digest::hash(&w.init)]).collect(); p.iter().all(|x| d.contains(x)) };
        // the late one: received in any order, retrying what did not fit
        let order = ksym::permute("next", evs.clone());
        let (mut got, mut wait): (Vec<Op>, Vec<Op>) = (vec![], vec![]);
        for o in order {
            wait.push(o);
            loop {
                let before = wait.len();
                let mut still = vec![];
                for o in wait {
                    let fits = known(&got, &o);
                    match ps[3].c.merge_concurrent_operation(o.clone()) {
                        Ok(_) => { check(fits, "an operation waits for what it builds on"); got.push(o); }
                        Err(e) => { check(!fits, "an operation whose predecessors are known is accepted"); check(matches!(e, beekem::error::CgkaError::OutOfOrderOperation), "an operation that waits is told apart"); still.push(o); cover("out-of-order"); }
                    }
                }
                wait = still;
                if wait.len() == before || wait.is_empty() { break; }
            }
        }
        check(wait.is_empty(), "nothing waits once everything arrived");
        for o in &evs { check(matches!(ps[3].c.merge_concurrent_operation(o.clone()), Ok(false)), "an operation merges once"); }
        check(ps[3].c.decryption_key_for(&enc).ok().and_then(|s| enc.try_decrypt(s).ok()).as_deref() == Some(&content[..]), "a member decrypts once everything arrived");
        check(ps[3].c.group_size() as usize == here.len(), "replicas agree on the group's size");
        // and it is as good a member as the others
        for k in [0, 1, 2] { for o in &evs { let _ = ps[k].c.merge_concurrent_operation(o.clone()); } }
        for o in &w.log { let _ = ps[4].c.merge_concurrent_operation(o.clone()); }
        agree(&mut w, &mut ps, 3, &here, 5, false).await;
        cover("late");
    });
}
entries!(h_concurrent, h_fork, h_late);

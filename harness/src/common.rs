pub use dupe::Dupe;
use future_form::Sendable;
use futures::lock::Mutex;
use keyhive_core::{
    access::Access, keyhive::Keyhive, listener::no_listener::NoListener,
    principal::{agent::Agent, document::Document, group::Group, individual::Individual, membered::Membered, identifier::Identifier},
    store::ciphertext::memory::MemoryCiphertextStore,
};
pub use keyhive_crypto::signer::memory::MemorySigner;
use std::sync::Arc;

pub use ksym::{assume, block_on, check, choice, cover, note};
pub type C = [u8; 32];
pub type Store = Arc<Mutex<MemoryCiphertextStore<C, Vec<u8>>>>;
pub type Kh = Keyhive<Sendable, MemorySigner, C, Vec<u8>, Store, NoListener, rand::rngs::OsRng>;
pub type Ag = Agent<Sendable, MemorySigner, C, NoListener>;
pub type Mem = Membered<Sendable, MemorySigner, C, NoListener>;
pub type Grp = Arc<Mutex<Group<Sendable, MemorySigner, C, NoListener>>>;
pub type Doc = Arc<Mutex<Document<Sendable, MemorySigner, C, NoListener>>>;
pub type Ind = Arc<Mutex<Individual>>;

pub fn keyhive() -> Kh { keyhive_with(MemorySigner::generate(&mut rand::rngs::OsRng)) }
pub fn keyhive_with(sk: MemorySigner) -> Kh {
    block_on(async {
        let store = Arc::new(Mutex::new(MemoryCiphertextStore::new()));
        Keyhive::generate(sk, store, NoListener, rand::rngs::OsRng).await.unwrap()
    })
}
pub const LEVELS: [Access; 4] = [Access::Relay, Access::Read, Access::Edit, Access::Admin];
pub fn level(n: &str) -> Access { *ksym::pick(n, &LEVELS) }
/// Symbolic access level (all four values in one path).
pub async fn agent_of(i: &Ind) -> Ag { let id = { let l = i.lock().await; l.id() }; Agent::Individual(id, i.dupe()) }
pub async fn agent_group(g: &Grp) -> Ag { let id = { let l = g.lock().await; l.group_id() }; Agent::Group(id, g.dupe()) }
pub async fn mem_group(g: &Grp) -> Mem { let id = { let l = g.lock().await; l.group_id() }; Membered::Group(id, g.dupe()) }
pub async fn mem_doc(d: &Doc) -> Mem { let id = { let l = d.lock().await; l.doc_id() }; Membered::Document(id, d.dupe()) }
/// `a` learns about `b` from its contact card.
pub async fn meet(a: &Kh, b: &Kh) -> Ag {
    let card = b.contact_card().await.unwrap();
    let i = a.receive_contact_card(&card).await.unwrap();
    agent_of(&i).await
}
pub async fn id_of(k: &Kh) -> Identifier { k.id().into() }

use keyhive_core::{event::{static_event::StaticEvent, Event}, principal::{document::{AddMemberUpdate, RevokeMemberUpdate}, group::{membership_operation::MembershipOperation}}};
use std::collections::{BTreeMap, BTreeSet};
pub type Sev = StaticEvent<C>;
/// An access level whose value the solver picks (one path covers all four).
pub fn sym_access(n: &str) -> Access {
    let b = ksym::byte(n);
    assume(b < 4);
    // SAFETY: Access is a fieldless four-variant enum, one byte wide.
    unsafe { std::mem::transmute::<u8, Access>(b) }
}
pub fn sev_add(u: &AddMemberUpdate<Sendable, MemorySigner, C, NoListener>) -> Vec<Sev> {
    let mut v: Vec<Sev> = vec![Event::<Sendable, MemorySigner, C, NoListener>::Delegated(u.delegation.dupe()).into()];
    v.extend(u.cgka_ops.iter().map(|o| Sev::CgkaOperation(Box::new(o.clone()))));
    v
}
pub fn sev_rev(u: &RevokeMemberUpdate<Sendable, MemorySigner, C, NoListener>) -> Vec<Sev> {
    type E = Event<Sendable, MemorySigner, C, NoListener>;
    let mut v: Vec<Sev> = u.revocations().iter().map(|r| E::Revoked(r.dupe()).into()).collect();
    v.extend(u.redelegations().iter().map(|r| Sev::from(E::Delegated(r.dupe()))));
    v.extend(u.cgka_ops().iter().map(|o| Sev::CgkaOperation(Box::new(o.clone()))));
    v
}
/// Every membership event `k` holds for `g`.
pub async fn mem_events(g: &Mem) -> Vec<Sev> {
    let (dh, rh) = (g.delegation_heads().await, g.revocation_heads().await);
    let ops = MembershipOperation::<Sendable, MemorySigner, C, NoListener>::reverse_topsort(&dh, &rh);
    let mut v = vec![];
    let mut ops = ops;
    while let Some((_, op)) = ops.pop() { v.push(Sev::from(Event::<Sendable, MemorySigner, C, NoListener>::from(op))); }
    v
}
/// What an observer can see of a group's membership, independent of representation.
#[derive(PartialEq, Eq, Clone, Default, Debug)]
pub struct View { pub members: BTreeMap<[u8; 32], BTreeSet<[u8; 64]>>, pub access: BTreeMap<[u8; 32], Access>, pub revoked: BTreeMap<[u8; 32], Access>, pub dheads: BTreeSet<[u8; 64]>, pub rheads: BTreeSet<[u8; 64]> }
pub async fn view(m: &Mem) -> View {
    let mut v = View::default();
    for (k, ds) in m.members().await { v.members.insert(*k.as_bytes(), ds.iter().map(|d| d.signature().to_bytes()).collect()); }
    for (k, (_, a)) in m.transitive_members().await { v.access.insert(*k.as_bytes(), a); }
    let r = match m { Membered::Group(_, g) => { let l = g.lock().await; l.revoked_members() } Membered::Document(_, d) => { let l = d.lock().await; l.revoked_members() } };
    for (k, (_, a)) in r { v.revoked.insert(*k.as_bytes(), a); }
    v.dheads = m.delegation_heads().await.values().map(|d| d.signature().to_bytes()).collect();
    v.rheads = m.revocation_heads().await.values().map(|d| d.signature().to_bytes()).collect();
    v
}
pub async fn the_group(k: &Kh, id: keyhive_core::principal::group::id::GroupId) -> Option<Mem> { let g = k.get_group(id).await; match g { Some(g) => Some(Membered::Group(id, g)), None => None } }
pub async fn agent_in(k: &Kh, id: Identifier) -> Ag { k.get_agent(id).await.unwrap() }
pub async fn new_doc(k: &Kh) -> Doc { k.generate_doc(vec![], nonempty::nonempty![[7u8; 32]]).await.unwrap() }
pub async fn doc_in(k: &Kh, d: &Doc) -> Option<Doc> { let id = { let l = d.lock().await; l.doc_id() }; k.get_document(id).await }
/// Everything `k` holds that is reachable by itself, as it would send it.
pub async fn all_events(k: &Kh) -> Vec<Sev> { let a = k.get_agent(id_of(k).await).await.unwrap(); let m = k.static_events_for_agent(&a).await; m.into_values().collect() }
/// Everything `k` would send to `to`.
pub async fn events_for(k: &Kh, to: &Kh) -> Vec<Sev> { let Some(a) = k.get_agent(id_of(to).await).await else { return vec![] }; let m = k.static_events_for_agent(&a).await; m.into_values().collect() }
pub async fn ingest(k: &Kh, evs: Vec<Sev>) -> usize { k.ingest_unsorted_static_events(evs).await.len() }

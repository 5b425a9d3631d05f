#![allow(dead_code, unused_imports)]
pub use dupe::Dupe;
pub use future_form::Sendable;
pub use futures::{executor::block_on, lock::Mutex};
pub use keyhive_core::{
    access::Access, event::{static_event::StaticEvent, Event}, keyhive::Keyhive, listener::no_listener::NoListener,
    principal::{agent::Agent, document::Document, group::Group, identifier::Identifier, individual::Individual, membered::Membered},
    store::ciphertext::memory::MemoryCiphertextStore,
};
pub use keyhive_crypto::{share_key::{ShareKey, ShareSecretKey}, signed::Signed, signer::memory::MemorySigner, verifiable::Verifiable};
pub use std::{collections::{BTreeMap, BTreeSet}, sync::Arc};
pub type C = [u8; 32];
pub type Store = Arc<Mutex<MemoryCiphertextStore<C, Vec<u8>>>>;
pub type Kh = Keyhive<Sendable, MemorySigner, C, Vec<u8>, Store, NoListener, rand::rngs::OsRng>;
pub type Ag = Agent<Sendable, MemorySigner, C, NoListener>;
pub type Mem = Membered<Sendable, MemorySigner, C, NoListener>;
pub type Grp = Arc<Mutex<Group<Sendable, MemorySigner, C, NoListener>>>;
pub type Doc = Arc<Mutex<Document<Sendable, MemorySigner, C, NoListener>>>;
pub type Sev = StaticEvent<C>;
pub fn signer() -> MemorySigner { MemorySigner::generate(&mut rand::rngs::OsRng) }
pub async fn keyhive() -> Kh { keyhive_with(signer()).await }
pub async fn keyhive_with(s: MemorySigner) -> Kh { Keyhive::generate(s, Arc::new(Mutex::new(MemoryCiphertextStore::new())), NoListener, rand::rngs::OsRng).await.unwrap() }
pub fn id_of(k: &Kh) -> Identifier { k.id().into() }
pub async fn meet(a: &Kh, b: &Kh) -> Ag { let c = b.contact_card().await.unwrap(); let i = a.receive_contact_card(&c).await.unwrap(); let id = { let l = i.lock().await; l.id() }; Agent::Individual(id, i) }
pub async fn agent_group(g: &Grp) -> Ag { let id = { let l = g.lock().await; l.group_id() }; Agent::Group(id, g.dupe()) }
pub async fn mem_group(g: &Grp) -> Mem { let id = { let l = g.lock().await; l.group_id() }; Membered::Group(id, g.dupe()) }
pub async fn mem_doc(d: &Doc) -> Mem { let id = { let l = d.lock().await; l.doc_id() }; Membered::Document(id, d.dupe()) }
pub async fn new_doc(k: &Kh) -> Doc { k.generate_doc(vec![], nonempty::nonempty![[7u8; 32]]).await.unwrap() }
pub async fn doc_in(k: &Kh, d: &Doc) -> Option<Doc> { let id = { let l = d.lock().await; l.doc_id() }; k.get_document(id).await }
pub async fn group_in(k: &Kh, g: &Grp) -> Option<Mem> { let id = { let l = g.lock().await; l.group_id() }; k.get_group(id).await.map(|g| Membered::Group(id, g)) }
pub async fn events_for(k: &Kh, to: &Kh) -> Vec<Sev> { let Some(a) = k.get_agent(id_of(to)).await else { return vec![] }; k.static_events_for_agent(&a).await.into_values().collect() }
pub async fn all_events(k: &Kh) -> Vec<Sev> { events_for(k, k).await }
pub async fn send(a: &Kh, b: &Kh) -> usize { let v = events_for(a, b).await; b.ingest_unsorted_static_events(v).await.len() }
pub async fn access(m: &Mem, id: Identifier) -> Option<Access> { m.transitive_members().await.get(&id).map(|x| x.1) }
pub async fn enc(k: &Kh, d: &Doc, c: u8, text: &[u8]) -> keyhive_core::principal::document::EncryptedContentWithUpdate<C> { k.try_encrypt_content(d.dupe(), &[c; 32], &vec![], text).await.unwrap() }
#[macro_export]
macro_rules! demand { ($c:expr, $($m:tt)*) => { if !$c { println!("BROKEN: {}", format!($($m)*)); std::process::exit(1); } } }

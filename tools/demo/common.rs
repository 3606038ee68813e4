//! Small helpers for demonstrations: real Keyhive replicas driven through the public API.
#![allow(dead_code, unused_imports)]
pub use dupe::Dupe;
pub use future_form::Local;
pub use futures::lock::Mutex;
pub use keyhive_core::{
    access::Access,
    event::{static_event::StaticEvent, Event},
    keyhive::Keyhive,
    listener::log::Log,
    principal::{
        agent::Agent, document::id::DocumentId, document::Document, group::id::GroupId, group::Group,
        identifier::Identifier, individual::id::IndividualId, individual::Individual, membered::Membered, peer::Peer,
        public::Public,
    },
    store::ciphertext::memory::MemoryCiphertextStore,
};
pub use keyhive_crypto::{digest::Digest, share_key::{ShareKey, ShareSecretKey}, signer::memory::MemorySigner};
pub use nonempty::nonempty;
pub use rand::{rngs::StdRng, SeedableRng};
pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
pub use std::sync::Arc;

pub type T = [u8; 32];
pub type L = Log<Local, MemorySigner>;
pub type Store = Arc<Mutex<MemoryCiphertextStore<T, Vec<u8>>>>;
pub type KH = Keyhive<Local, MemorySigner, T, Vec<u8>, Store, L, StdRng>;
pub type Ag = Agent<Local, MemorySigner, T, L>;
pub type Mem = Membered<Local, MemorySigner, T, L>;
pub type Pr = Peer<Local, MemorySigner, T, L>;
pub type Grp = Group<Local, MemorySigner, T, L>;
pub type Doc = Document<Local, MemorySigner, T, L>;
pub type Ev = Event<Local, MemorySigner, T, L>;
pub type SEv = StaticEvent<T>;

pub struct P { pub kh: KH, pub log: L, pub store: Store, pub signer: MemorySigner }

pub async fn peer(seed: u64) -> P {
    let mut rng = StdRng::seed_from_u64(seed);
    let signer = MemorySigner::generate(&mut rng);
    let store: Store = Arc::new(Mutex::new(MemoryCiphertextStore::new()));
    let log = L::new();
    let kh = KH::generate(signer.clone(), store.clone(), log.clone(), rng).await.expect("generate");
    P { kh, log, store, signer }
}
/// Everybody receives everybody's contact card.
pub async fn introduce(ps: &[&P]) {
    for a in ps { for b in ps { if !std::ptr::eq(*a, *b) {
        let c = b.kh.get_existing_contact_card().await;
        a.kh.receive_contact_card(&c).await.expect("card");
    } } }
}
pub async fn agent(p: &P, id: impl Into<Identifier>) -> Ag { p.kh.get_agent(id.into()).await.expect("agent known") }
pub async fn me(p: &P, q: &P) -> Ag { agent(p, Identifier::from(q.kh.id())).await }
pub async fn peer_of(p: &P, id: impl Into<Identifier>) -> Pr {
    match agent(p, id).await {
        Agent::Individual(i, x) => Peer::Individual(i, x),
        Agent::Group(i, x) => Peer::Group(i, x),
        Agent::Document(i, x) => Peer::Document(i, x),
        Agent::Active(..) => panic!("self"),
    }
}
pub async fn group(p: &P, co: Vec<Pr>) -> GroupId { let g = p.kh.generate_group(co).await.expect("group"); let i = g.lock().await.group_id(); i }
pub async fn doc(p: &P, co: Vec<Pr>, n: u8) -> DocumentId { let d = p.kh.generate_doc(co, nonempty![[n; 32]]).await.expect("doc"); let i = d.lock().await.doc_id(); i }
pub async fn mg(p: &P, g: GroupId) -> Mem { Membered::Group(g, p.kh.get_group(g).await.expect("group known")) }
pub async fn md(p: &P, d: DocumentId) -> Mem { Membered::Document(d, p.kh.get_document(d).await.expect("doc known")) }
/// q pulls from p everything p has for q.
pub async fn pull(q: &P, p: &P) -> usize {
    let a = me(p, q).await;
    let evs: Vec<SEv> = p.kh.static_events_for_agent(&a).await.into_values().collect();
    q.kh.ingest_unsorted_static_events(evs).await.len()
}
/// What p told its listener so far.
pub async fn said(p: &P) -> Vec<SEv> { p.log.0.lock().await.iter().cloned().map(SEv::from).collect() }
pub async fn give(q: &P, evs: Vec<SEv>) -> usize { q.kh.ingest_unsorted_static_events(evs).await.len() }
pub async fn members(p: &P, m: &Mem) -> BTreeMap<Identifier, Access> { let _ = p; m.transitive_members().await.into_iter().map(|(k, (_, a))| (k, a)).collect() }
pub fn check(ok: bool, what: &str) { if !ok { eprintln!("violated: {what}"); std::process::exit(1); } }

//! Multi-peer world around the real `Keyhive`: naming of identities/events and
//! projection of each peer's observable state (public API only).
use dupe::Dupe;
use future_form::Local;
use futures::lock::Mutex;
use keyhive_core::{
    access::Access,
    event::{static_event::StaticEvent, Event},
    keyhive::Keyhive,
    listener::log::Log,
    principal::{
        agent::Agent, document::id::DocumentId, document::Document, group::id::GroupId,
        group::Group, identifier::Identifier, individual::id::IndividualId,
        individual::Individual, membered::Membered, peer::Peer, public::Public,
    },
    store::ciphertext::memory::MemoryCiphertextStore,
    principal::individual::op::KeyOp,
};
use beekem::encrypted::EncryptedContent;
use keyhive_core::contact_card::ContactCard;
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use keyhive_crypto::{digest::Digest, signer::memory::MemorySigner};
use rand::{rngs::StdRng, SeedableRng};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub type T = [u8; 32];
pub type L = Log<Local, MemorySigner>;
pub type Store = Arc<Mutex<MemoryCiphertextStore<T, Vec<u8>>>>;
pub type KH = Keyhive<Local, MemorySigner, T, Vec<u8>, Store, L, StdRng>;
pub type Ag = Agent<Local, MemorySigner, T, L>;
pub type Mem = Membered<Local, MemorySigner, T, L>;
pub type Pr = Peer<Local, MemorySigner, T, L>;
pub type Grp = Group<Local, MemorySigner, T, L>;
pub type Doc = Document<Local, MemorySigner, T, L>;
pub type Ev = Event<Local, MemorySigner, T, L>;
pub type SEv = StaticEvent<T>;

pub fn acc(n: u64) -> Access {
    match n {
        0 => Access::Relay,
        1 => Access::Read,
        2 => Access::Edit,
        _ => Access::Admin,
    }
}
pub fn acc_n(a: Access) -> u64 {
    match a {
        Access::Relay => 0,
        Access::Read => 1,
        Access::Edit => 2,
        Access::Admin => 3,
    }
}

pub struct PeerS {
    pub name: String,
    pub kh: KH,
    pub signer: MemorySigner,
    pub log: L,
    pub store: Store,
    pub drained: usize,
}

#[derive(Clone)]
pub struct EvRec {
    pub name: String,
    pub ev: SEv,
    pub desc: Value,
    /// digest used by the code for ordering (membership ops)
    pub digest: [u8; 32],
}

pub struct World {
    pub peers: BTreeMap<String, PeerS>,
    pub names: BTreeMap<[u8; 32], String>,
    pub ids: BTreeMap<String, Identifier>,
    pub kind: BTreeMap<String, &'static str>,
    pub evs: Vec<EvRec>,
    pub ev_by_key: HashMap<[u8; 32], usize>, // hash of StaticEvent
    pub op_by_digest: HashMap<[u8; 32], String>, // digest of inner signed op
    pub sk_names: HashMap<Vec<u8>, String>,
    pub seed: u64, pub nrestore: u64,
    pub ngroup: usize,
    pub ndoc: usize,
    pub cts: Vec<Option<Ct>>,
    /// identity behind each peer name (forks and devices share one)
    pub who: BTreeMap<String, String>,
}

/// A piece of encrypted content.
pub struct Ct {
    pub name: String,
    pub doc: String,
    pub by: String,
    pub enc: Arc<EncryptedContent<Vec<u8>, T>>,
    pub key: [u8; 32],
    pub plain: Vec<u8>,
    pub raw: Vec<u8>,
    pub preds: Vec<String>,
    pub upd: String,
    pub kname: String,
}

pub fn h<V: serde::Serialize>(v: &V) -> [u8; 32] {
    *Digest::<V>::hash(v).raw.as_bytes()
}
pub fn dbytes<X: serde::Serialize>(d: &Digest<X>) -> [u8; 32] {
    *d.raw.as_bytes()
}
pub fn id_bytes(i: &Identifier) -> [u8; 32] {
    i.to_bytes()
}

impl World {
    pub async fn new(peer_names: &[String], seed: u64) -> World {
        let mut w = World {
            peers: BTreeMap::new(),
            names: BTreeMap::new(),
            ids: BTreeMap::new(),
            kind: BTreeMap::new(),
            evs: vec![],
            ev_by_key: HashMap::new(),
            op_by_digest: HashMap::new(),
            sk_names: HashMap::new(),
            seed, nrestore: 0,
            ngroup: 0,
            ndoc: 0,
            cts: vec![],
            who: BTreeMap::new(),
        };
        w.name_id(Public.id(), "pub", "ind");
        {
            let evs: Vec<SEv> = Public.individual().prekey_ops().values().map(|o| Ev::from(o.as_ref().dupe()).into()).collect();
            for e in &evs { w.reg(e); }
        }
        for (i, n) in peer_names.iter().enumerate() {
            let mut rng = StdRng::seed_from_u64(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
            let sk = MemorySigner::generate(&mut rng);
            let p = w.make_peer(n, sk, rng).await;
            w.name_id(p.kh.id().into(), n, "ind");
            w.who.insert(n.clone(), n.clone());
            w.peers.insert(n.clone(), p);
            w.drain(n).await;
            w.reg_prekeys(n).await;
        }
        w
    }

    /// Register the prekey operations a peer starts with.
    pub async fn reg_prekeys(&mut self, n: &str) {
        let ops: Vec<KeyOp> = {
            let i = self.peers[n].kh.individual().await;
            let g = i.lock().await;
            g.prekey_ops().values().map(|o| o.as_ref().dupe()).collect()
        };
        let mut evs: Vec<SEv> = ops.iter().map(|o| Ev::from(o.dupe()).into()).collect();
        evs.sort_by_key(h);
        for e in &evs { self.reg(e); }
    }

    pub fn kh(&self, p: &str) -> KH { self.peers[p].kh.clone() }

    pub async fn make_peer(&self, n: &str, sk: MemorySigner, rng: StdRng) -> PeerS {
        let store: Store = Arc::new(Mutex::new(MemoryCiphertextStore::new()));
        let log = L::new();
        let kh = KH::generate(sk.clone(), store.clone(), log.clone(), rng)
            .await
            .expect("generate");
        PeerS { name: n.to_string(), kh, signer: sk, log, store, drained: 0 }
    }

    pub fn name_id(&mut self, id: Identifier, n: &str, kind: &'static str) {
        self.names.insert(id_bytes(&id), n.to_string());
        self.ids.insert(n.to_string(), id);
        self.kind.insert(n.to_string(), kind);
    }

    pub fn n(&self, id: &Identifier) -> String {
        self.names
            .get(&id_bytes(id))
            .cloned()
            .unwrap_or_else(|| "unknown".to_string())
    }

    fn opname(&self, d: [u8; 32]) -> String {
        self.op_by_digest.get(&d).cloned().unwrap_or_else(|| "unknown".into())
    }

    pub fn sk_name(&mut self, k: &keyhive_crypto::share_key::ShareKey) -> String {
        let b = k.to_bytes().to_vec();
        let n = self.sk_names.len() + 1;
        self.sk_names.entry(b).or_insert_with(|| format!("k{n}")).clone()
    }

    /// Register an event (idempotent); returns its name.
    pub fn reg(&mut self, ev: &SEv) -> String {
        let key = h(ev);
        if let Some(i) = self.ev_by_key.get(&key) {
            return self.evs[*i].name.clone();
        }
        let name = format!("e{}", self.evs.len() + 1);
        let (desc, digest) = match ev {
            StaticEvent::Delegated(d) => {
                let p = d.payload();
                (
                    json!({"k":"dlg","issuer":self.n(&(*d.issuer()).into()),
                    "delegate":self.n(&p.delegate),"can":acc_n(p.can),
                    "proof":p.proof.map(|x| self.opname(dbytes(&x))).unwrap_or_else(|| "none".into()),
                    "after":p.after_revocations.iter().map(|x| self.opname(dbytes(x))).collect::<Vec<_>>(),
                    "content":p.after_content.keys().map(|k| self.n(&(*k).into())).collect::<Vec<_>>(),
                    "ok":genuine(d)}),
                    h(d),
                )
            }
            StaticEvent::Revoked(r) => {
                let p = r.payload();
                (
                    json!({"k":"rev","issuer":self.n(&(*r.issuer()).into()),
                    "revoke":self.opname(dbytes(&p.revoke)),
                    "proof":p.proof.map(|x| self.opname(dbytes(&x))).unwrap_or_else(|| "none".into()),
                    "ok":genuine(r)}),
                    h(r),
                )
            }
            StaticEvent::CgkaOperation(o) => {
                use beekem::operation::CgkaOperation as C;
                let docn = {
                    let d: DocumentId = (*o.payload().doc_id()).into();
                    self.n(&d.into())
                };
                let preds: Vec<String> = {
                    let mut v: Vec<String> = o
                        .payload()
                        .predecessors()
                        .iter()
                        .map(|x| self.opname(dbytes(x)))
                        .collect();
                    v.sort();
                    v
                };
                let (kk, who) = match o.payload() {
                    C::Add { added_id, .. } => {
                        let i: IndividualId = (*added_id).into();
                        ("cadd", i)
                    }
                    C::Remove { id, .. } => {
                        let i: IndividualId = (*id).into();
                        ("crem", i)
                    }
                    C::Update { id, .. } => {
                        let i: IndividualId = (*id).into();
                        ("cupd", i)
                    }
                };
                let key = match o.payload() {
                    C::Add { pk, .. } => self.sk_name(pk),
                    _ => "none".into(),
                };
                (
                    json!({"k":kk,"issuer":self.n(&(*o.issuer()).into()),"doc":docn,
                    "who":self.n(&who.into()),"preds":preds,"key":key,"ok":genuine(o)}),
                    h(o.as_ref()),
                )
            }
            StaticEvent::PrekeysExpanded(o) => {
                let kn = self.sk_name(&o.payload().share_key);
                (
                    json!({"k":"pkadd","issuer":self.n(&(*o.issuer()).into()),"new":kn,"old":"none",
                       "ok":genuine(o)}),
                    h(o.as_ref()),
                )
            }
            StaticEvent::PrekeyRotated(o) => {
                let kn = self.sk_name(&o.payload().new);
                let ko = self.sk_name(&o.payload().old);
                (
                    json!({"k":"pkrot","issuer":self.n(&(*o.issuer()).into()),"new":kn,"old":ko,
                       "ok":genuine(o)}),
                    h(o.as_ref()),
                )
            }
        };
        self.op_by_digest.insert(digest, name.clone());
        self.ev_by_key.insert(key, self.evs.len());
        self.evs.push(EvRec { name: name.clone(), ev: ev.clone(), desc, digest });
        name
    }

    /// Register several events, those others build on first.
    pub fn reg_all(&mut self, evs: &[SEv]) -> Vec<String> {
        let mut todo: Vec<usize> = (0..evs.len()).collect();
        loop {
            let later: Vec<usize> = todo.iter().copied().filter(|i| {
                let deps: Vec<[u8; 32]> = match &evs[*i] {
                    StaticEvent::Delegated(d) => d.payload.proof.iter().map(dbytes).chain(d.payload.after_revocations.iter().map(dbytes)).collect(),
                    StaticEvent::Revoked(r) => r.payload.proof.iter().map(dbytes).chain(std::iter::once(dbytes(&r.payload.revoke))).collect(),
                    StaticEvent::CgkaOperation(o) => o.payload.predecessors().iter().map(dbytes).collect(),
                    _ => vec![],
                };
                if deps.iter().all(|d| self.op_by_digest.contains_key(d)) { self.reg(&evs[*i]); false } else { true }
            }).collect();
            if later.is_empty() || later.len() == todo.len() { break }
            todo = later;
        }
        evs.iter().map(|e| self.reg(e)).collect()
    }

    pub fn ev(&self, name: &str) -> Option<&EvRec> {
        self.evs.iter().find(|e| e.name == name)
    }

    /// Drain the listener of peer `p`, registering every emitted event.
    pub async fn drain(&mut self, p: &str) -> Vec<String> {
        let evs: Vec<Ev> = {
            let log = self.peers[p].log.clone();
            let mut l = log.0.lock().await;
            if p.ends_with('+') {
                // a fork's log is replayed when it is merged, so it stays in place
                let n = self.peers[p].drained;
                let v: Vec<Ev> = l.iter().skip(n).cloned().collect();
                let len = l.len();
                drop(l);
                self.peers.get_mut(p).unwrap().drained = len;
                v
            } else {
                std::mem::take(&mut *l)
            }
        };
        let evs: Vec<SEv> = evs.into_iter().map(|e| e.into()).collect();
        self.reg_all(&evs)
    }

    pub async fn agent(&self, p: &str, m: &str) -> Option<Ag> {
        let id = *self.ids.get(m)?;
        self.peers[p].kh.get_agent(id).await
    }

    pub async fn membered(&self, p: &str, m: &str) -> Option<Mem> {
        let id = *self.ids.get(m)?;
        let kh = &self.peers[p].kh;
        if let Some(g) = kh.get_group(GroupId::new(id)).await {
            return Some(Membered::Group(GroupId::new(id), g));
        }
        let did = DocumentId::from(id);
        kh.get_document(did).await.map(|d| Membered::Document(did, d))
    }

    pub async fn doc(&self, p: &str, m: &str) -> Option<Arc<Mutex<Doc>>> {
        let id = *self.ids.get(m)?;
        self.peers[p].kh.get_document(DocumentId::from(id)).await
    }

    /// Agent handle usable as "the remote peer q" on p.
    pub async fn as_agent(&self, p: &str, q: &str) -> Ag {
        if let Some(a) = self.agent(p, q).await {
            return a;
        }
        let ind: Individual = {
            let i = self.peers[q].kh.individual().await;
            let g = i.lock().await;
            g.clone()
        };
        Agent::Individual(ind.id(), Arc::new(Mutex::new(ind)))
    }

    fn sigmap(&self) -> HashMap<[u8; 64], String> {
        let mut m = HashMap::new();
        for e in &self.evs {
            let sig = match &e.ev {
                StaticEvent::Delegated(d) => d.signature().to_bytes(),
                StaticEvent::Revoked(d) => d.signature().to_bytes(),
                StaticEvent::CgkaOperation(d) => d.signature().to_bytes(),
                StaticEvent::PrekeysExpanded(d) => d.signature().to_bytes(),
                StaticEvent::PrekeyRotated(d) => d.signature().to_bytes(),
            };
            m.entry(sig).or_insert_with(|| e.name.clone());
        }
        m
    }

    /// Observable state of a peer's Keyhive.
    pub async fn view_kh(&mut self, kh: &KH) -> Value {
        let sm = self.sigmap();
        let nm = |s: [u8; 64]| sm.get(&s).cloned().unwrap_or_else(|| "unknown".into());
        // ops held
        let mut held: BTreeSet<String> = BTreeSet::new();
        for e in &self.evs {
            match &e.ev {
                StaticEvent::Delegated(d) => {
                    let dg: Digest<_> = Digest::hash(d);
                    if kh.get_membership_operation(&dg.coerce()).await.is_some() {
                        held.insert(e.name.clone());
                    }
                }
                StaticEvent::Revoked(d) => {
                    let dg: Digest<_> = Digest::hash(d);
                    if kh.get_membership_operation(&dg.coerce()).await.is_some() {
                        held.insert(e.name.clone());
                    }
                }
                _ => {}
            }
        }
        let mut mem = Map::new();
        let mut trans = Map::new();
        let mut dheads = Map::new();
        let mut rheads = Map::new();
        let mut caps = Map::new();
        let mut revd = Map::new();
        let mut kinds = Map::new();
        let mut cg = Map::new();
        let mut groups: Vec<Mem> = vec![];
        for (id, g) in kh.groups().lock().await.iter() {
            groups.push(Membered::Group(*id, g.dupe()));
        }
        let mut docs = vec![];
        for (id, d) in kh.documents().lock().await.iter() {
            groups.push(Membered::Document(*id, d.dupe()));
            docs.push((*id, d.dupe()));
        }
        for m in &groups {
            let (id, kind) = match m {
                Membered::Group(id, _) => (Identifier::from(*id), "grp"),
                Membered::Document(id, _) => (Identifier::from(*id), "doc"),
            };
            let mn = self.n(&id);
            kinds.insert(mn.clone(), json!(kind));
            let mut o: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            let mut c: BTreeMap<String, u64> = BTreeMap::new();
            for (k, ds) in m.members().await.iter() {
                let e = o.entry(self.n(k)).or_default();
                for d in ds.iter() {
                    e.insert(nm(d.signature().to_bytes()));
                }
                if let Some(d) = m.get_capability(k).await {
                    c.insert(self.n(k), acc_n(d.payload().can()));
                }
            }
            mem.insert(mn.clone(), json!(o));
            caps.insert(mn.clone(), json!(c));
            let mut t: BTreeMap<String, u64> = BTreeMap::new();
            for (k, (_, a)) in m.transitive_members().await.iter() {
                t.insert(self.n(k), acc_n(*a));
            }
            trans.insert(mn.clone(), json!(t));
            let dh: BTreeSet<String> = m
                .delegation_heads()
                .await
                .values()
                .map(|d| nm(d.signature().to_bytes()))
                .collect();
            dheads.insert(mn.clone(), json!(dh));
            let rh: BTreeSet<String> = m
                .revocation_heads()
                .await
                .values()
                .map(|d| nm(d.signature().to_bytes()))
                .collect();
            rheads.insert(mn.clone(), json!(rh));
            let rm = match m {
                Membered::Group(_, g) => g.lock().await.revoked_members(),
                Membered::Document(_, d) => d.lock().await.revoked_members(),
            };
            let r: BTreeMap<String, u64> =
                rm.iter().map(|(k, (_, a))| (self.n(k), acc_n(*a))).collect();
            revd.insert(mn.clone(), json!(r));
        }
        for (id, d) in &docs {
            let n = self.n(&(*id).into());
            let mut d = d.lock().await;
            let ops: Vec<String> = match d.cgka_ops() {
                Ok(eps) => {
                    let mut v: Vec<String> = vec![];
                    for ep in eps.iter() {
                        for o in ep.iter() {
                            v.push(nm(o.signature().to_bytes()));
                        }
                    }
                    v.sort();
                    v
                }
                Err(_) => vec![],
            };
            for o in &ops {
                held.insert(o.clone());
            }
            let (pcs, size, members) = match d.cgka() {
                Err(_) => ("uninit".to_string(), -1, vec![]),
                Ok(c) => {
                    // the key content would be encrypted under; asking a copy leaves no traces
                    let mut cc = c.clone();
                    let pcs = if !cc.has_pcs_key() {
                        "nopcs".to_string()
                    } else {
                        match cc.try_pcs_key_hash() {
                            Ok(x) => hex(&dbytes(&x)),
                            Err(_) => "nokey".into(),
                        }
                    };
                    let (size, m) = self.cgka_members(c).await;
                    (pcs, size, m)
                }
            };
            cg.insert(n, json!({"ops":ops,"size":size,"pcs":pcs,"members":members}));
        }
        // prekeys
        let mut pk = Map::new();
        let mut pkops = Map::new();
        let mut picks = Map::new();
        let ids: Vec<(String, Identifier)> =
            self.ids.iter().map(|(a, b)| (a.clone(), *b)).collect();
        for (n, id) in ids {
            if self.kind[&n] != "ind" {
                continue;
            }
            if let Some(i) = kh.get_individual(IndividualId::from(id)).await {
                let i = i.lock().await;
                let ops: BTreeSet<String> = i
                    .prekey_ops()
                    .values()
                    .map(|o| nm(o.signature().to_bytes()))
                    .collect();
                for o in &ops {
                    if o != "unknown" {
                        held.insert(o.clone());
                    }
                }
                pkops.insert(n.clone(), json!(ops));
                let set: Option<BTreeSet<ShareKey>> = ind_prekeys(&i);
                let mut picked = BTreeSet::new();
                for j in 0..6u8 {
                    let sk = ed25519_dalek::SigningKey::from_bytes(&[j.wrapping_mul(7).wrapping_add(3); 32]);
                    let did = DocumentId::from(Identifier::from(sk.verifying_key()));
                    picked.insert(*i.pick_prekey(did));
                }
                drop(i);
                let picked: BTreeSet<String> = picked.iter().map(|k| self.sk_name(k)).collect();
                let set: Option<BTreeSet<String>> = set.map(|s| s.iter().map(|k| self.sk_name(k)).collect());
                pk.insert(n.clone(), json!(set.clone().unwrap_or(picked.clone())));
                picks.insert(n, json!(picked));
            }
        }
        let sks: BTreeSet<String> = match kh.export_prekey_secrets().await {
            Ok(b) => match bincode::deserialize::<BTreeMap<ShareKey, ShareSecretKey>>(&b) {
                Ok(m) => m.iter().filter(|(k, s)| s.share_key() == **k).map(|(k, _)| self.sk_name(k)).collect(),
                Err(_) => BTreeSet::new(),
            },
            Err(_) => BTreeSet::new(),
        };
        let pend: BTreeSet<String> = kh
            .pending_event_hashes()
            .await
            .iter()
            .map(|d| {
                self.ev_by_key
                    .get(&dbytes(d))
                    .map(|i| self.evs[*i].name.clone())
                    .unwrap_or_else(|| "unknown".into())
            })
            .collect();
        let reach: BTreeMap<String, u64> = kh
            .reachable_docs()
            .await
            .iter()
            .map(|(k, a)| (self.n(&(*k).into()), acc_n(a.can())))
            .collect();
        json!({"held":held,"kinds":kinds,"mem":mem,"caps":caps,"trans":trans,"dheads":dheads,"rheads":rheads,
          "revd":revd,"cgka":cg,"prekeys":pk,"picks":picks,"sks":sks,"pkops":pkops,"pend":pend,"reach":reach})
    }

    /// Members of an encryption group, once all its operations are taken into account.
    pub async fn cgka_members(&self, c: &keyhive_core::cgka::Cgka) -> (i64, Vec<String>) {
        let mut c = c.clone();
        let signer = MemorySigner::generate(&mut StdRng::seed_from_u64(7));
        let pk = ShareSecretKey::force_from_bytes([9; 32]).share_key();
        let dummy = ed25519_dalek::SigningKey::from_bytes(&[77; 32]).verifying_key();
        match c.add::<Local, _>(IndividualId::from(Identifier::from(dummy)), pk, &signer).await {
            Ok(Some(_)) => {}
            _ => return (-2, vec![]),
        }
        let size = c.group_size() as i64 - 1;
        let mut m = vec![];
        for (n, id) in &self.ids {
            if self.kind[n] == "grp" { continue; }
            let mid = IndividualId::from(*id);
            match c.clone().add::<Local, _>(mid, pk, &signer).await {
                Ok(None) => m.push(n.clone()),
                Ok(Some(_)) => {}
                Err(_) => return (-2, vec![]),
            }
        }
        (size, m)
    }

    pub async fn view(&mut self, p: &str) -> Value {
        let kh = self.peers[p].kh.clone();
        self.view_kh(&kh).await
    }

    /// Digest rank of every registered event (order used for deterministic tie-breaks).
    pub fn table(&self) -> Value {
        let mut order: Vec<usize> = (0..self.evs.len()).collect();
        order.sort_by_key(|i| self.evs[*i].digest);
        let mut rank = vec![0; self.evs.len()];
        for (r, i) in order.iter().enumerate() {
            rank[*i] = r + 1;
        }
        let mut m = Map::new();
        for (i, e) in self.evs.iter().enumerate() {
            let mut d = e.desc.clone();
            d["rank"] = json!(rank[i]);
            m.insert(e.name.clone(), d);
        }
        Value::Object(m)
    }
}

/// Whether the signature is its claimed author's signature of exactly this payload
/// (checked here, not by asking the code under test).
pub fn genuine<X: serde::Serialize + std::fmt::Debug>(s: &keyhive_crypto::signed::Signed<X>) -> bool {
    use ed25519_dalek::Verifier;
    match bincode::serialize(&s.payload) {
        Ok(b) => s.issuer.verify(&b, &s.signature).is_ok(),
        Err(_) => false,
    }
}

/// An event the way another peer gets it.
pub fn wire(e: &SEv) -> SEv {
    bincode::deserialize(&bincode::serialize(e).expect("event serializes")).expect("event deserializes")
}

/// What arrives when a contact card is handed over as text, or as bytes.
pub fn wire_card(c: &ContactCard) -> ContactCard {
    let t: ContactCard = serde_json::from_str(&serde_json::to_string(c).expect("card serializes")).expect("card deserializes");
    bincode::deserialize(&bincode::serialize(&t).expect("card serializes")).expect("card deserializes")
}

pub fn hex(b: &[u8]) -> String {
    b.iter().take(6).map(|x| format!("{x:02x}")).collect()
}

/// Current prekeys of an individual.
pub fn ind_prekeys(i: &Individual) -> Option<BTreeSet<ShareKey>> {
    bincode::serialize(i).ok().and_then(|b| bincode::deserialize::<IndMirror>(&b).ok()).map(|m| m.prekeys)
}

#[derive(serde::Deserialize)]
struct IndMirror {
    #[allow(dead_code)]
    id: IndividualId,
    prekeys: BTreeSet<ShareKey>,
}

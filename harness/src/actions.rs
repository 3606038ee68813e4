//! Steps beyond plain membership calls: content, tampering, forging, storage, queries.
use crate::world::*;
use beekem::{encrypted::EncryptedContent, operation::CgkaOperation};
use dupe::Dupe;
use futures::lock::Mutex;
use keyhive_core::{
    archive::Archive,
    contact_card::ContactCard,
    crypto::envelope::Envelope,
    principal::{
        document::id::DocumentId,
        group::{delegation::StaticDelegation, revocation::StaticRevocation},
        identifier::Identifier,
        individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp, KeyOp},
    },
    store::ciphertext::{memory::MemoryCiphertextStore, CausalDecryptionState},
};
use keyhive_crypto::{
    digest::Digest,
    share_key::{ShareKey, ShareSecretKey},
    signed::Signed,
    signer::memory::MemorySigner,
    siv::Siv,
    symmetric_key::SymmetricKey,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Map, Value};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::Arc,
};

type Res = Result<Value, String>;

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or("") }
pub fn strs(v: &Value, k: &str) -> Vec<String> {
    v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
}
pub fn err<E: std::fmt::Debug>(e: E) -> String {
    let t = format!("{e:?}");
    t.chars().take_while(|c| c.is_alphanumeric() || *c == '(').collect()
}

impl World {
    pub fn signer_of(&self, x: &str) -> Option<MemorySigner> {
        self.peers.get(x).map(|p| p.signer.clone())
    }

    /// Current prekeys of a peer.
    pub async fn prekeys(&self, p: &str) -> Vec<ShareKey> {
        let i = self.kh(p).individual().await;
        let g = i.lock().await;
        ind_prekeys(&g).unwrap_or_default().into_iter().collect()
    }

    // ---------------------------------------------------------------- content

    pub fn cts_table(&self) -> Value {
        let mut m = Map::new();
        for c in self.cts.iter().flatten() {
            m.insert(c.name.clone(), json!({"doc":c.doc,"by":c.by,"preds":c.preds,"upd":c.upd,"key":c.kname}));
        }
        Value::Object(m)
    }

    pub async fn do_enc(&mut self, p: &str, st: &Value, o: &mut Value, created: &mut Vec<String>) -> Res {
        let idx = self.cts.len();
        self.cts.push(None);
        let on = s(st, "on").to_string();
        let Some(d) = self.doc(p, &on).await else { return Err("Unknown".into()) };
        let kh = self.kh(p);
        let mut ancestors: HashMap<T, SymmetricKey> = HashMap::new();
        let mut preds = vec![];
        let mut refs: Vec<T> = vec![];
        let want: Vec<usize> = st["preds"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as usize).collect()).unwrap_or_default();
        for i in want {
            if i == 0 || i > idx { continue; }
            let Some(c) = &self.cts[i - 1] else { continue };
            if c.doc != on { continue; }
            if let Ok((_, k)) = kh.try_decrypt_content_keyed(d.dupe(), &c.enc).await {
                ancestors.insert(c.enc.content_ref, k);
                refs.push(c.enc.content_ref);
                preds.push(c.name.clone());
            }
        }
        self.cts.pop();
        let (name, cref, plain, raw) = self.content(&on, p, ancestors);
        match kh.try_encrypt_content_keyed(d.dupe(), &cref, &refs, &raw).await {
            Ok((r, key)) => {
                if let Some(u) = r.update_op() { created.push(self.reg(&SEv::CgkaOperation(Box::new(u.clone())))); }
                let enc = r.encrypted_content().clone();
                let kb: [u8; 32] = key.as_slice().try_into().expect("key");
                o["ct"] = json!(name);
                o["pcs"] = json!(hex(&dbytes(&enc.pcs_key_hash)));
                self.note_ct(on, name.clone(), p, enc, kb, plain, raw, preds);
                Ok(json!(name))
            }
            Err(e) => Err(err(e)),
        }
    }

    /// New content: its name, reference, plaintext and what is to be encrypted.
    pub fn content(&mut self, on: &str, p: &str, ancestors: HashMap<T, SymmetricKey>) -> (String, T, Vec<u8>, Vec<u8>) {
        let idx = self.cts.len();
        self.cts.push(None);
        let name = format!("c{}", idx + 1);
        let plain = format!("content {name} of {on} by {p} seed {}", self.seed).into_bytes();
        let raw = bincode::serialize(&Envelope::<T, Vec<u8>> { plaintext: plain.clone(), ancestors }).expect("envelope");
        let mut r = [0u8; 32];
        r[0] = idx as u8 + 1;
        r[1] = (idx >> 8) as u8;
        r[2] = 0xc0;
        (name, r, plain, raw)
    }

    #[allow(clippy::too_many_arguments)]
    pub fn note_ct(&mut self, doc: String, name: String, by: &str, enc: EncryptedContent<Vec<u8>, T>, key: [u8; 32], plain: Vec<u8>, raw: Vec<u8>, preds: Vec<String>) {
        let upd = self.op_by_digest.get(&dbytes(&enc.pcs_update_op_hash)).cloned().unwrap_or_else(|| "unknown".into());
        let Ok(slot) = name[1..].parse::<usize>() else { return };
        let kname = hex(&key);
        // it travels to whoever decrypts it
        let enc: EncryptedContent<Vec<u8>, T> = bincode::deserialize(&bincode::serialize(&enc).expect("content serializes")).expect("content deserializes");
        self.cts[slot - 1] = Some(Ct { name, doc, by: by.to_string(), enc: Arc::new(enc), key, plain, raw, preds, upd, kname });
    }

    /// How decryption of every ciphertext turns out for p.
    pub async fn do_dec(&self, p: &str) -> Value {
        self.dec_kh(&self.kh(p)).await
    }
    pub async fn dec_kh(&self, kh: &KH) -> Value {
        let mut m = Map::new();
        for c in self.cts.iter().flatten() {
            let did = DocumentId::from(self.ids[&c.doc]);
            let r = match kh.get_document(did).await {
                None => "nodoc",
                Some(d) => match kh.try_decrypt_content_keyed(d, &c.enc).await {
                    Ok((b, k)) => if b == c.raw && k.as_slice() == c.key { "ok" } else { "wrong" },
                    Err(e) => { if std::env::var("KH_DEC").is_ok() { eprintln!("DEC {} {:?}", c.name, e) } "err" }
                },
            };
            m.insert(c.name.clone(), json!(r));
        }
        Value::Object(m)
    }

    /// Offer altered ciphertexts to p; returns the alterations that yielded plaintext.
    pub async fn do_tamper_ct(&mut self, p: &str, o: &mut Value, rng: &mut StdRng) -> Vec<String> {
        let kh = self.kh(p);
        let mut leaks = vec![];
        let mut broke = vec![];
        let mut tried = 0u64;
        let n = self.cts.len();
        let cand: Vec<usize> = (0..n).filter(|i| self.cts[*i].is_some()).collect();
        let pick: Vec<usize> = cand.choose_multiple(rng, 3).copied().collect();
        for i in pick {
            let (enc, name, docn, raw) = { let c = self.cts[i].as_ref().unwrap(); (c.enc.as_ref().clone(), c.name.clone(), c.doc.clone(), c.raw.clone()) };
            let did = DocumentId::from(self.ids[&docn]);
            let Some(doc) = kh.get_document(did).await else { continue };
            // what an untouched replica would say
            let base = {
                let d = doc.lock().await;
                match d.cgka() {
                    Ok(c) => c.clone().decryption_key_for(&enc).ok().and_then(|k| enc.try_decrypt(k).ok()).map(|b| b == raw).unwrap_or(false),
                    Err(_) => false,
                }
            };
            let mut vars: Vec<(String, EncryptedContent<Vec<u8>, T>)> = vec![];
            let flip = |b: &[u8; 32], k: usize| { let mut x = *b; x[k % 32] ^= 1 << (k % 8); x };
            let k: usize = rng.gen_range(0..1000);
            {
                let mut e = enc.clone(); let l = e.ciphertext.len(); e.ciphertext[k % l] ^= 1 << (k % 8); vars.push(("byte".into(), e));
                let mut e = enc.clone(); e.ciphertext.pop(); vars.push(("short".into(), e));
                let mut e = enc.clone(); e.ciphertext.push(7); vars.push(("long".into(), e));
                let mut e = enc.clone(); e.ciphertext.clear(); vars.push(("empty".into(), e));
                let mut e = enc.clone(); e.nonce = flip_siv(&enc.nonce, k); vars.push(("nonce".into(), e));
                let mut e = enc.clone(); e.pcs_key_hash = mkdigest(flip(&dbytes(&enc.pcs_key_hash), k)); vars.push(("keyhash".into(), e));
                let mut e = enc.clone(); e.pcs_update_op_hash = mkdigest(flip(&dbytes(&enc.pcs_update_op_hash), k)); vars.push(("update".into(), e));
                let mut e = enc.clone(); e.content_ref = flip(&enc.content_ref, k); vars.push(("ref".into(), e));
                let mut e = enc.clone(); e.pred_refs = mkdigest(flip(&dbytes(&enc.pred_refs), k)); vars.push(("preds".into(), e));
            }
            for j in &cand {
                if *j == i { continue; }
                let c = self.cts[*j].as_ref().unwrap();
                if c.doc != docn { continue; }
                let x = &c.enc;
                if x.pcs_key_hash != enc.pcs_key_hash {
                    let mut e = enc.clone(); e.pcs_key_hash = x.pcs_key_hash; vars.push((format!("keyhash-of-{}", c.name), e));
                }
                if x.pcs_update_op_hash != enc.pcs_update_op_hash {
                    let mut e = enc.clone(); e.pcs_update_op_hash = x.pcs_update_op_hash; vars.push((format!("update-of-{}", c.name), e));
                    let mut e = enc.clone(); e.pcs_update_op_hash = x.pcs_update_op_hash; e.pcs_key_hash = x.pcs_key_hash; vars.push((format!("epoch-of-{}", c.name), e));
                }
                let mut e = enc.clone(); e.content_ref = x.content_ref; vars.push((format!("ref-of-{}", c.name), e));
                if x.pred_refs != enc.pred_refs { let mut e = enc.clone(); e.pred_refs = x.pred_refs; vars.push((format!("preds-of-{}", c.name), e)); }
                let mut e = enc.clone(); e.nonce = x.nonce; if e.nonce != enc.nonce { vars.push((format!("nonce-of-{}", c.name), e)); }
                let mut e = enc.clone(); e.ciphertext = x.ciphertext.clone(); vars.push((format!("bytes-of-{}", c.name), e));
            }
            vars.shuffle(rng);
            for (v, e) in vars.into_iter().take(14) {
                tried += 1;
                if kh.try_decrypt_content(doc.dupe(), &e).await.is_ok() { leaks.push(format!("{v}:{name}")); }
            }
            // the same ciphertext offered to the peer's other documents
            for (dn, id) in self.ids.iter() {
                if self.kind[dn] != "doc" || *dn == docn { continue; }
                if let Some(d2) = kh.get_document(DocumentId::from(*id)).await {
                    tried += 1;
                    if kh.try_decrypt_content(d2, &enc).await.is_ok() { leaks.push(format!("doc-{dn}:{name}")); }
                }
            }
            let after = kh.try_decrypt_content(doc.dupe(), &enc).await.map(|b| b == raw).unwrap_or(false);
            if after != base { broke.push(name.clone()); }
        }
        o["broke"] = json!(broke);
        o["tried"] = json!(tried);
        leaks
    }

    /// Causal decryption from one ciphertext, with a chosen subset of its history available.
    pub async fn do_causal(&mut self, p: &str, st: &Value, o: &mut Value, rng: &mut StdRng) -> Res {
        let cand: Vec<usize> = (0..self.cts.len()).filter(|i| self.cts[*i].is_some()).collect();
        let Some(&e) = cand.choose(rng) else { return Err("NoContent".into()) };
        // prefer content with a history
        let e = { let deep: Vec<usize> = cand.iter().copied().filter(|i| !self.cts[*i].as_ref().unwrap().preds.is_empty()).collect(); deep.choose(rng).copied().unwrap_or(e) };
        let (docn, entry) = { let c = self.cts[e].as_ref().unwrap(); (c.doc.clone(), c.enc.clone()) };
        let kh = self.kh(p);
        let Some(doc) = kh.get_document(DocumentId::from(self.ids[&docn])).await else { return Err("Unknown".into()) };
        let frac = st["frac"].as_u64().unwrap_or(70) as f64 / 100.0;
        let bad = st["bad"].as_u64().unwrap_or(10) as f64 / 100.0;
        let mut avail = vec![];
        let mut corrupt = vec![];
        let store = MemoryCiphertextStore::new();
        for i in &cand {
            let c = self.cts[*i].as_ref().unwrap();
            if !rng.gen_bool(frac) { continue; }
            if rng.gen_bool(bad) {
                let mut x = c.enc.as_ref().clone();
                let l = x.ciphertext.len();
                x.ciphertext[rng.gen_range(0..l)] ^= 4;
                store.insert(Arc::new(x)).await;
                corrupt.push(c.name.clone());
            } else {
                store.insert(c.enc.clone()).await;
                avail.push(c.name.clone());
            }
        }
        *self.peers[p].store.lock().await = store;
        o["entry"] = json!(self.cts[e].as_ref().unwrap().name);
        o["avail"] = json!(avail);
        o["corrupt"] = json!(corrupt);
        let canopen = {
            let d = doc.lock().await;
            match d.cgka() { Ok(c) => c.clone().decryption_key_for(&entry).ok().and_then(|k| entry.try_decrypt(k).ok()).is_some(), Err(_) => false }
        };
        o["canopen"] = json!(canopen);
        let byref: HashMap<T, usize> = cand.iter().map(|i| (self.cts[*i].as_ref().unwrap().enc.content_ref, *i)).collect();
        let nm = |r: &T| byref.get(r).map(|i| self.cts[*i].as_ref().unwrap().name.clone()).unwrap_or_else(|| "unknown".into());
        let describe = |pr: &CausalDecryptionState<T, Vec<u8>>| {
            let mut ok = BTreeSet::new();
            let mut wrong = BTreeSet::new();
            let mut dup = BTreeSet::new();
            for (r, b) in &pr.complete {
                let n = nm(r);
                if ok.contains(&n) || wrong.contains(&n) { dup.insert(n.clone()); }
                let good = byref.get(r).map(|i| self.cts[*i].as_ref().unwrap().plain == *b).unwrap_or(false);
                if good { ok.insert(n); } else { wrong.insert(n); }
            }
            let next: BTreeSet<String> = pr.next.keys().map(&nm).collect();
            let mut badkeys = BTreeSet::new();
            for (r, k) in pr.keys.iter().chain(pr.next.iter()) {
                let good = byref.get(r).map(|i| self.cts[*i].as_ref().unwrap().key == k.as_slice()).unwrap_or(false);
                if !good { badkeys.insert(nm(r)); }
            }
            json!({"ok":ok,"wrong":wrong,"dup":dup,"next":next,"badkeys":badkeys})
        };
        use keyhive_core::principal::document::DocCausalDecryptionError as E;
        let (res, out): (Value, Res) = match kh.try_causal_decrypt_content(doc.dupe(), &entry).await {
            Ok(pr) => { let mut r = describe(&pr); r["cannot"] = json!(Vec::<String>::new()); (r, Ok(json!("ok"))) }
            Err(E::CausalDecryptionError(x)) => {
                let mut r = describe(&x.progress);
                let c: BTreeSet<String> = x.cannot.keys().map(nm).collect();
                r["cannot"] = json!(c);
                (r, Ok(json!("partial")))
            }
            Err(x) => (json!({"ok":[],"wrong":[],"dup":[],"next":[],"badkeys":[],"cannot":[]}), Err(err(x))),
        };
        o["res"] = res;
        // what is left in the store afterwards
        let mut left = vec![];
        for i in &cand {
            let c = self.cts[*i].as_ref().unwrap();
            if self.peers[p].store.lock().await.get_by_content_ref(&c.enc.content_ref).await.is_some() { left.push(c.name.clone()); }
        }
        o["left"] = json!(left);
        out
    }

    // ---------------------------------------------------------------- storage

    pub async fn do_restore(&mut self, p: &str, _st: &Value, o: &mut Value) -> Res {
        let kh = self.kh(p);
        o["decBefore"] = self.dec_kh(&kh).await;
        let before = self.view(p).await;
        let ar = kh.into_archive().await;
        let bytes = bincode::serialize(&ar).map_err(err)?;
        let ar: Archive<T> = bincode::deserialize(&bytes).map_err(err)?;
        let secrets = kh.export_prekey_secrets().await.map_err(err)?;
        let log = L::new();
        let (signer, store) = { let x = &self.peers[p]; (x.signer.clone(), x.store.clone()) };
        self.nrestore += 1;
        let rng = StdRng::seed_from_u64(self.seed.wrapping_mul(7777).wrapping_add(self.nrestore));
        let new = KH::try_from_archive(&ar, signer, store, log.clone(), Arc::new(Mutex::new(rng))).await.map_err(err)?;
        let direct = self.view_kh(&new).await;
        o["direct"] = direct;
        new.import_prekey_secrets(&secrets).await.map_err(err)?;
        let ps = self.peers.get_mut(p).unwrap();
        ps.kh = new.clone();
        ps.log = log;
        o["before"] = before;
        o["decAfter"] = self.dec_kh(&new).await;
        Ok(json!("ok"))
    }

    pub async fn do_device(&mut self, p: &str, _st: &Value, o: &mut Value, rng: &mut StdRng) -> Res {
        let signer = self.peers[p].signer.clone();
        let drng = StdRng::seed_from_u64(rng.gen());
        let dev = self.make_peer("dev", signer, drng).await;
        let kh = dev.kh.clone();
        let held = strs(&self.view(p).await, "held");
        let mut evs: Vec<SEv> = held.iter().filter_map(|n| self.ev(n).map(|e| e.ev.clone())).collect();
        evs.shuffle(rng);
        kh.ingest_unsorted_static_events(evs).await;
        let own0 = self.view_kh(&kh).await;
        o["dev0"] = own0;
        let bytes = self.kh(p).export_prekey_secrets().await.map_err(err)?;
        // invalid blobs change nothing
        let mut bads = vec![];
        for cut in [0usize, 1, 5, bytes.len() / 2, bytes.len() - 1] {
            bads.push(bytes[..cut.min(bytes.len() - 1)].to_vec());
        }
        let mut x = bytes.clone(); x[0] ^= 0xff; bads.push(x);
        let mut accepted = 0u64;
        for b in bads { if kh.import_prekey_secrets(&b).await.is_ok() { accepted += 1; } }
        o["badok"] = json!(accepted);
        let v = self.view_kh(&kh).await;
        o["devbad"] = v;
        o["impok"] = json!(kh.import_prekey_secrets(&bytes).await.is_ok());
        let v = self.view_kh(&kh).await;
        o["dev1"] = v;
        // and once more, in the other direction
        let back = kh.export_prekey_secrets().await.map_err(err)?;
        kh.import_prekey_secrets(&back).await.map_err(err)?;
        let v = self.view_kh(&kh).await;
        o["dev2"] = v;
        Ok(json!("ok"))
    }

    // ---------------------------------------------------------------- forging

    pub fn subject(&self, n: &str) -> String {
        let Some(e) = self.ev(n) else { return "unknown".into() };
        match e.desc["proof"].as_str() {
            Some("none") | None => s(&e.desc, "issuer").to_string(),
            Some(x) => self.subject(x),
        }
    }

    /// Find a genuine delegation by description.
    fn find_dlg(&self, sel: &Value) -> Option<(String, Digest<Signed<StaticDelegation<T>>>)> {
        if s(sel, "on") == "none" { return None; }
        for e in &self.evs {
            if let SEv::Delegated(d) = &e.ev {
                if s(&e.desc, "delegate") == s(sel, "m") && s(&e.desc, "issuer") == s(sel, "i") && self.subject(&e.name) == s(sel, "on") {
                    return Some((e.name.clone(), Digest::hash(d)));
                }
            }
        }
        None
    }

    pub async fn deliver(&mut self, p: &str, evs: Vec<SEv>) -> Value {
        let mut names: Vec<String> = evs.iter().map(|e| self.reg(e)).collect();
        names.sort();
        let r = self.kh(p).ingest_unsorted_static_events(evs.iter().map(wire).collect()).await;
        let mut ret: Vec<String> = r.iter().map(|e| self.reg(e.as_ref())).collect();
        ret.sort();
        let emitted = self.drain(p).await;
        let view = self.view(p).await;
        json!({"op":"dlv","p":p,"sent":names,"ok":true,"ret":ret,"created":[],"emitted":emitted,"view":view})
    }

    /// A well-signed operation made up by `by`, delivered to some peers.
    pub async fn do_forge(&mut self, st: &Value, o: &mut Value) -> Res {
        let by = s(st, "by").to_string();
        let Some(sk) = self.signer_of(&by) else { return Err("NoSigner".into()) };
        let after: Vec<Digest<Signed<StaticRevocation<T>>>> = {
            let grp = s(st, "grp");
            let hs: Vec<String> = match self.peers.get(&by) {
                Some(_) => { let v = self.view(&by).await; strs(&v["rheads"], grp) }
                None => vec![],
            };
            hs.iter().filter_map(|n| match self.ev(n).map(|e| &e.ev) { Some(SEv::Revoked(r)) => Some(Digest::hash(r)), _ => None }).collect()
        };
        let proof = self.find_dlg(&st["proof"]);
        // (a delegation without proof is a root delegation of its issuer's own group, not a forgery)
        if proof.is_none() && (s(&st["proof"], "on") != "none" || s(st, "kind") == "dlg") { o["deliveries"] = json!([]); return Ok(json!("skip")); }
        let ev: SEv = if s(st, "kind") == "dlg" {
            let Some(m) = self.ids.get(s(st, "m")).copied() else { o["deliveries"] = json!([]); return Ok(json!("skip")) };
            SEv::Delegated(sk.try_sign_sync(StaticDelegation { can: acc(st["can"].as_u64().unwrap_or(0)), proof: proof.map(|x| x.1), delegate: m, after_revocations: after, after_content: BTreeMap::new() }).map_err(err)?)
        } else {
            let Some(r) = self.find_dlg(&st["revoke"]) else { o["deliveries"] = json!([]); return Ok(json!("skip")) };
            SEv::Revoked(sk.try_sign_sync(StaticRevocation { revoke: r.1, proof: proof.map(|x| x.1), after_content: BTreeMap::new() }).map_err(err)?)
        };
        let mut ds = vec![];
        for q in strs(st, "to") {
            let q = if self.peers.contains_key(&format!("{q}+")) { format!("{q}+") } else { q };
            if !self.peers.contains_key(&q) { continue; }
            let d = self.deliver(&q, vec![ev.clone()]).await;
            ds.push(d);
        }
        o["deliveries"] = json!(ds);
        Ok(json!("ok"))
    }

    /// An altered copy of a genuine event (or contact card), delivered to p.
    pub async fn do_tamper(&mut self, p: &str, st: &Value, o: &mut Value, rng: &mut StdRng) -> Res {
        let what = s(st, "what");
        let how = s(st, "how");
        if what == "card" { return self.tamper_card(p, o, rng).await; }
        let cand: Vec<SEv> = self.evs.iter().filter(|e| e.desc["ok"] == json!(true) && s(&e.desc, "issuer") != "z").filter(|e| what == "any" || s(&e.desc, "k") == what || (what == "cgka" && s(&e.desc, "k").starts_with('c'))).map(|e| e.ev.clone()).collect();
        let Some(e) = cand.choose(rng) else { o["sent"] = json!([]); return Ok(json!([])) };
        let other = *self.ids.values().collect::<Vec<_>>().choose(rng).unwrap();
        let z = self.signer_of("z").unwrap();
        let okey = ShareSecretKey::force_from_bytes(rng.gen::<[u8; 32]>()).share_key();
        fn sig<X: serde::Serialize + std::fmt::Debug>(x: &mut Signed<X>, rng: &mut StdRng) {
            let mut b = x.signature.to_bytes();
            b[rng.gen_range(0..31)] ^= 1 << rng.gen_range(0..8);
            x.signature = ed25519_dalek::Signature::from_bytes(&b);
        }
        macro_rules! alter {
            ($x:ident, $pay:block) => {{
                match how {
                    "sig" => sig(&mut $x, rng),
                    "issuer" => {
                        let mut k = ed25519_dalek::VerifyingKey::from_bytes(&id_bytes(other)).unwrap();
                        if k == $x.issuer { k = ed25519_dalek::VerifyingKey::from_bytes(&id_bytes(&self.ids["z"])).unwrap(); }
                        if k == $x.issuer { k = ed25519_dalek::VerifyingKey::from_bytes(&id_bytes(&self.ids["pub"])).unwrap(); }
                        $x.issuer = k;
                    }
                    _ => {
                        $pay
                        if how == "resign" { $x.signature = z.try_sign_sync($x.payload.clone()).map_err(err)?.signature; }
                    }
                }
            }};
        }
        let e2: SEv = match e.clone() {
            SEv::Delegated(d) => {
                let mut x = d;
                alter!(x, {
                    match rng.gen_range(0..4) {
                        0 => { x.payload.can = acc((acc_n(x.payload.can) + 1) % 4); }
                        1 => { x.payload.delegate = *other; }
                        2 => { x.payload.proof = None; }
                        _ => { x.payload.delegate = self.ids["z"]; x.payload.can = acc(3); }
                    }
                });
                SEv::Delegated(x)
            }
            SEv::Revoked(r) => {
                let mut x = r;
                let ds: Vec<_> = self.evs.iter().filter_map(|e| match &e.ev { SEv::Delegated(d) => Some(Digest::hash(d)), _ => None }).collect();
                alter!(x, {
                    match rng.gen_range(0..3) {
                        0 => { x.payload.revoke = *ds.choose(rng).unwrap(); }
                        1 => { x.payload.proof = Some(*ds.choose(rng).unwrap()); }
                        _ => { x.payload.proof = None; }
                    }
                });
                SEv::Revoked(x)
            }
            SEv::CgkaOperation(b) => {
                let mut x = *b;
                alter!(x, {
                    match &mut x.payload {
                        CgkaOperation::Add { pk, added_id, .. } => {
                            if rng.gen_bool(0.5) { *pk = okey; } else { *added_id = beekem::id::MemberId::from(ed25519_dalek::VerifyingKey::from_bytes(&id_bytes(&self.ids["z"])).unwrap()); }
                        }
                        CgkaOperation::Remove { id, predecessors, .. } => {
                            if rng.gen_bool(0.5) { *id = beekem::id::MemberId::from(ed25519_dalek::VerifyingKey::from_bytes(&id_bytes(other)).unwrap()); } else { predecessors.clear(); }
                        }
                        CgkaOperation::Update { id, predecessors, .. } => {
                            if rng.gen_bool(0.5) { *id = beekem::id::MemberId::from(ed25519_dalek::VerifyingKey::from_bytes(&id_bytes(other)).unwrap()); } else { predecessors.clear(); }
                        }
                    }
                });
                SEv::CgkaOperation(Box::new(x))
            }
            SEv::PrekeysExpanded(b) => {
                let mut x = *b;
                alter!(x, { x.payload = AddKeyOp { share_key: okey }; });
                SEv::PrekeysExpanded(Box::new(x))
            }
            SEv::PrekeyRotated(b) => {
                let mut x = *b;
                alter!(x, {
                    if rng.gen_bool(0.5) { x.payload = RotateKeyOp { old: x.payload.old, new: okey }; }
                    else { let c = self.prekeys("z").await; x.payload = RotateKeyOp { old: *c.choose(rng).unwrap(), new: x.payload.new }; }
                });
                SEv::PrekeyRotated(Box::new(x))
            }
        };
        if e2 == *e { o["sent"] = json!([]); return Ok(json!([])); }
        let d = self.deliver(p, vec![e2]).await;
        o["sent"] = d["sent"].clone();
        Ok(d["ret"].clone())
    }

    async fn tamper_card(&mut self, p: &str, o: &mut Value, rng: &mut StdRng) -> Res {
        // a card whose author is somebody p may or may not know yet
        let mut vrng = StdRng::seed_from_u64(rng.gen());
        let fresh = MemorySigner::generate(&mut vrng);
        let z = self.signer_of("z").unwrap();
        let names: Vec<String> = self.peers.keys().filter(|x| !x.ends_with('+')).cloned().collect();
        let victim = names.choose(rng).unwrap().clone();
        let signer = if rng.gen_bool(0.5) { fresh } else { self.signer_of(&victim).unwrap() };
        let key = ShareSecretKey::force_from_bytes(rng.gen::<[u8; 32]>()).share_key();
        let mut x = signer.try_sign_sync(AddKeyOp { share_key: key }).map_err(err)?;
        match rng.gen_range(0..3) {
            0 => { let mut b = x.signature.to_bytes(); b[3] ^= 1; x.signature = ed25519_dalek::Signature::from_bytes(&b); }
            1 => { x.signature = z.try_sign_sync(x.payload.clone()).map_err(err)?.signature; if self.ids["z"] == Identifier::from(x.issuer) { let mut b = x.signature.to_bytes(); b[3] ^= 1; x.signature = ed25519_dalek::Signature::from_bytes(&b); } }
            _ => { x.payload = AddKeyOp { share_key: ShareSecretKey::force_from_bytes(rng.gen::<[u8; 32]>()).share_key() }; }
        }
        let c = ContactCard::from(KeyOp::Add(Arc::new(x)));
        o["card"] = json!(true);
        o["sent"] = json!([]);
        o["accepted"] = json!(self.kh(p).receive_contact_card(&c).await.is_ok());
        o["learned"] = json!(self.kh(p).get_individual(c.id()).await.is_some() && !self.names.contains_key(&id_bytes(&c.id().into())));
        Ok(json!([]))
    }

    // ---------------------------------------------------------------- queries

    pub async fn do_query(&mut self, p: &str) -> Value {
        let kh = self.kh(p);
        let allm = kh.membership_ops_for_all_agents().await;
        let allp = kh.reachable_prekey_ops_for_all_agents().await;
        let allc = kh.cgka_ops_for_all_agents().await;
        let mut out = Map::new();
        let mut odd: BTreeSet<&str> = BTreeSet::new();
        let ids: Vec<(String, Identifier)> = self.ids.iter().map(|(a, b)| (a.clone(), *b)).collect();
        for (n, id) in ids {
            let Some(a) = kh.get_agent(id).await else { continue };
            let mut mem: BTreeSet<String> = BTreeSet::new();
            for (d, op) in kh.membership_ops_for_agent(&a).await {
                let e = SEv::from(op_event(&op));
                if dbytes(&d) != op_hash(&e) { odd.insert("key of a membership operation"); }
                mem.insert(self.reg(&e));
            }
            let mut mema: BTreeSet<String> = BTreeSet::new();
            if let Some(it) = allm.ops_for_agent(&id) { for (d, op) in it {
                let e = SEv::from(op_event(op));
                if dbytes(d) != op_hash(&e) { odd.insert("key of a membership operation, in bulk"); }
                mema.insert(self.reg(&e));
            } }
            // all the events for the agent: each under the hash it has everywhere else
            let mut evs: BTreeSet<String> = BTreeSet::new();
            for (d, e) in kh.static_events_for_agent(&a).await {
                if dbytes(&d) != h(&e) { odd.insert("key of an event"); }
                evs.insert(self.reg(&wire(&e)));
            }
            let mut pre: BTreeSet<String> = BTreeSet::new();
            for (_, ops) in kh.reachable_prekey_ops_for_agent(&a).await { for o in ops { pre.insert(self.reg(&SEv::from(Ev::from(o.as_ref().dupe())))); } }
            let mut prea: BTreeSet<String> = BTreeSet::new();
            let ops: Vec<_> = allp.ops_for_agent(&id).map(|it| it.cloned().collect()).unwrap_or_default();
            for o in ops { prea.insert(self.reg(&SEv::from(Ev::from(o.as_ref().dupe())))); }
            let mut cg: BTreeSet<String> = BTreeSet::new();
            for o in kh.cgka_ops_reachable_by_agent(&a).await { cg.insert(self.reg(&SEv::CgkaOperation(Box::new(o.as_ref().clone())))); }
            let mut cga: BTreeSet<String> = BTreeSet::new();
            let ops: Vec<_> = allc.ops_for_agent(&id).map(|it| it.cloned().collect()).unwrap_or_default();
            for o in ops { cga.insert(self.reg(&SEv::CgkaOperation(Box::new(o.as_ref().clone())))); }
            let docs: BTreeMap<String, u64> = kh.docs_reachable_by_agent(&a).await.iter().map(|(k, ab)| (self.n(&(*k).into()), acc_n(ab.can()))).collect();
            let mbd: BTreeMap<String, u64> = kh.membered_reachable_by_agent(&a).await.iter().map(|(k, (_, ac))| (self.n(&(*k).into()), acc_n(*ac))).collect();
            out.insert(n, json!({"mem":mem,"memAll":mema,"pre":pre,"preAll":prea,"cg":cg,"cgAll":cga,"docs":docs,"membered":mbd,"evs":evs}));
        }
        let mut rm = Map::new();
        let gs: Vec<(String, Mem)> = {
            let mut v = vec![];
            for n in self.ids.keys().cloned().collect::<Vec<_>>() { if let Some(m) = self.membered(p, &n).await { v.push((n, m)); } }
            v
        };
        for (n, m) in gs {
            let r: BTreeMap<String, u64> = kh.reachable_members(m).await.iter().map(|(k, (_, a))| (self.n(k), acc_n(*a))).collect();
            rm.insert(n, json!(r));
        }
        // cgka_ops_for_doc
        let mut cd = Map::new();
        for (n, id) in self.ids.iter().map(|(a, b)| (a.clone(), *b)).collect::<Vec<_>>() {
            if self.kind[&n] != "doc" { continue; }
            if let Ok(Some(ops)) = kh.cgka_ops_for_doc(&DocumentId::from(id)).await {
                let v: BTreeSet<String> = ops.iter().map(|o| self.reg(&SEv::CgkaOperation(Box::new(o.as_ref().clone())))).collect();
                cd.insert(n, json!(v));
            }
        }
        let st = serde_json::to_value(kh.stats().await).expect("stats");
        let (back, known) = self.lookups(&kh, &mut odd).await;
        json!({"agents":out,"reachable":rm,"docops":cd,"stats":st,"back":back,"known":known,"odd":odd})
    }

    /// What looking things up by name or hash, and converting them, gives.
    async fn lookups(&mut self, kh: &KH, odd: &mut BTreeSet<&'static str>) -> (BTreeSet<String>, Value) {
        let mut back = BTreeSet::new();
        for i in 0..self.evs.len() {
            let (ev, name) = (self.evs[i].ev.clone(), self.evs[i].name.clone());
            if let Ok(e) = kh.static_event_to_event(wire(&ev)).await {
                if h(&e) != h(&ev) { odd.insert("hash of a converted event"); }
                let se = SEv::from(e);
                if h(&se) == h(&ev) && se == ev { back.insert(name); } else { odd.insert("event converted and back"); }
            }
            let dg: Digest<keyhive_core::principal::group::membership_operation::MembershipOperation<future_form::Local, MemorySigner, T, L>> = Digest::from(op_hash(&ev));
            if let Some(m) = kh.get_membership_operation(&dg).await {
                if dbytes(&m.digest()) != op_hash(&ev) || SEv::from(op_event(&m)) != ev { odd.insert("operation found under another's hash"); }
            }
        }
        let mut known = Map::new();
        for (n, id) in self.ids.iter().map(|(a, b)| (a.clone(), *b)).collect::<Vec<_>>() {
            use keyhive_core::principal::{agent::Agent as A, peer::Peer as P};
            let agent = match kh.get_agent(id).await {
                None => "none",
                Some(a) => {
                    if a.id() != id || Identifier::from(a.agent_id()) != id { odd.insert("agent with another's identifier"); }
                    match a {
                        A::Active(_, x) => { if Identifier::from(x.lock().await.id()) != id { odd.insert("somebody else's agent"); } "self" }
                        A::Individual(_, x) => { if Identifier::from(x.lock().await.id()) != id { odd.insert("somebody else's agent"); } "ind" }
                        A::Group(_, x) => { if Identifier::from(x.lock().await.group_id()) != id { odd.insert("somebody else's agent"); } "grp" }
                        A::Document(_, x) => { if Identifier::from(x.lock().await.doc_id()) != id { odd.insert("somebody else's agent"); } "doc" }
                    }
                }
            };
            let peer = match kh.get_peer(id).await {
                None => "none",
                Some(a) => {
                    if a.id() != id { odd.insert("peer with another's identifier"); }
                    match a { P::Individual(..) => "ind", P::Group(..) => "grp", P::Document(..) => "doc" }
                }
            };
            let by = json!({"ind": kh.get_individual(id.into()).await.is_some(),
                "grp": kh.get_group(keyhive_core::principal::group::id::GroupId::new(id)).await.is_some(),
                "doc": kh.get_document(id.into()).await.is_some()});
            known.insert(n, json!({"agent":agent,"peer":peer,"by":by}));
        }
        // what is signed here verifies, and only as it was signed
        let mine = format!("note {}", self.evs.len());
        match kh.try_sign(mine.clone()).await {
            Ok(sg) => {
                if sg.try_verify().is_err() || !genuine(&sg) || Identifier::from(sg.issuer) != Identifier::from(kh.id()) { odd.insert("own signature"); }
                let other = Signed::new(mine + "!", sg.issuer, sg.signature);
                if other.try_verify().is_ok() { odd.insert("altered payload"); }
            }
            Err(_) => { odd.insert("cannot sign"); }
        }
        let card = kh.get_existing_contact_card().await;
        if Identifier::from(card.id()) != Identifier::from(kh.id()) || wire_card(&card) != card { odd.insert("contact card"); }
        (back, Value::Object(known))
    }
}

/// A ciphertext store of its own, driven through a sequence of calls; everything
/// that can be looked up in it is looked up after each of them.
pub async fn do_cstore(st: &Value, o: &mut Value) -> Res {
    use keyhive_core::store::ciphertext::CiphertextStore as CS;
    let raw: MemoryCiphertextStore<T, Vec<u8>> = MemoryCiphertextStore::new();
    let store = Arc::new(Mutex::new(raw.clone()));
    let cref = |r: u64| -> T { h(&("ref", r)) };
    let upd = |u: u64| Digest::<Signed<CgkaOperation>>::from(h(&("upd", u)));
    let (nref, nupd) = (2u64, 3u64);
    let mk = |n: u64| -> EncryptedContent<Vec<u8>, T> {
        EncryptedContent::new(
            bincode::deserialize(&bincode::serialize(&[n as u8; 24]).unwrap()).unwrap(),
            vec![n as u8; 10 + 7 * (n as usize * 5 % 4)],
            Digest::from([7; 32]), upd(n / nref % nupd), cref(n % nref), Digest::from([9; 32]),
        )
    };
    let all: BTreeMap<String, EncryptedContent<Vec<u8>, T>> = (1..=12).map(|n| (format!("x{n}"), mk(n))).collect();
    let name = |e: &EncryptedContent<Vec<u8>, T>| all.iter().find(|(_, x)| *x == e).map(|(n, _)| n.clone()).unwrap_or_else(|| "unknown".into());
    let mut tab = Map::new();
    for (n, x) in &all {
        let i: u64 = n[1..].parse().unwrap();
        tab.insert(n.clone(), json!({"ref": format!("r{}", i % nref), "upd": format!("u{}", i / nref % nupd), "size": x.ciphertext.len()}));
    }
    let mut done = vec![];
    for c in st["calls"].as_array().cloned().unwrap_or_default() {
        let n = c["n"].as_u64().unwrap_or(1);
        let x = format!("x{n}");
        let got = match s(&c, "c") {
            "ins" => { raw.insert(Arc::new(all[&x].clone())).await; true }
            "raw" => { let a = raw.insert_raw(all[&x].clone()).await; *a == all[&x] }
            "rem" => match raw.remove(&Digest::hash(&all[&x])).await { None => false, Some(e) => { if name(&e) != x { return Err("removed another".into()) } true } },
            "all" => raw.remove_all(&cref(n % nref)).await,
            _ => { CS::<future_form::Local, T, Vec<u8>>::mark_decrypted(&store, &cref(n % nref)).await.map_err(err)?; true }
        };
        let mut refs = Map::new();
        for r in 0..nref {
            let e = CS::<future_form::Local, T, Vec<u8>>::get_ciphertext(&store, &cref(r)).await.map_err(err)?;
            refs.insert(format!("r{r}"), json!(e.map(|e| name(&e)).unwrap_or_else(|| "none".into())));
        }
        let mut upds = Map::new();
        for u in 0..nupd {
            let es = CS::<future_form::Local, T, Vec<u8>>::get_ciphertext_by_pcs_update(&store, &upd(u)).await.map_err(err)?;
            let mut v: Vec<String> = es.iter().map(|e| name(e)).collect();
            v.sort();
            upds.insert(format!("u{u}"), json!(v));
        }
        done.push(json!({"c": c["c"], "x": x, "r": format!("r{}", n % nref), "got": got, "refs": refs, "upds": upds}));
    }
    o["tab"] = Value::Object(tab);
    o["done"] = json!(done);
    Ok(json!("ok"))
}

/// The hash of the operation in an event (the name by which others refer to it).
fn op_hash(e: &SEv) -> [u8; 32] {
    match e {
        SEv::Delegated(x) => h(x),
        SEv::Revoked(x) => h(x),
        SEv::CgkaOperation(x) => h(x.as_ref()),
        SEv::PrekeysExpanded(x) => h(x.as_ref()),
        SEv::PrekeyRotated(x) => h(x.as_ref()),
    }
}

fn op_event(op: &keyhive_core::principal::group::membership_operation::MembershipOperation<future_form::Local, MemorySigner, T, L>) -> Ev {
    use keyhive_core::principal::group::membership_operation::MembershipOperation as M;
    match op {
        M::Delegation(d) => Ev::Delegated(d.dupe()),
        M::Revocation(r) => Ev::Revoked(r.dupe()),
    }
}

fn mkdigest<X: serde::Serialize>(b: [u8; 32]) -> Digest<X> { Digest::from(b) }

fn flip_siv(x: &Siv, k: usize) -> Siv {
    let mut b = *x.as_bytes();
    b[k % 24] ^= 1 << (k % 8);
    bincode::deserialize(&bincode::serialize(&b).unwrap()).unwrap()
}

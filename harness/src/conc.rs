//! Several calls at once on one peer, interleaved at every lock by a seeded scheduler.
use crate::{actions::{err, s}, world::*};
use futures::future::LocalBoxFuture;
use keyhive_core::principal::identifier::Identifier;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use beekem::encrypted::EncryptedContent;
use nonempty::nonempty;
use std::collections::HashMap;
use serde_json::{json, Value};
use std::{

    sync::{atomic::{AtomicBool, Ordering}, Arc},
    task::{Context, Poll, Wake, Waker},
};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}

/// Outcome of one of the calls: how it ended and which operations it made.
pub struct Out { pub ok: bool, pub ret: String, pub made: Vec<SEv>, new: New }

/// What came into being.
enum New { Nothing, Group(Identifier), Doc(Identifier), Ct(Box<EncryptedContent<Vec<u8>, T>>, [u8; 32]) }

/// Runs the calls interleaved; `None` if none of the unfinished ones can go on.
pub fn interleave(mut fs: Vec<LocalBoxFuture<'_, Out>>, seed: u64, rng: &mut StdRng) -> Option<Vec<Out>> {
    let n = fs.len();
    let flags: Vec<Arc<Flag>> = (0..n).map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let wakers: Vec<Waker> = flags.iter().map(|f| Waker::from(f.clone())).collect();
    let mut out: Vec<Option<Out>> = (0..n).map(|_| None).collect();
    futures_util::lock::PREEMPT.with(|c| c.set(seed | 1));
    let stuck;
    loop {
        let ready: Vec<usize> = (0..n).filter(|i| out[*i].is_none() && flags[*i].0.load(Ordering::SeqCst)).collect();
        let Some(&i) = ready.choose(rng) else { stuck = out.iter().any(|o| o.is_none()); break };
        flags[i].0.store(false, Ordering::SeqCst);
        if let Poll::Ready(o) = fs[i].as_mut().poll(&mut Context::from_waker(&wakers[i])) { out[i] = Some(o); }
    }
    futures_util::lock::PREEMPT.with(|c| c.set(0));
    if stuck {
        if std::env::var("KH_DEAD").is_ok() {
            futures_util::lock::PREEMPT.with(|c| c.set(0xdead));
            for i in 0..n { if out[i].is_none() { eprintln!("==== STUCK CALL {i}"); let _ = fs[i].as_mut().poll(&mut Context::from_waker(&wakers[i])); } }
            futures_util::lock::PREEMPT.with(|c| c.set(0));
        }
        return None
    }
    Some(out.into_iter().flatten().collect())
}

impl World {
    pub async fn do_par(&mut self, p: &str, st: &Value, o: &mut Value, created: &mut Vec<String>, rng: &mut StdRng) -> Result<Value, String> {
        let kh = self.kh(p);
        let mut fs: Vec<LocalBoxFuture<'_, Out>> = vec![];
        let mut sent: Vec<String> = vec![];
        let mut ct: Option<(String, String, Vec<u8>, Vec<u8>)> = None;
        for c in st["calls"].as_array().cloned().unwrap_or_default() {
            let kh = kh.clone();
            let op = s(&c, "op").to_string();
            let ok = |made: Vec<SEv>| Out { ok: true, ret: "ok".into(), made, new: New::Nothing };
            let no = |e: String| Out { ok: false, ret: e, made: vec![], new: New::Nothing };
            match op.as_str() {
                "dlv" => {
                    let fr = c["frac"].as_u64().unwrap_or(50) as f64 / 100.0;
                    let mut v: Vec<SEv> = self.evs.iter().filter(|_| rng.gen_bool(fr)).map(|e| wire(&e.ev)).collect();
                    v.shuffle(rng);
                    for e in &v { sent.push(self.reg(e)); }
                    fs.push(Box::pin(async move { kh.ingest_unsorted_static_events(v).await; ok(vec![]) }));
                }
                "query" => {
                    let a = self.as_agent(p, &self.who[s(&c, "m")].clone()).await;
                    let ids: Vec<Identifier> = self.ids.values().copied().collect();
                    fs.push(Box::pin(async move {
                        kh.static_events_for_agent(&a).await;
                        kh.reachable_docs().await;
                        kh.membership_ops_for_all_agents().await;
                        kh.cgka_ops_for_all_agents().await;
                        kh.reachable_prekey_ops_for_all_agents().await;
                        for i in ids { kh.get_agent(i).await; }
                        kh.into_archive().await;
                        kh.stats().await;
                        ok(vec![])
                    }));
                }
                "add" => {
                    let (Some(m), Some(on)) = (self.agent(p, s(&c, "m")).await, self.membered(p, s(&c, "on")).await) else { continue };
                    let can = acc(c["can"].as_u64().unwrap_or(1));
                    fs.push(Box::pin(async move {
                        match kh.add_member(m, &on, can, &[]).await {
                            Ok(u) => {
                                let mut v: Vec<SEv> = vec![Ev::Delegated(u.delegation.clone()).into()];
                                for c in &u.cgka_ops { v.push(SEv::CgkaOperation(Box::new(c.clone()))); }
                                ok(v)
                            }
                            Err(e) => no(err(e)),
                        }
                    }));
                }
                "rev" => {
                    let (Some(id), Some(on)) = (self.ids.get(s(&c, "m")).copied(), self.membered(p, s(&c, "on")).await) else { continue };
                    fs.push(Box::pin(async move {
                        match kh.revoke_member(id, false, &on).await {
                            Ok(u) => {
                                let mut v: Vec<SEv> = vec![];
                                for r in u.revocations() { v.push(Ev::Revoked(r.clone()).into()); }
                                for r in u.redelegations() { v.push(Ev::Delegated(r.clone()).into()); }
                                for c in u.cgka_ops() { v.push(SEv::CgkaOperation(Box::new(c.clone()))); }
                                ok(v)
                            }
                            Err(e) => no(err(e)),
                        }
                    }));
                }
                "pcs" => {
                    let Some(d) = self.doc(p, s(&c, "on")).await else { continue };
                    fs.push(Box::pin(async move {
                        match kh.force_pcs_update(d).await { Ok((c, _, _)) => ok(vec![SEv::CgkaOperation(Box::new(c))]), Err(e) => no(err(e)) }
                    }));
                }
                "group" => fs.push(Box::pin(async move {
                    match kh.generate_group(vec![]).await {
                        Ok(g) => Out { ok: true, ret: "ok".into(), made: vec![], new: New::Group(g.lock().await.id()) },
                        Err(e) => no(err(e)),
                    }
                })),
                "doc" => {
                    let head = [self.ndoc as u8 + 1; 32];
                    fs.push(Box::pin(async move {
                        match kh.generate_doc(vec![], nonempty![head]).await {
                            Ok(g) => Out { ok: true, ret: "ok".into(), made: vec![], new: New::Doc(g.lock().await.id()) },
                            Err(e) => no(err(e)),
                        }
                    }));
                }
                "enc" => {
                    let on = s(&c, "on").to_string();
                    let Some(d) = self.doc(p, &on).await else { continue };
                    let (name, cref, plain, raw) = self.content(&on, p, HashMap::new());
                    ct = Some((on, name, plain, raw.clone()));
                    fs.push(Box::pin(async move {
                        match kh.try_encrypt_content_keyed(d, &cref, &vec![], &raw).await {
                            Ok((r, key)) => {
                                let made = r.update_op().map(|u| SEv::CgkaOperation(Box::new(u.clone()))).into_iter().collect();
                                let kb: [u8; 32] = key.as_slice().try_into().expect("key");
                                Out { ok: true, ret: "ok".into(), made, new: New::Ct(Box::new(r.encrypted_content().clone()), kb) }
                            }
                            Err(e) => no(err(e)),
                        }
                    }));
                }
                "exp" => fs.push(Box::pin(async move {
                    match kh.expand_prekeys().await { Ok(x) => ok(vec![SEv::PrekeysExpanded(Box::new(x.as_ref().clone()))]), Err(e) => no(err(e)) }
                })),
                "rot" => {
                    let cur = self.prekeys(p).await;
                    let k = cur[c["n"].as_u64().unwrap_or(0) as usize % cur.len()];
                    fs.push(Box::pin(async move {
                        match kh.rotate_prekey(k).await { Ok(x) => ok(vec![SEv::PrekeyRotated(Box::new(x.as_ref().clone()))]), Err(e) => no(err(e)) }
                    }));
                }
                _ => {}
            }
        }
        let seed: u64 = rng.gen();
        let Some(outs) = interleave(fs, seed, rng) else { o["hang"] = json!(true); return Err("DEADLOCK".into()) };
        let mut rets = vec![];
        let made: Vec<SEv> = outs.iter().flat_map(|x| x.made.iter().cloned()).collect();
        created.extend(self.reg_all(&made));
        let mut new: Option<String> = None;
        for x in outs {
            rets.push(json!({"ok":x.ok,"ret":x.ret}));
            match x.new {
                New::Group(id) => { self.ngroup += 1; let n = format!("g{}", self.ngroup); self.name_id(id, &n, "grp"); new = Some(n); }
                New::Doc(id) => { self.ndoc += 1; let n = format!("d{}", self.ndoc); self.name_id(id, &n, "doc"); new = Some(n); }
                New::Ct(enc, kb) => {
                    if let Some((on, name, plain, raw)) = ct.take() { self.note_ct(on, name, p, *enc, kb, plain, raw, vec![]); }
                }
                New::Nothing => {}
            }
        }
        if let Some(g) = new {
            // its operations have been announced
            let em = self.drain(p).await;
            for n in &em {
                let Some(e) = self.ev(n) else { continue };
                let of = if let SEv::CgkaOperation(_) = e.ev { s(&e.desc, "doc").to_string() } else { self.subject(n) };
                if of == g && !created.contains(n) { created.push(n.clone()); }
            }
            o["emitted"] = json!(em);
        }
        sent.sort();
        sent.dedup();
        o["sent"] = json!(sent);
        o["outs"] = json!(rets);
        // whatever came in meanwhile is settled by the next delivery
        let r = kh.ingest_unsorted_static_events(vec![]).await;
        let mut pend: Vec<String> = r.iter().map(|e| self.reg(e.as_ref())).collect();
        pend.sort();
        Ok(json!(pend))
    }
}

//! Interprets scenarios (sequences of steps, JSON) on real peers, producing traces.
use crate::{actions::{err, s, strs}, world::*};
use futures::FutureExt;
use keyhive_core::transact::{fork::ForkAsync, merge::MergeAsync, transact_async};
use std::{collections::BTreeMap, panic::AssertUnwindSafe, sync::Arc};
use futures::lock::Mutex;
use dupe::Dupe;
use keyhive_core::principal::{peer::Peer, agent::Agent};
use keyhive_core::principal::group::membership_operation::StaticMembershipOperation;
use nonempty::nonempty;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use std::time::Duration;

fn to_peer(a: Ag) -> Option<Pr> {
    Some(match a {
        Agent::Active(..) => return None,
        Agent::Individual(i, x) => Peer::Individual(i, x),
        Agent::Group(i, x) => Peer::Group(i, x),
        Agent::Document(i, x) => Peer::Document(i, x),
    })
}

impl World {
    pub async fn step(&mut self, st: &Value, rng: &mut StdRng) -> Value {
        let op = s(st, "op").to_string();
        let p = s(st, "p").to_string();
        let mut o = st.clone();
        let mut created: Vec<String> = vec![];
        let mut extra: Vec<Value> = vec![];
        let res: Result<Value, String> = match op.as_str() {
            "group" | "doc" => {
                let mut co = vec![];
                for c in strs(st, "co") {
                    if let Some(a) = self.agent(&p, &c).await { if let Some(x) = to_peer(a) { co.push(x) } }
                }
                if op == "group" {
                    match self.kh(&p).generate_group(co).await {
                        Ok(g) => {
                            self.ngroup += 1;
                            let n = format!("g{}", self.ngroup);
                            let id = g.lock().await.id();
                            self.name_id(id, &n, "grp");
                            o["new"] = json!(n);
                            Ok(json!(n))
                        }
                        Err(e) => Err(err(e)),
                    }
                } else {
                    let head = [self.ndoc as u8 + 1; 32];
                    match self.kh(&p).generate_doc(co, nonempty![head]).await {
                        Ok(g) => {
                            self.ndoc += 1;
                            let n = format!("d{}", self.ndoc);
                            let id = g.lock().await.id();
                            self.name_id(id, &n, "doc");
                            o["new"] = json!(n);
                            Ok(json!(n))
                        }
                        Err(e) => Err(err(e)),
                    }
                }
            }
            "card" => {
                // q's existing contact card handed to p
                let q = s(st, "m").to_string();
                let c = self.kh(&q).get_existing_contact_card().await;
                self.kh(&p).receive_contact_card(&wire_card(&c)).await.map(|_| json!("ok")).map_err(err)
            }
            "add" => {
                let m = self.agent(&p, s(st, "m")).await;
                let on = self.membered(&p, s(st, "on")).await;
                match (m, on) {
                    (Some(m), Some(on)) => match self.kh(&p).add_member(m, &on, acc(st["can"].as_u64().unwrap_or(3)), &[]).await {
                        Ok(u) => {
                            let d: SEv = Ev::Delegated(u.delegation.dupe()).into();
                            created.push(self.reg(&d));
                            for c in &u.cgka_ops { created.push(self.reg(&SEv::CgkaOperation(Box::new(c.clone())))); }
                            Ok(json!("ok"))
                        }
                        Err(e) => Err(err(e)),
                    },
                    _ => Err("Unknown".into()),
                }
            }
            "rev" => {
                let on = self.membered(&p, s(st, "on")).await;
                let id = self.ids.get(s(st, "m")).copied();
                match (id, on) {
                    (Some(id), Some(on)) => match self.kh(&p).revoke_member(id, st["retain"].as_bool().unwrap_or(false), &on).await {
                        Ok(u) => {
                            for r in u.revocations() { let e: SEv = Ev::Revoked(r.dupe()).into(); created.push(self.reg(&e)); }
                            for r in u.redelegations() { let e: SEv = Ev::Delegated(r.dupe()).into(); created.push(self.reg(&e)); }
                            for c in u.cgka_ops() { created.push(self.reg(&SEv::CgkaOperation(Box::new(c.clone())))); }
                            Ok(json!("ok"))
                        }
                        Err(e) => Err(err(e)),
                    },
                    _ => Err("Unknown".into()),
                }
            }
            "sync" => {
                let f = s(st, "f").to_string();
                let who = if st["as"].as_str() == Some("pub") { "pub".to_string() } else { self.who.get(&p).cloned().unwrap_or(p.clone()) };
                let a = self.as_agent(&f, &who).await;
                let evs = self.kh(&f).static_events_for_agent(&a).await;
                let mut v: Vec<SEv> = evs.into_values().collect();
                v.sort_by_key(|e| h(e));
                let mut names: Vec<String> = v.iter().map(|e| self.reg(e)).collect();
                names.sort();
                o["sent"] = json!(names);
                v.shuffle(rng);
                let r = self.kh(&p).ingest_unsorted_static_events(v.iter().map(wire).collect()).await;
                let mut st: Vec<String> = r.iter().map(|e| self.reg(e.as_ref())).collect();
                st.sort();
                Ok(json!(st))
            }
            "dlv" => {
                // deliver events from the global pool
                let which = strs(st, "evs");
                let frac = st["frac"].as_f64().map(|x| x / 100.0);
                let mut v: Vec<SEv> = match frac {
                    Some(fr) => self.evs.iter().filter(|_| rng.gen_bool(fr)).map(|e| e.ev.clone()).collect(),
                    None => which.iter().filter_map(|n| self.ev(n).map(|e| e.ev.clone())).collect(),
                };
                v.shuffle(rng);
                let names: Vec<String> = v.iter().map(|e| self.reg(e)).collect();
                o["sent"] = json!(names);
                let r = self.kh(&p).ingest_unsorted_static_events(v.iter().map(wire).collect()).await;
                let mut st: Vec<String> = r.iter().map(|e| self.reg(e.as_ref())).collect();
                st.sort();
                Ok(json!(st))
            }
            "rcv" => {
                // one event on its own, through one of the calls that take a single one
                let now = self.view(&p).await;
                let listed = |k: &str| -> std::collections::BTreeSet<String> {
                    now[k].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect()
                };
                let (held, pend) = (listed("held"), listed("pend"));
                let pool: Vec<(String, SEv)> = self.evs.iter().map(|e| (e.name.clone(), e.ev.clone())).filter(|(n, _)| !pend.contains(n)).collect();
                let fresh: Vec<&(String, SEv)> = pool.iter().filter(|(n, _)| !held.contains(n)).collect();
                let k = st["n"].as_u64().unwrap_or(0) as usize;
                let pick = if !fresh.is_empty() && k % 5 != 0 { fresh[k % fresh.len()].clone() } else if pool.is_empty() { return o } else { pool[k % pool.len()].clone() };
                o["sent"] = json!([pick.0]);
                let kh = self.kh(&p);
                let ev = wire(&pick.1);
                let single = rng.gen_bool(0.6);
                o["via"] = json!(if single { "static" } else { "own" });
                let r = if single { kh.receive_static_event(ev).await.map_err(err) } else { match ev {
                    SEv::Delegated(d) if k % 2 == 0 => kh.receive_delegation(&d).await.map_err(err),
                    SEv::Revoked(r) if k % 2 == 0 => kh.receive_revocation(&r).await.map_err(err),
                    SEv::Delegated(d) => kh.receive_membership_op(&StaticMembershipOperation::Delegation(d)).await.map_err(err),
                    SEv::Revoked(r) => kh.receive_membership_op(&StaticMembershipOperation::Revocation(r)).await.map_err(err),
                    SEv::CgkaOperation(c) => kh.receive_cgka_op(*c).await.map_err(err),
                    SEv::PrekeysExpanded(a) => kh.receive_prekey_op(&Arc::new(*a).into()).await.map_err(err),
                    SEv::PrekeyRotated(a) => kh.receive_prekey_op(&Arc::new(*a).into()).await.map_err(err),
                } };
                r.map(|_| json!("ok"))
            }
            "pcs" => match self.doc(&p, s(st, "on")).await {
                Some(d) => match self.kh(&p).force_pcs_update(d).await {
                    Ok((c, _, _)) => { created.push(self.reg(&SEv::CgkaOperation(Box::new(c)))); Ok(json!("ok")) }
                    Err(e) => Err(err(e)),
                },
                None => Err("Unknown".into()),
            },
            "exp" => {
                let mut r = Ok(json!("ok"));
                for _ in 0..st["times"].as_u64().unwrap_or(1) {
                    match self.kh(&p).expand_prekeys().await {
                        Ok(o) => { created.push(self.reg(&SEv::PrekeysExpanded(Box::new(o.as_ref().clone())))); }
                        Err(e) => { r = Err(err(e)); }
                    }
                }
                r
            }
            "rot" => {
                let cur: Vec<_> = self.prekeys(&p).await;
                let k = cur[st["n"].as_u64().unwrap_or(0) as usize % cur.len()];
                match self.kh(&p).rotate_prekey(k).await {
                    Ok(o) => { created.push(self.reg(&SEv::PrekeyRotated(Box::new(o.as_ref().clone())))); Ok(json!("ok")) }
                    Err(e) => Err(err(e)),
                }
            }
            "rotloop" => {
                // a rotation of a key to itself, signed by its owner; only the others get to see it
                let cur: Vec<_> = self.prekeys(&p).await;
                let k = cur[st["n"].as_u64().unwrap_or(0) as usize % cur.len()];
                let op = self.peers[&p].signer.try_sign_sync(keyhive_core::principal::individual::op::rotate_key::RotateKeyOp { old: k, new: k }).map_err(err);
                match op { Ok(op) => { let n = self.reg(&SEv::PrekeyRotated(Box::new(op))); Ok(json!(n)) } Err(e) => Err(e) }
            }
            "newcard" => {
                // a contact card with a fresh prekey, handed to q
                let q = s(st, "m").to_string();
                match self.kh(&p).contact_card().await {
                    Ok(c) => {
                        let ev: SEv = Ev::from(c.op().dupe()).into();
                        created.push(self.reg(&ev));
                        o["card"] = json!(created[0]);
                        let r = self.kh(&q).receive_contact_card(&wire_card(&c)).await;
                        let em = self.drain(&q).await;
                        let v = self.view(&q).await;
                        extra.push(json!({"op":"gotcard","p":q,"f":p,"card":created[0],"ok":r.is_ok(),"ret":"ok","created":[],"emitted":em,"view":v}));
                        Ok(json!("ok"))
                    }
                    Err(e) => Err(err(e)),
                }
            }
            "enc" => self.do_enc(&p, st, &mut o, &mut created).await,
            "dec" => { let r = self.do_dec(&p).await; o["dec"] = r; Ok(json!("ok")) }
            "tct" => { let r = self.do_tamper_ct(&p, &mut o, rng).await; o["leaks"] = json!(r); Ok(json!("ok")) }
            "causal" => self.do_causal(&p, st, &mut o, rng).await,
            "restore" => self.do_restore(&p, st, &mut o).await,
            "ingarch" => {
                let f = s(st, "f").to_string();
                let ar = self.kh(&f).into_archive().await;
                let w = self.view(&f).await;
                let names: Vec<String> = w["held"].as_array().unwrap().iter()
                    .filter_map(|x| x.as_str().map(String::from))
                    .filter(|n| self.ev(n).map(|e| matches!(e.ev, SEv::Delegated(_) | SEv::Revoked(_) | SEv::PrekeysExpanded(_) | SEv::PrekeyRotated(_))).unwrap_or(false))
                    .collect();
                o["sent"] = json!(names);
                match self.kh(&p).ingest_archive(ar).await {
                    Ok(r) => { let mut st: Vec<String> = r.iter().map(|e| self.reg(e.as_ref())).collect(); st.sort(); Ok(json!(st)) }
                    Err(e) => Err(err(e)),
                }
            }
            "fork" => {
                let f = self.kh(&p).fork_async().await;
                let n = format!("{p}+");
                let log = f.event_listener().clone();
                let ps = PeerS { name: n.clone(), kh: f, signer: self.peers[&p].signer.clone(), log, store: self.peers[&p].store.clone(), drained: 0 };
                self.peers.insert(n.clone(), ps);
                let id = self.who[&p].clone();
                self.who.insert(n.clone(), id);
                let v = self.view(&n).await;
                o["fview"] = v;
                Ok(json!("ok"))
            }
            "merge" => {
                let n = format!("{p}+");
                match self.peers.remove(&n) {
                    None => Err("NoFork".into()),
                    Some(f) => {
                        let fv = { let kh = f.kh.clone(); self.view_kh(&kh).await };
                        o["fview"] = fv;
                        let before = self.view(&p).await;
                        o["before"] = before;
                        let trunk = Arc::new(Mutex::new(self.kh(&p)));
                        if rng.gen_bool(0.5) {
                            trunk.merge_async(f.kh).await;
                        } else {
                            // the same as one transaction whose outcome is the fork
                            let fk = f.kh;
                            transact_async(&trunk, async |_fresh| Ok::<_, String>(fk.clone())).await.expect("the transaction succeeds");
                        }
                        Ok(json!("ok"))
                    }
                }
            }
            "abort" => {
                let n = format!("{p}+");
                match self.peers.remove(&n) {
                    None => Err("NoFork".into()),
                    Some(_) => {
                        // a transaction that fails leaves nothing behind, whatever was done in it
                        let trunk = Arc::new(Mutex::new(self.kh(&p)));
                        let r = transact_async(&trunk, async |fresh| {
                            fresh.expand_prekeys().await.map_err(err)?;
                            fresh.generate_group(vec![]).await.map_err(err)?;
                            Err(String::from("refused"))
                        }).await;
                        if r.is_ok() { return { o["ok"] = json!(false); o["ret"] = json!("NotRefused"); o }; }
                        Ok(json!("ok"))
                    }
                }
            }
            "device" => self.do_device(&p, st, &mut o, rng).await,
            "forge" => self.do_forge(st, &mut o).await,
            "tamper" => self.do_tamper(&p, st, &mut o, rng).await,
            "par" => self.do_par(&p, st, &mut o, &mut created, rng).await,
            "query" => { let r = self.do_query(&p).await; o["q"] = r; Ok(json!("ok")) }
            "cstore" => crate::actions::do_cstore(st, &mut o).await,
            "nop" => Ok(json!("ok")),
            _ => Err(format!("bad op {op}")),
        };
        let mut emitted: Vec<String> = o["emitted"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect();
        emitted.extend(self.drain(&p).await);
        match res {
            Ok(v) => { o["ok"] = json!(true); o["ret"] = v; }
            Err(e) => { o["ok"] = json!(false); o["ret"] = json!(e); }
        }
        o["created"] = json!(created);
        o["emitted"] = json!(emitted);
        if !extra.is_empty() { o["extra"] = json!(extra); }
        o
    }
}

pub async fn run_scenario(sc: &Value) -> Value {
    let peers = strs(sc, "peers");
    let seed = sc["seed"].as_u64().unwrap_or(1);
    let mut w = World::new(&peers, seed).await;
    let mut rng = StdRng::seed_from_u64(seed ^ 0x5eed);
    let mut events = vec![];
    // an outsider: known to everybody, never added by them
    {
        let mut orng = StdRng::seed_from_u64(seed ^ 0x0dd);
        let sk = keyhive_crypto::signer::memory::MemorySigner::generate(&mut orng);
        let z = w.make_peer("z", sk, orng).await;
        w.name_id(z.kh.id().into(), "z", "ind");
        w.who.insert("z".into(), "z".into());
        w.peers.insert("z".into(), z);
        w.drain("z").await;
        w.reg_prekeys("z").await;
    }
    if sc["know"].as_str() != Some("none") {
        let all: Vec<String> = w.peers.keys().cloned().collect();
        // "some": the first knows everybody, the others only who comes next
        let few = sc["know"].as_str() == Some("some");
        let known = |i: usize, j: usize| !few || i == 0 || j == i + 1;
        for (i, p) in all.iter().enumerate() { for (j, q) in all.iter().enumerate() { if p != q && known(i, j) {
            let c = w.kh(q).get_existing_contact_card().await;
            let _ = w.kh(p).receive_contact_card(&wire_card(&c)).await;
        } } }
        for p in &all { w.drain(p).await; }
    }
    let mut inits = peers.clone();
    inits.push("z".into());
    for p in &inits { let v = w.view(p).await; events.push(json!({"op":"init","p":p,"ok":true,"view":v})); }
    for st in sc["steps"].as_array().cloned().unwrap_or_default() {
        let mut st = st;
        let mut p = s(&st, "p").to_string();
        // while a peer has a fork, its own work happens there
        let on_fork = !["fork", "merge", "abort", "init", "forge", "device", "restore", "ingarch"].contains(&s(&st, "op"))
            && !st["trunk"].as_bool().unwrap_or(false) && w.peers.contains_key(&format!("{p}+"));
        if on_fork { p = format!("{p}+"); st["p"] = json!(p); }
        if !w.peers.contains_key(&p) { continue; }
        if ["fork"].contains(&s(&st, "op")) && w.peers.contains_key(&format!("{p}+")) { continue; }
        if ["restore", "ingarch"].contains(&s(&st, "op")) && w.peers.contains_key(&format!("{p}+")) { continue; }
        if ["merge", "abort"].contains(&s(&st, "op")) && !w.peers.contains_key(&format!("{p}+")) { continue; }
        let r = tokio::time::timeout(Duration::from_secs(20), AssertUnwindSafe(async {
            let mut o = w.step(&st, &mut rng).await;
            if !o["hang"].as_bool().unwrap_or(false) { o["view"] = w.view(&p).await; }
            o
        }).catch_unwind()).await;
        match r {
            Ok(Ok(o)) => {
                if s(&o, "op") == "forge" {
                    // a forged event and its deliveries
                    for e in o["deliveries"].as_array().cloned().unwrap_or_default() { events.push(e); }
                } else {
                    let mut o = o;
                    let ex = o.as_object_mut().unwrap().remove("extra");
                    let stop = o.get("hang").is_some();
                    events.push(o);
                    if stop { break; }
                    for e in ex.and_then(|x| x.as_array().cloned()).unwrap_or_default() { events.push(e); }
                }
            }
            Ok(Err(_)) => { let mut o = st.clone(); o["ok"] = json!(false); o["panic"] = json!(true); o["ret"] = json!("PANIC"); events.push(o); break; }
            Err(_) => { let mut o = st.clone(); o["ok"] = json!(false); o["hang"] = json!(true); o["ret"]=json!("HANG"); events.push(o); break; }
        }
    }
    let mut names: Vec<String> = peers.clone();
    for e in &events { let p = s(e, "p").to_string(); if !names.contains(&p) { names.push(p); } if e["op"] == "fork" { let f = format!("{}+", s(e, "p")); if !names.contains(&f) { names.push(f); } } }
    json!({"id": sc["id"], "peers": names, "who": w.who, "table": w.table(), "cts": w.cts_table(), "kinds": w.kind, "events": events})
}

pub fn main(args: &[String]) {
    std::panic::set_hook(Box::new(|i| { if std::env::var("KH_PANICS").is_ok() { eprintln!("{i}") } }));
    let txt = std::fs::read_to_string(&args[0]).expect("scenario file");
    let lines: Vec<String> = txt.lines().filter(|l| !l.trim().is_empty()).map(String::from).collect();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let progress: Option<std::sync::Mutex<std::fs::File>> = args.get(1).map(|f| std::sync::Mutex::new(std::fs::File::create(f).expect("progress file")));
    let note = |w: &str, i: usize| { if let Some(p) = &progress { use std::io::Write; let _ = writeln!(p.lock().unwrap(), "{w} {i}"); } };
    let out: std::sync::Mutex<BTreeMap<usize, String>> = std::sync::Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for _ in 0..n {
            sc.spawn(|| {
                let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= lines.len() { break; }
                    let v: Value = serde_json::from_str(&lines[i]).unwrap();
                    note("start", i);
                    let r = rt.block_on(run_scenario(&v));
                    note("done", i);
                    out.lock().unwrap().insert(i, r.to_string());
                }
            });
        }
    });
    for (_, l) in out.into_inner().unwrap() { println!("{l}"); }
}

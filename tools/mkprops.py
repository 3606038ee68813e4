#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
K="keyhive_core/src/keyhive.rs"; G="keyhive_core/src/principal/group.rs"; GS="keyhive_core/src/principal/group/state.rs"
MO="keyhive_core/src/principal/group/membership_operation.rs"; DOC="keyhive_core/src/principal/document.rs"
CG="beekem/src/cgka.rs"; TR="beekem/src/tree.rs"; OPS="beekem/src/operation.rs"; IND="keyhive_core/src/principal/individual.rs"
INS="keyhive_core/src/principal/individual/state.rs"; ACT="keyhive_core/src/principal/active.rs"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("P01","Membership converges regardless of delivery order",
 "Any two peers that have accepted the same set of delegations and revocations report the same direct members with the same delegations, the same effective access, the same transitive members and the same revoked members for every group and document. The order, batching, duplication and interleaving with local operations through which they received those operations makes no difference.",
 ["schedules","histories"],"all membership histories with concurrent additions and revocations and all delivery schedules between peers",
 "Unit tests deliver one or two hand-picked orders; convergence is about every permutation and batching of every history.",
 [G,GS,MO,K],[("Group::rebuild replays a deterministic topological order",G),("MembershipOperation::reverse_topsort",MO),("delegation/revocation heads maintenance",GS)],
 [("held operations","accepted delegations and revocations","keyhive.rs delegations/revocations stores")],["Keyhive::ingest_unsorted_static_events","members()","transitive_members()","revoked_members()"])
prop("P02","No membership without an unbroken authority chain",
 "Every member a peer reports for a group or document holds a delegation that the peer has accepted, issued either by the group's own key or by someone holding (directly, or through membership of a group that holds it) at least the delegated access, through a chain of such delegations that starts at the group's own key. No identity outside such a chain is ever reported as a member or given transitive access, whatever events the peer is fed.",
 ["histories","inputs"],"all histories of honest and adversarial membership operations, at every peer after every step",
 "Tests assert that particular members are present; absence of any unauthorised member has to hold over all histories.",
 [G,GS,K],[("proof-chain validation on receipt",GS),("replay that drops unproven delegations",G)],None,["members()","get_capability()","transitive_members()"])
prop("P03","Transitive access is exactly the best path",
 "The access a group or document reports for a transitive member equals the maximum, over all membership paths to that member, of the minimum access along the path, and exactly the identities reachable by some path are reported. In particular nobody gains more access through nesting than the weakest link of their best path, in the presence of diamonds and cycles, and the group itself is never listed.",
 ["histories","configurations"],"all nested group graphs (diamonds, cycles, several delegations per member) and access levels",
 "Tests use two or three fixed nesting shapes; the defect classes live in graph shapes (diamonds, cycles, multiple delegations) that they do not build.",
 [G,"keyhive_core/src/principal/membered.rs",K],[("Group::transitive_members",G),("Keyhive::reachable_docs / docs_reachable_by_agent",K)],None,["transitive_members()","reachable_docs()"])
prop("P04","Revocation takes effect, cascades, and harms nobody else",
 "Once a peer has accepted a valid revocation, the revoked delegation and every delegation whose authority depends solely on it no longer confer membership or access. Delegations that do not depend on the revoked one, and members who keep another valid delegation or were explicitly retained or re-added, keep exactly the access they had.",
 ["histories"],"all delegation trees, revocations at any position, with and without retaining others, re-additions and multiple delegations per member",
 "Tests check single revocations in one fixed tree; the cascade and the no-collateral clause range over all trees and re-additions.",
 [G,MO],[("Group::rebuild cascade over dependents",G),("Group::revoke_member (retain)",G)],None,["members()","revoked_members()","Keyhive::revoke_member"])
prop("P05","Only someone with authority can revoke",
 "A revocation takes effect only if it is issued by the group's own key, by the issuer or a holder of the revoked delegation or of one it descends from, or by someone with sufficient access through a group that holds such authority; the delegations it cites must belong to the same group. Anything else is refused, locally with an error and on receipt by not being applied, and changes no peer's membership.",
 ["histories","inputs"],"all local revoke calls by any member or outsider and all received revocations with any issuer and any cited proof",
 "Tests only revoke as an authorised admin; forged or unentitled revocations are never attempted.",
 [G,GS,K],[("GroupState::add_revocation proof checks",GS),("Group::revoke_member proof search",G)],None,["Keyhive::revoke_member","Keyhive::receive_static_event"])
prop("P06","Access can never be escalated by delegation",
 "Nobody can grant more access than they hold: a local attempt to add a member with more access than the caller has (directly or through groups), or without any access, fails, and a received delegation that claims more than its proof, or whose issuer does not hold its proof, is not applied at any peer. Adding with at most the caller's own access succeeds.",
 ["histories","inputs"],"all callers, access levels and proof chains, locally and in received events",
 "Tests try a couple of escalations in fixed setups; the rule must hold for all pairs of held/requested access through all proof chains.",
 [G,GS,"keyhive_core/src/access.rs"],[("Group::add_member access check",G),("GroupState::add_delegation escalation check",GS)],None,["Keyhive::add_member","Keyhive::receive_static_event"])
prop("P07","Concurrent revocations resolve the same way everywhere",
 "When revocations that were issued concurrently conflict or overlap (for instance admins revoking each other, or someone whose own revocations are still travelling being revoked), every peer resolves them identically, whatever order they arrived in. A revocation whose issuer's authority is removed by a revocation that precedes it in the common order is void and takes nobody's membership away, while all revocations whose authority is unaffected take effect. The result depends only on the set of operations, never on the receiving peer.",
 ["schedules","histories"],"all sets of concurrent, conflicting or overlapping revocations at all depths and all delivery orders",
 "One unit test covers one mutual-revocation shape in one order; the rule ranges over depths, digests and delivery schedules.",
 [MO,G],[("reverse_topsort distance/digest ordering",MO),("rebuild voids revocations whose proof was revoked",G)],None,["members()","revoked_members()"])
prop("P08","Out-of-order events are held and later applied",
 "Events may arrive in any order and any batches: an event whose prerequisites are missing is kept as pending, never lost and never applied early, and is applied as soon as its prerequisites arrive. Once everything has been delivered nothing is pending and the peer's state is the same as if the events had come in causal order.",
 ["schedules"],"all permutations, partitions into batches and prefixes of valid histories, including encryption-membership and prekey events",
 "Tests ingest complete batches; partial deliveries in arbitrary order are a schedule quantifier.",
 [K,GS,DOC,CG,"keyhive_core/src/error/missing_dependency.rs"],[("Keyhive::ingest_unsorted_static_events pending loop",K),("pending CGKA operations",CG),("is_missing_dependency classification",K)],None,["ingest_unsorted_static_events","pending_event_hashes"])
prop("P09","Receiving known events again changes nothing",
 "Delivering any event a peer already has, alone or in any batch, any number of times, succeeds without changing any observable part of that peer's state, including membership, encryption state, prekeys and pending events.",
 ["schedules","histories"],"all duplicated deliveries at any point in any history",
 "Tests re-ingest once in simple states; duplication at arbitrary points of arbitrary histories is not sampled.",
 [K,GS,DOC,CG,INS],[("content-addressed stores and already-known checks",K),("Cgka::merge_concurrent_operation duplicate check",CG)],None,["ingest_unsorted_static_events","receive_static_event"])
prop("P10","Tampered or forged events are rejected without effect",
 "An event whose content, claimed author or signature was altered is never applied: no membership, prekey or encryption-membership state changes at the receiving peer, and later delivery of the genuine event still works. This holds for every kind of event, including the first one seen from an unknown author and contact cards.",
 ["inputs","fault_sequences"],"every kind of event with every kind of alteration (payload, issuer, signature), at any point of any history",
 "Tests verify signatures of isolated values; rejection inside the ingestion paths for each event kind and state is untested.",
 [K,"keyhive_crypto/src/signed.rs",INS,"keyhive_core/src/contact_card.rs"],[("Signed::try_verify at each receive path",K),("PrekeyState::insert_op verification",INS)],None,["receive_static_event","ingest_unsorted_static_events","receive_contact_card"])
prop("P11","Sync sends everything the other peer is entitled to",
 "After a peer has ingested all events another peer offers for it, it has the same view of every group and document it is a (transitive) member of: same members, same access, same encryption group, with no event left pending. The offered events never include operations of groups or documents that the receiving peer has no membership path to or past membership in.",
 ["histories","configurations"],"all histories with nested groups, revocations and documents, and all pairs of peers",
 "Tests sync a single flat document; nested groups with revocations inside them are not exercised end to end.",
 [K],[("Keyhive::events_for_agent / membership_ops_for_agent / cgka_ops_reachable_by_agent / reachable_prekey_ops_for_agent",K)],None,["static_events_for_agent","ingest_unsorted_static_events"])
prop("P12","Bulk sync queries agree with per-agent queries",
 "For every agent, the events obtained from the all-agents queries for membership, prekey and encryption-group operations are exactly the ones obtained from the corresponding per-agent query.",
 ["histories","configurations"],"all states reached by any history, for every known agent",
 "Tests compare a couple of small states; the two query families are separate implementations over the same graphs.",
 [K],[("membership_ops_for_all_agents, reachable_prekey_ops_for_all_agents, cgka_ops_for_all_agents",K)],None,["*_for_all_agents vs *_for_agent"])
prop("P13","Archive and restore lose nothing",
 "Restoring a peer from its archive (and its own prekey secrets, signer and pending events) yields a peer with the same observable state: the same members, access, encryption state, prekeys and known operations. Whatever it can do or later receives leads to the same results as on the original, including decrypting content it could decrypt before.",
 ["histories","crash_points"],"archive and restore at any point of any history, followed by any continuation",
 "Tests round-trip one small state and compare counts; behaviour after restore from arbitrary states is not covered.",
 ["keyhive_core/src/archive.rs",K,DOC,"keyhive_core/src/principal/active/archive.rs","keyhive_core/src/principal/group/state/archive.rs"],[("Keyhive::into_archive / try_from_archive",K)],None,["into_archive","try_from_archive"])
prop("P14","Merging an archive equals receiving its events",
 "Ingesting another archive into a running peer gives the same observable state as receiving all the membership and prekey operations contained in it, keeps everything the peer already knew, and can be repeated without effect.",
 ["histories","schedules"],"all pairs of states (own devices that diverged, stale archives, newer archives) and repeated ingestion",
 "One unit test ingests one archive; the union semantics ranges over pairs of divergent states.",
 [K,"keyhive_core/src/archive.rs",INS],[("Keyhive::ingest_archive",K),("merge of prekey state",INS)],None,["ingest_archive"])
prop("P15","Forks are isolated and merging loses nothing",
 "Work done on a fork of a membership or prekey store, document encryption state or identity is invisible to the original until merged, and after merging the original has exactly what it had plus what the fork added, as if the operations had been done on it directly. A failed transaction leaves the original untouched.",
 ["histories","crash_points"],"all interleavings of operations on original and fork, merges in any order, and failing transactions",
 "Fork/merge tests use trivial contents; isolation and union over interleaved work are not covered.",
 ["keyhive_core/src/transact.rs","keyhive_core/src/transact/fork.rs","keyhive_core/src/transact/merge.rs",CG,ACT,IND],[("Fork/Merge implementations",CG),("transact_async / transact_blocking",  "keyhive_core/src/transact.rs")],None,["transact_*","Cgka::fork/merge"])
prop("P16","The encryption group is exactly the set of readers",
 "After any sequence of additions and revocations by peers that know the current state, a document's encryption group consists of exactly the individuals that (directly or through groups) have at least read access to it (besides the document's own founding key). Adding someone with read access, directly or to a nested group, includes them; revoking them or the group through which they had access excludes everyone who lost read access and nobody else.",
 ["histories","configurations"],"all membership histories over documents and nested groups with all access levels",
 "Tests check one or two add/revoke steps on fixed shapes; equality of the two memberships must hold after every step of every history.",
 [K,DOC,G,CG],[("Keyhive::add_member / revoke_member propagation",K),("Document::add_member / revoke_member",DOC)],None,["Cgka group size and membership","transitive_members()"])
prop("P17","Readers can decrypt",
 "Content encrypted to a document by a current member can be decrypted to exactly the original bytes by every individual who has read access at that point once they have received the same events, whatever concurrent additions, removals and key updates happened before. Later membership changes and key rotations do not take away a remaining member's ability to decrypt earlier content encrypted while they were a member.",
 ["histories","schedules"],"all histories of concurrent membership changes, key updates and encryptions by several peers, with all delivery orders",
 "Tests encrypt in two- or three-step sequences; concurrency of tree operations and later decryption are not explored.",
 [DOC,CG,TR,"beekem/src/encrypted.rs"],[("Document::try_encrypt_content / try_decrypt_content",DOC),("Cgka secret derivation and historical rebuild",CG)],None,["try_encrypt_content","try_decrypt_content"])
prop("P18","Non-readers cannot decrypt",
 "An individual that is not a reader when content is encrypted (never added, added below read access, or removed before, with the removal known to the encryptor) cannot decrypt that content, even with all events delivered to them and all key material they ever had.",
 ["histories","schedules"],"all histories in which readers are added, demoted and removed, and every non-reader's attempts afterwards",
 "Negative guarantees need every non-reader tried after every history; tests try one removed member once.",
 [DOC,CG,TR,K],[("blank removed path and new PCS key",TR),("Keyhive::revoke_member",K)],None,["try_decrypt_content by removed member"])
prop("P19","Encryption group replicas converge and agree on keys",
 "Replicas of a document's encryption group that have processed the same additions, removals and key updates, in any causally valid order and with any concurrency, have the same members, and all members derive the same current group key, which each of them can derive. A replica's derived key equals the one used by whoever encrypts at the same set of operations.",
 ["schedules","histories"],"all concurrent histories of the tree-based key agreement over several replicas and all causal delivery orders",
 "Tests run fixed concurrent scenarios; the merge must be confluent over all orders.",
 [CG,TR,OPS,"beekem/src/keys.rs"],[("Cgka::merge_concurrent_operation / replay_ops_graph",CG),("topological ordering into epochs",OPS),("conflict keys at merged nodes",TR)],None,["Cgka::secret / pcs key hash","group_size"])
prop("P20","Causal decryption yields exactly the reachable history",
 "Decrypting a piece of content causally returns the plaintext of exactly that content and of all its causal ancestors whose ciphertext is available through available ones, each with its original bytes. Ancestors that are missing or cannot be decrypted are reported and never cause wrong, duplicated or fabricated results or loss of the others.",
 ["inputs","fault_sequences"],"all causal graphs of encrypted content, all subsets of missing or corrupted ciphertexts",
 "Tests use one three-node chain; DAG shapes and missing ciphertexts are not enumerated.",
 ["keyhive_core/src/store/ciphertext.rs","keyhive_core/src/store/ciphertext/memory.rs",DOC,"keyhive_core/src/crypto/envelope.rs"],[("CiphertextStoreExt::try_causal_decrypt",  "keyhive_core/src/store/ciphertext.rs"),("Document::try_causal_decrypt_content",DOC)],None,["try_causal_decrypt_content"])
prop("P21","Prekey sets converge and follow their owner's operations",
 "The set of current prekeys a peer attributes to an individual is exactly those the individual has published and not rotated away, according to the validly signed operations received, in whatever order and however often they arrive. Only operations signed by that individual ever influence the set, and a chosen prekey always comes from the current set.",
 ["schedules","inputs"],"all histories of expansions and rotations, orders, duplicates and foreign or forged operations",
 "Tests rotate once or twice in order; the CRDT property is over orders and concurrent rotations.",
 [INS,IND,ACT,K],[("PrekeyState::insert_op / rebuild / materialize",INS),("Keyhive::receive_prekey_op",K)],None,["prekey_ops()","pick_prekey()"])
prop("P22","Prekey secrets match published prekeys and survive transfer",
 "A peer holds the secret for every prekey it has published, including rotated ones, so that additions made with any of its published prekeys are usable by it. Exporting prekey secrets and importing them into another device of the same identity transfers them all without dropping what that device already has, and invalid data changes nothing.",
 ["histories","inputs"],"all sequences of expansion, rotation, export and import, with documents shared at any point",
 "Tests export/import one state; interplay with rotation and being added with older prekeys is untested.",
 [ACT,K],[("Active::rotate_prekey / expand_prekeys",ACT),("Keyhive::export_prekey_secrets / import_prekey_secrets",K)],None,["export_prekey_secrets","import_prekey_secrets","decryption after being added"])
prop("P23","Refused operations leave no trace",
 "Any operation that returns an error (unauthorised addition or revocation, undecryptable content, invalid or premature event) leaves every observable part of the peer's state as it was, apart from the peer remembering a premature event as pending. Operations always return, with an error rather than a crash.",
 ["histories","inputs","fault_sequences"],"all failing calls at any point of any history",
 "Tests check that an error is returned but not that the state before and after is the same.",
 [K,G,GS,DOC],[("check-then-apply in add_delegation / add_revocation",GS),("Document::add_member / revoke_member error paths",DOC)],None,["all fallible calls"])
prop("P24","Ciphertexts are bound to their document, content and key",
 "A ciphertext decrypts only as exactly what was encrypted: if its ciphertext bytes, nonce, key reference, content reference, predecessor references or document are altered, or it is offered to another document, decryption fails rather than returning any plaintext. Encrypting twice never yields ciphertext that decrypts to the other's plaintext.",
 ["inputs","fault_sequences"],"all encrypted contents and all single-field alterations or swaps between contents and documents",
 "Tests do not tamper with ciphertexts at document level.",
 ["beekem/src/encrypted.rs","beekem/src/pcs_key.rs",DOC,CG,"keyhive_crypto/src/siv.rs","keyhive_crypto/src/symmetric_key.rs"],[("Siv nonce and application secret derivation","beekem/src/pcs_key.rs"),("EncryptedContent::try_decrypt","beekem/src/encrypted.rs")],None,["try_decrypt_content"])
prop("P25","Public access works exactly while granted",
 "While the public identity is a member with read access, directly or through a group, anyone holding the events can decrypt the document's content, and the events offered to the public identity suffice for that. Without such a grant nobody outside the members can, and after the public identity is revoked, newly encrypted content is closed to outsiders again.",
 ["histories"],"all histories of granting and revoking public access, including through nested groups",
 "Tests check a single grant; revocation and nested grants are not explored.",
 ["keyhive_core/src/principal/public.rs",K,G,DOC],[("Public well-known key",  "keyhive_core/src/principal/public.rs"),("pick_individual_prekeys special case",G)],None,["docs_reachable_by_agent","try_decrypt_content"])
prop("P26","Every locally created event is announced and sufficient",
 "Every delegation, revocation, prekey and encryption-group operation that a local action creates is announced to the registered listener. A second peer fed only with the announced events reaches the same membership and encryption state.",
 ["histories"],"all sequences of local operations, interleaved with received events",
 "Tests count events for single calls; completeness has to hold for all calls and their combinations.",
 [K,G,DOC,ACT,"keyhive_core/src/listener/membership.rs","keyhive_core/src/listener/log.rs"],[("MembershipListener / PrekeyListener / CgkaListener callbacks",K)],None,["Listener callbacks"])
prop("P27","Reachability queries agree with membership",
 "The documents an agent is reported to reach, the agents reported to reach a document, and a document's transitive members describe one and the same relation with the same access levels, and that relation is the one given by the current membership.",
 ["histories","configurations"],"all membership states, all agents and documents",
 "Tests query single fixed states; the queries are separate implementations that must be mutual inverses.",
 [K,G],[("reachable_docs, reachable_members, docs_reachable_by_agent, membered_reachable_by_agent",K)],None,["reachable_docs","reachable_members","docs_reachable_by_agent","membered_reachable_by_agent"])
prop("P28","Cyclic and deep group graphs never hang or crash a peer",
 "Whatever shape the membership graph takes, including groups that contain each other, groups that contain themselves and deep nesting, every query and every operation returns in bounded time without deadlock or crash.",
 ["configurations","histories"],"all group graphs with cycles and all operations on them",
 "One unit test builds one cycle; deadlock depends on the particular cycle and operation.",
 [G,K,MO,GS],[("visited sets in transitive traversals",G),("lock discipline on Arc<Mutex<Group>>",K)],None,["all operations with timeout"])
prop("P29","Overlapping calls on one peer neither deadlock nor lose anything",
 "A peer may be used by several tasks at once: deliveries, queries, membership changes, key updates, encryptions and creations that overlap on the same peer, switching between them wherever one waits for a lock, all return. Whatever each of them made or received is held or still awaited afterwards, and everything made is announced. The resulting state is the one determined by the operations held, as if they had arrived one after another.",
 ["schedules","histories"],"all interleavings, at every lock acquisition, of two or three calls on one peer, after any history",
 "Tests call one function after another; lost updates and lock-order deadlocks need a particular interleaving of awaits.",
 [K,G,"keyhive_core/src/principal/membered.rs"],[("find-or-create of groups and documents in receive_delegation",K),("pending events merged after a stuck ingest",K),("lock order of active, groups, docs, individuals, group, document",K)],[("pending_events","events waiting for their dependencies",K)],["ingest_unsorted_static_events","all public calls, polled by a scheduler"])
prop("P30","The statistics count what a peer holds and waits for",
 "At every moment the statistics a peer reports equal the numbers of individuals, groups, documents, delegations, revocations, prekey operations and encryption group operations it holds. The pending counts equal the numbers of events of each kind that are still waiting for dependencies, in total and of those authored by the peer itself.",
 ["histories","schedules"],"all histories of calls and of complete and partial deliveries, restores included",
 "Tests look at the statistics of one or two fixed states; the counters are derived from separate stores that can get out of step.",
 [K,"keyhive_core/src/stats.rs"],[("Keyhive::stats",K)],None,["Keyhive::stats"])
prop("P31","One event and one identity, however they are looked up",
 "Every event a peer holds can be converted to the form in which it is kept and back, sent as bytes and received, and found by its hash, and it is the same event with the same hash each time; the events offered for an agent are listed under exactly these hashes, and are exactly its membership, prekey and encryption group operations. Looking up an identifier as an agent, a peer, an individual, a group or a document always gives one and the same principal, of the one kind it has, and nothing if it is unknown. What a peer signs verifies under its own identity and, altered, does not.",
 ["histories","inputs"],"all events and identifiers known to any peer at any point of any history",
 "Tests look up a handful of identifiers and round-trip a few events; the lookups and conversions are separate pieces of code over separate stores that must agree on everything.",
 [K,"keyhive_core/src/event.rs","keyhive_core/src/event/static_event.rs","keyhive_crypto/src/signed.rs","keyhive_core/src/contact_card.rs"],
 [("static_event_to_event and From<Event> for StaticEvent",K),("events_for_agent, static_events_for_agent, get_membership_operation",K),("get_agent, get_peer, get_individual, get_group, get_document",K)],None,
 ["static_event_to_event","static_events_for_agent","get_membership_operation","get_agent","get_peer","try_sign"])
prop("P32","The ciphertext store finds what was put in and nothing else",
 "After any sequence of insertions, removals and marks as decrypted, looking up a content in the in-memory ciphertext store gives a largest of the ciphertexts of that content that were put in and not removed or marked since, and nothing if there is none. Looking up an encryption group update gives exactly the stored ciphertexts encrypted under that update, each once. Removing answers whether there was something to remove.",
 ["histories","inputs"],"all sequences of calls on the store, including several ciphertexts of one content under one or several updates",
 "Tests insert a ciphertext or two and look them up; the indexes only get out of step after particular removals.",
 ["keyhive_core/src/store/ciphertext/memory.rs","keyhive_core/src/store/ciphertext.rs"],
 [("MemoryCiphertextStore::insert, remove, remove_all, get_by_content_ref, get_by_pcs_update","keyhive_core/src/store/ciphertext/memory.rs")],
 [("ops_to_refs, refs_to_digests, store","two indexes and the ciphertexts","keyhive_core/src/store/ciphertext/memory.rs")],["get_ciphertext","get_ciphertext_by_pcs_update","remove","remove_all","mark_decrypted"])
with open(os.path.join(HERE,"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
if __name__=="__main__":
    import re
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        n=len([x for x in re.split(r'[.!?](?:\s|$)',p["statement"]) if x.strip()])
        assert n<=3,(p["id"],n)
    print(len(P))

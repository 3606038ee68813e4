From df75ebcb3c225c6c18633779d482c1ce52e741a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:36 +0000
Subject: [PATCH 01/56] fix: transitive access is the best path's weakest link
 (no escalation through diamonds)

---
 keyhive_core/src/principal/group.rs | 60 +++++++----------------------
 1 file changed, 14 insertions(+), 46 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 069d18c..073da37 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -269,79 +269,47 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        struct GroupAccess<
-            G: FutureForm,
-            Z: AsyncSigner<G>,
-            U: ContentRef,
-            M: MembershipListener<G, Z, U>,
-        > {
-            agent: Agent<G, Z, U, M>,
-            agent_access: Access,
-            parent_access: Access,
-        }
-
-        let mut explore: Vec<GroupAccess<F, S, T, L>> = vec![];
-        let mut seen: HashSet<([u8; 64], Access)> = HashSet::new();
+        let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
         for member in self.members.keys() {
             let dlg = self
                 .get_capability(member)
                 .expect("members have capabilities by defintion");
 
-            seen.insert((dlg.signature.to_bytes(), Access::Admin));
-
-            explore.push(GroupAccess {
-                agent: dlg.payload.delegate.clone(),
-                agent_access: dlg.payload.can,
-                parent_access: Access::Admin,
-            });
+            explore.push((dlg.payload.delegate.dupe(), dlg.payload.can));
         }
 
         let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
 
-        while let Some(GroupAccess {
-            agent: member,
-            agent_access: access,
-            parent_access,
-        }) = explore.pop()
-        {
+        // A path grants the weakest access along it; a member gets their best path.
+        while let Some((member, path_access)) = explore.pop() {
             let id = member.id();
             if id == self.id() {
                 continue;
             }
 
-            let best_access = *caps
-                .get(&id)
-                .map(|(_, existing_access)| existing_access.max(&access))
-                .unwrap_or(&access);
+            // Only (re)visit when this path improves on what is already known.
+            if caps.get(&id).is_some_and(|(_, known)| *known >= path_access) {
+                continue;
+            }
 
-            let current_path_access = access.min(parent_access);
-            caps.insert(member.id(), (member.dupe(), current_path_access));
+            caps.insert(id, (member.dupe(), path_access));
 
             if let Some(membered) = match member {
                 Agent::Group(id, inner_group) => Some(Membered::Group(id, inner_group.dupe())),
                 Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),
                 _ => None,
             } {
-                for (mem_id, dlgs) in membered.members().await.iter() {
+                for mem_id in membered.members().await.keys() {
                     let dlg = membered
                         .get_capability(mem_id)
                         .await
                         .expect("members have capabilities by defintion");
 
-                    caps.insert(*mem_id, (dlg.payload.delegate.dupe(), best_access));
-
-                    'inner: for sub_dlg in dlgs.iter() {
-                        if !seen.insert((sub_dlg.signature.to_bytes(), dlg.payload.can)) {
-                            continue 'inner;
-                        }
-
-                        explore.push(GroupAccess {
-                            agent: sub_dlg.payload.delegate.dupe(),
-                            agent_access: sub_dlg.payload.can,
-                            parent_access: best_access,
-                        });
-                    }
+                    explore.push((
+                        dlg.payload.delegate.dupe(),
+                        path_access.min(dlg.payload.can),
+                    ));
                 }
             }
         }
-- 
2.43.0


From dc727d0b25a2cfb6c9d6a475d37da64c7f281444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 02/56] fix: retaining other members redelegates everyone the
 revocation cascades to

---
 keyhive_core/src/principal/group.rs | 32 ++++++++++++++++-------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 073da37..ec24f84 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -668,20 +668,24 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     continue;
                 }
 
-                if let Some(proof) = &dlg.payload.proof {
-                    if proof.payload.delegate.id() == member_to_remove {
-                        let update = self
-                            .add_member_with_manual_content(
-                                dlg.payload.delegate.dupe(),
-                                dlg.payload.can,
-                                signer,
-                                after_content.clone(),
-                            )
-                            .await?;
-
-                        cgka_ops.extend(update.cgka_ops);
-                        redelegations.push(update.delegation);
-                    }
+                // Redelegate whatever the revocation took down, directly or by cascade
+                let still_active = self
+                    .members
+                    .get(&dlg.payload.delegate.id())
+                    .is_some_and(|active| active.contains(dlg));
+
+                if !still_active {
+                    let update = self
+                        .add_member_with_manual_content(
+                            dlg.payload.delegate.dupe(),
+                            dlg.payload.can,
+                            signer,
+                            after_content.clone(),
+                        )
+                        .await?;
+
+                    cgka_ops.extend(update.cgka_ops);
+                    redelegations.push(update.delegation);
                 }
             }
         }
-- 
2.43.0


From 293a3a76fe692eba7998bec45bb968d0e35d00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:15 +0000
Subject: [PATCH 03/56] fix: a delegation survives its proof's revocation only
 if the proof's holder has another one

---
 keyhive_core/src/principal/group.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index ec24f84..741e603 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -753,16 +753,25 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if revoked_dlgs.contains(&found_proof.signature.to_bytes())
                             || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
                         {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if alt_proofs.iter().filter(|d| *d != found_proof).all(
-                                    |alt_proof| alt_proof.payload.can < found_proof.payload.can,
-                                ) {
-                                    // No suitable proofs
-                                    continue;
-                                }
-                            } else if found_proof.issuer != self.verifying_key() {
+                            let Some(alt_proof) = self
+                                .members
+                                .get(&found_proof.payload.delegate.id())
+                                .and_then(|alts| {
+                                    alts.iter().find(|alt| {
+                                        *alt != found_proof
+                                            && alt.payload.can >= found_proof.payload.can
+                                    })
+                                })
+                            else {
+                                // No suitable proofs
                                 continue;
-                            }
+                            };
+
+                            // This delegation now stands on the alternative proof
+                            reverse_dlg_dep_map
+                                .entry(alt_proof.signature.to_bytes())
+                                .or_default()
+                                .insert(d.signature.to_bytes());
                         }
                     } else if d.issuer != self.verifying_key() {
                         debug_assert!(false, "Delegation without valid root proof");
-- 
2.43.0


From cb9bcb8dd2d58ee4093beefc6e9923bfac3bd013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 04/56] fix: cascading revocation also removes dependents from
 the membership

---
 keyhive_core/src/principal/group.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 741e603..160e8d4 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -828,8 +828,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             for dlg_sig in dlg_sigs_to_revoke.iter() {
                                 revoked_dlgs.insert(*dlg_sig);
 
-                                if let Some(dep_dlg) = dlgs_in_play.remove(dlg_sig) {
-                                    next_to_revoke.push(dep_dlg.signature.to_bytes());
+                                if dlgs_in_play.contains_key(dlg_sig) {
+                                    next_to_revoke.push(*dlg_sig);
                                 }
                             }
                         }
-- 
2.43.0


From 02fabc632ba4666b442274c8114bebc2e5a855a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 05/56] fix: a revocation is void once the authority it was
 issued under is revoked

---
 keyhive_core/src/principal/group.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 160e8d4..59a19d2 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -796,13 +796,23 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if revoked_dlgs.contains(&found_proof.signature.to_bytes())
                             || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
                         {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
-                                if !alt_proofs
-                                    .iter()
-                                    .any(|p| p.payload.can >= found_proof.payload.can)
-                                {
-                                    continue;
-                                }
+                            // The revoker acts either as the issuer of the proof
+                            // or as (a member of) its holder.
+                            let authority = if found_proof.issuer == r.issuer {
+                                r.issuer.into()
+                            } else {
+                                found_proof.payload.delegate.id()
+                            };
+
+                            let still_authorized = authority == self.id()
+                                || self.members.get(&authority).is_some_and(|alt_proofs| {
+                                    alt_proofs
+                                        .iter()
+                                        .any(|p| p.payload.can >= found_proof.payload.can)
+                                });
+
+                            if !still_authorized {
+                                continue;
                             }
                         }
                     } else if r.issuer != self.verifying_key() {
-- 
2.43.0


From 20afcfbd8bfe3779b456580c000bc8735141be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 06/56] fix: ordering of membership operations is acyclic and
 independent of map order

---
 .../principal/group/membership_operation.rs   | 57 +++++++++++++------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index e376790..729a2f8 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -23,7 +23,7 @@ use keyhive_crypto::{
 };
 use serde::{Deserialize, Serialize};
 use std::{
-    collections::{BTreeMap, HashMap},
+    collections::{BTreeMap, BTreeSet, HashMap},
     hash::Hash,
     sync::Arc,
 };
@@ -251,9 +251,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        // revoked delegation signature -> revocation digest
-        let mut revoked_dependencies: HashMap<Key, Digest<MembershipOperation<F, S, T, L>>> =
-            HashMap::new();
+        // revoked delegation signature -> revocation digests
+        let mut revoked_dependencies: HashMap<
+            Key,
+            BTreeSet<Digest<MembershipOperation<F, S, T, L>>>,
+        > = HashMap::new();
 
         let mut explore: Vec<MembershipOperation<F, S, T, L>> = vec![];
 
@@ -280,7 +282,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             let parent_digests: Vec<_> = parents.iter().map(|p| p.digest()).collect();
 
             if let MembershipOperation::Revocation(r) = &op {
-                revoked_dependencies.insert((*r.payload.revoke.signature()).into(), digest);
+                revoked_dependencies
+                    .entry((*r.payload.revoke.signature()).into())
+                    .or_default()
+                    .insert(digest);
             }
 
             all_ops.insert(digest, (op, parent_digests));
@@ -361,20 +366,40 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         .push(*parent_digest);
                 }
             }
+        }
 
-            if let MembershipOperation::Delegation(d) = op {
-                if let Some(proof) = &d.payload.proof {
-                    if let Some(revoked_digest) = revoked_dependencies.get(&Key(proof.signature)) {
-                        if let Some((revoked_op, _)) = all_ops.get(revoked_digest) {
-                            adjacencies
-                                .add_dependency((*digest, op), (*revoked_digest, revoked_op));
-                            successors_of
-                                .entry(*digest)
-                                .or_default()
-                                .push(*revoked_digest);
-                        }
+        // A delegation comes after every revocation of its proof, except for
+        // revocations that (transitively) depend on that same delegation.
+        for (digest, (op, _)) in all_ops.iter() {
+            let MembershipOperation::Delegation(d) = op else {
+                continue;
+            };
+            let Some(revoked_digests) = d
+                .payload
+                .proof
+                .as_ref()
+                .and_then(|proof| revoked_dependencies.get(&Key(proof.signature)))
+            else {
+                continue;
+            };
+            for revoked_digest in revoked_digests {
+                let mut reachable = HashSet::new();
+                let mut explore = vec![*revoked_digest];
+                while let Some(next) = explore.pop() {
+                    if reachable.insert(next) {
+                        explore.extend(successors_of.get(&next).into_iter().flatten().copied());
                     }
                 }
+                if reachable.contains(digest) {
+                    continue;
+                }
+                if let Some((revoked_op, _)) = all_ops.get(revoked_digest) {
+                    adjacencies.add_dependency((*digest, op), (*revoked_digest, revoked_op));
+                    successors_of
+                        .entry(*digest)
+                        .or_default()
+                        .push(*revoked_digest);
+                }
             }
         }
 
-- 
2.43.0


From f39c84a0faf3ef6d614cdd9cf254b106ddd1a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 07/56] fix: a revocation needs a proof in the same group that
 its issuer issued or holds

---
 keyhive_core/src/principal/group/state.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index bcd15cb..c462e25 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -212,10 +212,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
-            if revocation.payload.revoke != *proof
-                && !revocation.payload.revoke.payload.is_descendant_of(proof)
-            {
-                // The revoked delegation is not a descendant of the proof.
+            if proof.subject_id() != Identifier::from(self.id) {
+                return Err(AddError::InvalidSubject(Box::new(proof.subject_id())));
+            }
+
+            // The proof covers the revoked delegation, and the revoker issued or holds it
+            let direct_authority = (revocation.payload.revoke == *proof
+                || revocation.payload.revoke.payload.is_descendant_of(proof))
+                && (proof.issuer == revocation.issuer
+                    || proof.payload.delegate.id() == Identifier::from(revocation.issuer));
+
+            if !direct_authority {
+                // The proof gives the revoker no direct authority.
                 // Check if the revoker has transitive access through the
                 // proof's delegate (a group/doc intermediary).
                 let revoker_id = Identifier::from(revocation.issuer);
-- 
2.43.0


From 90fe07ab859383eb9bb1416b3d743d672e0b986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 08/56] fix: delegation heads compare whole operations, not
 just equal payloads

---
 keyhive_core/src/principal/group/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index c462e25..3cfb4af 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -183,11 +183,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         for (head_digest, head) in self.delegation_heads.clone().iter() {
-            if !delegation.payload.is_ancestor_of(head) {
+            if !head.payload.is_descendant_of(&delegation) {
                 self.delegation_heads.insert(delegation.dupe());
             }
 
-            if head.payload.is_ancestor_of(&delegation) {
+            if delegation.payload.is_descendant_of(head) {
                 self.delegation_heads.remove_by_hash(head_digest);
             }
         }
-- 
2.43.0


From 2e49a6ab38f84e8b4d16858c7c825a573f037f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 09/56] fix: sync includes the revocations of nested groups and
 nested documents

---
 keyhive_core/src/keyhive.rs                   | 36 ++--------------
 .../principal/group/membership_operation.rs   | 42 ++++++++++---------
 2 files changed, 27 insertions(+), 51 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bf5ad8d..3aca750 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -24,7 +24,8 @@ use crate::{
             id::GroupId,
             membership_operation::{
                 bfs_extend_from_revocation, bfs_membership_ops, collect_membership_heads,
-                AllMembershipOps, MembershipOpMap, MembershipOperation, StaticMembershipOperation,
+                push_membership_edges, AllMembershipOps, MembershipOpMap, MembershipOperation,
+                StaticMembershipOperation,
             },
             revocation::{Revocation, StaticRevocation},
             Group, IdOrIndividual, RevokeMemberError,
@@ -959,37 +960,8 @@ impl<
             }
 
             visited_hashes.insert(hash);
-            ops.insert(hash, op.clone());
-
-            match op {
-                MembershipOperation::Delegation(dlg) => {
-                    if let Some(proof) = &dlg.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
-
-                    for rev in dlg.payload.after_revocations.iter() {
-                        heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
-                    }
-
-                    // If this delegation is to a group, include the group's delegation heads
-                    if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                        for dlg in group.lock().await.delegation_heads().values() {
-                            let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                            if !visited_hashes.contains(&dlg_hash) {
-                                heads.push((dlg_hash, dlg.dupe().into()));
-                            }
-                        }
-                    }
-                }
-                MembershipOperation::Revocation(rev) => {
-                    if let Some(proof) = &rev.payload.proof {
-                        heads.push((Digest::hash(proof.as_ref()).coerce(), proof.dupe().into()));
-                    }
-
-                    let r = rev.payload.revoke.dupe();
-                    heads.push((Digest::hash(r.as_ref()).coerce(), r.into()));
-                }
-            }
+            push_membership_edges(&op, &mut heads, &visited_hashes).await;
+            ops.insert(hash, op);
         }
 
         ops
diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index 729a2f8..e0735d3 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -598,13 +598,11 @@ pub fn collect_membership_heads<
 
 /// Enqueue BFS edges from a single [`MembershipOperation`].
 ///
-/// For delegations, follows the proof chain and any `after_revocations`.
-/// When `follow_group_heads` is true, also enqueues the group delegate's
-/// own delegation heads (used during full BFS but not when extending from
-/// a single revocation).
+/// For delegations, follows the proof chain, any `after_revocations`, and the
+/// delegation and revocation heads of a group or document delegate.
 ///
 /// For revocations, follows the proof and revoke chains.
-async fn push_membership_edges<
+pub(crate) async fn push_membership_edges<
     F: FutureForm,
     S: AsyncSigner<F>,
     T: ContentRef,
@@ -613,7 +611,6 @@ async fn push_membership_edges<
     op: &MembershipOperation<F, S, T, L>,
     heads: &mut Vec<MembershipOpEntry<F, S, T, L>>,
     visited: &HashSet<Digest<MembershipOperation<F, S, T, L>>>,
-    follow_group_heads: bool,
 ) {
     match op {
         MembershipOperation::Delegation(dlg) => {
@@ -623,16 +620,23 @@ async fn push_membership_edges<
             for rev in dlg.payload.after_revocations.iter() {
                 heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
             }
-            if follow_group_heads {
-                if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                    for dlg in group.lock().await.delegation_heads().values() {
-                        let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                        if !visited.contains(&dlg_hash) {
-                            heads.push((dlg_hash, dlg.dupe().into()));
-                        }
-                    }
+            // If this delegation is to a group or document, include its own heads
+            let nested_heads = match &dlg.payload.delegate {
+                Agent::Group(_id, group) => {
+                    let locked = group.lock().await;
+                    collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())
                 }
-            }
+                Agent::Document(_id, doc) => {
+                    let locked = doc.lock().await;
+                    collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())
+                }
+                _ => vec![],
+            };
+            heads.extend(
+                nested_heads
+                    .into_iter()
+                    .filter(|(hash, _)| !visited.contains(hash)),
+            );
         }
         MembershipOperation::Revocation(rev) => {
             if let Some(proof) = &rev.payload.proof {
@@ -645,8 +649,8 @@ async fn push_membership_edges<
 }
 
 /// Walk all [`MembershipOperation`]s reachable from the given heads via BFS,
-/// following proof chains, revoke chains, and (for delegations to groups) the
-/// group's own delegation heads. Returns a map keyed by digest.
+/// following proof chains, revoke chains, and (for delegations to groups or
+/// documents) the delegate's own heads. Returns a map keyed by digest.
 pub async fn bfs_membership_ops<
     F: FutureForm,
     S: AsyncSigner<F>,
@@ -663,7 +667,7 @@ pub async fn bfs_membership_ops<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, &visited, true).await;
+        push_membership_edges(&op, &mut heads, &visited).await;
         ops.insert(hash, op);
     }
 
@@ -696,7 +700,7 @@ pub async fn bfs_extend_from_revocation<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, visited, false).await;
+        push_membership_edges(&op, &mut heads, visited).await;
         all_ops.entry(hash).or_insert(op);
     }
 }
-- 
2.43.0


From 6821414b22f6e5b024f8b1ecf5f202b2c3c647ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 10/56] fix: only individuals whose effective access includes
 reading join a document's encryption group

---
 keyhive_core/src/keyhive.rs            | 86 +++++++++++++-------------
 keyhive_core/src/principal/document.rs |  8 ++-
 keyhive_core/src/principal/group.rs    | 18 +++++-
 3 files changed, 67 insertions(+), 45 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 3aca750..4e0ea68 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -488,52 +488,13 @@ impl<
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let update = match resource {
-            Membered::Group(group_id, group) => {
-                let mut update = group
+        let mut update = match resource {
+            Membered::Group(_, group) => {
+                group
                     .lock()
                     .await
                     .add_member(to_add, can, &signer, other_relevant_docs)
-                    .await?;
-
-                // Propagate CGKA adds to docs that contain this group.
-                // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-                // (possibly with a reverse index lookup).
-                if can.is_reader() {
-                    let group_identifier: Identifier = (*group_id).into();
-                    let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                    for doc in &docs {
-                        let (contains_group, doc_id) = {
-                            let locked = doc.lock().await;
-                            (
-                                locked
-                                    .transitive_members()
-                                    .await
-                                    .contains_key(&group_identifier),
-                                locked.doc_id(),
-                            )
-                        };
-                        if !contains_group {
-                            continue;
-                        }
-                        // Document lock is intentionally dropped before `pick_individual_prekeys`,
-                        // which may lock groups (walking group members to find
-                        // individuals).
-                        let prekeys = update
-                            .delegation
-                            .payload
-                            .delegate
-                            .pick_individual_prekeys(doc_id)
-                            .await;
-                        let mut locked_doc = doc.lock().await;
-                        let ops = locked_doc
-                            .add_cgka_members_from_prekeys(&prekeys, &signer)
-                            .await?;
-                        update.cgka_ops.extend(ops);
-                    }
-                }
-
-                update
+                    .await?
             }
             Membered::Document(_, doc) => {
                 let mut locked = doc.lock().await;
@@ -543,6 +504,45 @@ impl<
             }
         };
 
+        // Propagate CGKA adds to docs that contain this group or doc.
+        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+        // (possibly with a reverse index lookup).
+        if can.is_reader() {
+            let resource_identifier: Identifier = resource.agent_id().into();
+            let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+            for doc in &docs {
+                let (contains_resource, readers, doc_id) = {
+                    let locked = doc.lock().await;
+                    (
+                        locked
+                            .transitive_members()
+                            .await
+                            .contains_key(&resource_identifier),
+                        locked.reader_ids().await,
+                        locked.doc_id(),
+                    )
+                };
+                if !contains_resource {
+                    continue;
+                }
+                // Document lock is intentionally dropped before `pick_individual_prekeys`,
+                // which may lock groups (walking group members to find
+                // individuals).
+                let mut prekeys = update
+                    .delegation
+                    .payload
+                    .delegate
+                    .pick_individual_prekeys(doc_id)
+                    .await;
+                prekeys.retain(|id, _| readers.contains(id));
+                let mut locked_doc = doc.lock().await;
+                let ops = locked_doc
+                    .add_cgka_members_from_prekeys(&prekeys, &signer)
+                    .await?;
+                update.cgka_ops.extend(ops);
+            }
+        }
+
         for cgka_op in &update.cgka_ops {
             self.event_listener
                 .on_cgka_op(&Arc::new(cgka_op.clone()))
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 9c02e05..d3ea2b5 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -133,6 +133,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.group.transitive_members().await
     }
 
+    pub async fn reader_ids(&self) -> HashSet<IndividualId> {
+        self.group.reader_ids().await
+    }
+
     pub fn revoked_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         self.group.revoked_members()
     }
@@ -258,12 +262,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // transitive document members of the group, but not to the group itself
             // (because the group might not be a document), so we add the member to
             // the group here and add any extra resulting cgka ops to the update.
-            let prekeys = update
+            let mut prekeys = update
                 .delegation
                 .payload
                 .delegate
                 .pick_individual_prekeys(self.doc_id())
                 .await;
+            let readers = self.group.reader_ids().await;
+            prekeys.retain(|id, _| readers.contains(id));
             let cgka_ops_for_this_doc =
                 self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
             update.cgka_ops.extend(cgka_ops_for_this_doc);
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 59a19d2..a9b708e 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -242,13 +242,29 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         ids
     }
 
+    /// The individuals that can (at least) read, directly or through other groups.
+    pub async fn reader_ids(&self) -> HashSet<IndividualId> {
+        self.transitive_members()
+            .await
+            .into_values()
+            .filter_map(|(agent, access)| match agent {
+                Agent::Active(id, _) | Agent::Individual(id, _) if access.is_reader() => Some(id),
+                _ => None,
+            })
+            .collect()
+    }
+
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut prekeys = HashMap::new();
         let public_id = crate::principal::public::Public.id();
-        for (id, (agent, _access)) in self.transitive_members().await.iter() {
+        for (id, (agent, access)) in self.transitive_members().await.iter() {
+            // Members of nested groups are listed with their own effective access.
+            if !access.is_reader() || agent.as_membered().is_some() {
+                continue;
+            }
             // Public must always be added with its single well-known key.
             if *id == public_id {
                 prekeys.insert(
-- 
2.43.0


From 5179641215bf1ce2873c22d9b6964292ff75ef7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:41 +0000
Subject: [PATCH 11/56] fix: revocation removes everyone who lost read access
 from the encryption group

---
 keyhive_core/src/keyhive.rs            | 74 ++++++++------------------
 keyhive_core/src/principal/document.rs | 18 +++----
 2 files changed, 29 insertions(+), 63 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 4e0ea68..3bb68c3 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -568,27 +568,23 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, collect the revoked member's individual
-        // IDs before the revocation removes them from the members map.
-        let revoked_individual_ids: HashSet<IndividualId> = match resource {
-            Membered::Group(_, group) => {
-                let delegates: Vec<Agent<F, S, T, L>> = {
-                    let locked = group.lock().await;
-                    locked
-                        .members()
-                        .get(&to_revoke)
-                        .into_iter()
-                        .flat_map(|ds| ds.iter().map(|d| d.payload().delegate.dupe()))
-                        .collect()
-                };
-                let mut ids = HashSet::new();
-                for d in &delegates {
-                    ids.extend(d.individual_ids().await);
-                }
-                ids
+        // Collect who can read each doc that contains this group or doc before
+        // the revocation changes that.
+        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
+        // (possibly with a reverse index lookup).
+        let resource_identifier: Identifier = resource.agent_id().into();
+        let mut readers_before = Vec::new();
+        let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+        for doc in docs {
+            let locked = doc.lock().await;
+            if locked
+                .transitive_members()
+                .await
+                .contains_key(&resource_identifier)
+            {
+                readers_before.push((doc.dupe(), locked.reader_ids().await));
             }
-            _ => HashSet::new(),
-        };
+        }
 
         let mut update = resource
             .revoke_member(
@@ -599,37 +595,13 @@ impl<
             )
             .await?;
 
-        // Propagate CGKA removals to docs that contain this group.
-        // TODO: O(# of docs x `transitive_members()`). We should replace this approach
-        // (possibly with a reverse index lookup).
-        if let Membered::Group(group_id, _) = resource {
-            if !revoked_individual_ids.is_empty() {
-                let group_identifier: Identifier = (*group_id).into();
-                let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                for doc in &docs {
-                    let transitive = {
-                        let locked = doc.lock().await;
-                        locked.transitive_members().await
-                    };
-                    if !transitive.contains_key(&group_identifier) {
-                        continue;
-                    }
-                    let still_reachable: HashSet<IndividualId> = transitive
-                        .into_iter()
-                        .filter_map(|(_, (agent, _))| match agent {
-                            Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
-                            _ => None,
-                        })
-                        .collect();
-                    let mut locked_doc = doc.lock().await;
-                    for &id in &revoked_individual_ids {
-                        if still_reachable.contains(&id) {
-                            continue;
-                        }
-                        if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                            update.cgka_ops.push(op);
-                        }
-                    }
+        // Propagate CGKA removals to docs that contain this group or doc.
+        for (doc, before) in readers_before {
+            let mut locked_doc = doc.lock().await;
+            let after = locked_doc.reader_ids().await;
+            for id in before.difference(&after) {
+                if let Ok(Some(op)) = locked_doc.remove_cgka_member(*id, &signer).await {
+                    update.cgka_ops.push(op);
                 }
             }
         }
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index d3ea2b5..c16ad81 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -304,12 +304,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
-        // Collect individual IDs from the member being revoked before the
-        // group revocation removes them from the members map.
-        let mut ids_to_remove = HashSet::new();
-        for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(d.payload().delegate.individual_ids().await);
-        }
+        let readers_before = self.reader_ids().await;
 
         let RevokeMemberUpdate {
             revocations,
@@ -325,15 +320,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             )
             .await?;
 
-        // After revocation, check which individuals are still reachable via
-        // remaining members. Only remove those that are no longer reachable.
-        let still_reachable = self.group.individual_ids().await;
-        ids_to_remove.retain(|id| !still_reachable.contains(id));
+        // Remove everyone who could read before the revocation, but no longer can
+        // (including those affected by its cascade).
+        let readers_after = self.reader_ids().await;
 
         // FIXME: We need to check if this has revoked the last member in our group.
         let mut ops = cgka_ops;
-        for id in ids_to_remove {
-            if let Some(op) = self.cgka_mut()?.remove(id, signer).await? {
+        for id in readers_before.difference(&readers_after) {
+            if let Some(op) = self.cgka_mut()?.remove(*id, signer).await? {
                 ops.push(op);
             }
         }
-- 
2.43.0


From dce950410afcd433e93668c53ce2883727366cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 12/56] fix: authority through a group is limited by the access
 the group itself has

---
 keyhive_core/src/principal/group.rs       |  9 +++++----
 keyhive_core/src/principal/group/state.rs | 16 ++++++++++------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index a9b708e..145fcde 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -485,12 +485,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 if let Some(m) = dlg.payload.delegate.as_membered() {
                     let sub_members = m.transitive_members().await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                        if *sub_access >= can {
+                        let path_access = dlg.payload.can.min(*sub_access);
+                        if path_access >= can {
                             best_proof = Some(dlg.dupe());
                             break;
                         }
-                        if best_access.is_none_or(|a| *sub_access > a) {
-                            best_access = Some(*sub_access);
+                        if best_access.is_none_or(|a| path_access > a) {
+                            best_access = Some(path_access);
                         }
                     }
                 }
@@ -645,7 +646,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if let Some(m) = dlg.payload.delegate.as_membered() {
                             let sub_members = m.transitive_members().await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                                if *sub_access >= to_revoke.payload.can {
+                                if dlg.payload.can.min(*sub_access) >= to_revoke.payload.can {
                                     let r = self
                                         .build_revocation(
                                             signer,
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 3cfb4af..301d68e 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -226,13 +226,17 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 // The proof gives the revoker no direct authority.
                 // Check if the revoker has transitive access through the
                 // proof's delegate (a group/doc intermediary).
+                let revoked_access = revocation.payload.revoke.payload.can;
+                if revoked_access > proof.payload.can {
+                    return Err(AddError::Escelation {
+                        claimed: revoked_access,
+                        proof: proof.payload.can,
+                    });
+                }
+
                 let revoker_id = Identifier::from(revocation.issuer);
-                if !is_transitive_member_of(
-                    &proof.payload.delegate,
-                    revoker_id,
-                    revocation.payload.revoke.payload.can,
-                )
-                .await
+                if !is_transitive_member_of(&proof.payload.delegate, revoker_id, revoked_access)
+                    .await
                 {
                     return Err(AddError::InvalidProofChain);
                 }
-- 
2.43.0


From 9ef60fb1724cf8945c0fd37230928a00b1af8898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 13/56] fix: a member with more access through a group can use
 it to add members

---
 keyhive_core/src/principal/group.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 145fcde..1fbdb2f 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -460,14 +460,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddGroupMemberError> {
         let proof = if self.verifying_key() == signer.verifying_key() {
             None
-        } else if let Some(p) = self.get_capability(&signer.verifying_key().into()) {
+        } else if let Some(p) = self
+            .get_capability(&signer.verifying_key().into())
+            .filter(|p| can <= p.payload.can)
+        {
             // Signer is a direct member of this group.
-            if can > p.payload.can {
-                return Err(AddGroupMemberError::AccessEscalation {
-                    wanted: can,
-                    have: p.payload().can,
-                });
-            }
             Some(p.dupe())
         } else {
             // Check transitive membership through the group graph.
@@ -475,7 +472,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             // transitive path for the signer.
             let signer_id = Identifier::from(signer.verifying_key());
             let mut best_proof = None;
-            let mut best_access: Option<Access> = None;
+            let mut best_access: Option<Access> =
+                self.get_capability(&signer_id).map(|p| p.payload.can);
 
             for member_id in self.members.keys() {
                 let dlg = self
-- 
2.43.0


From 8afab5cd0a22fb4711f9dd51ae6d2b49219ba23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:36 +0000
Subject: [PATCH 14/56] fix: membership changes in cyclic graphs neither
 deadlock nor miss readers

---
 keyhive_core/src/keyhive.rs               | 31 +++++++----------------
 keyhive_core/src/principal/document.rs    | 21 ++++-----------
 keyhive_core/src/principal/group.rs       | 15 ++++++++---
 keyhive_core/src/principal/group/state.rs | 14 +++++++---
 keyhive_core/src/principal/membered.rs    | 21 +++++++++++++++
 5 files changed, 58 insertions(+), 44 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 3bb68c3..8ab1a72 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -511,31 +511,18 @@ impl<
             let resource_identifier: Identifier = resource.agent_id().into();
             let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
             for doc in &docs {
-                let (contains_resource, readers, doc_id) = {
-                    let locked = doc.lock().await;
-                    (
-                        locked
-                            .transitive_members()
-                            .await
-                            .contains_key(&resource_identifier),
-                        locked.reader_ids().await,
-                        locked.doc_id(),
-                    )
-                };
-                if !contains_resource {
+                let mut locked_doc = doc.lock().await;
+                if !locked_doc
+                    .transitive_members()
+                    .await
+                    .contains_key(&resource_identifier)
+                {
                     continue;
                 }
-                // Document lock is intentionally dropped before `pick_individual_prekeys`,
-                // which may lock groups (walking group members to find
-                // individuals).
-                let mut prekeys = update
-                    .delegation
-                    .payload
-                    .delegate
-                    .pick_individual_prekeys(doc_id)
+                let prekeys = locked_doc
+                    .group
+                    .pick_individual_prekeys(locked_doc.doc_id())
                     .await;
-                prekeys.retain(|id, _| readers.contains(id));
-                let mut locked_doc = doc.lock().await;
                 let ops = locked_doc
                     .add_cgka_members_from_prekeys(&prekeys, &signer)
                     .await?;
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index c16ad81..b069784 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -36,7 +36,6 @@ use beekem::{
 };
 use derivative::Derivative;
 use derive_where::derive_where;
-use dupe::Dupe;
 use ed25519_dalek::VerifyingKey;
 use future_form::FutureForm;
 use futures::{future::join_all, lock::Mutex};
@@ -254,22 +253,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
         let mut update = self
             .group
-            .add_member_with_manual_content(member_to_add.dupe(), can, signer, after_content)
+            .add_member_with_manual_content(member_to_add, can, signer, after_content)
             .await?;
 
         if can.is_reader() {
-            // Group::add_member_with_manual_content adds the member to the CGKA for
-            // transitive document members of the group, but not to the group itself
-            // (because the group might not be a document), so we add the member to
-            // the group here and add any extra resulting cgka ops to the update.
-            let mut prekeys = update
-                .delegation
-                .payload
-                .delegate
-                .pick_individual_prekeys(self.doc_id())
-                .await;
-            let readers = self.group.reader_ids().await;
-            prekeys.retain(|id, _| readers.contains(id));
+            // Group::add_member_with_manual_content only changes the membership, so we
+            // add everyone who can now read to this document's CGKA and add any
+            // resulting cgka ops to the update.
+            let prekeys = self.group.pick_individual_prekeys(self.doc_id()).await;
             let cgka_ops_for_this_doc =
                 self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
             update.cgka_ops.extend(cgka_ops_for_this_doc);
@@ -279,8 +270,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     /// Add individuals to this document's [`Cgka`] from pre-computed prekeys.
     ///
-    /// Prekeys must be computed before locking the document to avoid
-    /// deadlocks when the delegate is itself a document.
     #[instrument(skip_all)]
     pub(crate) async fn add_cgka_members_from_prekeys(
         &mut self,
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 1fbdb2f..6ce3bad 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -285,6 +285,15 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        self.transitive_members_avoiding(self.id()).await
+    }
+
+    /// The same as [`Group::transitive_members`], but without passing through `avoid`
+    /// (e.g. because the caller is holding its lock).
+    pub(crate) async fn transitive_members_avoiding(
+        &self,
+        avoid: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
 
         for member in self.members.keys() {
@@ -300,7 +309,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         // A path grants the weakest access along it; a member gets their best path.
         while let Some((member, path_access)) = explore.pop() {
             let id = member.id();
-            if id == self.id() {
+            if id == self.id() || id == avoid {
                 continue;
             }
 
@@ -481,7 +490,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     .expect("members have capabilities by definition");
 
                 if let Some(m) = dlg.payload.delegate.as_membered() {
-                    let sub_members = m.transitive_members().await;
+                    let sub_members = m.transitive_members_avoiding(self.id()).await;
                     if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                         let path_access = dlg.payload.can.min(*sub_access);
                         if path_access >= can {
@@ -642,7 +651,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             .expect("members have capabilities by definition");
 
                         if let Some(m) = dlg.payload.delegate.as_membered() {
-                            let sub_members = m.transitive_members().await;
+                            let sub_members = m.transitive_members_avoiding(self.id()).await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                                 if dlg.payload.can.min(*sub_access) >= to_revoke.payload.can {
                                     let r = self
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index 301d68e..018df72 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -174,6 +174,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     &proof.payload.delegate,
                     head_id,
                     delegation.payload.can,
+                    self.id(),
                 )
                 .await
                 {
@@ -235,8 +236,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 }
 
                 let revoker_id = Identifier::from(revocation.issuer);
-                if !is_transitive_member_of(&proof.payload.delegate, revoker_id, revoked_access)
-                    .await
+                if !is_transitive_member_of(
+                    &proof.payload.delegate,
+                    revoker_id,
+                    revoked_access,
+                    self.id(),
+                )
+                .await
                 {
                     return Err(AddError::InvalidProofChain);
                 }
@@ -258,6 +264,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         &next_proof.payload.delegate,
                         head_id,
                         proof.payload.can,
+                        self.id(),
                     )
                     .await
                     {
@@ -330,11 +337,12 @@ async fn is_transitive_member_of<
     delegate: &Agent<F, S, T, L>,
     member_id: Identifier,
     min_access: Access,
+    avoid: Identifier,
 ) -> bool {
     let Some(m) = delegate.as_membered() else {
         return false;
     };
-    m.transitive_members()
+    m.transitive_members_avoiding(avoid)
         .await
         .get(&member_id)
         .map(|(_, access)| *access >= min_access)
diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index 55bb547..c0082ed 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -105,6 +105,27 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
     }
 
+    /// The transitive members, without passing through (or locking) `avoid`.
+    pub(crate) async fn transitive_members_avoiding(
+        &self,
+        avoid: Identifier,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
+        if Identifier::from(self.agent_id()) == avoid {
+            return HashMap::new();
+        }
+
+        match self {
+            Membered::Group(_, group) => {
+                let locked = group.lock().await;
+                locked.transitive_members_avoiding(avoid).await
+            }
+            Membered::Document(_, doc) => {
+                let locked = doc.lock().await;
+                locked.group.transitive_members_avoiding(avoid).await
+            }
+        }
+    }
+
     #[allow(clippy::type_complexity)]
     pub async fn add_member(
         &self,
-- 
2.43.0


From f12ad84f7969192ba6f3be98feffa0645ffc4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 15/56] fix: revoking a member is refused as a whole when one
 of its delegations cannot be revoked

---
 keyhive_core/src/principal/group.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 6ce3bad..3dafa05 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -574,7 +574,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 let r = self
                     .build_revocation(signer, to_revoke.dupe(), None, after_content.clone())
                     .await?;
-                self.receive_revocation(r.dupe()).await?;
                 revocations.push(r);
             }
         } else {
@@ -589,6 +588,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             continue;
                         }
 
+                        if to_revoke != mem_dlg && !to_revoke.payload.is_descendant_of(mem_dlg) {
+                            continue;
+                        }
+
                         if mem_dlg.payload().can == Access::Admin {
                             // Use your awesome & terrible admin powers!
                             //
@@ -603,7 +606,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                     after_content.clone(),
                                 )
                                 .await?;
-                            self.receive_revocation(r.dupe()).await?;
                             revocations.push(r);
                             found = true;
                         }
@@ -619,7 +621,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             after_content.clone(),
                         )
                         .await?;
-                    self.receive_revocation(r.dupe()).await?;
                     revocations.push(r);
                     found = true;
                 } else {
@@ -635,8 +636,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                     after_content.clone(),
                                 )
                                 .await?;
-                            revocations.push(r.dupe());
-                            self.receive_revocation(r).await?;
+                            revocations.push(r);
                             break;
                         }
                     }
@@ -662,8 +662,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                             after_content.clone(),
                                         )
                                         .await?;
-                                    revocations.push(r.dupe());
-                                    self.receive_revocation(r).await?;
+                                    revocations.push(r);
                                     found = true;
                                     break;
                                 }
@@ -678,6 +677,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
+        // Nothing is applied unless every delegation can be revoked
+        for r in revocations.iter() {
+            self.receive_revocation(r.dupe()).await?;
+        }
+
         for r in revocations.iter() {
             self.listener.on_revocation(r).await
         }
-- 
2.43.0


From f5bbe6654320db0fde9421b00962026894381063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 16/56] fix: adding a member without the document's encryption
 state leaves no partial delegation

---
 keyhive_core/src/keyhive.rs            | 4 ++++
 keyhive_core/src/principal/document.rs | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 8ab1a72..be819e2 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -519,6 +519,10 @@ impl<
                 {
                     continue;
                 }
+                if locked_doc.cgka().is_err() {
+                    // We haven't received this doc's CGKA yet, so someone else has to
+                    continue;
+                }
                 let prekeys = locked_doc
                     .group
                     .pick_individual_prekeys(locked_doc.doc_id())
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index b069784..890b7ad 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -237,6 +237,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>],
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
+        if can.is_reader() {
+            // Refuse before changing anything if we can't add readers to the CGKA
+            self.cgka()?;
+        }
+
         let mut after_content: BTreeMap<_, _> =
             join_all(other_relevant_docs.iter().map(|doc| async {
                 let locked = doc.lock().await;
-- 
2.43.0


From a3f7943e6f5c7565b56730d79d2365a3bf5dbf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:44 +0000
Subject: [PATCH 17/56] fix: an individual promoted to a group stays known

---
 keyhive_core/src/keyhive.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index be819e2..3db094b 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1555,6 +1555,7 @@ impl<
         let subject_id = delegation.subject_id();
         let delegation = Arc::new(delegation);
         let mut found = false;
+        let mut promoted = None;
         {
             if let Some(group) = self.groups.lock().await.get(&GroupId(subject_id)) {
                 found = true;
@@ -1576,10 +1577,15 @@ impl<
                 .remove(&IndividualId(subject_id))
             {
                 found = true;
-                self.promote_individual_to_group(indie, delegation.clone())
-                    .await;
+                promoted = Some(
+                    self.promote_individual_to_group(indie, delegation.clone())
+                        .await,
+                );
             }
         }
+        if let Some(group) = promoted {
+            self.groups.lock().await.insert(GroupId(subject_id), group);
+        }
         if !found {
             let group = Group::new(
                 GroupId(subject_id),
@@ -1822,7 +1828,7 @@ impl<
                             proof: if let Some(proof) = rev.payload.proof.dupe() {
                                 self.delegations.lock().await.get(&Digest::hash(&proof))
                             } else {
-                                panic!("revoked delegation to be available");
+                                None
                             },
                             after_content: rev.payload.after_content.clone(),
                         },
-- 
2.43.0


From b47bd2e0d16118b13d1b42870d2e98c9f1d4d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 18/56] fix: the first prekey operation of an unknown
 individual is verified too

---
 keyhive_core/src/keyhive.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 3db094b..31b5977 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -344,6 +344,8 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
+        contact_card.op().try_verify()?;
+
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
                 .lock()
@@ -1476,6 +1478,8 @@ impl<
         if id == Public.id() {
             return Ok(());
         }
+        key_op.try_verify()?;
+
         let agent = if let Some(agent) = self.get_agent(id).await {
             agent
         } else {
-- 
2.43.0


From 8cf30cd677d7cd5546751f457a589cfc1723f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 19/56] fix: a delegation may only build on revocations of its
 own group

---
 keyhive_core/src/keyhive.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 31b5977..1af5286 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1557,6 +1557,12 @@ impl<
         let delegation = Signed::new(payload, static_dlg.issuer, static_dlg.signature);
 
         let subject_id = delegation.subject_id();
+        for revocation in delegation.payload().after_revocations.iter() {
+            if revocation.subject_id() != subject_id {
+                return Err(AddError::InvalidSubject(Box::new(revocation.subject_id())).into());
+            }
+        }
+
         let delegation = Arc::new(delegation);
         let mut found = false;
         let mut promoted = None;
-- 
2.43.0


From 4e656b6e7963d522e9da427001a104d042a9a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:02 +0000
Subject: [PATCH 20/56] fix: decide CGKA membership changes on the merged tree

Cgka::add and Cgka::remove looked for the member in the tree as it was before
replaying concurrent operations, so a member removed concurrently was not added
again and a member added concurrently was not removed.
---
 beekem/src/cgka.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 56ef512..ebe4cc9 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -242,12 +242,12 @@ impl Cgka {
         pk: ShareKey,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         let leaf_index = self.tree.push_leaf(id, pk.into());
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let add_predecessors = Vec::from_iter(self.ops_graph.add_heads.iter().cloned());
@@ -285,12 +285,12 @@ impl Cgka {
         id: MemberId,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if !self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if !self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-- 
2.43.0


From ea3cd8a367fb9bb99891d27ddcb40a72016faad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:04 +0000
Subject: [PATCH 21/56] fix: replay concurrent CGKA adds and removes of the
 same member

Replaying a history in which two members concurrently remove the same member, or
each other, failed, so the group could not be used again. Concurrent adds of one
member left two leaves. Leaves were blanked where the remover had seen them, which
after replay can be the leaf of another member.
---
 beekem/src/cgka.rs | 22 +++++++++++++++++-----
 beekem/src/tree.rs | 13 +++++++------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index ebe4cc9..ae7807f 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -420,10 +420,17 @@ impl Cgka {
         }
         match op.payload {
             CgkaOperation::Add { added_id, pk, .. } => {
-                self.tree.push_leaf(added_id, pk.into());
+                // Concurrent operations may already have added this member
+                if !self.tree.contains_id(&added_id) {
+                    self.tree.push_leaf(added_id, pk.into());
+                }
             }
             CgkaOperation::Remove { id, .. } => {
-                self.tree.remove_id(id)?;
+                // Concurrent operations may already have removed this member, or
+                // every other member. The tree always keeps at least one member.
+                if self.tree.contains_id(&id) && self.group_size() > 1 {
+                    self.tree.remove_id(id)?;
+                }
             }
             CgkaOperation::Update { ref new_path, .. } => {
                 self.tree.apply_path(new_path);
@@ -460,10 +467,15 @@ impl Cgka {
                 for op in epoch.iter() {
                     match op.payload {
                         CgkaOperation::Add { added_id, .. } => {
-                            added_ids.insert(added_id);
+                            if !self.tree.contains_id(&added_id) {
+                                added_ids.insert(added_id);
+                            }
                         }
-                        CgkaOperation::Remove { id, leaf_idx, .. } => {
-                            removed_ids.insert((id, leaf_idx));
+                        CgkaOperation::Remove { id, .. } => {
+                            // The leaf may not be where the remover saw it
+                            if let Ok(leaf_idx) = self.tree.leaf_index_for_id(id) {
+                                removed_ids.insert((id, leaf_idx.u32()));
+                            }
                         }
                         _ => {}
                     }
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index f5c71f5..9636554 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -112,13 +112,14 @@ impl BeeKem {
     ) {
         let mut leaves_to_sort = Vec::new();
         for (id, idx) in removed_ids {
-            added_ids.remove(&id);
+            if !self.contains_id(&id) {
+                added_ids.remove(&id);
+            }
             let leaf_idx = LeafNodeIndex::new(idx);
-            debug_assert!(self.leaf(leaf_idx).is_none());
-            // We should have already removed this id during merge, but concurrent
-            // updates at other leaves with intersecting paths must be overridden by
-            // this remove.
-            self.blank_leaf_and_path(leaf_idx);
+            // We should have already removed this id during merge (and the leaf may
+            // since have been given to an added member), but concurrent updates at
+            // other leaves with intersecting paths must be overridden by this remove.
+            self.blank_path(treemath::parent(leaf_idx.into()));
         }
         while !added_ids.is_empty() && self.next_leaf_idx.u32() > 0 {
             let leaf_idx = self.next_leaf_idx - 1;
-- 
2.43.0


From 7e7f60c891a32828e201cb3fbbece122427a94c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:29 +0000
Subject: [PATCH 22/56] fix: replaying CGKA operations does not require being a
 member

A peer which had been removed from the group (or was never in it) failed to apply
operations following concurrent ones, because it tried to derive the group key.
---
 beekem/src/cgka.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index ae7807f..2064caf 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -578,8 +578,10 @@ impl Cgka {
         .with_new_owner(self.owner_id, self.owner_sks.clone())?;
         rebuilt_cgka.apply_epochs(&epochs)?;
         if rebuilt_cgka.has_pcs_key() {
-            let pcs_key = rebuilt_cgka.pcs_key_from_tree_root()?;
-            rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            // The owner may not (or no longer) be a member
+            if let Ok(pcs_key) = rebuilt_cgka.pcs_key_from_tree_root() {
+                rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            }
         }
         Ok(rebuilt_cgka)
     }
-- 
2.43.0


From df52e58545c31df7500b9f7902bcf3c1eedb2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:01 +0000
Subject: [PATCH 23/56] fix: adding a member again comes after the revocations
 of that member

When another delegation already built on a revocation, the revocation was no longer
a head, and adding the revoked member again repeated the very delegation that had been
revoked: the call succeeded without effect.
---
 keyhive_core/src/principal/group.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 3dafa05..7218293 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -516,13 +516,24 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         };
 
+        // Other delegations may already have superseded the revocations of this member.
+        // Adding it again has to come after them all the same.
+        let mut after_revocations: Vec<_> = self.state.revocation_heads.values().duped().collect();
+        for r in self.active_revocations.values() {
+            if r.payload.revoke.payload.delegate.id() == member_to_add.id()
+                && !after_revocations.contains(r)
+            {
+                after_revocations.push(r.dupe());
+            }
+        }
+
         let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
             signer,
             Delegation {
                 delegate: member_to_add,
                 can,
                 proof,
-                after_revocations: self.state.revocation_heads.values().duped().collect(),
+                after_revocations,
                 after_content,
             },
         )
-- 
2.43.0


From bd32d6964646141e0d0738fb40596ee0f32f553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:05 +0000
Subject: [PATCH 24/56] fix: someone else's document is not joined under the
 document's own id

A peer that had not been added to a document's encryption group acted in it as the
document's founding member: it could rotate the group key, and everyone accepted that
and encrypted to the key it had chosen.
---
 keyhive_core/src/keyhive.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 1af5286..2d93acb 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1745,10 +1745,10 @@ impl<
         };
 
         let signed_op = Arc::new(signed_op);
+        let active_id = { self.active.lock().await.id() };
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
             let locked_active = self.active.lock().await;
-            let active_id = locked_active.id();
             if active_id == added_id {
                 let sk = {
                     let locked_prekeys = locked_active.prekey_pairs.lock().await;
@@ -1776,7 +1776,15 @@ impl<
                 return Ok(());
             }
         }
-        if doc.lock().await.merge_cgka_op(signed_op.clone())? {
+        let mut locked_doc = doc.lock().await;
+        let is_initial_op = locked_doc.cgka().is_err();
+        let merged = locked_doc.merge_cgka_op(signed_op.clone())?;
+        if is_initial_op {
+            // The initial operation adds the document's own id, which is not us
+            locked_doc.reset_cgka_owner(active_id)?;
+        }
+        drop(locked_doc);
+        if merged {
             self.event_listener.on_cgka_op(&signed_op).await;
         }
         Ok(())
-- 
2.43.0


From 646731562ab11e1cfab7a90768a9bc7d82854330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:42 +0000
Subject: [PATCH 25/56] fix: learning that a document is public does not change
 who we are in it

The document's creator stopped being able to use the encryption group when another
peer made the document public.
---
 keyhive_core/src/keyhive.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 2d93acb..0a9c38f 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1767,8 +1767,11 @@ impl<
             } else if Public.individual().id() == added_id {
                 let sk = Public.share_secret_key();
                 let mut locked_doc = doc.lock().await;
-                let merged = locked_doc.merge_cgka_invite_op(signed_op.clone(), &sk)?;
-                locked_doc.reset_cgka_owner(active_id)?;
+                locked_doc
+                    .cgka_mut()?
+                    .owner_sks_mut()
+                    .insert(sk.share_key(), sk);
+                let merged = locked_doc.merge_cgka_op(signed_op.clone())?;
                 drop(locked_doc);
                 if merged {
                     self.event_listener.on_cgka_op(&signed_op).await;
-- 
2.43.0


From 754c0a9454db17089f17d29f430fc40f8abe2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 26/56] fix: a revocation is announced once, and only when it
 is accepted

Received revocations were announced before they were checked, and one's own were
announced twice.
---
 keyhive_core/src/principal/group.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 7218293..7785396 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -424,9 +424,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         revocation: Arc<Signed<Revocation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Revocation<F, S, T, L>>>, error::AddError> {
-        self.listener.on_revocation(&revocation).await;
-        let digest = self.state.add_revocation(revocation).await?;
+        let digest = self.state.add_revocation(revocation.dupe()).await?;
         self.rebuild().await;
+        self.listener.on_revocation(&revocation).await;
         Ok(digest)
     }
 
@@ -693,10 +693,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             self.receive_revocation(r.dupe()).await?;
         }
 
-        for r in revocations.iter() {
-            self.listener.on_revocation(r).await
-        }
-
         let mut cgka_ops = Vec::new();
 
         let mut redelegations = vec![];
-- 
2.43.0


From 7c3fcb7a2b8368f3baf7570625b739e0d009466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:10 +0000
Subject: [PATCH 27/56] fix: revoking with retention is refused as a whole when
 others cannot be retained

---
 keyhive_core/src/principal/group.rs | 113 ++++++++++++++++++----------
 1 file changed, 72 insertions(+), 41 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 7785396..9bbe3e5 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -467,19 +467,62 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_content: BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddGroupMemberError> {
-        let proof = if self.verifying_key() == signer.verifying_key() {
-            None
+        let proof = self.find_proof(signer.verifying_key(), can).await?;
+
+        // Other delegations may already have superseded the revocations of this member.
+        // Adding it again has to come after them all the same.
+        let mut after_revocations: Vec<_> = self.state.revocation_heads.values().duped().collect();
+        for r in self.active_revocations.values() {
+            if r.payload.revoke.payload.delegate.id() == member_to_add.id()
+                && !after_revocations.contains(r)
+            {
+                after_revocations.push(r.dupe());
+            }
+        }
+
+        let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
+            signer,
+            Delegation {
+                delegate: member_to_add,
+                can,
+                proof,
+                after_revocations,
+                after_content,
+            },
+        )
+        .await?;
+
+        let rc = Arc::new(delegation);
+        let _digest = self.receive_delegation(rc.dupe()).await?;
+        self.listener.on_delegation(&rc).await;
+
+        Ok(AddMemberUpdate {
+            cgka_ops: Vec::new(),
+            delegation: rc,
+        })
+    }
+
+    /// Find the delegation under which the holder of `verifying_key` can delegate `can`
+    /// (none if it is the group itself).
+    #[allow(clippy::type_complexity)]
+    async fn find_proof(
+        &self,
+        verifying_key: ed25519_dalek::VerifyingKey,
+        can: Access,
+    ) -> Result<Option<Arc<Signed<Delegation<F, S, T, L>>>>, AddGroupMemberError> {
+        if self.verifying_key() == verifying_key {
+            Ok(None)
         } else if let Some(p) = self
-            .get_capability(&signer.verifying_key().into())
+            .get_capability(&verifying_key.into())
             .filter(|p| can <= p.payload.can)
         {
             // Signer is a direct member of this group.
-            Some(p.dupe())
+            Ok(Some(p.dupe()))
         } else {
             // Check transitive membership through the group graph.
             // Single pass: find which direct member provides a sufficient
             // transitive path for the signer.
-            let signer_id = Identifier::from(signer.verifying_key());
+            let signer_id = Identifier::from(verifying_key);
             let mut best_proof = None;
             let mut best_access: Option<Access> =
                 self.get_capability(&signer_id).map(|p| p.payload.can);
@@ -505,48 +548,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
 
             if let Some(proof) = best_proof {
-                Some(proof)
+                Ok(Some(proof))
             } else if let Some(access) = best_access {
-                return Err(AddGroupMemberError::AccessEscalation {
+                Err(AddGroupMemberError::AccessEscalation {
                     wanted: can,
                     have: access,
-                });
+                })
             } else {
-                return Err(AddGroupMemberError::NoProof);
-            }
-        };
-
-        // Other delegations may already have superseded the revocations of this member.
-        // Adding it again has to come after them all the same.
-        let mut after_revocations: Vec<_> = self.state.revocation_heads.values().duped().collect();
-        for r in self.active_revocations.values() {
-            if r.payload.revoke.payload.delegate.id() == member_to_add.id()
-                && !after_revocations.contains(r)
-            {
-                after_revocations.push(r.dupe());
+                Err(AddGroupMemberError::NoProof)
             }
         }
-
-        let delegation = keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(
-            signer,
-            Delegation {
-                delegate: member_to_add,
-                can,
-                proof,
-                after_revocations,
-                after_content,
-            },
-        )
-        .await?;
-
-        let rc = Arc::new(delegation);
-        let _digest = self.receive_delegation(rc.dupe()).await?;
-        self.listener.on_delegation(&rc).await;
-
-        Ok(AddMemberUpdate {
-            cgka_ops: Vec::new(),
-            delegation: rc,
-        })
     }
 
     /// Revoke a member from this group.
@@ -688,6 +699,26 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
+        if retain_all_other_members {
+            // Nothing is applied unless the revoker can still delegate to everyone else
+            let heads = self.state.revocation_heads.clone();
+            for r in revocations.iter() {
+                self.state.revocation_heads.insert(r.dupe());
+            }
+            self.rebuild().await;
+            let mut retainable = Ok(None);
+            for dlg in og_dlgs.iter() {
+                let id = dlg.payload.delegate.id();
+                let dropped = !self.members.get(&id).is_some_and(|ds| ds.contains(dlg));
+                if retainable.is_ok() && dropped && id != member_to_remove {
+                    retainable = self.find_proof(vk, dlg.payload.can).await;
+                }
+            }
+            self.state.revocation_heads = heads;
+            self.rebuild().await;
+            retainable?;
+        }
+
         // Nothing is applied unless every delegation can be revoked
         for r in revocations.iter() {
             self.receive_revocation(r.dupe()).await?;
-- 
2.43.0


From dda9fbd6de590533556b8f9208ed96e27da41389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 28/56] fix: revoking a reader without the document's
 encryption state is refused as a whole

---
 keyhive_core/src/principal/document.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 890b7ad..8d50ca8 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -298,6 +298,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
+        let revokes_reader = self
+            .group
+            .members()
+            .get(&member_id)
+            .is_some_and(|dlgs| dlgs.iter().any(|dlg| dlg.payload.can.is_reader()));
+        if revokes_reader {
+            // Refuse before changing anything if we can't remove readers from the CGKA
+            self.cgka()?;
+        }
+
         let readers_before = self.reader_ids().await;
 
         let RevokeMemberUpdate {
-- 
2.43.0


From 269ef46306e6cd008cbd0b8bfd952b60ab7c3dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 29/56] fix: members of a revoked nested group are sent its
 revocation by per-agent queries too

---
 keyhive_core/src/keyhive.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 0a9c38f..59ba81c 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -895,7 +895,10 @@ impl<
             MembershipOperation<F, S, T, L>,
         )> = Vec::new();
 
+        let mut agent_ids = vec![agent.agent_id()];
         for (mem_rc, _max_acces) in self.membered_reachable_by_agent(agent).await.values() {
+            agent_ids.push(mem_rc.agent_id());
+
             for (hash, dlg_head) in mem_rc.delegation_heads().await.iter() {
                 heads.push((hash.coerce(), dlg_head.dupe().into()));
             }
@@ -905,17 +908,20 @@ impl<
             }
         }
 
-        // Include any revocations for this agent that were missed
-        if let Some(agent_revocations) = self
-            .revocations
-            .lock()
-            .await
-            .get_revocations_for_agent(&agent.agent_id())
+        // Include any revocations for this agent (or for the groups and docs that it
+        // reaches others through) that were missed
         {
-            for rev in agent_revocations {
-                let hash: Digest<MembershipOperation<F, S, T, L>> =
-                    Digest::hash(rev.as_ref()).coerce();
-                heads.push((hash, rev.into()));
+            let revocations = self.revocations.lock().await;
+            for agent_id in agent_ids {
+                for rev in revocations
+                    .get_revocations_for_agent(&agent_id)
+                    .into_iter()
+                    .flatten()
+                {
+                    let hash: Digest<MembershipOperation<F, S, T, L>> =
+                        Digest::hash(rev.as_ref()).coerce();
+                    heads.push((hash, rev.into()));
+                }
             }
         }
 
-- 
2.43.0


From 78e4f0c1ac86d4f3a81554ced1468bd0f66e2dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:51 +0000
Subject: [PATCH 30/56] fix: picking a prekey stays within the known prekeys

---
 keyhive_core/src/principal/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index da4572c..1c387f7 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -222,7 +222,7 @@ fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
     while idx.is_none() {
         hash_stream.fill(&mut buf);
         let raw_idx: usize = clamp(buf, shiftsize);
-        if raw_idx <= max {
+        if raw_idx < max.max(1) {
             idx = Some(raw_idx)
         }
     }
-- 
2.43.0


From 4c71fc52a360e67de468ece0eecf8236e23f4f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:51 +0000
Subject: [PATCH 31/56] fix: rotations in a circle do not leave an individual
 without prekeys

---
 keyhive_core/src/principal/individual/state.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/individual/state.rs b/keyhive_core/src/principal/individual/state.rs
index 561fa8e..d8efd1b 100644
--- a/keyhive_core/src/principal/individual/state.rs
+++ b/keyhive_core/src/principal/individual/state.rs
@@ -138,11 +138,17 @@ impl PrekeyState {
             }
         }
 
+        let mut current = keys.clone();
         for tombstone in to_drop {
-            keys.remove(&tombstone);
+            current.remove(&tombstone);
         }
 
-        keys
+        // Rotations in a circle don't leave anyone without keys
+        if current.is_empty() {
+            return keys;
+        }
+
+        current
     }
 }
 
-- 
2.43.0


From 56d8e04c251ee6d319619cc56d4891978ddbc753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:21 +0000
Subject: [PATCH 32/56] fix: prekey operations are sorted completely, also
 rotations in a circle or of unknown keys

---
 keyhive_core/src/principal/individual/op.rs | 27 +++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/principal/individual/op.rs b/keyhive_core/src/principal/individual/op.rs
index 2963a81..87e46d1 100644
--- a/keyhive_core/src/principal/individual/op.rs
+++ b/keyhive_core/src/principal/individual/op.rs
@@ -54,14 +54,31 @@ impl KeyOp {
 
         let mut topsorted = vec![];
 
-        while let Some(head) = heads.pop() {
-            if let Some(ops) = rotate_key_ops.get(head.new_key()) {
-                for op in ops.iter() {
-                    heads.push(op.dupe());
+        loop {
+            while let Some(head) = heads.pop() {
+                if let Some(ops) = rotate_key_ops.remove(head.new_key()) {
+                    heads.extend(ops);
                 }
+
+                topsorted.push(head);
             }
 
-            topsorted.push(head.dupe());
+            // Rotations of keys that we don't know, or in a circle
+            let next = rotate_key_ops
+                .keys()
+                .find(|old| {
+                    !rotate_key_ops
+                        .values()
+                        .flatten()
+                        .any(|op| op.new_key() == *old)
+                })
+                .or_else(|| rotate_key_ops.keys().next())
+                .copied();
+
+            let Some(ops) = next.and_then(|old| rotate_key_ops.remove(&old)) else {
+                break;
+            };
+            heads.extend(ops);
         }
 
         topsorted
-- 
2.43.0


From a73fb1a273ddd6946478b09a27f6dd94728fc9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:58 +0000
Subject: [PATCH 33/56] fix: ingesting someone else's archive does not merge
 their identity into ours

---
 keyhive_core/src/keyhive.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 59ba81c..2f6bb2e 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2221,7 +2221,8 @@ impl<
         archive: Archive<T>,
     ) -> Result<Vec<Arc<StaticEvent<T>>>, ReceiveStaticEventError<F, S, T, L>> {
         tracing::debug!("Keyhive::ingest_archive()");
-        {
+        let mut individuals = archive.individuals;
+        if archive.active.individual.id() == self.id() {
             let locked_active = self.active.lock().await;
             {
                 locked_active
@@ -2237,9 +2238,12 @@ impl<
                     .await
                     .merge(archive.active.individual);
             }
+        } else {
+            // Someone else's archive: its owner is just another individual
+            individuals.insert(archive.active.individual.id(), archive.active.individual);
         }
 
-        for (id, indie) in archive.individuals {
+        for (id, indie) in individuals {
             let mut locked_indies = self.individuals.lock().await;
             if let Some(our_indie) = locked_indies.get_mut(&id) {
                 our_indie.merge_async(indie).await;
-- 
2.43.0


From 0e3a5d98f8da9673e676f615183f78033c880990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 34/56] fix: restoring from an archive restores the revocations
 in effect

---
 keyhive_core/src/keyhive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 2f6bb2e..214fb3f 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2168,6 +2168,9 @@ impl<
                     .collect(),
             )
             .await?;
+
+            // Also restore which revocations are in effect
+            locked_group.rebuild().await;
         }
 
         for (doc_id, doc) in docs.iter() {
@@ -2191,6 +2194,8 @@ impl<
                     .collect(),
             )
             .await?;
+
+            locked_doc.group.rebuild().await;
         }
 
         let mut pending_events = Vec::new();
-- 
2.43.0


From 20c7583105dd201268cd845c14314bef8e9fa852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 35/56] fix: an update made for a larger tree is recognised as
 not matching

---
 beekem/src/tree.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 9636554..7553813 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -572,8 +572,10 @@ impl BeeKem {
         let leaf_idx = self
             .leaf_index_for_id(new_path.leaf_id)
             .expect("Id should be present");
-        new_path.path.len() == self.path_length_for(LeafNodeIndex::new(new_path.leaf_idx))
-            && leaf_idx.u32() == new_path.leaf_idx
+        // The leaf index must be checked first: the index in the path might lie
+        // outside this tree.
+        leaf_idx.u32() == new_path.leaf_idx
+            && new_path.path.len() == self.path_length_for(*leaf_idx)
     }
 
     /// Growing the tree will add a new root and a new subtree, all blank.
-- 
2.43.0


From 07ff2e3815addc1e9b7abca3eeea610609990f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 36/56] fix: delegate from a proof that stands on its own where
 there is a choice

---
 keyhive_core/src/principal/group.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 9bbe3e5..45651dd 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -386,12 +386,20 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         member_id: &Identifier,
     ) -> Option<&Arc<Signed<Delegation<F, S, T, L>>>> {
         self.members.get(member_id).and_then(|delegations| {
+            // Among equals, prefer one that doesn't only stand on an alternative proof
             delegations
                 .iter()
-                .max_by(|d1, d2| d1.payload().can.cmp(&d2.payload().can))
+                .max_by_key(|d| (d.payload().can, !self.is_lineage_revoked(d)))
         })
     }
 
+    /// Whether a revocation in effect targets something this delegation was proven with.
+    fn is_lineage_revoked(&self, delegation: &Signed<Delegation<F, S, T, L>>) -> bool {
+        self.active_revocations
+            .values()
+            .any(|r| delegation.payload.is_descendant_of(&r.payload.revoke))
+    }
+
     #[tracing::instrument(skip_all)]
     pub async fn get_agent_revocations(
         &self,
-- 
2.43.0


From 487ca7700b0df7a0dbcbaced60648546d4f66ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 37/56] fix: a member leaving through a group proves each
 revocation by itself

---
 keyhive_core/src/principal/group.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 45651dd..38c9f74 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -684,11 +684,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             let sub_members = m.transitive_members_avoiding(self.id()).await;
                             if let Some((_, sub_access)) = sub_members.get(&signer_id) {
                                 if dlg.payload.can.min(*sub_access) >= to_revoke.payload.can {
+                                    // When leaving, each delegation is its own proof:
+                                    // another one would be revoked along with it.
+                                    let proof = if *mid == member_to_remove {
+                                        to_revoke
+                                    } else {
+                                        dlg
+                                    };
                                     let r = self
                                         .build_revocation(
                                             signer,
                                             to_revoke.dupe(),
-                                            Some(dlg.dupe()),
+                                            Some(proof.dupe()),
                                             after_content.clone(),
                                         )
                                         .await?;
-- 
2.43.0


From 6765fb66f09819832aaa7043125e1c19af0450e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 38/56] fix: being sent one's own invitation again changes
 nothing

---
 keyhive_core/src/principal/document.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 8d50ca8..b38b862 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -428,6 +428,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         {
             return Err(CgkaError::OutOfOrderOperation);
         }
+        if self
+            .cgka()?
+            .contains_predecessors(&HashSet::from_iter([Digest::hash(op.as_ref())]))
+        {
+            // Already merged: being sent it again must not change the owner
+            return Ok(false);
+        }
         let mut owner_sks = self.cgka()?.owner_sks().clone();
         owner_sks.insert(pk, *sk);
         self.cgka = Some(
-- 
2.43.0


From 6dcff018f1124174b24b0696eb6b5c7277d30b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 39/56] fix: causal decryption reports its entry point and what
 is missing right behind it

---
 keyhive_core/src/principal/document.rs | 32 ++------------------------
 1 file changed, 2 insertions(+), 30 deletions(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index b38b862..6f05f04 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -6,7 +6,6 @@ use super::{group::AddGroupMemberError, individual::id::IndividualId};
 use crate::{
     access::Access,
     cgka::Cgka,
-    crypto::envelope::Envelope,
     error::missing_dependency::MissingDependency,
     listener::{membership::MembershipListener, no_listener::NoListener},
     principal::{
@@ -22,7 +21,6 @@ use crate::{
     store::{
         ciphertext::{
             CausalDecryptionError, CausalDecryptionState, CiphertextStore, CiphertextStoreExt,
-            ErrorReason,
         },
         delegation::DelegationStore,
         revocation::RevocationStore,
@@ -556,34 +554,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     where
         T: for<'de> Deserialize<'de>,
     {
-        let raw_entrypoint = self.try_decrypt_content(encrypted_content)?;
-
-        let mut acc = CausalDecryptionState::new();
-
-        let entrypoint_envelope: Envelope<T, Vec<u8>> = bincode::deserialize(
-            raw_entrypoint.as_slice(),
-        )
-        .map_err(|e| CausalDecryptionError::<F, T, P, C> {
-            progress: acc.clone(),
-            cannot: HashMap::from_iter([(
-                encrypted_content.content_ref.clone(),
-                ErrorReason::DeserializationFailed(e),
-            )]),
-        })?;
-
-        let mut to_decrypt: Vec<(Arc<EncryptedContent<P, T>>, SymmetricKey)> = vec![];
-        for (digest, symm_key) in entrypoint_envelope.ancestors.iter() {
-            if let Some(encrypted) = store
-                .get_ciphertext(digest)
-                .await
-                .map_err(DocCausalDecryptionError::GetCiphertextError)?
-            {
-                to_decrypt.push((encrypted, *symm_key));
-            } else {
-                acc.next.insert(digest.clone(), *symm_key);
-            }
-        }
-
+        let (_, entrypoint_key) = self.try_decrypt_content_keyed(encrypted_content)?;
+        let mut to_decrypt = vec![(Arc::new(encrypted_content.clone()), entrypoint_key)];
         Ok(store.try_causal_decrypt(&mut to_decrypt).await?)
     }
 
-- 
2.43.0


From b7ccced7085e8636ec17664485b354f1bfbeafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 40/56] fix: merging a fork keeps its contents, secrets and
 out-of-order events

---
 keyhive_core/src/keyhive.rs            | 29 ++++++++++++++++++++------
 keyhive_core/src/principal/document.rs | 20 ++++++++++++++++++
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 214fb3f..bc5aa1f 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2543,6 +2543,17 @@ where
             }
         }
 
+        // The log alone is not enough: it lacks the delegations that the fork received,
+        // and what the fork is still waiting for.
+        let archive = fork.into_archive().await;
+        let mut events: Vec<StaticEvent<T>> = archive
+            .topsorted_ops
+            .into_iter()
+            .map(|(_, op)| match op {
+                StaticMembershipOperation::Delegation(signed) => StaticEvent::Delegated(signed),
+                StaticMembershipOperation::Revocation(signed) => StaticEvent::Revoked(signed),
+            })
+            .collect();
         let forked_listener = { fork.event_listener.0.lock().await.clone() };
         for event in forked_listener.iter() {
             match event {
@@ -2552,13 +2563,19 @@ where
                 Event::PrekeyRotated(_rot_op) => {
                     continue; // NOTE: handled above
                 }
-                _ => {}
+                _ => events.push(event.clone().into()),
+            }
+        }
+        events.extend(archive.pending_events);
+        locked.ingest_unsorted_static_events(events).await;
+
+        // What the fork learned that isn't in any event
+        for (id, forked_doc) in fork.docs.lock().await.iter() {
+            let doc = { locked.docs.lock().await.get(id).map(Dupe::dupe) };
+            if let Some(doc) = doc {
+                let forked_doc = forked_doc.lock().await;
+                doc.lock().await.merge_local_state(&forked_doc);
             }
-
-            locked
-                .receive_static_event(event.clone().into())
-                .await
-                .expect("prechecked events to work");
         }
     }
 }
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 6f05f04..6cdfcad 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -449,6 +449,26 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         Ok(())
     }
 
+    /// Extend the state that isn't carried by events (content and secrets) with
+    /// that of a fork.
+    pub(crate) fn merge_local_state<M: MembershipListener<F, S, T>>(
+        &mut self,
+        fork: &Document<F, S, T, M>,
+    ) {
+        self.content_heads
+            .extend(fork.content_heads.iter().cloned());
+        self.content_state
+            .extend(fork.content_state.iter().cloned());
+        self.known_decryption_keys.extend(
+            fork.known_decryption_keys
+                .iter()
+                .map(|(content_ref, key)| (content_ref.clone(), *key)),
+        );
+        if let (Some(cgka), Ok(forked_cgka)) = (&mut self.cgka, fork.cgka()) {
+            cgka.owner_sks_mut().extend(forked_cgka.owner_sks());
+        }
+    }
+
     pub fn cgka_ops(&self) -> Result<NonEmpty<CgkaEpoch>, CgkaError> {
         self.cgka()?.ops()
     }
-- 
2.43.0


From 3b2934f3ef72f4a18988010b5ed7c28c7bd151dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 41/56] fix: a key derived for altered key hashes is not the
 one that was asked for

---
 beekem/src/cgka.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 2064caf..fb10964 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -522,17 +522,23 @@ impl Cgka {
         pcs_key_hash: &Digest<PcsKey>,
         update_op_hash: &Digest<Signed<CgkaOperation>>,
     ) -> Result<PcsKey, CgkaError> {
-        if let Some(pcs_key) = self.pcs_keys.get(pcs_key_hash) {
-            return Ok(*pcs_key.clone());
+        if self.pcs_key_ops.get(pcs_key_hash) == Some(update_op_hash) {
+            if let Some(pcs_key) = self.pcs_keys.get(pcs_key_hash) {
+                return Ok(*pcs_key.clone());
+            }
         }
-        if self.has_pcs_key() {
+        if self.has_pcs_key() && self.ops_graph.cgka_op_heads.contains(update_op_hash) {
             if let Ok(pcs_key) = self.pcs_key_from_tree_root() {
                 if &Digest::hash(&pcs_key) == pcs_key_hash {
                     return Ok(pcs_key);
                 }
             }
         }
-        self.derive_pcs_key_for_op(update_op_hash)
+        let pcs_key = self.derive_pcs_key_for_op(update_op_hash)?;
+        if &Digest::hash(&pcs_key) != pcs_key_hash {
+            return Err(CgkaError::UnknownPcsKey);
+        }
+        Ok(pcs_key)
     }
 
     /// Derive [`PcsKey`] for this operation hash.
-- 
2.43.0


From 6d656a924777566c97aeb38755074512661d6ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 42/56] fix: heads of merged operation graphs that have
 successors are no longer heads

---
 beekem/src/operation.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/beekem/src/operation.rs b/beekem/src/operation.rs
index 2648ba9..5f26f8a 100644
--- a/beekem/src/operation.rs
+++ b/beekem/src/operation.rs
@@ -163,6 +163,20 @@ impl Merge for CgkaOperationGraph {
             .extend(fork.cgka_ops_predecessors);
         self.cgka_op_heads.extend(fork.cgka_op_heads);
         self.add_heads.extend(fork.add_heads);
+        // What was a head on one side may have successors on the other
+        for op in self.cgka_ops.values() {
+            for pred in op.payload.predecessors() {
+                self.cgka_op_heads.remove(&pred);
+            }
+            if let CgkaOperation::Add {
+                add_predecessors, ..
+            } = &op.payload
+            {
+                for pred in add_predecessors {
+                    self.add_heads.remove(pred);
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 64d7a750b8d80958707d9174f5c7a6466eec2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 43/56] fix: do not hold the active agent's lock while walking
 all documents

---
 keyhive_core/src/keyhive.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bc5aa1f..712f184 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -710,9 +710,8 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn reachable_docs(&self) -> BTreeMap<DocumentId, Ability<F, S, T, L>> {
-        let active = self.active.dupe();
-        let locked_active = self.active.lock().await;
-        self.docs_reachable_by_agent(&Agent::Active(locked_active.id(), active))
+        let active_id = { self.active.lock().await.id() };
+        self.docs_reachable_by_agent(&Agent::Active(active_id, self.active.dupe()))
             .await
     }
 
-- 
2.43.0


From d390e6093c9a9b023876dcdae8fa24254c8f1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 44/56] fix: do not hold the active agent's lock while merging
 an invite

---
 keyhive_core/src/keyhive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 712f184..12cba5b 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1753,9 +1753,9 @@ impl<
         let active_id = { self.active.lock().await.id() };
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
-            let locked_active = self.active.lock().await;
             if active_id == added_id {
                 let sk = {
+                    let locked_active = self.active.lock().await;
                     let locked_prekeys = locked_active.prekey_pairs.lock().await;
                     *locked_prekeys
                         .get(&pk)
-- 
2.43.0


From 6fd7b8c54df65d22369dab21ec4bfaea114f35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 45/56] fix: keep events that became pending while another
 ingestion was running

---
 keyhive_core/src/keyhive.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 12cba5b..81bb241 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -77,7 +77,6 @@ use std::{
     collections::{hash_map::Entry, BTreeMap, HashMap, HashSet},
     fmt::{Debug, Formatter},
     marker::PhantomData,
-    mem,
     sync::Arc,
 };
 use thiserror::Error;
@@ -2326,11 +2325,18 @@ impl<
                 );
 
                 let new_pending: Vec<Arc<StaticEvent<T>>> =
-                    next_epoch.clone().into_iter().map(Arc::new).collect();
-                drop(mem::replace(
-                    &mut *self.pending_events.lock().await,
-                    new_pending.clone(),
-                ));
+                    next_epoch.into_iter().map(Arc::new).collect();
+                let new_hashes: HashSet<Digest<StaticEvent<T>>> = new_pending
+                    .iter()
+                    .map(|e| Digest::hash(e.as_ref()))
+                    .collect();
+                // Events that were added to the pending ones in the meantime stay there
+                let mut locked_pending = self.pending_events.lock().await;
+                locked_pending.retain(|e| {
+                    let hash = Digest::hash(e.as_ref());
+                    !replayed_pending.contains(&hash) && !new_hashes.contains(&hash)
+                });
+                locked_pending.extend(new_pending.iter().cloned());
                 return new_pending;
             }
 
-- 
2.43.0


From 4c64fde9724437b8491847d296c07601cbb6a8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 46/56] fix: do not panic when a member is removed during a
 membership walk

---
 keyhive_core/src/principal/group.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 38c9f74..8ddc42e 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -326,10 +326,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 _ => None,
             } {
                 for mem_id in membered.members().await.keys() {
-                    let dlg = membered
-                        .get_capability(mem_id)
-                        .await
-                        .expect("members have capabilities by defintion");
+                    // (unless they were removed since we asked for the members)
+                    let Some(dlg) = membered.get_capability(mem_id).await else {
+                        continue;
+                    };
 
                     explore.push((
                         dlg.payload.delegate.dupe(),
-- 
2.43.0


From 8e41936e948e4e6612ff8f7186a384c4db553e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 47/56] fix: do not hold a group's lock while walking its
 transitive members

---
 keyhive_core/src/keyhive.rs            | 91 ++++++++++++++------------
 keyhive_core/src/principal/group.rs    | 31 ++++++---
 keyhive_core/src/principal/membered.rs | 10 +--
 3 files changed, 79 insertions(+), 53 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 81bb241..32d3fde 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -512,14 +512,15 @@ impl<
             let resource_identifier: Identifier = resource.agent_id().into();
             let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
             for doc in &docs {
-                let mut locked_doc = doc.lock().await;
-                if !locked_doc
+                let doc_id = { doc.lock().await.doc_id() };
+                if !Membered::Document(doc_id, doc.dupe())
                     .transitive_members()
                     .await
                     .contains_key(&resource_identifier)
                 {
                     continue;
                 }
+                let mut locked_doc = doc.lock().await;
                 if locked_doc.cgka().is_err() {
                     // We haven't received this doc's CGKA yet, so someone else has to
                     continue;
@@ -568,12 +569,13 @@ impl<
         let mut readers_before = Vec::new();
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in docs {
-            let locked = doc.lock().await;
-            if locked
+            let doc_id = { doc.lock().await.doc_id() };
+            if Membered::Document(doc_id, doc.dupe())
                 .transitive_members()
                 .await
                 .contains_key(&resource_identifier)
             {
+                let locked = doc.lock().await;
                 readers_before.push((doc.dupe(), locked.reader_ids().await));
             }
         }
@@ -720,10 +722,7 @@ impl<
         &self,
         membered: Membered<F, S, T, L>,
     ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        match membered {
-            Membered::Group(_, group) => group.lock().await.transitive_members().await,
-            Membered::Document(_, doc) => doc.lock().await.transitive_members().await,
-        }
+        membered.transitive_members().await
     }
 
     #[instrument(skip_all)]
@@ -736,10 +735,11 @@ impl<
         // TODO will be very slow on large hives. Old code here: https://github.com/inkandswitch/keyhive/pull/111/files:
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in docs {
-            let locked = doc.lock().await;
-            if let Some((_, cap)) = locked.transitive_members().await.get(&agent.id()) {
+            let doc_id = { doc.lock().await.doc_id() };
+            let membered = Membered::Document(doc_id, doc.dupe());
+            if let Some((_, cap)) = membered.transitive_members().await.get(&agent.id()) {
                 caps.insert(
-                    locked.doc_id(),
+                    doc_id,
                     Ability {
                         doc: doc.dupe(),
                         can: *cap,
@@ -768,19 +768,21 @@ impl<
                 .collect::<Vec<_>>()
         };
         for group in groups {
-            let locked = group.lock().await;
-            if let Some((_, can)) = locked.transitive_members().await.get(&agent.id()) {
-                let membered = Membered::Group(locked.group_id(), group.dupe());
-                caps.insert(locked.group_id().into(), (membered, *can));
+            let group_id = { group.lock().await.group_id() };
+            let membered = Membered::Group(group_id, group.dupe());
+            let members = membered.transitive_members().await;
+            if let Some((_, can)) = members.get(&agent.id()) {
+                caps.insert(group_id.into(), (membered, *can));
             }
         }
 
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in docs {
-            let locked = doc.lock().await;
-            if let Some((_, can)) = locked.transitive_members().await.get(&agent.id()) {
-                let membered = Membered::Document(locked.doc_id(), doc.dupe());
-                caps.insert(locked.doc_id().into(), (membered, *can));
+            let doc_id = { doc.lock().await.doc_id() };
+            let membered = Membered::Document(doc_id, doc.dupe());
+            let members = membered.transitive_members().await;
+            if let Some((_, can)) = members.get(&agent.id()) {
+                caps.insert(doc_id.into(), (membered, *can));
             }
         }
 
@@ -957,14 +959,16 @@ impl<
                 .collect::<Vec<_>>()
         };
         for group in &groups {
-            let (group_id, heads, transitive) = {
+            let (group_id, heads) = {
                 let locked = group.lock().await;
                 (
                     locked.group_id(),
                     collect_membership_heads(locked.delegation_heads(), locked.revocation_heads()),
-                    locked.transitive_members().await,
                 )
             };
+            let transitive = Membered::Group(group_id, group.dupe())
+                .transitive_members()
+                .await;
             let source_id: Identifier = group_id.into();
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
@@ -976,14 +980,16 @@ impl<
         // Phase 2: Same for docs
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in &docs {
-            let (doc_id, heads, transitive) = {
+            let (doc_id, heads) = {
                 let locked = doc.lock().await;
                 (
                     locked.doc_id(),
                     collect_membership_heads(locked.delegation_heads(), locked.revocation_heads()),
-                    locked.transitive_members().await,
                 )
             };
+            let transitive = Membered::Document(doc_id, doc.dupe())
+                .transitive_members()
+                .await;
             let source_id: Identifier = doc_id.into();
             ops.insert(source_id, bfs_membership_ops(heads).await);
 
@@ -1055,10 +1061,10 @@ impl<
                 .collect::<Vec<_>>()
         };
         for group in groups {
-            let (group_id, transitive) = {
-                let locked = group.lock().await;
-                (locked.group_id(), locked.transitive_members().await)
-            };
+            let group_id = { group.lock().await.group_id() };
+            let transitive = Membered::Group(group_id, group.dupe())
+                .transitive_members()
+                .await;
             if transitive.contains_key(&agent.id()) {
                 add_many_keys(
                     &mut map,
@@ -1076,10 +1082,10 @@ impl<
 
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in docs {
-            let (doc_id, transitive) = {
-                let locked = doc.lock().await;
-                (locked.doc_id(), locked.transitive_members().await)
-            };
+            let doc_id = { doc.lock().await.doc_id() };
+            let transitive = Membered::Document(doc_id, doc.dupe())
+                .transitive_members()
+                .await;
             if transitive.contains_key(&agent.id()) {
                 add_many_keys(
                     &mut map,
@@ -1138,10 +1144,10 @@ impl<
             TransitiveMembers<F, S, T, L>,
         )> = Vec::with_capacity(groups.len());
         for group in groups {
-            let (group_id, transitive) = {
-                let locked = group.lock().await;
-                (locked.group_id(), locked.transitive_members().await)
-            };
+            let group_id = { group.lock().await.group_id() };
+            let transitive = Membered::Group(group_id, group.dupe())
+                .transitive_members()
+                .await;
             group_data.push((group_id, group, transitive));
         }
 
@@ -1153,10 +1159,10 @@ impl<
             TransitiveMembers<F, S, T, L>,
         )> = Vec::with_capacity(docs.len());
         for doc in docs {
-            let (doc_id, transitive) = {
-                let locked = doc.lock().await;
-                (locked.doc_id(), locked.transitive_members().await)
-            };
+            let doc_id = { doc.lock().await.doc_id() };
+            let transitive = Membered::Document(doc_id, doc.dupe())
+                .transitive_members()
+                .await;
             doc_data.push((doc_id, doc, transitive));
         }
 
@@ -1253,7 +1259,7 @@ impl<
 
         let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
         for doc in &docs {
-            let (doc_id, doc_ops, transitive) = {
+            let (doc_id, doc_ops) = {
                 let locked = doc.lock().await;
                 let doc_id = locked.doc_id();
 
@@ -1272,8 +1278,11 @@ impl<
                     continue;
                 }
 
-                (doc_id, doc_ops, locked.transitive_members().await)
+                (doc_id, doc_ops)
             };
+            let transitive = Membered::Document(doc_id, doc.dupe())
+                .transitive_members()
+                .await;
 
             let source_id: Identifier = doc_id.into();
             for agent_id in transitive.keys() {
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 8ddc42e..a87f3e5 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -294,22 +294,37 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &self,
         avoid: Identifier,
     ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        let mut explore: Vec<(Agent<F, S, T, L>, Access)> = vec![];
+        Self::walk_members(self.id(), avoid, self.direct_capabilities()).await
+    }
 
-        for member in self.members.keys() {
-            let dlg = self
-                .get_capability(member)
-                .expect("members have capabilities by defintion");
+    /// The members, with the access they have got directly.
+    pub(crate) fn direct_capabilities(&self) -> Vec<(Agent<F, S, T, L>, Access)> {
+        self.members
+            .keys()
+            .map(|member| {
+                let dlg = self
+                    .get_capability(member)
+                    .expect("members have capabilities by defintion");
 
-            explore.push((dlg.payload.delegate.dupe(), dlg.payload.can));
-        }
+                (dlg.payload.delegate.dupe(), dlg.payload.can)
+            })
+            .collect()
+    }
 
+    /// Walk from the direct members of `own_id` to all transitive ones. No lock is held
+    /// from one group to the next, so groups that contain each other can be walked
+    /// through at the same time.
+    pub(crate) async fn walk_members(
+        own_id: Identifier,
+        avoid: Identifier,
+        mut explore: Vec<(Agent<F, S, T, L>, Access)>,
+    ) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
         let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
 
         // A path grants the weakest access along it; a member gets their best path.
         while let Some((member, path_access)) = explore.pop() {
             let id = member.id();
-            if id == self.id() || id == avoid {
+            if id == own_id || id == avoid {
                 continue;
             }
 
diff --git a/keyhive_core/src/principal/membered.rs b/keyhive_core/src/principal/membered.rs
index c0082ed..f0b9b1d 100644
--- a/keyhive_core/src/principal/membered.rs
+++ b/keyhive_core/src/principal/membered.rs
@@ -99,10 +99,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        match self {
-            Membered::Group(_, group) => group.lock().await.transitive_members().await,
-            Membered::Document(_, doc) => doc.lock().await.transitive_members().await,
-        }
+        let id: Identifier = self.agent_id().into();
+        let direct = match self {
+            Membered::Group(_, group) => group.lock().await.direct_capabilities(),
+            Membered::Document(_, doc) => doc.lock().await.group.direct_capabilities(),
+        };
+        Group::walk_members(id, id, direct).await
     }
 
     /// The transitive members, without passing through (or locking) `avoid`.
-- 
2.43.0


From 80e7ca1db47dc37c1b442286dede1817ae1acfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 48/56] fix: two deliveries at once could create the same group
 twice, losing one

---
 keyhive_core/src/keyhive.rs | 60 +++++++++++++++----------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 32d3fde..019de5d 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1577,39 +1577,31 @@ impl<
         }
 
         let delegation = Arc::new(delegation);
-        let mut found = false;
-        let mut promoted = None;
-        {
-            if let Some(group) = self.groups.lock().await.get(&GroupId(subject_id)) {
-                found = true;
-                group
-                    .lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(doc) = self.docs.lock().await.get(&DocumentId(subject_id)) {
-                found = true;
-                doc.lock()
-                    .await
-                    .receive_delegation(delegation.clone())
-                    .await?;
-            } else if let Some(indie) = self
-                .individuals
+        // NOTE: held until the group or doc is in there, so that nobody else creates it too
+        let mut locked_groups = self.groups.lock().await;
+        let mut locked_docs = self.docs.lock().await;
+        if let Some(group) = locked_groups.get(&GroupId(subject_id)) {
+            group
                 .lock()
                 .await
-                .remove(&IndividualId(subject_id))
-            {
-                found = true;
-                promoted = Some(
-                    self.promote_individual_to_group(indie, delegation.clone())
-                        .await,
-                );
-            }
-        }
-        if let Some(group) = promoted {
-            self.groups.lock().await.insert(GroupId(subject_id), group);
-        }
-        if !found {
+                .receive_delegation(delegation.clone())
+                .await?;
+        } else if let Some(doc) = locked_docs.get(&DocumentId(subject_id)) {
+            doc.lock()
+                .await
+                .receive_delegation(delegation.clone())
+                .await?;
+        } else if let Some(indie) = self
+            .individuals
+            .lock()
+            .await
+            .remove(&IndividualId(subject_id))
+        {
+            let group = self
+                .promote_individual_to_group(indie, delegation.clone())
+                .await;
+            locked_groups.insert(GroupId(subject_id), group);
+        } else {
             let group = Group::new(
                 GroupId(subject_id),
                 delegation.dupe(),
@@ -1626,13 +1618,9 @@ impl<
                 .and_then(|content_heads| NonEmpty::collect(content_heads.iter().cloned()))
             {
                 let doc = Document::from_group(group, content_heads).await?;
-                let mut locked_docs = self.docs.lock().await;
                 locked_docs.insert(doc.doc_id(), Arc::new(Mutex::new(doc)));
             } else {
-                self.groups
-                    .lock()
-                    .await
-                    .insert(group.group_id(), Arc::new(Mutex::new(group)));
+                locked_groups.insert(group.group_id(), Arc::new(Mutex::new(group)));
             }
         };
 
-- 
2.43.0


From be5cf9ea706437bddd5b8c5cd98d0ac1d673267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 49/56] fix: do not hold all of the maps' locks at once when
 counting

---
 keyhive_core/src/keyhive.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 019de5d..34cffd5 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2436,12 +2436,19 @@ impl<
             }
         }
 
+        // NOTE: one at a time; in the expression below all of them would be held at once
+        let individuals = self.individuals.as_ref().lock().await.len() as u64;
+        let groups = self.groups.as_ref().lock().await.len() as u64;
+        let docs = self.docs.as_ref().lock().await.len() as u64;
+        let delegations = self.delegations.lock().await.len() as u64;
+        let revocations = self.revocations.lock().await.len() as u64;
+
         Stats {
-            individuals: self.individuals.as_ref().lock().await.len() as u64,
-            groups: self.groups.as_ref().lock().await.len() as u64,
-            docs: self.docs.as_ref().lock().await.len() as u64,
-            delegations: self.delegations.lock().await.len() as u64,
-            revocations: self.revocations.lock().await.len() as u64,
+            individuals,
+            groups,
+            docs,
+            delegations,
+            revocations,
             prekeys_expanded,
             prekey_rotations,
             cgka_operations,
-- 
2.43.0


From abbef366a946ab5fd82ee23b8a582fc02c001b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 50/56] fix: a re-invited member reads with all prekeys they
 were added under

---
 keyhive_core/src/keyhive.rs            | 23 ++++++++++++++---------
 keyhive_core/src/principal/document.rs | 20 ++++++++++++++++++++
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 34cffd5..be29716 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1750,18 +1750,23 @@ impl<
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
             if active_id == added_id {
-                let sk = {
+                let prekeys = {
                     let locked_active = self.active.lock().await;
                     let locked_prekeys = locked_active.prekey_pairs.lock().await;
-                    *locked_prekeys
-                        .get(&pk)
-                        .ok_or(ReceiveCgkaOpError::UnknownInvitePrekey(pk))?
+                    locked_prekeys.clone()
                 };
-                if doc
-                    .lock()
-                    .await
-                    .merge_cgka_invite_op(signed_op.clone(), &sk)?
-                {
+                let sk = prekeys
+                    .get(&pk)
+                    .ok_or(ReceiveCgkaOpError::UnknownInvitePrekey(pk))?;
+                let mut locked_doc = doc.lock().await;
+                let merged = locked_doc.merge_cgka_invite_op(signed_op.clone(), sk)?;
+                if merged {
+                    // We read as ourselves from now on, also what was encrypted to us under
+                    // earlier additions (e.g. when we created the document).
+                    locked_doc.insert_invite_secrets(added_id, &prekeys)?;
+                }
+                drop(locked_doc);
+                if merged {
                     self.event_listener.on_cgka_op(&signed_op).await;
                 };
                 return Ok(());
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 6cdfcad..39f511f 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -442,6 +442,26 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.merge_cgka_op(op)
     }
 
+    /// Make the secrets of all prekeys that `id` was added under available to the CGKA.
+    pub(crate) fn insert_invite_secrets(
+        &mut self,
+        id: IndividualId,
+        prekeys: &BTreeMap<ShareKey, ShareSecretKey>,
+    ) -> Result<(), CgkaError> {
+        for epoch in &self.cgka()?.ops()? {
+            for op in epoch.iter() {
+                if let CgkaOperation::Add { added_id, pk, .. } = op.payload {
+                    if IndividualId::from(added_id) == id {
+                        if let Some(sk) = prekeys.get(&pk) {
+                            self.cgka_mut()?.owner_sks_mut().insert(pk, *sk);
+                        }
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     /// Reset the CGKA owner to `owner_id`, preserving `owner_sks`.
     pub fn reset_cgka_owner(&mut self, owner_id: IndividualId) -> Result<(), CgkaError> {
         let owner_sks = self.cgka()?.owner_sks().clone();
-- 
2.43.0


From 943afb11619bb0069bd11fcead271234f5e3f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 51/56] fix: events for an agent are listed under their own
 hashes

---
 keyhive_core/src/keyhive.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index be29716..fa194a6 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -809,7 +809,10 @@ impl<
             .membership_ops_for_agent(agent)
             .await
             .into_iter()
-            .map(|(op_digest, op)| (op_digest.coerce(), op.into()))
+            .map(|(_, op)| {
+                let event = Event::<F, S, T, L>::from(op);
+                (Digest::hash(&event), event)
+            })
             .collect();
 
         for key_ops in self.reachable_prekey_ops_for_agent(agent).await.values() {
-- 
2.43.0


From 98cf151c5594bf1c3ee53564c0b232514dec0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 52/56] fix: ciphertexts are looked up by the update they were
 made at

---
 keyhive_core/src/store/ciphertext/memory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/store/ciphertext/memory.rs b/keyhive_core/src/store/ciphertext/memory.rs
index 590a662..865f563 100644
--- a/keyhive_core/src/store/ciphertext/memory.rs
+++ b/keyhive_core/src/store/ciphertext/memory.rs
@@ -76,7 +76,9 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
                     if let Some(digests) = locked.refs_to_digests.get(content_ref) {
                         for digest in digests.iter() {
                             if let Some((_, encrypted)) = locked.store.get(digest) {
-                                acc.push(encrypted.dupe());
+                                if encrypted.pcs_update_op_hash == *pcs_update_op {
+                                    acc.push(encrypted.dupe());
+                                }
                             }
                         }
                     }
-- 
2.43.0


From a288c5fc948fb1d33c7da5e1ca399eacb047e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 53/56] fix: removing a ciphertext keeps the others listed
 under their update

---
 keyhive_core/src/store/ciphertext/memory.rs | 40 ++++++++++-----------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/keyhive_core/src/store/ciphertext/memory.rs b/keyhive_core/src/store/ciphertext/memory.rs
index 865f563..ea6dcc0 100644
--- a/keyhive_core/src/store/ciphertext/memory.rs
+++ b/keyhive_core/src/store/ciphertext/memory.rs
@@ -133,36 +133,32 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
         digest: &Digest<EncryptedContent<P, Cr>>,
     ) -> Option<Arc<EncryptedContent<P, Cr>>> {
         let mut locked = self.0.lock().await;
+        let locked = &mut *locked;
         let (_, encrypted) = locked.store.remove(digest)?;
 
-        locked
-            .ops_to_refs
-            .entry(encrypted.pcs_update_op_hash)
-            .and_modify(|crs| {
-                crs.remove(&encrypted.content_ref);
-            });
-
-        if locked
-            .ops_to_refs
-            .get(&encrypted.pcs_update_op_hash)?
-            .is_empty()
-        {
-            locked.ops_to_refs.remove(&encrypted.pcs_update_op_hash);
-        }
-
-        locked
-            .refs_to_digests
-            .entry(encrypted.content_ref.clone())
-            .and_modify(|digests| {
-                digests.remove(digest);
+        let mut same_update_left = false;
+        if let Some(digests) = locked.refs_to_digests.get_mut(&encrypted.content_ref) {
+            digests.remove(digest);
+            same_update_left = digests.iter().any(|other| {
+                locked
+                    .store
+                    .get(other)
+                    .is_some_and(|(_, e)| e.pcs_update_op_hash == encrypted.pcs_update_op_hash)
             });
-
-        if let Some(digests) = locked.refs_to_digests.get(&encrypted.content_ref) {
             if digests.is_empty() {
                 locked.refs_to_digests.remove(&encrypted.content_ref);
             }
         }
 
+        if !same_update_left {
+            if let Some(refs) = locked.ops_to_refs.get_mut(&encrypted.pcs_update_op_hash) {
+                refs.remove(&encrypted.content_ref);
+                if refs.is_empty() {
+                    locked.ops_to_refs.remove(&encrypted.pcs_update_op_hash);
+                }
+            }
+        }
+
         Some(encrypted)
     }
 
-- 
2.43.0


From f91cd8f0dc1ece65d8318938f5d0e60ee6325171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 54/56] fix: send the prekeys of former members that membership
 operations still refer to

---
 keyhive_core/src/keyhive.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index fa194a6..6736b22 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1104,6 +1104,17 @@ impl<
             }
         }
 
+        // Former members too: a delegation can only be received by someone who knows the
+        // delegate, and what was delegated or revoked later may depend on it.
+        for op in self.membership_ops_for_agent(agent).await.values() {
+            if let MembershipOperation::Delegation(dlg) = op {
+                let delegate = &dlg.payload.delegate;
+                if !map.contains_key(&delegate.id()) {
+                    add_many_keys(&mut map, delegate.id(), delegate.key_ops().await);
+                }
+            }
+        }
+
         map.into_iter()
             .map(|(id, keys)| (id, KeyOp::topsort(&keys)))
             .collect()
@@ -1198,6 +1209,23 @@ impl<
             }
         }
 
+        // Former members too: a delegation can only be received by someone who knows the
+        // delegate, and what was delegated or revoked later may depend on it.
+        let membership_ops = self.membership_ops_for_all_agents().await;
+        let mut delegates: HashMap<Identifier, HashSet<Identifier>> = HashMap::new();
+        for (source_id, source_ops) in &membership_ops.ops {
+            let source_delegates = delegates.entry(*source_id).or_default();
+            for op in source_ops.values() {
+                if let MembershipOperation::Delegation(dlg) = op {
+                    let delegate = &dlg.payload.delegate;
+                    if let Entry::Vacant(e) = key_ops_cache.entry(delegate.id()) {
+                        e.insert(delegate.key_ops().await);
+                    }
+                    source_delegates.insert(delegate.id());
+                }
+            }
+        }
+
         // Include all registered individuals (even those not in any group/doc)
         for (id, indie) in self.individuals.lock().await.iter() {
             let agent_id: Identifier = (*id).into();
@@ -1247,6 +1275,15 @@ impl<
             }
         }
 
+        for (agent_id, source_ids) in &membership_ops.index {
+            let entry = index.entry(*agent_id).or_default();
+            entry.insert(active_id);
+            entry.insert(*agent_id);
+            for source_id in source_ids {
+                entry.extend(delegates.get(source_id).into_iter().flatten());
+            }
+        }
+
         AllReachablePrekeyOps { ops, index }
     }
 
-- 
2.43.0


From 404ad43924f91349c8aca5bd638e359dbd8749f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 55/56] fix: two calls that both learn of somebody at once do
 not lose prekey operations

---
 keyhive_core/src/keyhive.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 6736b22..4315998 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -347,15 +347,18 @@ impl<
 
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
-                .lock()
-                .await
-                .receive_prekey_op(contact_card.op().dupe())?;
-            indie.dupe()
         } else {
             let new_user = Arc::new(Mutex::new(Individual::from(contact_card)));
             self.register_individual(new_user.dupe()).await;
-            new_user
+            // NOTE: they may have been registered by another call in the meantime
+            self.get_individual(contact_card.id())
+                .await
+                .unwrap_or(new_user)
         };
+        result
+            .lock()
+            .await
+            .receive_prekey_op(contact_card.op().dupe())?;
 
         match contact_card.op() {
             KeyOp::Add(add_op) => {
@@ -1538,7 +1541,10 @@ impl<
         } else {
             let indie = Arc::new(Mutex::new(Individual::new(key_op.clone())));
             self.register_individual(indie.dupe()).await;
-            Agent::Individual(id.into(), indie)
+            // NOTE: they may have been registered by another call in the meantime
+            self.get_agent(id)
+                .await
+                .unwrap_or(Agent::Individual(id.into(), indie))
         };
 
         match agent {
-- 
2.43.0


From 484e8664aa0f92791cc24f94f7875721be1cb719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:21 +0000
Subject: [PATCH 56/56] fix: somebody who adds themselves to an encryption
 group reads with their own prekey

---
 keyhive_core/src/keyhive.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 4315998..505600d 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -539,6 +539,28 @@ impl<
             }
         }
 
+        let active_id = { self.active.lock().await.id() };
+        for cgka_op in &update.cgka_ops {
+            let CgkaOperation::Add {
+                added_id, doc_id, ..
+            } = cgka_op.payload
+            else {
+                continue;
+            };
+            if active_id != added_id.into() {
+                continue;
+            }
+            // We could read without being in the CGKA yet, and read as ourselves from now on
+            if let Some(doc) = self.get_document(doc_id.into()).await {
+                let prekeys = {
+                    let locked_active = self.active.lock().await;
+                    let locked_prekeys = locked_active.prekey_pairs.lock().await;
+                    locked_prekeys.clone()
+                };
+                doc.lock().await.insert_invite_secrets(active_id, &prekeys)?;
+            }
+        }
+
         for cgka_op in &update.cgka_ops {
             self.event_listener
                 .on_cgka_op(&Arc::new(cgka_op.clone()))
-- 
2.43.0


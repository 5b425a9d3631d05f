From 7ad4931e6d57b12a6a3731acfaa02676c68c7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 01/30] fix: transitive access is the best path's weakest link,
 whatever the iteration order

---
 keyhive_core/src/principal/group.rs | 81 ++++++-----------------------
 1 file changed, 16 insertions(+), 65 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 069d18c..82e666c 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -19,7 +19,6 @@ use super::{
     document::{id::DocumentId, AddMemberUpdate, Document, RevokeMemberUpdate},
     identifier::Identifier,
     individual::{id::IndividualId, Individual},
-    membered::Membered,
 };
 use crate::{
     access::Access,
@@ -269,79 +268,31 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
     #[tracing::instrument(skip(self), fields(group_id = %self.group_id()))]
     pub async fn transitive_members(&self) -> HashMap<Identifier, (Agent<F, S, T, L>, Access)> {
-        struct GroupAccess<
-            G: FutureForm,
-            Z: AsyncSigner<G>,
-            U: ContentRef,
-            M: MembershipListener<G, Z, U>,
-        > {
-            agent: Agent<G, Z, U, M>,
-            agent_access: Access,
-            parent_access: Access,
-        }
-
-        let mut explore: Vec<GroupAccess<F, S, T, L>> = vec![];
-        let mut seen: HashSet<([u8; 64], Access)> = HashSet::new();
-
-        for member in self.members.keys() {
-            let dlg = self
-                .get_capability(member)
-                .expect("members have capabilities by defintion");
-
-            seen.insert((dlg.signature.to_bytes(), Access::Admin));
-
-            explore.push(GroupAccess {
-                agent: dlg.payload.delegate.clone(),
-                agent_access: dlg.payload.can,
-                parent_access: Access::Admin,
-            });
-        }
+        // An agent's access is the best one granted by any delegation path,
+        // and a path grants no more than its weakest link.
+        let mut explore: Vec<(Agent<F, S, T, L>, Access)> = self
+            .members
+            .values()
+            .flatten()
+            .map(|dlg| (dlg.payload.delegate.dupe(), dlg.payload.can))
+            .collect();
 
         let mut caps: HashMap<Identifier, (Agent<F, S, T, L>, Access)> = HashMap::new();
 
-        while let Some(GroupAccess {
-            agent: member,
-            agent_access: access,
-            parent_access,
-        }) = explore.pop()
-        {
+        while let Some((member, access)) = explore.pop() {
             let id = member.id();
             if id == self.id() {
                 continue;
             }
 
-            let best_access = *caps
-                .get(&id)
-                .map(|(_, existing_access)| existing_access.max(&access))
-                .unwrap_or(&access);
-
-            let current_path_access = access.min(parent_access);
-            caps.insert(member.id(), (member.dupe(), current_path_access));
-
-            if let Some(membered) = match member {
-                Agent::Group(id, inner_group) => Some(Membered::Group(id, inner_group.dupe())),
-                Agent::Document(id, doc) => Some(Membered::Document(id, doc.dupe())),
-                _ => None,
-            } {
-                for (mem_id, dlgs) in membered.members().await.iter() {
-                    let dlg = membered
-                        .get_capability(mem_id)
-                        .await
-                        .expect("members have capabilities by defintion");
-
-                    caps.insert(*mem_id, (dlg.payload.delegate.dupe(), best_access));
-
-                    'inner: for sub_dlg in dlgs.iter() {
-                        if !seen.insert((sub_dlg.signature.to_bytes(), dlg.payload.can)) {
-                            continue 'inner;
-                        }
+            if caps.get(&id).is_some_and(|(_, known)| *known >= access) {
+                continue;
+            }
+            caps.insert(id, (member.dupe(), access));
 
-                        explore.push(GroupAccess {
-                            agent: sub_dlg.payload.delegate.dupe(),
-                            agent_access: sub_dlg.payload.can,
-                            parent_access: best_access,
-                        });
-                    }
+            if let Some(membered) = member.as_membered() {
+                for dlg in membered.members().await.values().flatten() {
+                    explore.push((dlg.payload.delegate.dupe(), dlg.payload.can.min(access)));
                 }
             }
         }
-- 
2.43.0


From 2c5f6778d2c32fe31919bdb9d49d04624f16d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 02/30] fix: membership cycles no longer deadlock on the group
 being changed

---
 keyhive_core/src/principal/agent.rs       | 23 ++++++-
 keyhive_core/src/principal/document.rs    |  9 ++-
 keyhive_core/src/principal/group.rs       | 68 +++++++++++---------
 keyhive_core/src/principal/group/state.rs | 75 ++++++++++++++---------
 4 files changed, 111 insertions(+), 64 deletions(-)

diff --git a/keyhive_core/src/principal/agent.rs b/keyhive_core/src/principal/agent.rs
index e2e71d9..1e6f9a5 100644
--- a/keyhive_core/src/principal/agent.rs
+++ b/keyhive_core/src/principal/agent.rs
@@ -82,8 +82,17 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 
     pub async fn individual_ids(&self) -> HashSet<IndividualId> {
+        self.individual_ids_except(None).await
+    }
+
+    /// As [`Agent::individual_ids`], without looking into `skip`: for callers
+    /// that hold the lock of that group or document.
+    pub(crate) async fn individual_ids_except(
+        &self,
+        skip: Option<Identifier>,
+    ) -> HashSet<IndividualId> {
         let mut ids = HashSet::new();
-        let mut seen = HashSet::new();
+        let mut seen: HashSet<Identifier> = HashSet::from_iter(skip);
         let mut stack: Vec<Self> = vec![self.dupe()];
 
         while let Some(node) = stack.pop() {
@@ -122,9 +131,19 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
+    ) -> HashMap<IndividualId, ShareKey> {
+        self.pick_individual_prekeys_except(doc_id, None).await
+    }
+
+    /// As [`Agent::pick_individual_prekeys`], without looking into `skip`: for
+    /// callers that hold the lock of that group or document.
+    pub(crate) async fn pick_individual_prekeys_except(
+        &self,
+        doc_id: DocumentId,
+        skip: Option<Identifier>,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut result = HashMap::new();
-        let mut seen = HashSet::new();
+        let mut seen: HashSet<Identifier> = HashSet::from_iter(skip);
         let mut stack: Vec<Self> = vec![self.dupe()];
 
         while let Some(agent) = stack.pop() {
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 9c02e05..3ded3f8 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -262,7 +262,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 .delegation
                 .payload
                 .delegate
-                .pick_individual_prekeys(self.doc_id())
+                .pick_individual_prekeys_except(self.doc_id(), Some(self.id()))
                 .await;
             let cgka_ops_for_this_doc =
                 self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
@@ -302,7 +302,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         // group revocation removes them from the members map.
         let mut ids_to_remove = HashSet::new();
         for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(d.payload().delegate.individual_ids().await);
+            ids_to_remove.extend(
+                d.payload()
+                    .delegate
+                    .individual_ids_except(Some(self.id()))
+                    .await,
+            );
         }
 
         let RevokeMemberUpdate {
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 82e666c..c2c52c6 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -235,7 +235,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     pub async fn individual_ids(&self) -> HashSet<IndividualId> {
         let mut ids = HashSet::new();
         for delegations in self.members.values() {
-            let more_ids = delegations[0].payload().delegate.individual_ids().await;
+            let more_ids = delegations[0]
+                .payload()
+                .delegate
+                .individual_ids_except(Some(self.id()))
+                .await;
             ids.extend(more_ids.iter());
         }
         ids
@@ -255,7 +259,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     crate::principal::public::Public.share_key(),
                 );
             } else {
-                prekeys.extend(agent.pick_individual_prekeys(doc_id).await.iter());
+                prekeys.extend(
+                    agent
+                        .pick_individual_prekeys_except(doc_id, Some(self.id()))
+                        .await
+                        .iter(),
+                );
             }
         }
         prekeys
@@ -449,16 +458,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     .get_capability(member_id)
                     .expect("members have capabilities by definition");
 
-                if let Some(m) = dlg.payload.delegate.as_membered() {
-                    let sub_members = m.transitive_members().await;
-                    if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                        if *sub_access >= can {
-                            best_proof = Some(dlg.dupe());
-                            break;
-                        }
-                        if best_access.is_none_or(|a| *sub_access > a) {
-                            best_access = Some(*sub_access);
-                        }
+                if let Some(sub_access) =
+                    state::transitive_access(&dlg.payload.delegate, signer_id, self.id()).await
+                {
+                    let sub_access = sub_access.min(dlg.payload.can);
+                    if sub_access >= can {
+                        best_proof = Some(dlg.dupe());
+                        break;
+                    }
+                    if best_access.is_none_or(|a| sub_access > a) {
+                        best_access = Some(sub_access);
                     }
                 }
             }
@@ -609,24 +618,23 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             .get_capability(mid)
                             .expect("members have capabilities by definition");
 
-                        if let Some(m) = dlg.payload.delegate.as_membered() {
-                            let sub_members = m.transitive_members().await;
-                            if let Some((_, sub_access)) = sub_members.get(&signer_id) {
-                                if *sub_access >= to_revoke.payload.can {
-                                    let r = self
-                                        .build_revocation(
-                                            signer,
-                                            to_revoke.dupe(),
-                                            Some(dlg.dupe()),
-                                            after_content.clone(),
-                                        )
-                                        .await?;
-                                    revocations.push(r.dupe());
-                                    self.receive_revocation(r).await?;
-                                    found = true;
-                                    break;
-                                }
-                            }
+                        let sub_access =
+                            state::transitive_access(&dlg.payload.delegate, signer_id, self.id())
+                                .await;
+                        if sub_access.is_some_and(|access| access >= to_revoke.payload.can) {
+                            let proof = dlg.dupe();
+                            let r = self
+                                .build_revocation(
+                                    signer,
+                                    to_revoke.dupe(),
+                                    Some(proof),
+                                    after_content.clone(),
+                                )
+                                .await?;
+                            revocations.push(r.dupe());
+                            self.receive_revocation(r).await?;
+                            found = true;
+                            break;
                         }
                     }
                 }
diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index bcd15cb..f8b2050 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -20,7 +20,10 @@ use keyhive_crypto::{
     signer::{async_signer::AsyncSigner, memory::MemorySigner},
     verifiable::Verifiable,
 };
-use std::{collections::BTreeMap, sync::Arc};
+use std::{
+    collections::{BTreeMap, HashMap},
+    sync::Arc,
+};
 
 #[derive(Clone)]
 #[derive_where(Debug, Hash; T)]
@@ -170,12 +173,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 // The signer doesn't directly match the proof's delegate.
                 // Check transitive membership through a group/doc intermediary.
                 let head_id = Identifier::from(head.verifying_key());
-                if !is_transitive_member_of(
-                    &proof.payload.delegate,
-                    head_id,
-                    delegation.payload.can,
-                )
-                .await
+                if transitive_access(&proof.payload.delegate, head_id, self.id.into())
+                    .await
+                    .is_none_or(|access| access < delegation.payload.can)
                 {
                     return Err(AddError::InvalidProofChain);
                 }
@@ -219,12 +219,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 // Check if the revoker has transitive access through the
                 // proof's delegate (a group/doc intermediary).
                 let revoker_id = Identifier::from(revocation.issuer);
-                if !is_transitive_member_of(
-                    &proof.payload.delegate,
-                    revoker_id,
-                    revocation.payload.revoke.payload.can,
-                )
-                .await
+                if transitive_access(&proof.payload.delegate, revoker_id, self.id.into())
+                    .await
+                    .is_none_or(|access| access < revocation.payload.revoke.payload.can)
                 {
                     return Err(AddError::InvalidProofChain);
                 }
@@ -242,12 +239,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
                 if head.verifying_key() != next_proof.payload.delegate.verifying_key() {
                     let head_id = Identifier::from(head.verifying_key());
-                    if !is_transitive_member_of(
-                        &next_proof.payload.delegate,
-                        head_id,
-                        proof.payload.can,
-                    )
-                    .await
+                    if transitive_access(&next_proof.payload.delegate, head_id, self.id.into())
+                        .await
+                        .is_none_or(|access| access < proof.payload.can)
                     {
                         return Err(AddError::InvalidProofChain);
                     }
@@ -309,7 +303,11 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
     }
 }
 
-async fn is_transitive_member_of<
+/// The best access that `member_id` has through `delegate` (a group or document).
+///
+/// Paths that lead back through `subject` are not followed: the caller holds
+/// that group's lock, and its own delegations are validated directly.
+pub(crate) async fn transitive_access<
     F: FutureForm,
     S: AsyncSigner<F>,
     T: ContentRef,
@@ -317,14 +315,31 @@ async fn is_transitive_member_of<
 >(
     delegate: &Agent<F, S, T, L>,
     member_id: Identifier,
-    min_access: Access,
-) -> bool {
-    let Some(m) = delegate.as_membered() else {
-        return false;
-    };
-    m.transitive_members()
-        .await
-        .get(&member_id)
-        .map(|(_, access)| *access >= min_access)
-        .unwrap_or(false)
+    subject: Identifier,
+) -> Option<Access> {
+    let mut best: HashMap<Identifier, Access> = HashMap::new();
+    let mut explore = vec![(delegate.dupe(), Access::Admin)];
+
+    while let Some((agent, access)) = explore.pop() {
+        if agent.id() == subject {
+            continue;
+        }
+        let Some(membered) = agent.as_membered() else {
+            continue;
+        };
+        for dlg in membered.members().await.values().flatten() {
+            let sub_agent = &dlg.payload.delegate;
+            let sub_access = dlg.payload.can.min(access);
+            if best
+                .get(&sub_agent.id())
+                .is_some_and(|known| *known >= sub_access)
+            {
+                continue;
+            }
+            best.insert(sub_agent.id(), sub_access);
+            explore.push((sub_agent.dupe(), sub_access));
+        }
+    }
+
+    best.get(&member_id).copied()
 }
-- 
2.43.0


From 7cd3fd15daa784b7e2623b11211b3f261b53793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 03/30] fix: relays and revoked readers are kept out of a
 document's key agreement

---
 keyhive_core/src/keyhive.rs            | 77 +++++++++-----------------
 keyhive_core/src/principal/agent.rs    |  5 +-
 keyhive_core/src/principal/document.rs | 21 ++-----
 keyhive_core/src/principal/group.rs    | 18 +++++-
 4 files changed, 52 insertions(+), 69 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index bf5ad8d..d252aea 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -502,17 +502,18 @@ impl<
                     let group_identifier: Identifier = (*group_id).into();
                     let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
                     for doc in &docs {
-                        let (contains_group, doc_id) = {
+                        let (group_reads, doc_id) = {
                             let locked = doc.lock().await;
                             (
                                 locked
                                     .transitive_members()
                                     .await
-                                    .contains_key(&group_identifier),
+                                    .get(&group_identifier)
+                                    .is_some_and(|(_, access)| access.is_reader()),
                                 locked.doc_id(),
                             )
                         };
-                        if !contains_group {
+                        if !group_reads {
                             continue;
                         }
                         // Document lock is intentionally dropped before `pick_individual_prekeys`,
@@ -567,27 +568,25 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, collect the revoked member's individual
-        // IDs before the revocation removes them from the members map.
-        let revoked_individual_ids: HashSet<IndividualId> = match resource {
-            Membered::Group(_, group) => {
-                let delegates: Vec<Agent<F, S, T, L>> = {
-                    let locked = group.lock().await;
-                    locked
-                        .members()
-                        .get(&to_revoke)
-                        .into_iter()
-                        .flat_map(|ds| ds.iter().map(|d| d.payload().delegate.dupe()))
-                        .collect()
-                };
-                let mut ids = HashSet::new();
-                for d in &delegates {
-                    ids.extend(d.individual_ids().await);
+        // When revoking from a group, note who can read the documents that
+        // contain it before the revocation changes it.
+        let mut readers_before = Vec::new();
+        if let Membered::Group(group_id, _) = resource {
+            let group_identifier: Identifier = (*group_id).into();
+            let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+            for doc in docs {
+                let locked = doc.lock().await;
+                if locked
+                    .transitive_members()
+                    .await
+                    .contains_key(&group_identifier)
+                {
+                    let readers = locked.group.reader_ids().await;
+                    drop(locked);
+                    readers_before.push((doc, readers));
                 }
-                ids
             }
-            _ => HashSet::new(),
-        };
+        }
 
         let mut update = resource
             .revoke_member(
@@ -601,34 +600,12 @@ impl<
         // Propagate CGKA removals to docs that contain this group.
         // TODO: O(# of docs x `transitive_members()`). We should replace this approach
         // (possibly with a reverse index lookup).
-        if let Membered::Group(group_id, _) = resource {
-            if !revoked_individual_ids.is_empty() {
-                let group_identifier: Identifier = (*group_id).into();
-                let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-                for doc in &docs {
-                    let transitive = {
-                        let locked = doc.lock().await;
-                        locked.transitive_members().await
-                    };
-                    if !transitive.contains_key(&group_identifier) {
-                        continue;
-                    }
-                    let still_reachable: HashSet<IndividualId> = transitive
-                        .into_iter()
-                        .filter_map(|(_, (agent, _))| match agent {
-                            Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
-                            _ => None,
-                        })
-                        .collect();
-                    let mut locked_doc = doc.lock().await;
-                    for &id in &revoked_individual_ids {
-                        if still_reachable.contains(&id) {
-                            continue;
-                        }
-                        if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                            update.cgka_ops.push(op);
-                        }
-                    }
+        for (doc, before) in readers_before {
+            let mut locked_doc = doc.lock().await;
+            let readers_after = locked_doc.group.reader_ids().await;
+            for &id in before.difference(&readers_after) {
+                if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
+                    update.cgka_ops.push(op);
                 }
             }
         }
diff --git a/keyhive_core/src/principal/agent.rs b/keyhive_core/src/principal/agent.rs
index 1e6f9a5..58d532f 100644
--- a/keyhive_core/src/principal/agent.rs
+++ b/keyhive_core/src/principal/agent.rs
@@ -128,6 +128,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         ids
     }
 
+    /// Pick a prekey for everyone who can read what this agent can read.
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
@@ -170,7 +171,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 Agent::Group(_, g) => {
                     let locked_group = g.lock().await;
                     for ms in locked_group.members().values() {
-                        for m in ms {
+                        for m in ms.iter().filter(|m| m.payload.can.is_reader()) {
                             stack.push(m.payload.delegate.dupe());
                         }
                     }
@@ -178,7 +179,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 Agent::Document(_, d) => {
                     let locked_doc = d.lock().await;
                     for ms in locked_doc.members().values() {
-                        for m in ms {
+                        for m in ms.iter().filter(|m| m.payload.can.is_reader()) {
                             stack.push(m.payload.delegate.dupe());
                         }
                     }
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 3ded3f8..ea82a50 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -298,17 +298,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         after_other_doc_content: &mut BTreeMap<DocumentId, Vec<T>>,
     ) -> Result<RevokeMemberUpdate<F, S, T, L>, RevokeMemberError> {
-        // Collect individual IDs from the member being revoked before the
-        // group revocation removes them from the members map.
-        let mut ids_to_remove = HashSet::new();
-        for d in self.group.members.get(&member_id).into_iter().flatten() {
-            ids_to_remove.extend(
-                d.payload()
-                    .delegate
-                    .individual_ids_except(Some(self.id()))
-                    .await,
-            );
-        }
+        // Note who can read before the group revocation changes it.
+        let readers_before = self.group.reader_ids().await;
 
         let RevokeMemberUpdate {
             revocations,
@@ -324,14 +315,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             )
             .await?;
 
-        // After revocation, check which individuals are still reachable via
-        // remaining members. Only remove those that are no longer reachable.
-        let still_reachable = self.group.individual_ids().await;
-        ids_to_remove.retain(|id| !still_reachable.contains(id));
+        // Only remove those that no remaining member keeps as a reader.
+        let readers_after = self.group.reader_ids().await;
 
         // FIXME: We need to check if this has revoked the last member in our group.
         let mut ops = cgka_ops;
-        for id in ids_to_remove {
+        for &id in readers_before.difference(&readers_after) {
             if let Some(op) = self.cgka_mut()?.remove(id, signer).await? {
                 ops.push(op);
             }
diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index c2c52c6..eb9e526 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -245,13 +245,29 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         ids
     }
 
+    /// The individuals that can read what is shared with this group.
+    pub(crate) async fn reader_ids(&self) -> HashSet<IndividualId> {
+        self.transitive_members()
+            .await
+            .into_values()
+            .filter(|(_, access)| access.is_reader())
+            .filter_map(|(agent, _)| match agent {
+                Agent::Individual(id, _) | Agent::Active(id, _) => Some(id),
+                Agent::Group(..) | Agent::Document(..) => None,
+            })
+            .collect()
+    }
+
     pub async fn pick_individual_prekeys(
         &self,
         doc_id: DocumentId,
     ) -> HashMap<IndividualId, ShareKey> {
         let mut prekeys = HashMap::new();
         let public_id = crate::principal::public::Public.id();
-        for (id, (agent, _access)) in self.transitive_members().await.iter() {
+        for (id, (agent, access)) in self.transitive_members().await.iter() {
+            if !access.is_reader() {
+                continue;
+            }
             // Public must always be added with its single well-known key.
             if *id == public_id {
                 prekeys.insert(
-- 
2.43.0


From ed46501c5be1e4baa698e8f3913056a090609ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:49 +0000
Subject: [PATCH 04/30] fix: a revocation needs authority over the delegation
 it revokes

---
 keyhive_core/src/principal/group/state.rs | 34 +++++++++++++++--------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/keyhive_core/src/principal/group/state.rs b/keyhive_core/src/principal/group/state.rs
index f8b2050..4c5f8eb 100644
--- a/keyhive_core/src/principal/group/state.rs
+++ b/keyhive_core/src/principal/group/state.rs
@@ -212,19 +212,29 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         }
 
         if let Some(proof) = &revocation.payload.proof {
-            if revocation.payload.revoke != *proof
-                && !revocation.payload.revoke.payload.is_descendant_of(proof)
-            {
-                // The revoked delegation is not a descendant of the proof.
-                // Check if the revoker has transitive access through the
-                // proof's delegate (a group/doc intermediary).
-                let revoker_id = Identifier::from(revocation.issuer);
-                if transitive_access(&proof.payload.delegate, revoker_id, self.id.into())
+            if proof.subject_id() != Identifier::from(self.id) {
+                return Err(AddError::InvalidSubject(Box::new(proof.subject_id())));
+            }
+
+            // The revoker must have authority over the revoked delegation:
+            // 1. It issued or holds the proof, and the revoked delegation is the
+            //    proof itself or descends from it,
+            // 2. It holds the proof, and the proof makes it an admin, or
+            // 3. It has transitive access through the proof's delegate
+            //    (a group/doc intermediary).
+            let revoker_id = Identifier::from(revocation.issuer);
+            let revoked = &revocation.payload.revoke;
+            let holds_proof = proof.payload.delegate.id() == revoker_id;
+            let is_senior = (holds_proof || proof.issuer == revocation.issuer)
+                && (revoked == proof || revoked.payload.is_descendant_of(proof));
+            let is_admin = holds_proof && proof.payload.can == Access::Admin;
+            if !is_senior
+                && !is_admin
+                && transitive_access(&proof.payload.delegate, revoker_id, self.id.into())
                     .await
-                    .is_none_or(|access| access < revocation.payload.revoke.payload.can)
-                {
-                    return Err(AddError::InvalidProofChain);
-                }
+                    .is_none_or(|access| access < revoked.payload.can)
+            {
+                return Err(AddError::InvalidProofChain);
             }
 
             let lineage = proof.payload.proof_lineage();
-- 
2.43.0


From 81e4b2b45700e81ab10ddc4ff6ce1ec0749598fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:30 +0000
Subject: [PATCH 05/30] fix: an admin can revoke members it did not add

---
 keyhive_core/src/principal/group.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index eb9e526..28df45a 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -569,10 +569,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                     // "Double up" if you're an admin in case you get concurrently demoted.
                     // We include the admin proofs as well since those could also get revoked.
                     for mem_dlg in member_dlgs.clone().iter() {
-                        if mem_dlg.payload.delegate.id() != member_to_remove {
-                            continue;
-                        }
-
                         if mem_dlg.payload().can == Access::Admin {
                             // Use your awesome & terrible admin powers!
                             //
-- 
2.43.0


From f954a9546a9a90f90770cd575d0370884d8216e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 06/30] fix: revoking a member also drops the delegations that
 depended on it

---
 keyhive_core/src/principal/group.rs | 79 ++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 28df45a..bb648ac 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -551,6 +551,38 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             return Ok(RevokeMemberUpdate::default());
         }
 
+        let falls_with_member = |dlg: &Arc<Signed<Delegation<F, S, T, L>>>| {
+            all_to_revoke.contains(dlg)
+                || dlg
+                    .payload
+                    .proof_lineage()
+                    .iter()
+                    .any(|proof| all_to_revoke.contains(proof))
+        };
+        let to_retain: Vec<_> = og_dlgs
+            .iter()
+            .filter(|dlg| {
+                // Don't retain if they've delegated to themself
+                retain_all_other_members
+                    && dlg.payload.delegate.id() != member_to_remove
+                    && falls_with_member(dlg)
+            })
+            .collect();
+        if !to_retain.is_empty() && vk != self.verifying_key() {
+            // Whoever retains the others needs authority that outlives the revocation.
+            let signer_id = Identifier::from(vk);
+            let mut keeps_authority = false;
+            for dlg in og_dlgs.iter().filter(|dlg| !falls_with_member(dlg)) {
+                keeps_authority |= dlg.payload.delegate.id() == signer_id
+                    || state::transitive_access(&dlg.payload.delegate, signer_id, self.id())
+                        .await
+                        .is_some();
+            }
+            if !keeps_authority {
+                return Err(RevokeMemberError::NoProof);
+            }
+        }
+
         if vk == self.verifying_key() {
             // In the (unlikely) case that the group signing key still exists and is doing the revocation.
             // Arguably this could be made impossible, but it would likely be surprising behaviour.
@@ -664,29 +696,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let mut cgka_ops = Vec::new();
 
         let mut redelegations = vec![];
-        if retain_all_other_members {
-            for dlg in og_dlgs.iter() {
-                if dlg.payload.delegate.id() == member_to_remove {
-                    // Don't retain if they've delegated to themself
-                    continue;
-                }
+        for dlg in to_retain {
+            let update = self
+                .add_member_with_manual_content(
+                    dlg.payload.delegate.dupe(),
+                    dlg.payload.can,
+                    signer,
+                    after_content.clone(),
+                )
+                .await?;
 
-                if let Some(proof) = &dlg.payload.proof {
-                    if proof.payload.delegate.id() == member_to_remove {
-                        let update = self
-                            .add_member_with_manual_content(
-                                dlg.payload.delegate.dupe(),
-                                dlg.payload.can,
-                                signer,
-                                after_content.clone(),
-                            )
-                            .await?;
-
-                        cgka_ops.extend(update.cgka_ops);
-                        redelegations.push(update.delegation);
-                    }
-                }
-            }
+            cgka_ops.extend(update.cgka_ops);
+            redelegations.push(update.delegation);
         }
 
         Ok(RevokeMemberUpdate {
@@ -752,14 +773,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if revoked_dlgs.contains(&found_proof.signature.to_bytes())
                             || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
                         {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
+                            if let Some(alt_proofs) = self.members.get(&d.issuer.into()) {
                                 if alt_proofs.iter().filter(|d| *d != found_proof).all(
                                     |alt_proof| alt_proof.payload.can < found_proof.payload.can,
                                 ) {
                                     // No suitable proofs
                                     continue;
                                 }
-                            } else if found_proof.issuer != self.verifying_key() {
+                            } else if d.issuer != self.verifying_key() {
                                 continue;
                             }
                         }
@@ -786,13 +807,15 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         if revoked_dlgs.contains(&found_proof.signature.to_bytes())
                             || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
                         {
-                            if let Some(alt_proofs) = self.members.get(&found_proof.issuer.into()) {
+                            if let Some(alt_proofs) = self.members.get(&r.issuer.into()) {
                                 if !alt_proofs
                                     .iter()
                                     .any(|p| p.payload.can >= found_proof.payload.can)
                                 {
                                     continue;
                                 }
+                            } else if r.issuer != self.verifying_key() {
+                                continue;
                             }
                         }
                     } else if r.issuer != self.verifying_key() {
@@ -816,10 +839,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
                         if let Some(dlg_sigs_to_revoke) = reverse_dlg_dep_map.get(&sig_to_revoke) {
                             for dlg_sig in dlg_sigs_to_revoke.iter() {
-                                revoked_dlgs.insert(*dlg_sig);
-
-                                if let Some(dep_dlg) = dlgs_in_play.remove(dlg_sig) {
-                                    next_to_revoke.push(dep_dlg.signature.to_bytes());
+                                if revoked_dlgs.insert(*dlg_sig) {
+                                    next_to_revoke.push(*dlg_sig);
                                 }
                             }
                         }
-- 
2.43.0


From 21af3e2fa466bf9cc83356b0c0dffe9f85530cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:25 +0000
Subject: [PATCH 07/30] fix: apply concurrent key agreement changes before
 deciding whether an add or remove is needed

---
 beekem/src/cgka.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 56ef512..ebe4cc9 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -242,12 +242,12 @@ impl Cgka {
         pk: ShareKey,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         let leaf_index = self.tree.push_leaf(id, pk.into());
         let predecessors = Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned());
         let add_predecessors = Vec::from_iter(self.ops_graph.add_heads.iter().cloned());
@@ -285,12 +285,12 @@ impl Cgka {
         id: MemberId,
         signer: &S,
     ) -> Result<Option<Signed<CgkaOperation>>, CgkaError> {
-        if !self.tree.contains_id(&id) {
-            return Ok(None);
-        }
         if self.should_replay() {
             self.replay_ops_graph()?;
         }
+        if !self.tree.contains_id(&id) {
+            return Ok(None);
+        }
         if self.group_size() == 1 {
             return Err(CgkaError::RemoveLastMember);
         }
-- 
2.43.0


From 5b6c495143eadf1b8b85ab4f2bc8e5f4d5cd5b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:54 +0000
Subject: [PATCH 08/30] fix: concurrent adds and removes of the same member, or
 of a reused leaf, no longer break key agreement

---
 beekem/src/cgka.rs | 35 ++++++++++++++++++++++++++++++-----
 beekem/src/tree.rs |  5 ++---
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index ebe4cc9..4cc6029 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -420,10 +420,16 @@ impl Cgka {
         }
         match op.payload {
             CgkaOperation::Add { added_id, pk, .. } => {
-                self.tree.push_leaf(added_id, pk.into());
+                // A concurrent operation may already have added this id.
+                if !self.tree.contains_id(&added_id) {
+                    self.tree.push_leaf(added_id, pk.into());
+                }
             }
             CgkaOperation::Remove { id, .. } => {
-                self.tree.remove_id(id)?;
+                // A concurrent operation may already have removed this id.
+                if self.tree.contains_id(&id) {
+                    self.tree.remove_id(id)?;
+                }
             }
             CgkaOperation::Update { ref new_path, .. } => {
                 self.tree.apply_path(new_path);
@@ -457,18 +463,37 @@ impl Cgka {
                 // removed paths and sorting added leaves after all ops are applied.
                 let mut added_ids = Set::new();
                 let mut removed_ids = Set::new();
+                // A removal that would empty the tree waits for the epoch's adds.
+                let mut deferred_removals = BTreeSet::new();
                 for op in epoch.iter() {
                     match op.payload {
                         CgkaOperation::Add { added_id, .. } => {
-                            added_ids.insert(added_id);
+                            deferred_removals.remove(&added_id);
+                            if !self.tree.contains_id(&added_id) {
+                                added_ids.insert(added_id);
+                            }
                         }
-                        CgkaOperation::Remove { id, leaf_idx, .. } => {
-                            removed_ids.insert((id, leaf_idx));
+                        CgkaOperation::Remove { id, .. } => {
+                            if let Ok(leaf_idx) = self.tree.leaf_index_for_id(id) {
+                                let leaf_idx = leaf_idx.u32();
+                                if self.tree.member_count() == 1 {
+                                    deferred_removals.insert(id);
+                                    self.ops_graph.add_op(op, &op.payload.predecessors());
+                                    continue;
+                                }
+                                removed_ids.insert((id, leaf_idx));
+                            }
                         }
                         _ => {}
                     }
                     self.apply_operation(op.clone())?;
                 }
+                for id in deferred_removals {
+                    if self.tree.member_count() > 1 {
+                        let (leaf_idx, _) = self.tree.remove_id(id)?;
+                        removed_ids.insert((id, leaf_idx));
+                    }
+                }
                 self.tree
                     .sort_leaves_and_blank_paths_for_concurrent_membership_changes(
                         added_ids,
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index f5c71f5..a0ff965 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -114,11 +114,10 @@ impl BeeKem {
         for (id, idx) in removed_ids {
             added_ids.remove(&id);
             let leaf_idx = LeafNodeIndex::new(idx);
-            debug_assert!(self.leaf(leaf_idx).is_none());
             // We should have already removed this id during merge, but concurrent
             // updates at other leaves with intersecting paths must be overridden by
-            // this remove.
-            self.blank_leaf_and_path(leaf_idx);
+            // this remove. A concurrent add may have taken over the leaf itself.
+            self.blank_path(treemath::parent(leaf_idx.into()));
         }
         while !added_ids.is_empty() && self.next_leaf_idx.u32() > 0 {
             let leaf_idx = self.next_leaf_idx - 1;
-- 
2.43.0


From 10f37bf4452cb7c252c7441cce9f7ecd3be354ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:37 +0000
Subject: [PATCH 09/30] fix: encrypting to a member whose leaf holds several
 keys no longer panics

---
 beekem/src/tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index a0ff965..7cbe542 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -456,9 +456,12 @@ impl BeeKem {
             // a new DH shared secret to do the encryption for each node.
             let mut used_paired_sibling = false;
             for idx in sibling_resolution {
+                // A leaf can hold several keys of its member (e.g. when the member is
+                // re-added while it rotates its key). It has the secrets of all of
+                // them, so encrypting for one is enough.
                 let next_pk = match self.node_key_for_index(idx)? {
                     NodeKey::ShareKey(share_key) => share_key,
-                    _ => panic!("Sibling resolution nodes should have exactly one ShareKey"),
+                    NodeKey::ConflictKeys(keys) => keys.first,
                 };
                 let encrypted_sk = crate::encrypted::encrypt_secret(
                     self.doc_id.as_bytes(),
-- 
2.43.0


From 4d6d0c35b2af08c7d0a5530d9b14187dac43902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:32 +0000
Subject: [PATCH 10/30] fix: replicas outside the key agreement can merge it

---
 beekem/src/cgka.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 4cc6029..ca05af5 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -591,8 +591,10 @@ impl Cgka {
         .with_new_owner(self.owner_id, self.owner_sks.clone())?;
         rebuilt_cgka.apply_epochs(&epochs)?;
         if rebuilt_cgka.has_pcs_key() {
-            let pcs_key = rebuilt_cgka.pcs_key_from_tree_root()?;
-            rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            // Only a current member can derive the key; anyone else still tracks the tree.
+            if let Ok(pcs_key) = rebuilt_cgka.pcs_key_from_tree_root() {
+                rebuilt_cgka.insert_pcs_key(&pcs_key, Digest::hash(&epochs.last()[0]));
+            }
         }
         Ok(rebuilt_cgka)
     }
-- 
2.43.0


From c327f995d147f464adb4c354b7eda6cdb39032d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:16 +0000
Subject: [PATCH 11/30] fix: what an agent is sent covers former members and
 the full history of member groups and documents

---
 keyhive_core/src/keyhive.rs                   | 49 ++++++++++++++-----
 .../principal/group/membership_operation.rs   | 49 +++++++++++--------
 2 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index d252aea..100c076 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -23,8 +23,9 @@ use crate::{
             error::AddError,
             id::GroupId,
             membership_operation::{
-                bfs_extend_from_revocation, bfs_membership_ops, collect_membership_heads,
-                AllMembershipOps, MembershipOpMap, MembershipOperation, StaticMembershipOperation,
+                bfs_extend_from_revocation, bfs_membership_ops, collect_delegate_heads,
+                collect_membership_heads, AllMembershipOps, MembershipOpMap, MembershipOperation,
+                StaticMembershipOperation,
             },
             revocation::{Revocation, StaticRevocation},
             Group, IdOrIndividual, RevokeMemberError,
@@ -948,15 +949,8 @@ impl<
                         heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
                     }
 
-                    // If this delegation is to a group, include the group's delegation heads
-                    if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                        for dlg in group.lock().await.delegation_heads().values() {
-                            let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                            if !visited_hashes.contains(&dlg_hash) {
-                                heads.push((dlg_hash, dlg.dupe().into()));
-                            }
-                        }
-                    }
+                    // If this delegation is to a group or document, include its heads
+                    heads.extend(collect_delegate_heads(&dlg.payload.delegate).await);
                 }
                 MembershipOperation::Revocation(rev) => {
                     if let Some(proof) = &rev.payload.proof {
@@ -1131,6 +1125,16 @@ impl<
             }
         }
 
+        // The history the agent receives names former members, too
+        for op in self.membership_ops_for_agent(agent).await.values() {
+            if let MembershipOperation::Delegation(dlg) = op {
+                let delegate = &dlg.payload.delegate;
+                if !map.contains_key(&delegate.id()) {
+                    add_many_keys(&mut map, delegate.id(), delegate.key_ops().await);
+                }
+            }
+        }
+
         map.into_iter()
             .map(|(id, keys)| (id, KeyOp::topsort(&keys)))
             .collect()
@@ -1233,6 +1237,22 @@ impl<
             }
         }
 
+        // The history an agent receives names former members, too
+        let membership = self.membership_ops_for_all_agents().await;
+        let mut delegates: HashMap<Identifier, HashSet<Identifier>> = HashMap::new();
+        for (source, source_ops) in &membership.ops {
+            let named = delegates.entry(*source).or_default();
+            for op in source_ops.values() {
+                if let MembershipOperation::Delegation(dlg) = op {
+                    let delegate = &dlg.payload.delegate;
+                    named.insert(delegate.id());
+                    if let Entry::Vacant(e) = key_ops_cache.entry(delegate.id()) {
+                        e.insert(delegate.key_ops().await);
+                    }
+                }
+            }
+        }
+
         let ops: HashMap<Identifier, Vec<Arc<KeyOp>>> = key_ops_cache
             .iter()
             .map(|(id, ca_map)| (*id, KeyOp::topsort(ca_map)))
@@ -1274,6 +1294,13 @@ impl<
             }
         }
 
+        for (agent_id, sources) in &membership.index {
+            let entry = index.entry(*agent_id).or_default();
+            for source in sources {
+                entry.extend(delegates.get(source).into_iter().flatten());
+            }
+        }
+
         AllReachablePrekeyOps { ops, index }
     }
 
diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index e376790..1f60eac 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -571,12 +571,32 @@ pub fn collect_membership_heads<
     heads
 }
 
+/// The heads of the group or document a delegation is made to, if it is to one.
+pub(crate) async fn collect_delegate_heads<
+    F: FutureForm,
+    S: AsyncSigner<F>,
+    T: ContentRef,
+    L: MembershipListener<F, S, T>,
+>(
+    delegate: &Agent<F, S, T, L>,
+) -> Vec<MembershipOpEntry<F, S, T, L>> {
+    match delegate {
+        Agent::Group(_, group) => {
+            let group = group.lock().await;
+            collect_membership_heads(group.delegation_heads(), group.revocation_heads())
+        }
+        Agent::Document(_, doc) => {
+            let doc = doc.lock().await;
+            collect_membership_heads(doc.delegation_heads(), doc.revocation_heads())
+        }
+        Agent::Active(..) | Agent::Individual(..) => Vec::new(),
+    }
+}
+
 /// Enqueue BFS edges from a single [`MembershipOperation`].
 ///
-/// For delegations, follows the proof chain and any `after_revocations`.
-/// When `follow_group_heads` is true, also enqueues the group delegate's
-/// own delegation heads (used during full BFS but not when extending from
-/// a single revocation).
+/// For delegations, follows the proof chain and any `after_revocations`,
+/// and the heads of a group or document delegate.
 ///
 /// For revocations, follows the proof and revoke chains.
 async fn push_membership_edges<
@@ -587,8 +607,6 @@ async fn push_membership_edges<
 >(
     op: &MembershipOperation<F, S, T, L>,
     heads: &mut Vec<MembershipOpEntry<F, S, T, L>>,
-    visited: &HashSet<Digest<MembershipOperation<F, S, T, L>>>,
-    follow_group_heads: bool,
 ) {
     match op {
         MembershipOperation::Delegation(dlg) => {
@@ -598,16 +616,7 @@ async fn push_membership_edges<
             for rev in dlg.payload.after_revocations.iter() {
                 heads.push((Digest::hash(rev.as_ref()).coerce(), rev.dupe().into()));
             }
-            if follow_group_heads {
-                if let Agent::Group(_group_id, group) = &dlg.payload.delegate {
-                    for dlg in group.lock().await.delegation_heads().values() {
-                        let dlg_hash = Digest::hash(dlg.as_ref()).coerce();
-                        if !visited.contains(&dlg_hash) {
-                            heads.push((dlg_hash, dlg.dupe().into()));
-                        }
-                    }
-                }
-            }
+            heads.extend(collect_delegate_heads(&dlg.payload.delegate).await);
         }
         MembershipOperation::Revocation(rev) => {
             if let Some(proof) = &rev.payload.proof {
@@ -620,8 +629,8 @@ async fn push_membership_edges<
 }
 
 /// Walk all [`MembershipOperation`]s reachable from the given heads via BFS,
-/// following proof chains, revoke chains, and (for delegations to groups) the
-/// group's own delegation heads. Returns a map keyed by digest.
+/// following proof chains, revoke chains, and (for delegations to groups and
+/// documents) the delegate's own heads. Returns a map keyed by digest.
 pub async fn bfs_membership_ops<
     F: FutureForm,
     S: AsyncSigner<F>,
@@ -638,7 +647,7 @@ pub async fn bfs_membership_ops<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, &visited, true).await;
+        push_membership_edges(&op, &mut heads).await;
         ops.insert(hash, op);
     }
 
@@ -671,7 +680,7 @@ pub async fn bfs_extend_from_revocation<
             continue;
         }
         visited.insert(hash);
-        push_membership_edges(&op, &mut heads, visited, false).await;
+        push_membership_edges(&op, &mut heads).await;
         all_ops.entry(hash).or_insert(op);
     }
 }
-- 
2.43.0


From 54dbcf0f292a131849f2970c76c9c0e6b2e6dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 12/30] fix: list every prekey operation once, whatever the
 rotations

---
 keyhive_core/src/principal/individual/op.rs | 36 +++++++++++++++++----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/keyhive_core/src/principal/individual/op.rs b/keyhive_core/src/principal/individual/op.rs
index 2963a81..e5cc4b7 100644
--- a/keyhive_core/src/principal/individual/op.rs
+++ b/keyhive_core/src/principal/individual/op.rs
@@ -8,6 +8,7 @@ use crate::{principal::identifier::Identifier, util::content_addressed_map::CaMa
 use derive_more::{From, TryInto};
 use dupe::Dupe;
 use keyhive_crypto::{
+    digest::Digest,
     share_key::ShareKey,
     signed::{Signed, VerificationError},
     verifiable::Verifiable,
@@ -34,7 +35,11 @@ pub enum KeyOp {
 }
 
 impl KeyOp {
+    /// Every operation exactly once, each after an operation that introduced
+    /// the key it rotates (where one is present and the two are not in a cycle).
     pub fn topsort(key_ops: &CaMap<KeyOp>) -> Vec<Arc<KeyOp>> {
+        let new_keys: HashSet<&ShareKey> = key_ops.values().map(|op| op.new_key()).collect();
+
         let mut heads: Vec<Arc<KeyOp>> = vec![];
         let mut rotate_key_ops: HashMap<ShareKey, Vec<Arc<KeyOp>>> = HashMap::new();
 
@@ -44,6 +49,11 @@ impl KeyOp {
                     heads.push(key_op.dupe());
                 }
                 KeyOp::Rotate(rot) => {
+                    // The predecessor may be unknown, e.g. for a contact card
+                    if !new_keys.contains(&rot.payload.old) {
+                        heads.push(key_op.dupe());
+                    }
+
                     rotate_key_ops
                         .entry(rot.payload.old)
                         .or_default()
@@ -53,18 +63,30 @@ impl KeyOp {
         }
 
         let mut topsorted = vec![];
+        let mut seen: HashSet<Digest<KeyOp>> = HashSet::new();
+        let mut leftovers = key_ops.values();
+
+        loop {
+            while let Some(head) = heads.pop() {
+                if !seen.insert(Digest::hash(head.as_ref())) {
+                    continue;
+                }
 
-        while let Some(head) = heads.pop() {
-            if let Some(ops) = rotate_key_ops.get(head.new_key()) {
-                for op in ops.iter() {
-                    heads.push(op.dupe());
+                if let Some(ops) = rotate_key_ops.get(head.new_key()) {
+                    for op in ops.iter() {
+                        heads.push(op.dupe());
+                    }
                 }
+
+                topsorted.push(head.dupe());
             }
 
-            topsorted.push(head.dupe());
+            // Rotations in a cycle are unreachable from any other operation
+            match leftovers.next() {
+                Some(op) => heads.push(op.dupe()),
+                None => break topsorted,
+            }
         }
-
-        topsorted
     }
 
     pub fn new_key(&self) -> &ShareKey {
-- 
2.43.0


From ca7da92fa47a39dd8ef86d734d97f0d403ce184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 13/30] fix: rotations that form a cycle leave a prekey to use

---
 keyhive_core/src/principal/individual/state.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/keyhive_core/src/principal/individual/state.rs b/keyhive_core/src/principal/individual/state.rs
index 561fa8e..eb404d9 100644
--- a/keyhive_core/src/principal/individual/state.rs
+++ b/keyhive_core/src/principal/individual/state.rs
@@ -142,6 +142,11 @@ impl PrekeyState {
             keys.remove(&tombstone);
         }
 
+        // Rotations that form a cycle retire every key, but there must always be one to use
+        if keys.is_empty() {
+            return self.all_keys();
+        }
+
         keys
     }
 }
-- 
2.43.0


From c6d281b5e358bc2bb73762ea829459961443caab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:41 +0000
Subject: [PATCH 14/30] fix: pick prekeys within range

---
 keyhive_core/src/principal/individual.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/keyhive_core/src/principal/individual.rs b/keyhive_core/src/principal/individual.rs
index da4572c..e58d2d6 100644
--- a/keyhive_core/src/principal/individual.rs
+++ b/keyhive_core/src/principal/individual.rs
@@ -222,7 +222,8 @@ fn pseudorandom_in_range(seed: &[u8], max: usize) -> usize {
     while idx.is_none() {
         hash_stream.fill(&mut buf);
         let raw_idx: usize = clamp(buf, shiftsize);
-        if raw_idx <= max {
+        // NOTE an empty range yields 0
+        if raw_idx < max || max == 0 {
             idx = Some(raw_idx)
         }
     }
-- 
2.43.0


From 187e53b7e8ed0ffb25f26ca9662226b76ed8f782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 15/30] fix: what an agent is sent covers revocations of the
 groups it belongs to

---
 keyhive_core/src/keyhive.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 100c076..2500a66 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -907,7 +907,10 @@ impl<
             MembershipOperation<F, S, T, L>,
         )> = Vec::new();
 
+        let mut agent_ids = vec![agent.agent_id()];
         for (mem_rc, _max_acces) in self.membered_reachable_by_agent(agent).await.values() {
+            agent_ids.push(mem_rc.agent_id());
+
             for (hash, dlg_head) in mem_rc.delegation_heads().await.iter() {
                 heads.push((hash.coerce(), dlg_head.dupe().into()));
             }
@@ -917,19 +920,21 @@ impl<
             }
         }
 
-        // Include any revocations for this agent that were missed
-        if let Some(agent_revocations) = self
-            .revocations
-            .lock()
-            .await
-            .get_revocations_for_agent(&agent.agent_id())
-        {
-            for rev in agent_revocations {
+        // Include any revocations for this agent, or for a group or document it
+        // is a member of, that were missed
+        let revocations = self.revocations.lock().await;
+        for agent_id in &agent_ids {
+            for rev in revocations
+                .get_revocations_for_agent(agent_id)
+                .into_iter()
+                .flatten()
+            {
                 let hash: Digest<MembershipOperation<F, S, T, L>> =
                     Digest::hash(rev.as_ref()).coerce();
                 heads.push((hash, rev.into()));
             }
         }
+        drop(revocations);
 
         while let Some((hash, op)) = heads.pop() {
             if visited_hashes.contains(&hash) {
-- 
2.43.0


From 3271313c5198372d52ef046dd890c32211e3b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:29 +0000
Subject: [PATCH 16/30] fix: order a revocation after the delegations it builds
 on, and keep every revocation of a delegation

---
 .../principal/group/membership_operation.rs   | 51 ++++++++++++++-----
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/keyhive_core/src/principal/group/membership_operation.rs b/keyhive_core/src/principal/group/membership_operation.rs
index 1f60eac..6d90151 100644
--- a/keyhive_core/src/principal/group/membership_operation.rs
+++ b/keyhive_core/src/principal/group/membership_operation.rs
@@ -251,8 +251,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        // revoked delegation signature -> revocation digest
-        let mut revoked_dependencies: HashMap<Key, Digest<MembershipOperation<F, S, T, L>>> =
+        // revoked delegation signature -> revocation digests
+        let mut revoked_dependencies: HashMap<Key, Vec<Digest<MembershipOperation<F, S, T, L>>>> =
             HashMap::new();
 
         let mut explore: Vec<MembershipOperation<F, S, T, L>> = vec![];
@@ -280,7 +280,10 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             let parent_digests: Vec<_> = parents.iter().map(|p| p.digest()).collect();
 
             if let MembershipOperation::Revocation(r) = &op {
-                revoked_dependencies.insert((*r.payload.revoke.signature()).into(), digest);
+                revoked_dependencies
+                    .entry((*r.payload.revoke.signature()).into())
+                    .or_default()
+                    .push(digest);
             }
 
             all_ops.insert(digest, (op, parent_digests));
@@ -361,20 +364,40 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         .push(*parent_digest);
                 }
             }
+        }
 
-            if let MembershipOperation::Delegation(d) = op {
-                if let Some(proof) = &d.payload.proof {
-                    if let Some(revoked_digest) = revoked_dependencies.get(&Key(proof.signature)) {
-                        if let Some((revoked_op, _)) = all_ops.get(revoked_digest) {
-                            adjacencies
-                                .add_dependency((*digest, op), (*revoked_digest, revoked_op));
-                            successors_of
-                                .entry(*digest)
-                                .or_default()
-                                .push(*revoked_digest);
-                        }
+        // A delegation comes after the revocations of its proof, except those that
+        // build on it: there is no order in which both can come first.
+        for (digest, (op, _)) in all_ops.iter() {
+            let MembershipOperation::Delegation(d) = op else {
+                continue;
+            };
+            let Some(proof) = &d.payload.proof else {
+                continue;
+            };
+            let Some(revoked_digests) = revoked_dependencies.get(&Key(proof.signature)) else {
+                continue;
+            };
+            let mut revoked_digests = revoked_digests.clone();
+            revoked_digests.sort();
+            for revoked_digest in revoked_digests {
+                let mut builds_on = vec![revoked_digest];
+                let mut seen = HashSet::new();
+                while let Some(next) = builds_on.pop() {
+                    if seen.insert(next) {
+                        builds_on.extend(successors_of.get(&next).into_iter().flatten());
                     }
                 }
+                if seen.contains(digest) {
+                    continue;
+                }
+                if let Some((revoked_op, _)) = all_ops.get(&revoked_digest) {
+                    adjacencies.add_dependency((*digest, op), (revoked_digest, revoked_op));
+                    successors_of
+                        .entry(*digest)
+                        .or_default()
+                        .push(revoked_digest);
+                }
             }
         }
 
-- 
2.43.0


From 9bfccd127ba77e183d85ecdd3604fefff69b4822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:15 +0000
Subject: [PATCH 17/30] fix: a revocation takes effect as a whole, and what its
 issuer gives up does not void it

---
 keyhive_core/src/principal/group.rs | 99 +++++++++++++++++++----------
 1 file changed, 67 insertions(+), 32 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index bb648ac..695fc03 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -571,15 +571,25 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         if !to_retain.is_empty() && vk != self.verifying_key() {
             // Whoever retains the others needs authority that outlives the revocation.
             let signer_id = Identifier::from(vk);
-            let mut keeps_authority = false;
+            let (mut direct, mut transitive) = (None, None);
             for dlg in og_dlgs.iter().filter(|dlg| !falls_with_member(dlg)) {
-                keeps_authority |= dlg.payload.delegate.id() == signer_id
-                    || state::transitive_access(&dlg.payload.delegate, signer_id, self.id())
-                        .await
-                        .is_some();
+                if dlg.payload.delegate.id() == signer_id {
+                    direct = direct.max(Some(dlg.payload.can));
+                } else if let Some(access) =
+                    state::transitive_access(&dlg.payload.delegate, signer_id, self.id()).await
+                {
+                    transitive = transitive.max(Some(access.min(dlg.payload.can)));
+                }
             }
-            if !keeps_authority {
+            let Some(have) = direct.or(transitive) else {
                 return Err(RevokeMemberError::NoProof);
+            };
+            if let Some(dlg) = to_retain.iter().find(|dlg| dlg.payload.can > have) {
+                return Err(AddGroupMemberError::AccessEscalation {
+                    wanted: dlg.payload.can,
+                    have,
+                }
+                .into());
             }
         }
 
@@ -590,7 +600,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 let r = self
                     .build_revocation(signer, to_revoke.dupe(), None, after_content.clone())
                     .await?;
-                self.receive_revocation(r.dupe()).await?;
                 revocations.push(r);
             }
         } else {
@@ -615,7 +624,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                     after_content.clone(),
                                 )
                                 .await?;
-                            self.receive_revocation(r.dupe()).await?;
                             revocations.push(r);
                             found = true;
                         }
@@ -631,7 +639,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                             after_content.clone(),
                         )
                         .await?;
-                    self.receive_revocation(r.dupe()).await?;
                     revocations.push(r);
                     found = true;
                 } else {
@@ -647,8 +654,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                     after_content.clone(),
                                 )
                                 .await?;
-                            revocations.push(r.dupe());
-                            self.receive_revocation(r).await?;
+                            revocations.push(r);
                             break;
                         }
                     }
@@ -675,8 +681,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                                     after_content.clone(),
                                 )
                                 .await?;
-                            revocations.push(r.dupe());
-                            self.receive_revocation(r).await?;
+                            revocations.push(r);
                             found = true;
                             break;
                         }
@@ -689,6 +694,12 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
+        // Only apply them once they are all there: they may take away the authority
+        // that the others rest on.
+        for r in revocations.iter() {
+            self.receive_revocation(r.dupe()).await?;
+        }
+
         for r in revocations.iter() {
             self.listener.on_revocation(r).await
         }
@@ -745,7 +756,8 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         #[allow(clippy::type_complexity)]
         let mut dlgs_in_play: HashMap<[u8; 64], Arc<Signed<Delegation<F, S, T, L>>>> =
             HashMap::new();
-        let mut revoked_dlgs: HashSet<[u8; 64]> = HashSet::new();
+        // {revoked dlg => whose revocations took it away}
+        let mut revoked_dlgs: HashMap<[u8; 64], HashSet<[u8; 32]>> = HashMap::new();
 
         // {dlg_dep => Set<dlgs that depend on it>}
         let mut reverse_dlg_dep_map: HashMap<[u8; 64], HashSet<[u8; 64]>> = HashMap::new();
@@ -770,17 +782,34 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         // If the proof was directly revoked, then check if they've been
                         // re-added some other way. Since `rebuild` recurses,
                         // we only need to check one level.
-                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())
+                        if revoked_dlgs.contains_key(&found_proof.signature.to_bytes())
                             || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
                         {
-                            if let Some(alt_proofs) = self.members.get(&d.issuer.into()) {
-                                if alt_proofs.iter().filter(|d| *d != found_proof).all(
-                                    |alt_proof| alt_proof.payload.can < found_proof.payload.can,
-                                ) {
-                                    // No suitable proofs
-                                    continue;
+                            let other_proof = self
+                                .members
+                                .get(&d.issuer.into())
+                                .into_iter()
+                                .flatten()
+                                .filter(|alt_proof| {
+                                    *alt_proof != found_proof
+                                        && alt_proof.payload.can >= found_proof.payload.can
+                                })
+                                .max_by_key(|p| (p.payload.can, p.signature.to_bytes()));
+                            if let Some(other_proof) = other_proof {
+                                // Rests on that one from here on
+                                reverse_dlg_dep_map
+                                    .entry(other_proof.signature.to_bytes())
+                                    .or_default()
+                                    .insert(d.signature.to_bytes());
+                            } else if self.members.contains_key(&d.issuer.into())
+                                || d.issuer != self.verifying_key()
+                            {
+                                // Falls together with its proof
+                                if let Some(revokers) =
+                                    revoked_dlgs.get(&found_proof.signature.to_bytes()).cloned()
+                                {
+                                    revoked_dlgs.insert(d.signature.to_bytes(), revokers);
                                 }
-                            } else if d.issuer != self.verifying_key() {
                                 continue;
                             }
                         }
@@ -789,7 +818,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                         continue;
                     }
 
-                    if revoked_dlgs.contains(&d.signature.to_bytes()) {
+                    if revoked_dlgs.contains_key(&d.signature.to_bytes()) {
                         continue;
                     }
 
@@ -804,9 +833,13 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 }
                 MembershipOperation::Revocation(r) => {
                     if let Some(found_proof) = &r.payload.proof {
-                        if revoked_dlgs.contains(&found_proof.signature.to_bytes())
-                            || !dlgs_in_play.contains_key(&found_proof.signature.to_bytes())
-                        {
+                        // What an agent gives up itself does not void its revocations:
+                        // nothing says which of them came first.
+                        let lost_proof = match revoked_dlgs.get(&found_proof.signature.to_bytes()) {
+                            Some(revokers) => revokers.iter().any(|k| k != r.issuer.as_bytes()),
+                            None => !dlgs_in_play.contains_key(&found_proof.signature.to_bytes()),
+                        };
+                        if lost_proof {
                             if let Some(alt_proofs) = self.members.get(&r.issuer.into()) {
                                 if !alt_proofs
                                     .iter()
@@ -831,18 +864,20 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
 
                     let mut next_to_revoke = vec![r.payload.revoke.signature.to_bytes()];
                     while let Some(sig_to_revoke) = next_to_revoke.pop() {
-                        revoked_dlgs.insert(sig_to_revoke);
+                        let newly_revoked = revoked_dlgs
+                            .entry(sig_to_revoke)
+                            .or_default()
+                            .insert(*r.issuer.as_bytes());
+                        if !newly_revoked {
+                            continue;
+                        }
 
                         if let Some(dlg) = dlgs_in_play.remove(&sig_to_revoke) {
                             to_drop.push((dlg.payload.delegate.id(), sig_to_revoke));
                         }
 
                         if let Some(dlg_sigs_to_revoke) = reverse_dlg_dep_map.get(&sig_to_revoke) {
-                            for dlg_sig in dlg_sigs_to_revoke.iter() {
-                                if revoked_dlgs.insert(*dlg_sig) {
-                                    next_to_revoke.push(*dlg_sig);
-                                }
-                            }
+                            next_to_revoke.extend(dlg_sigs_to_revoke.iter());
                         }
                     }
 
-- 
2.43.0


From b040d3f540a2fb3c50b23ac5f14f9712ff5f64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 18/30] fix: revocations stay in force after restoring from an
 archive

---
 keyhive_core/src/keyhive.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 2500a66..0a10b49 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2234,6 +2234,14 @@ impl<
             .await?;
         }
 
+        // The archive does not hold which revocations are in force
+        for group in groups.values() {
+            group.lock().await.rebuild().await;
+        }
+        for doc in docs.values() {
+            doc.lock().await.rebuild().await;
+        }
+
         let mut pending_events = Vec::new();
         for event in &archive.pending_events {
             pending_events.push(Arc::new(event.clone()));
-- 
2.43.0


From 41b35dc9a40ac6e0b4ea35d74acf6cd0613da3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 19/30] fix: ingesting an archive keeps its key agreement and
 its pending events

---
 beekem/src/operation.rs                | 17 ++++++++++++++
 keyhive_core/src/keyhive.rs            | 32 ++++++++++++++++++++++++--
 keyhive_core/src/principal/document.rs |  9 ++++++++
 3 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/beekem/src/operation.rs b/beekem/src/operation.rs
index 2648ba9..be8935f 100644
--- a/beekem/src/operation.rs
+++ b/beekem/src/operation.rs
@@ -163,6 +163,23 @@ impl Merge for CgkaOperationGraph {
             .extend(fork.cgka_ops_predecessors);
         self.cgka_op_heads.extend(fork.cgka_op_heads);
         self.add_heads.extend(fork.add_heads);
+
+        // A head of one side may have been built on by the other
+        for predecessors in self.cgka_ops_predecessors.values() {
+            for predecessor in predecessors.iter() {
+                self.cgka_op_heads.remove(predecessor);
+            }
+        }
+        for op in self.cgka_ops.values() {
+            if let CgkaOperation::Add {
+                add_predecessors, ..
+            } = &op.payload
+            {
+                for predecessor in add_predecessors {
+                    self.add_heads.remove(predecessor);
+                }
+            }
+        }
     }
 }
 
diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 0a10b49..c3efede 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2270,6 +2270,7 @@ impl<
         archive: Archive<T>,
     ) -> Result<Vec<Arc<StaticEvent<T>>>, ReceiveStaticEventError<F, S, T, L>> {
         tracing::debug!("Keyhive::ingest_archive()");
+        let archive_id = archive.id();
         {
             let locked_active = self.active.lock().await;
             {
@@ -2296,7 +2297,7 @@ impl<
                 locked_indies.insert(id, Arc::new(Mutex::new(indie)));
             }
         }
-        let events = archive
+        let mut events = archive
             .topsorted_ops
             .into_iter()
             .map(|(_, op)| match op {
@@ -2304,7 +2305,34 @@ impl<
                 StaticMembershipOperation::Revocation(signed) => StaticEvent::Revoked(signed),
             })
             .collect::<Vec<_>>();
-        Ok(self.ingest_unsorted_static_events(events).await)
+        for doc_archive in archive.docs.values() {
+            let Some(cgka) = &doc_archive.cgka else {
+                continue;
+            };
+            for epoch in cgka.ops().map_err(ReceiveCgkaOpError::from)?.iter() {
+                events.extend(
+                    epoch
+                        .iter()
+                        .map(|op| StaticEvent::CgkaOperation(Box::new(op.as_ref().clone()))),
+                );
+            }
+        }
+        events.extend(archive.pending_events);
+        let pending = self.ingest_unsorted_static_events(events).await;
+
+        // The secrets of our own key rotations are only in the archive
+        if archive_id == self.id() {
+            for (doc_id, doc_archive) in archive.docs {
+                let Some(doc) = self.get_document(doc_id).await else {
+                    continue;
+                };
+                if let Some(cgka) = doc_archive.cgka {
+                    doc.lock().await.merge_cgka(cgka);
+                }
+            }
+        }
+
+        Ok(pending)
     }
 
     #[instrument(skip_all)]
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index ea82a50..6de2e79 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -27,6 +27,7 @@ use crate::{
         delegation::DelegationStore,
         revocation::RevocationStore,
     },
+    transact::merge::Merge,
 };
 use beekem::{
     encrypted::EncryptedContent,
@@ -427,6 +428,14 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         self.merge_cgka_op(op)
     }
 
+    /// Merges what another instance of the same user knows about this document's CGKA.
+    pub(crate) fn merge_cgka(&mut self, other: Cgka) {
+        match &mut self.cgka {
+            Some(cgka) => cgka.merge(other),
+            None => self.cgka = Some(other),
+        }
+    }
+
     /// Reset the CGKA owner to `owner_id`, preserving `owner_sks`.
     pub fn reset_cgka_owner(&mut self, owner_id: IndividualId) -> Result<(), CgkaError> {
         let owner_sks = self.cgka()?.owner_sks().clone();
-- 
2.43.0


From 28de33c00fddecca835b89e74530f7fb26f3eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 20/30] fix: verify contact cards and prekey operations of
 unknown agents before registering them

---
 keyhive_core/src/keyhive.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index c3efede..f555788 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -344,6 +344,8 @@ impl<
         &self,
         contact_card: &ContactCard,
     ) -> Result<Arc<Mutex<Individual>>, ReceivePrekeyOpError> {
+        contact_card.op().try_verify()?;
+
         let result = if let Some(indie) = self.get_individual(contact_card.id()).await {
             indie
                 .lock()
@@ -1550,6 +1552,7 @@ impl<
         if id == Public.id() {
             return Ok(());
         }
+        key_op.try_verify()?;
         let agent = if let Some(agent) = self.get_agent(id).await {
             agent
         } else {
-- 
2.43.0


From 98ce0fb2385c1967fd894761a309e98110312c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 21/30] fix: order tree node indices without overflow, also
 those that were received

---
 beekem/src/treemath.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/beekem/src/treemath.rs b/beekem/src/treemath.rs
index e8d037b..feb4b2b 100644
--- a/beekem/src/treemath.rs
+++ b/beekem/src/treemath.rs
@@ -199,7 +199,14 @@ impl TreeNodeIndex {
 
 impl Ord for TreeNodeIndex {
     fn cmp(&self, other: &TreeNodeIndex) -> Ordering {
-        self.u32().cmp(&other.u32())
+        // Compares tree indices, which may not fit a `u32` for an index off the wire
+        fn key(index: &TreeNodeIndex) -> (u32, bool) {
+            match index {
+                TreeNodeIndex::Leaf(leaf) => (leaf.0, false),
+                TreeNodeIndex::Inner(inner) => (inner.0, true),
+            }
+        }
+        key(self).cmp(&key(other))
     }
 }
 
-- 
2.43.0


From 85bc7c061f66e30ce08e77378b420e63a45878b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:01 +0000
Subject: [PATCH 22/30] fix: accept key agreement operations only from and for
 readers

---
 keyhive_core/src/keyhive.rs | 54 +++++++++++++++++++++++++++++++++++++
 1 file changed, 54 insertions(+)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index f555788..ca04970 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1805,6 +1805,10 @@ impl<
                 .dupe()
         };
 
+        if !self.is_cgka_op_among_readers(doc_id, &signed_op).await {
+            return Err(ReceiveCgkaOpError::NotAReader(doc_id));
+        }
+
         let signed_op = Arc::new(signed_op);
         if let CgkaOperation::Add { added_id, pk, .. } = signed_op.payload {
             let added_id: IndividualId = added_id.into();
@@ -1843,6 +1847,52 @@ impl<
         Ok(())
     }
 
+    /// Whether a CGKA operation was made by someone who can (or once could) read the
+    /// document, and gives its keys only to such readers.
+    ///
+    /// Past readers count because the operation may be concurrent with their removal.
+    async fn is_cgka_op_among_readers(
+        &self,
+        doc_id: DocumentId,
+        signed_op: &Signed<CgkaOperation>,
+    ) -> bool {
+        let mut delegates: HashMap<Identifier, Vec<Identifier>> = HashMap::new();
+        for dlg in self.delegations.lock().await.values() {
+            if dlg.payload.can.is_reader() {
+                delegates
+                    .entry(dlg.subject_id())
+                    .or_default()
+                    .push(dlg.payload.delegate.id());
+            }
+        }
+
+        let mut readers: HashSet<Identifier> = HashSet::new();
+        let mut to_visit = vec![Identifier::from(doc_id)];
+        while let Some(id) = to_visit.pop() {
+            if readers.insert(id) {
+                to_visit.extend(delegates.remove(&id).unwrap_or_default());
+            }
+        }
+
+        let public = Public.id();
+        let author: Identifier = signed_op.issuer.into();
+        if !readers.contains(&author) && !readers.contains(&public) {
+            return false;
+        }
+
+        match &signed_op.payload {
+            CgkaOperation::Add { added_id, .. } => {
+                readers.contains(&IndividualId::from(*added_id).into())
+            }
+            CgkaOperation::Update { id, new_path, .. } => {
+                let owner: Identifier = IndividualId::from(*id).into();
+                new_path.leaf_id == *id
+                    && (owner == author || owner == public || owner == Identifier::from(doc_id))
+            }
+            CgkaOperation::Remove { .. } => true,
+        }
+    }
+
     #[instrument(skip_all)]
     pub async fn promote_individual_to_group(
         &self,
@@ -2805,6 +2855,9 @@ pub enum ReceiveCgkaOpError {
 
     #[error("Unknown invite prekey for received CGKA add op: {0}")]
     UnknownInvitePrekey(ShareKey),
+
+    #[error("Received CGKA op that is not by and about known readers of document {0}")]
+    NotAReader(DocumentId),
 }
 
 impl ReceiveCgkaOpError {
@@ -2814,6 +2867,7 @@ impl ReceiveCgkaOpError {
             Self::VerificationError(_) => false,
             Self::UnknownDocument(_) => false,
             Self::UnknownInvitePrekey(_) => false,
+            Self::NotAReader(_) => false,
         }
     }
 }
-- 
2.43.0


From bdb996f02354462c41a973cbd5f084a5589e8ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 23/30] fix: merging a transaction keeps what the fork received
 and its key rotations

---
 keyhive_core/src/keyhive.rs | 44 +++++++------------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index ca04970..d8acafd 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -2645,42 +2645,14 @@ where
     Log<F, S, T>: MembershipListener<F, S, T>,
 {
     async fn merge_async(&self, fork: Self::AsyncForked) {
-        let forked_active = { fork.active.lock().await.clone() };
-        let locked = self.lock().await;
-        locked.active.lock().await.merge_async(forked_active).await;
-
-        {
-            let mut locked_fork_indies = fork.individuals.lock().await;
-            let mut locked_indies = locked.individuals.lock().await;
-            for (id, forked_indie) in locked_fork_indies.drain() {
-                if let Some(og_indie) = locked_indies.get(&id) {
-                    og_indie
-                        .lock()
-                        .await
-                        .merge(forked_indie.lock().await.clone())
-                } else {
-                    locked_indies.insert(id, forked_indie);
-                }
-            }
-        }
-
-        let forked_listener = { fork.event_listener.0.lock().await.clone() };
-        for event in forked_listener.iter() {
-            match event {
-                Event::PrekeysExpanded(_add_op) => {
-                    continue; // NOTE: handled above
-                }
-                Event::PrekeyRotated(_rot_op) => {
-                    continue; // NOTE: handled above
-                }
-                _ => {}
-            }
-
-            locked
-                .receive_static_event(event.clone().into())
-                .await
-                .expect("prechecked events to work");
-        }
+        // NOTE: not only what the fork's listener saw, but also what the fork received,
+        // what it is still waiting for, and the secrets of its key rotations
+        let archive = fork.into_archive().await;
+        self.lock()
+            .await
+            .ingest_archive(archive)
+            .await
+            .expect("archive of a fork to be well formed");
     }
 }
 
-- 
2.43.0


From ac1d7daad93477131aab0d5427d453f0d31b28df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 24/30] fix: causal decryption decrypts each content once and
 reports every missing ancestor

---
 keyhive_core/src/principal/document.rs | 11 ++++++++++-
 keyhive_core/src/store/ciphertext.rs   |  8 +++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 6de2e79..2294108 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -576,7 +576,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             }
         }
 
-        Ok(store.try_causal_decrypt(&mut to_decrypt).await?)
+        match store.try_causal_decrypt(&mut to_decrypt).await {
+            Ok(mut progress) => {
+                progress.next.extend(acc.next);
+                Ok(progress)
+            }
+            Err(mut err) => {
+                err.progress.next.extend(acc.next);
+                Err(err.into())
+            }
+        }
     }
 
     #[instrument(skip_all)]
diff --git a/keyhive_core/src/store/ciphertext.rs b/keyhive_core/src/store/ciphertext.rs
index c9e9f00..3cc186b 100644
--- a/keyhive_core/src/store/ciphertext.rs
+++ b/keyhive_core/src/store/ciphertext.rs
@@ -198,14 +198,20 @@ impl<F: FutureForm, Cr: ContentRef, T, S: CiphertextStore<F, Cr, T>> CiphertextS
                                 continue;
                             }
                             Ok(envelope) => {
+                                // An earlier attempt may have come with the wrong key
+                                cannot.remove(&content_ref);
+
                                 for (ancestor_ref, ancestor_key) in envelope.ancestors.iter() {
                                     match self.get_ciphertext(ancestor_ref).await {
                                         Err(e) => {
-                                            seen.remove(&content_ref);
                                             cannot.insert(
                                                 content_ref.clone(),
                                                 ErrorReason::GetCiphertextError(e),
                                             );
+                                            // NOTE: this content is done, so keep the key for a retry
+                                            progress
+                                                .next
+                                                .insert(ancestor_ref.clone(), *ancestor_key);
                                             continue;
                                         }
                                         Ok(None) => {
-- 
2.43.0


From a1c02d3d1730b00d0ec6299e339c0c40134b3853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 25/30] fix: the ciphertext store finds only what is under the
 update, and keeps the rest when one is removed

---
 keyhive_core/src/store/ciphertext/memory.rs | 38 ++++++++++++++-------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/keyhive_core/src/store/ciphertext/memory.rs b/keyhive_core/src/store/ciphertext/memory.rs
index 590a662..8ba2941 100644
--- a/keyhive_core/src/store/ciphertext/memory.rs
+++ b/keyhive_core/src/store/ciphertext/memory.rs
@@ -76,7 +76,10 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
                     if let Some(digests) = locked.refs_to_digests.get(content_ref) {
                         for digest in digests.iter() {
                             if let Some((_, encrypted)) = locked.store.get(digest) {
-                                acc.push(encrypted.dupe());
+                                // The same content may also be there under other updates
+                                if encrypted.pcs_update_op_hash == *pcs_update_op {
+                                    acc.push(encrypted.dupe());
+                                }
                             }
                         }
                     }
@@ -134,12 +137,30 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
         let (_, encrypted) = locked.store.remove(digest)?;
 
         locked
-            .ops_to_refs
-            .entry(encrypted.pcs_update_op_hash)
-            .and_modify(|crs| {
-                crs.remove(&encrypted.content_ref);
+            .refs_to_digests
+            .entry(encrypted.content_ref.clone())
+            .and_modify(|digests| {
+                digests.remove(digest);
             });
 
+        // Other ciphertexts of the same content may share the update
+        let shares_update = locked
+            .refs_to_digests
+            .get(&encrypted.content_ref)
+            .into_iter()
+            .flatten()
+            .filter_map(|other| locked.store.get(other))
+            .any(|(_, other)| other.pcs_update_op_hash == encrypted.pcs_update_op_hash);
+
+        if !shares_update {
+            locked
+                .ops_to_refs
+                .entry(encrypted.pcs_update_op_hash)
+                .and_modify(|crs| {
+                    crs.remove(&encrypted.content_ref);
+                });
+        }
+
         if locked
             .ops_to_refs
             .get(&encrypted.pcs_update_op_hash)?
@@ -148,13 +169,6 @@ impl<Cr: ContentRef, P> MemoryCiphertextStore<Cr, P> {
             locked.ops_to_refs.remove(&encrypted.pcs_update_op_hash);
         }
 
-        locked
-            .refs_to_digests
-            .entry(encrypted.content_ref.clone())
-            .and_modify(|digests| {
-                digests.remove(digest);
-            });
-
         if let Some(digests) = locked.refs_to_digests.get(&encrypted.content_ref) {
             if digests.is_empty() {
                 locked.refs_to_digests.remove(&encrypted.content_ref);
-- 
2.43.0


From 83e1f56fd4493d483d075453e1a3577574385e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 26/30] fix: a ciphertext with an altered update hash does no
 harm to later encryptions

---
 beekem/src/cgka.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index ca05af5..1347306 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -216,9 +216,6 @@ impl Cgka {
     ) -> Result<SymmetricKey, CgkaError> {
         let pcs_key =
             self.pcs_key_from_hashes(&encrypted.pcs_key_hash, &encrypted.pcs_update_op_hash)?;
-        if !self.pcs_keys.contains_key(&encrypted.pcs_key_hash) {
-            self.insert_pcs_key(&pcs_key, encrypted.pcs_update_op_hash);
-        }
         let app_secret = pcs_key.derive_application_secret(
             &encrypted.nonce,
             &encrypted.content_ref,
@@ -541,6 +538,11 @@ impl Cgka {
         if self.has_pcs_key() {
             if let Ok(pcs_key) = self.pcs_key_from_tree_root() {
                 if &Digest::hash(&pcs_key) == pcs_key_hash {
+                    // NOTE: the content is not authenticated, so its `update_op_hash` may be wrong.
+                    // `has_pcs_key()` above guarantees a single head.
+                    if let Some(head) = self.ops_graph.cgka_op_heads.iter().next().copied() {
+                        self.insert_pcs_key(&pcs_key, head);
+                    }
                     return Ok(pcs_key);
                 }
             }
-- 
2.43.0


From 6b39e2cac7acf60b0a4476322f8043963f14674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:01 +0000
Subject: [PATCH 27/30] fix: announce a revocation once, and only when it is
 accepted

---
 keyhive_core/src/principal/group.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/keyhive_core/src/principal/group.rs b/keyhive_core/src/principal/group.rs
index 695fc03..dfb5446 100644
--- a/keyhive_core/src/principal/group.rs
+++ b/keyhive_core/src/principal/group.rs
@@ -407,9 +407,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         &mut self,
         revocation: Arc<Signed<Revocation<F, S, T, L>>>,
     ) -> Result<Digest<Signed<Revocation<F, S, T, L>>>, error::AddError> {
-        self.listener.on_revocation(&revocation).await;
-        let digest = self.state.add_revocation(revocation).await?;
+        let digest = self.state.add_revocation(revocation.dupe()).await?;
         self.rebuild().await;
+        self.listener.on_revocation(&revocation).await;
         Ok(digest)
     }
 
@@ -700,10 +700,6 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             self.receive_revocation(r.dupe()).await?;
         }
 
-        for r in revocations.iter() {
-            self.listener.on_revocation(r).await
-        }
-
         let mut cgka_ops = Vec::new();
 
         let mut redelegations = vec![];
-- 
2.43.0


From 61302f538882eb26ede62d07bd8e36721092544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 28/30] fix: calls at the same time do not wait for each other
 forever

---
 keyhive_core/src/keyhive.rs            | 38 ++++++++++++++++----------
 keyhive_core/src/principal/document.rs | 22 +++++++++++----
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index d8acafd..49b776b 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -250,9 +250,10 @@ impl<
         &self,
         coparents: Vec<Peer<F, S, T, L>>,
     ) -> Result<Arc<Mutex<Group<F, S, T, L>>>, SigningError> {
+        let active_id = { self.active.lock().await.id() };
         let group = Group::generate(
             NonEmpty {
-                head: Agent::Active(self.active.lock().await.id(), self.active.dupe()),
+                head: Agent::Active(active_id, self.active.dupe()),
                 tail: coparents.into_iter().map(Into::into).collect(),
             },
             self.delegations.dupe(),
@@ -490,12 +491,23 @@ impl<
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>], // TODO make this automatic
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         let signer = { self.active.lock().await.signer.clone() };
+
+        // NOTE: not while the resource is locked
+        let mut after_content = BTreeMap::new();
+        for doc in other_relevant_docs {
+            let locked = doc.lock().await;
+            after_content.insert(
+                locked.doc_id(),
+                locked.content_heads.iter().cloned().collect::<Vec<T>>(),
+            );
+        }
+
         let update = match resource {
             Membered::Group(group_id, group) => {
                 let mut update = group
                     .lock()
                     .await
-                    .add_member(to_add, can, &signer, other_relevant_docs)
+                    .add_member_with_manual_content(to_add, can, &signer, after_content)
                     .await?;
 
                 // Propagate CGKA adds to docs that contain this group.
@@ -541,7 +553,7 @@ impl<
             Membered::Document(_, doc) => {
                 let mut locked = doc.lock().await;
                 locked
-                    .add_member(to_add, can, &signer, other_relevant_docs)
+                    .add_member_with_manual_content(to_add, can, &signer, after_content)
                     .await?
             }
         };
@@ -649,9 +661,9 @@ impl<
     ) -> Result<(EncryptedContentWithUpdate<T>, SymmetricKey), EncryptContentError> {
         let signer = { self.active.lock().await.signer.clone() };
         let (result, application_secret_key) = {
+            let mut locked_doc = doc.lock().await;
             let mut locked_csprng = self.csprng.lock().await;
-            doc.lock()
-                .await
+            locked_doc
                 .try_encrypt_content_keyed(
                     content_ref,
                     content,
@@ -712,21 +724,19 @@ impl<
         doc: Arc<Mutex<Document<F, S, T, L>>>,
     ) -> Result<(Signed<CgkaOperation>, ShareKey, ShareSecretKey), EncryptError> {
         let signer = { self.active.lock().await.signer.clone() };
-        let mut locked_csprng = self.csprng.lock().await;
-        let (op, new_share_key, new_share_secret_key) = doc
-            .lock()
-            .await
-            .pcs_update(&signer, &mut *locked_csprng)
-            .await?;
+        let (op, new_share_key, new_share_secret_key) = {
+            let mut locked_doc = doc.lock().await;
+            let mut locked_csprng = self.csprng.lock().await;
+            locked_doc.pcs_update(&signer, &mut *locked_csprng).await?
+        };
         self.event_listener.on_cgka_op(&Arc::new(op.clone())).await;
         Ok((op, new_share_key, new_share_secret_key))
     }
 
     #[instrument(skip_all)]
     pub async fn reachable_docs(&self) -> BTreeMap<DocumentId, Ability<F, S, T, L>> {
-        let active = self.active.dupe();
-        let locked_active = self.active.lock().await;
-        self.docs_reachable_by_agent(&Agent::Active(locked_active.id(), active))
+        let active_id = { self.active.lock().await.id() };
+        self.docs_reachable_by_agent(&Agent::Active(active_id, self.active.dupe()))
             .await
     }
 
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 2294108..2c2dc36 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -165,9 +165,9 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         csprng: Arc<Mutex<R>>,
     ) -> Result<Self, GenerateDocError> {
-        let mut locked_csprng = csprng.lock().await;
+        // NOTE: never while waiting for another lock
         let (group_result, group_vk) =
-            EphemeralSigner::with_signer(&mut *locked_csprng, |verifier, signer| {
+            EphemeralSigner::with_signer(&mut *csprng.lock().await, |verifier, signer| {
                 Group::generate_after_content(
                     signer,
                     verifier,
@@ -185,7 +185,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         let group = group_result.await?;
         let owner_id = IndividualId(group_vk.into());
         let doc_id = DocumentId(group.id());
-        let owner_share_secret_key = ShareSecretKey::generate(&mut *locked_csprng);
+        let owner_share_secret_key = ShareSecretKey::generate(&mut *csprng.lock().await);
         let owner_share_key = owner_share_secret_key.share_key();
         let group_members = group.pick_individual_prekeys(doc_id).await;
         let other_members: Vec<(IndividualId, ShareKey)> = group_members
@@ -208,7 +208,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
                 owner_share_key,
                 owner_share_secret_key,
                 signer,
-                &mut *locked_csprng,
+                &mut *csprng.lock().await,
             )
             .await?;
 
@@ -235,7 +235,7 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>],
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
-        let mut after_content: BTreeMap<_, _> =
+        let after_content: BTreeMap<_, _> =
             join_all(other_relevant_docs.iter().map(|doc| async {
                 let locked = doc.lock().await;
                 (
@@ -247,6 +247,18 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
             .into_iter()
             .collect();
 
+        self.add_member_with_manual_content(member_to_add, can, signer, after_content)
+            .await
+    }
+
+    #[allow(clippy::type_complexity)]
+    pub(crate) async fn add_member_with_manual_content(
+        &mut self,
+        member_to_add: Agent<F, S, T, L>,
+        can: Access,
+        signer: &S,
+        mut after_content: BTreeMap<DocumentId, Vec<T>>,
+    ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
         after_content.insert(self.doc_id(), self.content_state.iter().cloned().collect());
 
         let mut update = self
-- 
2.43.0


From 3591492f2b070802c4e1dfd66898ed2acf62d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 29/30] fix: members changed at the same time read exactly what
 they may

---
 beekem/src/cgka.rs                     |  5 +++
 beekem/src/tree.rs                     |  4 ++
 keyhive_core/src/cgka.rs               |  8 ++++
 keyhive_core/src/keyhive.rs            | 51 +++++++++++++-------------
 keyhive_core/src/principal/document.rs | 16 ++++++++
 5 files changed, 58 insertions(+), 26 deletions(-)

diff --git a/beekem/src/cgka.rs b/beekem/src/cgka.rs
index 1347306..0a9b81a 100644
--- a/beekem/src/cgka.rs
+++ b/beekem/src/cgka.rs
@@ -356,6 +356,11 @@ impl Cgka {
         }
     }
 
+    /// The current members
+    pub fn member_ids(&self) -> Vec<MemberId> {
+        self.tree.member_ids().collect()
+    }
+
     /// The current group size
     pub fn group_size(&self) -> u32 {
         self.tree.member_count()
diff --git a/beekem/src/tree.rs b/beekem/src/tree.rs
index 7cbe542..03b4f6f 100644
--- a/beekem/src/tree.rs
+++ b/beekem/src/tree.rs
@@ -90,6 +90,10 @@ impl BeeKem {
         Ok(tree)
     }
 
+    pub fn member_ids(&self) -> impl Iterator<Item = MemberId> + '_ {
+        self.id_to_leaf_idx.keys().copied()
+    }
+
     pub fn contains_id(&self, id: &MemberId) -> bool {
         self.id_to_leaf_idx.contains_key(id)
     }
diff --git a/keyhive_core/src/cgka.rs b/keyhive_core/src/cgka.rs
index 03ae449..4504da2 100644
--- a/keyhive_core/src/cgka.rs
+++ b/keyhive_core/src/cgka.rs
@@ -194,6 +194,14 @@ impl Cgka {
         self.0.update(new_pk, new_sk, signer, csprng).await
     }
 
+    pub fn member_ids(&self) -> Vec<IndividualId> {
+        self.0
+            .member_ids()
+            .into_iter()
+            .map(IndividualId::from)
+            .collect()
+    }
+
     pub fn group_size(&self) -> u32 {
         self.0.group_size()
     }
diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 49b776b..0bf2bd9 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -314,6 +314,12 @@ impl<
         let doc = Arc::new(Mutex::new(new_doc));
         self.docs.lock().await.insert(doc_id, doc.dupe());
 
+        // NOTE: the coparents' members may have changed before the document could be found
+        let cgka_ops = { doc.lock().await.update_cgka_readers(&signer).await? };
+        for cgka_op in cgka_ops {
+            self.event_listener.on_cgka_op(&Arc::new(cgka_op)).await;
+        }
+
         Ok(doc)
     }
 
@@ -534,13 +540,16 @@ impl<
                         // Document lock is intentionally dropped before `pick_individual_prekeys`,
                         // which may lock groups (walking group members to find
                         // individuals).
-                        let prekeys = update
+                        let mut prekeys = update
                             .delegation
                             .payload
                             .delegate
                             .pick_individual_prekeys(doc_id)
                             .await;
                         let mut locked_doc = doc.lock().await;
+                        // They may have been revoked in the meantime.
+                        let readers = locked_doc.group.reader_ids().await;
+                        prekeys.retain(|id, _| readers.contains(id));
                         let ops = locked_doc
                             .add_cgka_members_from_prekeys(&prekeys, &signer)
                             .await?;
@@ -583,25 +592,12 @@ impl<
 
         let signer = { self.active.lock().await.signer.clone() };
 
-        // When revoking from a group, note who can read the documents that
-        // contain it before the revocation changes it.
-        let mut readers_before = Vec::new();
-        if let Membered::Group(group_id, _) = resource {
-            let group_identifier: Identifier = (*group_id).into();
-            let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
-            for doc in docs {
-                let locked = doc.lock().await;
-                if locked
-                    .transitive_members()
-                    .await
-                    .contains_key(&group_identifier)
-                {
-                    let readers = locked.group.reader_ids().await;
-                    drop(locked);
-                    readers_before.push((doc, readers));
-                }
-            }
-        }
+        // When revoking from a group, note who can read through it before the
+        // revocation changes it.
+        let readers_before = match resource {
+            Membered::Group(_, group) => group.lock().await.reader_ids().await,
+            Membered::Document(..) => HashSet::new(),
+        };
 
         let mut update = resource
             .revoke_member(
@@ -615,12 +611,15 @@ impl<
         // Propagate CGKA removals to docs that contain this group.
         // TODO: O(# of docs x `transitive_members()`). We should replace this approach
         // (possibly with a reverse index lookup).
-        for (doc, before) in readers_before {
-            let mut locked_doc = doc.lock().await;
-            let readers_after = locked_doc.group.reader_ids().await;
-            for &id in before.difference(&readers_after) {
-                if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
-                    update.cgka_ops.push(op);
+        if !readers_before.is_empty() {
+            let docs = { self.docs.lock().await.values().cloned().collect::<Vec<_>>() };
+            for doc in docs {
+                let mut locked_doc = doc.lock().await;
+                let readers_after = locked_doc.group.reader_ids().await;
+                for &id in readers_before.difference(&readers_after) {
+                    if let Ok(Some(op)) = locked_doc.remove_cgka_member(id, &signer).await {
+                        update.cgka_ops.push(op);
+                    }
                 }
             }
         }
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 2c2dc36..518edf9 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -303,6 +303,22 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         Ok(acc)
     }
 
+    /// Bring this document's [`Cgka`] in line with who can read the document.
+    pub(crate) async fn update_cgka_readers(
+        &mut self,
+        signer: &S,
+    ) -> Result<Vec<Signed<CgkaOperation>>, CgkaError> {
+        let doc_id = self.doc_id();
+        let prekeys = self.group.pick_individual_prekeys(doc_id).await;
+        let mut ops = self.add_cgka_members_from_prekeys(&prekeys, signer).await?;
+        for id in self.cgka()?.member_ids() {
+            if Identifier::from(id) != Identifier::from(doc_id) && !prekeys.contains_key(&id) {
+                ops.extend(self.remove_cgka_member(id, signer).await?);
+            }
+        }
+        Ok(ops)
+    }
+
     #[instrument(skip_all)]
     pub async fn revoke_member(
         &mut self,
-- 
2.43.0


From af618e225e8cca6d805d17642a98a459d2610c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 30/30] fix: an archive made while something changes is
 consistent

---
 keyhive_core/src/keyhive.rs            | 63 ++++++++++++++++----------
 keyhive_core/src/principal/document.rs | 21 ++++-----
 2 files changed, 48 insertions(+), 36 deletions(-)

diff --git a/keyhive_core/src/keyhive.rs b/keyhive_core/src/keyhive.rs
index 0bf2bd9..1d629c5 100644
--- a/keyhive_core/src/keyhive.rs
+++ b/keyhive_core/src/keyhive.rs
@@ -1998,15 +1998,44 @@ impl<
 
     #[instrument(skip_all)]
     pub async fn into_archive(&self) -> Archive<T> {
-        let topsorted_ops = {
-            let delegations = self.delegations.lock().await;
-            let revocations = self.revocations.lock().await;
-            MembershipOperation::<F, S, T, L>::reverse_topsort(&delegations, &revocations)
-                .into_iter()
-                .rev()
-                .map(|(k, v)| (k.coerce(), v.into()))
-                .collect()
-        };
+        // NOTE: everything that the groups and documents refer to is collected after them
+        let mut groups = HashMap::new();
+        let mut docs = HashMap::new();
+        let mut delegation_heads = DelegationStore::new();
+        let mut revocation_heads = RevocationStore::new();
+        {
+            let locked_groups = self.groups.lock().await;
+            let locked_docs = self.docs.lock().await;
+            for (k, arc) in locked_groups.iter() {
+                let locked = arc.lock().await;
+                for dlg in locked.delegation_heads().values() {
+                    delegation_heads.insert(dlg.dupe());
+                }
+                for rev in locked.revocation_heads().values() {
+                    revocation_heads.insert(rev.dupe());
+                }
+                groups.insert(*k, locked.into_archive());
+            }
+            for (k, arc) in locked_docs.iter() {
+                let locked = arc.lock().await;
+                for dlg in locked.delegation_heads().values() {
+                    delegation_heads.insert(dlg.dupe());
+                }
+                for rev in locked.revocation_heads().values() {
+                    revocation_heads.insert(rev.dupe());
+                }
+                docs.insert(*k, locked.into_archive());
+            }
+        }
+
+        let topsorted_ops = MembershipOperation::<F, S, T, L>::reverse_topsort(
+            &delegation_heads,
+            &revocation_heads,
+        )
+        .into_iter()
+        .rev()
+        .map(|(k, v)| (k.coerce(), v.into()))
+        .collect();
 
         let mut individuals = HashMap::new();
         {
@@ -2021,22 +2050,6 @@ impl<
             locked_active.into_archive().await
         };
 
-        let mut groups = HashMap::new();
-        {
-            let locked_groups = self.groups.lock().await;
-            for (k, arc) in locked_groups.iter() {
-                groups.insert(*k, arc.lock().await.into_archive());
-            }
-        }
-
-        let mut docs = HashMap::new();
-        {
-            let locked_docs = self.docs.lock().await;
-            for (k, arc) in locked_docs.iter() {
-                docs.insert(*k, arc.lock().await.into_archive());
-            }
-        }
-
         let pending_events: Vec<_> = self
             .pending_events
             .lock()
diff --git a/keyhive_core/src/principal/document.rs b/keyhive_core/src/principal/document.rs
index 518edf9..9136484 100644
--- a/keyhive_core/src/principal/document.rs
+++ b/keyhive_core/src/principal/document.rs
@@ -235,17 +235,16 @@ impl<F: FutureForm, S: AsyncSigner<F>, T: ContentRef, L: MembershipListener<F, S
         signer: &S,
         other_relevant_docs: &[Arc<Mutex<Document<F, S, T, L>>>],
     ) -> Result<AddMemberUpdate<F, S, T, L>, AddMemberError> {
-        let after_content: BTreeMap<_, _> =
-            join_all(other_relevant_docs.iter().map(|doc| async {
-                let locked = doc.lock().await;
-                (
-                    locked.doc_id(),
-                    locked.content_heads.iter().cloned().collect::<Vec<T>>(),
-                )
-            }))
-            .await
-            .into_iter()
-            .collect();
+        let after_content: BTreeMap<_, _> = join_all(other_relevant_docs.iter().map(|doc| async {
+            let locked = doc.lock().await;
+            (
+                locked.doc_id(),
+                locked.content_heads.iter().cloned().collect::<Vec<T>>(),
+            )
+        }))
+        .await
+        .into_iter()
+        .collect();
 
         self.add_member_with_manual_content(member_to_add, can, signer, after_content)
             .await
-- 
2.43.0


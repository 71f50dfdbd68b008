From 3ee5d71d7968d053aa3781bc5fe9f255e80e3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:39 +0000
Subject: [PATCH 1/4] fix: do not give council members of a new DAO weight in
 reward distribution

---
 .../src/multisig_membership.rs                  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/contracts/enterprise-factory/src/multisig_membership.rs b/contracts/enterprise-factory/src/multisig_membership.rs
index 36a5f0b..a86ea67 100644
--- a/contracts/enterprise-factory/src/multisig_membership.rs
+++ b/contracts/enterprise-factory/src/multisig_membership.rs
@@ -94,13 +94,16 @@ pub fn instantiate_multisig_membership_contract(
     let enterprise_contract = dao_being_created.require_enterprise_address()?;
     let version_info = dao_being_created.require_version_info()?;
 
-    DAO_BEING_CREATED.save(
-        deps.storage,
-        &DaoBeingCreated {
-            initial_weights: Some(initial_weights.clone()),
-            ..dao_being_created
-        },
-    )?;
+    // only the DAO's own members are eligible for rewards, council members are not
+    if reply_id == MEMBERSHIP_CONTRACT_INSTANTIATE_REPLY_ID {
+        DAO_BEING_CREATED.save(
+            deps.storage,
+            &DaoBeingCreated {
+                initial_weights: Some(initial_weights.clone()),
+                ..dao_being_created
+            },
+        )?;
+    }
 
     let submsg = SubMsg::reply_on_success(
         Wasm(Instantiate {
-- 
2.43.0


From 9f0742aff9a8cdcf83aea4a3fa43a55f554f81d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:39 +0000
Subject: [PATCH 2/4] fix: report a drawn proposal that can be executed early
 as such

---
 contracts/enterprise-governance-controller/src/contract.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/enterprise-governance-controller/src/contract.rs b/contracts/enterprise-governance-controller/src/contract.rs
index 5586591..e07c6ea 100644
--- a/contracts/enterprise-governance-controller/src/contract.rs
+++ b/contracts/enterprise-governance-controller/src/contract.rs
@@ -94,7 +94,7 @@ use token_staking_api::api::TokenConfigResponse;
 use token_staking_api::msg::QueryMsg::TokenConfig;
 use DaoType::{Denom, Multisig, Nft, Token};
 use Expiration::{AtHeight, AtTime};
-use PollRejectionReason::{IsRejectingOutcome, IsVetoOutcome, QuorumNotReached};
+use PollRejectionReason::{IsRejectingOutcome, IsVetoOutcome, OutcomeDraw, QuorumNotReached};
 use ProposalAction::{DeployCrossChainTreasury, ExecuteTreasuryMsgs};
 
 // version info for migration info
@@ -1797,7 +1797,7 @@ fn fix_poll_status(
                             PollStatus::InProgress { .. } => ProposalStatus::InProgress,
                             PollStatus::Passed { .. } => ProposalStatus::InProgressCanExecuteEarly,
                             PollStatus::Rejected { reason } => match reason {
-                                IsRejectingOutcome | IsVetoOutcome => {
+                                IsRejectingOutcome | IsVetoOutcome | OutcomeDraw(..) => {
                                     ProposalStatus::InProgressCanExecuteEarly
                                 }
                                 _ => ProposalStatus::InProgress,
-- 
2.43.0


From 948bfb1477e78ca9aca458709ada993be4632964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:55 +0000
Subject: [PATCH 3/4] fix: refuse upgrading a DAO to a version that does not
 exist

---
 contracts/enterprise/src/contract.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/enterprise/src/contract.rs b/contracts/enterprise/src/contract.rs
index 2f48feb..c15be74 100644
--- a/contracts/enterprise/src/contract.rs
+++ b/contracts/enterprise/src/contract.rs
@@ -232,6 +232,15 @@ fn upgrade_dao(ctx: &mut Context, msg: UpgradeDaoMsg) -> DaoResult<Response> {
     let versions =
         get_versions_between_current_and_target(ctx, current_version, msg.new_version.clone())?;
 
+    // the target has to be an existing version, otherwise we'd end up on a version we have no code for
+    if versions.last().map(|info| &info.version) != Some(&msg.new_version) {
+        return Err(StdError::generic_err(format!(
+            "Version {} does not exist",
+            msg.new_version
+        ))
+        .into());
+    }
+
     let mut submsgs = vec![];
 
     for version in versions {
-- 
2.43.0


From 2a8587ec3b16bd82fdf1b42245de985a816a4b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:44 +0000
Subject: [PATCH 4/4] fix: report members dropped by a multisig membership
 replacement

---
 .../multisig-membership-impl/src/execute.rs     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/multisig-membership-impl/src/execute.rs b/packages/multisig-membership-impl/src/execute.rs
index 96d5345..b717a0b 100644
--- a/packages/multisig-membership-impl/src/execute.rs
+++ b/packages/multisig-membership-impl/src/execute.rs
@@ -8,7 +8,7 @@ use membership_common::weight_change_hooks::report_weight_change_submsgs;
 use membership_common_api::api::UserWeightChange;
 use multisig_membership_api::api::{SetMembersMsg, UpdateMembersMsg};
 use multisig_membership_api::error::MultisigMembershipResult;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Update members' weights. Only the current admin can execute this.
 pub fn update_members(
@@ -52,9 +52,9 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     // only governance controller can execute this
     enterprise_governance_controller_only(ctx, None)?;
 
-    let old_member_weights = MEMBER_WEIGHTS
+    let mut old_member_weights = MEMBER_WEIGHTS
         .range(ctx.deps.storage, None, None, Order::Ascending)
-        .collect::<StdResult<HashMap<Addr, Uint128>>>()?;
+        .collect::<StdResult<BTreeMap<Addr, Uint128>>>()?;
 
     MEMBER_WEIGHTS.clear(ctx.deps.storage);
 
@@ -67,7 +67,7 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     for (member, weight) in deduped_edit_members {
         total_weight += weight;
 
-        let old_weight = old_member_weights.get(&member).cloned().unwrap_or_default();
+        let old_weight = old_member_weights.remove(&member).unwrap_or_default();
         weight_changes.push(UserWeightChange {
             user: member.to_string(),
             old_weight,
@@ -77,6 +77,15 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
         set_member_weight(ctx.deps.storage, member, weight)?;
     }
 
+    // everyone that was left out of the new members has lost their weight
+    for (member, old_weight) in old_member_weights {
+        weight_changes.push(UserWeightChange {
+            user: member.to_string(),
+            old_weight,
+            new_weight: Uint128::zero(),
+        });
+    }
+
     save_total_weight(ctx.deps.storage, &total_weight, &ctx.env.block)?;
 
     let report_weight_change_submsgs = report_weight_change_submsgs(ctx, weight_changes)?;
-- 
2.43.0


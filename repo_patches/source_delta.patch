From dc6d8bd6cb58345ff433a0ef4bd4a5b8cf815982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:45 +0000
Subject: [PATCH 1/3] fix: report members removed by set_members to weight
 change hooks

---
 .../multisig-membership-impl/src/execute.rs     | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/packages/multisig-membership-impl/src/execute.rs b/packages/multisig-membership-impl/src/execute.rs
index 96d5345..d49d882 100644
--- a/packages/multisig-membership-impl/src/execute.rs
+++ b/packages/multisig-membership-impl/src/execute.rs
@@ -8,7 +8,7 @@ use membership_common::weight_change_hooks::report_weight_change_submsgs;
 use membership_common_api::api::UserWeightChange;
 use multisig_membership_api::api::{SetMembersMsg, UpdateMembersMsg};
 use multisig_membership_api::error::MultisigMembershipResult;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 /// Update members' weights. Only the current admin can execute this.
 pub fn update_members(
@@ -52,9 +52,9 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     // only governance controller can execute this
     enterprise_governance_controller_only(ctx, None)?;
 
-    let old_member_weights = MEMBER_WEIGHTS
+    let mut old_member_weights = MEMBER_WEIGHTS
         .range(ctx.deps.storage, None, None, Order::Ascending)
-        .collect::<StdResult<HashMap<Addr, Uint128>>>()?;
+        .collect::<StdResult<BTreeMap<Addr, Uint128>>>()?;
 
     MEMBER_WEIGHTS.clear(ctx.deps.storage);
 
@@ -67,7 +67,7 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
     for (member, weight) in deduped_edit_members {
         total_weight += weight;
 
-        let old_weight = old_member_weights.get(&member).cloned().unwrap_or_default();
+        let old_weight = old_member_weights.remove(&member).unwrap_or_default();
         weight_changes.push(UserWeightChange {
             user: member.to_string(),
             old_weight,
@@ -77,6 +77,15 @@ pub fn set_members(ctx: &mut Context, msg: SetMembersMsg) -> MultisigMembershipR
         set_member_weight(ctx.deps.storage, member, weight)?;
     }
 
+    // members that were not set again have been removed, i.e. their weight dropped to zero
+    for (member, old_weight) in old_member_weights {
+        weight_changes.push(UserWeightChange {
+            user: member.to_string(),
+            old_weight,
+            new_weight: Uint128::zero(),
+        });
+    }
+
     save_total_weight(ctx.deps.storage, &total_weight, &ctx.env.block)?;
 
     let report_weight_change_submsgs = report_weight_change_submsgs(ctx, weight_changes)?;
-- 
2.43.0


From 43e3ae804acd4aa6092cd2b9aff67b5fe97d86d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:09 +0000
Subject: [PATCH 2/3] fix: keep council weights out of a new DAO's reward
 distribution

---
 .../src/multisig_membership.rs                  | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/contracts/enterprise-factory/src/multisig_membership.rs b/contracts/enterprise-factory/src/multisig_membership.rs
index 36a5f0b..dc572c8 100644
--- a/contracts/enterprise-factory/src/multisig_membership.rs
+++ b/contracts/enterprise-factory/src/multisig_membership.rs
@@ -94,13 +94,16 @@ pub fn instantiate_multisig_membership_contract(
     let enterprise_contract = dao_being_created.require_enterprise_address()?;
     let version_info = dao_being_created.require_version_info()?;
 
-    DAO_BEING_CREATED.save(
-        deps.storage,
-        &DaoBeingCreated {
-            initial_weights: Some(initial_weights.clone()),
-            ..dao_being_created
-        },
-    )?;
+    // only the DAO's own members have initial weights in the reward distribution, its council doesn't
+    if reply_id == MEMBERSHIP_CONTRACT_INSTANTIATE_REPLY_ID {
+        DAO_BEING_CREATED.save(
+            deps.storage,
+            &DaoBeingCreated {
+                initial_weights: Some(initial_weights.clone()),
+                ..dao_being_created
+            },
+        )?;
+    }
 
     let submsg = SubMsg::reply_on_success(
         Wasm(Instantiate {
-- 
2.43.0


From 7d4a7206d884c5b0cab8d3ceaa8224d1aa1ae19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:56 +0000
Subject: [PATCH 3/3] fix: refuse remote treasury targets in proposals adapted
 for old DAOs

---
 .../enterprise-facade-v1/src/facade_v1.rs     | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/contracts/enterprise-facade-v1/src/facade_v1.rs b/contracts/enterprise-facade-v1/src/facade_v1.rs
index 802b617..55a5d08 100644
--- a/contracts/enterprise-facade-v1/src/facade_v1.rs
+++ b/contracts/enterprise-facade-v1/src/facade_v1.rs
@@ -41,7 +41,9 @@ use enterprise_facade_api::error::EnterpriseFacadeError::Dao;
 use enterprise_facade_api::error::{EnterpriseFacadeError, EnterpriseFacadeResult};
 use enterprise_facade_common::facade::EnterpriseFacade;
 use enterprise_governance_controller_api::api::{CreateProposalWithNftDepositMsg, ProposalAction};
-use enterprise_outposts_api::api::{CrossChainTreasuriesParams, CrossChainTreasuriesResponse};
+use enterprise_outposts_api::api::{
+    CrossChainTreasuriesParams, CrossChainTreasuriesResponse, RemoteTreasuryTarget,
+};
 use enterprise_treasury_api::api::{
     HasIncompleteV2MigrationResponse, HasUnmovedStakesOrClaimsResponse,
 };
@@ -551,9 +553,18 @@ impl EnterpriseFacadeV1 {
             ProposalAction::UpdateMetadata(msg) => Ok(UpdateMetadata(msg.into())),
             ProposalAction::UpdateGovConfig(msg) => Ok(UpdateGovConfig(msg.into())),
             ProposalAction::UpdateCouncil(msg) => Ok(UpdateCouncil(msg.into())),
-            ProposalAction::UpdateAssetWhitelist(msg) => Ok(UpdateAssetWhitelist(msg.into())),
-            ProposalAction::UpdateNftWhitelist(msg) => Ok(UpdateNftWhitelist(msg.into())),
-            ProposalAction::RequestFundingFromDao(msg) => Ok(RequestFundingFromDao(msg.into())),
+            ProposalAction::UpdateAssetWhitelist(msg) => {
+                require_no_remote_treasury_target(&msg.remote_treasury_target)?;
+                Ok(UpdateAssetWhitelist(msg.into()))
+            }
+            ProposalAction::UpdateNftWhitelist(msg) => {
+                require_no_remote_treasury_target(&msg.remote_treasury_target)?;
+                Ok(UpdateNftWhitelist(msg.into()))
+            }
+            ProposalAction::RequestFundingFromDao(msg) => {
+                require_no_remote_treasury_target(&msg.remote_treasury_target)?;
+                Ok(RequestFundingFromDao(msg.into()))
+            }
             ProposalAction::UpgradeDao(msg) => {
                 let version_1_0_0 = Version {
                     major: 1,
@@ -694,3 +705,13 @@ impl EnterpriseFacadeV1 {
         Ok(fixed_response)
     }
 }
+
+/// DAOs on the old structure have no remote treasuries, and their proposal actions have no target.
+/// Dropping the target would turn the action into one on the DAO's own funds or whitelist.
+fn require_no_remote_treasury_target(target: &Option<RemoteTreasuryTarget>) -> StdResult<()> {
+    if target.is_some() {
+        Err(StdError::generic_err("remote treasuries not supported"))
+    } else {
+        Ok(())
+    }
+}
-- 
2.43.0


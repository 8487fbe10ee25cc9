From 345b6bde8f3a208ca42ac167ecfbdcc55c8f38c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:59 +0000
Subject: [PATCH 01/17] fix: do not report a proposal as failed while it can
 still pass

The no votes were compared to a rounded 1 - percent, which for
percentages such as 0.666666666666666667 rejects a proposal as soon as
a no vote is cast although the remaining yes votes reach the threshold.
---
 packages/dao-voting/src/voting.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/packages/dao-voting/src/voting.rs b/packages/dao-voting/src/voting.rs
index 2aabafc..5679c89 100644
--- a/packages/dao-voting/src/voting.rs
+++ b/packages/dao-voting/src/voting.rs
@@ -69,14 +69,10 @@ pub enum VoteCmp {
 /// MUST ensure this is the behavior you want when calling this
 /// function.
 ///
-/// For our current purposes this is OK as the only place we use the
-/// `Greater` comparason is when looking to see if no votes have
-/// reached `> (1 - threshold)` and thus made the proposal
-/// unpassable. As threshold will be a rounded down version of the
-/// infinite percision real version `1 - threshold` will actually be a
-/// higher magnitured than the real one meaning that we won't ever be
-/// in the position of simeltaniously reporting a proposal as both
-/// rejected and passed.
+/// For our current purposes this is OK as the same `Geq` comparison
+/// decides both whether the yes votes pass and whether they may still
+/// pass given the no votes, so a proposal is never simultaneously
+/// passed and rejected.
 ///
 pub fn compare_vote_count(
     votes: Uint128,
@@ -127,12 +123,19 @@ pub fn does_vote_count_fail(
             // Fails if no votes have >= half of all votes.
             no_votes.full_mul(2u64) >= options.into()
         }
-        PercentageThreshold::Percent(percent) => compare_vote_count(
-            no_votes,
-            VoteCmp::Greater,
-            options,
-            Decimal::one() - percent,
-        ),
+        PercentageThreshold::Percent(percent) => {
+            // Fails if the threshold is out of reach even if all of
+            // the other options were yes votes. Comparing the no
+            // votes to `1 - percent` instead rounds in the opposite
+            // direction of `does_vote_count_pass` and may thus report
+            // a proposal which can still pass as failed.
+            !compare_vote_count(
+                options.saturating_sub(no_votes),
+                VoteCmp::Geq,
+                options,
+                percent,
+            )
+        }
     }
 }
 
-- 
2.43.0


From d36b28e7de8d2f30a0586cc12fdc648110eedf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 02/17] fix: take a multiple choice proposal's total power at
 its start height

Ballots are weighed by the power at the start of the block in which the
proposal is made. The total was the current one, so that a change of
power in that block let the ballots exceed it (voting then panics on the
subtraction) or never reach it.
---
 contracts/proposal/dao-proposal-multiple/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/proposal/dao-proposal-multiple/src/contract.rs b/contracts/proposal/dao-proposal-multiple/src/contract.rs
index 6fc42f8..7b02ca3 100644
--- a/contracts/proposal/dao-proposal-multiple/src/contract.rs
+++ b/contracts/proposal/dao-proposal-multiple/src/contract.rs
@@ -199,7 +199,7 @@ pub fn execute_propose(
     let checked_multiple_choice_options = choices.into_checked()?.options;
 
     let expiration = config.max_voting_period.after(&env.block);
-    let total_power = get_total_power(deps.as_ref(), &config.dao, None)?;
+    let total_power = get_total_power(deps.as_ref(), &config.dao, Some(env.block.height))?;
 
     let proposal = {
         // Limit mutability to this block.
-- 
2.43.0


From 24eccdf44c204d15c9d037d9833b3d8e1aee6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 03/17] fix: take a condorcet proposal's total power at its
 start height

As ballots are weighed by the power at the start of the block in which
the proposal is made, the total power used to decide which outcomes are
still possible must be taken at the same instant.
---
 contracts/proposal/dao-proposal-condorcet/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/proposal/dao-proposal-condorcet/src/contract.rs b/contracts/proposal/dao-proposal-condorcet/src/contract.rs
index 3d37850..82a192b 100644
--- a/contracts/proposal/dao-proposal-condorcet/src/contract.rs
+++ b/contracts/proposal/dao-proposal-condorcet/src/contract.rs
@@ -112,7 +112,7 @@ fn execute_propose(
     let config = CONFIG.load(deps.storage)?;
 
     let id = next_proposal_id(deps.storage)?;
-    let total_power = get_total_power(deps.as_ref(), &dao, None)?;
+    let total_power = get_total_power(deps.as_ref(), &dao, Some(env.block.height))?;
 
     if choices.is_empty() {
         return Err(ContractError::ZeroChoices {});
-- 
2.43.0


From 7d1a94885ccc9de2250c10dea46eb8d32866b235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 04/17] fix: reject the pending proposal when the approver's
 proposal is vetoed

---
 .../pre-propose/dao-pre-propose-approver/src/contract.rs      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
index 268d3ba..e2d306c 100644
--- a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
+++ b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
@@ -170,7 +170,7 @@ pub fn execute_proposal_completed(
 
     // On completion send rejection or approval message
     let msg = match new_status {
-        Status::Closed => Some(WasmMsg::Execute {
+        Status::Closed | Status::Vetoed => Some(WasmMsg::Execute {
             contract_addr: approval_contract.into_string(),
             msg: to_json_binary(&PreProposeApprovalExecuteMsg::Extension {
                 msg: ApprovalExt::Reject { id: pre_propose_id },
@@ -187,7 +187,7 @@ pub fn execute_proposal_completed(
         _ => None,
     };
 
-    // If Status is not Executed or Closed, throw error
+    // If Status is not Executed, Closed or Vetoed, throw error
     match msg {
         Some(msg) => Ok(Response::default()
             .add_message(msg)
-- 
2.43.0


From e6ae1ed38bf5da00ba3e3ab63a868b4471140fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 05/17] fix: compute a staker's value without overflowing

---
 contracts/staking/cw20-stake/src/contract.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index 64af748..124dca0 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -398,11 +398,8 @@ pub fn query_staked_value(
             value: Uint128::zero(),
         })
     } else {
-        let value = staked
-            .checked_mul(balance)
-            .map_err(StdError::overflow)?
-            .checked_div(total)
-            .map_err(StdError::divide_by_zero)?;
+        // staked * balance may exceed 128 bits, the value itself can not
+        let value = staked.multiply_ratio(balance, total);
         Ok(StakedValueResponse { value })
     }
 }
-- 
2.43.0


From 1274c906e5a2f8683525ea29b89f5f974508aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 06/17] fix: let the pending owner of a roles collection accept
 the ownership

---
 contracts/external/cw721-roles/src/contract.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index e3f0719..1544247 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -55,6 +55,14 @@ pub fn execute(
     info: MessageInfo,
     msg: ExecuteMsg,
 ) -> Result<Response, ContractError> {
+    // Ownership changes check the sender themselves: they may be accepted by
+    // the pending owner
+    if let ExecuteMsg::UpdateOwnership(_) = msg {
+        return Cw721Roles::default()
+            .execute(deps, env, info, msg)
+            .map_err(Into::into);
+    }
+
     // Only owner / minter can execute
     cw_ownable::assert_owner(deps.storage, &info.sender)?;
 
-- 
2.43.0


From 945f5b0124cb4ffbe0409124ddc8785115fe510a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 07/17] fix: tell hooks the new weight when a role's weight
 goes down

---
 contracts/external/cw721-roles/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 1544247..08d0817 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -414,6 +414,8 @@ pub fn execute_update_token_weight(
 
                     // Subtract difference from the total
                     total = total.checked_sub(Uint64::from(weight_difference))?;
+                    // Set the diff for use in hooks
+                    diff = MemberDiff::new(token.clone().owner, old, Some(new_total_weight));
                 }
                 Ordering::Equal => return Err(ContractError::NoWeightChange {}),
             }
-- 
2.43.0


From defb98c767368a6968944351259d9220c9808a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 08/17] fix: move a role's weight along with its transfer

---
 .../external/cw721-roles/src/contract.rs      | 70 +++++++++++++++++--
 1 file changed, 66 insertions(+), 4 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 08d0817..b8c58a6 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -1,8 +1,8 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    from_json, to_json_binary, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order, Response,
-    StdResult, SubMsg, Uint64,
+    from_json, to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order,
+    Response, StdResult, Storage, SubMsg, Uint64,
 };
 use cw4::{
     Member, MemberChangedHookMsg, MemberDiff, MemberListResponse, MemberResponse,
@@ -236,9 +236,51 @@ pub fn execute_burn(
         .add_submessages(msgs))
 }
 
+/// Moves the weight of a token from one member to another. Returns the messages
+/// notifying hooks of the change.
+fn move_weight(
+    storage: &mut dyn Storage,
+    height: u64,
+    from: &Addr,
+    to: &Addr,
+    weight: u64,
+) -> Result<Vec<SubMsg>, ContractError> {
+    if from == to {
+        return Ok(vec![]);
+    }
+
+    let old_from = MEMBERS.may_load(storage, from)?;
+    let new_from = old_from
+        .unwrap_or_default()
+        .checked_sub(weight)
+        .ok_or(ContractError::NegativeValue {})?;
+    let new_from = if new_from == 0 {
+        MEMBERS.remove(storage, from, height)?;
+        None
+    } else {
+        MEMBERS.save(storage, from, &new_from, height)?;
+        Some(new_from)
+    };
+
+    let old_to = MEMBERS.may_load(storage, to)?;
+    let new_to = old_to.unwrap_or_default() + weight;
+    MEMBERS.save(storage, to, &new_to, height)?;
+
+    let diffs = MemberChangedHookMsg {
+        diffs: vec![
+            MemberDiff::new(from.clone(), old_from, new_from),
+            MemberDiff::new(to.clone(), old_to, Some(new_to)),
+        ],
+    };
+
+    Ok(HOOKS.prepare_hooks(storage, |h| {
+        diffs.clone().into_cosmos_msg(h).map(SubMsg::new)
+    })?)
+}
+
 pub fn execute_transfer(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     recipient: String,
     token_id: String,
@@ -246,12 +288,22 @@ pub fn execute_transfer(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let from = token.owner;
     // set owner and remove existing approvals
     token.owner = deps.api.addr_validate(&recipient)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_weight(
+        deps.storage,
+        env.block.height,
+        &from,
+        &token.owner,
+        token.extension.weight,
+    )?;
+
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_attribute("action", "transfer_nft")
         .add_attribute("sender", info.sender)
         .add_attribute("recipient", recipient)
@@ -260,7 +312,7 @@ pub fn execute_transfer(
 
 pub fn execute_send(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     token_id: String,
     recipient_contract: String,
@@ -269,11 +321,20 @@ pub fn execute_send(
     let contract = Cw721Roles::default();
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
+    let from = token.owner;
     // set owner and remove existing approvals
     token.owner = deps.api.addr_validate(&recipient_contract)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_weight(
+        deps.storage,
+        env.block.height,
+        &from,
+        &token.owner,
+        token.extension.weight,
+    )?;
+
     let send = Cw721ReceiveMsg {
         sender: info.sender.to_string(),
         token_id: token_id.clone(),
@@ -281,6 +342,7 @@ pub fn execute_send(
     };
 
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_message(send.into_cosmos_msg(recipient_contract.clone())?)
         .add_attribute("action", "send_nft")
         .add_attribute("sender", info.sender)
-- 
2.43.0


From ae98ee4f2f4502d74764f99df54235bad8cc9d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 09/17] fix: let a role of a non-member be burnt

---
 contracts/external/cw721-roles/src/contract.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index b8c58a6..451121e 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -185,10 +185,12 @@ pub fn execute_burn(
 
     // Update member weights and total
     let owner_addr = deps.api.addr_validate(&owner.owner)?;
-    let old_weight = MEMBERS.load(deps.storage, &owner_addr)?;
+    // An owner holding only tokens of weight zero may not be a member anymore
+    let old_weight = MEMBERS.may_load(deps.storage, &owner_addr)?;
 
     // Subtract the nft weight from the member's old weight
     let new_weight = old_weight
+        .unwrap_or_default()
         .checked_sub(nft_info.extension.weight)
         .ok_or(ContractError::CannotBurn {})?;
 
@@ -198,7 +200,7 @@ pub fn execute_burn(
     // Check if the new weight is now zero
     if new_weight == 0 {
         // New weight is now None
-        diff = MemberDiff::new(owner.owner, Some(old_weight), None);
+        diff = MemberDiff::new(owner.owner, old_weight, None);
         // Remove owner from list of members
         MEMBERS.remove(deps.storage, &owner_addr, env.block.height)?;
     } else {
-- 
2.43.0


From 0fb67227396006dea29a075aa794a593f2b32bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 10/17] fix: take a fund distributor's total power at its
 distribution height

---
 .../cw-fund-distributor/src/contract.rs       | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index c5539d1..5a2ae70 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -44,22 +44,36 @@ pub fn instantiate(
     let voting_contract = deps.api.addr_validate(&msg.voting_contract)?;
     VOTING_CONTRACT.save(deps.storage, &voting_contract)?;
 
-    let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
+    // get the total power at the distribution height and store it
+    let total_power = save_total_power(
+        deps,
         voting_contract.clone(),
+        msg.distribution_height,
+    )?;
+
+    Ok(Response::default()
+        .add_attribute("distribution_height", env.block.height.to_string())
+        .add_attribute("voting_contract", voting_contract)
+        .add_attribute("total_power", total_power))
+}
+
+/// Saves the total power at the given height. Errors if it is zero.
+fn save_total_power(
+    deps: DepsMut,
+    voting_contract: Addr,
+    height: u64,
+) -> Result<Uint128, ContractError> {
+    let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
+        voting_contract,
         &voting::Query::TotalPowerAtHeight {
-            height: Some(env.block.height),
+            height: Some(height),
         },
     )?;
-    // validate the total power and store it
     if total_power.power.is_zero() {
         return Err(ContractError::ZeroVotingPower {});
     }
     TOTAL_POWER.save(deps.storage, &total_power.power)?;
-
-    Ok(Response::default()
-        .add_attribute("distribution_height", env.block.height.to_string())
-        .add_attribute("voting_contract", voting_contract)
-        .add_attribute("total_power", total_power.power))
+    Ok(total_power.power)
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
@@ -558,11 +572,13 @@ pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, Co
 
 // only cw_admin can call this
 fn execute_redistribute_unclaimed_funds(
-    deps: DepsMut,
+    mut deps: DepsMut,
     distribution_height: u64,
 ) -> Result<Response, ContractError> {
-    // update the distribution height
+    // update the distribution height and the total power at it
     DISTRIBUTION_HEIGHT.save(deps.storage, &distribution_height)?;
+    let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
+    save_total_power(deps.branch(), voting_contract, distribution_height)?;
 
     // get performed claims of cw20 and native tokens
     let performed_cw20_claims: Vec<Cw20ClaimEntry> = CW20_CLAIMS
-- 
2.43.0


From 7a0ae6dcf09458f9e4616aa1a74ce3356551cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 11/17] fix: keep the validator cardinality of a stake tracker
 in line with its stake

---
 packages/cw-stake-tracker/src/lib.rs | 129 ++++++++++-----------------
 1 file changed, 49 insertions(+), 80 deletions(-)

diff --git a/packages/cw-stake-tracker/src/lib.rs b/packages/cw-stake-tracker/src/lib.rs
index b9c6339..eff1ff9 100644
--- a/packages/cw-stake-tracker/src/lib.rs
+++ b/packages/cw-stake-tracker/src/lib.rs
@@ -58,16 +58,7 @@ impl<'a> StakeTracker<'a> {
     ) -> StdResult<()> {
         self.total_staked
             .increment(storage, (), t.seconds(), amount)?;
-        let old = self
-            .validators
-            .load(storage, validator.clone(), t.seconds())?
-            .unwrap_or_default();
-        if old.is_zero() && !amount.is_zero() {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        self.validators
-            .increment(storage, validator, t.seconds(), amount)?;
-        Ok(())
+        self.update_validator(storage, t.seconds(), validator, &|staked| staked + amount)
     }
 
     /// Makes note of a redelegation. Note, this only supports
@@ -83,19 +74,8 @@ impl<'a> StakeTracker<'a> {
         dst: String,
         amount: Uint128,
     ) -> StdResult<()> {
-        let new = self
-            .validators
-            .decrement(storage, src, t.seconds(), amount)?;
-        if new.is_zero() {
-            self.cardinality.decrement(storage, (), t.seconds(), 1)?;
-        }
-        let new = self
-            .validators
-            .increment(storage, dst, t.seconds(), amount)?;
-        if new == amount {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        Ok(())
+        self.update_validator(storage, t.seconds(), src, &|staked| staked - amount)?;
+        self.update_validator(storage, t.seconds(), dst, &|staked| staked + amount)
     }
 
     pub fn on_undelegate(
@@ -112,17 +92,12 @@ impl<'a> StakeTracker<'a> {
             t.seconds() + unbonding_duration_seconds,
             amount,
         )?;
-        let new = self.validators.decrement(
+        self.update_validator(
             storage,
-            validator,
             t.seconds() + unbonding_duration_seconds,
-            amount,
-        )?;
-        if new.is_zero() && !amount.is_zero() {
-            self.cardinality
-                .decrement(storage, (), t.seconds() + unbonding_duration_seconds, 1)?;
-        }
-        Ok(())
+            validator,
+            &|staked| staked - amount,
+        )
     }
 
     /// Registers a slash of bonded tokens.
@@ -140,56 +115,9 @@ impl<'a> StakeTracker<'a> {
         validator: String,
         amount: Uint128,
     ) -> StdResult<()> {
-        enum Change {
-            /// Increment by one at (time: u64).
-            Inc(u64),
-            /// Decrement by one at (time: u64).
-            Dec(u64),
-        }
-
         self.total_staked
             .decrement(storage, (), t.seconds(), amount)?;
-
-        // tracks if the last value was non-zero after removing the
-        // slash amount. invariant (2) lets us initialize this to true
-        // as staked tokens are a prerequisite for slashing.
-        let mut was_nonzero = true;
-        // the set of times that the cardinality would have changed
-        // had the slash event been known.
-        let mut cardinality_changes = vec![];
-
-        // visit the history, update values to include the slashed
-        // amount, and make note of the changes to the cardinality
-        // history needed.
-        self.validators
-            .update(storage, validator, t.seconds(), &mut |staked, time| {
-                let new = staked - amount;
-                if new.is_zero() && was_nonzero {
-                    // the slash would have removed all staked tokens
-                    // at `time` => decrement the cardinality at `time`.
-                    cardinality_changes.push(Change::Dec(time));
-                    was_nonzero = false;
-                } else if !new.is_zero() && !was_nonzero {
-                    // the staked amount (including the slash) was
-                    // zero, and more tokens were staked, increment
-                    // the cardinality.
-                    cardinality_changes.push(Change::Inc(time));
-                    was_nonzero = true;
-                }
-                new
-            })?;
-
-        // we can't do these updates as part of the `update` call
-        // above as that would require two mutable references to
-        // storage.
-        for change in cardinality_changes {
-            match change {
-                Change::Inc(time) => self.cardinality.increment(storage, (), time, 1)?,
-                Change::Dec(time) => self.cardinality.decrement(storage, (), time, 1)?,
-            };
-        }
-
-        Ok(())
+        self.update_validator(storage, t.seconds(), validator, &|staked| staked - amount)
     }
 
     /// Registers a slash of unbonding tokens.
@@ -227,6 +155,47 @@ impl<'a> StakeTracker<'a> {
         Ok(())
     }
 
+    /// Updates the tokens staked with `validator` at `t` and all future
+    /// times, and keeps the cardinality history in line: wherever the
+    /// update starts (or stops) the validator from having tokens
+    /// staked, the cardinality is incremented (or decremented) until
+    /// that is no longer the case.
+    fn update_validator(
+        &self,
+        storage: &mut dyn Storage,
+        t: u64,
+        validator: String,
+        update: &dyn Fn(Uint128) -> Uint128,
+    ) -> StdResult<()> {
+        // the times at which the update's impact on the cardinality
+        // changes, and the impact from then on.
+        let mut impacts = vec![];
+        let mut impact = 0;
+        self.validators
+            .update(storage, validator, t, &mut |staked, time| {
+                let new = update(staked);
+                let current = i8::from(!new.is_zero()) - i8::from(!staked.is_zero());
+                if current != impact {
+                    impacts.push((time, current - impact));
+                    impact = current;
+                }
+                new
+            })?;
+
+        // we can't do these updates as part of the `update` call
+        // above as that would require two mutable references to
+        // storage.
+        for (time, change) in impacts {
+            if change > 0 {
+                self.cardinality.increment(storage, (), time, 1)?;
+            } else {
+                self.cardinality.decrement(storage, (), time, 1)?;
+            }
+        }
+
+        Ok(())
+    }
+
     /// Gets the total number of bonded and unbonding tokens across
     /// all validators.
     pub fn total_staked(&self, storage: &dyn Storage, t: Timestamp) -> StdResult<Uint128> {
-- 
2.43.0


From c326ae7f22fc789b2b0a009a7e67ed2fd951b4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 12/17] fix: a cancelled vest's liquid funds do not include
 what was slashed before

---
 contracts/external/cw-vesting/src/vesting.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index 50b9d7d..f3791f0 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -143,11 +143,13 @@ impl<'a> Payment<'a> {
                 //
                 // If a slash occurs while the contract is in a
                 // canceled state, the slash amount is deducted from
-                // `owner_withdrawable`. We don't count slashes that
-                // occured during the Funded state as those are
-                // considered when computing `owner_withdrawable`
-                // initially.
-                owner_withdrawable + (vesting.total() - vesting.claimed) - staked
+                // `owner_withdrawable`. Slashes that occured during
+                // the Funded state, or that exceed
+                // `owner_withdrawable`, reduce what the vestee is
+                // owed.
+                let vesting_owed =
+                    (vesting.total() - vesting.claimed).saturating_sub(vesting.slashed);
+                owner_withdrawable + vesting_owed - staked
             }
         }
     }
-- 
2.43.0


From cc26331e29fd267b3fed545b5fd2a913e6747cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 13/17] fix: a vest delegates its own liquid funds only

---
 contracts/external/cw-vesting/src/contract.rs | 8 ++++++++
 contracts/external/cw-vesting/src/error.rs    | 3 +++
 contracts/external/cw-vesting/src/vesting.rs  | 7 +++++++
 3 files changed, 18 insertions(+)

diff --git a/contracts/external/cw-vesting/src/contract.rs b/contracts/external/cw-vesting/src/contract.rs
index 78180b2..18df87a 100644
--- a/contracts/external/cw-vesting/src/contract.rs
+++ b/contracts/external/cw-vesting/src/contract.rs
@@ -267,6 +267,14 @@ pub fn execute_delegate(
         return Err(ContractError::NotStakeable);
     }
 
+    // Tokens other than the payment's own (someone may have sent some)
+    // can't be delegated: the payment would have more staked than it
+    // is able to account for, and could no longer be canceled.
+    let liquid = PAYMENT.liquid_at(deps.storage, env.block.time)?;
+    if amount > liquid {
+        return Err(ContractError::NotLiquid { max: liquid });
+    }
+
     PAYMENT.on_delegate(deps.storage, env.block.time, validator.clone(), amount)?;
 
     let msg = StakingMsg::Delegate {
diff --git a/contracts/external/cw-vesting/src/error.rs b/contracts/external/cw-vesting/src/error.rs
index c29989f..2f769a7 100644
--- a/contracts/external/cw-vesting/src/error.rs
+++ b/contracts/external/cw-vesting/src/error.rs
@@ -81,4 +81,7 @@ pub enum ContractError {
 
     #[error("can't register a slash event occuring in the future")]
     FutureSlash,
+
+    #[error("can't delegate more than the liquid tokens of the payment. max: ({max})")]
+    NotLiquid { max: Uint128 },
 }
diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index f3791f0..d2e9c52 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -154,6 +154,13 @@ impl<'a> Payment<'a> {
         }
     }
 
+    /// Gets the number of the payment's tokens that are not staked at `t`.
+    pub fn liquid_at(&self, storage: &dyn Storage, t: Timestamp) -> StdResult<Uint128> {
+        let vesting = self.vesting.load(storage)?;
+        let staked = self.staking.total_staked(storage, t)?;
+        Ok(self.liquid(&vesting, staked))
+    }
+
     /// Gets the current number tokens that may be distributed to the
     /// vestee.
     pub fn distributable(
-- 
2.43.0


From d7a2454cbd51b02ea991249b85ede795afdb7db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:43 +0000
Subject: [PATCH 14/17] fix: a payroll contract is paid with the token it vests

---
 .../external/cw-payroll-factory/src/contract.rs     | 13 ++++++++++++-
 contracts/external/cw-payroll-factory/src/error.rs  |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw-payroll-factory/src/contract.rs b/contracts/external/cw-payroll-factory/src/contract.rs
index ff03317..c062c0d 100644
--- a/contracts/external/cw-payroll-factory/src/contract.rs
+++ b/contracts/external/cw-payroll-factory/src/contract.rs
@@ -9,7 +9,7 @@ use cosmwasm_std::{Addr, Coin};
 use cw2::set_contract_version;
 use cw20::Cw20ExecuteMsg;
 use cw20::Cw20ReceiveMsg;
-use cw_denom::CheckedDenom;
+use cw_denom::{CheckedDenom, UncheckedDenom};
 use cw_storage_plus::Bound;
 use cw_utils::{nonpayable, parse_reply_instantiate_data};
 use cw_vesting::msg::{
@@ -93,6 +93,12 @@ pub fn execute_receive_cw20(
                     expected: instantiate_msg.total,
                 });
             }
+            // The tokens received must be the ones being vested. Otherwise the
+            // vesting contract would be funded with whatever balance of that
+            // token the factory has, and anyone could name any sender.
+            if instantiate_msg.denom != UncheckedDenom::Cw20(info.sender.to_string()) {
+                return Err(ContractError::WrongFundDenom {});
+            }
             instantiate_contract(deps, sender, None, instantiate_msg, label)
         }
     }
@@ -104,6 +110,11 @@ pub fn execute_instantiate_native_payroll_contract(
     instantiate_msg: PayrollInstantiateMsg,
     label: String,
 ) -> Result<Response, ContractError> {
+    // A cw20 is vested by sending it to the factory, not out of its balance.
+    if !matches!(instantiate_msg.denom, UncheckedDenom::Native(_)) {
+        return Err(ContractError::WrongFundDenom {});
+    }
+
     // Save instantiator info for use in reply
     TMP_INSTANTIATOR_INFO.save(deps.storage, &info.sender)?;
 
diff --git a/contracts/external/cw-payroll-factory/src/error.rs b/contracts/external/cw-payroll-factory/src/error.rs
index e251a2a..a03c9c0 100644
--- a/contracts/external/cw-payroll-factory/src/error.rs
+++ b/contracts/external/cw-payroll-factory/src/error.rs
@@ -28,4 +28,7 @@ pub enum ContractError {
 
     #[error("vesting contract vests ({expected}) tokens, funded with ({sent})")]
     WrongFundAmount { sent: Uint128, expected: Uint128 },
+
+    #[error("vesting contract must be funded with the token it vests")]
+    WrongFundDenom {},
 }
-- 
2.43.0


From 74767ca059be69adc265444c1f04175d8927ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 15/17] fix: a v1 staking pool nobody staked into works after
 its migration

cw20-stake v1 initialized neither BALANCE nor STAKED_TOTAL before the first
stake or funding, while the present code expects both to be there: staking
into, funding, or asking the value of such a pool failed after migrating it.
---
 contracts/staking/cw20-stake/src/contract.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index 124dca0..89c9530 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -453,7 +453,7 @@ pub fn query_list_stakers(
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
+pub fn migrate(deps: DepsMut, env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
     use cw20_stake_v1 as v1;
 
     let ContractVersion { version, .. } = get_contract_version(deps.storage)?;
@@ -480,6 +480,15 @@ pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, Co
             };
             CONFIG.save(deps.storage, &config)?;
 
+            // v1 did not initialize these before the first stake or
+            // funding, but they are now expected to be present.
+            if BALANCE.may_load(deps.storage)?.is_none() {
+                BALANCE.save(deps.storage, &Uint128::zero())?;
+            }
+            if STAKED_TOTAL.may_load(deps.storage)?.is_none() {
+                STAKED_TOTAL.save(deps.storage, &Uint128::zero(), env.block.height)?;
+            }
+
             Ok(Response::default())
         }
     }
-- 
2.43.0


From eabaf358a898954ee8c88f1f41daaaa952c74811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:29 +0000
Subject: [PATCH 16/17] fix: each failing hook is removed, whichever failed
 before it

Hooks that failed were removed by the index they had when the messages were
made. When two of them failed in one transaction (or one failed twice, as when
proposing with a vote) the second removal took out a healthy hook, or panicked
and with that blocked the action. The reply ID now also tells the hook.
---
 .../dao-proposal-multiple/src/contract.rs     | 19 +++++---
 .../dao-proposal-single/src/contract.rs       | 19 +++++---
 packages/cw-hooks/src/lib.rs                  | 44 +++++++++++++++++++
 packages/dao-hooks/src/proposal.rs            |  6 +--
 packages/dao-hooks/src/vote.rs                |  4 +-
 5 files changed, 73 insertions(+), 19 deletions(-)

diff --git a/contracts/proposal/dao-proposal-multiple/src/contract.rs b/contracts/proposal/dao-proposal-multiple/src/contract.rs
index 7b02ca3..60d60d8 100644
--- a/contracts/proposal/dao-proposal-multiple/src/contract.rs
+++ b/contracts/proposal/dao-proposal-multiple/src/contract.rs
@@ -6,7 +6,7 @@ use cosmwasm_std::{
 };
 
 use cw2::set_contract_version;
-use cw_hooks::Hooks;
+use cw_hooks::{hook_reply_index, Hooks};
 use cw_storage_plus::Bound;
 use cw_utils::{parse_reply_instantiate_data, Duration};
 use dao_hooks::proposal::{
@@ -1002,13 +1002,18 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
                     msg.result.into_result().err().unwrap_or("None".to_string()),
                 ))
         }
-        TaggedReplyId::FailedProposalHook(idx) => {
-            let addr = PROPOSAL_HOOKS.remove_hook_by_index(deps.storage, idx)?;
-            Ok(Response::new().add_attribute("removed_proposal_hook", format!("{addr}:{idx}")))
+        TaggedReplyId::FailedProposalHook(id) => {
+            let addr = PROPOSAL_HOOKS.remove_hook_by_reply_id(deps.storage, id)?;
+            let index = hook_reply_index(id);
+            Ok(Response::new().add_attributes(
+                addr.map(|addr| ("removed_proposal_hook", format!("{addr}:{index}"))),
+            ))
         }
-        TaggedReplyId::FailedVoteHook(idx) => {
-            let addr = VOTE_HOOKS.remove_hook_by_index(deps.storage, idx)?;
-            Ok(Response::new().add_attribute("removed vote hook", format!("{addr}:{idx}")))
+        TaggedReplyId::FailedVoteHook(id) => {
+            let addr = VOTE_HOOKS.remove_hook_by_reply_id(deps.storage, id)?;
+            let index = hook_reply_index(id);
+            Ok(Response::new()
+                .add_attributes(addr.map(|addr| ("removed vote hook", format!("{addr}:{index}")))))
         }
         TaggedReplyId::PreProposeModuleInstantiation => {
             let res = parse_reply_instantiate_data(msg)?;
diff --git a/contracts/proposal/dao-proposal-single/src/contract.rs b/contracts/proposal/dao-proposal-single/src/contract.rs
index 1943081..0405cc2 100644
--- a/contracts/proposal/dao-proposal-single/src/contract.rs
+++ b/contracts/proposal/dao-proposal-single/src/contract.rs
@@ -5,7 +5,7 @@ use cosmwasm_std::{
     Response, StdResult, Storage, SubMsg, WasmMsg,
 };
 use cw2::{get_contract_version, set_contract_version, ContractVersion};
-use cw_hooks::Hooks;
+use cw_hooks::{hook_reply_index, Hooks};
 use cw_storage_plus::Bound;
 use cw_utils::{parse_reply_instantiate_data, Duration};
 use dao_hooks::proposal::{
@@ -1086,13 +1086,18 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
                     msg.result.into_result().err().unwrap_or("None".to_string()),
                 ))
         }
-        TaggedReplyId::FailedProposalHook(idx) => {
-            let addr = PROPOSAL_HOOKS.remove_hook_by_index(deps.storage, idx)?;
-            Ok(Response::new().add_attribute("removed_proposal_hook", format!("{addr}:{idx}")))
+        TaggedReplyId::FailedProposalHook(id) => {
+            let addr = PROPOSAL_HOOKS.remove_hook_by_reply_id(deps.storage, id)?;
+            let index = hook_reply_index(id);
+            Ok(Response::new().add_attributes(
+                addr.map(|addr| ("removed_proposal_hook", format!("{addr}:{index}"))),
+            ))
         }
-        TaggedReplyId::FailedVoteHook(idx) => {
-            let addr = VOTE_HOOKS.remove_hook_by_index(deps.storage, idx)?;
-            Ok(Response::new().add_attribute("removed_vote_hook", format!("{addr}:{idx}")))
+        TaggedReplyId::FailedVoteHook(id) => {
+            let addr = VOTE_HOOKS.remove_hook_by_reply_id(deps.storage, id)?;
+            let index = hook_reply_index(id);
+            Ok(Response::new()
+                .add_attributes(addr.map(|addr| ("removed_vote_hook", format!("{addr}:{index}")))))
         }
         TaggedReplyId::PreProposeModuleInstantiation => {
             let res = parse_reply_instantiate_data(msg)?;
diff --git a/packages/cw-hooks/src/lib.rs b/packages/cw-hooks/src/lib.rs
index fdbf435..62b8350 100644
--- a/packages/cw-hooks/src/lib.rs
+++ b/packages/cw-hooks/src/lib.rs
@@ -23,6 +23,29 @@ pub enum HookError {
     HookNotRegistered {},
 }
 
+/// The number of bits a hook's index takes in its reply ID.
+const HOOK_INDEX_BITS: u8 = 16;
+/// The number of bits of a hook's reply ID. This leaves three bits for the
+/// contract to tag the type of a reply with.
+const HOOK_REPLY_ID_BITS: u8 = 61;
+
+/// An ID for the reply to a hook message that tells which hook it was sent to,
+/// even if other hooks have been removed in the meantime: the index of the hook
+/// and a (never zero) hash of its address.
+pub fn hook_reply_id(index: u64, hook: &Addr) -> u64 {
+    // FNV-1a
+    let hash = hook.as_bytes().iter().fold(0xcbf29ce484222325, |h, b| {
+        (h ^ u64::from(*b)).wrapping_mul(0x100000001b3)
+    });
+    let tag = hash % ((1 << (HOOK_REPLY_ID_BITS - HOOK_INDEX_BITS)) - 1) + 1;
+    (tag << HOOK_INDEX_BITS) | hook_reply_index(index)
+}
+
+/// The index of the hook when its reply ID was made.
+pub fn hook_reply_index(reply_id: u64) -> u64 {
+    reply_id & ((1 << HOOK_INDEX_BITS) - 1)
+}
+
 // store all hook addresses in one item. We cannot have many of them before the contract becomes unusable anyway.
 pub struct Hooks<'a>(Item<'a, Vec<Addr>>);
 
@@ -62,6 +85,27 @@ impl<'a> Hooks<'a> {
         Ok(hook)
     }
 
+    /// Removes the hook a reply ID made by `hook_reply_id` was made for, if
+    /// it is still registered. As hooks before it may have been removed since,
+    /// it is not necessarily at the index it was at.
+    pub fn remove_hook_by_reply_id(
+        &self,
+        storage: &mut dyn Storage,
+        reply_id: u64,
+    ) -> Result<Option<Addr>, HookError> {
+        if reply_id >> HOOK_INDEX_BITS == 0 {
+            return self.remove_hook_by_index(storage, reply_id).map(Some);
+        }
+        let mut hooks = self.0.load(storage)?;
+        let index = hook_reply_index(reply_id);
+        let position = hooks
+            .iter()
+            .position(|hook| hook_reply_id(index, hook) == reply_id);
+        let hook = position.map(|p| hooks.remove(p));
+        self.0.save(storage, &hooks)?;
+        Ok(hook)
+    }
+
     pub fn prepare_hooks<F: FnMut(Addr) -> StdResult<SubMsg>>(
         &self,
         storage: &dyn Storage,
diff --git a/packages/dao-hooks/src/proposal.rs b/packages/dao-hooks/src/proposal.rs
index c98cfdc..4ccea8f 100644
--- a/packages/dao-hooks/src/proposal.rs
+++ b/packages/dao-hooks/src/proposal.rs
@@ -1,6 +1,6 @@
 use cosmwasm_schema::cw_serde;
 use cosmwasm_std::{to_json_binary, Empty, StdResult, Storage, SubMsg, WasmMsg};
-use cw_hooks::Hooks;
+use cw_hooks::{hook_reply_id, Hooks};
 use dao_voting::{
     pre_propose::ProposalCreationPolicy,
     reply::{failed_pre_propose_module_hook_id, mask_proposal_hook_index},
@@ -46,7 +46,7 @@ pub fn new_proposal_hooks(
             msg: msg.clone(),
             funds: vec![],
         };
-        let masked_index = mask_proposal_hook_index(index);
+        let masked_index = mask_proposal_hook_index(hook_reply_id(index, &a));
         let tmp = SubMsg::reply_on_error(execute, masked_index);
         index += 1;
         Ok(tmp)
@@ -83,7 +83,7 @@ pub fn proposal_status_changed_hooks(
             msg: msg.clone(),
             funds: vec![],
         };
-        let masked_index = mask_proposal_hook_index(index);
+        let masked_index = mask_proposal_hook_index(hook_reply_id(index, &a));
         let tmp = SubMsg::reply_on_error(execute, masked_index);
         index += 1;
         Ok(tmp)
diff --git a/packages/dao-hooks/src/vote.rs b/packages/dao-hooks/src/vote.rs
index 9d5dedf..7c208d5 100644
--- a/packages/dao-hooks/src/vote.rs
+++ b/packages/dao-hooks/src/vote.rs
@@ -1,6 +1,6 @@
 use cosmwasm_schema::cw_serde;
 use cosmwasm_std::{to_json_binary, StdResult, Storage, SubMsg, WasmMsg};
-use cw_hooks::Hooks;
+use cw_hooks::{hook_reply_id, Hooks};
 use dao_voting::reply::mask_vote_hook_index;
 
 /// An enum representing vote hooks, fired when new votes are cast.
@@ -35,7 +35,7 @@ pub fn new_vote_hooks(
             msg: msg.clone(),
             funds: vec![],
         };
-        let masked_index = mask_vote_hook_index(index);
+        let masked_index = mask_vote_hook_index(hook_reply_id(index, &a));
         let tmp = SubMsg::reply_on_error(execute, masked_index);
         index += 1;
         Ok(tmp)
-- 
2.43.0


From 2a22649c8ee3038a6026f12dc8a868fa9e775fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:27 +0000
Subject: [PATCH 17/17] fix: a slash of unbonding tokens changes the validator
 cardinality for its own time only

---
 packages/cw-stake-tracker/src/lib.rs | 38 +++++++++++++++-------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/packages/cw-stake-tracker/src/lib.rs b/packages/cw-stake-tracker/src/lib.rs
index eff1ff9..c30ebcd 100644
--- a/packages/cw-stake-tracker/src/lib.rs
+++ b/packages/cw-stake-tracker/src/lib.rs
@@ -58,7 +58,9 @@ impl<'a> StakeTracker<'a> {
     ) -> StdResult<()> {
         self.total_staked
             .increment(storage, (), t.seconds(), amount)?;
-        self.update_validator(storage, t.seconds(), validator, &|staked| staked + amount)
+        self.update_validator(storage, t.seconds(), validator, &|staked, _| {
+            staked + amount
+        })
     }
 
     /// Makes note of a redelegation. Note, this only supports
@@ -74,8 +76,8 @@ impl<'a> StakeTracker<'a> {
         dst: String,
         amount: Uint128,
     ) -> StdResult<()> {
-        self.update_validator(storage, t.seconds(), src, &|staked| staked - amount)?;
-        self.update_validator(storage, t.seconds(), dst, &|staked| staked + amount)
+        self.update_validator(storage, t.seconds(), src, &|staked, _| staked - amount)?;
+        self.update_validator(storage, t.seconds(), dst, &|staked, _| staked + amount)
     }
 
     pub fn on_undelegate(
@@ -96,7 +98,7 @@ impl<'a> StakeTracker<'a> {
             storage,
             t.seconds() + unbonding_duration_seconds,
             validator,
-            &|staked| staked - amount,
+            &|staked, _| staked - amount,
         )
     }
 
@@ -117,7 +119,9 @@ impl<'a> StakeTracker<'a> {
     ) -> StdResult<()> {
         self.total_staked
             .decrement(storage, (), t.seconds(), amount)?;
-        self.update_validator(storage, t.seconds(), validator, &|staked| staked - amount)
+        self.update_validator(storage, t.seconds(), validator, &|staked, _| {
+            staked - amount
+        })
     }
 
     /// Registers a slash of unbonding tokens.
@@ -145,14 +149,13 @@ impl<'a> StakeTracker<'a> {
 
         self.total_staked
             .dangerously_update(storage, (), t.seconds(), &mut |v, _| v - amount)?;
-        let new =
-            self.validators
-                .dangerously_update(storage, validator, t.seconds(), &mut |v, _| v - amount)?;
-        if new.is_zero() {
-            self.cardinality
-                .dangerously_update(storage, (), t.seconds(), &mut |v, _| v - 1)?;
-        }
-        Ok(())
+        self.update_validator(storage, t.seconds(), validator, &|staked, time| {
+            if time == t.seconds() {
+                staked - amount
+            } else {
+                staked
+            }
+        })
     }
 
     /// Updates the tokens staked with `validator` at `t` and all future
@@ -165,7 +168,7 @@ impl<'a> StakeTracker<'a> {
         storage: &mut dyn Storage,
         t: u64,
         validator: String,
-        update: &dyn Fn(Uint128) -> Uint128,
+        update: &dyn Fn(Uint128, u64) -> Uint128,
     ) -> StdResult<()> {
         // the times at which the update's impact on the cardinality
         // changes, and the impact from then on.
@@ -173,7 +176,7 @@ impl<'a> StakeTracker<'a> {
         let mut impact = 0;
         self.validators
             .update(storage, validator, t, &mut |staked, time| {
-                let new = update(staked);
+                let new = update(staked, time);
                 let current = i8::from(!new.is_zero()) - i8::from(!staked.is_zero());
                 if current != impact {
                     impacts.push((time, current - impact));
@@ -184,8 +187,9 @@ impl<'a> StakeTracker<'a> {
 
         // we can't do these updates as part of the `update` call
         // above as that would require two mutable references to
-        // storage.
-        for (time, change) in impacts {
+        // storage. the latest goes first, as then no intermediate value
+        // is negative.
+        for (time, change) in impacts.into_iter().rev() {
             if change > 0 {
                 self.cardinality.increment(storage, (), time, 1)?;
             } else {
-- 
2.43.0


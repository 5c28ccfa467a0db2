From 40352f6e4fdd82087c16848064eb91f6be071c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 01/14] fix: settle a delegate's rewards before its delegated
 stake changes

The delegate was refreshed after stake_from_others had been changed, so past
distributions were credited with the new weight.
---
 programs/rewards/src/state/reward_pool.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/programs/rewards/src/state/reward_pool.rs b/programs/rewards/src/state/reward_pool.rs
index f8a3e88..e0c5424 100644
--- a/programs/rewards/src/state/reward_pool.rs
+++ b/programs/rewards/src/state/reward_pool.rs
@@ -173,25 +173,25 @@ impl<'a> WrappedRewardPool<'a> {
         if let Some(old_delegate_info) = old_delegate_mining {
             let old_delegate_mining_data = &mut old_delegate_info.data.borrow_mut();
             let mut old_delegate_mining = WrappedMining::from_bytes_mut(old_delegate_mining_data)?;
+            old_delegate_mining.refresh_rewards(self.cumulative_index)?;
 
             old_delegate_mining.mining.stake_from_others = old_delegate_mining
                 .mining
                 .stake_from_others
                 .safe_sub(staked_amount)?;
             self.pool.total_share = self.pool.total_share.safe_sub(staked_amount)?;
-            old_delegate_mining.refresh_rewards(self.cumulative_index)?;
         }
 
         if let Some(new_delegate_info) = new_delegate_mining {
             let new_delegate_mining_data = &mut new_delegate_info.data.borrow_mut();
             let mut new_delegate_mining = WrappedMining::from_bytes_mut(new_delegate_mining_data)?;
+            new_delegate_mining.refresh_rewards(self.cumulative_index)?;
 
             new_delegate_mining.mining.stake_from_others = new_delegate_mining
                 .mining
                 .stake_from_others
                 .safe_add(staked_amount)?;
             self.pool.total_share = self.pool.total_share.safe_add(staked_amount)?;
-            new_delegate_mining.refresh_rewards(self.cumulative_index)?;
         }
 
         Ok(())
@@ -251,12 +251,12 @@ impl<'a> WrappedRewardPool<'a> {
         if let Some(delegate_mining_acc) = delegate_mining {
             let delegate_mining_data = &mut delegate_mining_acc.data.borrow_mut();
             let mut delegate_mining = WrappedMining::from_bytes_mut(delegate_mining_data)?;
+            delegate_mining.refresh_rewards(self.cumulative_index)?;
 
             delegate_mining.mining.stake_from_others =
                 delegate_mining.mining.stake_from_others.safe_add(amount)?;
 
             self.pool.total_share = self.pool.total_share.safe_add(amount)?;
-            delegate_mining.refresh_rewards(self.cumulative_index)?;
         }
 
         Ok(())
@@ -282,12 +282,12 @@ impl<'a> WrappedRewardPool<'a> {
         if let Some(delegate_mining_acc) = delegate_mining {
             let delegate_mining_data = &mut delegate_mining_acc.data.borrow_mut();
             let mut delegate_mining = WrappedMining::from_bytes_mut(delegate_mining_data)?;
+            delegate_mining.refresh_rewards(self.cumulative_index)?;
 
             delegate_mining.mining.stake_from_others =
                 delegate_mining.mining.stake_from_others.safe_sub(amount)?;
 
             self.pool.total_share = self.pool.total_share.safe_sub(amount)?;
-            delegate_mining.refresh_rewards(self.cumulative_index)?;
         }
 
         Ok(())
@@ -396,13 +396,13 @@ impl<'a> WrappedRewardPool<'a> {
             Some(delegate_mining_acc) => {
                 let delegate_mining_data = &mut delegate_mining_acc.data.borrow_mut();
                 let mut delegate_mining = WrappedMining::from_bytes_mut(delegate_mining_data)?;
+                delegate_mining.refresh_rewards(self.cumulative_index)?;
 
                 delegate_mining.mining.stake_from_others = delegate_mining
                     .mining
                     .stake_from_others
                     .safe_sub(base_amount)?;
                 self.pool.total_share = self.pool.total_share.safe_sub(base_amount)?;
-                delegate_mining.refresh_rewards(self.cumulative_index)?;
 
                 Some(delegate_mining_acc)
             }
-- 
2.43.0


From 42d529796b45ab65df503ecb91182f914e693c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 02/14] fix: extending a stake removes its old expiry from the
 pool too

Only the mining's scheduled drop was removed, so the pool's total share was
lowered once more on the old expiry date.
---
 programs/rewards/src/state/reward_pool.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/programs/rewards/src/state/reward_pool.rs b/programs/rewards/src/state/reward_pool.rs
index e0c5424..99d4da7 100644
--- a/programs/rewards/src/state/reward_pool.rs
+++ b/programs/rewards/src/state/reward_pool.rs
@@ -16,9 +16,7 @@ use solana_program::{
     sysvar::Sysvar,
 };
 
-use super::{
-    CumulativeIndex, MiningWeightedStakeDiffs, PoolWeightedStakeDiffs, WrappedMining, PRECISION,
-};
+use super::{CumulativeIndex, PoolWeightedStakeDiffs, WrappedMining, PRECISION};
 
 pub struct WrappedRewardPool<'a> {
     pub pool: &'a mut RewardPool,
@@ -368,6 +366,11 @@ impl<'a> WrappedRewardPool<'a> {
                 deposit_old_expiration_ts,
                 weighted_stake_diff,
             )?;
+            RewardPool::modify_weighted_stake_diffs(
+                self.weighted_stake_diffs,
+                deposit_old_expiration_ts,
+                weighted_stake_diff,
+            )?;
 
             // also, we need to reduce staking power because we want to extend stake from "scratch"
             mining.mining.share = mining.mining.share.safe_sub(curr_part_of_weighted_stake)?;
@@ -502,8 +505,8 @@ impl RewardPool {
         .map_err(|_| MplxRewardsError::InvalidPrimitiveTypesConversion)?)
     }
 
-    fn modify_weighted_stake_diffs(
-        diffs: &mut MiningWeightedStakeDiffs,
+    fn modify_weighted_stake_diffs<T: NodeAllocatorMap<u64, u64>>(
+        diffs: &mut T,
         timestamp: u64,
         weighted_stake_diff: u64,
     ) -> Result<(), MplxRewardsError> {
-- 
2.43.0


From 00ae7a288776bf0c817f70f56e60fe75fd01522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 03/14] fix: closing a mining requires the pool it belongs to

Any pool and its deposit authority were accepted, so rewards and stake in the
mining's own pool could be bypassed.
---
 programs/rewards/src/instructions/close_mining.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/programs/rewards/src/instructions/close_mining.rs b/programs/rewards/src/instructions/close_mining.rs
index 151bd6b..0e9af16 100644
--- a/programs/rewards/src/instructions/close_mining.rs
+++ b/programs/rewards/src/instructions/close_mining.rs
@@ -31,6 +31,7 @@ pub fn process_close_mining<'a>(
         let mining_data = &mut (*mining.data).borrow_mut();
         let mut wrapped_mining = WrappedMining::from_bytes_mut(mining_data)?;
         assert_account_key(mining_owner, &wrapped_mining.mining.owner)?;
+        assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;
 
         wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;
 
-- 
2.43.0


From 9ce0a4a5887ea513eac3001d0214518e6805d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 04/14] fix: settle rewards and expired lockups before a
 penalty

The penalty was applied to already distributed rewards and could be taken out
of lockup expiries that had already passed.
---
 .../rewards/src/instructions/penalties/decrease_rewards.rs     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/rewards/src/instructions/penalties/decrease_rewards.rs b/programs/rewards/src/instructions/penalties/decrease_rewards.rs
index bed4357..3aa0969 100644
--- a/programs/rewards/src/instructions/penalties/decrease_rewards.rs
+++ b/programs/rewards/src/instructions/penalties/decrease_rewards.rs
@@ -16,7 +16,7 @@ pub fn process_decrease_rewards<'a>(
     let reward_pool_data = &mut reward_pool.data.borrow_mut();
     let mining_data = &mut mining.data.borrow_mut();
 
-    let (_, mut wrapped_mining) = assert_and_get_pool_and_mining(
+    let (wrapped_reward_pool, mut wrapped_mining) = assert_and_get_pool_and_mining(
         program_id,
         mining_owner,
         mining,
@@ -26,6 +26,7 @@ pub fn process_decrease_rewards<'a>(
         mining_data,
     )?;
 
+    wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;
     wrapped_mining.decrease_rewards(decreased_weighted_stake_number)?;
 
     Ok(())
-- 
2.43.0


From cc9d3bc8db0837bca30066b914ebded55cd21c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 05/14] fix: a distribution made in the first second of a day
 is settled at once

The index of that distribution has the current timestamp as its key and was
left out, so stake changes in the same second were applied to it retroactively.
---
 programs/rewards/src/state/mining.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/rewards/src/state/mining.rs b/programs/rewards/src/state/mining.rs
index dac43c5..32807e3 100644
--- a/programs/rewards/src/state/mining.rs
+++ b/programs/rewards/src/state/mining.rs
@@ -64,9 +64,10 @@ impl<'a> WrappedMining<'a> {
             cumulative_index,
             self.weighted_stake_diffs,
         )?;
+        // the bound is exclusive, the distribution made at this very second counts too
         Mining::update_index(
             cumulative_index,
-            curr_ts,
+            curr_ts.safe_add(1)?,
             share,
             &mut self.mining.unclaimed_rewards,
             &mut self.mining.index_with_precision,
-- 
2.43.0


From 04e92f3948d3b2dde102b6d15b6c134dd0eadd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 06/14] fix: refuse what does not fit into the fixed-size trees

A failed insertion was ignored: the lockup never expired, or the distributed
rewards were lost and the day could be distributed again.
---
 programs/rewards/src/state/reward_pool.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/programs/rewards/src/state/reward_pool.rs b/programs/rewards/src/state/reward_pool.rs
index 99d4da7..5fd5403 100644
--- a/programs/rewards/src/state/reward_pool.rs
+++ b/programs/rewards/src/state/reward_pool.rs
@@ -122,7 +122,9 @@ impl<'a> WrappedRewardPool<'a> {
 
         let latest_index = index_with_precision.safe_add(index)?;
 
-        cumulative_index.insert(date_to_process, latest_index);
+        cumulative_index
+            .insert(date_to_process, latest_index)
+            .ok_or(ProgramError::AccountDataTooSmall)?;
         *index_with_precision = latest_index;
 
         Ok(())
@@ -225,10 +227,12 @@ impl<'a> WrappedRewardPool<'a> {
             0
         };
 
-        self.weighted_stake_diffs.insert(
-            stake_expiration_date,
-            modifier.safe_add(weighted_stake_diff)?,
-        );
+        self.weighted_stake_diffs
+            .insert(
+                stake_expiration_date,
+                modifier.safe_add(weighted_stake_diff)?,
+            )
+            .ok_or(ProgramError::AccountDataTooSmall)?;
 
         if mining
             .weighted_stake_diffs
@@ -243,7 +247,8 @@ impl<'a> WrappedRewardPool<'a> {
         } else {
             mining
                 .weighted_stake_diffs
-                .insert(stake_expiration_date, weighted_stake_diff);
+                .insert(stake_expiration_date, weighted_stake_diff)
+                .ok_or(ProgramError::AccountDataTooSmall)?;
         }
 
         if let Some(delegate_mining_acc) = delegate_mining {
-- 
2.43.0


From ac653c798ac610894c42f6df1a63503ad522d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 07/14] fix: a deposit processes the pool's expired lockups
 first

Expired dates not yet processed took up the pool's 365 entries, so a new
expiry date did not fit although at most 365 dates lie ahead.
---
 programs/rewards/src/state/reward_pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/programs/rewards/src/state/reward_pool.rs b/programs/rewards/src/state/reward_pool.rs
index 5fd5403..15e9ab8 100644
--- a/programs/rewards/src/state/reward_pool.rs
+++ b/programs/rewards/src/state/reward_pool.rs
@@ -207,6 +207,12 @@ impl<'a> WrappedRewardPool<'a> {
     ) -> ProgramResult {
         mining.refresh_rewards(self.cumulative_index)?;
 
+        // expired modifiers must not take up the space needed for the new one
+        let curr_ts = get_curr_unix_ts();
+        let beginning_of_the_day = curr_ts - (curr_ts % SECONDS_PER_DAY);
+        self.pool.total_share =
+            self.consume_old_modifiers(beginning_of_the_day, self.pool.total_share)?;
+
         // regular weighted stake which will be used in rewards distribution
         let weighted_stake = amount.safe_mul(lockup_period.multiplier())?;
 
@@ -218,7 +224,7 @@ impl<'a> WrappedRewardPool<'a> {
         self.pool.total_share = self.pool.total_share.safe_add(weighted_stake)?;
         mining.mining.share = mining.mining.share.safe_add(weighted_stake)?;
 
-        let stake_expiration_date = lockup_period.end_timestamp(get_curr_unix_ts())?;
+        let stake_expiration_date = lockup_period.end_timestamp(curr_ts)?;
 
         let modifier = if let Some(modifier) = self.weighted_stake_diffs.get(&stake_expiration_date)
         {
-- 
2.43.0


From 17e436379d1beb2fa0f8861e865caaf54e7b8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 08/14] fix: the old delegate's mining must belong to the same
 pool

A delegate mining of another pool was accepted, which lowered the stake there
and the wrong pool's total share.
---
 programs/rewards/src/instructions/change_delegate.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/programs/rewards/src/instructions/change_delegate.rs b/programs/rewards/src/instructions/change_delegate.rs
index 2993c68..9c03ea5 100644
--- a/programs/rewards/src/instructions/change_delegate.rs
+++ b/programs/rewards/src/instructions/change_delegate.rs
@@ -1,6 +1,7 @@
 use crate::{
     asserts::assert_and_get_pool_and_mining,
     error::MplxRewardsError,
+    state::WrappedImmutableMining,
     utils::{get_delegate_mining, verify_delegate_mining_address, AccountLoader},
 };
 use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey};
@@ -48,6 +49,17 @@ pub fn process_change_delegate<'a>(
     }
 
     let old_delegate_mining = get_delegate_mining(old_delegate_mining, mining)?;
+    if let Some(old_delegate_mining) = old_delegate_mining {
+        let old_delegate = WrappedImmutableMining::from_bytes(&old_delegate_mining.data.borrow())?
+            .mining
+            .owner;
+        verify_delegate_mining_address(
+            program_id,
+            old_delegate_mining,
+            &old_delegate,
+            reward_pool.key,
+        )?
+    }
 
     wrapped_reward_pool.change_delegate(
         &mut wrapped_mining,
-- 
2.43.0


From d4db79cadfb482d801f41445044b4b5b7a0dbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 09/14] fix: the vault cannot be filled from itself

When the fill authority is also the deposit authority, such a fill moved no
tokens but raised the amount available for distribution.
---
 programs/rewards/src/instructions/fill_vault.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/programs/rewards/src/instructions/fill_vault.rs b/programs/rewards/src/instructions/fill_vault.rs
index f612f0a..46c62b2 100644
--- a/programs/rewards/src/instructions/fill_vault.rs
+++ b/programs/rewards/src/instructions/fill_vault.rs
@@ -5,7 +5,8 @@ use crate::{
     utils::{get_curr_unix_ts, spl_transfer, AccountLoader, SafeArithmeticOperations},
 };
 use solana_program::{
-    account_info::AccountInfo, clock::SECONDS_PER_DAY, entrypoint::ProgramResult, pubkey::Pubkey,
+    account_info::AccountInfo, clock::SECONDS_PER_DAY, entrypoint::ProgramResult,
+    program_error::ProgramError, pubkey::Pubkey,
 };
 
 pub fn process_fill_vault<'a>(
@@ -44,6 +45,10 @@ pub fn process_fill_vault<'a>(
             &Pubkey::create_program_address(vault_seeds, program_id)?,
         )?;
     }
+    // a transfer of the vault to itself brings no tokens
+    if source_token_account.key == vault.key {
+        return Err(ProgramError::InvalidArgument);
+    }
 
     {
         // beginning of the day where distribution_ends_at
-- 
2.43.0


From 57b2af6e385645b6f1c8d7f07e320783fcf45003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 10/14] fix: lamports at a mining's or vault's address cannot
 block its creation

The system program refuses to create an account that holds lamports, so anybody
could prevent a given owner's mining or a pool's vault from being created.
---
 .../src/instructions/initialize_mining.rs     | 19 ++++----
 programs/rewards/src/utils.rs                 | 43 +++++++++++++++----
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/programs/rewards/src/instructions/initialize_mining.rs b/programs/rewards/src/instructions/initialize_mining.rs
index 41ec889..7104fda 100644
--- a/programs/rewards/src/instructions/initialize_mining.rs
+++ b/programs/rewards/src/instructions/initialize_mining.rs
@@ -1,11 +1,10 @@
 use crate::{
     asserts::assert_account_key,
     state::{Mining, WrappedMining},
-    utils::{find_mining_program_address, AccountLoader},
+    utils::{create_account_with_len, find_mining_program_address, AccountLoader},
 };
 use solana_program::{
-    account_info::AccountInfo, entrypoint::ProgramResult, program::invoke_signed, pubkey::Pubkey,
-    rent::Rent, system_instruction, system_program, sysvar::Sysvar,
+    account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, system_program,
 };
 
 pub fn process_initialize_mining<'a>(
@@ -30,15 +29,13 @@ pub fn process_initialize_mining<'a>(
         &[bump],
     ];
 
-    let rent = Rent::get()?;
-    let ix = system_instruction::create_account(
-        payer.key,
-        mining.key,
-        rent.minimum_balance(WrappedMining::LEN),
-        WrappedMining::LEN as u64,
+    create_account_with_len(
         program_id,
-    );
-    invoke_signed(&ix, &[payer.clone(), mining.clone()], &[signers_seeds])?;
+        payer.clone(),
+        mining.clone(),
+        WrappedMining::LEN,
+        &[signers_seeds],
+    )?;
 
     let mining_data = &mut mining.data.borrow_mut();
     let wrapped_mining = WrappedMining::from_bytes_mut(mining_data)?;
diff --git a/programs/rewards/src/utils.rs b/programs/rewards/src/utils.rs
index 5bd2c41..2066a61 100644
--- a/programs/rewards/src/utils.rs
+++ b/programs/rewards/src/utils.rs
@@ -56,17 +56,42 @@ pub fn create_account<'a, S: Pack>(
     to: AccountInfo<'a>,
     signers_seeds: &[&[&[u8]]],
 ) -> ProgramResult {
-    let rent = Rent::get()?;
+    create_account_with_len(program_id, from, to, S::LEN, signers_seeds)
+}
 
-    let ix = system_instruction::create_account(
-        from.key,
-        to.key,
-        rent.minimum_balance(S::LEN),
-        S::LEN as u64,
-        program_id,
-    );
+/// Create account of the given length
+pub fn create_account_with_len<'a>(
+    program_id: &Pubkey,
+    from: AccountInfo<'a>,
+    to: AccountInfo<'a>,
+    len: usize,
+    signers_seeds: &[&[&[u8]]],
+) -> ProgramResult {
+    let required_lamports = Rent::get()?.minimum_balance(len);
+
+    if to.lamports() == 0 {
+        let ix = system_instruction::create_account(
+            from.key,
+            to.key,
+            required_lamports,
+            len as u64,
+            program_id,
+        );
 
-    invoke_signed(&ix, &[from, to], signers_seeds)
+        return invoke_signed(&ix, &[from, to], signers_seeds);
+    }
+
+    // Somebody has already sent lamports to this address,
+    // which must not prevent the account from being created
+    let missing_lamports = required_lamports.saturating_sub(to.lamports());
+    if missing_lamports > 0 {
+        let ix = system_instruction::transfer(from.key, to.key, missing_lamports);
+        invoke(&ix, &[from, to.clone()])?;
+    }
+    let ix = system_instruction::allocate(to.key, len as u64);
+    invoke_signed(&ix, &[to.clone()], signers_seeds)?;
+    let ix = system_instruction::assign(to.key, program_id);
+    invoke_signed(&ix, &[to], signers_seeds)
 }
 
 /// Initialize SPL account instruction.
-- 
2.43.0


From 2fd01c429f9cae9691ccc513695f190caac7b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 11/14] fix: clients and IDL describe the accounts the program
 expects

Deposit, withdraw and extend write to the delegate's mining and close writes
to the mining, so these have to be writable; extend takes no reward mint.
---
 .../src/generated/instructions/closeMining.ts |  2 +-
 .../generated/instructions/depositMining.ts   |  2 +-
 .../src/generated/instructions/extendStake.ts | 13 +---
 .../generated/instructions/withdrawMining.ts  |  2 +-
 .../generated/instructions/close_mining.rs    |  8 +--
 .../generated/instructions/deposit_mining.rs  |  8 +--
 .../generated/instructions/extend_stake.rs    | 60 +++----------------
 .../generated/instructions/withdraw_mining.rs |  8 +--
 idls/mplx_rewards.json                        | 16 ++---
 programs/rewards/src/instruction.rs           | 11 ++--
 10 files changed, 36 insertions(+), 94 deletions(-)

diff --git a/clients/js/src/generated/instructions/closeMining.ts b/clients/js/src/generated/instructions/closeMining.ts
index b6c9b4f..fd59e02 100644
--- a/clients/js/src/generated/instructions/closeMining.ts
+++ b/clients/js/src/generated/instructions/closeMining.ts
@@ -75,7 +75,7 @@ export function closeMining(
   const resolvedAccounts = {
     mining: {
       index: 0,
-      isWritable: false as boolean,
+      isWritable: true as boolean,
       value: input.mining ?? null,
     },
     miningOwner: {
diff --git a/clients/js/src/generated/instructions/depositMining.ts b/clients/js/src/generated/instructions/depositMining.ts
index 636b754..cc2e19c 100644
--- a/clients/js/src/generated/instructions/depositMining.ts
+++ b/clients/js/src/generated/instructions/depositMining.ts
@@ -120,7 +120,7 @@ export function depositMining(
     },
     delegateMining: {
       index: 3,
-      isWritable: false as boolean,
+      isWritable: true as boolean,
       value: input.delegateMining ?? null,
     },
   } satisfies ResolvedAccountsWithIndices;
diff --git a/clients/js/src/generated/instructions/extendStake.ts b/clients/js/src/generated/instructions/extendStake.ts
index 709f4e4..c17ac8d 100644
--- a/clients/js/src/generated/instructions/extendStake.ts
+++ b/clients/js/src/generated/instructions/extendStake.ts
@@ -39,8 +39,6 @@ export type ExtendStakeInstructionAccounts = {
   rewardPool: PublicKey | Pda;
   /** The address of the mining account which belongs to the user and stores info about user's rewards */
   mining: PublicKey | Pda;
-  /** The address of the reward mint */
-  rewardMint: PublicKey | Pda;
   /** The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs */
   depositAuthority: Signer;
   /** The address of Mining Account that might be used as a delegate in delegated staking model */
@@ -121,19 +119,14 @@ export function extendStake(
       isWritable: true as boolean,
       value: input.mining ?? null,
     },
-    rewardMint: {
-      index: 2,
-      isWritable: false as boolean,
-      value: input.rewardMint ?? null,
-    },
     depositAuthority: {
-      index: 3,
+      index: 2,
       isWritable: false as boolean,
       value: input.depositAuthority ?? null,
     },
     delegateMining: {
-      index: 4,
-      isWritable: false as boolean,
+      index: 3,
+      isWritable: true as boolean,
       value: input.delegateMining ?? null,
     },
   } satisfies ResolvedAccountsWithIndices;
diff --git a/clients/js/src/generated/instructions/withdrawMining.ts b/clients/js/src/generated/instructions/withdrawMining.ts
index 0947681..bfcc2b5 100644
--- a/clients/js/src/generated/instructions/withdrawMining.ts
+++ b/clients/js/src/generated/instructions/withdrawMining.ts
@@ -112,7 +112,7 @@ export function withdrawMining(
     },
     delegateMining: {
       index: 3,
-      isWritable: false as boolean,
+      isWritable: true as boolean,
       value: input.delegateMining ?? null,
     },
   } satisfies ResolvedAccountsWithIndices;
diff --git a/clients/rust/src/generated/instructions/close_mining.rs b/clients/rust/src/generated/instructions/close_mining.rs
index ca98cb5..cd10e96 100644
--- a/clients/rust/src/generated/instructions/close_mining.rs
+++ b/clients/rust/src/generated/instructions/close_mining.rs
@@ -32,7 +32,7 @@ impl CloseMining {
         remaining_accounts: &[solana_program::instruction::AccountMeta],
     ) -> solana_program::instruction::Instruction {
         let mut accounts = Vec::with_capacity(5 + remaining_accounts.len());
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
+        accounts.push(solana_program::instruction::AccountMeta::new(
             self.mining,
             false,
         ));
@@ -78,7 +78,7 @@ impl CloseMiningInstructionData {
 ///
 /// ### Accounts:
 ///
-///   0. `[]` mining
+///   0. `[writable]` mining
 ///   1. `[signer]` mining_owner
 ///   2. `[writable]` target_account
 ///   3. `[signer]` deposit_authority
@@ -241,7 +241,7 @@ impl<'a, 'b> CloseMiningCpi<'a, 'b> {
         )],
     ) -> solana_program::entrypoint::ProgramResult {
         let mut accounts = Vec::with_capacity(5 + remaining_accounts.len());
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
+        accounts.push(solana_program::instruction::AccountMeta::new(
             *self.mining.key,
             false,
         ));
@@ -298,7 +298,7 @@ impl<'a, 'b> CloseMiningCpi<'a, 'b> {
 ///
 /// ### Accounts:
 ///
-///   0. `[]` mining
+///   0. `[writable]` mining
 ///   1. `[signer]` mining_owner
 ///   2. `[writable]` target_account
 ///   3. `[signer]` deposit_authority
diff --git a/clients/rust/src/generated/instructions/deposit_mining.rs b/clients/rust/src/generated/instructions/deposit_mining.rs
index 092f4b3..9765314 100644
--- a/clients/rust/src/generated/instructions/deposit_mining.rs
+++ b/clients/rust/src/generated/instructions/deposit_mining.rs
@@ -48,7 +48,7 @@ impl DepositMining {
             self.deposit_authority,
             true,
         ));
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
+        accounts.push(solana_program::instruction::AccountMeta::new(
             self.delegate_mining,
             false,
         ));
@@ -92,7 +92,7 @@ pub struct DepositMiningInstructionArgs {
 ///   0. `[writable]` reward_pool
 ///   1. `[writable]` mining
 ///   2. `[signer]` deposit_authority
-///   3. `[]` delegate_mining
+///   3. `[writable]` delegate_mining
 #[derive(Default)]
 pub struct DepositMiningBuilder {
     reward_pool: Option<solana_program::pubkey::Pubkey>,
@@ -291,7 +291,7 @@ impl<'a, 'b> DepositMiningCpi<'a, 'b> {
             *self.deposit_authority.key,
             true,
         ));
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
+        accounts.push(solana_program::instruction::AccountMeta::new(
             *self.delegate_mining.key,
             false,
         ));
@@ -336,7 +336,7 @@ impl<'a, 'b> DepositMiningCpi<'a, 'b> {
 ///   0. `[writable]` reward_pool
 ///   1. `[writable]` mining
 ///   2. `[signer]` deposit_authority
-///   3. `[]` delegate_mining
+///   3. `[writable]` delegate_mining
 pub struct DepositMiningCpiBuilder<'a, 'b> {
     instruction: Box<DepositMiningCpiBuilderInstruction<'a, 'b>>,
 }
diff --git a/clients/rust/src/generated/instructions/extend_stake.rs b/clients/rust/src/generated/instructions/extend_stake.rs
index 5909d5b..a4819c4 100644
--- a/clients/rust/src/generated/instructions/extend_stake.rs
+++ b/clients/rust/src/generated/instructions/extend_stake.rs
@@ -16,8 +16,6 @@ pub struct ExtendStake {
     pub reward_pool: solana_program::pubkey::Pubkey,
     /// The address of the mining account which belongs to the user and stores info about user's rewards
     pub mining: solana_program::pubkey::Pubkey,
-    /// The address of the reward mint
-    pub reward_mint: solana_program::pubkey::Pubkey,
     /// The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs
     pub deposit_authority: solana_program::pubkey::Pubkey,
     /// The address of Mining Account that might be used as a delegate in delegated staking model
@@ -37,7 +35,7 @@ impl ExtendStake {
         args: ExtendStakeInstructionArgs,
         remaining_accounts: &[solana_program::instruction::AccountMeta],
     ) -> solana_program::instruction::Instruction {
-        let mut accounts = Vec::with_capacity(5 + remaining_accounts.len());
+        let mut accounts = Vec::with_capacity(4 + remaining_accounts.len());
         accounts.push(solana_program::instruction::AccountMeta::new(
             self.reward_pool,
             false,
@@ -46,15 +44,11 @@ impl ExtendStake {
             self.mining,
             false,
         ));
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
-            self.reward_mint,
-            false,
-        ));
         accounts.push(solana_program::instruction::AccountMeta::new_readonly(
             self.deposit_authority,
             true,
         ));
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
+        accounts.push(solana_program::instruction::AccountMeta::new(
             self.delegate_mining,
             false,
         ));
@@ -100,14 +94,12 @@ pub struct ExtendStakeInstructionArgs {
 ///
 ///   0. `[writable]` reward_pool
 ///   1. `[writable]` mining
-///   2. `[]` reward_mint
-///   3. `[signer]` deposit_authority
-///   4. `[]` delegate_mining
+///   2. `[signer]` deposit_authority
+///   3. `[writable]` delegate_mining
 #[derive(Default)]
 pub struct ExtendStakeBuilder {
     reward_pool: Option<solana_program::pubkey::Pubkey>,
     mining: Option<solana_program::pubkey::Pubkey>,
-    reward_mint: Option<solana_program::pubkey::Pubkey>,
     deposit_authority: Option<solana_program::pubkey::Pubkey>,
     delegate_mining: Option<solana_program::pubkey::Pubkey>,
     old_lockup_period: Option<LockupPeriod>,
@@ -136,12 +128,6 @@ impl ExtendStakeBuilder {
         self.mining = Some(mining);
         self
     }
-    /// The address of the reward mint
-    #[inline(always)]
-    pub fn reward_mint(&mut self, reward_mint: solana_program::pubkey::Pubkey) -> &mut Self {
-        self.reward_mint = Some(reward_mint);
-        self
-    }
     /// The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs
     #[inline(always)]
     pub fn deposit_authority(
@@ -218,7 +204,6 @@ impl ExtendStakeBuilder {
         let accounts = ExtendStake {
             reward_pool: self.reward_pool.expect("reward_pool is not set"),
             mining: self.mining.expect("mining is not set"),
-            reward_mint: self.reward_mint.expect("reward_mint is not set"),
             deposit_authority: self
                 .deposit_authority
                 .expect("deposit_authority is not set"),
@@ -256,8 +241,6 @@ pub struct ExtendStakeCpiAccounts<'a, 'b> {
     pub reward_pool: &'b solana_program::account_info::AccountInfo<'a>,
     /// The address of the mining account which belongs to the user and stores info about user's rewards
     pub mining: &'b solana_program::account_info::AccountInfo<'a>,
-    /// The address of the reward mint
-    pub reward_mint: &'b solana_program::account_info::AccountInfo<'a>,
     /// The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs
     pub deposit_authority: &'b solana_program::account_info::AccountInfo<'a>,
     /// The address of Mining Account that might be used as a delegate in delegated staking model
@@ -272,8 +255,6 @@ pub struct ExtendStakeCpi<'a, 'b> {
     pub reward_pool: &'b solana_program::account_info::AccountInfo<'a>,
     /// The address of the mining account which belongs to the user and stores info about user's rewards
     pub mining: &'b solana_program::account_info::AccountInfo<'a>,
-    /// The address of the reward mint
-    pub reward_mint: &'b solana_program::account_info::AccountInfo<'a>,
     /// The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs
     pub deposit_authority: &'b solana_program::account_info::AccountInfo<'a>,
     /// The address of Mining Account that might be used as a delegate in delegated staking model
@@ -292,7 +273,6 @@ impl<'a, 'b> ExtendStakeCpi<'a, 'b> {
             __program: program,
             reward_pool: accounts.reward_pool,
             mining: accounts.mining,
-            reward_mint: accounts.reward_mint,
             deposit_authority: accounts.deposit_authority,
             delegate_mining: accounts.delegate_mining,
             __args: args,
@@ -331,7 +311,7 @@ impl<'a, 'b> ExtendStakeCpi<'a, 'b> {
             bool,
         )],
     ) -> solana_program::entrypoint::ProgramResult {
-        let mut accounts = Vec::with_capacity(5 + remaining_accounts.len());
+        let mut accounts = Vec::with_capacity(4 + remaining_accounts.len());
         accounts.push(solana_program::instruction::AccountMeta::new(
             *self.reward_pool.key,
             false,
@@ -340,15 +320,11 @@ impl<'a, 'b> ExtendStakeCpi<'a, 'b> {
             *self.mining.key,
             false,
         ));
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
-            *self.reward_mint.key,
-            false,
-        ));
         accounts.push(solana_program::instruction::AccountMeta::new_readonly(
             *self.deposit_authority.key,
             true,
         ));
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
+        accounts.push(solana_program::instruction::AccountMeta::new(
             *self.delegate_mining.key,
             false,
         ));
@@ -368,11 +344,10 @@ impl<'a, 'b> ExtendStakeCpi<'a, 'b> {
             accounts,
             data,
         };
-        let mut account_infos = Vec::with_capacity(5 + 1 + remaining_accounts.len());
+        let mut account_infos = Vec::with_capacity(4 + 1 + remaining_accounts.len());
         account_infos.push(self.__program.clone());
         account_infos.push(self.reward_pool.clone());
         account_infos.push(self.mining.clone());
-        account_infos.push(self.reward_mint.clone());
         account_infos.push(self.deposit_authority.clone());
         account_infos.push(self.delegate_mining.clone());
         remaining_accounts
@@ -393,9 +368,8 @@ impl<'a, 'b> ExtendStakeCpi<'a, 'b> {
 ///
 ///   0. `[writable]` reward_pool
 ///   1. `[writable]` mining
-///   2. `[]` reward_mint
-///   3. `[signer]` deposit_authority
-///   4. `[]` delegate_mining
+///   2. `[signer]` deposit_authority
+///   3. `[writable]` delegate_mining
 pub struct ExtendStakeCpiBuilder<'a, 'b> {
     instruction: Box<ExtendStakeCpiBuilderInstruction<'a, 'b>>,
 }
@@ -406,7 +380,6 @@ impl<'a, 'b> ExtendStakeCpiBuilder<'a, 'b> {
             __program: program,
             reward_pool: None,
             mining: None,
-            reward_mint: None,
             deposit_authority: None,
             delegate_mining: None,
             old_lockup_period: None,
@@ -438,15 +411,6 @@ impl<'a, 'b> ExtendStakeCpiBuilder<'a, 'b> {
         self.instruction.mining = Some(mining);
         self
     }
-    /// The address of the reward mint
-    #[inline(always)]
-    pub fn reward_mint(
-        &mut self,
-        reward_mint: &'b solana_program::account_info::AccountInfo<'a>,
-    ) -> &mut Self {
-        self.instruction.reward_mint = Some(reward_mint);
-        self
-    }
     /// The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs
     #[inline(always)]
     pub fn deposit_authority(
@@ -588,11 +552,6 @@ impl<'a, 'b> ExtendStakeCpiBuilder<'a, 'b> {
 
             mining: self.instruction.mining.expect("mining is not set"),
 
-            reward_mint: self
-                .instruction
-                .reward_mint
-                .expect("reward_mint is not set"),
-
             deposit_authority: self
                 .instruction
                 .deposit_authority
@@ -615,7 +574,6 @@ struct ExtendStakeCpiBuilderInstruction<'a, 'b> {
     __program: &'b solana_program::account_info::AccountInfo<'a>,
     reward_pool: Option<&'b solana_program::account_info::AccountInfo<'a>>,
     mining: Option<&'b solana_program::account_info::AccountInfo<'a>>,
-    reward_mint: Option<&'b solana_program::account_info::AccountInfo<'a>>,
     deposit_authority: Option<&'b solana_program::account_info::AccountInfo<'a>>,
     delegate_mining: Option<&'b solana_program::account_info::AccountInfo<'a>>,
     old_lockup_period: Option<LockupPeriod>,
diff --git a/clients/rust/src/generated/instructions/withdraw_mining.rs b/clients/rust/src/generated/instructions/withdraw_mining.rs
index bf23e9b..7c45b24 100644
--- a/clients/rust/src/generated/instructions/withdraw_mining.rs
+++ b/clients/rust/src/generated/instructions/withdraw_mining.rs
@@ -47,7 +47,7 @@ impl WithdrawMining {
             self.deposit_authority,
             true,
         ));
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
+        accounts.push(solana_program::instruction::AccountMeta::new(
             self.delegate_mining,
             false,
         ));
@@ -90,7 +90,7 @@ pub struct WithdrawMiningInstructionArgs {
 ///   0. `[writable]` reward_pool
 ///   1. `[writable]` mining
 ///   2. `[signer]` deposit_authority
-///   3. `[]` delegate_mining
+///   3. `[writable]` delegate_mining
 #[derive(Default)]
 pub struct WithdrawMiningBuilder {
     reward_pool: Option<solana_program::pubkey::Pubkey>,
@@ -279,7 +279,7 @@ impl<'a, 'b> WithdrawMiningCpi<'a, 'b> {
             *self.deposit_authority.key,
             true,
         ));
-        accounts.push(solana_program::instruction::AccountMeta::new_readonly(
+        accounts.push(solana_program::instruction::AccountMeta::new(
             *self.delegate_mining.key,
             false,
         ));
@@ -324,7 +324,7 @@ impl<'a, 'b> WithdrawMiningCpi<'a, 'b> {
 ///   0. `[writable]` reward_pool
 ///   1. `[writable]` mining
 ///   2. `[signer]` deposit_authority
-///   3. `[]` delegate_mining
+///   3. `[writable]` delegate_mining
 pub struct WithdrawMiningCpiBuilder<'a, 'b> {
     instruction: Box<WithdrawMiningCpiBuilderInstruction<'a, 'b>>,
 }
diff --git a/idls/mplx_rewards.json b/idls/mplx_rewards.json
index f1c7b38..f28d0ba 100644
--- a/idls/mplx_rewards.json
+++ b/idls/mplx_rewards.json
@@ -222,7 +222,7 @@
         },
         {
           "name": "delegateMining",
-          "isMut": false,
+          "isMut": true,
           "isSigner": false,
           "docs": [
             "The address of Mining Account that might be used as a delegate in delegated staking model"
@@ -283,7 +283,7 @@
         },
         {
           "name": "delegateMining",
-          "isMut": false,
+          "isMut": true,
           "isSigner": false,
           "docs": [
             "The address of Mining Account that might be used as a delegate in delegated staking model"
@@ -402,14 +402,6 @@
             "The address of the mining account which belongs to the user and stores info about user's rewards"
           ]
         },
-        {
-          "name": "rewardMint",
-          "isMut": false,
-          "isSigner": false,
-          "docs": [
-            "The address of the reward mint"
-          ]
-        },
         {
           "name": "depositAuthority",
           "isMut": false,
@@ -420,7 +412,7 @@
         },
         {
           "name": "delegateMining",
-          "isMut": false,
+          "isMut": true,
           "isSigner": false,
           "docs": [
             "The address of Mining Account that might be used as a delegate in delegated staking model"
@@ -497,7 +489,7 @@
       "accounts": [
         {
           "name": "mining",
-          "isMut": false,
+          "isMut": true,
           "isSigner": false,
           "docs": [
             "The address of the user's mining account"
diff --git a/programs/rewards/src/instruction.rs b/programs/rewards/src/instruction.rs
index 07c51f9..20726dc 100644
--- a/programs/rewards/src/instruction.rs
+++ b/programs/rewards/src/instruction.rs
@@ -57,7 +57,7 @@ pub enum RewardsInstruction {
     #[account(0, writable, name = "reward_pool", desc = "The address of the reward pool")]
     #[account(1, writable, name = "mining", desc = "The address of the mining account which belongs to the user and stores info about user's rewards")]
     #[account(2, signer, name = "deposit_authority", desc = "The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs")]
-    #[account(3, name = "delegate_mining", desc = "The address of Mining Account that might be used as a delegate in delegated staking model")]
+    #[account(3, writable, name = "delegate_mining", desc = "The address of Mining Account that might be used as a delegate in delegated staking model")]
     DepositMining {
         /// Amount to deposit
         amount: u64,
@@ -72,7 +72,7 @@ pub enum RewardsInstruction {
     #[account(0, writable, name = "reward_pool", desc = "The address of the reward pool")]
     #[account(1, writable, name = "mining", desc = "The address of the mining account which belongs to the user and stores info about user's rewards")]
     #[account(2, signer, name = "deposit_authority", desc = "The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs")]
-    #[account(3, name = "delegate_mining", desc = "The address of Mining Account that might be used as a delegate in delegated staking model")]
+    #[account(3, writable, name = "delegate_mining", desc = "The address of Mining Account that might be used as a delegate in delegated staking model")]
     WithdrawMining {
         /// Amount to withdraw
         amount: u64,
@@ -95,9 +95,8 @@ pub enum RewardsInstruction {
     /// Extends stake
     #[account(0, writable, name = "reward_pool", desc = "The address of the reward pool")]
     #[account(1, writable, name = "mining", desc = "The address of the mining account which belongs to the user and stores info about user's rewards")]
-    #[account(2, name = "reward_mint", desc = "The address of the reward mint")]
-    #[account(3, signer, name = "deposit_authority", desc = "The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs")]
-    #[account(4, name = "delegate_mining", desc = "The address of Mining Account that might be used as a delegate in delegated staking model")]
+    #[account(2, signer, name = "deposit_authority", desc = "The address of the Staking program's Registrar, which is PDA and is responsible for signing CPIs")]
+    #[account(3, writable, name = "delegate_mining", desc = "The address of Mining Account that might be used as a delegate in delegated staking model")]
     ExtendStake {
         /// Lockup period before restaking. Actually it's only needed
         /// for Flex to AnyPeriod edge case
@@ -125,7 +124,7 @@ pub enum RewardsInstruction {
     DistributeRewards,
 
     /// Closes mining account and transfers all lamports to the target account
-    #[account(0, name = "mining", desc = "The address of the user's mining account")]
+    #[account(0, writable, name = "mining", desc = "The address of the user's mining account")]
     #[account(1, signer, name = "mining_owner", desc = "The end user the mining accounts belongs to")]
     #[account(2, writable, name = "target_account", desc = "The address where lamports from account closing will be transferred")]
     #[account(3, signer, name = "deposit_authority")]
-- 
2.43.0


From c82a13f1c405ceadee8db7b136bd910eac621f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:31 +0000
Subject: [PATCH 12/14] fix: claim and close accept only an account at the
 mining's address

---
 programs/rewards/src/instructions/claim.rs        | 14 +++++++++++++-
 programs/rewards/src/instructions/close_mining.rs | 13 ++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/programs/rewards/src/instructions/claim.rs b/programs/rewards/src/instructions/claim.rs
index d409f5a..2007577 100644
--- a/programs/rewards/src/instructions/claim.rs
+++ b/programs/rewards/src/instructions/claim.rs
@@ -1,7 +1,8 @@
 use crate::{
     asserts::{assert_account_key, assert_account_owner},
+    error::MplxRewardsError,
     state::{WrappedMining, WrappedRewardPool},
-    utils::{spl_transfer, AccountLoader},
+    utils::{create_mining_address, spl_transfer, AccountLoader},
 };
 use borsh::BorshSerialize;
 use solana_program::{
@@ -45,6 +46,17 @@ pub fn process_claim<'a>(program_id: &Pubkey, accounts: &'a [AccountInfo<'a>]) -
             assert_account_owner(reward_pool, program_id)?;
             assert_account_key(mining_owner, &wrapped_mining.mining.owner)?;
             assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;
+            // other accounts of the program may hold bytes that look like such a mining
+            assert_account_key(
+                mining,
+                &create_mining_address(
+                    program_id,
+                    mining_owner.key,
+                    reward_pool.key,
+                    wrapped_mining.mining.bump,
+                )
+                .map_err(|_| MplxRewardsError::DerivationError)?,
+            )?;
 
             let vault_seeds = &[
                 b"vault".as_ref(),
diff --git a/programs/rewards/src/instructions/close_mining.rs b/programs/rewards/src/instructions/close_mining.rs
index 0e9af16..74b693a 100644
--- a/programs/rewards/src/instructions/close_mining.rs
+++ b/programs/rewards/src/instructions/close_mining.rs
@@ -2,7 +2,7 @@ use crate::{
     asserts::assert_account_key,
     error::MplxRewardsError,
     state::{WrappedMining, WrappedRewardPool},
-    utils::{AccountLoader, SafeArithmeticOperations},
+    utils::{create_mining_address, AccountLoader, SafeArithmeticOperations},
 };
 use solana_program::{
     account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey, system_program,
@@ -32,6 +32,17 @@ pub fn process_close_mining<'a>(
         let mut wrapped_mining = WrappedMining::from_bytes_mut(mining_data)?;
         assert_account_key(mining_owner, &wrapped_mining.mining.owner)?;
         assert_account_key(reward_pool, &wrapped_mining.mining.reward_pool)?;
+        // other accounts of the program may hold bytes that look like such a mining
+        assert_account_key(
+            mining,
+            &create_mining_address(
+                program_id,
+                mining_owner.key,
+                reward_pool.key,
+                wrapped_mining.mining.bump,
+            )
+            .map_err(|_| MplxRewardsError::DerivationError)?,
+        )?;
 
         wrapped_mining.refresh_rewards(wrapped_reward_pool.cumulative_index)?;
 
-- 
2.43.0


From 4a7276a803399dcb21430abb492bd4715bd71dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:42 +0000
Subject: [PATCH 13/14] fix: the Rust client's CPI builders mark further
 accounts as documented

The tuples are (account, is_writable, is_signer); the flags were exchanged.
---
 clients/rust/src/generated/instructions/change_delegate.rs    | 4 ++--
 clients/rust/src/generated/instructions/claim.rs              | 4 ++--
 clients/rust/src/generated/instructions/close_mining.rs       | 4 ++--
 clients/rust/src/generated/instructions/decrease_rewards.rs   | 4 ++--
 clients/rust/src/generated/instructions/deposit_mining.rs     | 4 ++--
 clients/rust/src/generated/instructions/distribute_rewards.rs | 4 ++--
 clients/rust/src/generated/instructions/extend_stake.rs       | 4 ++--
 clients/rust/src/generated/instructions/fill_vault.rs         | 4 ++--
 clients/rust/src/generated/instructions/initialize_mining.rs  | 4 ++--
 clients/rust/src/generated/instructions/initialize_pool.rs    | 4 ++--
 clients/rust/src/generated/instructions/slash.rs              | 4 ++--
 clients/rust/src/generated/instructions/withdraw_mining.rs    | 4 ++--
 12 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/clients/rust/src/generated/instructions/change_delegate.rs b/clients/rust/src/generated/instructions/change_delegate.rs
index 2d69232..2b61be5 100644
--- a/clients/rust/src/generated/instructions/change_delegate.rs
+++ b/clients/rust/src/generated/instructions/change_delegate.rs
@@ -336,8 +336,8 @@ impl<'a, 'b> ChangeDelegateCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = ChangeDelegateInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/claim.rs b/clients/rust/src/generated/instructions/claim.rs
index 653bd40..cb4117e 100644
--- a/clients/rust/src/generated/instructions/claim.rs
+++ b/clients/rust/src/generated/instructions/claim.rs
@@ -344,8 +344,8 @@ impl<'a, 'b> ClaimCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = ClaimInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/close_mining.rs b/clients/rust/src/generated/instructions/close_mining.rs
index cd10e96..2d6a204 100644
--- a/clients/rust/src/generated/instructions/close_mining.rs
+++ b/clients/rust/src/generated/instructions/close_mining.rs
@@ -264,8 +264,8 @@ impl<'a, 'b> CloseMiningCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = CloseMiningInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/decrease_rewards.rs b/clients/rust/src/generated/instructions/decrease_rewards.rs
index 222331c..3fda507 100644
--- a/clients/rust/src/generated/instructions/decrease_rewards.rs
+++ b/clients/rust/src/generated/instructions/decrease_rewards.rs
@@ -257,8 +257,8 @@ impl<'a, 'b> DecreaseRewardsCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = DecreaseRewardsInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/deposit_mining.rs b/clients/rust/src/generated/instructions/deposit_mining.rs
index 9765314..605125d 100644
--- a/clients/rust/src/generated/instructions/deposit_mining.rs
+++ b/clients/rust/src/generated/instructions/deposit_mining.rs
@@ -298,8 +298,8 @@ impl<'a, 'b> DepositMiningCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = DepositMiningInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/distribute_rewards.rs b/clients/rust/src/generated/instructions/distribute_rewards.rs
index 7ec2a1a..dd9f70e 100644
--- a/clients/rust/src/generated/instructions/distribute_rewards.rs
+++ b/clients/rust/src/generated/instructions/distribute_rewards.rs
@@ -195,8 +195,8 @@ impl<'a, 'b> DistributeRewardsCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let data = DistributeRewardsInstructionData::new()
diff --git a/clients/rust/src/generated/instructions/extend_stake.rs b/clients/rust/src/generated/instructions/extend_stake.rs
index a4819c4..452e7cf 100644
--- a/clients/rust/src/generated/instructions/extend_stake.rs
+++ b/clients/rust/src/generated/instructions/extend_stake.rs
@@ -331,8 +331,8 @@ impl<'a, 'b> ExtendStakeCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = ExtendStakeInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/fill_vault.rs b/clients/rust/src/generated/instructions/fill_vault.rs
index 314a8f4..4162c1b 100644
--- a/clients/rust/src/generated/instructions/fill_vault.rs
+++ b/clients/rust/src/generated/instructions/fill_vault.rs
@@ -327,8 +327,8 @@ impl<'a, 'b> FillVaultCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = FillVaultInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/initialize_mining.rs b/clients/rust/src/generated/instructions/initialize_mining.rs
index 0547d15..f1bd641 100644
--- a/clients/rust/src/generated/instructions/initialize_mining.rs
+++ b/clients/rust/src/generated/instructions/initialize_mining.rs
@@ -263,8 +263,8 @@ impl<'a, 'b> InitializeMiningCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = InitializeMiningInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/initialize_pool.rs b/clients/rust/src/generated/instructions/initialize_pool.rs
index c331256..0248b4a 100644
--- a/clients/rust/src/generated/instructions/initialize_pool.rs
+++ b/clients/rust/src/generated/instructions/initialize_pool.rs
@@ -382,8 +382,8 @@ impl<'a, 'b> InitializePoolCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = InitializePoolInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/slash.rs b/clients/rust/src/generated/instructions/slash.rs
index bf9c71b..b2cc490 100644
--- a/clients/rust/src/generated/instructions/slash.rs
+++ b/clients/rust/src/generated/instructions/slash.rs
@@ -277,8 +277,8 @@ impl<'a, 'b> SlashCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = SlashInstructionData::new().try_to_vec().unwrap();
diff --git a/clients/rust/src/generated/instructions/withdraw_mining.rs b/clients/rust/src/generated/instructions/withdraw_mining.rs
index 7c45b24..33aba87 100644
--- a/clients/rust/src/generated/instructions/withdraw_mining.rs
+++ b/clients/rust/src/generated/instructions/withdraw_mining.rs
@@ -286,8 +286,8 @@ impl<'a, 'b> WithdrawMiningCpi<'a, 'b> {
         remaining_accounts.iter().for_each(|remaining_account| {
             accounts.push(solana_program::instruction::AccountMeta {
                 pubkey: *remaining_account.0.key,
-                is_signer: remaining_account.1,
-                is_writable: remaining_account.2,
+                is_signer: remaining_account.2,
+                is_writable: remaining_account.1,
             })
         });
         let mut data = WithdrawMiningInstructionData::new().try_to_vec().unwrap();
-- 
2.43.0


From 43eb53114120c7ee01ef6fdbcfa3be128aa7c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 14/14] fix: a deposit with no lockup period is refused as such

---
 programs/rewards/src/state/reward_pool.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/rewards/src/state/reward_pool.rs b/programs/rewards/src/state/reward_pool.rs
index 15e9ab8..0a25f2b 100644
--- a/programs/rewards/src/state/reward_pool.rs
+++ b/programs/rewards/src/state/reward_pool.rs
@@ -213,6 +213,9 @@ impl<'a> WrappedRewardPool<'a> {
         self.pool.total_share =
             self.consume_old_modifiers(beginning_of_the_day, self.pool.total_share)?;
 
+        // refuses a lockup period that is none
+        let stake_expiration_date = lockup_period.end_timestamp(curr_ts)?;
+
         // regular weighted stake which will be used in rewards distribution
         let weighted_stake = amount.safe_mul(lockup_period.multiplier())?;
 
@@ -224,8 +227,6 @@ impl<'a> WrappedRewardPool<'a> {
         self.pool.total_share = self.pool.total_share.safe_add(weighted_stake)?;
         mining.mining.share = mining.mining.share.safe_add(weighted_stake)?;
 
-        let stake_expiration_date = lockup_period.end_timestamp(curr_ts)?;
-
         let modifier = if let Some(modifier) = self.weighted_stake_diffs.get(&stake_expiration_date)
         {
             *modifier
-- 
2.43.0


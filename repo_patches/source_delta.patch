From c67ae8567fb96fbddec06ae29b1cd3518146f7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 01/39] fix: encode compact sizes 0xffff and 0xffffffff in
 their shortest form

---
 crates/bitcoin/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/bitcoin/src/formatter.rs b/crates/bitcoin/src/formatter.rs
index e7ad33b..3b34cf9 100644
--- a/crates/bitcoin/src/formatter.rs
+++ b/crates/bitcoin/src/formatter.rs
@@ -103,10 +103,10 @@ impl TryFormat for CompactUint {
     fn try_format<W: Writer>(&self, w: &mut W) -> Result<(), Error> {
         if self.value < 0xfd {
             (self.value as u8).try_format(w)?;
-        } else if self.value < u16::MAX as u64 {
+        } else if self.value <= u16::MAX as u64 {
             0xfd_u8.try_format(w)?;
             (self.value as u16).try_format(w)?;
-        } else if self.value < u32::MAX as u64 {
+        } else if self.value <= u32::MAX as u64 {
             0xfe_u8.try_format(w)?;
             (self.value as u32).try_format(w)?;
         } else {
-- 
2.43.0


From c500f189e99d50adddb7d231fb77ef4d8aee7e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 02/39] fix: count compact sizes of 65535 as three bytes in
 size estimates

---
 crates/bitcoin/src/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/bitcoin/src/utils.rs b/crates/bitcoin/src/utils.rs
index 5d1ab42..d135c5d 100644
--- a/crates/bitcoin/src/utils.rs
+++ b/crates/bitcoin/src/utils.rs
@@ -142,12 +142,10 @@ const fn script_length_size(length: u32) -> u32 {
 const fn var_int_size(length: u32) -> u32 {
     if length < 253 {
         1
-    } else if length < 65535 {
+    } else if length <= 65535 {
         3
-    } else if length < 4294967295 {
-        5
     } else {
-        9
+        5
     }
 }
 
-- 
2.43.0


From a6263550567000334c37338412e7dab725f997e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 03/39] fix: reject instead of panicking on coinbase height
 pushes longer than four bytes

---
 crates/bitcoin/src/parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index e684e66..46ac73a 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -358,13 +358,17 @@ fn parse_transaction_input(raw_input: &[u8], version: i32) -> Result<(Transactio
         } else {
             // version 2 transactions include a height as the first 4 bytes, see
             // https://github.com/bitcoin/bips/blob/master/bip-0034.mediawiki
-            let height_size: u64 = parser.parse::<CompactUint>()?.value;
-            script_size = script_size.checked_sub(height_size + 1).ok_or(Error::EndOfFile)?;
+            let height_size: u8 = parser.parse()?;
+            script_size = script_size
+                .checked_sub(u64::from(height_size) + 1)
+                .ok_or(Error::EndOfFile)?;
 
             let mut buffer = [0u8; 4];
             let bytes = parser.read(height_size as usize)?;
-            buffer[..(height_size as usize)]
-                .copy_from_slice(bytes.get(0..(height_size as usize)).ok_or(Error::EndOfFile)?);
+            buffer
+                .get_mut(..(height_size as usize))
+                .ok_or(Error::MalformedTransaction)?
+                .copy_from_slice(&bytes);
             Some(u32::from_le_bytes(buffer))
         };
 
-- 
2.43.0


From 816ed34d8114605ae0f8dfe87474d3c5c5357562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 04/39] fix: do not overflow the parser position on huge
 declared lengths

---
 crates/bitcoin/src/parser.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index 46ac73a..3881b75 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -248,15 +248,13 @@ impl BytesParser {
     /// Reads `bytes_count` from the bytes parser and moves the head
     /// Fails if there are not enough bytes to read
     pub(crate) fn read(&mut self, bytes_count: usize) -> Result<Vec<u8>, Error> {
-        let bytes = self
-            .raw_bytes
-            .get(self.position..self.position + bytes_count)
-            .ok_or(Error::EndOfFile)?;
-        self.position = self
+        let end = self
             .position
             .checked_add(bytes_count)
             .ok_or(Error::ArithmeticOverflow)?;
-        Ok(Vec::from(bytes))
+        let bytes = Vec::from(self.raw_bytes.get(self.position..end).ok_or(Error::EndOfFile)?);
+        self.position = end;
+        Ok(bytes)
     }
 }
 
-- 
2.43.0


From 39188348cf3d807c9671b5fad22a13d6c5a7fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 05/39] fix: only parse the extended transaction format when
 the witness flag is set

---
 crates/bitcoin/src/parser.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/bitcoin/src/parser.rs b/crates/bitcoin/src/parser.rs
index 3881b75..d035e3a 100644
--- a/crates/bitcoin/src/parser.rs
+++ b/crates/bitcoin/src/parser.rs
@@ -127,13 +127,20 @@ impl Parsable for Transaction {
         let mut inputs: Vec<TransactionInput> = parser.parse_with(version)?;
 
         let mut flags: u8 = 0;
-        if inputs.is_empty() && allow_witness {
-            flags = parser.parse()?;
-            inputs = parser.parse_with(version)?;
-        }
-
         // TODO: bound maximum?
-        let outputs: Vec<TransactionOutput> = parser.parse()?;
+        let outputs: Vec<TransactionOutput> = if inputs.is_empty() && allow_witness {
+            flags = parser.parse()?;
+            if flags != 0 {
+                inputs = parser.parse_with(version)?;
+                parser.parse()?
+            } else {
+                // the zero flag was the (empty) list of outputs, see
+                // https://github.com/bitcoin/bitcoin/blob/be4171679b8eab8205e04ff86140329bd67878a0/src/primitives/transaction.h#L194-L202
+                vec![]
+            }
+        } else {
+            parser.parse()?
+        };
 
         if (flags & 1) != 0 && allow_witness {
             flags ^= 1;
-- 
2.43.0


From a97367b73b28fb94a444864ea10b23f5356bd6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 06/39] fix: reject merkle proofs with identical left and right
 branches

---
 crates/bitcoin/src/merkle.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/bitcoin/src/merkle.rs b/crates/bitcoin/src/merkle.rs
index 39a03f5..5fd156c 100644
--- a/crates/bitcoin/src/merkle.rs
+++ b/crates/bitcoin/src/merkle.rs
@@ -228,7 +228,13 @@ impl MerkleProof {
 
         let left = self.traverse_and_extract(next_height, left_index, traversal)?;
         let right = if right_index < self.compute_partial_tree_width(next_height) {
-            self.traverse_and_extract(next_height, right_index, traversal)?
+            let right = self.traverse_and_extract(next_height, right_index, traversal)?;
+            if right == left {
+                // the left and right branches should never be identical, as the transaction
+                // hashes covered by them must each be unique
+                return Err(Error::MalformedMerkleProof);
+            }
+            right
         } else {
             left
         };
-- 
2.43.0


From 68db4f8d40a473e3b78a8537b2a6fcf980bf85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:41 +0000
Subject: [PATCH 07/39] fix: apply slashes of the staking pool a nominator
 withdraws from

withdraw_stake and withdraw_reward_at_index accept the index of an earlier pool, but
settled the slashes of the current pool, so that nominators could not withdraw what a
force refund left in the earlier pool.
---
 crates/staking/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/staking/src/lib.rs b/crates/staking/src/lib.rs
index 61a7583..527bc88 100644
--- a/crates/staking/src/lib.rs
+++ b/crates/staking/src/lib.rs
@@ -378,7 +378,7 @@ impl<T: Config> Pallet<T> {
         amount: SignedFixedPoint<T>,
     ) -> DispatchResult {
         let nonce = Self::nonce(vault_id);
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         checked_add_mut!(Stake<T>, nonce, (vault_id, nominator_id), &amount);
         checked_add_mut!(TotalStake<T>, nonce, vault_id, &amount);
@@ -601,10 +601,10 @@ impl<T: Config> Pallet<T> {
     }
 
     fn apply_slash(
+        nonce: T::Nonce,
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<SignedFixedPoint<T>, DispatchError> {
-        let nonce = Self::nonce(vault_id);
         let stake = Self::stake_at_index(nonce, vault_id, nominator_id);
         let slash_per_token = Self::slash_per_token_at_index(nonce, vault_id);
         let slash_tally = Self::slash_tally_at_index(nonce, vault_id, nominator_id);
@@ -630,7 +630,7 @@ impl<T: Config> Pallet<T> {
         index: Option<T::Nonce>,
     ) -> DispatchResult {
         let nonce = index.unwrap_or(Self::nonce(vault_id));
-        let stake = Self::apply_slash(vault_id, nominator_id)?;
+        let stake = Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         if amount.is_zero() {
             return Ok(());
@@ -696,7 +696,7 @@ impl<T: Config> Pallet<T> {
         vault_id: &DefaultVaultId<T>,
         nominator_id: &T::AccountId,
     ) -> Result<<SignedFixedPoint<T> as FixedPointNumber>::Inner, DispatchError> {
-        Self::apply_slash(vault_id, nominator_id)?;
+        Self::apply_slash(nonce, vault_id, nominator_id)?;
 
         let reward = Self::compute_reward_at_index(nonce, currency_id, vault_id, nominator_id)?;
         let reward_as_fixed = SignedFixedPoint::<T>::checked_from_integer(reward).ok_or(Error::<T>::TryIntoIntError)?;
-- 
2.43.0


From b243bd3008270e3e28abee3cb9aec0f9a636cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 08/39] fix: do not subtract refunded nominations from the
 total collateral twice

---
 crates/nomination/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/nomination/src/lib.rs b/crates/nomination/src/lib.rs
index 843afb2..18abda4 100644
--- a/crates/nomination/src/lib.rs
+++ b/crates/nomination/src/lib.rs
@@ -254,7 +254,10 @@ impl<T: Config> Pallet<T> {
         amount.unlock_on(&vault_id.account_id)?;
         amount.transfer(&vault_id.account_id, &nominator_id)?;
 
-        ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        // stake in stale staking pools was already subtracted from the total when it was refunded
+        if index == nonce {
+            ext::vault_registry::decrease_total_backing_collateral(&vault_id.currencies, &amount)?;
+        }
 
         Self::deposit_event(Event::<T>::WithdrawCollateral {
             vault_id: vault_id.clone(),
-- 
2.43.0


From e47de31d237c3697b6bf0a0a65460d7c707a83f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 09/39] fix: report zero issuable tokens in the wrapped
 currency

---
 crates/vault-registry/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index c89e03a..46580c3 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1778,7 +1778,7 @@ impl<T: Config> Pallet<T> {
         // make sure the vault accepts new issue requests.
         // NOTE: get_vaults_with_issuable_tokens depends on this check
         if vault.data.status != VaultStatus::Active(true) {
-            Ok(Amount::new(0u32.into(), vault_id.currencies.collateral))
+            Ok(Amount::new(0u32.into(), vault_id.wrapped_currency()))
         } else {
             vault.issuable_tokens()
         }
-- 
2.43.0


From c90b045fe65fff3fa7031f63fd1511af6bcec6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 10/39] fix: let recovered vaults earn rewards with their
 collateral again

---
 crates/vault-registry/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 46580c3..e16f025 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -387,6 +387,8 @@ pub mod pallet {
             // Vault accepts new issues by default
             vault.set_accept_new_issues(true)?;
 
+            PoolManager::<T>::on_vault_settings_change(&vault_id)?;
+
             Ok(())
         }
     }
-- 
2.43.0


From e8d6f26f2054668087b80fe47f47ebe6a95944f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 11/39] fix: do not pay out the liquidation vault for burning
 zero tokens

---
 crates/vault-registry/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index e16f025..5346f1f 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1329,12 +1329,16 @@ impl<T: Config> Pallet<T> {
 
         let source_liquidation_vault = CurrencySource::<T>::LiquidationVault(currency_pair.clone());
 
-        // transfer liquidated collateral to redeemer
-        let to_transfer = Self::calculate_collateral(
-            &source_liquidation_vault.current_balance(currency_id)?,
-            amount_wrapped,
-            &liquidation_vault.to_be_backed_tokens()?,
-        )?;
+        // transfer liquidated collateral to redeemer; burning nothing pays nothing, even if no tokens are left to back
+        let to_transfer = if amount_wrapped.is_zero() {
+            Amount::zero(currency_id)
+        } else {
+            Self::calculate_collateral(
+                &source_liquidation_vault.current_balance(currency_id)?,
+                amount_wrapped,
+                &liquidation_vault.to_be_backed_tokens()?,
+            )?
+        };
 
         Self::transfer_funds(
             source_liquidation_vault,
-- 
2.43.0


From 503aa05c2c0a80ab6bd0fd6602e0b889687434a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 12/39] fix: remove the capacity of liquidated vaults from the
 capacity pool

---
 crates/vault-registry/src/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/vault-registry/src/types.rs b/crates/vault-registry/src/types.rs
index cb57a18..e2b525b 100644
--- a/crates/vault-registry/src/types.rs
+++ b/crates/vault-registry/src/types.rs
@@ -624,9 +624,6 @@ impl<T: Config> RichVault<T> {
         liquidation_vault.increase_to_be_redeemed(&self.to_be_redeemed_tokens())?;
         // todo: clear replace collateral?
 
-        // withdraw stake from the reward pool
-        ext::reward::set_stake::<T>(&vault_id, &Amount::zero(vault_id.wrapped_currency()))?;
-
         // Update vault: clear to_be_issued & issued_tokens, but don't touch to_be_redeemed
         let _ = self.update(|v| {
             v.to_be_issued_tokens = Zero::zero();
@@ -635,6 +632,9 @@ impl<T: Config> RichVault<T> {
             Ok(())
         });
 
+        // withdraw stake from the reward and capacity pools
+        PoolManager::<T>::on_vault_settings_change(&vault_id)?;
+
         Ok(liquidated_collateral_excluding_to_be_redeemed)
     }
 
-- 
2.43.0


From 0294ec8f87b5aef71feba994caf8d081618b8987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 13/39] fix: let a lowered collateral ceiling not block
 liquidations and cancellations

---
 crates/vault-registry/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index 5346f1f..afb08a1 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -979,11 +979,13 @@ impl<T: Config> Pallet<T> {
                 amount.lock_on(&to.account_id())?;
             }
             CurrencySource::LiquidatedCollateral(VaultId { ref currencies, .. }) => {
-                Self::try_increase_total_backing_collateral(currencies, amount)?;
+                // not a new deposit, so not subject to the ceiling
+                Self::increase_total_backing_collateral(currencies, amount)?;
                 amount.lock_on(&to.account_id())?;
             }
             CurrencySource::LiquidationVault(ref currencies) => {
-                Self::try_increase_total_backing_collateral(currencies, amount)?;
+                // not a new deposit, so not subject to the ceiling
+                Self::increase_total_backing_collateral(currencies, amount)?;
                 let mut liquidation_vault = Self::get_rich_liquidation_vault(currencies);
                 liquidation_vault.increase_collateral(amount)?;
                 amount.lock_on(&to.account_id())?;
@@ -1511,6 +1513,15 @@ impl<T: Config> Pallet<T> {
         let limit = Self::get_collateral_ceiling(currency_pair)?;
         ensure!(new.le(&limit)?, Error::<T>::CurrencyCeilingExceeded);
 
+        Self::increase_total_backing_collateral(currency_pair, amount)
+    }
+
+    fn increase_total_backing_collateral(
+        currency_pair: &DefaultVaultCurrencyPair<T>,
+        amount: &Amount<T>,
+    ) -> DispatchResult {
+        let new = Self::get_total_user_vault_collateral(currency_pair)?.checked_add(&amount)?;
+
         TotalUserVaultCollateral::<T>::insert(currency_pair, new.amount());
 
         Self::deposit_event(Event::<T>::IncreaseLockedCollateral {
-- 
2.43.0


From cd754150c986bd643782af7707b13fb5f350719d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 14/39] fix: let expired replaces be cancelled when the new
 vault cannot spare the collateral

---
 crates/replace/src/ext.rs | 4 ++++
 crates/replace/src/lib.rs | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/replace/src/ext.rs b/crates/replace/src/ext.rs
index 62457cf..75b517c 100644
--- a/crates/replace/src/ext.rs
+++ b/crates/replace/src/ext.rs
@@ -132,6 +132,10 @@ pub(crate) mod vault_registry {
         <vault_registry::Pallet<T>>::force_withdraw_collateral(vault_id, amount)
     }
 
+    pub fn compute_collateral<T: crate::Config>(vault_id: &DefaultVaultId<T>) -> Result<Amount<T>, DispatchError> {
+        <vault_registry::Pallet<T>>::compute_collateral(vault_id)
+    }
+
     pub fn is_allowed_to_withdraw_collateral<T: crate::Config>(
         vault_id: &DefaultVaultId<T>,
         amount: Option<Amount<T>>,
diff --git a/crates/replace/src/lib.rs b/crates/replace/src/lib.rs
index d3a1c90..9a54c11 100644
--- a/crates/replace/src/lib.rs
+++ b/crates/replace/src/lib.rs
@@ -587,9 +587,12 @@ impl<T: Config> Pallet<T> {
         )?;
 
         // if the new_vault locked additional collateral especially for this replace,
-        // release it if it does not cause them to be undercollateralized
+        // release it if it does not cause them to be undercollateralized, if the remainder is not below the
+        // minimum (`is_allowed_to_withdraw_collateral` fails in that case) and if it was not withdrawn already
         if !ext::vault_registry::is_vault_liquidated::<T>(&new_vault_id)?
-            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))?
+            && ext::vault_registry::compute_collateral::<T>(&new_vault_id)?.ge(&collateral)?
+            && ext::vault_registry::is_allowed_to_withdraw_collateral::<T>(&new_vault_id, Some(collateral.clone()))
+                .unwrap_or(false)
         {
             ext::vault_registry::force_withdraw_collateral::<T>(&new_vault_id, &collateral)?;
         }
-- 
2.43.0


From 8f97f95a1c7d8ca5d0cbaafccf3e7a6e6ae76664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 15/39] fix: shrink the replace offer when a cancelled replace
 is executed after all

---
 crates/vault-registry/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/vault-registry/src/lib.rs b/crates/vault-registry/src/lib.rs
index afb08a1..7822e1c 100644
--- a/crates/vault-registry/src/lib.rs
+++ b/crates/vault-registry/src/lib.rs
@@ -1398,6 +1398,19 @@ impl<T: Config> Pallet<T> {
         old_vault.execute_redeem_tokens(tokens)?;
         new_vault.execute_issue_tokens(tokens)?;
 
+        // a replace that is executed after it was cancelled may use up tokens that have been offered to other
+        // vaults in the meantime
+        let old_vault = Self::get_rich_vault_from_id(&old_vault_id)?;
+        if !old_vault.data.is_liquidated() {
+            let available = old_vault
+                .issued_tokens()
+                .checked_sub(&old_vault.to_be_redeemed_tokens())?;
+            let excess = old_vault.to_be_replaced_tokens().saturating_sub(&available)?;
+            if !excess.is_zero() {
+                Self::withdraw_replace_request(old_vault_id, &excess)?;
+            }
+        }
+
         Self::deposit_event(Event::<T>::ReplaceTokens {
             old_vault_id: old_vault_id.clone(),
             new_vault_id: new_vault_id.clone(),
-- 
2.43.0


From ea59d05f5232abd25c053a83cb1f03c094195621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 16/39] fix: keep comparing the extended fork when sorting it
 past other forks

---
 crates/btc-relay/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index c2937d2..631aea2 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -1156,7 +1156,7 @@ impl<T: Config> Pallet<T> {
         let fork_position: u32 = Self::get_chain_position_from_chain_id(fork.chain_id)?;
         // check if the previous element in Chains has a lower block_height
         let mut current_position = fork_position;
-        let mut current_height = fork.max_height;
+        let current_height = fork.max_height;
 
         // swap elements as long as previous block height is smaller
         while current_position > 0 {
@@ -1207,9 +1207,8 @@ impl<T: Config> Pallet<T> {
                     Self::swap_chain(prev_position, current_position);
                 }
 
-                // update the current chain to the previous one
+                // the fork is now at the previous position
                 current_position = prev_position;
-                current_height = prev_height;
             } else {
                 break;
             }
-- 
2.43.0


From 5e9b683528e72cb66c4a16221f64c36fb3b000a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 17/39] fix: find the start of a retarget period in the parent
 chains of a fork

---
 crates/btc-relay/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/btc-relay/src/lib.rs b/crates/btc-relay/src/lib.rs
index 631aea2..7a2dcec 100644
--- a/crates/btc-relay/src/lib.rs
+++ b/crates/btc-relay/src/lib.rs
@@ -994,8 +994,14 @@ impl<T: Config> Pallet<T> {
     /// * `chain_id` - BlockChain identifier
     /// * `block_height` - current block height
     fn get_last_retarget_time(chain_id: u32, block_height: u32) -> Result<u64, DispatchError> {
-        let block_chain = Self::get_block_chain_from_id(chain_id)?;
+        let mut block_chain = Self::get_block_chain_from_id(chain_id)?;
         let period_start_height = block_height - DIFFICULTY_ADJUSTMENT_INTERVAL;
+        // the retarget period may have started before the fork, i.e. in one of its parent chains
+        while block_chain.start_height > period_start_height {
+            let first_header = Self::get_block_header_from_height(&block_chain, block_chain.start_height)?;
+            let parent_header = Self::get_block_header_from_hash(first_header.block_header.hash_prev_block)?;
+            block_chain = Self::get_block_chain_from_id(parent_header.chain_id)?;
+        }
         let last_retarget_header = Self::get_block_header_from_height(&block_chain, period_start_height)?;
         Ok(last_retarget_header.block_header.timestamp as u64)
     }
-- 
2.43.0


From 8718c16fc1e7aedb3be520ebd4889caa253d17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:48 +0000
Subject: [PATCH 18/39] fix: compute the median of large oracle values without
 overflow

With an even number of oracles the two middle values were added before being
halved. Values whose sum overflows made the median None, so the aggregate was
never updated again until one of them expired.
---
 crates/oracle/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/oracle/src/lib.rs b/crates/oracle/src/lib.rs
index 3af135e..5449196 100644
--- a/crates/oracle/src/lib.rs
+++ b/crates/oracle/src/lib.rs
@@ -352,10 +352,11 @@ impl<T: Config> Pallet<T> {
                 // even number - get avg of 2 values
                 let value_1 = raw_values.get(mid_index.checked_sub(1)?)?;
                 let value_2 = raw_values.get(mid_index)?;
-                let value = value_1
-                    .checked_add(&value_2)?
+                // values are sorted; add half of the difference, since the sum may overflow
+                let half_difference = value_2
+                    .checked_sub(&value_1)?
                     .checked_div(&UnsignedFixedPoint::<T>::from(2u32.into()))?;
-                Some(value)
+                value_1.checked_add(&half_difference)
             }
             _ => Some(*raw_values.get(mid_index)?),
         }
-- 
2.43.0


From 5c5a23a21c01d45a8b6ff15d42bf135dc84ba5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:19 +0000
Subject: [PATCH 19/39] fix: let the total voting power decay with the locks it
 consists of

The slope changes of the Curve contract are signed: the slope falls by the slope
of the locks ending at a height. With unsigned balances and saturating
arithmetic the scheduled change stayed zero when a lock was created, and turned
positive when a lock was extended, so the total neither stopped decaying when a
lock ended nor matched the sum of the accounts' voting power. Store the change
as the (positive) amount by which the slope falls.

SlopeChanges and PointHistory of a chain that ran the previous code need to be
rebuilt from the existing locks by a migration.
---
 crates/escrow/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/escrow/src/lib.rs b/crates/escrow/src/lib.rs
index 31cbf2b..850dfc3 100644
--- a/crates/escrow/src/lib.rs
+++ b/crates/escrow/src/lib.rs
@@ -442,7 +442,7 @@ impl<T: Config> Pallet<T> {
             };
             let height_diff = T::BlockNumberToBalance::convert(t_i.saturating_sub(last_checkpoint));
             last_point.bias.saturating_reduce(last_point.slope * height_diff);
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_checkpoint = t_i;
             last_point.ts = t_i;
             epoch.saturating_inc();
@@ -462,18 +462,19 @@ impl<T: Config> Pallet<T> {
         last_point.bias.saturating_accrue(u_new.bias.saturating_sub(u_old.bias));
         <PointHistory<T>>::insert(epoch, last_point);
 
-        // schedule the slope change
+        // schedule the slope change, stored as the amount by which the slope
+        // falls when the locks ending at that height have run out
         if old_locked.end > now {
-            old_dslope.saturating_accrue(u_old.slope);
+            old_dslope.saturating_reduce(u_old.slope);
             if new_locked.end == old_locked.end {
                 // new deposit
-                old_dslope = old_dslope.saturating_sub(u_new.slope);
+                old_dslope.saturating_accrue(u_new.slope);
             }
             <SlopeChanges<T>>::insert(old_locked.end, old_dslope);
         }
 
         if new_locked.end > now && new_locked.end > old_locked.end {
-            new_dslope = new_dslope.saturating_sub(u_new.slope);
+            new_dslope.saturating_accrue(u_new.slope);
             <SlopeChanges<T>>::insert(new_locked.end, new_dslope);
         }
 
@@ -606,7 +607,7 @@ impl<T: Config> Pallet<T> {
                 break;
             }
 
-            last_point.slope.saturating_accrue(d_slope);
+            last_point.slope.saturating_reduce(d_slope);
             last_point.ts = t_i;
         }
 
-- 
2.43.0


From b0711d59696229dc3f02c65b692ecc82fb9a6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 20/39] fix: keep distributed farming rewards out of
 rescheduled and refunded rewards

Rewards which were distributed but not yet claimed stay in the pool account.
update_reward_schedule counted them again when it recomputed the rewards per
period, and remove_reward_schedule refunded them to the treasury, after which
claims failed. Only use what is left of the schedule; since leftovers are no
longer picked up later, refuse rewards without a period to distribute them in.
---
 crates/farming/src/lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/farming/src/lib.rs b/crates/farming/src/lib.rs
index 17afa32..2adab50 100644
--- a/crates/farming/src/lib.rs
+++ b/crates/farming/src/lib.rs
@@ -43,7 +43,7 @@ use primitives::CurrencyId;
 use reward::RewardsApi;
 use scale_info::TypeInfo;
 use sp_runtime::{
-    traits::{AccountIdConversion, AtLeast32Bit, CheckedDiv, Saturating, Zero},
+    traits::{AccountIdConversion, AtLeast32Bit, CheckedAdd, CheckedDiv, Saturating, Zero},
     ArithmeticError, DispatchError,
 };
 use sp_std::vec::Vec;
@@ -232,8 +232,15 @@ pub mod pallet {
                     .period_count
                     .checked_add(period_count)
                     .ok_or(ArithmeticError::Overflow)?;
-                let total_free = T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id);
-                let total_per_period = total_free.checked_div(&total_period_count.into()).unwrap_or_default();
+                // the pool account also holds rewards which were distributed but not yet
+                // claimed, so only count what is left of the existing schedule
+                let total_rewards = reward_schedule
+                    .total()
+                    .and_then(|remaining| remaining.checked_add(&amount))
+                    .ok_or(ArithmeticError::Overflow)?;
+                let total_per_period = total_rewards
+                    .checked_div(&total_period_count.into())
+                    .ok_or(ArithmeticError::DivisionByZero)?;
 
                 reward_schedule.period_count = total_period_count;
                 reward_schedule.per_period = total_per_period;
@@ -248,8 +255,8 @@ pub mod pallet {
             })
         }
 
-        /// Explicitly remove a reward schedule and transfer any remaining
-        /// balance to the treasury
+        /// Explicitly remove a reward schedule and transfer its remaining
+        /// rewards to the treasury
         #[pallet::call_index(1)]
         #[pallet::weight(T::WeightInfo::remove_reward_schedule())]
         #[transactional]
@@ -268,7 +275,7 @@ pub mod pallet {
                 reward_currency_id,
                 &pool_account_id,
                 &treasury_account_id,
-                T::MultiCurrency::free_balance(reward_currency_id, &pool_account_id),
+                Self::total_rewards(&pool_currency_id, &reward_currency_id),
             )?;
 
             RewardSchedules::<T>::remove(pool_currency_id, reward_currency_id);
-- 
2.43.0


From cc2f9fac61223305bbfdfda69780a7661cbeb9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 21/39] fix: btc_swap: remove an order when it is executed, so
 that it is paid only once

---
 contracts/btc_swap/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/btc_swap/lib.rs b/contracts/btc_swap/lib.rs
index a97ea4f..ed81d46 100755
--- a/contracts/btc_swap/lib.rs
+++ b/contracts/btc_swap/lib.rs
@@ -115,7 +115,8 @@ mod btc_swap {
         #[ink(message)]
         pub fn execute_trade(&mut self, counterparty: AccountId, full_proof: FullTransactionProof) {
             let caller = self.env().caller();
-            let order = self.orders.get(&counterparty).unwrap();
+            // remove the order, so that it can be executed only once (a later failure reverts the removal)
+            let order = self.orders.take(&counterparty).unwrap();
 
             let transferred_sats = self
                 .env()
-- 
2.43.0


From e1d7201802fde2d5ebb4c3874bf8a1da15fab188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:33 +0000
Subject: [PATCH 22/39] fix: check the invariant of every hop when a
 dex-general swap executes

The amounts of a swap are quoted from the reserves before the swap. A path
which visits a pair again in the same direction executes the later hop at the
stale price, which decreases the product of the pair's reserves.
---
 crates/dex-general/src/swap/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index ddddf6c..429c9a6 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -558,6 +558,23 @@ impl<T: Config> Pallet<T> {
 
             let pair_account = Self::pair_account_id(asset_0, asset_1);
 
+            // the amounts were quoted before the swap, but an earlier hop
+            // may have gone through the same pair: check K again
+            let reserve_in = T::MultiCurrency::free_balance(input, &pair_account);
+            let reserve_out = T::MultiCurrency::free_balance(output, &pair_account);
+            let invariant_before_swap = reserve_in
+                .checked_sub(amounts[i])
+                .and_then(|n| U256::from(n).checked_mul(U256::from(reserve_out)))
+                .ok_or(Error::<T>::Overflow)?;
+            let invariant_after_swap = reserve_out
+                .checked_sub(amounts[i + 1])
+                .and_then(|n| U256::from(n).checked_mul(U256::from(reserve_in)))
+                .ok_or(Error::<T>::InsufficientPairReserve)?;
+            ensure!(
+                invariant_after_swap >= invariant_before_swap,
+                Error::<T>::InvariantCheckFailed,
+            );
+
             if i < (amounts.len() - 2) {
                 let mid_account = Self::pair_account_id(output, path[i + 2]);
                 Self::pair_swap(asset_0, asset_1, &pair_account, amount0_out, amount1_out, &mid_account)?;
-- 
2.43.0


From 3e75b8f6a87a8bf650959383f015e1d2fdb2af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:49 +0000
Subject: [PATCH 23/39] fix: pay liquidity removed from dex-general after the
 protocol fee is minted

The amounts were computed from the supply before the fee was minted, so whoever
removes liquidity escaped the dilution at the expense of the others, and
removing all of it left the fee receiver's LP tokens with empty reserves, after
which the pair accepts no liquidity again. Uniswap V2 computes them after.
---
 crates/dex-general/src/swap/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/crates/dex-general/src/swap/mod.rs b/crates/dex-general/src/swap/mod.rs
index 429c9a6..d3d5157 100644
--- a/crates/dex-general/src/swap/mod.rs
+++ b/crates/dex-general/src/swap/mod.rs
@@ -157,14 +157,6 @@ impl<T: Config> Pallet<T> {
                 let reserve_0 = T::MultiCurrency::free_balance(asset_0, &parameter.pair_account);
                 let reserve_1 = T::MultiCurrency::free_balance(asset_1, &parameter.pair_account);
 
-                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
-                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
-
-                ensure!(
-                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
-                    Error::<T>::InsufficientTargetAmount
-                );
-
                 let lp_asset_id = Self::lp_pairs(pair).ok_or(Error::<T>::InsufficientAssetBalance)?;
 
                 let mint_fee = Self::mint_protocol_fee(reserve_0, reserve_1, asset_0, asset_1, parameter.total_supply)?;
@@ -178,6 +170,15 @@ impl<T: Config> Pallet<T> {
                     }
                 }
 
+                // the share is relative to the supply including the protocol fee
+                let amount_0 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_0);
+                let amount_1 = Self::calculate_share_amount(remove_liquidity, parameter.total_supply, reserve_1);
+
+                ensure!(
+                    amount_0 >= amount_0_min && amount_1 >= amount_1_min,
+                    Error::<T>::InsufficientTargetAmount
+                );
+
                 parameter.total_supply = parameter
                     .total_supply
                     .checked_sub(remove_liquidity)
-- 
2.43.0


From 6a7cc66c96716bf12f87779d5accc3a09e5df4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 24/39] fix: dex-stable: quote meta pool swaps with the base
 pool's virtual price

---
 crates/dex-stable/src/meta_pool.rs | 4 ++--
 crates/dex-stable/src/traits.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/dex-stable/src/meta_pool.rs b/crates/dex-stable/src/meta_pool.rs
index 4ccaa4f..8cb2835 100644
--- a/crates/dex-stable/src/meta_pool.rs
+++ b/crates/dex-stable/src/meta_pool.rs
@@ -532,7 +532,7 @@ impl<T: Config> Pallet<T> {
         Some(xp)
     }
 
-    fn meta_pool_base_virtual_price(
+    pub(crate) fn meta_pool_base_virtual_price(
         meta_pool: &MetaPool<T::PoolId, T::CurrencyId, T::AccountId, T::PoolCurrencyLimit, T::PoolCurrencySymbolLimit>,
     ) -> Option<Balance> {
         let now = T::TimeProvider::now().as_secs();
@@ -811,7 +811,7 @@ impl<T: Config> Pallet<T> {
             .checked_sub(One::one())
             .ok_or(Error::<T>::Arithmetic)?;
 
-        let base_virtual_price = Self::calculate_meta_virtual_price(&meta_pool).ok_or(Error::<T>::Arithmetic)?;
+        let base_virtual_price = Self::meta_pool_base_virtual_price(&meta_pool).ok_or(Error::<T>::Arithmetic)?;
 
         let base_pool_currency_len = meta_pool.base_currencies.len();
 
diff --git a/crates/dex-stable/src/traits.rs b/crates/dex-stable/src/traits.rs
index ad8a805..39ebe86 100644
--- a/crates/dex-stable/src/traits.rs
+++ b/crates/dex-stable/src/traits.rs
@@ -126,7 +126,7 @@ impl<T: Config> StableAmmApi<T::PoolId, T::CurrencyId, T::AccountId, Balance> fo
             return match pool {
                 Pool::Base(bp) => Self::calculate_base_swap_amount(&bp, i, j, in_balance),
                 Pool::Meta(mp) => {
-                    let virtual_price = Self::calculate_meta_virtual_price(&mp)?;
+                    let virtual_price = Self::meta_pool_base_virtual_price(&mp)?;
                     let res = Self::calculate_meta_swap_amount(&mp, i, j, in_balance, virtual_price)?;
                     Some(res.0)
                 }
-- 
2.43.0


From d2610b132a0e78042fd6112ccde2524365d06126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:51 +0000
Subject: [PATCH 25/39] fix: dex-stable: refuse an unknown base currency in
 swap_pool_from_base

---
 crates/dex-stable/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 18cfb5f..572289c 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1406,7 +1406,9 @@ impl<T: Config> Pallet<T> {
         let base_pool_len = base_pool.currency_ids.len();
 
         let mut base_amounts = vec![Balance::default(); base_pool_len];
-        base_amounts[in_index as usize] = dx;
+        *base_amounts
+            .get_mut(in_index as usize)
+            .ok_or(Error::<T>::CurrencyIndexOutRange)? = dx;
 
         let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
 
-- 
2.43.0


From 7999c27b6ba54a3c542a5ebf14754bc34bc2e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 26/39] fix: dex-stable: refuse swap_pool_from_base into the
 base pool's own LP currency

---
 crates/dex-stable/src/lib.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/crates/dex-stable/src/lib.rs b/crates/dex-stable/src/lib.rs
index 572289c..a750a1c 100644
--- a/crates/dex-stable/src/lib.rs
+++ b/crates/dex-stable/src/lib.rs
@@ -1412,20 +1412,15 @@ impl<T: Config> Pallet<T> {
 
         let base_lp_amount = Self::inner_add_liquidity(who, base_pool_id, &base_amounts, 0, who)?;
 
-        let mut out_amount: Balance = 0;
-        if base_pool_lp_currency_in_meta_index != (out_index as usize) {
-            out_amount = Self::inner_swap(
-                who,
-                meta_pool_id,
-                base_pool_lp_currency_in_meta_index,
-                out_index as usize,
-                base_lp_amount,
-                min_dy,
-                to,
-            )?;
-        }
-
-        Ok(out_amount)
+        Self::inner_swap(
+            who,
+            meta_pool_id,
+            base_pool_lp_currency_in_meta_index,
+            out_index as usize,
+            base_lp_amount,
+            min_dy,
+            to,
+        )
     }
 
     fn inner_swap_pool_to_base(
-- 
2.43.0


From ac8d0fc2daea3e728cc6b9563764dc3d33a8d62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 27/39] fix: dex-stable: get_currency returns the currencies in
 range

---
 crates/dex-stable/src/rpc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/dex-stable/src/rpc.rs b/crates/dex-stable/src/rpc.rs
index e15701b..9c4b4a6 100644
--- a/crates/dex-stable/src/rpc.rs
+++ b/crates/dex-stable/src/rpc.rs
@@ -56,7 +56,7 @@ impl<T: Config> Pallet<T> {
     pub fn get_currency(pool_id: T::PoolId, index: u32) -> Option<T::CurrencyId> {
         if let Some(pool) = Self::pools(pool_id) {
             let currency_ids = pool.get_currency_ids();
-            if currency_ids.len() < index as usize {
+            if (index as usize) < currency_ids.len() {
                 return Some(currency_ids[index as usize]);
             }
         };
-- 
2.43.0


From 26df7c56d5a8e23258cf24e0264f86209fd9d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 28/39] fix: dex-swap-router: refuse empty routes

---
 crates/dex-swap-router/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/dex-swap-router/src/lib.rs b/crates/dex-swap-router/src/lib.rs
index 017c718..2dce335 100644
--- a/crates/dex-swap-router/src/lib.rs
+++ b/crates/dex-swap-router/src/lib.rs
@@ -250,6 +250,7 @@ impl<T: Config> Pallet<T> {
     }
 
     fn validate_routes(routes: &[Route<T::StablePoolId, T::CurrencyId>]) -> DispatchResult {
+        ensure!(!routes.is_empty(), Error::<T>::InvalidRoutes);
         for [route_1, route_2] in routes.array_windows::<2>() {
             let output_1 = route_1.output_currency().ok_or(Error::<T>::InvalidPath)?;
             let input_2 = route_2.input_currency().ok_or(Error::<T>::InvalidPath)?;
-- 
2.43.0


From 4583b3469d9366af4162a38b33ae5560937f08d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 29/39] fix: democracy: return deposits and release preimages
 when proposals are cleared

---
 crates/democracy/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/democracy/src/lib.rs b/crates/democracy/src/lib.rs
index ceb7c63..60eda06 100644
--- a/crates/democracy/src/lib.rs
+++ b/crates/democracy/src/lib.rs
@@ -545,7 +545,16 @@ pub mod pallet {
         #[pallet::weight(T::WeightInfo::clear_public_proposals())]
         pub fn clear_public_proposals(origin: OriginFor<T>) -> DispatchResult {
             ensure_root(origin)?;
-            <PublicProps<T>>::kill();
+            for (prop_index, proposal, _) in <PublicProps<T>>::take() {
+                // since we placed a `hold` on propose
+                // we should now unrequest the data
+                T::Preimages::drop(&proposal);
+                if let Some((whos, amount)) = <DepositOf<T>>::take(prop_index) {
+                    for who in whos.into_iter() {
+                        T::Currency::unreserve(&who, amount);
+                    }
+                }
+            }
             Ok(())
         }
 
-- 
2.43.0


From 4deaff27ff4f0405befce68f7b98d110459b79a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 30/39] fix: collator-selection: do not list an invulnerable
 candidate twice

---
 crates/collator-selection/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/collator-selection/src/lib.rs b/crates/collator-selection/src/lib.rs
index 7a801cc..c335a41 100644
--- a/crates/collator-selection/src/lib.rs
+++ b/crates/collator-selection/src/lib.rs
@@ -416,7 +416,12 @@ pub mod pallet {
         /// This is done on the fly, as frequent as we are told to do so, as the session manager.
         pub fn assemble_collators(candidates: BoundedVec<T::AccountId, T::MaxCandidates>) -> Vec<T::AccountId> {
             let mut collators = Self::invulnerables().to_vec();
-            collators.extend(candidates);
+            // a candidate may have been made invulnerable since it registered
+            for candidate in candidates {
+                if !collators.contains(&candidate) {
+                    collators.push(candidate);
+                }
+            }
             collators
         }
 
-- 
2.43.0


From 35f7260b0f355c3712b258fd50dff39c73063334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 31/39] fix: loans: distribute the borrower's rewards before a
 liquidation reduces its debt

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index e1f4d83..22a7e20 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1595,7 +1595,7 @@ impl<T: Config> Pallet<T> {
 
         // update borrow index after accrue interest.
         Self::update_reward_borrow_index(liquidation_asset_id)?;
-        Self::distribute_borrower_reward(liquidation_asset_id, liquidator)?;
+        Self::distribute_borrower_reward(liquidation_asset_id, borrower)?;
 
         // 1.liquidator repays borrower's debt,
         // transfer from liquidator to module account
-- 
2.43.0


From 82d7818b16113c167ccf2c9804fdb3f13821d399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 32/39] fix: loans: validate the new incentive reserve factor
 in update_market

---
 crates/loans/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 22a7e20..b59f3ba 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -775,7 +775,7 @@ pub mod pallet {
                 Error::<T>::InvalidFactor
             );
             ensure!(
-                market.liquidate_incentive_reserved_factor < Ratio::one(),
+                liquidate_incentive_reserved_factor < Ratio::one(),
                 Error::<T>::InvalidFactor,
             );
             ensure!(supply_cap > Zero::zero(), Error::<T>::InvalidSupplyCap);
-- 
2.43.0


From a69342ed4dba762e4bd64a5f38254c65635fb0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 33/39] fix: loans: let a liquidation repay debt beyond the
 rounded-down total

---
 crates/loans/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index b59f3ba..45bedc5 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1604,7 +1604,8 @@ impl<T: Config> Pallet<T> {
         // 2.the system reduces borrower's debt
         let account_borrows_new =
             Self::current_borrow_balance(borrower, liquidation_asset_id)?.checked_sub(&repayment)?;
-        let total_borrows_new = Self::total_borrows(liquidation_asset_id).checked_sub(&repayment)?;
+        // `total_borrows` is rounded down, so it may be less than the debt that is repaid.
+        let total_borrows_new = Self::total_borrows(liquidation_asset_id).saturating_sub(&repayment)?;
         AccountBorrows::<T>::insert(
             liquidation_asset_id,
             borrower,
-- 
2.43.0


From 95f5440a2313812290b798578760415c44930d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 34/39] fix: loans: refuse borrows that leave the debt
 uncollateralized however small they are

---
 crates/loans/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 45bedc5..82f7e4d 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -1921,6 +1921,12 @@ impl<T: Config> LoansTrait<CurrencyId<T>, AccountIdOf<T>, Amount<T>> for Pallet<
         TotalBorrows::<T>::insert(asset_id, total_borrows_new.amount());
         borrow.transfer(&Self::account_id(), borrower)?;
 
+        // The value of a tiny borrow rounds down to zero, but the debt as a whole must still be collateralized.
+        ensure!(
+            Self::get_account_liquidity(borrower)?.shortfall().is_zero(),
+            Error::<T>::InsufficientLiquidity
+        );
+
         Self::deposit_event(Event::<T>::Borrowed {
             account_id: borrower.clone(),
             currency_id: asset_id,
-- 
2.43.0


From b180403e15bce8a9f7e870748a7b215a1e89417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 35/39] fix: loans: refuse jump models without a jump
 utilization

---
 crates/loans/src/rate_model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/loans/src/rate_model.rs b/crates/loans/src/rate_model.rs
index 80af6aa..a56425e 100644
--- a/crates/loans/src/rate_model.rs
+++ b/crates/loans/src/rate_model.rs
@@ -18,7 +18,7 @@
 use codec::MaxEncodedLen;
 use primitives::{Rate, Ratio};
 use scale_info::TypeInfo;
-use sp_runtime::traits::{CheckedAdd, CheckedDiv, CheckedSub, Saturating};
+use sp_runtime::traits::{CheckedAdd, CheckedDiv, CheckedSub, Saturating, Zero};
 
 use crate::*;
 
@@ -137,6 +137,10 @@ impl JumpModel {
         if self.base_rate > self.jump_rate || self.jump_rate > self.full_rate {
             return false;
         }
+        // the rate below the jump point is undefined otherwise
+        if self.jump_utilization.is_zero() {
+            return false;
+        }
 
         true
     }
-- 
2.43.0


From cfcccd73cbd026d19a172d327b54e051fbf8e24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 36/39] fix: loans: round the lend tokens burned by a
 redemption up

---
 crates/loans/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/loans/src/lib.rs b/crates/loans/src/lib.rs
index 82f7e4d..60998e6 100644
--- a/crates/loans/src/lib.rs
+++ b/crates/loans/src/lib.rs
@@ -977,7 +977,7 @@ pub mod pallet {
             ensure!(!redeem_amount.is_zero(), Error::<T>::InvalidAmount);
 
             let underlying = Amount::<T>::new(redeem_amount, asset_id);
-            let voucher = underlying.to_lend_token()?;
+            let voucher = Self::lend_tokens_to_redeem(&underlying)?;
 
             Self::do_redeem(&who, &underlying, &voucher)?;
 
@@ -1247,7 +1247,7 @@ pub mod pallet {
 
             let underlying = Amount::new(redeem_amount, asset_id);
 
-            Self::do_redeem(&from, &underlying, &underlying.to_lend_token()?)?;
+            Self::do_redeem(&from, &underlying, &Self::lend_tokens_to_redeem(&underlying)?)?;
 
             underlying.transfer(&from, &receiver)?;
 
@@ -1862,6 +1862,16 @@ impl<T: Config> Pallet<T> {
         }
     }
 
+    /// Returns the lend tokens to burn for redeeming the given amount. This is rounded up, such that
+    /// they are worth at least the redeemed amount and the exchange rate does not decrease.
+    fn lend_tokens_to_redeem(underlying: &Amount<T>) -> Result<Amount<T>, DispatchError> {
+        let voucher = underlying.to_lend_token()?;
+        if voucher.to_underlying()?.lt(underlying)? {
+            return voucher.checked_add(&Amount::new(One::one(), voucher.currency()));
+        }
+        Ok(voucher)
+    }
+
     // Returns the incentive reward account
     pub fn incentive_reward_account_id() -> T::AccountId {
         T::PalletId::get().into_sub_account_truncating(INCENTIVE_SUB_ACCOUNT)
-- 
2.43.0


From 1cf724bdfd75e7e8d9989da2aa8c471243da1901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 37/39] fix: roll back a block reward that cannot be
 distributed

The vault reward was moved to the fee account although its distribution
failed (no capacity stake), so it belonged to nobody.
---
 crates/annuity/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/annuity/src/lib.rs b/crates/annuity/src/lib.rs
index e44db09..a0e23a0 100644
--- a/crates/annuity/src/lib.rs
+++ b/crates/annuity/src/lib.rs
@@ -155,6 +155,7 @@ impl<T: Config<I>, I: 'static> Pallet<T, I> {
         }
     }
 
+    #[transactional]
     pub(crate) fn begin_block(_height: BlockNumberFor<T>) -> DispatchResult {
         let reward_per_block = Self::min_reward_per_block();
         Self::deposit_event(Event::<T, I>::BlockReward(reward_per_block));
-- 
2.43.0


From e462dbaefd599be1cbf65f2b787e0d87eace0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 38/39] fix: keep calls that wrap other calls out of XCM
 transacts

Scheduler, MultiTransactionPayment and TechnicalCommittee calls carry
another call, which the safe call filter means to exclude.
---
 parachain/runtime/interlay/src/xcm_config.rs | 8 +++++++-
 parachain/runtime/kintsugi/src/xcm_config.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parachain/runtime/interlay/src/xcm_config.rs b/parachain/runtime/interlay/src/xcm_config.rs
index 0baafdd..a69a55d 100644
--- a/parachain/runtime/interlay/src/xcm_config.rs
+++ b/parachain/runtime/interlay/src/xcm_config.rs
@@ -176,7 +176,13 @@ impl Contains<RuntimeCall> for SafeCallFilter {
         // we need to filter all calls that can recurse. We're being a bit overly conservative here
         // by completely blocking the pallets below rather than filter per specific call.
         match call {
-            RuntimeCall::Sudo(..) | RuntimeCall::Proxy(..) | RuntimeCall::Multisig(..) | RuntimeCall::Utility(..) => {
+            RuntimeCall::Sudo(..)
+            | RuntimeCall::Proxy(..)
+            | RuntimeCall::Multisig(..)
+            | RuntimeCall::Utility(..)
+            | RuntimeCall::Scheduler(..)
+            | RuntimeCall::MultiTransactionPayment(..)
+            | RuntimeCall::TechnicalCommittee(..) => {
                 // these calls can recurse - disallow
                 false
             }
diff --git a/parachain/runtime/kintsugi/src/xcm_config.rs b/parachain/runtime/kintsugi/src/xcm_config.rs
index d853546..418346c 100644
--- a/parachain/runtime/kintsugi/src/xcm_config.rs
+++ b/parachain/runtime/kintsugi/src/xcm_config.rs
@@ -170,7 +170,13 @@ impl Contains<RuntimeCall> for SafeCallFilter {
         // we need to filter all calls that can recurse. We're being a bit overly conservative here
         // by completly blocking the pallets below rather than filter per specific call.
         match call {
-            RuntimeCall::Sudo(..) | RuntimeCall::Proxy(..) | RuntimeCall::Multisig(..) | RuntimeCall::Utility(..) => {
+            RuntimeCall::Sudo(..)
+            | RuntimeCall::Proxy(..)
+            | RuntimeCall::Multisig(..)
+            | RuntimeCall::Utility(..)
+            | RuntimeCall::Scheduler(..)
+            | RuntimeCall::MultiTransactionPayment(..)
+            | RuntimeCall::TechnicalCommittee(..) => {
                 // these calls can recurse - disallow
                 false
             }
-- 
2.43.0


From 6064012ad473af4d4babfe3e4024a433e0a7a7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 39/39] fix: reject malformed addresses in the BTC-Relay chain
 extension

A contract could panic the runtime by passing bytes that do not decode to
an address.
---
 parachain/runtime/kintsugi/src/contracts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parachain/runtime/kintsugi/src/contracts.rs b/parachain/runtime/kintsugi/src/contracts.rs
index 0c5d778..00ca8b1 100644
--- a/parachain/runtime/kintsugi/src/contracts.rs
+++ b/parachain/runtime/kintsugi/src/contracts.rs
@@ -230,7 +230,8 @@ impl ChainExtension<Runtime> for BtcRelayExtension {
                 let (unchecked_proof, btc_address): (FullTransactionProof, Vec<u8>) =
                     env.read_as_unbounded(env.in_len())?;
 
-                let btc_address = Decode::decode(&mut &btc_address[..]).unwrap();
+                let btc_address = Decode::decode(&mut &btc_address[..])
+                    .map_err(|_| DispatchError::Other("Invalid bitcoin address"))?;
                 let sats: Option<u64> =
                     btc_relay::Pallet::<Runtime>::get_and_verify_issue_payment::<Balance>(unchecked_proof, btc_address)
                         .ok()
-- 
2.43.0


From d1230a00bf03991973325cc0b33f36b7d5816206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 01/45] fix: nft: a serial number listed twice in a transfer is
 one token

Transferring [5, 5] recorded serial 5 twice for the new owner, inflating its
balance and desynchronising ownership from the collection issuance.
---
 pallet/nft/src/types.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pallet/nft/src/types.rs b/pallet/nft/src/types.rs
index 34a9fac..ee0cf4c 100644
--- a/pallet/nft/src/types.rs
+++ b/pallet/nft/src/types.rs
@@ -57,11 +57,18 @@ where
 	) -> Self {
 		let mut owned_serials = serial_numbers.clone();
 		owned_serials.sort();
+		// A serial number given more than once is still a single token
+		let mut previous: Option<SerialNumber> = None;
+		owned_serials.retain(|serial| previous.replace(*serial) != Some(*serial));
 		Self { owner, owned_serials }
 	}
 
 	/// Adds a serial to owned_serials and sorts the vec
+	/// Adding a serial that is already owned has no effect
 	pub fn add(&mut self, serial_number: SerialNumber) -> Result<(), TokenOwnershipError> {
+		if self.contains_serial(&serial_number) {
+			return Ok(());
+		}
 		self.owned_serials
 			.try_push(serial_number)
 			.map_err(|_| TokenOwnershipError::TokenLimitExceeded)?;
-- 
2.43.0


From 26b90adc19bd82106b461675bf8af914eed2b4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 02/45] fix: marketplace: accepting an offer releases the whole
 listing and never strands a bid

---
 pallet/marketplace/src/impls.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 84c49b5..2daba97 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -373,13 +373,25 @@ impl<T: Config> Pallet<T> {
 		if let Some(TokenLockReason::Listed(listing_id)) = T::NFTExt::get_token_lock(offer.token_id)
 		{
 			if let Some(listing) = <Listings<T>>::get(listing_id) {
-				if let Listing::<T>::FixedPrice(sale) = listing.clone() {
-					Self::deposit_event(Event::<T>::FixedPriceSaleClose {
-						tokens: sale.tokens,
-						listing_id,
-						marketplace_id: sale.marketplace_id,
-						reason: FixedPriceClosureReason::OfferAccepted,
-					});
+				match listing.clone() {
+					Listing::<T>::FixedPrice(sale) => {
+						// The listing closes for all of its tokens, not only for the one being sold
+						sale.tokens.unlock_tokens(&who)?;
+						Self::deposit_event(Event::<T>::FixedPriceSaleClose {
+							tokens: sale.tokens,
+							listing_id,
+							marketplace_id: sale.marketplace_id,
+							reason: FixedPriceClosureReason::OfferAccepted,
+						});
+					},
+					Listing::<T>::Auction(auction) => {
+						// As for cancelling a sale: the funds of a bidder are committed
+						ensure!(
+							ListingWinningBid::<T>::get(listing_id).is_none(),
+							Error::<T>::TokenLocked
+						);
+						auction.tokens.unlock_tokens(&who)?;
+					},
 				}
 
 				Self::remove_listing(listing, listing_id);
-- 
2.43.0


From a5de5595d5526441e4cd37dd6d3fef81ac94b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 03/45] fix: marketplace: a failed auction settlement gives the
 tokens back

---
 pallet/marketplace/src/impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 2daba97..50ef1ec 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -527,6 +527,9 @@ impl<T: Config> Pallet<T> {
 				log!(error, "🃏 releasing hold failed");
 			}
 
+			// the settlement was rolled back, give the tokens back to the seller
+			let _ = listing.tokens.unlock_tokens(&listing.seller);
+
 			// listing metadata is removed by now.
 			Self::deposit_event(Event::<T>::AuctionClose {
 				tokens: listing.tokens,
-- 
2.43.0


From 325999d62561df4b6678d4bfb1dcadb93cd6cb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 04/45] fix: marketplace: rounded royalties never add up to
 more than the price

---
 pallet/marketplace/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/marketplace/src/impls.rs b/pallet/marketplace/src/impls.rs
index 50ef1ec..8b675e3 100644
--- a/pallet/marketplace/src/impls.rs
+++ b/pallet/marketplace/src/impls.rs
@@ -584,7 +584,8 @@ impl<T: Config> Pallet<T> {
 		if !royalties_schedule.calculate_total_entitlement().is_zero() {
 			let entitlements = royalties_schedule.entitlements.clone();
 			for (who, entitlement) in entitlements.into_iter() {
-				let royalty: Balance = entitlement * amount;
+				// shares are rounded to the nearest unit, together they must not exceed the amount
+				let royalty: Balance = (entitlement * amount).min(for_seller);
 				for_seller -= royalty;
 				payouts.push((who, royalty));
 			}
-- 
2.43.0


From d0a430c787ae1cf082e7d296c1d5f8ea3a4db04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 05/45] fix: assets-ext holds below the minimum balance could
 be lost as dust

---
 pallet/assets-ext/src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pallet/assets-ext/src/lib.rs b/pallet/assets-ext/src/lib.rs
index 3fe722d..2e2ed1e 100644
--- a/pallet/assets-ext/src/lib.rs
+++ b/pallet/assets-ext/src/lib.rs
@@ -333,6 +333,16 @@ impl<T: Config> Pallet<T> {
 			.unwrap_or_default()
 	}
 
+	/// All holds of an asset share one account. A hold below the minimum balance of the asset could
+	/// leave that account below the minimum balance, where the remaining holds are lost as dust
+	fn ensure_hold_above_minimum(asset_id: AssetId, hold: Balance) -> DispatchResult {
+		ensure!(
+			hold.is_zero() || hold >= <Self as Inspect<T::AccountId>>::minimum_balance(asset_id),
+			Error::<T>::BalanceLow
+		);
+		Ok(())
+	}
+
 	/// Called by the ERC20 precompile to verify whether an assetId exists or not
 	/// Checked against whether the asset contains an owner
 	pub fn asset_exists(asset_id: AssetId) -> bool {
@@ -559,6 +569,7 @@ impl<T: Config> Hold for Pallet<T> {
 		asset_id: AssetId,
 		amount: Balance,
 	) -> DispatchResult {
+		Self::ensure_hold_above_minimum(asset_id, amount)?;
 		let mut holds = Holds::<T>::get(asset_id, who);
 		match holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			Ok(index) => {
@@ -604,6 +615,7 @@ impl<T: Config> Hold for Pallet<T> {
 		if let Ok(index) = holds.binary_search_by_key(&pallet_id.0, |(p, _)| *p) {
 			let (_, existing_hold) = holds[index];
 			let decreased_hold = existing_hold.checked_sub(amount).ok_or(Error::<T>::BalanceLow)?;
+			Self::ensure_hold_above_minimum(asset_id, decreased_hold)?;
 			if decreased_hold.is_zero() {
 				holds.remove(index);
 			} else {
@@ -651,6 +663,7 @@ impl<T: Config> Hold for Pallet<T> {
 			let (_, existing_hold) = holds[index];
 			let decreased_hold =
 				existing_hold.checked_sub(total_spend).ok_or(Error::<T>::BalanceLow)?;
+			Self::ensure_hold_above_minimum(asset_id, decreased_hold)?;
 			if decreased_hold.is_zero() {
 				holds.remove(index);
 			} else {
-- 
2.43.0


From bae6765173d030a099fa23300929f5f0ada12ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 06/45] fix: erc20-peg payments with a delay of zero blocks
 were never processed

---
 pallet/erc20-peg/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallet/erc20-peg/src/lib.rs b/pallet/erc20-peg/src/lib.rs
index 81275bd..dcc864e 100644
--- a/pallet/erc20-peg/src/lib.rs
+++ b/pallet/erc20-peg/src/lib.rs
@@ -676,6 +676,9 @@ impl<T: Config> Pallet<T> {
 			Self::deposit_event(Event::<T>::NoAvailableDelayedPaymentIds);
 			return;
 		}
+		// A payment scheduled for the current block would never be processed, on_initialize has
+		// already looked for it
+		let delay = delay.max(One::one());
 		let payment_block = <frame_system::Pallet<T>>::block_number().saturating_add(delay);
 		DelayedPayments::<T>::insert(payment_id, &pending_payment);
 		NextDelayedPaymentId::<T>::put(payment_id + 1);
-- 
2.43.0


From 22c3d34ae139fbdfbf98c57af4be599d39360385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 07/45] fix: nft-peg panicked on bridge messages shorter than
 32 bytes

---
 pallet/nft-peg/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index 211878c..ac4f4dc 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -497,7 +497,8 @@ where
 		let weight = Weight::zero();
 
 		// Decode prefix from first 32 bytes of data
-		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], &data[..32]) {
+		let prefix = data.get(..32).ok_or((weight, Error::<T>::InvalidAbiPrefix.into()))?;
+		let prefix_decoded = match ethabi::decode(&[ParamType::Uint(32)], prefix) {
 			Ok(abi) => abi,
 			Err(_) => return Err((weight, Error::<T>::InvalidAbiPrefix.into())),
 		};
-- 
2.43.0


From 9361d0488b0025a255d7aa08970ebc670b41b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 08/45] fix: nft-peg deposits lost the tokens after the first
 collection that could not be minted

---
 pallet/nft-peg/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pallet/nft-peg/src/lib.rs b/pallet/nft-peg/src/lib.rs
index ac4f4dc..179d2a9 100644
--- a/pallet/nft-peg/src/lib.rs
+++ b/pallet/nft-peg/src/lib.rs
@@ -292,6 +292,7 @@ where
 
 		let destination: T::AccountId = destination.into();
 		let name = BoundedVec::truncate_from(b"bridged-collection".to_vec());
+		let mut result = Ok(());
 
 		for current_token in token_info.tokens.iter() {
 			// Assign collection owner to pallet. User can claim it later
@@ -371,12 +372,15 @@ where
 						blocked_mint_id,
 						collection_id,
 						serial_numbers,
-						destination_address: destination,
+						destination_address: destination.clone(),
 					});
 
 					weight = weight.saturating_add(T::DbWeight::get().reads_writes(1, 2));
 
-					return Err((weight, err));
+					// The remaining collections still have to be minted or blocked, nothing else
+					// accounts for their tokens
+					result = result.and(Err(err));
+					continue;
 				},
 			}
 
@@ -389,6 +393,7 @@ where
 			weight = weight.saturating_add(T::DbWeight::get().writes(2));
 		}
 
+		result.map_err(|err| (weight, err))?;
 		Self::deposit_event(Event::<T>::Erc721Deposit { destination });
 		Ok(weight)
 	}
-- 
2.43.0


From 0ba9cfb4272a2baa8ad283152b7b1fb41b36edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 09/45] fix: ethy: a claim proven invalid no longer marks its
 message as processed

---
 pallet/ethy/src/impls.rs | 4 ++++
 pallet/ethy/src/lib.rs   | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 872cc10..cdf44b9 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -188,6 +188,8 @@ impl<T: Config> Pallet<T> {
 		event_claim: EventClaim<T::MaxEthData>,
 	) -> DispatchResult {
 		ensure!(!PendingEventClaims::<T>::contains_key(event_id), Error::<T>::EventReplayPending);
+		// An invalid claim for this id is still scheduled in MessagesValidAt
+		ensure!(!InvalidClaims::<T>::contains_key(event_id), Error::<T>::EventReplayPending);
 
 		let process_at: BlockNumberFor<T> =
 			<frame_system::Pallet<T>>::block_number() + ChallengePeriod::<T>::get();
@@ -632,6 +634,8 @@ impl<T: Config> Pallet<T> {
 		});
 
 		if let Some(_event_claim) = PendingEventClaims::<T>::take(event_claim_id) {
+			// Its entry in MessagesValidAt must not mark the message as processed
+			InvalidClaims::<T>::insert(event_claim_id, ());
 			if let Some((challenger, bond_amount)) = <ChallengerAccount<T>>::take(event_claim_id) {
 				// Challenger is correct, the event is invalid.
 				// Return challenger bond to challenger and reward challenger with relayer bond
diff --git a/pallet/ethy/src/lib.rs b/pallet/ethy/src/lib.rs
index 0090c73..12a0baa 100644
--- a/pallet/ethy/src/lib.rs
+++ b/pallet/ethy/src/lib.rs
@@ -343,6 +343,11 @@ pub mod pallet {
 	pub type PendingClaimStatus<T> =
 		StorageMap<_, Twox64Concat, EventProofId, EventClaimStatus, OptionQuery>;
 
+	/// Event claims proven invalid whose entry in MessagesValidAt is still to come up.
+	/// Until then the event id can't be submitted again
+	#[pallet::storage]
+	pub type InvalidClaims<T> = StorageMap<_, Twox64Concat, EventClaimId, (), OptionQuery>;
+
 	/// Tracks processed message Ids (prevent replay)
 	/// Must remain unbounded as this list will grow indefinitely
 	#[pallet::storage]
@@ -588,6 +593,10 @@ pub mod pallet {
 							});
 						},
 					}
+				} else if InvalidClaims::<T>::take(message_id).is_some() {
+					// The claim was proven invalid, so the message with this id was not processed
+					// and can be submitted again
+					continue;
 				}
 
 				let first_processed = processed_message_ids.first().cloned().unwrap_or_default();
-- 
2.43.0


From 3f6c15df9b84e079449bc3f4e3b2cee794488bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 10/45] fix: ethy: a challenged claim is decided once every
 notary has voted

---
 pallet/ethy/src/impls.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index cdf44b9..834bb30 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -597,10 +597,10 @@ impl<T: Config> Pallet<T> {
 			}
 		}
 
-		if Percent::from_rational(nay_count, notary_count)
-			> (Percent::from_parts(100_u8 - T::NotarizationThreshold::get().deconstruct()))
+		if Percent::from_rational(notary_count.saturating_sub(nay_count), notary_count)
+			< T::NotarizationThreshold::get()
 		{
-			// Claim is invalid (nays > (100% - NotarizationThreshold))
+			// Claim is invalid (without the nays the NotarizationThreshold can't be reached)
 			Self::handle_invalid_claim(event_claim_id)?;
 		} else if Percent::from_rational(yay_count, notary_count) >= T::NotarizationThreshold::get()
 		{
-- 
2.43.0


From 4e7a789060fec87e710259c604cbf2d03b064fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 11/45] fix: ethy: a claim proven valid goes ahead when there
 is no relayer

---
 pallet/ethy/src/impls.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 834bb30..72fcd1f 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -697,10 +697,8 @@ impl<T: Config> Pallet<T> {
 		});
 
 		if PendingEventClaims::<T>::contains_key(event_claim_id) {
-			if let Some(relayer) = Relayer::<T>::get() {
-				if let Some((challenger, bond_amount)) =
-					<ChallengerAccount<T>>::take(event_claim_id)
-				{
+			if let Some((challenger, bond_amount)) = <ChallengerAccount<T>>::take(event_claim_id) {
+				if let Some(relayer) = Relayer::<T>::get() {
 					// Challenger is incorrect, the event is valid. Send funds to relayer
 					T::MultiCurrency::spend_hold(
 						T::BridgePalletId::get(),
@@ -709,15 +707,22 @@ impl<T: Config> Pallet<T> {
 						&[(relayer, bond_amount)],
 					)?;
 				} else {
-					// This shouldn't happen
-					log!(error, "💎 unexpected missing challenger account");
+					// There is no relayer to pay, the challenger gets the bond back
+					log!(error, "💎 No relayer set");
+					T::MultiCurrency::release_hold(
+						T::BridgePalletId::get(),
+						&challenger,
+						T::NativeAssetId::get(),
+						bond_amount,
+					)?;
 				}
-
-				PendingClaimStatus::<T>::insert(event_claim_id, EventClaimStatus::ProvenValid);
-				Self::deposit_event(Event::<T>::Verified { event_claim_id });
 			} else {
-				log!(error, "💎 No relayer set");
+				// This shouldn't happen
+				log!(error, "💎 unexpected missing challenger account");
 			}
+
+			PendingClaimStatus::<T>::insert(event_claim_id, EventClaimStatus::ProvenValid);
+			Self::deposit_event(Event::<T>::Verified { event_claim_id });
 		} else {
 			log!(error, "💎 unexpected empty claim");
 			return Err(Error::<T>::InvalidClaim.into());
-- 
2.43.0


From d90e01efd72d5231453ea5a50e574243685d8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 12/45] fix: ethy: an eth_call without consensus fails instead
 of reporting the last vote

---
 pallet/ethy/src/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 72fcd1f..8707420 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -813,7 +813,7 @@ impl<T: Config> Pallet<T> {
 		});
 		// cannot or will not reach consensus based on current notarizations
 		if total_count == notary_count || !can_reach_consensus {
-			return do_callback_and_clean_up(result);
+			return do_callback_and_clean_up(CheckedEthCallResult::DataProviderErr);
 		}
 
 		// update counts
-- 
2.43.0


From 7a568f2a10636c229ee4cb94d7600c5eec352ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:36 +0000
Subject: [PATCH 13/45] fix: ethy: a bridge event is found among several in one
 transaction

---
 pallet/ethy/src/impls.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pallet/ethy/src/impls.rs b/pallet/ethy/src/impls.rs
index 8707420..259fb0b 100644
--- a/pallet/ethy/src/impls.rs
+++ b/pallet/ethy/src/impls.rs
@@ -351,11 +351,16 @@ impl<T: Config> Pallet<T> {
 			return EventClaimResult::UnexpectedSource;
 		}
 
-		// search for a bridge deposit event in this tx receipt
-		let matching_log = tx_receipt.logs.iter().find(|log| {
-			log.transaction_hash == Some(tx_hash)
-				&& log.topics.contains(&SUBMIT_BRIDGE_EVENT_SELECTOR.into())
-		});
+		// search for bridge deposit events in this tx receipt, there may be several
+		let mut matching_logs = tx_receipt
+			.logs
+			.iter()
+			.filter(|log| {
+				log.transaction_hash == Some(tx_hash)
+					&& log.topics.contains(&SUBMIT_BRIDGE_EVENT_SELECTOR.into())
+			})
+			.peekable();
+		let first_log = matching_logs.peek().copied();
 
 		let submitted_event_data = ethabi::encode(&[
 			Token::Uint(event_claim_id.into()),
@@ -363,6 +368,11 @@ impl<T: Config> Pallet<T> {
 			Token::Address(destination),
 			Token::Bytes(data.into_inner()),
 		]);
+		let contract_address = ContractAddress::<T>::get();
+		// the claimed event, or else the first one to tell what is wrong with it
+		let matching_log = matching_logs
+			.find(|log| log.data == submitted_event_data && log.address == contract_address)
+			.or(first_log);
 		if let Some(log) = matching_log {
 			// check if the Ethereum event data matches what was reported
 			// in the original claim
@@ -375,7 +385,7 @@ impl<T: Config> Pallet<T> {
 				);
 				return EventClaimResult::UnexpectedData;
 			}
-			if log.address != ContractAddress::<T>::get() {
+			if log.address != contract_address {
 				return EventClaimResult::UnexpectedContractAddress;
 			}
 		} else {
-- 
2.43.0


From bbd119c61ce70c71635d7719a27522a801cba32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 14/45] fix: vortex-distribution: a reward registered again
 replaces the old one in the total too

---
 pallet/vortex-distribution/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 4a356b5..0e066ba 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -543,16 +543,16 @@ pub mod pallet {
 
 			match s {
 				VtxDistStatus::Enabled => {
-					let mut total_rewards: BalanceOf<T> = Zero::zero();
+					let mut total_vortex = TotalVortex::<T>::get(id);
 					for (who, amount) in rewards.iter() {
-						total_rewards += *amount;
 						VtxDistOrderbook::<T>::mutate(id, who.clone(), |entry| {
+							// the new reward replaces one registered for the account before
+							total_vortex =
+								total_vortex.saturating_sub(entry.0).saturating_add(*amount);
 							*entry = (*amount, false);
 						});
 					}
-					TotalVortex::<T>::mutate(id, |total_vortex| {
-						*total_vortex = total_vortex.saturating_add(total_rewards);
-					});
+					TotalVortex::<T>::insert(id, total_vortex);
 					Self::deposit_event(Event::RewardRegistered { id, rewards });
 					Ok(())
 				},
-- 
2.43.0


From 55318a3df8b33a34842bebe68d22f6e50ce43a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 15/45] fix: vortex-distribution: redeeming a large amount paid
 less than its share

---
 pallet/vortex-distribution/src/lib.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pallet/vortex-distribution/src/lib.rs b/pallet/vortex-distribution/src/lib.rs
index 0e066ba..59b9300 100644
--- a/pallet/vortex-distribution/src/lib.rs
+++ b/pallet/vortex-distribution/src/lib.rs
@@ -48,8 +48,9 @@ use scale_info::TypeInfo;
 use seed_pallet_common::CreateExt;
 use seed_primitives::{AssetId, OffchainErr};
 use sp_runtime::{
+	helpers_128bit::multiply_by_rational_with_rounding,
 	traits::{AccountIdConversion, CheckedAdd, One, Saturating, StaticLookup, Zero},
-	RuntimeDebug,
+	ArithmeticError, Rounding, RuntimeDebug, SaturatedConversion,
 };
 use sp_staking::EraIndex;
 use sp_std::{convert::TryInto, prelude::*};
@@ -609,7 +610,15 @@ pub mod pallet {
 				// issue. then multiply it with the vortex token amount the user wants to reddem to
 				// get the resulting asset token amount.
 				let asset_balance = T::MultiCurrency::balance(asset_id, &vault_account);
-				let redeem_amount = vortex_balance.saturating_mul(asset_balance) / total_vortex;
+				// The product may exceed 128 bits for assets with many decimals.
+				let redeem_amount: BalanceOf<T> = multiply_by_rational_with_rounding(
+					vortex_balance.saturated_into(),
+					asset_balance.saturated_into(),
+					total_vortex.saturated_into(),
+					Rounding::Down,
+				)
+				.ok_or(ArithmeticError::Overflow)?
+				.saturated_into();
 
 				Self::safe_transfer(asset_id, &vault_account, &who, redeem_amount, false)?;
 			}
-- 
2.43.0


From 45c7fca63c7ad73416569c11b12ff9b714a6ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 16/45] fix: crowdsale: a sale without duration never ended
 once it was enabled

---
 pallet/crowdsale/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallet/crowdsale/src/lib.rs b/pallet/crowdsale/src/lib.rs
index 38e44c1..492a560 100644
--- a/pallet/crowdsale/src/lib.rs
+++ b/pallet/crowdsale/src/lib.rs
@@ -378,6 +378,8 @@ pub mod pallet {
 
 			// ensure soft_cap_price is not zero - prevent future div by zero
 			ensure!(!soft_cap_price.is_zero(), Error::<T>::InvalidSoftCapPrice);
+			// A sale without duration would end in the block it is enabled in, which has been closed
+			ensure!(!sale_duration.is_zero(), Error::<T>::InvalidBlockRange);
 			// Disallow sale durations that are too long
 			ensure!(sale_duration <= T::MaxSaleDuration::get(), Error::<T>::SaleDurationTooLong);
 
-- 
2.43.0


From 52acbbb95bba45187f912956a8ce9a1819370db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 17/45] fix: xrpl-bridge: never use a ticket twice when the
 next bucket overlaps the current one

---
 pallet/xrpl-bridge/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 2e2c0dd..843c5db 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -1737,9 +1737,15 @@ impl<T: Config> Pallet<T> {
 			{
 				return Err(Error::<T>::NextTicketSequenceParamsNotSet.into());
 			} else {
+				// the next bucket may overlap the current one, never reuse a ticket
+				current_sequence = current_sequence.max(next_ticket_params.start_sequence);
+				ensure!(
+					current_sequence - next_ticket_params.start_sequence
+						< next_ticket_params.bucket_size,
+					Error::<T>::NextTicketSequenceParamsNotSet
+				);
 				// update next to current and clear next
 				DoorTicketSequenceParams::<T>::set(door_account, next_ticket_params.clone());
-				current_sequence = next_ticket_params.start_sequence;
 				next_sequence =
 					current_sequence.checked_add(One::one()).ok_or(ArithmeticError::Overflow)?;
 
-- 
2.43.0


From ad557bdcca929682cb829f29f336805e0a1870ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 18/45] fix: xrpl-bridge: refuse XRP withdrawals that do not
 fit the u64 amount of the payment

---
 pallet/xrpl-bridge/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index 843c5db..b999444 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -1230,7 +1230,9 @@ impl<T: Config> Pallet<T> {
 		let tx_data = match asset_id {
 			a if a == T::XrpAssetId::get() => {
 				ensure!(
-					amount.checked_add(tx_fee as Balance).is_some(),
+					amount
+						.checked_add(tx_fee as Balance)
+						.map_or(false, |total| total <= u64::MAX as Balance),
 					Error::<T>::WithdrawInvalidAmount
 				); // xrp amounts are `u64`
 
-- 
2.43.0


From a032ba0f0df9f8331af6de1be1d447b6e3a57783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 19/45] fix: xrpl-bridge: remove the former counterparts when
 an asset is mapped again

---
 pallet/xrpl-bridge/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pallet/xrpl-bridge/src/lib.rs b/pallet/xrpl-bridge/src/lib.rs
index b999444..dc0ed4d 100644
--- a/pallet/xrpl-bridge/src/lib.rs
+++ b/pallet/xrpl-bridge/src/lib.rs
@@ -814,6 +814,13 @@ pub mod pallet {
 			if let Some(xrpl_currency) = xrpl_currency {
 				// Validate currency to prevent errors during withdrawal
 				ensure!(xrpl_currency.symbol.is_valid(), Error::<T>::InvalidCurrencyCode);
+				// Remove what either side was mapped to before, the mapping is one to one
+				if let Some(old_currency) = <AssetIdToXRPL<T>>::get(asset_id) {
+					<XRPLToAssetId<T>>::remove(old_currency);
+				}
+				if let Some(old_asset_id) = <XRPLToAssetId<T>>::get(xrpl_currency) {
+					<AssetIdToXRPL<T>>::remove(old_asset_id);
+				}
 				<AssetIdToXRPL<T>>::insert(asset_id, xrpl_currency);
 				<XRPLToAssetId<T>>::insert(xrpl_currency, asset_id);
 				Self::deposit_event(Event::XrplAssetMapSet { asset_id, xrpl_currency });
-- 
2.43.0


From 54beb83e346e5211edd27e6ee59aae72039c9759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 20/45] fix: erc721 precompile: a receiver that answers less
 than four bytes is refused

Slicing the answer panicked in the middle of the transaction.
---
 evm-precompiles/erc721/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index a3c7e9f..537b8b3 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -488,7 +488,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC721_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if !output.starts_with(&ON_ERC721_RECEIVED_FUNCTION_SELECTOR) {
 						return Err(revert("ERC721: transfer to non ERC721Receiver implementer"));
 					}
 				},
-- 
2.43.0


From 40e68fe12984a48a677efd7d894cfd8ea7541f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 21/45] fix: erc1155 precompile: a receiver that answers less
 than four bytes is refused

Slicing the answer panicked in the middle of the transaction.
---
 evm-precompiles/erc1155/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index f4ccc06..c09d226 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -444,7 +444,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if !output.starts_with(&ON_ERC1155_RECEIVED_FUNCTION_SELECTOR) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
@@ -548,7 +548,7 @@ where
 			// Check response from call
 			match reason {
 				ExitReason::Succeed(_) => {
-					if output[..4] != ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR.to_vec() {
+					if !output.starts_with(&ON_ERC1155_BATCH_RECEIVED_FUNCTION_SELECTOR) {
 						return Err(revert("ERC1155: ERC1155Receiver rejected tokens"));
 					}
 				},
-- 
2.43.0


From b4159dec4cfaa3d8a20ddaa8ea3e303d3a445b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 22/45] fix: erc721 precompile: check the approval again after
 the receiver was called

The receiver runs before the transfer and may have moved the token or ended
the approval that the transfer is based on.
---
 evm-precompiles/erc721/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 537b8b3..db5f427 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -494,6 +494,15 @@ where
 				},
 				_ => return Err(revert("ERC721: transfer to non ERC721Receiver implementer")),
 			};
+
+			// The receiver may have moved the token or ended the approval in between
+			handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost().saturating_mul(3))?;
+			if !pallet_token_approvals::Pallet::<Runtime>::is_approved_or_owner(
+				token_id,
+				Runtime::AccountId::from(handle.context().caller),
+			) {
+				return Err(revert("ERC721: Caller not approved"));
+			}
 		}
 
 		// Dispatch call (if enough gas).
-- 
2.43.0


From 5ce7ccf6885a0ee2286ed40aec0eb008f1190376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 23/45] fix: erc721 precompile: tell the receiver the operator
 and the sender

onERC721Received takes (operator, from, tokenId, data), but was given
(from, to, tokenId, data).
---
 evm-precompiles/erc721/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index db5f427..6abf9af 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -478,8 +478,8 @@ where
 				apparent_value: Default::default(),
 			};
 			let input = EvmDataWriter::new_with_selector(Action::OnErc721Received)
+				.write::<Address>(handle.context().caller.into())
 				.write::<Address>(from.into())
-				.write::<Address>(to.into())
 				.write::<U256>(serial_number.into())
 				.write::<Bytes>(data)
 				.build();
-- 
2.43.0


From 6902f7b2062e98426db78d8e26a3ea9832a594aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 24/45] fix: erc721 precompile: too many serial numbers in
 reRequestXls20Mint revert

They panicked.
---
 evm-precompiles/erc721/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index 6abf9af..f22a5b7 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -1146,7 +1146,8 @@ where
 		let serial_numbers: BoundedVec<
 			SerialNumber,
 			<Runtime as pallet_xls20::Config>::MaxTokensPerXls20Mint,
-		> = BoundedVec::try_from(serial_numbers_unbounded).expect("Should not fail");
+		> = BoundedVec::try_from(serial_numbers_unbounded)
+			.map_err(|_| revert("XLS20: Too many serial numbers"))?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From 20422908147ffda5aead99aae5e55439337a2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 25/45] fix: erc721 precompile: burn is not a view function

It could be called in a static call.
---
 evm-precompiles/erc721/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evm-precompiles/erc721/src/lib.rs b/evm-precompiles/erc721/src/lib.rs
index f22a5b7..7d96588 100644
--- a/evm-precompiles/erc721/src/lib.rs
+++ b/evm-precompiles/erc721/src/lib.rs
@@ -183,6 +183,7 @@ where
 						| Action::ReRequestXls20Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::Burn
 						| Action::Mint => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From b084e551340604d7ef8e52235e605d06790cd294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 26/45] fix: erc1155 precompile: functions that change state
 are not view functions

They could be called in a static call.
---
 evm-precompiles/erc1155/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index c09d226..6754c2f 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -165,6 +165,11 @@ where
 						| Action::Mint
 						| Action::TogglePublicMint
 						| Action::SetMintFee
+						| Action::SetMaxSupply
+						| Action::SetBaseURI
+						| Action::RenounceOwnership
+						| Action::TransferOwnership
+						| Action::CreateToken
 						| Action::MintBatch => FunctionModifier::NonPayable,
 						_ => FunctionModifier::View,
 					}) {
-- 
2.43.0


From f4bcbc175137e78f5a238f2bee3023a44073fea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 27/45] fix: erc1155 precompile: ask receivers of a batch with
 onERC1155BatchReceived

They were asked with the selector of onERC1155Received, but the batch answer
was expected.
---
 evm-precompiles/erc1155/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm-precompiles/erc1155/src/lib.rs b/evm-precompiles/erc1155/src/lib.rs
index 6754c2f..c38df84 100644
--- a/evm-precompiles/erc1155/src/lib.rs
+++ b/evm-precompiles/erc1155/src/lib.rs
@@ -541,7 +541,7 @@ where
 			// Setup input for onErc1155BatchReceived call
 			let sub_context =
 				Context { address: to, caller: operator, apparent_value: Default::default() };
-			let input = EvmDataWriter::new_with_selector(Action::OnErc1155Received)
+			let input = EvmDataWriter::new_with_selector(Action::OnErc1155BatchReceived)
 				.write::<Address>(operator.into())
 				.write::<Address>(from)
 				.write::<Vec<U256>>(ids)
-- 
2.43.0


From 21cf4a95a54b14ab3b9603a5c2167cc78eb5d9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:20 +0000
Subject: [PATCH 28/45] fix: marketplace precompile: marketplace id 0 means
 none for auctions and offers too

As for sales. An auction without a marketplace could not be opened, and an
offer made without one could never be accepted. Ids above 2^32 are refused
for offers as everywhere else instead of becoming another id.
---
 evm-precompiles/marketplace/src/lib.rs | 31 ++++++++++++++++++--------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/evm-precompiles/marketplace/src/lib.rs b/evm-precompiles/marketplace/src/lib.rs
index 80fd5a8..b514233 100644
--- a/evm-precompiles/marketplace/src/lib.rs
+++ b/evm-precompiles/marketplace/src/lib.rs
@@ -629,7 +629,10 @@ where
 			marketplace_id <= u32::MAX.into(),
 			revert("Marketplace: Expected marketplace id <= 2^32")
 		);
-		let marketplace_id: u32 = marketplace_id.saturated_into();
+		let marketplace_id: Option<MarketplaceId> = match marketplace_id {
+			i if i == U256::zero() => None,
+			_ => Some(marketplace_id.saturated_into()),
+		};
 
 		let duration: BlockNumber = saturated_convert_blocknumber(duration)?;
 		let duration = match duration {
@@ -688,7 +691,7 @@ where
 			payment_asset,
 			reserve_price,
 			duration.map(Into::into),
-			Some(marketplace_id),
+			marketplace_id,
 		)
 		.map_err(|e| {
 			revert(alloc::format!("Marketplace: Dispatched call failed with error: {:?}", e))
@@ -703,7 +706,7 @@ where
 			EvmDataWriter::new()
 				.write(Address::from(handle.context().caller))
 				.write(serial_number_ids)
-				.write(marketplace_id)
+				.write(marketplace_id.unwrap_or_default())
 				.build(),
 		)
 		.record(handle)?;
@@ -735,7 +738,10 @@ where
 			marketplace_id <= u32::MAX.into(),
 			revert("Marketplace: Expected marketplace id <= 2^32")
 		);
-		let marketplace_id: u32 = marketplace_id.saturated_into();
+		let marketplace_id: Option<MarketplaceId> = match marketplace_id {
+			i if i == U256::zero() => None,
+			_ => Some(marketplace_id.saturated_into()),
+		};
 
 		let duration: BlockNumber = saturated_convert_blocknumber(duration)?;
 		let duration = match duration {
@@ -804,7 +810,7 @@ where
 			payment_asset,
 			reserve_price,
 			duration.map(Into::into),
-			Some(marketplace_id),
+			marketplace_id,
 		)
 		.map_err(|e| {
 			revert(alloc::format!("Marketplace SFT: Dispatched call failed with error: {:?}", e))
@@ -819,7 +825,7 @@ where
 			EvmDataWriter::new()
 				.write(Address::from(handle.context().caller))
 				.write(serial_number_ids)
-				.write(marketplace_id)
+				.write(marketplace_id.unwrap_or_default())
 				.build(),
 		)
 		.record(handle)?;
@@ -952,7 +958,14 @@ where
 				marketplace_id: U256
 			}
 		);
-		let marketplace_id: u32 = marketplace_id.saturated_into();
+		ensure!(
+			marketplace_id <= u32::MAX.into(),
+			revert("Marketplace: Expected marketplace id <= 2^32")
+		);
+		let marketplace_id: Option<MarketplaceId> = match marketplace_id {
+			i if i == U256::zero() => None,
+			_ => Some(marketplace_id.saturated_into()),
+		};
 		ensure!(amount <= u128::MAX.into(), revert("Marketplace: Expected amount <= 2^128"));
 		let amount: Balance = amount.saturated_into();
 		let collection_id: CollectionUuid =
@@ -984,7 +997,7 @@ where
 			token_id,
 			amount,
 			asset_id,
-			Some(marketplace_id),
+			marketplace_id,
 		)
 		.map_err(|e| {
 			revert(alloc::format!("Marketplace: Dispatched call failed with error: {:?}", e))
@@ -998,7 +1011,7 @@ where
 			EvmDataWriter::new()
 				.write(collection_id)
 				.write(serial_number)
-				.write(marketplace_id)
+				.write(marketplace_id.unwrap_or_default())
 				.build(),
 		)
 		.record(handle)?;
-- 
2.43.0


From fe09253889bffeb7566c3b31b910c2ba9646f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 29/45] fix: dex precompile: emit Mint, Burn and Swap as the
 documented events

---
 evm-precompiles/dex/src/lib.rs | 279 +++++++++++----------------------
 1 file changed, 92 insertions(+), 187 deletions(-)

diff --git a/evm-precompiles/dex/src/lib.rs b/evm-precompiles/dex/src/lib.rs
index 4a7a515..97342ef 100644
--- a/evm-precompiles/dex/src/lib.rs
+++ b/evm-precompiles/dex/src/lib.rs
@@ -22,7 +22,7 @@ use pallet_dex::WeightInfo;
 use pallet_evm::{GasWeightMapping, Precompile};
 use precompile_utils::{constants::ERC20_PRECOMPILE_ADDRESS_PREFIX, prelude::*};
 use seed_primitives::{AccountId, AssetId, Balance, BlockNumber, CollectionUuid};
-use sp_core::{H160, H256, U256};
+use sp_core::{H160, U256};
 use sp_runtime::SaturatedConversion;
 use sp_std::{marker::PhantomData, vec::Vec};
 
@@ -158,9 +158,88 @@ where
 	Runtime::RuntimeCall: From<pallet_dex::Call<Runtime>>,
 	<Runtime::RuntimeCall as Dispatchable>::RuntimeOrigin: From<Option<Runtime::AccountId>>,
 {
-	fn add_liquidity(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
-		handle.record_log_costs_manual(3, 32)?;
+	/// Emit the `Mint` event of the pool; `amount_a` and `amount_b` are those of the given assets, the
+	/// event lists them in the order of the pool
+	fn log_liquidity_added(
+		handle: &mut impl PrecompileHandle,
+		asset_id_a: AssetId,
+		asset_id_b: AssetId,
+		caller: Runtime::AccountId,
+		amount_a: Balance,
+		amount_b: Balance,
+	) -> EvmResult<()> {
+		let pair = pallet_dex::types::TradingPair::new(asset_id_a, asset_id_b);
+		let (amount_0, amount_1) =
+			if pair.0 == asset_id_a { (amount_a, amount_b) } else { (amount_b, amount_a) };
+		handle.record_log_costs_manual(2, 64)?;
+		log2(
+			Address::from(H160::from(pair.pool_address::<AccountId>())),
+			SELECTOR_LOG_MINT,
+			caller.into(),
+			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
+		)
+		.record(handle)?;
+		Ok(())
+	}
+
+	/// Emit the `Burn` event of the pool; `amount_a` and `amount_b` are those of the given assets, the
+	/// event lists them in the order of the pool
+	fn log_liquidity_removed(
+		handle: &mut impl PrecompileHandle,
+		asset_id_a: AssetId,
+		asset_id_b: AssetId,
+		caller: Runtime::AccountId,
+		amount_a: Balance,
+		amount_b: Balance,
+		to: H160,
+	) -> EvmResult<()> {
+		let pair = pallet_dex::types::TradingPair::new(asset_id_a, asset_id_b);
+		let (amount_0, amount_1) =
+			if pair.0 == asset_id_a { (amount_a, amount_b) } else { (amount_b, amount_a) };
+		handle.record_log_costs_manual(3, 64)?;
+		log3(
+			Address::from(H160::from(pair.pool_address::<AccountId>())),
+			SELECTOR_LOG_BURN,
+			caller.into(),
+			to,
+			EvmDataWriter::new().write(amount_0).write(amount_1).build(),
+		)
+		.record(handle)?;
+		Ok(())
+	}
 
+	/// Emit the `Swap` event of every pool along the path
+	fn log_swaps(
+		handle: &mut impl PrecompileHandle,
+		path: &[AssetId],
+		caller: Runtime::AccountId,
+		swaps: Vec<(Balance, Balance, Balance, Balance)>,
+		to: H160,
+	) -> EvmResult<()> {
+		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
+			swaps.into_iter().enumerate()
+		{
+			let pair =
+				pallet_dex::types::TradingPair::new(path[asset_index], path[asset_index + 1]);
+			handle.record_log_costs_manual(3, 128)?;
+			log3(
+				Address::from(H160::from(pair.pool_address::<AccountId>())),
+				SELECTOR_LOG_SWAP,
+				caller.clone().into(),
+				to,
+				EvmDataWriter::new()
+					.write(amount_0_in)
+					.write(amount_1_in)
+					.write(amount_0_out)
+					.write(amount_1_out)
+					.build(),
+			)
+			.record(handle)?;
+		}
+		Ok(())
+	}
+
+	fn add_liquidity(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
 		// Parse input.
 		read_args!(
 			handle,
@@ -208,16 +287,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		let pair: AccountId =
-			pallet_dex::types::TradingPair::new(asset_id_a, asset_id_b).pool_address();
-		log3(
-			<H160 as Into<Address>>::into(pair.into()),
-			SELECTOR_LOG_MINT,
-			caller.into(),
-			H256::from_slice(&EvmDataWriter::new().write(amount_0).build()),
-			EvmDataWriter::new().write(amount_1).build(),
-		)
-		.record(handle)?;
+		Self::log_liquidity_added(handle, asset_id_a, asset_id_b, caller, amount_0, amount_1)?;
 
 		// Build output.
 		Ok(succeed(
@@ -270,16 +340,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		let pair: AccountId =
-			pallet_dex::types::TradingPair::new(GAS_TOKEN_ID, asset_id_a).pool_address();
-		log3(
-			<H160 as Into<Address>>::into(pair.into()),
-			SELECTOR_LOG_MINT,
-			caller.into(),
-			H256::from_slice(&EvmDataWriter::new().write(amount_0).build()),
-			EvmDataWriter::new().write(amount_1).build(),
-		)
-		.record(handle)?;
+		Self::log_liquidity_added(handle, asset_id_a, GAS_TOKEN_ID, caller, amount_0, amount_1)?;
 
 		// Build output.
 		Ok(succeed(
@@ -292,8 +353,6 @@ where
 	}
 
 	fn remove_liquidity(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
-		handle.record_log_costs_manual(4, 32)?;
-
 		// Parse input.
 		read_args!(
 			handle,
@@ -339,25 +398,13 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		let pair: AccountId =
-			pallet_dex::types::TradingPair::new(asset_id_a, asset_id_b).pool_address();
-		log4(
-			<H160 as Into<Address>>::into(pair.into()),
-			SELECTOR_LOG_BURN,
-			caller.into(),
-			H256::from_slice(&EvmDataWriter::new().write(amount_0).build()),
-			H256::from_slice(&EvmDataWriter::new().write(amount_1).build()),
-			EvmDataWriter::new().write(Address::from(to)).build(),
-		)
-		.record(handle)?;
+		Self::log_liquidity_removed(handle, asset_id_a, asset_id_b, caller, amount_0, amount_1, to)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write::<u128>(amount_0).write::<u128>(amount_1).build()))
 	}
 
 	fn remove_liquidity_eth(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
-		handle.record_log_costs_manual(4, 32)?;
-
 		// Parse input.
 		read_args!(
 			handle,
@@ -397,17 +444,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		let pair: AccountId =
-			pallet_dex::types::TradingPair::new(GAS_TOKEN_ID, asset_id_a).pool_address();
-		log4(
-			<H160 as Into<Address>>::into(pair.into()),
-			SELECTOR_LOG_BURN,
-			caller.into(),
-			H256::from_slice(&EvmDataWriter::new().write(amount_0).build()),
-			H256::from_slice(&EvmDataWriter::new().write(amount_1).build()),
-			EvmDataWriter::new().write(Address::from(to)).build(),
-		)
-		.record(handle)?;
+		Self::log_liquidity_removed(handle, asset_id_a, GAS_TOKEN_ID, caller, amount_0, amount_1, to)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write::<u128>(amount_0).write::<u128>(amount_1).build()))
@@ -455,29 +492,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
-		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
-			swap_res.into_iter().enumerate()
-		{
-			let pair: AccountId = pallet_dex::types::TradingPair::new(
-				path_assets[asset_index],
-				path_assets[asset_index + 1],
-			)
-			.pool_address();
-			log4(
-				<H160 as Into<Address>>::into(pair.into()),
-				SELECTOR_LOG_SWAP,
-				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
-				EvmDataWriter::new()
-					.write(amount_0_out)
-					.write(amount_1_out)
-					.write(Address::from(to))
-					.build(),
-			)
-			.record(handle)?;
-		}
+		Self::log_swaps(handle, &path_assets, caller, swap_res, to)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write(amounts).build()))
@@ -525,29 +540,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
-		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
-			swap_res.into_iter().enumerate()
-		{
-			let pair: AccountId = pallet_dex::types::TradingPair::new(
-				path_assets[asset_index],
-				path_assets[asset_index + 1],
-			)
-			.pool_address();
-			log4(
-				<H160 as Into<Address>>::into(pair.into()),
-				SELECTOR_LOG_SWAP,
-				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
-				EvmDataWriter::new()
-					.write(amount_0_out)
-					.write(amount_1_out)
-					.write(Address::from(to))
-					.build(),
-			)
-			.record(handle)?;
-		}
+		Self::log_swaps(handle, &path_assets, caller, swap_res, to)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write(amounts).build()))
@@ -594,29 +587,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
-		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
-			swap_res.into_iter().enumerate()
-		{
-			let pair: AccountId = pallet_dex::types::TradingPair::new(
-				path_assets[asset_index],
-				path_assets[asset_index + 1],
-			)
-			.pool_address();
-			log4(
-				<H160 as Into<Address>>::into(pair.into()),
-				SELECTOR_LOG_SWAP,
-				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
-				EvmDataWriter::new()
-					.write(amount_0_out)
-					.write(amount_1_out)
-					.write(Address::from(to))
-					.build(),
-			)
-			.record(handle)?;
-		}
+		Self::log_swaps(handle, &path_assets, caller, swap_res, to)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write(amounts).build()))
@@ -664,29 +635,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
-		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
-			swap_res.into_iter().enumerate()
-		{
-			let pair: AccountId = pallet_dex::types::TradingPair::new(
-				path_assets[asset_index],
-				path_assets[asset_index + 1],
-			)
-			.pool_address();
-			log4(
-				<H160 as Into<Address>>::into(pair.into()),
-				SELECTOR_LOG_SWAP,
-				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
-				EvmDataWriter::new()
-					.write(amount_0_out)
-					.write(amount_1_out)
-					.write(Address::from(to))
-					.build(),
-			)
-			.record(handle)?;
-		}
+		Self::log_swaps(handle, &path_assets, caller, swap_res, to)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write(amounts).build()))
@@ -734,29 +683,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
-		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
-			swap_res.into_iter().enumerate()
-		{
-			let pair: AccountId = pallet_dex::types::TradingPair::new(
-				path_assets[asset_index],
-				path_assets[asset_index + 1],
-			)
-			.pool_address();
-			log4(
-				<H160 as Into<Address>>::into(pair.into()),
-				SELECTOR_LOG_SWAP,
-				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
-				EvmDataWriter::new()
-					.write(amount_0_out)
-					.write(amount_1_out)
-					.write(Address::from(to))
-					.build(),
-			)
-			.record(handle)?;
-		}
+		Self::log_swaps(handle, &path_assets, caller, swap_res, to)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write(amounts).build()))
@@ -803,29 +730,7 @@ where
 		)
 		.map_err(|e| revert(alloc::format!("DEX: Dispatched call failed with error: {:?}", e)))?;
 
-		handle.record_log_costs_manual(4 * swap_res.len(), 32)?;
-		for (asset_index, (amount_0_in, amount_1_in, amount_0_out, amount_1_out)) in
-			swap_res.into_iter().enumerate()
-		{
-			let pair: AccountId = pallet_dex::types::TradingPair::new(
-				path_assets[asset_index],
-				path_assets[asset_index + 1],
-			)
-			.pool_address();
-			log4(
-				<H160 as Into<Address>>::into(pair.into()),
-				SELECTOR_LOG_SWAP,
-				caller.clone().into(),
-				H256::from_slice(&EvmDataWriter::new().write(amount_0_in).build()),
-				H256::from_slice(&EvmDataWriter::new().write(amount_1_in).build()),
-				EvmDataWriter::new()
-					.write(amount_0_out)
-					.write(amount_1_out)
-					.write(Address::from(to))
-					.build(),
-			)
-			.record(handle)?;
-		}
+		Self::log_swaps(handle, &path_assets, caller, swap_res, to)?;
 
 		// Build output.
 		Ok(succeed(EvmDataWriter::new().write(amounts).build()))
-- 
2.43.0


From 0770bc839ec608363602b34c26c510fbb73e315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 30/45] fix: dex precompile: the path of a swap from or to the
 gas token has to start or end with it

---
 evm-precompiles/dex/src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/evm-precompiles/dex/src/lib.rs b/evm-precompiles/dex/src/lib.rs
index 97342ef..203819f 100644
--- a/evm-precompiles/dex/src/lib.rs
+++ b/evm-precompiles/dex/src/lib.rs
@@ -570,6 +570,9 @@ where
 			.ok_or_else(|| revert("DEX: Invalid asset address"))?;
 			path_assets.push(asset_id);
 		}
+		if path_assets.first() != Some(&GAS_TOKEN_ID) {
+			return Err(revert("DEX: Invalid path").into());
+		}
 		let caller: Runtime::AccountId = handle.context().caller.into();
 
 		// Manually record gas
@@ -618,6 +621,9 @@ where
 			.ok_or_else(|| revert("DEX: Invalid asset address"))?;
 			path_assets.push(asset_id);
 		}
+		if path_assets.last() != Some(&GAS_TOKEN_ID) {
+			return Err(revert("DEX: Invalid path").into());
+		}
 		let caller: Runtime::AccountId = handle.context().caller.into();
 
 		// Manually record gas
@@ -666,6 +672,9 @@ where
 			.ok_or_else(|| revert("DEX: Invalid asset address"))?;
 			path_assets.push(asset_id);
 		}
+		if path_assets.last() != Some(&GAS_TOKEN_ID) {
+			return Err(revert("DEX: Invalid path").into());
+		}
 		let caller: Runtime::AccountId = handle.context().caller.into();
 
 		// Manually record gas
@@ -713,6 +722,9 @@ where
 			.ok_or_else(|| revert("DEX: Invalid asset address"))?;
 			path_assets.push(asset_id);
 		}
+		if path_assets.first() != Some(&GAS_TOKEN_ID) {
+			return Err(revert("DEX: Invalid path").into());
+		}
 		let caller: Runtime::AccountId = handle.context().caller.into();
 
 		// Manually record gas
-- 
2.43.0


From 8b23d23410f16fe768167ac63ec5208e6bde2df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 31/45] fix: futurepass precompile: static calls change
 nothing, and only proxyCall and payments take value

---
 evm-precompiles/futurepass/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index e70ac3b..5fac95b 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -160,6 +160,14 @@ where
 				},
 			};
 
+			if let Err(err) = handle.check_function_modifier(match selector {
+				Action::Default | Action::ProxyCall => FunctionModifier::Payable,
+				Action::DelegateType | Action::Owner => FunctionModifier::View,
+				_ => FunctionModifier::NonPayable,
+			}) {
+				return Some(Err(err.into()));
+			}
+
 			match selector {
 				Action::Default => Self::receive(handle),
 				Action::DelegateType => Self::delegate_type(handle),
-- 
2.43.0


From 27e83155fdac67a799001b060e470aafad17b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 32/45] fix: futurepass precompile: refuse short call data
 instead of panicking

---
 evm-precompiles/futurepass/src/lib.rs | 3 ++-
 runtime/src/impls.rs                  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 5fac95b..1c9f4ef 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -318,7 +318,7 @@ where
 
 		// restrict delegate access to whitelist
 		if call_to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX) {
-			let sub_call_selector = &call_data.inner[..4];
+			let sub_call_selector = &get_selector(&call_data.inner)[..];
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
@@ -504,6 +504,7 @@ where
 				handle.record_log_costs_manual(4, 32)?;
 
 				let creation_code_len = call_data.inner.len();
+				ensure!(creation_code_len >= 32, revert("Futurepass: create2 salt missing"));
 				let call_data_vec = call_data.into_vec();
 
 				// salt is the last 32 bytes of the creation code
diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index d1f0dd5..9078abf 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -46,7 +46,7 @@ use precompile_utils::{
 	constants::{
 		FEE_PROXY_ADDRESS, FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX, FUTUREPASS_REGISTRAR_PRECOMPILE,
 	},
-	keccak256, Address, ErcIdConversion,
+	get_selector, keccak256, Address, ErcIdConversion,
 };
 use seed_pallet_common::{
 	utils::{scale_decimals_to_wei, scale_wei_to_correct_decimals},
@@ -743,7 +743,7 @@ impl pallet_evm_precompiles_futurepass::EvmProxyCallFilter for ProxyType {
 			|| call.to.0.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX)
 		{
 			// Whitelist for precompile side
-			let sub_call_selector = &call.call_data.inner[..4];
+			let sub_call_selector = &get_selector(&call.call_data.inner)[..];
 			if sub_call_selector
 				== &keccak256!("registerDelegateWithSignature(address,uint8,uint32,bytes)")[..4]
 				|| sub_call_selector == &keccak256!("unregisterDelegate(address)")[..4]
-- 
2.43.0


From 88c2059f054d597a20c6c8a7f255c4d1ed018937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 33/45] fix: futurepass precompile: ownership functions act on
 the futurepass called, and on no other

---
 evm-precompiles/futurepass/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 1c9f4ef..7b41392 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -602,10 +602,23 @@ where
 		Ok(succeed(EvmDataWriter::new().write(Address::from(owner)).build()))
 	}
 
+	/// Ensures that the caller owns the futurepass at the called address
+	fn ensure_owner(handle: &mut impl PrecompileHandle) -> EvmResult<()> {
+		handle.record_cost(RuntimeHelper::<Runtime>::db_read_gas_cost())?;
+		let caller = Runtime::AccountId::from(handle.context().caller);
+		ensure!(
+			pallet_futurepass::Holders::<Runtime>::get(caller)
+				== Some(handle.code_address().into()),
+			revert("Futurepass: NotFuturepassOwner")
+		);
+		Ok(())
+	}
+
 	fn renounce_ownership(handle: &mut impl PrecompileHandle) -> EvmResult<PrecompileOutput> {
 		handle.record_log_costs_manual(3, 32)?;
 
 		let caller = handle.context().caller;
+		Self::ensure_owner(handle)?;
 		let burn_account: H160 = H160::default();
 
 		// Dispatch call (if enough gas).
@@ -639,6 +652,7 @@ where
 		read_args!(handle, { new_owner: Address });
 		let new_owner: H160 = new_owner.into();
 		let caller = handle.context().caller;
+		Self::ensure_owner(handle)?;
 
 		// Dispatch call (if enough gas).
 		RuntimeHelper::<Runtime>::try_dispatch(
-- 
2.43.0


From 1a29febd2e18475f0dff22551a184cd038921024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 34/45] fix: futurepass precompile: charge the gas a contract
 creation used

---
 evm-precompiles/futurepass/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evm-precompiles/futurepass/src/lib.rs b/evm-precompiles/futurepass/src/lib.rs
index 7b41392..81bb4fd 100644
--- a/evm-precompiles/futurepass/src/lib.rs
+++ b/evm-precompiles/futurepass/src/lib.rs
@@ -32,7 +32,7 @@ use precompile_utils::{
 use sp_core::{H160, H256, U256};
 use sp_runtime::{
 	codec::Decode,
-	traits::{ConstU32, Zero},
+	traits::{ConstU32, UniqueSaturatedInto, Zero},
 };
 use sp_std::{marker::PhantomData, vec};
 
@@ -486,6 +486,7 @@ where
 					evm_config,
 				)
 				.map_err(|_| RevertReason::custom("Futurepass: create failed"))?;
+				handle.record_cost(execution_info.used_gas.standard.unique_saturated_into())?;
 
 				// emit ContractCreated(CREATE, contractAddress, value, bytes32(0));
 				log4(
@@ -561,6 +562,7 @@ where
 					evm_config,
 				)
 				.map_err(|_| RevertReason::custom("Futurepass: create2 failed"))?;
+				handle.record_cost(execution_info.used_gas.standard.unique_saturated_into())?;
 
 				// emit ContractCreated(CREATE2, contractAddress, value, salt);
 				log4(
-- 
2.43.0


From dfb89c70d404c969d12066096287713bd914a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:47 +0000
Subject: [PATCH 35/45] fix: fee proxy: refuse a fee that is out of range
 instead of panicking

---
 pallet/fee-proxy/src/runner.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallet/fee-proxy/src/runner.rs b/pallet/fee-proxy/src/runner.rs
index c7e7e1e..025438b 100644
--- a/pallet/fee-proxy/src/runner.rs
+++ b/pallet/fee-proxy/src/runner.rs
@@ -112,6 +112,9 @@ where
 		max_priority_fee_per_gas,
 	)?;
 
+	// The total fee is at most the max fee
+	ensure!(max_fee <= U256::from(u128::MAX), FeePreferencesError::FeeOverflow);
+
 	let gas_token_asset_id = <T as Config>::FeeAssetId::get();
 	let decimals =
 		<pallet_assets_ext::Pallet<T> as InspectMetadata<AccountId>>::decimals(gas_token_asset_id);
-- 
2.43.0


From b056147505810da7927f220abb6d90f9ab82a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:47 +0000
Subject: [PATCH 36/45] fix: fee proxy: maintenance mode also blocks calls with
 fee preferences to a blocked target

---
 pallet/fee-proxy/src/runner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallet/fee-proxy/src/runner.rs b/pallet/fee-proxy/src/runner.rs
index 025438b..7aa15f9 100644
--- a/pallet/fee-proxy/src/runner.rs
+++ b/pallet/fee-proxy/src/runner.rs
@@ -322,6 +322,11 @@ where
 			input = new_input;
 			target = new_target;
 
+			// The target that is called in the end must not be blocked either
+			if !<T as Config>::MaintenanceChecker::validate_evm_call(&account, &target) {
+				return Err(RunnerError { error: Self::Error::WithdrawFailed, weight });
+			}
+
 			let base_fee_per_gas = <T as Config>::EVMBaseFeeProvider::evm_base_fee_per_gas();
 			let FeePreferencesData { path, total_fee_scaled, max_fee_scaled } =
 				get_fee_preferences_data::<T, U, P>(
-- 
2.43.0


From 6fb64cd6821203dcee3d49cc740c268bdcb64bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:47 +0000
Subject: [PATCH 37/45] fix: fee control: the length fee saturates instead of
 wrapping around

---
 pallet/fee-control/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallet/fee-control/src/lib.rs b/pallet/fee-control/src/lib.rs
index 341d884..bc739ed 100644
--- a/pallet/fee-control/src/lib.rs
+++ b/pallet/fee-control/src/lib.rs
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	pub fn length_to_fee(weight: &Weight) -> Balance {
-		Data::<T>::get().length_multiplier.mul(weight.ref_time() as Balance)
+		Data::<T>::get().length_multiplier.saturating_mul(weight.ref_time() as Balance)
 	}
 
 	pub fn base_fee_per_gas() -> U256 {
-- 
2.43.0


From daf8a829c727def3090109a66e6817900587a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 38/45] fix: ERC-20/721/1155 addresses: refuse token addresses
 with a non-zero tail

---
 runtime/src/impls.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 9078abf..97524cd 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -270,10 +270,12 @@ where
 	) -> Option<RuntimeId> {
 		let h160_address: H160 = evm_id.into();
 		let (prefix_part, id_part) = h160_address.as_fixed_bytes().split_at(4);
+		let (id_part, padding) = id_part.split_at(4);
 
-		if prefix_part == precompile_address_prefix {
+		// `runtime_id_to_evm_id` leaves the rest of the address zero, no other address is valid
+		if prefix_part == precompile_address_prefix && padding.iter().all(|b| *b == 0) {
 			let mut buf = [0u8; 4];
-			buf.copy_from_slice(&id_part[..4]);
+			buf.copy_from_slice(id_part);
 			let runtime_id: RuntimeId = u32::from_be_bytes(buf).into();
 
 			Some(runtime_id)
-- 
2.43.0


From b9d18d6460a8a8453f3ebeb1cdb793f6b36b793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 39/45] fix: doughnut: refuse amounts that do not fit the
 topping's numeric type

---
 runtime/src/impls.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 97524cd..95d43d1 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -969,7 +969,9 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 				let who = <Runtime as frame_system::Config>::Lookup::lookup(*dest)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 				let destination: [u8; 20] = who.into();
-				let value_u128: u128 = *value;
+				// amounts that do not fit the topping's numeric type can not be validated
+				let value_u64 = u64::try_from(*value)
+					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 
 				topping
 					.validate_module(
@@ -978,7 +980,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u64)),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -988,7 +990,9 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 				let who = <Runtime as frame_system::Config>::Lookup::lookup(*dest)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 				let destination: [u8; 20] = who.into();
-				let value_u128: u128 = *value;
+				// amounts that do not fit the topping's numeric type can not be validated
+				let value_u64 = u64::try_from(*value)
+					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 
 				topping
 					.validate_module(
@@ -997,7 +1001,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						// TODO: change the u64 conversion once pact Numeric support u128
 						&[
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(value_u128 as u64)),
+							PactType::Numeric(Numeric(value_u64)),
 						],
 					)
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
@@ -1038,6 +1042,9 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 				let destination: [u8; 20] = who.into();
 				let keep_alive_u64: u64 = (*keep_alive).into();
+				// amounts that do not fit the topping's numeric type can not be validated
+				let amount_u64 = u64::try_from(*amount)
+					.map_err(|_| pallet_doughnut::Error::<Runtime>::ToppingPermissionDenied)?;
 
 				topping
 					.validate_module(
@@ -1047,7 +1054,7 @@ impl seed_pallet_common::ExtrinsicChecker for DoughnutCallValidator {
 						&[
 							PactType::Numeric(Numeric(asset_id_u64)),
 							PactType::StringLike(StringLike(destination.to_vec())),
-							PactType::Numeric(Numeric(*amount as u64)),
+							PactType::Numeric(Numeric(amount_u64)),
 							PactType::Numeric(Numeric(keep_alive_u64)),
 						],
 					)
-- 
2.43.0


From e2410b263f0668a4b6136df525c088eb57ff3cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 40/45] fix: proxy filter: EVM calls to the futurepass
 precompiles are the owner's

---
 runtime/src/impls.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 95d43d1..0747e17 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -767,6 +767,23 @@ impl pallet_evm_precompiles_futurepass::EvmProxyCallFilter for ProxyType {
 	}
 }
 
+/// Whether an EVM call ends up in the futurepass (registrar) precompile, also if it is paid for with
+/// a fee preference. A plain value transfer to a futurepass has no input.
+fn is_futurepass_evm_call(target: &H160, input: &[u8]) -> bool {
+	let is_futurepass = |target: &H160, input: &[u8]| {
+		!input.is_empty()
+			&& (target == &H160::from_low_u64_be(FUTUREPASS_REGISTRAR_PRECOMPILE)
+				|| target.as_bytes().starts_with(FUTUREPASS_PRECOMPILE_ADDRESS_PREFIX))
+	};
+	if target != &H160::from_low_u64_be(FEE_PROXY_ADDRESS) {
+		return is_futurepass(target, input);
+	}
+	pallet_fee_proxy::FeePreferencesRunner::<Runtime, Runtime, crate::Futurepass>::decode_input(
+		input.to_vec(),
+	)
+	.map_or(false, |(_, target, input)| is_futurepass(&target, &input))
+}
+
 // substrate side proxy filter
 impl InstanceFilter<RuntimeCall> for ProxyType {
 	fn filter(&self, c: &RuntimeCall) -> bool {
@@ -793,6 +810,13 @@ impl InstanceFilter<RuntimeCall> for ProxyType {
 			// the owner of the futurepass
 			return self == &ProxyType::Owner;
 		}
+		// The same holds for the futurepass precompiles: called by the futurepass itself they change
+		// its delegates, so calling them through pallet_evm is up to the owner as well.
+		if let RuntimeCall::EVM(pallet_evm::Call::call { target, input, .. }) = c {
+			if self != &ProxyType::Owner && is_futurepass_evm_call(target, input) {
+				return false;
+			}
+		}
 		match self {
 			ProxyType::Owner => true,
 			ProxyType::Any => true,
-- 
2.43.0


From 154c024d1183747941ddaed83236c3f2eba94096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 41/45] fix: proxy types: only Owner contains Owner

---
 runtime/src/impls.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/runtime/src/impls.rs b/runtime/src/impls.rs
index 0747e17..3bad12e 100644
--- a/runtime/src/impls.rs
+++ b/runtime/src/impls.rs
@@ -831,8 +831,11 @@ impl InstanceFilter<RuntimeCall> for ProxyType {
 	fn is_superset(&self, o: &Self) -> bool {
 		match (self, o) {
 			(x, y) if x == y => true,
-			(ProxyType::Owner, _) | (ProxyType::Any, _) => true,
-			(_, ProxyType::Owner) | (_, ProxyType::Any) => false,
+			(ProxyType::Owner, _) => true,
+			// only the owner can manage a futurepass
+			(_, ProxyType::Owner) => false,
+			(ProxyType::Any, _) => true,
+			(_, ProxyType::Any) => false,
 			_ => false,
 		}
 	}
-- 
2.43.0


From f71bf18b108af98737efc5d838b9d4bbf3df9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 42/45] fix: xls20: charge the whole mint fee, not its lowest
 32 bits

---
 pallet/xls20/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pallet/xls20/src/lib.rs b/pallet/xls20/src/lib.rs
index a672457..64da3dd 100644
--- a/pallet/xls20/src/lib.rs
+++ b/pallet/xls20/src/lib.rs
@@ -36,7 +36,7 @@ use seed_primitives::{
 };
 use sp_runtime::{
 	traits::{AccountIdConversion, Zero},
-	DispatchResult, SaturatedConversion,
+	DispatchResult,
 };
 use sp_std::prelude::*;
 
@@ -304,8 +304,7 @@ impl<T: Config> Pallet<T> {
 		}
 		if let Some(relayer) = Relayer::<T>::get() {
 			// Fee is per token minted
-			let nft_count: u32 = token_count.saturated_into();
-			let mint_fee: Balance = nft_count.saturating_mul(xls20_mint_fee as u32).into();
+			let mint_fee: Balance = xls20_mint_fee.saturating_mul(token_count.into());
 			// Make the payment
 			T::MultiCurrency::transfer(
 				T::Xls20PaymentAsset::get(),
-- 
2.43.0


From f7fe0d4f30d30545c1c7fc156c06684dbc11892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:20 +0000
Subject: [PATCH 43/45] fix: a migration step is only taken if it fits into the
 weight that is left

---
 pallet/migration/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pallet/migration/src/lib.rs b/pallet/migration/src/lib.rs
index d5fd09b..8a32ad9 100644
--- a/pallet/migration/src/lib.rs
+++ b/pallet/migration/src/lib.rs
@@ -226,7 +226,7 @@ impl<T: Config> Pallet<T> {
 		let base_weight = T::WeightInfo::migrate();
 
 		// Check we have enough weight to perform at least one step
-		if weight_limit.all_lt(base_weight.saturating_add(max_step_weight)) {
+		if base_weight.saturating_add(max_step_weight).any_gt(weight_limit) {
 			return Weight::zero();
 		}
 
@@ -254,7 +254,10 @@ impl<T: Config> Pallet<T> {
 		used_weight = used_weight.saturating_add(base_weight);
 
 		log::debug!(target: LOG_TARGET, "🦆 Starting multi-block migration for block {:?}", block_number);
-		while used_weight.all_lt(weight_limit) && step_counter < block_limit {
+		// Only take a step if its maximum weight still fits within the limit
+		while used_weight.saturating_add(max_step_weight).all_lte(weight_limit)
+			&& step_counter < block_limit
+		{
 			// Perform one migration step on the current migration
 			let step_result = T::CurrentMigration::step(last_key);
 			last_key = step_result.last_key.clone();
-- 
2.43.0


From 4be2b24102aaccc3cc91c271caffcec9fa4d8b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:20 +0000
Subject: [PATCH 44/45] fix: a new migration does not go on from the key of an
 abandoned one

---
 pallet/migration/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallet/migration/src/lib.rs b/pallet/migration/src/lib.rs
index 8a32ad9..ab7bd86 100644
--- a/pallet/migration/src/lib.rs
+++ b/pallet/migration/src/lib.rs
@@ -249,7 +249,9 @@ impl<T: Config> Pallet<T> {
 		}
 
 		let block_limit: u32 = BlockLimit::<T>::get();
-		let mut last_key = LastKey::<T>::get();
+		// The first step of a migration starts from the beginning. A key that is still stored
+		// then was left behind by a previous migration that did not complete
+		let mut last_key = if previous_steps == 0 { None } else { LastKey::<T>::get() };
 		let mut step_counter: u32 = 0;
 		used_weight = used_weight.saturating_add(base_weight);
 
-- 
2.43.0


From 809eaba397561879c23cfa80568bedf52cfda48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:32 +0000
Subject: [PATCH 45/45] fix: an XRPL transaction without a signing key is
 refused and does not panic

---
 pallet/xrpl/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pallet/xrpl/src/types.rs b/pallet/xrpl/src/types.rs
index c14094c..04aec74 100644
--- a/pallet/xrpl/src/types.rs
+++ b/pallet/xrpl/src/types.rs
@@ -121,7 +121,11 @@ impl XRPLTransaction {
 			hex::decode(&self.signing_pub_key).map_err(|_| "Error decoding hex string")?;
 		// check prefix (ignore-case "ED") to determine the public key type
 		// uppercase first 2 characters and compare with "ED"
-		let key_prefix = &self.signing_pub_key[0..2].to_uppercase();
+		let key_prefix = self
+			.signing_pub_key
+			.get(0..2)
+			.ok_or("Missing public key prefix")?
+			.to_uppercase();
 		match key_prefix.as_str() {
 			"ED" => {
 				// remove the first byte (prefix) from the public key
-- 
2.43.0


From 50ff431ba31eb4f964b2ae39989de854f8599132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 01/22] fix: slashing an account with a finished vesting
 schedule divided by zero

---
 pallets/on-slash-vesting/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 571f986..5a8c988 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -7,7 +7,10 @@ mod mock;
 mod test;
 
 use frame_support::{
-	sp_runtime::{traits::Convert, FixedPointNumber, FixedU128},
+	sp_runtime::{
+		traits::{Convert, Zero},
+		FixedPointNumber, FixedU128,
+	},
 	traits::{Currency, OriginTrait},
 };
 use pallet_vesting::Vesting;
@@ -39,6 +42,10 @@ where
 				let start_block = T::BlockNumberToBalance::convert(now);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
+				// Nothing is left to vest: the schedule ended, or everything it locked was slashed.
+				if total_locked.is_zero() || duration.is_zero() {
+					continue;
+				}
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
 				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
 				if new_schedule.is_valid() {
-- 
2.43.0


From 52b4d35ccff6b89f8edff525d4397ec05bb78994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 02/22] fix: a slash started vesting schedules before their
 starting block

---
 pallets/on-slash-vesting/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/on-slash-vesting/src/lib.rs b/pallets/on-slash-vesting/src/lib.rs
index 5a8c988..7de00f1 100644
--- a/pallets/on-slash-vesting/src/lib.rs
+++ b/pallets/on-slash-vesting/src/lib.rs
@@ -39,7 +39,9 @@ where
 			let now = T::BlockNumberProvider::current_block_number();
 			for schedule in vesting_schedules {
 				let total_locked = schedule.locked_at::<T::BlockNumberToBalance>(now).saturating_sub(slashed_amount);
-				let start_block = T::BlockNumberToBalance::convert(now);
+				// A schedule that has not started yet keeps its starting block.
+				let starting_block = schedule.starting_block().max(now);
+				let start_block = T::BlockNumberToBalance::convert(starting_block);
 				let end_block = schedule.ending_block_as_balance::<T::BlockNumberToBalance>();
 				let duration = end_block.saturating_sub(start_block);
 				// Nothing is left to vest: the schedule ended, or everything it locked was slashed.
@@ -47,7 +49,7 @@ where
 					continue;
 				}
 				let per_block = FixedU128::from_rational(total_locked, duration).saturating_mul_int(1u128);
-				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, now);
+				let new_schedule = pallet_vesting::VestingInfo::new(total_locked, per_block, starting_block);
 				if new_schedule.is_valid() {
 					// The push should always succeed because we are iterating over a bounded vector.
 					let push_result = new_vesting_schedules.try_push(new_schedule);
-- 
2.43.0


From ef3a67c6d885a3c7f456f9359a92824132e57c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 03/22] fix: clearing the public proposals kept their deposits
 on hold for ever

---
 pallets/democracy/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index c96b640..1f9d4d6 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -914,7 +914,14 @@ pub mod pallet {
 		#[pallet::weight(T::WeightInfo::clear_public_proposals())]
 		pub fn clear_public_proposals(origin: OriginFor<T>) -> DispatchResult {
 			ensure_root(origin)?;
-			<PublicProps<T>>::kill();
+			for (prop_index, ..) in <PublicProps<T>>::take() {
+				if let Some((depositors, deposit)) = <DepositOf<T>>::take(prop_index) {
+					for d in depositors.iter() {
+						T::Fungible::release(&HoldReason::Proposal.into(), d, deposit, Precision::BestEffort)?;
+					}
+				}
+				Self::clear_metadata(MetadataOwner::Proposal(prop_index));
+			}
 			Ok(())
 		}
 
-- 
2.43.0


From 7d1ee50955cd5461b56290420192bf3110fcf0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 04/22] fix: a veto turned a permanent blacklisting into a
 temporary one

---
 pallets/democracy/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index 1f9d4d6..8a02d5e 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -815,11 +815,13 @@ pub mod pallet {
 				return Err(Error::<T>::NoProposal.into());
 			}
 
-			let mut existing_vetoers = <Blacklist<T>>::get(&proposal_hash).map(|pair| pair.1).unwrap_or_default();
+			let (existing_until, mut existing_vetoers) = <Blacklist<T>>::get(&proposal_hash).unwrap_or_default();
 			let insert_position = existing_vetoers.binary_search(&who).err().ok_or(Error::<T>::AlreadyVetoed)?;
 			existing_vetoers.try_insert(insert_position, who.clone()).map_err(|_| Error::<T>::TooMany)?;
 
-			let until = <frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get());
+			// A veto never shortens a longer, possibly permanent, blacklisting.
+			let until =
+				<frame_system::Pallet<T>>::block_number().saturating_add(T::CooloffPeriod::get()).max(existing_until);
 			<Blacklist<T>>::insert(&proposal_hash, (until, existing_vetoers));
 
 			Self::deposit_event(Event::<T>::Vetoed { who, proposal_hash, until });
-- 
2.43.0


From e1f9b079bfe94d1de7594df3270c00b2b8ff5fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 05/22] fix: blacklisting a call left its other queued
 proposals in place

---
 pallets/democracy/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index 8a02d5e..b8c4b1c 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -1033,9 +1033,9 @@ pub mod pallet {
 			let permanent = (BlockNumberFor::<T>::max_value(), BoundedVec::<T::AccountId, _>::default());
 			Blacklist::<T>::insert(&proposal_hash, permanent);
 
-			// Remove the queued proposal, if it's there.
+			// Remove the queued proposals of this call, if there are any.
 			PublicProps::<T>::mutate(|props| {
-				if let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
+				while let Some(index) = props.iter().position(|p| p.1.hash() == proposal_hash) {
 					let (prop_index, ..) = props.remove(index);
 					if let Some((whos, amount)) = DepositOf::<T>::take(prop_index) {
 						for who in whos.into_iter() {
-- 
2.43.0


From 259e70ad967d33e7b794cad8a05cdab4cf5f7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 06/22] fix: replacing the external motion left the old one's
 metadata on it

---
 pallets/democracy/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/democracy/src/lib.rs b/pallets/democracy/src/lib.rs
index b8c4b1c..86e18f8 100644
--- a/pallets/democracy/src/lib.rs
+++ b/pallets/democracy/src/lib.rs
@@ -720,6 +720,8 @@ pub mod pallet {
 		#[pallet::weight(T::WeightInfo::external_propose_majority())]
 		pub fn external_propose_majority(origin: OriginFor<T>, proposal: BoundedCallOf<T>) -> DispatchResult {
 			T::ExternalMajorityOrigin::ensure_origin(origin)?;
+			// The motion that this one replaces takes its metadata along.
+			Self::clear_metadata(MetadataOwner::External);
 			<NextExternal<T>>::put((proposal, VoteThreshold::SimpleMajority));
 			Ok(())
 		}
@@ -739,6 +741,8 @@ pub mod pallet {
 		#[pallet::weight(T::WeightInfo::external_propose_default())]
 		pub fn external_propose_default(origin: OriginFor<T>, proposal: BoundedCallOf<T>) -> DispatchResult {
 			T::ExternalDefaultOrigin::ensure_origin(origin)?;
+			// The motion that this one replaces takes its metadata along.
+			Self::clear_metadata(MetadataOwner::External);
 			<NextExternal<T>>::put((proposal, VoteThreshold::SuperMajorityAgainst));
 			Ok(())
 		}
-- 
2.43.0


From 48f993b2dbde048f86fbf38e8f763173603bedf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 07/22] fix: end_funding only in the community round

With no contribution tokens left, the round check was skipped, so anyone could call end_funding again after
the funding phase: a project whose settlement had started or finished was sent back to FundingSuccessful.
---
 pallets/funding/src/functions/5_funding_end.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/5_funding_end.rs b/pallets/funding/src/functions/5_funding_end.rs
index f88d2fc..67da54d 100644
--- a/pallets/funding/src/functions/5_funding_end.rs
+++ b/pallets/funding/src/functions/5_funding_end.rs
@@ -12,10 +12,10 @@ impl<T: Config> Pallet<T> {
 
 		// * Validity checks *
 		ensure!(
-			// Can end due to running out of CTs
-			remaining_cts == Zero::zero() ||
-				// or the last funding round ending
-				project_details.round_duration.ended(now) && matches!(project_details.status, ProjectStatus::CommunityRound(..)),
+			// The funding phase can only be ended once, from its last round
+			matches!(project_details.status, ProjectStatus::CommunityRound(..)) &&
+				// due to running out of CTs, or the round ending
+				(remaining_cts == Zero::zero() || project_details.round_duration.ended(now)),
 			Error::<T>::TooEarlyForRound
 		);
 
-- 
2.43.0


From cb57c4db295da7bd1826bb10b17eaecb9cbfdf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 08/22] fix: a bond smaller than its vesting duration can be
 settled

The amount released per block rounded down to zero, add_release_schedule refused the schedule, and the
participation (hence the whole project) could never be settled.
---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index d9c1eac..7981fd0 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -66,7 +66,8 @@ impl<T: Config> Pallet<T> {
 		let amount_per_block = if duration_as_balance == Zero::zero() {
 			bonded_amount
 		} else {
-			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?
+			// At least one unit per block, a schedule releasing nothing is invalid
+			bonded_amount.checked_div(duration_as_balance).ok_or(Error::<T>::BadMath)?.max(One::one())
 		};
 
 		Ok(VestingInfo { total_amount: bonded_amount, amount_per_block, duration })
-- 
2.43.0


From 966b0d2d8c3e79f24700e157d9f2b6f5f3ae3f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 09/22] fix: removing a project frees the DID that created it

remove_project cleared the active project of the DID in the caller's credential. An issuer account used with
another DID left the creating DID blocked for ever, and the other one free to run a second active project.
---
 pallets/funding/src/functions/1_application.rs | 4 ++--
 pallets/funding/src/lib.rs                     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pallets/funding/src/functions/1_application.rs b/pallets/funding/src/functions/1_application.rs
index eaf95b7..aad8d5f 100644
--- a/pallets/funding/src/functions/1_application.rs
+++ b/pallets/funding/src/functions/1_application.rs
@@ -123,7 +123,7 @@ impl<T: Config> Pallet<T> {
 	}
 
 	#[transactional]
-	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId, did: Did) -> DispatchResult {
+	pub fn do_remove_project(issuer: AccountIdOf<T>, project_id: ProjectId) -> DispatchResult {
 		// * Get variables *
 		let project_details = ProjectsDetails::<T>::get(project_id).ok_or(Error::<T>::ProjectDetailsNotFound)?;
 
@@ -134,7 +134,7 @@ impl<T: Config> Pallet<T> {
 		// * Update storage *
 		ProjectsDetails::<T>::remove(project_id);
 		ProjectsMetadata::<T>::remove(project_id);
-		DidWithActiveProjects::<T>::set(did, None);
+		DidWithActiveProjects::<T>::set(project_details.issuer_did, None);
 		Buckets::<T>::remove(project_id);
 
 		// * Emit events *
diff --git a/pallets/funding/src/lib.rs b/pallets/funding/src/lib.rs
index 630bc7a..7d0ac25 100644
--- a/pallets/funding/src/lib.rs
+++ b/pallets/funding/src/lib.rs
@@ -706,10 +706,10 @@ pub mod pallet {
 		#[pallet::call_index(1)]
 		#[pallet::weight(WeightInfoOf::<T>::remove_project())]
 		pub fn remove_project(origin: OriginFor<T>, jwt: UntrustedToken, project_id: ProjectId) -> DispatchResult {
-			let (account, did, investor_type, _cid) =
+			let (account, _did, investor_type, _cid) =
 				T::InvestorOrigin::ensure_origin(origin, &jwt, T::VerifierPublicKey::get())?;
 			ensure!(investor_type == InvestorType::Institutional, Error::<T>::WrongInvestorType);
-			Self::do_remove_project(account, project_id, did)
+			Self::do_remove_project(account, project_id)
 		}
 
 		/// Change the metadata hash of a project
-- 
2.43.0


From bd7aa1e95f83f941d042b7d32343e95876560ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 10/22] fix: an offchain migration is confirmed once

Confirming the same participant again decreased the counter of unmigrated participants again, so a project
could finish its migration with participants never migrated.
---
 pallets/funding/src/functions/misc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/funding/src/functions/misc.rs b/pallets/funding/src/functions/misc.rs
index 7981fd0..edb55c9 100644
--- a/pallets/funding/src/functions/misc.rs
+++ b/pallets/funding/src/functions/misc.rs
@@ -370,7 +370,8 @@ impl<T: Config> Pallet<T> {
 				if matches!(current_status, MigrationStatus::NotStarted | MigrationStatus::Failed) =>
 				status,
 			MigrationStatus::Confirmed
-				if matches!(project_details.migration_type, Some(MigrationType::Offchain)) ||
+				if (matches!(project_details.migration_type, Some(MigrationType::Offchain)) &&
+					current_status != MigrationStatus::Confirmed) ||
 					(matches!(project_details.migration_type, Some(MigrationType::Pallet(_))) &&
 						matches!(current_status, MigrationStatus::Sent(_))) =>
 			{
-- 
2.43.0


From 0644f7134481d99b5f1c2d443da1465d6c8bcf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 11/22] fix: an empty holding report is a failed check, not a
 panic

---
 pallets/funding/src/functions/7_ct_migration.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 001e507..79165e7 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -345,11 +345,10 @@ impl<T: Config> Pallet<T> {
 			) => {
 				let ct_sold_as_u128: u128 = contribution_tokens_sold;
 				let assets: Vec<Asset> = assets.into_inner();
-				let asset_1 = assets[0].clone();
-				match asset_1 {
-					Asset { id: AssetId(location), fun: Fungible(amount) }
-						if amount >= ct_sold_as_u128 &&
-							get_parachain_id(&location.clone()).ok_or(Error::<T>::WrongParaId)? ==
+				match assets.first() {
+					Some(Asset { id: AssetId(location), fun: Fungible(amount) })
+						if *amount >= ct_sold_as_u128 &&
+							get_parachain_id(location).ok_or(Error::<T>::WrongParaId)? ==
 								u32::from(para_id) =>
 					{
 						check.holding_check.1 = CheckOutcome::Passed(None);
-- 
2.43.0


From 17168e2db6afd3bcaea8433f283c1158b2a4278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 12/22] fix: the readiness check asks with the ids of the
 queries it registered

The ids 0 and 1 only match the first check ever made on the chain. Every later one waited for ever, and the
answers were taken for those of another project.
---
 pallets/funding/src/functions/7_ct_migration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/funding/src/functions/7_ct_migration.rs b/pallets/funding/src/functions/7_ct_migration.rs
index 79165e7..4d7142a 100644
--- a/pallets/funding/src/functions/7_ct_migration.rs
+++ b/pallets/funding/src/functions/7_ct_migration.rs
@@ -278,7 +278,7 @@ impl<T: Config> Pallet<T> {
 			ReportHolding {
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 0,
+					query_id: query_id_holdings,
 					max_weight,
 				},
 				assets: Wild(All),
@@ -287,7 +287,7 @@ impl<T: Config> Pallet<T> {
 				module_name: Vec::from("polimec_receiver"),
 				response_info: QueryResponseInfo {
 					destination: ParentThen(Parachain(POLIMEC_PARA_ID).into()).into(),
-					query_id: 1,
+					query_id: query_id_pallet,
 					max_weight,
 				},
 			},
-- 
2.43.0


From fcadbf25feb692df7c4d43c420f7dc5a5b698d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 13/22] fix: adding a release schedule keeps the ended ones
 until they are released

add_release_schedule dropped ended schedules without releasing their funds. When the added schedule had already
ended too (a late settlement), no schedule was left and the bond stayed on hold for ever.
---
 pallets/linear-release/src/impls.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pallets/linear-release/src/impls.rs b/pallets/linear-release/src/impls.rs
index bb89b64..a0731fc 100644
--- a/pallets/linear-release/src/impls.rs
+++ b/pallets/linear-release/src/impls.rs
@@ -284,13 +284,10 @@ impl<T: Config> ReleaseSchedule<AccountIdOf<T>, ReasonOf<T>> for Pallet<T> {
 
 		let mut schedules = Self::vesting(who, reason).unwrap_or_default();
 
-		// NOTE: we must push the new schedule so that `exec_action`
-		// will give the correct new locked amount.
+		// NOTE: nothing is released here, so schedules that have ended (the new one may have) are kept until `vest`.
 		ensure!(schedules.try_push(vesting_schedule).is_ok(), Error::<T>::AtMaxVestingSchedules);
 
-		let (schedules, _) = Self::exec_action(schedules.to_vec(), VestingAction::Passive)?;
-
-		Self::write_vesting_schedule(who, schedules, reason)?;
+		Self::write_vesting_schedule(who, schedules.to_vec(), reason)?;
 		Ok(())
 	}
 
-- 
2.43.0


From 63da878e8bed6b0e09736b5de6c4b6911c66bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 14/22] fix: the weighted average price counts no more tokens
 than were auctioned

When the bids exceeded twice the auction allocation, the lowest winning bucket was weighed in full although
only part of it was won.
---
 pallets/funding/src/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pallets/funding/src/types.rs b/pallets/funding/src/types.rs
index ee3573b..40e27c1 100644
--- a/pallets/funding/src/types.rs
+++ b/pallets/funding/src/types.rs
@@ -459,6 +459,8 @@ pub mod storage {
 			let mut price: Price = self.current_price;
 			let mut bucket_sizes: Vec<(Balance, Price)> = Vec::new();
 			while price > self.initial_price && total_amount > Balance::zero() {
+				// The lowest bucket is only partly won when more than twice the allocation was bid for
+				amount = amount.min(total_amount);
 				total_amount.saturating_reduce(amount);
 				bucket_sizes.push((price.saturating_mul_int(amount), price));
 				price = price.saturating_sub(self.delta_price);
-- 
2.43.0


From fd73808b49acd935e5ce7345a6b2f920880a755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 15/22] fix: decreasing an uncounted delegation left the total
 of the uncounted as it was

---
 pallets/parachain-staking/src/types.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/parachain-staking/src/types.rs b/pallets/parachain-staking/src/types.rs
index 96b9850..8cb4a44 100644
--- a/pallets/parachain-staking/src/types.rs
+++ b/pallets/parachain-staking/src/types.rs
@@ -1059,6 +1059,7 @@ impl<
 			})
 			.collect();
 		ensure!(in_bottom, Error::<T>::DelegationDNE);
+		bottom_delegations.total = bottom_delegations.total.saturating_sub(less);
 		bottom_delegations.sort_greatest_to_least();
 		self.reset_bottom_data::<T>(&bottom_delegations);
 		<BottomDelegations<T>>::insert(candidate, bottom_delegations);
-- 
2.43.0


From 841352b359a4eccd7039d54da4f2d45ab05cff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 16/22] fix: decreases of delegations wait
 DelegationBondLessDelay, not RevokeDelegationDelay

---
 pallets/parachain-staking/src/delegation_requests.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/parachain-staking/src/delegation_requests.rs b/pallets/parachain-staking/src/delegation_requests.rs
index c2fe8b6..c0ae055 100644
--- a/pallets/parachain-staking/src/delegation_requests.rs
+++ b/pallets/parachain-staking/src/delegation_requests.rs
@@ -132,7 +132,7 @@ impl<T: Config> Pallet<T> {
 		ensure!(decrease_amount <= max_subtracted_amount, <Error<T>>::DelegatorBondBelowMin);
 
 		let now = <Round<T>>::get().current;
-		let when = now.saturating_add(T::RevokeDelegationDelay::get());
+		let when = now.saturating_add(T::DelegationBondLessDelay::get());
 		scheduled_requests.push(ScheduledRequest {
 			delegator: delegator.clone(),
 			action: DelegationAction::Decrease(decrease_amount),
-- 
2.43.0


From 4373f0af60bb79ec6dc0b7581ea7d4fe575cb858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 17/22] fix: a displaced delegation kept its auto-compounding
 when the new one has some

---
 pallets/parachain-staking/src/auto_compound.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pallets/parachain-staking/src/auto_compound.rs b/pallets/parachain-staking/src/auto_compound.rs
index 900df94..a0a8292 100644
--- a/pallets/parachain-staking/src/auto_compound.rs
+++ b/pallets/parachain-staking/src/auto_compound.rs
@@ -189,16 +189,12 @@ where
 			Error::<T>::TooLowCandidateDelegationCountToDelegate
 		);
 
-		let auto_compounding_state = if !auto_compound.is_zero() {
-			let auto_compounding_state = Self::get_storage(&candidate);
+		if !auto_compound.is_zero() {
 			ensure!(
-				auto_compounding_state.len() <= candidate_auto_compounding_delegation_count_hint,
+				Self::get_storage(&candidate).len() <= candidate_auto_compounding_delegation_count_hint,
 				<Error<T>>::TooLowCandidateAutoCompoundingDelegationCountToDelegate,
 			);
-			Some(auto_compounding_state)
-		} else {
-			None
-		};
+		}
 
 		// add delegation to candidate
 		let (delegator_position, less_total_staked) =
@@ -212,8 +208,10 @@ where
 		let net_total_increase = if let Some(less) = less_total_staked { amount.saturating_sub(less) } else { amount };
 		let new_total_locked = <Total<T>>::get().saturating_add(net_total_increase);
 
-		// maybe set auto-compound config, state is Some if the percent is non-zero
-		if let Some(mut state) = auto_compounding_state {
+		// maybe set auto-compound config, if the percent is non-zero. Read after the delegation was added, which
+		// removes the config of a delegation that was kicked
+		if !auto_compound.is_zero() {
+			let mut state = Self::get_storage(&candidate);
 			state.set_for_delegator(delegator.clone(), auto_compound)?;
 			state.set_storage(&candidate);
 		}
-- 
2.43.0


From 85f7e3332204ccce6de6acea2a4eca31a611b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:59 +0000
Subject: [PATCH 18/22] fix: rounds longer than a year made the inflation per
 round divide by zero

---
 pallets/parachain-staking/src/inflation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/parachain-staking/src/inflation.rs b/pallets/parachain-staking/src/inflation.rs
index 62c5fab..2eed5dc 100644
--- a/pallets/parachain-staking/src/inflation.rs
+++ b/pallets/parachain-staking/src/inflation.rs
@@ -31,7 +31,8 @@ pub const BLOCKS_PER_YEAR: u32 = SECONDS_PER_YEAR / SECONDS_PER_BLOCK;
 
 fn rounds_per_year<T: Config>() -> u32 {
 	let blocks_per_round = <Pallet<T>>::round().length;
-	BLOCKS_PER_YEAR / blocks_per_round
+	// at least one, for rounds longer than a year
+	(BLOCKS_PER_YEAR / blocks_per_round).max(1)
 }
 
 #[derive(
@@ -100,7 +101,8 @@ impl<Balance> InflationInfo<Balance> {
 
 	/// Reset round inflation rate based on changes to round length
 	pub fn reset_round(&mut self, new_length: u32) {
-		let periods = BLOCKS_PER_YEAR / new_length;
+		// at least one, for rounds longer than a year
+		let periods = (BLOCKS_PER_YEAR / new_length).max(1);
 		self.round = perbill_annual_to_perbill_round(self.annual, periods);
 	}
 
-- 
2.43.0


From e0a325e29e8d355efc6f9484df3aa358da12d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 19/22] fix: XT candles were weighted by the turnover instead
 of the traded quantity

---
 pallets/oracle-ocw/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/oracle-ocw/src/types.rs b/pallets/oracle-ocw/src/types.rs
index dba09f6..f423451 100644
--- a/pallets/oracle-ocw/src/types.rs
+++ b/pallets/oracle-ocw/src/types.rs
@@ -277,7 +277,7 @@ where
 	let data = HVec::<XTCandle, 10>::deserialize(deserializer)?;
 	let mut result = Vec::<OpenCloseVolume>::with_capacity(data.len());
 	for row in data {
-		let ocv = OpenCloseVolume::from_str(row.h, row.l, row.c, row.v)
+		let ocv = OpenCloseVolume::from_str(row.h, row.l, row.c, row.q)
 			.map_err(|_| serde::de::Error::custom("Error parsing float"))?;
 		result.push(ocv);
 	}
-- 
2.43.0


From 9df65da7a59775c3bf56516deac9d70fe90208e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 20/22] fix: a trickling response body stalled the price worker
 beyond its lock

---
 pallets/oracle-ocw/src/lib.rs    | 3 ++-
 pallets/oracle-ocw/src/traits.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pallets/oracle-ocw/src/lib.rs b/pallets/oracle-ocw/src/lib.rs
index 0138759..3722073 100644
--- a/pallets/oracle-ocw/src/lib.rs
+++ b/pallets/oracle-ocw/src/lib.rs
@@ -63,7 +63,8 @@ pub mod pallet {
 	#[allow(clippy::wildcard_imports)]
 	use super::*;
 
-	const LOCK_TIMEOUT_EXPIRATION: u64 = 30_000; // 30 seconds
+	// Longer than all exchanges together can take.
+	const LOCK_TIMEOUT_EXPIRATION: u64 = 40_000; // 40 seconds
 
 	pub type AccountIdOf<T> = <T as frame_system::Config>::AccountId;
 	pub type PublicOf<T> = <T as SigningTypes>::Public;
diff --git a/pallets/oracle-ocw/src/traits.rs b/pallets/oracle-ocw/src/traits.rs
index a09a355..4d0656a 100644
--- a/pallets/oracle-ocw/src/traits.rs
+++ b/pallets/oracle-ocw/src/traits.rs
@@ -23,6 +23,9 @@ use sp_runtime::{
 	FixedU128, Saturating,
 };
 
+/// How much longer than for the responses the worker waits for their bodies, in milliseconds.
+const BODY_TIMEOUT: u64 = 1_000;
+
 pub(crate) trait FetchPrice {
 	fn get_moving_average(assets: Vec<AssetName>, timeout: u64) -> Vec<(AssetName, FixedU128, FixedU128)> {
 		let deadline = sp_io::offchain::timestamp().add(Duration::from_millis(timeout));
@@ -44,6 +47,8 @@ pub(crate) trait FetchPrice {
 
 		let request: Vec<PendingRequest> = asset_requests.iter().map(|r| PendingRequest { id: r.id }).collect();
 		let deadline = sp_io::offchain::timestamp().add(Duration::from_millis(timeout));
+		// An exchange must not stall the worker with a body that never ends either.
+		let body_deadline = deadline.add(Duration::from_millis(BODY_TIMEOUT));
 		let maybe_responses = PendingRequest::try_wait_all(request, deadline);
 		maybe_responses
 			.into_iter()
@@ -58,7 +63,9 @@ pub(crate) trait FetchPrice {
 				None
 			})
 			.filter_map(|(asset, response)| {
-				let body = response.body().collect::<Vec<u8>>();
+				let mut body = response.body();
+				body.deadline(body_deadline);
+				let body = body.collect::<Vec<u8>>();
 				if let Ok(body_str) = sp_std::str::from_utf8(&body) {
 					if let Some(ocv_data) = Self::parse_body(body_str) {
 						return Some((asset, ocv_data));
-- 
2.43.0


From 6ab4b529398067dbda227bc6a929d01d82693862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 21/22] fix: huge numbers in an exchange's answer made the
 price worker overflow

---
 pallets/oracle-ocw/src/lib.rs    | 15 ++++++-----
 pallets/oracle-ocw/src/traits.rs | 13 +++++----
 pallets/oracle-ocw/src/types.rs  | 46 +++++++++++++++++---------------
 3 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/pallets/oracle-ocw/src/lib.rs b/pallets/oracle-ocw/src/lib.rs
index 3722073..6fbfff8 100644
--- a/pallets/oracle-ocw/src/lib.rs
+++ b/pallets/oracle-ocw/src/lib.rs
@@ -40,7 +40,7 @@ use sp_runtime::{
 		storage_lock::{StorageLock, Time},
 		Duration,
 	},
-	traits::{Convert, IdentifyAccount, Saturating, Zero},
+	traits::{CheckedAdd, CheckedDiv, Convert, IdentifyAccount, Saturating, Zero},
 	FixedU128, RuntimeAppPublic,
 };
 use sp_std::{collections::btree_map::BTreeMap, vec, vec::Vec};
@@ -234,14 +234,17 @@ pub mod pallet {
 					if price_list.is_empty() {
 						return None;
 					}
-					let combined_prices =
-						price_list.into_iter().fold((FixedU128::zero(), FixedU128::zero()), |acc, (price, volume)| {
-							(acc.0 + price, acc.1 + volume)
-						});
+					let combined_prices = price_list.into_iter().fold(
+						(FixedU128::zero(), FixedU128::zero()),
+						|acc, (price, volume)| match (acc.0.checked_add(&price), acc.1.checked_add(&volume)) {
+							(Some(price), Some(volume)) => (price, volume),
+							_ => acc,
+						},
+					);
 					if combined_prices.1.is_zero() {
 						return None;
 					}
-					Some((key, combined_prices.0.div(combined_prices.1)))
+					Some((key, combined_prices.0.checked_div(&combined_prices.1)?))
 				})
 				.collect::<BTreeMap<AssetName, FixedU128>>()
 		}
diff --git a/pallets/oracle-ocw/src/traits.rs b/pallets/oracle-ocw/src/traits.rs
index 4d0656a..5c4f344 100644
--- a/pallets/oracle-ocw/src/traits.rs
+++ b/pallets/oracle-ocw/src/traits.rs
@@ -20,7 +20,8 @@ use sp_runtime::{
 		http::{self, PendingRequest},
 		Duration,
 	},
-	FixedU128, Saturating,
+	traits::CheckedAdd,
+	FixedU128,
 };
 
 /// How much longer than for the responses the worker waits for their bodies, in milliseconds.
@@ -74,10 +75,12 @@ pub(crate) trait FetchPrice {
 				None
 			})
 			.filter_map(|(asset, ocv_data)| {
-				let (w_price_sum, total_vol) =
-					ocv_data.into_iter().fold((FixedU128::zero(), FixedU128::zero()), |(w_price_sum, vol_sum), ocv| {
-						(w_price_sum + ocv.vwp(), vol_sum.saturating_add(ocv.volume))
-					});
+				let (w_price_sum, total_vol) = ocv_data.into_iter().try_fold(
+					(FixedU128::zero(), FixedU128::zero()),
+					|(w_price_sum, vol_sum), ocv| {
+						Some((w_price_sum.checked_add(&ocv.vwp()?)?, vol_sum.checked_add(&ocv.volume)?))
+					},
+				)?;
 				if total_vol.is_zero() {
 					return None;
 				}
diff --git a/pallets/oracle-ocw/src/types.rs b/pallets/oracle-ocw/src/types.rs
index f423451..ec38630 100644
--- a/pallets/oracle-ocw/src/types.rs
+++ b/pallets/oracle-ocw/src/types.rs
@@ -14,13 +14,13 @@
 // You should have received a copy of the GNU General Public License
 // along with this program.  If not, see <https://www.gnu.org/licenses/>.
 use super::{FetchPrice, FixedU128, LOG_TARGET, NUMBER_OF_CANDLES};
-use core::{ops::Mul, str::FromStr};
+use core::str::FromStr;
 use heapless::{LinearMap, Vec as HVec};
 use parity_scale_codec::{Decode, Encode};
 use scale_info::TypeInfo;
 use serde::Deserialize;
 use sp_core::{offchain::HttpRequestId as RequestId, RuntimeDebug};
-use sp_runtime::{FixedPointNumber, Saturating};
+use sp_runtime::{traits::CheckedMul, FixedPointNumber, Saturating};
 use sp_std::vec::Vec;
 use substrate_fixed::{traits::ToFixed, types::U100F28};
 
@@ -47,22 +47,24 @@ pub(crate) struct OpenCloseVolume {
 }
 
 impl OpenCloseVolume {
-	pub fn vwp(&self) -> FixedU128 {
+	/// The price weighted by the volume. `None` if the numbers are too big to be real.
+	pub fn vwp(&self) -> Option<FixedU128> {
 		let avg_price = (self.high.saturating_add(self.low).saturating_add(self.close)) / FixedU128::from_u32(3u32);
-		self.volume.saturating_mul(avg_price)
+		self.volume.checked_mul(&avg_price)
 	}
 
-	pub fn from_u100f28(high: U100F28, low: U100F28, close: U100F28, volume: U100F28) -> Self {
-		let high_as_fixedu128_inner: u128 = high.mul(U100F28::from_num(FixedU128::accuracy())).to_num::<u128>();
-		let low_as_fixedu128_inner: u128 = low.mul(U100F28::from_num(FixedU128::accuracy())).to_num::<u128>();
-		let close_as_fixedu128_inner: u128 = close.mul(U100F28::from_num(FixedU128::accuracy())).to_num::<u128>();
-		let volume_as_fixedu128_inner: u128 = volume.mul(U100F28::from_num(FixedU128::accuracy())).to_num::<u128>();
-		OpenCloseVolume {
-			high: FixedU128::from_inner(high_as_fixedu128_inner),
-			low: FixedU128::from_inner(low_as_fixedu128_inner),
-			close: FixedU128::from_inner(close_as_fixedu128_inner),
-			volume: FixedU128::from_inner(volume_as_fixedu128_inner),
-		}
+	/// `None` if a number does not fit into `FixedU128`.
+	pub fn from_u100f28(high: U100F28, low: U100F28, close: U100F28, volume: U100F28) -> Option<Self> {
+		let to_fixed_u128 = |value: U100F28| {
+			let inner = value.checked_mul(U100F28::from_num(FixedU128::accuracy()))?.to_num::<u128>();
+			Some(FixedU128::from_inner(inner))
+		};
+		Some(OpenCloseVolume {
+			high: to_fixed_u128(high)?,
+			low: to_fixed_u128(low)?,
+			close: to_fixed_u128(close)?,
+			volume: to_fixed_u128(volume)?,
+		})
 	}
 
 	pub fn from_f64(high: f64, low: f64, close: f64, volume: f64) -> Result<Self, ()> {
@@ -70,15 +72,15 @@ impl OpenCloseVolume {
 		let low = low.checked_to_fixed::<U100F28>().ok_or(())?;
 		let close = close.checked_to_fixed::<U100F28>().ok_or(())?;
 		let volume = volume.checked_to_fixed::<U100F28>().ok_or(())?;
-		Ok(Self::from_u100f28(high, low, close, volume))
+		Self::from_u100f28(high, low, close, volume).ok_or(())
 	}
 
-	pub fn from_str(high: &str, low: &str, close: &str, volume: &str) -> Result<Self, <U100F28 as FromStr>::Err> {
-		let high = U100F28::from_str(high)?;
-		let low = U100F28::from_str(low)?;
-		let close = U100F28::from_str(close)?;
-		let volume = U100F28::from_str(volume)?;
-		Ok(Self::from_u100f28(high, low, close, volume))
+	pub fn from_str(high: &str, low: &str, close: &str, volume: &str) -> Result<Self, ()> {
+		let high = U100F28::from_str(high).map_err(|_| ())?;
+		let low = U100F28::from_str(low).map_err(|_| ())?;
+		let close = U100F28::from_str(close).map_err(|_| ())?;
+		let volume = U100F28::from_str(volume).map_err(|_| ())?;
+		Self::from_u100f28(high, low, close, volume).ok_or(())
 	}
 }
 
-- 
2.43.0


From 6a7fefd47b92a984de06d1379bbd240b787b39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 22/22] fix: the price worker signed with any key of the
 keystore instead of the member's

---
 pallets/oracle-ocw/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pallets/oracle-ocw/src/lib.rs b/pallets/oracle-ocw/src/lib.rs
index 6fbfff8..af58ac3 100644
--- a/pallets/oracle-ocw/src/lib.rs
+++ b/pallets/oracle-ocw/src/lib.rs
@@ -132,7 +132,7 @@ pub mod pallet {
 				None
 			});
 
-			if let Some(_authority_key) = maybe_key {
+			if let Some(authority_key) = maybe_key {
 				let mut lock = StorageLock::<Time>::with_deadline(
 					b"oracle_ocw::lock",
 					Duration::from_millis(LOCK_TIMEOUT_EXPIRATION),
@@ -187,7 +187,7 @@ pub mod pallet {
 					for (asset_name, price) in prices.clone() {
 						log::trace!(target: LOG_TARGET, "Fetched price for {:?}: {}", asset_name, price);
 					}
-					let result = Self::send_signed_transaction(prices.clone());
+					let result = Self::send_signed_transaction(authority_key, prices.clone());
 					if result.is_ok() {
 						for (asset_name, _) in prices {
 							last_send_for_assets.insert(asset_name, block_number);
@@ -249,8 +249,13 @@ pub mod pallet {
 				.collect::<BTreeMap<AssetName, FixedU128>>()
 		}
 
-		fn send_signed_transaction(prices: BTreeMap<AssetName, FixedU128>) -> Result<(), ()> {
-			let signer = Signer::<T, T::AppCrypto>::any_account();
+		fn send_signed_transaction(
+			authority_key: RuntimeAppPublicOf<T>,
+			prices: BTreeMap<AssetName, FixedU128>,
+		) -> Result<(), ()> {
+			// Sign with the key of the member: other keys in the keystore may not feed.
+			let authority: T::Public = GenericPublicOf::<T>::from(authority_key).into();
+			let signer = Signer::<T, T::AppCrypto>::any_account().with_filter(vec![authority]);
 			let prices = prices
 				.into_iter()
 				.map(|(asset_name, price)| T::ConvertAssetPricePair::convert((asset_name, price)))
-- 
2.43.0


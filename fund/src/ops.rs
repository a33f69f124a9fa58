//! What users, issuers, the relay chain and project chains do; and how it becomes calls of the real pallets.
use crate::{runtime::*, snap::*};
use chrono::{TimeZone, Utc};
use jwt_compact::{alg::Ed25519, AlgorithmExt, Claims, Header};
use pallet_funding::{types::*, ParticipationMode};
use polimec_common::credentials::{InvestorType, SampleClaims, UntrustedToken};
use serde::{Deserialize, Serialize};
use sp_arithmetic::Percent;

/// 128-bit numbers are strings in replay files.
pub mod n128 {
	use serde::{Deserialize, Deserializer, Serializer};
	pub fn serialize<S: Serializer>(v: &u128, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&v.to_string())
	}
	pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<u128, D::Error> {
		String::deserialize(d)?.parse().map_err(serde::de::Error::custom)
	}
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Jwt {
	pub bad_sig: bool,
	pub subject: u8,
	pub did: u8,
	/// 0 retail, 1 professional, 2 institutional
	pub ty: u8,
	pub policy: u8,
	/// seconds; none: the token names no expiry
	pub exp: Option<u64>,
}
impl Jwt {
	pub fn token(&self) -> UntrustedToken {
		const KEY: [u8; 32] = [
			80, 168, 164, 18, 76, 133, 92, 116, 50, 20, 155, 28, 33, 89, 151, 207, 199, 247, 113, 185, 127, 156, 2, 132, 65, 58,
			76, 156, 143, 109, 29, 251,
		];
		let mut k = KEY;
		if self.bad_sig {
			k[3] ^= 1;
		}
		let claims = SampleClaims {
			subject: acc(self.subject),
			issuer: "verifier".into(),
			ipfs_cid: policy(self.policy),
			investor_type: inv(self.ty),
			did: did(self.did),
		};
		let mut claims = Claims::new(claims);
		claims.expiration = self.exp.map(|s| Utc.timestamp_opt(s as i64, 0).unwrap());
		let key = <Ed25519 as jwt_compact::Algorithm>::SigningKey::from_slice(&k).unwrap();
		let t = Ed25519.token(&Header::empty(), &claims, &key).unwrap();
		UntrustedToken::new(&t).unwrap()
	}
}
pub fn inv(t: u8) -> InvestorType {
	match t {
		0 => InvestorType::Retail,
		1 => InvestorType::Professional,
		_ => InvestorType::Institutional,
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ticket {
	pub min: u64,
	pub max: Option<u64>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MetaSpec {
	pub decimals: u8,
	#[serde(with = "n128")]
	pub supply: u128,
	#[serde(with = "n128")]
	pub alloc: u128,
	pub auction: u8,
	/// inner value of the decimals-aware minimum price
	#[serde(with = "n128")]
	pub price: u128,
	pub bid_prof: Ticket,
	pub bid_inst: Ticket,
	pub con_retail: Ticket,
	pub con_prof: Ticket,
	pub con_inst: Ticket,
	pub currencies: Vec<u8>,
	pub dest: u8,
	pub policy: Option<u8>,
}
pub fn asset_of(i: u8) -> AcceptedFundingAsset {
	match i {
		0 => AcceptedFundingAsset::USDT,
		1 => AcceptedFundingAsset::USDC,
		_ => AcceptedFundingAsset::DOT,
	}
}
fn tk(t: &Ticket) -> TicketSize {
	TicketSize { usd_minimum_per_participation: t.min as u128, usd_maximum_per_did: t.max.map(|m| m as u128) }
}
impl MetaSpec {
	pub fn real(&self) -> Meta {
		pallet_funding::ProjectMetadataOf::<Rt> {
			token_information: CurrencyMetadata {
				name: b"Token".to_vec().try_into().unwrap(),
				symbol: b"TKN".to_vec().try_into().unwrap(),
				decimals: self.decimals,
			},
			mainnet_token_max_supply: self.supply,
			total_allocation_size: self.alloc,
			auction_round_allocation_percentage: Percent::from_percent(self.auction),
			minimum_price: P::from_inner(self.price),
			bidding_ticket_sizes: BiddingTicketSizes {
				professional: tk(&self.bid_prof),
				institutional: tk(&self.bid_inst),
				phantom: Default::default(),
			},
			contributing_ticket_sizes: ContributingTicketSizes {
				retail: tk(&self.con_retail),
				professional: tk(&self.con_prof),
				institutional: tk(&self.con_inst),
				phantom: Default::default(),
			},
			participation_currencies: self.currencies.iter().take(3).map(|c| asset_of(*c)).collect::<Vec<_>>().try_into().unwrap(),
			funding_destination_account: acc(self.dest),
			policy_ipfs_cid: self.policy.map(policy),
		}
	}
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
	Create { jwt: Jwt, meta: MetaSpec },
	Edit { jwt: Jwt, pid: u32, meta: MetaSpec },
	Remove { jwt: Jwt, pid: u32 },
	StartEvaluation { jwt: Jwt, pid: u32 },
	Evaluate { jwt: Jwt, pid: u32, #[serde(with = "n128")] usd: u128 },
	EndEvaluation { pid: u32 },
	/// `mult` 0: one token model
	Bid { jwt: Jwt, pid: u32, #[serde(with = "n128")] ct: u128, mult: u8, asset: u8 },
	EndAuction { pid: u32 },
	Contribute { jwt: Jwt, pid: u32, #[serde(with = "n128")] ct: u128, mult: u8, asset: u8 },
	EndFunding { pid: u32 },
	StartSettlement { pid: u32 },
	SettleEvaluation { pid: u32, who: A, id: u32 },
	SettleBid { pid: u32, who: A, id: u32 },
	SettleContribution { pid: u32, who: A, id: u32 },
	MarkSettled { pid: u32 },
	StartOffchain { jwt: Jwt, pid: u32 },
	ConfirmOffchain { pid: u32, who: A },
	StartPallet { jwt: Jwt, pid: u32, para: u32 },
	Readiness { jwt: Jwt, pid: u32 },
	SendMigration { pid: u32, who: A },
	MarkFinished { pid: u32 },
	/// a signed account pretends to be the answer to a query
	FakeAnswer { query: u64, confirm: bool },
	Vest,
	VestOther { who: A },
	VestAll,
	VestAllOther { who: A },
	Merge { i: u32, j: u32 },
	VestedTransfer { to: A, #[serde(with = "n128")] locked: u128, #[serde(with = "n128")] per_block: u128, start: u64 },
	BondsBack { pid: u32, eval: bool },
	FeesOut { pid: u32, asset: u8 },
	Dispense { jwt: Jwt },
	SetDispense { #[serde(with = "n128")] amount: u128 },
	/// asset 3: PLMC
	Transfer { to: A, asset: u8, #[serde(with = "n128")] amount: u128 },
}
pub fn fa_id(i: u8) -> u32 {
	asset_of(i).id()
}
pub fn mode(m: u8) -> ParticipationMode {
	if m == 0 {
		ParticipationMode::OTM
	} else {
		ParticipationMode::Classic(m)
	}
}
impl Op {
	/// `None`: not a call of a pallet (a plain token transfer).
	pub fn call(&self) -> Option<RuntimeCall> {
		use pallet_funding::Call as F;
		use pallet_linear_release::Call as L;
		Some(match self.clone() {
			Op::Create { jwt, meta } => RuntimeCall::Funding(F::create_project { jwt: jwt.token(), project: meta.real() }),
			Op::Edit { jwt, pid, meta } => RuntimeCall::Funding(F::edit_project {
				jwt: jwt.token(),
				project_id: pid,
				new_project_metadata: meta.real(),
			}),
			Op::Remove { jwt, pid } => RuntimeCall::Funding(F::remove_project { jwt: jwt.token(), project_id: pid }),
			Op::StartEvaluation { jwt, pid } =>
				RuntimeCall::Funding(F::start_evaluation { jwt: jwt.token(), project_id: pid }),
			Op::Evaluate { jwt, pid, usd } =>
				RuntimeCall::Funding(F::evaluate { jwt: jwt.token(), project_id: pid, usd_amount: usd }),
			Op::EndEvaluation { pid } => RuntimeCall::Funding(F::end_evaluation { project_id: pid }),
			Op::Bid { jwt, pid, ct, mult, asset } => RuntimeCall::Funding(F::bid {
				jwt: jwt.token(),
				project_id: pid,
				ct_amount: ct,
				mode: mode(mult),
				funding_asset: asset_of(asset),
			}),
			Op::EndAuction { pid } => RuntimeCall::Funding(F::end_auction { project_id: pid }),
			Op::Contribute { jwt, pid, ct, mult, asset } => RuntimeCall::Funding(F::contribute {
				jwt: jwt.token(),
				project_id: pid,
				ct_amount: ct,
				mode: mode(mult),
				funding_asset: asset_of(asset),
			}),
			Op::EndFunding { pid } => RuntimeCall::Funding(F::end_funding { project_id: pid }),
			Op::StartSettlement { pid } => RuntimeCall::Funding(F::start_settlement { project_id: pid }),
			Op::SettleEvaluation { pid, who, id } =>
				RuntimeCall::Funding(F::settle_evaluation { project_id: pid, evaluator: account(who), evaluation_id: id }),
			Op::SettleBid { pid, who, id } =>
				RuntimeCall::Funding(F::settle_bid { project_id: pid, bidder: account(who), bid_id: id }),
			Op::SettleContribution { pid, who, id } => RuntimeCall::Funding(F::settle_contribution {
				project_id: pid,
				contributor: account(who),
				contribution_id: id,
			}),
			Op::MarkSettled { pid } => RuntimeCall::Funding(F::mark_project_as_settled { project_id: pid }),
			Op::StartOffchain { jwt, pid } =>
				RuntimeCall::Funding(F::start_offchain_migration { jwt: jwt.token(), project_id: pid }),
			Op::ConfirmOffchain { pid, who } =>
				RuntimeCall::Funding(F::confirm_offchain_migration { project_id: pid, participant: account(who) }),
			Op::StartPallet { jwt, pid, para } => RuntimeCall::Funding(F::start_pallet_migration {
				jwt: jwt.token(),
				project_id: pid,
				para_id: para.into(),
			}),
			Op::Readiness { jwt, pid } =>
				RuntimeCall::Funding(F::start_pallet_migration_readiness_check { jwt: jwt.token(), project_id: pid }),
			Op::SendMigration { pid, who } =>
				RuntimeCall::Funding(F::send_pallet_migration_for { project_id: pid, participant: account(who) }),
			Op::MarkFinished { pid } =>
				RuntimeCall::Funding(F::mark_project_ct_migration_as_finished { project_id: pid }),
			Op::FakeAnswer { query, confirm } => {
				let response = xcm::v4::Response::DispatchResult(xcm::v4::MaybeErrorCode::Success);
				if confirm {
					RuntimeCall::Funding(F::confirm_pallet_migrations { query_id: query, response })
				} else {
					RuntimeCall::Funding(F::pallet_migration_readiness_response { query_id: query, response })
				}
			},
			Op::Vest => RuntimeCall::LinearRelease(L::vest { reason: PART }),
			Op::VestOther { who } => RuntimeCall::LinearRelease(L::vest_other { target: account(who), reason: PART }),
			Op::VestAll => RuntimeCall::LinearRelease(L::vest_all {}),
			Op::VestAllOther { who } => RuntimeCall::LinearRelease(L::vest_all_other { target: account(who) }),
			Op::Merge { i, j } =>
				RuntimeCall::LinearRelease(L::merge_schedules { schedule1_index: i, schedule2_index: j, reason: PART }),
			Op::VestedTransfer { to, locked, per_block, start } => RuntimeCall::LinearRelease(L::vested_transfer {
				target: account(to),
				schedule: pallet_linear_release::VestingInfo::new(locked, per_block, start),
				reason: PART,
			}),
			Op::BondsBack { pid, eval } =>
				RuntimeCall::ProxyBonding(pallet_proxy_bonding::Call::transfer_bonds_back_to_treasury {
					derivation_path: pid,
					hold_reason: if eval { EVAL } else { PART },
				}),
			Op::FeesOut { pid, asset } => RuntimeCall::ProxyBonding(pallet_proxy_bonding::Call::transfer_fees_to_recipient {
				derivation_path: pid,
				hold_reason: PART,
				fee_asset: fa_id(asset),
			}),
			Op::Dispense { jwt } => RuntimeCall::Dispenser(pallet_dispenser::Call::dispense { jwt: jwt.token() }),
			Op::SetDispense { amount } =>
				RuntimeCall::Dispenser(pallet_dispenser::Call::set_dispense_amount { amount }),
			Op::Transfer { to, asset: 3, amount } => RuntimeCall::Balances(pallet_balances::Call::transfer_keep_alive {
				dest: account(to),
				value: amount,
			}),
			Op::Transfer { .. } => return None,
		})
	}
	pub fn name(&self) -> &'static str {
		match self {
			Op::Create { .. } => "create",
			Op::Edit { .. } => "edit",
			Op::Remove { .. } => "remove",
			Op::StartEvaluation { .. } => "start_evaluation",
			Op::Evaluate { .. } => "evaluate",
			Op::EndEvaluation { .. } => "end_evaluation",
			Op::Bid { .. } => "bid",
			Op::EndAuction { .. } => "end_auction",
			Op::Contribute { .. } => "contribute",
			Op::EndFunding { .. } => "end_funding",
			Op::StartSettlement { .. } => "start_settlement",
			Op::SettleEvaluation { .. } => "settle_evaluation",
			Op::SettleBid { .. } => "settle_bid",
			Op::SettleContribution { .. } => "settle_contribution",
			Op::MarkSettled { .. } => "mark_settled",
			Op::StartOffchain { .. } => "start_offchain",
			Op::ConfirmOffchain { .. } => "confirm_offchain",
			Op::StartPallet { .. } => "start_pallet",
			Op::Readiness { .. } => "readiness",
			Op::SendMigration { .. } => "send_migration",
			Op::MarkFinished { .. } => "mark_finished",
			Op::FakeAnswer { .. } => "fake_answer",
			Op::Vest => "vest",
			Op::VestOther { .. } => "vest_other",
			Op::VestAll => "vest_all",
			Op::VestAllOther { .. } => "vest_all_other",
			Op::Merge { .. } => "merge",
			Op::VestedTransfer { .. } => "vested_transfer",
			Op::BondsBack { .. } => "bonds_back",
			Op::FeesOut { .. } => "fees_out",
			Op::Dispense { .. } => "dispense",
			Op::SetDispense { .. } => "set_dispense",
			Op::Transfer { .. } => "transfer",
		}
	}
}

//! The smallest runtime around the real offchain worker: the system pallet for nonces, and the call that feeds prices.
use frame_support::{construct_runtime, derive_impl, traits::Contains, traits::Get};
use pallet_oracle_ocw::types::AssetName;
use parity_scale_codec::{Decode, Encode};
use sp_runtime::{
	traits::{Convert, Extrinsic as ExtrinsicT, IdentifyAccount, IdentityLookup, Verify},
	AccountId32, FixedU128, MultiSignature,
};
use std::cell::RefCell;

type Block = frame_system::mocking::MockBlockU32<Test>;
pub type Signature = MultiSignature;
pub type AccountPublic = <Signature as Verify>::Signer;
pub type AccountId = <AccountPublic as IdentifyAccount>::AccountId;

/// What the runtime of the block says: set in every thread that executes it.
#[derive(Clone, Default)]
pub struct Env {
	pub interval: u32,
	pub window: u32,
	pub members: Vec<AccountId32>,
}
thread_local! {
	pub static ENV: RefCell<Env> = RefCell::default();
}

#[derive_impl(frame_system::config_preludes::TestDefaultConfig as frame_system::DefaultConfig)]
impl frame_system::Config for Test {
	type AccountId = AccountId;
	type Block = Block;
	type Lookup = IdentityLookup<AccountId>;
	type Nonce = u32;
}

pub struct MaxFeedValues;
impl Get<u32> for MaxFeedValues {
	fn get() -> u32 {
		4
	}
}
impl orml_oracle::Config for Test {
	type MaxFeedValues = MaxFeedValues;
	type OracleKey = u32;
	type OracleValue = FixedU128;
}

pub struct Keys;
impl Convert<(AssetName, FixedU128), (u32, FixedU128)> for Keys {
	fn convert((asset, price): (AssetName, FixedU128)) -> (u32, FixedU128) {
		(
			match asset {
				AssetName::DOT => 10,
				AssetName::USDC => 1337,
				AssetName::USDT => 1984,
				AssetName::PLMC => 3344,
			},
			price,
		)
	}
}
pub struct Interval;
impl Get<u32> for Interval {
	fn get() -> u32 {
		ENV.with(|e| e.borrow().interval)
	}
}
pub struct Window;
impl Get<u32> for Window {
	fn get() -> u32 {
		ENV.with(|e| e.borrow().window)
	}
}
pub struct Members;
impl Contains<AccountId> for Members {
	fn contains(a: &AccountId) -> bool {
		ENV.with(|e| e.borrow().members.contains(a))
	}
}
impl pallet_oracle_ocw::Config for Test {
	type AppCrypto = pallet_oracle_ocw::crypto::Polimec;
	type ConvertAssetPricePair = Keys;
	type FetchInterval = Interval;
	type FetchWindow = Window;
	type Members = Members;
	type RuntimeEvent = RuntimeEvent;
}

/// A transaction with its signer, its nonce and the signature over call and nonce.
#[derive(Clone, Encode, Decode)]
pub struct Xt {
	pub call: RuntimeCall,
	pub sig: Option<(AccountId, u32, MultiSignature)>,
}
impl ExtrinsicT for Xt {
	type Call = RuntimeCall;
	type SignaturePayload = (AccountId, u32, MultiSignature);
	fn is_signed(&self) -> Option<bool> {
		Some(self.sig.is_some())
	}
	fn new(call: RuntimeCall, sig: Option<Self::SignaturePayload>) -> Option<Self> {
		Some(Xt { call, sig })
	}
}

impl frame_system::offchain::SigningTypes for Test {
	type Public = AccountPublic;
	type Signature = Signature;
}
impl<C> frame_system::offchain::SendTransactionTypes<C> for Test
where
	RuntimeCall: From<C>,
{
	type Extrinsic = Xt;
	type OverarchingCall = RuntimeCall;
}
impl<L> frame_system::offchain::CreateSignedTransaction<L> for Test
where
	RuntimeCall: From<L>,
{
	fn create_transaction<C: frame_system::offchain::AppCrypto<Self::Public, Self::Signature>>(
		call: RuntimeCall,
		public: AccountPublic,
		account: AccountId,
		nonce: u32,
	) -> Option<(RuntimeCall, (AccountId, u32, MultiSignature))> {
		let sig = (&call, nonce).using_encoded(|p| C::sign(p, public))?;
		Some((call, (account, nonce, sig)))
	}
}

construct_runtime!(
	pub enum Test {
		System: frame_system,
		Oracle: orml_oracle,
		OracleOcw: pallet_oracle_ocw::{Pallet, Event<T>},
	}
);

//! The one trait of orml-traits the runtime's price provider uses.
#![cfg_attr(not(feature = "std"), no_std)]
pub trait DataProvider<Key, Value> {
	fn get(key: &Key) -> Option<Value>;
}

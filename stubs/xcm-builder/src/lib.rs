#![cfg_attr(not(feature = "std"), no_std)]
extern crate alloc;
use alloc::vec::Vec;
pub trait InspectMessageQueues {
	fn get_messages() -> Vec<(xcm::VersionedLocation, Vec<xcm::opaque::VersionedXcm>)>;
}

//! The part of serde-json-core the offchain worker uses, on top of serde_json: the first JSON value of the text.
use serde::Deserialize;

pub mod de {
	pub use serde_json::Error;
}

pub fn from_str<'a, T: Deserialize<'a>>(s: &'a str) -> Result<(T, usize), de::Error> {
	let mut d = serde_json::Deserializer::from_str(s);
	let v = T::deserialize(&mut d)?;
	Ok((v, s.len()))
}

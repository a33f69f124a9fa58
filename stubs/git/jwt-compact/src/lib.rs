//! Stand-in for `jwt-compact` (Polimec fork): compact JWTs `header.claims.signature`, base64url without padding,
//! JSON header and claims, EdDSA over Ed25519 (the real curve, through `ed25519-dalek`).
use chrono::{DateTime, Utc};
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use serde::{de::DeserializeOwned, Deserialize, Serialize};

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn b64(data: &[u8]) -> String {
	let mut out = String::new();
	for c in data.chunks(3) {
		let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
		for i in 0..=c.len() { out.push(B64[(n >> (18 - 6 * i)) as usize & 63] as char) }
	}
	out
}
fn unb64(s: &str) -> Option<Vec<u8>> {
	let mut out = Vec::new();
	let (mut acc, mut bits) = (0u32, 0u32);
	for ch in s.bytes() {
		let v = B64.iter().position(|b| *b == ch)? as u32;
		acc = (acc << 6 | v) & 0xffffff;
		bits += 6;
		if bits >= 8 { bits -= 8; out.push((acc >> bits) as u8) }
	}
	Some(out)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ValidationError { AlgorithmMismatch, InvalidSignatureLen, MalformedSignature, InvalidSignature, MalformedClaims }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ParseError { InvalidTokenStructure, InvalidBase64Encoding, MalformedHeader }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CreationError { Claims }

#[derive(Debug, Clone, Default, Serialize, Deserialize, PartialEq, Eq)]
pub struct Empty {}
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Header;
impl Header { pub fn empty() -> Self { Header } }

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Claims<T> {
	#[serde(rename = "exp", default, skip_serializing_if = "Option::is_none", with = "secs")]
	pub expiration: Option<DateTime<Utc>>,
	#[serde(rename = "nbf", default, skip_serializing_if = "Option::is_none", with = "secs")]
	pub not_before: Option<DateTime<Utc>>,
	#[serde(rename = "iat", default, skip_serializing_if = "Option::is_none", with = "secs")]
	pub issued_at: Option<DateTime<Utc>>,
	#[serde(flatten)]
	pub custom: T,
}
mod secs {
	use super::*;
	use serde::{Deserializer, Serializer};
	pub fn serialize<S: Serializer>(t: &Option<DateTime<Utc>>, s: S) -> Result<S::Ok, S::Error> {
		match t { Some(t) => s.serialize_i64(t.timestamp()), None => s.serialize_none() }
	}
	pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Option<DateTime<Utc>>, D::Error> {
		let v = Option::<i64>::deserialize(d)?;
		Ok(match v { Some(v) => Some(DateTime::from_timestamp(v, 0).ok_or(serde::de::Error::custom("timestamp"))?), None => None })
	}
}
impl<T> Claims<T> {
	pub fn new(custom: T) -> Self { Claims { expiration: None, not_before: None, issued_at: None, custom } }
}

#[derive(Debug, Clone)]
pub struct Token<T> { claims: Claims<T> }
impl<T> Token<T> { pub fn claims(&self) -> &Claims<T> { &self.claims } }

#[derive(Debug, Clone, PartialEq, Eq, Encode, Decode, TypeInfo)]
pub struct UntrustedToken { signed: Vec<u8>, algorithm: Vec<u8>, claims: Vec<u8>, signature: Vec<u8> }
impl UntrustedToken {
	pub fn new<S: AsRef<str> + ?Sized>(s: &S) -> Result<Self, ParseError> {
		let s = s.as_ref();
		let parts: Vec<&str> = s.split('.').collect();
		let [h, c, g] = parts.as_slice() else { return Err(ParseError::InvalidTokenStructure) };
		let head = unb64(h).ok_or(ParseError::InvalidBase64Encoding)?;
		let claims = unb64(c).ok_or(ParseError::InvalidBase64Encoding)?;
		let signature = unb64(g).ok_or(ParseError::InvalidBase64Encoding)?;
		let head: serde_json::Value = serde_json::from_slice(&head).map_err(|_| ParseError::MalformedHeader)?;
		let algorithm = head.get("alg").and_then(|a| a.as_str()).ok_or(ParseError::MalformedHeader)?.as_bytes().to_vec();
		Ok(UntrustedToken { signed: s[..h.len() + 1 + c.len()].as_bytes().to_vec(), algorithm, claims, signature })
	}
}

pub mod alg {
	#[derive(Debug, Clone, Copy, Default)]
	pub struct Ed25519;
	#[derive(Debug, Clone)]
	pub struct VerifyingKey(pub(crate) ed25519_dalek::VerifyingKey);
	#[derive(Debug, Clone)]
	pub struct SigningKey(pub(crate) ed25519_dalek::SigningKey);
	#[derive(Debug, Clone, Copy)]
	pub struct KeyError;
	impl VerifyingKey {
		pub fn from_slice(raw: &[u8]) -> Result<Self, KeyError> {
			let raw: [u8; 32] = raw.try_into().map_err(|_| KeyError)?;
			ed25519_dalek::VerifyingKey::from_bytes(&raw).map(VerifyingKey).map_err(|_| KeyError)
		}
	}
	impl SigningKey {
		pub fn from_slice(raw: &[u8]) -> Result<Self, KeyError> {
			let raw: [u8; 32] = raw.try_into().map_err(|_| KeyError)?;
			Ok(SigningKey(ed25519_dalek::SigningKey::from_bytes(&raw)))
		}
		pub fn verifying_key(&self) -> [u8; 32] { self.0.verifying_key().to_bytes() }
	}
}

pub trait Algorithm {
	type SigningKey;
	type VerifyingKey;
	fn sign(&self, key: &Self::SigningKey, message: &[u8]) -> Vec<u8>;
	fn verify(&self, key: &Self::VerifyingKey, message: &[u8], signature: &[u8]) -> Result<(), ValidationError>;
}
impl Algorithm for alg::Ed25519 {
	type SigningKey = alg::SigningKey;
	type VerifyingKey = alg::VerifyingKey;
	fn sign(&self, key: &alg::SigningKey, message: &[u8]) -> Vec<u8> {
		use ed25519_dalek::Signer;
		key.0.sign(message).to_bytes().to_vec()
	}
	fn verify(&self, key: &alg::VerifyingKey, message: &[u8], signature: &[u8]) -> Result<(), ValidationError> {
		use ed25519_dalek::Verifier;
		let sig = ed25519_dalek::Signature::from_slice(signature).map_err(|_| ValidationError::InvalidSignatureLen)?;
		key.0.verify(message, &sig).map_err(|_| ValidationError::InvalidSignature)
	}
}

pub struct Validator<'a, A: Algorithm, T> { alg: &'a A, key: &'a A::VerifyingKey, _p: std::marker::PhantomData<T> }
impl<'a, A: Algorithm, T: DeserializeOwned> Validator<'a, A, T> {
	pub fn validate(&self, token: &UntrustedToken) -> Result<Token<T>, ValidationError> {
		if token.algorithm != b"EdDSA" { return Err(ValidationError::AlgorithmMismatch) }
		self.alg.verify(self.key, &token.signed, &token.signature)?;
		let claims = serde_json::from_slice(&token.claims).map_err(|_| ValidationError::MalformedClaims)?;
		Ok(Token { claims })
	}
}
pub trait AlgorithmExt: Algorithm + Sized {
	fn token<T: Serialize>(&self, header: &Header, claims: &Claims<T>, key: &Self::SigningKey) -> Result<String, CreationError>;
	fn validator<'a, T: DeserializeOwned>(&'a self, key: &'a Self::VerifyingKey) -> Validator<'a, Self, T>;
}
impl<A: Algorithm> AlgorithmExt for A {
	fn token<T: Serialize>(&self, _header: &Header, claims: &Claims<T>, key: &Self::SigningKey) -> Result<String, CreationError> {
		let mut s = b64(br#"{"alg":"EdDSA"}"#);
		s.push('.');
		s.push_str(&b64(&serde_json::to_vec(claims).map_err(|_| CreationError::Claims)?));
		let sig = self.sign(key, s.as_bytes());
		s.push('.');
		s.push_str(&b64(&sig));
		Ok(s)
	}
	fn validator<'a, T: DeserializeOwned>(&'a self, key: &'a Self::VerifyingKey) -> Validator<'a, Self, T> {
		Validator { alg: self, key, _p: Default::default() }
	}
}

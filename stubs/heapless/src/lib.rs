//! The part of heapless the offchain worker uses: collections of bounded capacity which refuse to deserialize
//! more than they can hold.
use serde::de::{Deserialize, Deserializer, Error, MapAccess, SeqAccess, Visitor};
use std::{fmt, marker::PhantomData};

#[derive(Clone, Debug, Default)]
pub struct Vec<T, const N: usize>(std::vec::Vec<T>);
impl<T, const N: usize> Vec<T, N> {
	pub fn new() -> Self {
		Vec(std::vec::Vec::new())
	}
	pub fn push(&mut self, t: T) -> Result<(), T> {
		if self.0.len() >= N {
			return Err(t);
		}
		self.0.push(t);
		Ok(())
	}
	pub fn capacity(&self) -> usize {
		N
	}
}
impl<T, const N: usize> std::ops::Deref for Vec<T, N> {
	type Target = [T];
	fn deref(&self) -> &[T] {
		&self.0
	}
}
impl<T, const N: usize> IntoIterator for Vec<T, N> {
	type Item = T;
	type IntoIter = std::vec::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, const N: usize> IntoIterator for &'a Vec<T, N> {
	type Item = &'a T;
	type IntoIter = std::slice::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<'de, T: Deserialize<'de>, const N: usize> Deserialize<'de> for Vec<T, N> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		struct V<T, const N: usize>(PhantomData<T>);
		impl<'de, T: Deserialize<'de>, const N: usize> Visitor<'de> for V<T, N> {
			type Value = Vec<T, N>;
			fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
				f.write_str("a sequence")
			}
			fn visit_seq<A: SeqAccess<'de>>(self, mut s: A) -> Result<Self::Value, A::Error> {
				let mut v = Vec::new();
				while let Some(x) = s.next_element()? {
					if v.push(x).is_err() {
						return Err(A::Error::invalid_length(N + 1, &self));
					}
				}
				Ok(v)
			}
		}
		d.deserialize_seq(V(PhantomData))
	}
}

#[derive(Clone, Debug)]
pub struct LinearMap<K, V, const N: usize>(std::vec::Vec<(K, V)>);
impl<K: Eq, V, const N: usize> LinearMap<K, V, N> {
	pub fn new() -> Self {
		LinearMap(std::vec::Vec::new())
	}
	pub fn insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if let Some(e) = self.0.iter_mut().find(|e| e.0 == k) {
			return Ok(Some(std::mem::replace(&mut e.1, v)));
		}
		if self.0.len() >= N {
			return Err((k, v));
		}
		self.0.push((k, v));
		Ok(None)
	}
	pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.iter().find(|e| e.0.borrow() == k).map(|e| &e.1)
	}
	pub fn contains_key(&self, k: &K) -> bool {
		self.0.iter().any(|e| e.0 == *k)
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
	pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
		self.0.iter().map(|e| (&e.0, &e.1))
	}
}
impl<'de, K: Eq + Deserialize<'de>, V: Deserialize<'de>, const N: usize> Deserialize<'de> for LinearMap<K, V, N> {
	fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		struct Vis<K, V, const N: usize>(PhantomData<(K, V)>);
		impl<'de, K: Eq + Deserialize<'de>, V: Deserialize<'de>, const N: usize> Visitor<'de> for Vis<K, V, N> {
			type Value = LinearMap<K, V, N>;
			fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
				f.write_str("a map")
			}
			fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Self::Value, A::Error> {
				let mut v = LinearMap::new();
				while let Some((k, x)) = m.next_entry()? {
					if v.insert(k, x).is_err() {
						return Err(A::Error::invalid_length(N + 1, &self));
					}
				}
				Ok(v)
			}
		}
		d.deserialize_map(Vis(PhantomData))
	}
}

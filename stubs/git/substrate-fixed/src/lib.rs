//! The part of substrate-fixed that the inflation schedule uses: I64F64 with its arithmetic (which panics on
//! overflow and on division by zero, like the original) and `pow`. The power is computed in double precision here;
//! the original's series has about the same number of exact digits.
use std::ops::{Add, Div, Mul, Sub};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct I64F64(i128);

pub mod types {
	pub use super::{I64F64, U100F28};
}

pub trait Num: Copy {
	fn to_i128(self) -> i128;
	fn of_i128(v: i128) -> Option<Self>;
}
macro_rules! num {
	($($t:ty),*) => {$(impl Num for $t {
		fn to_i128(self) -> i128 { self as i128 }
		fn of_i128(v: i128) -> Option<Self> { <$t>::try_from(v).ok() }
	})*};
}
num!(u8, u16, u32, u64, i8, i16, i32, i64);

impl I64F64 {
	pub fn from_num<N: Num>(n: N) -> Self {
		let v = n.to_i128();
		assert!(v >= i64::MIN as i128 && v <= i64::MAX as i128, "overflow");
		I64F64(v << 64)
	}
	pub fn to_num<N: Num>(self) -> N {
		N::of_i128(self.0 >> 64).expect("overflow")
	}
	pub fn ceil(self) -> Self {
		let m = (1i128 << 64) - 1;
		I64F64((self.0.checked_add(m).expect("overflow")) & !m)
	}
	fn f(self) -> f64 {
		self.0 as f64 / 18446744073709551616.0
	}
}
impl Add for I64F64 {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		I64F64(self.0.checked_add(o.0).expect("overflow"))
	}
}
impl Sub for I64F64 {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		I64F64(self.0.checked_sub(o.0).expect("overflow"))
	}
}
impl Mul for I64F64 {
	type Output = Self;
	fn mul(self, o: Self) -> Self {
		// Both factors are split so that the product fits.
		let neg = (self.0 < 0) != (o.0 < 0);
		let (a, b) = (self.0.unsigned_abs(), o.0.unsigned_abs());
		let (ah, al, bh, bl) = (a >> 64, a & (u64::MAX as u128), b >> 64, b & (u64::MAX as u128));
		let hh = ah.checked_mul(bh).expect("overflow");
		assert!(hh < 1 << 63, "overflow");
		let r = (hh << 64)
			.checked_add(ah * bl)
			.and_then(|x| x.checked_add(al * bh))
			.and_then(|x| x.checked_add((al * bl) >> 64))
			.expect("overflow");
		let r = i128::try_from(r).expect("overflow");
		I64F64(if neg { -r } else { r })
	}
}
impl Div for I64F64 {
	type Output = Self;
	fn div(self, o: Self) -> Self {
		assert!(o.0 != 0, "attempt to divide by zero");
		let neg = (self.0 < 0) != (o.0 < 0);
		let (mut n, d) = (self.0.unsigned_abs(), o.0.unsigned_abs());
		// Long division: 64 more bits of quotient below the integer part.
		let mut q = n / d;
		n %= d;
		for _ in 0..64 {
			assert!(q >> 127 == 0, "overflow");
			q <<= 1;
			let carry = n >> 127 != 0;
			n <<= 1;
			if carry || n >= d {
				n = n.wrapping_sub(d);
				q |= 1;
			}
		}
		let q = i128::try_from(q).expect("overflow");
		I64F64(if neg { -q } else { q })
	}
}

pub mod transcendental {
	use super::I64F64;
	pub fn pow<S: Into<I64F64>, D: Into<I64F64> + From<I64F64>>(x: S, e: D) -> Result<D, ()> {
		inner(x.into(), e.into()).map(Into::into)
	}
	fn inner(x: I64F64, e: I64F64) -> Result<I64F64, ()> {
		if x.0 < 0 {
			return Err(());
		}
		// (1 + y)^e - 1 through ln_1p and exp_m1 keeps the digits of small results.
		let y = (x.0 - (1i128 << 64)) as f64 / 18446744073709551616.0;
		let r = (e.f() * y.ln_1p()).exp_m1();
		if !r.is_finite() || r.abs() > 9e18 {
			return Err(());
		}
		Ok(I64F64((1i128 << 64) + (r * 18446744073709551616.0) as i128))
	}
}

/// Unsigned, 100 bits before and 28 bits behind the binary point: what the price oracle parses numbers into.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct U100F28(u128);
const F28: u32 = 28;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ParseFixedError;
impl std::fmt::Display for ParseFixedError {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.write_str("not a fixed-point number")
	}
}

impl U100F28 {
	pub fn checked_from_num(n: u128) -> Option<Self> {
		(n >> 100 == 0).then(|| U100F28(n << F28))
	}
	pub fn from_num(n: u128) -> Self {
		Self::checked_from_num(n).expect("overflow")
	}
	pub fn to_num<N: From<u128>>(self) -> N {
		N::from(self.0 >> F28)
	}
	pub fn checked_mul(self, o: Self) -> Option<Self> {
		let m = (1u128 << 64) - 1;
		let (a, b, c, d) = (self.0 >> 64, self.0 & m, o.0 >> 64, o.0 & m);
		// 256-bit product (hi, lo)
		let lo = b * d;
		let (m1, m2) = (a * d, b * c);
		let (mid, carry) = m1.overflowing_add(m2);
		let mut hi = a * c + (mid >> 64) + if carry { 1u128 << 64 } else { 0 };
		let (lo, carry) = lo.overflowing_add(mid << 64);
		hi += carry as u128;
		if hi >> F28 != 0 {
			return None;
		}
		Some(U100F28(hi << (128 - F28) | lo >> F28))
	}
	pub fn saturating_mul(self, o: Self) -> Self {
		self.checked_mul(o).unwrap_or(U100F28(u128::MAX))
	}
	pub fn checked_add(self, o: Self) -> Option<Self> {
		self.0.checked_add(o.0).map(U100F28)
	}
	pub fn checked_sub(self, o: Self) -> Option<Self> {
		self.0.checked_sub(o.0).map(U100F28)
	}
}
impl Mul for U100F28 {
	type Output = Self;
	fn mul(self, o: Self) -> Self {
		self.checked_mul(o).expect("overflow")
	}
}
impl Add for U100F28 {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		self.checked_add(o).expect("overflow")
	}
}
impl std::str::FromStr for U100F28 {
	type Err = ParseFixedError;
	fn from_str(s: &str) -> Result<Self, ParseFixedError> {
		let (i, f) = match s.split_once('.') {
			Some((i, f)) => (i, f),
			None => (s, ""),
		};
		let i = i.strip_prefix('+').unwrap_or(i);
		if (i.is_empty() && f.is_empty()) || !i.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) {
			return Err(ParseFixedError);
		}
		let mut n: u128 = 0;
		for c in i.bytes() {
			n = n.checked_mul(10).and_then(|n| n.checked_add((c - b'0') as u128)).ok_or(ParseFixedError)?;
		}
		if n >> 100 != 0 {
			return Err(ParseFixedError);
		}
		// The nearest multiple of 2^-28.
		let (mut num, mut den) = (0u128, 1u128);
		for c in f.bytes().take(27) {
			num = num * 10 + (c - b'0') as u128;
			den *= 10;
		}
		let frac = ((num << F28) + den / 2) / den;
		(n << F28).checked_add(frac).map(U100F28).ok_or(ParseFixedError)
	}
}

pub mod traits {
	use super::{U100F28, F28};
	pub trait FromFloat: Sized {
		fn from_float(v: f64) -> Option<Self>;
	}
	impl FromFloat for U100F28 {
		fn from_float(v: f64) -> Option<Self> {
			if !v.is_finite() || v < 0.0 {
				return None;
			}
			let r = (v * (1u64 << F28) as f64).round_ties_even();
			(r < 2f64.powi(128)).then_some(U100F28(r as u128))
		}
	}
	pub trait ToFixed: Sized {
		fn checked_to_fixed<F: FromFloat>(self) -> Option<F>;
	}
	impl ToFixed for f64 {
		fn checked_to_fixed<F: FromFloat>(self) -> Option<F> {
			F::from_float(self)
		}
	}
}

//! The only source of randomness of a simulation run: xoshiro256** seeded by splitmix64.
#[derive(Clone)]
pub struct Rng {
	s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
	*x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
	let mut z = *x;
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut x = seed;
		Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
	}
	pub fn next(&mut self) -> u64 {
		let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.s[1] << 17;
		self.s[2] ^= self.s[0];
		self.s[3] ^= self.s[1];
		self.s[1] ^= self.s[2];
		self.s[0] ^= self.s[3];
		self.s[2] ^= t;
		self.s[3] = self.s[3].rotate_left(45);
		r
	}
	/// Uniform in `0..n`; 0 if n == 0.
	pub fn below(&mut self, n: u64) -> u64 {
		if n == 0 {
			return 0;
		}
		((self.next() as u128 * n as u128) >> 64) as u64
	}
	pub fn below128(&mut self, n: u128) -> u128 {
		if n == 0 {
			return 0;
		}
		if n <= u64::MAX as u128 {
			return self.below(n as u64) as u128;
		}
		let v = ((self.next() as u128) << 64) | self.next() as u128;
		v % n
	}
	/// Inclusive range.
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}
	pub fn chance(&mut self, p: f64) -> bool {
		((self.next() >> 11) as f64 / (1u64 << 53) as f64) < p
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len() as u64) as usize]
	}
	pub fn pick_opt<'a, T>(&mut self, v: &'a [T]) -> Option<&'a T> {
		if v.is_empty() {
			None
		} else {
			Some(self.pick(v))
		}
	}
	/// Index drawn with the given weights.
	pub fn weighted(&mut self, w: &[u32]) -> usize {
		let tot: u64 = w.iter().map(|x| *x as u64).sum();
		let mut r = self.below(tot.max(1));
		for (i, x) in w.iter().enumerate() {
			if r < *x as u64 {
				return i;
			}
			r -= *x as u64;
		}
		0
	}
	pub fn shuffle<T>(&mut self, v: &mut [T]) {
		for i in (1..v.len()).rev() {
			let j = self.below(i as u64 + 1) as usize;
			v.swap(i, j);
		}
	}
}

/// FNV-1a style running hash used for transcripts and abstract states.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl Default for H {
	fn default() -> Self {
		H(0xcbf2_9ce4_8422_2325)
	}
}
impl H {
	pub fn bytes(&mut self, b: &[u8]) {
		for x in b {
			self.0 ^= *x as u64;
			self.0 = self.0.wrapping_mul(0x0000_0100_0000_01B3);
		}
	}
	pub fn u(&mut self, v: u64) {
		self.bytes(&v.to_le_bytes());
	}
	pub fn s(&mut self, v: &str) {
		self.bytes(v.as_bytes());
		self.bytes(&[0xff]);
	}
}

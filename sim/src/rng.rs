//! The one source of choice: SplitMix64 seeding xoshiro256**.
#[derive(Clone)]
pub struct Rng {
	s: [u64; 4],
}
pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}
impl Rng {
	pub fn new(seed: u64) -> Rng {
		let mut s = [0u64; 4];
		let mut x = seed;
		for v in s.iter_mut() {
			x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
			*v = mix(x);
		}
		Rng { s }
	}
	pub fn derive(seed: u64, label: &str, i: u64) -> Rng {
		let mut h = seed ^ 0x51_7c_c1_b7_27_22_0a_95;
		for b in label.bytes() {
			h = mix(h ^ b as u64);
		}
		Rng::new(mix(h ^ mix(i)))
	}
	pub fn next(&mut self) -> u64 {
		let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.s[1] << 17;
		self.s[2] ^= self.s[0];
		self.s[3] ^= self.s[1];
		self.s[1] ^= self.s[2];
		self.s[0] ^= self.s[3];
		self.s[2] ^= t;
		self.s[3] = self.s[3].rotate_left(45);
		r
	}
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 {
			0
		} else {
			(self.next() % n as u64) as usize
		}
	}
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	/// true once in `n`
	pub fn one_in(&mut self, n: usize) -> bool {
		self.below(n) == 0
	}
	pub fn pct(&mut self, p: usize) -> bool {
		self.below(100) < p
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.below(v.len())]
	}
	/// geometric gap with mean `mean`
	pub fn gap(&mut self, mean: u64) -> u64 {
		let u = ((self.next() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
		let g = (-u.ln() * mean as f64) as u64;
		g + 1
	}
	/// weighted choice
	pub fn weighted(&mut self, w: &[u32]) -> usize {
		let total: u64 = w.iter().map(|x| *x as u64).sum();
		if total == 0 {
			return 0;
		}
		let mut r = self.next() % total;
		for (i, x) in w.iter().enumerate() {
			if r < *x as u64 {
				return i;
			}
			r -= *x as u64;
		}
		w.len() - 1
	}
}

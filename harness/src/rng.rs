//! Deterministic PRNG for workload generation (splitmix64 / xoshiro256**), independent of the crate under test.
use num_bigint::{BigInt, BigUint, Sign};
use num_rational::BigRational;
use num_traits::{One, Zero};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for v in &mut s {
            z = mix(z);
            *v = z;
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        (((self.u64() as u128) * (n as u128)) >> 64) as u64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi as i128 - lo as i128 + 1) as u64) as i64)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// skewed small signed integer with |v| <= max; favours 0, +-1 and the extremes
    pub fn small(&mut self, max: i64) -> i64 {
        match self.below(8) {
            0 => 0,
            1 => {
                if self.chance(1, 2) {
                    1.min(max)
                } else {
                    -(1.min(max))
                }
            }
            2 => {
                if self.chance(1, 2) {
                    max
                } else {
                    -max
                }
            }
            3 => self.int(-max.min(3), max.min(3)),
            _ => self.int(-max, max),
        }
    }
    pub fn small_nz(&mut self, max: i64) -> i64 {
        loop {
            let v = self.small(max);
            if v != 0 {
                return v;
            }
        }
    }
    pub fn biguint_bits(&mut self, bits: usize) -> BigUint {
        if bits == 0 {
            return BigUint::zero();
        }
        let words = (bits + 31) / 32;
        let mut d: Vec<u32> = (0..words).map(|_| self.u64() as u32).collect();
        let top = bits - (words - 1) * 32;
        let last = d.last_mut().unwrap();
        if top < 32 {
            *last &= (1u32 << top) - 1;
        }
        BigUint::new(d)
    }
    /// signed integer of random bit length up to `bits`, with special shapes (0, +-1, powers of two, 2^k+-1)
    pub fn big(&mut self, bits: usize) -> BigInt {
        let b = self.us(0, bits);
        let m: BigUint = match self.below(8) {
            0 => BigUint::one() << b,
            1 => (BigUint::one() << b) - BigUint::one(),
            2 => (BigUint::one() << b) + BigUint::one(),
            3 => BigUint::from(self.below(4)),
            _ => self.biguint_bits(b),
        };
        let s = if m.is_zero() {
            Sign::NoSign
        } else if self.chance(1, 2) {
            Sign::Plus
        } else {
            Sign::Minus
        };
        BigInt::from_biguint(s, m)
    }
    pub fn big_nz(&mut self, bits: usize) -> BigInt {
        loop {
            let v = self.big(bits);
            if !v.is_zero() {
                return v;
            }
        }
    }
    pub fn ratio(&mut self, nb: usize, db: usize) -> BigRational {
        let n = self.big(nb);
        let d = self.big_nz(db);
        BigRational::new(n, d)
    }
    pub fn ratio_small(&mut self, n: i64, d: i64) -> BigRational {
        let a = self.small(n);
        let b = self.int(1, d);
        BigRational::new(a.into(), b.into())
    }
    pub fn ratio_small_nz(&mut self, n: i64, d: i64) -> BigRational {
        let a = self.small_nz(n);
        let b = self.int(1, d);
        BigRational::new(a.into(), b.into())
    }
}

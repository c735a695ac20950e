//! Coefficient rings of Polynomial<T>, each with an exact reference model (rational numbers, reduced by `norm`).
use crate::poly::{self, ZP};
use crate::rng::Rng;
use algebraics::{
    mod_int::{KnownOddPrime, KnownPrime, Mod13, Mod2, Mod3, Mod5, Mod7, ModularInteger},
    polynomial::{Polynomial, PolynomialCoefficient},
};
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::{BigRational as Q, Ratio};
use num_traits::{One, Signed, ToPrimitive, Zero};

pub type QP = Vec<Q>;

pub trait Ring {
    type T: PolynomialCoefficient + std::fmt::Display;
    const NAME: &'static str;
    const FIELD: bool;
    fn make(&self, q: &Q) -> Self::T;
    fn read(&self, t: &Self::T) -> Q;
    fn norm(&self, q: Q) -> Q {
        q
    }
    fn gen(&self, r: &mut Rng) -> Q;
    fn gen_nz(&self, r: &mut Rng) -> Q {
        for _ in 0..60 {
            let v = self.gen(r);
            if !v.is_zero() {
                return v;
            }
        }
        Q::one()
    }
    fn max_deg(&self) -> usize;
    /// largest magnitude the coefficient's integer type may hold
    fn limit(&self) -> Option<BigInt> {
        None
    }
    fn inv(&self, q: &Q) -> Option<Q> {
        if q.is_zero() || !Self::FIELD {
            None
        } else {
            Some(q.recip())
        }
    }
    /// is divisibility of coefficients as rationals the same as in the ring?
    fn faithful(&self) -> bool {
        true
    }
    fn modulus(&self) -> Option<u64> {
        None
    }

    // ---------------------------------------------------------------- polynomials
    fn nrm(&self, p: QP) -> QP {
        poly::trim(p.into_iter().map(|v| self.norm(v)).collect())
    }
    fn p(&self, m: &[Q]) -> Polynomial<Self::T> {
        Polynomial::from(m.iter().map(|v| self.make(v)).collect::<Vec<_>>())
    }
    fn rd(&self, p: &Polynomial<Self::T>) -> QP {
        // deliberately not trimmed: a trailing zero must be noticed
        p.iter().map(|v| self.read(&v)).collect()
    }
    fn poly(&self, r: &mut Rng, max_deg: usize) -> QP {
        let d = r.us(0, max_deg.min(self.max_deg()));
        let sparse = r.chance(1, 5);
        let v: QP = (0..=d)
            .map(|_| if sparse && r.chance(2, 3) { Q::zero() } else { self.gen(r) })
            .collect();
        if r.chance(1, 20) {
            return vec![];
        }
        self.nrm(v)
    }
    fn poly_nz(&self, r: &mut Rng, max_deg: usize) -> QP {
        loop {
            let p = self.poly(r, max_deg);
            if !p.is_empty() {
                return p;
            }
        }
    }
    fn poly_deg(&self, r: &mut Rng, d: usize) -> QP {
        let mut v: QP = (0..=d).map(|_| if r.chance(1, 6) { Q::zero() } else { self.gen(r) }).collect();
        v[d] = self.gen_nz(r);
        self.nrm(v)
    }
    /// exactly degree d, few terms
    fn sparse(&self, r: &mut Rng, d: usize) -> QP {
        let mut v = vec![Q::zero(); d + 1];
        v[d] = self.gen_nz(r);
        for _ in 0..r.us(1, 3) {
            let k = r.us(0, d);
            if k < d {
                v[k] = self.gen(r);
            }
        }
        self.nrm(v)
    }
    /// a pair whose remainder sequence drops by chosen degrees: built backwards from a common factor,
    /// f[i-1] = q[i]*f[i] + c*f[i+1]
    fn prs_pair(&self, r: &mut Rng, max_deg: usize, common: &[Q]) -> (QP, QP) {
        let small = |r: &mut Rng| self.norm(Q::from_integer(BigInt::from(r.small_nz(3))));
        let one = |v: Q| if v.is_zero() { self.norm(Q::one()) } else { v };
        let (mut b, mut a) = (vec![], self.nrm(common.to_vec()));
        if a.is_empty() {
            a = self.nrm(vec![Q::one()]);
        }
        let style = r.below(4);
        // a few sequences with one very large drop (only where the caller asks for such degrees)
        let wide = if max_deg > 20 { r.us(0, 4) } else { 99 };
        for i in 0..10 {
            let d = match style {
                _ if i == wide => r.us(5, 14),
                0 => 1,
                1 => r.us(1, 2),
                2 if max_deg <= 20 => r.us(1, 4),
                _ => *r.pick(&[1, 1, 1, 3, 5]),
            };
            if a.len() + d > max_deg + 1 {
                break;
            }
            let mut q: QP = (0..=d).map(|_| if r.chance(1, 2) { Q::zero() } else { small(r) }).collect();
            q[d] = one(small(r));
            let c = one(small(r));
            let n = self.add(&self.mul(&q, &a), &self.scale(&b, &c));
            if n.len() <= a.len() {
                break;
            }
            b = a;
            a = n;
        }
        if r.chance(1, 3) {
            (b, a)
        } else {
            (a, b)
        }
    }
    fn add(&self, a: &[Q], b: &[Q]) -> QP {
        self.nrm(poly::add(a, b))
    }
    fn sub(&self, a: &[Q], b: &[Q]) -> QP {
        self.nrm(poly::sub(a, b))
    }
    fn mul(&self, a: &[Q], b: &[Q]) -> QP {
        self.nrm(poly::mul(a, b))
    }
    fn scale(&self, a: &[Q], s: &Q) -> QP {
        self.nrm(poly::scale(a, s))
    }
    fn pow(&self, a: &[Q], n: usize) -> QP {
        let mut r = self.nrm(vec![Q::one()]);
        for _ in 0..n {
            r = self.mul(&r, a);
        }
        r
    }
    fn eval(&self, a: &[Q], x: &Q) -> Q {
        let mut r = Q::zero();
        let mut xp = Q::one();
        for c in a {
            r = self.norm(r + c * &xp);
            xp = self.norm(xp * x);
        }
        r
    }
    fn deriv(&self, a: &[Q]) -> QP {
        self.nrm(a.iter().enumerate().skip(1).map(|(i, c)| c * Q::from_integer(BigInt::from(i))).collect())
    }
    /// division with remainder in a field
    fn divrem(&self, a: &[Q], b: &[Q]) -> (QP, QP) {
        let mut r = a.to_vec();
        if r.len() < b.len() {
            return (vec![], r);
        }
        let il = self.inv(b.last().unwrap()).expect("field");
        let mut qt = vec![Q::zero(); r.len() - b.len() + 1];
        while r.len() >= b.len() {
            let k = r.len() - b.len();
            let f = self.norm(r.last().unwrap() * &il);
            for (i, c) in b.iter().enumerate() {
                r[k + i] = self.norm(&r[k + i] - c * &f);
            }
            qt[k] = f;
            r = poly::trim(r);
        }
        (poly::trim(qt), r)
    }
    fn monic(&self, a: &[Q]) -> QP {
        match a.last() {
            None => vec![],
            Some(l) => {
                let i = self.inv(l).expect("field");
                self.scale(a, &i)
            }
        }
    }
    fn gcd(&self, a: &[Q], b: &[Q]) -> QP {
        let (mut a, mut b) = (self.monic(a), self.monic(b));
        while !b.is_empty() {
            let r = self.divrem(&a, &b).1;
            a = b;
            b = self.monic(&r);
        }
        a
    }
    /// an upper bound on numerators and denominators while working on these polynomials
    fn mag(&self, a: &[Q]) -> BigInt {
        let mut l = BigInt::one();
        for c in a {
            l = l.lcm(c.denom());
        }
        let mut s = BigInt::one();
        for c in a {
            s += (c * Q::from_integer(l.clone())).to_integer().abs();
        }
        s * l
    }
    fn fits(&self, b: &BigInt) -> bool {
        match self.limit() {
            None => true,
            Some(l) => b <= &l,
        }
    }
}

macro_rules! int_ring {
    ($n:ident, $t:ty, $max:expr, $deg:expr) => {
        pub struct $n;
        impl Ring for $n {
            type T = $t;
            const NAME: &'static str = stringify!($t);
            const FIELD: bool = false;
            fn make(&self, q: &Q) -> $t {
                assert!(q.is_integer());
                num_traits::NumCast::from(q.numer().to_i128().unwrap()).unwrap()
            }
            fn read(&self, t: &$t) -> Q {
                Q::from_integer(BigInt::from(*t))
            }
            fn gen(&self, r: &mut Rng) -> Q {
                Q::from_integer(BigInt::from(r.small($max)))
            }
            fn max_deg(&self) -> usize {
                $deg
            }
            fn limit(&self) -> Option<BigInt> {
                Some(BigInt::from(<$t>::MAX))
            }
        }
    };
}
int_ring!(ZI8, i8, 3, 3);
int_ring!(ZI16, i16, 12, 4);
int_ring!(ZI32, i32, 90, 5);
int_ring!(ZI64, i64, 900, 6);
int_ring!(ZI128, i128, 30000, 8);
int_ring!(ZIsize, isize, 900, 6);

pub struct ZBig;
impl Ring for ZBig {
    type T = BigInt;
    const NAME: &'static str = "BigInt";
    const FIELD: bool = false;
    fn make(&self, q: &Q) -> BigInt {
        assert!(q.is_integer());
        q.to_integer()
    }
    fn read(&self, t: &BigInt) -> Q {
        Q::from_integer(t.clone())
    }
    fn gen(&self, r: &mut Rng) -> Q {
        Q::from_integer(match r.below(4) {
            0 => r.big(130),
            1 => r.big(20),
            _ => BigInt::from(r.small(12)),
        })
    }
    fn max_deg(&self) -> usize {
        14
    }
}

macro_rules! rat_ring {
    ($n:ident, $t:ty, $max:expr, $den:expr, $deg:expr) => {
        pub struct $n;
        impl Ring for $n {
            type T = Ratio<$t>;
            const NAME: &'static str = concat!("Ratio<", stringify!($t), ">");
            const FIELD: bool = true;
            fn make(&self, q: &Q) -> Ratio<$t> {
                let f = |v: &BigInt| -> $t { num_traits::NumCast::from(v.to_i128().unwrap()).unwrap() };
                Ratio::new_raw(f(q.numer()), f(q.denom()))
            }
            fn read(&self, t: &Ratio<$t>) -> Q {
                Q::new(BigInt::from(*t.numer()), BigInt::from(*t.denom()))
            }
            fn gen(&self, r: &mut Rng) -> Q {
                r.ratio_small($max, $den)
            }
            fn max_deg(&self) -> usize {
                $deg
            }
            fn limit(&self) -> Option<BigInt> {
                Some(BigInt::from(<$t>::MAX))
            }
        }
    };
}
rat_ring!(QI32, i32, 5, 3, 3);
rat_ring!(QI64, i64, 9, 6, 4);
rat_ring!(QI128, i128, 20, 12, 5);

pub struct QBig;
impl Ring for QBig {
    type T = Ratio<BigInt>;
    const NAME: &'static str = "Ratio<BigInt>";
    const FIELD: bool = true;
    fn make(&self, q: &Q) -> Q {
        q.clone()
    }
    fn read(&self, t: &Q) -> Q {
        t.clone()
    }
    fn gen(&self, r: &mut Rng) -> Q {
        match r.below(6) {
            0 => r.ratio(90, 40),
            1 => Q::from_integer(r.big(60)),
            2 | 3 => r.ratio_small(12, 12),
            _ => r.ratio_small(9, 1),
        }
    }
    fn max_deg(&self) -> usize {
        11
    }
}

macro_rules! mod_ring {
    ($n:ident, $v:ty, $m:ty, $mk:expr, $name:expr, $field:expr) => {
        pub struct $n(pub u64);
        impl Ring for $n {
            type T = ModularInteger<$v, $m>;
            const NAME: &'static str = $name;
            const FIELD: bool = $field;
            fn make(&self, q: &Q) -> Self::T {
                let f: fn(u64) -> $m = $mk;
                ModularInteger::from_bigint(&q.to_integer(), f(self.0))
            }
            fn read(&self, t: &Self::T) -> Q {
                Q::from_integer(BigInt::from(t.value().clone()))
            }
            fn norm(&self, q: Q) -> Q {
                assert!(q.is_integer());
                Q::from_integer(q.to_integer().mod_floor(&BigInt::from(self.0)))
            }
            fn gen(&self, r: &mut Rng) -> Q {
                let v = match r.below(4) {
                    0 => r.below(self.0),
                    1 => r.below(3) % self.0,
                    2 => self.0 - 1 - r.below(2).min(self.0 - 1),
                    _ => r.below(self.0),
                };
                Q::from_integer(BigInt::from(v))
            }
            fn max_deg(&self) -> usize {
                14
            }
            fn inv(&self, q: &Q) -> Option<Q> {
                let m = BigInt::from(self.0);
                let e = q.to_integer().extended_gcd(&m);
                if !e.gcd.is_one() {
                    return None;
                }
                Some(self.norm(Q::from_integer(e.x)))
            }
            fn modulus(&self) -> Option<u64> {
                Some(self.0)
            }
            fn faithful(&self) -> bool {
                false
            }
        }
    };
}
mod_ring!(F2, i32, Mod2, |_| Mod2, "i32 mod 2", true);
mod_ring!(F3, i8, Mod3, |_| Mod3, "i8 mod 3", true);
mod_ring!(F5, i8, Mod5, |_| Mod5, "i8 mod 5", true);
mod_ring!(F7, u64, Mod7, |_| Mod7, "u64 mod 7", false);
mod_ring!(F13, BigInt, Mod13, |_| Mod13, "BigInt mod 13", true);
mod_ring!(FPi64, i64, KnownPrime<i64>, |p| KnownPrime::new_unsafe(p as i64), "i64 mod KnownPrime", true);
mod_ring!(FPi32, i32, KnownOddPrime<i32>, |p| KnownOddPrime::new_odd_prime_unsafe(p as i32), "i32 mod KnownOddPrime", true);
mod_ring!(FPbig, BigInt, KnownPrime<BigInt>, |p| KnownPrime::new_unsafe(BigInt::from(p)), "BigInt mod KnownPrime", true);
mod_ring!(OPi64, i64, KnownOddPrime<i64>, |p| KnownOddPrime::new_odd_prime_unsafe(p as i64), "i64 mod KnownOddPrime", true);
mod_ring!(OPi128, i128, KnownOddPrime<i128>, |p| KnownOddPrime::new_odd_prime_unsafe(p as i128), "i128 mod KnownOddPrime", true);
mod_ring!(F13s, i16, Mod13, |_| Mod13, "i16 mod 13", true);
mod_ring!(ModN, i64, i64, |p| p as i64, "i64 mod composite", false);

/// Z[X] as coefficients: read through the Kronecker substitution X -> 2^900, injective on what is generated here
pub struct ZNest;
pub const KRON: usize = 900;
pub fn kron(p: &[BigInt]) -> BigInt {
    let mut s = BigInt::zero();
    for c in p.iter().rev() {
        s = (s << KRON) + c;
    }
    s
}
pub fn unkron(v: &BigInt) -> ZP {
    let b = BigInt::one() << KRON;
    let h = &b >> 1usize;
    let mut v = v.clone();
    let mut r = vec![];
    while !v.is_zero() {
        let mut d = v.mod_floor(&b);
        if d >= h {
            d -= &b;
        }
        v = (v - &d) >> KRON;
        r.push(d);
    }
    r
}
impl Ring for ZNest {
    type T = Polynomial<BigInt>;
    const NAME: &'static str = "Polynomial<BigInt>";
    const FIELD: bool = false;
    fn make(&self, q: &Q) -> Self::T {
        Polynomial::from(unkron(&q.to_integer()))
    }
    fn read(&self, t: &Self::T) -> Q {
        Q::from_integer(kron(&t.iter().collect::<Vec<_>>()))
    }
    fn gen(&self, r: &mut Rng) -> Q {
        Q::from_integer(kron(&poly::rand_zp(r, 2, 6)))
    }
    fn max_deg(&self) -> usize {
        4
    }
    fn faithful(&self) -> bool {
        false
    }
}

pub fn some_prime(r: &mut Rng) -> u64 {
    *r.pick(&[2u64, 3, 5, 7, 11, 13, 17, 31, 97, 101, 251, 257, 997, 32749, 65521, 65537, 1_000_003, 2_147_483_629])
}
pub fn odd_prime(r: &mut Rng) -> u64 {
    loop {
        let p = some_prime(r);
        if p != 2 {
            return p;
        }
    }
}

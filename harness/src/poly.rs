//! Reference polynomial arithmetic, deliberately naive and independent of the crate under test.
//! Polynomials are little-endian coefficient vectors without trailing zeros.
use crate::rng::Rng;
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational as Q;
use num_traits::{One, Signed, Zero};
use std::cmp::Ordering;

pub type ZP = Vec<BigInt>;
pub type QP = Vec<Q>;

pub fn z(v: i64) -> BigInt {
    BigInt::from(v)
}
pub fn q(n: i64, d: i64) -> Q {
    Q::new(n.into(), d.into())
}
pub fn qi(n: BigInt) -> Q {
    Q::from_integer(n)
}
pub fn zp(v: &[i64]) -> ZP {
    trim(v.iter().map(|&v| z(v)).collect())
}
pub fn trim<T: Zero>(mut v: Vec<T>) -> Vec<T> {
    while v.last().map_or(false, |l| l.is_zero()) {
        v.pop();
    }
    v
}
pub fn to_q(p: &[BigInt]) -> QP {
    p.iter().map(|c| Q::from_integer(c.clone())).collect()
}
pub fn add<T: Zero + Clone + std::ops::Add<Output = T>>(a: &[T], b: &[T]) -> Vec<T> {
    let n = a.len().max(b.len());
    trim(
        (0..n)
            .map(|i| match (a.get(i), b.get(i)) {
                (Some(x), Some(y)) => x.clone() + y.clone(),
                (Some(x), None) | (None, Some(x)) => x.clone(),
                _ => unreachable!(),
            })
            .collect(),
    )
}
pub fn neg<T: Clone + std::ops::Neg<Output = T>>(a: &[T]) -> Vec<T> {
    a.iter().map(|v| -v.clone()).collect()
}
pub fn sub<T: Zero + Clone + std::ops::Add<Output = T> + std::ops::Neg<Output = T>>(a: &[T], b: &[T]) -> Vec<T> {
    add(a, &neg(b))
}
pub fn mul<T: Zero + Clone + std::ops::Add<Output = T> + std::ops::Mul<Output = T>>(a: &[T], b: &[T]) -> Vec<T> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![T::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j].clone() + x.clone() * y.clone();
        }
    }
    trim(r)
}
pub fn pow<T: Zero + One + Clone + std::ops::Add<Output = T> + std::ops::Mul<Output = T>>(a: &[T], n: usize) -> Vec<T> {
    let mut r = vec![T::one()];
    for _ in 0..n {
        r = mul(&r, a);
    }
    trim(r)
}
pub fn scale<T: Zero + Clone + std::ops::Mul<Output = T>>(a: &[T], s: &T) -> Vec<T> {
    trim(a.iter().map(|v| v.clone() * s.clone()).collect())
}
/// power-basis evaluation (sum of c_i x^i), not Horner
pub fn eval<T: Zero + One + Clone + std::ops::Add<Output = T> + std::ops::Mul<Output = T>>(a: &[T], x: &T) -> T {
    let mut r = T::zero();
    let mut xp = T::one();
    for c in a {
        r = r + c.clone() * xp.clone();
        xp = xp * x.clone();
    }
    r
}
pub fn eval_zq(a: &[BigInt], x: &Q) -> Q {
    // exact: sum c_i n^i d^(k-i) / d^k
    let (n, d) = (x.numer(), x.denom());
    if a.is_empty() {
        return Q::zero();
    }
    let k = a.len() - 1;
    let mut acc = a[k].clone();
    let mut dp = BigInt::one();
    for i in (0..k).rev() {
        dp *= d;
        acc = acc * n + &a[i] * &dp;
    }
    Q::new(acc, dp)
}
pub fn sign_at(a: &[BigInt], x: &Q) -> i32 {
    let v = eval_zq(a, x);
    if v.is_zero() {
        0
    } else if v.is_positive() {
        1
    } else {
        -1
    }
}
pub fn deriv<T: Zero + Clone + std::ops::Add<Output = T>>(a: &[T]) -> Vec<T> {
    let mut r = vec![];
    for (i, c) in a.iter().enumerate().skip(1) {
        let mut s = T::zero();
        for _ in 0..i {
            s = s + c.clone();
        }
        r.push(s);
    }
    trim(r)
}
pub fn divrem(a: &[Q], b: &[Q]) -> (QP, QP) {
    assert!(!b.is_empty());
    let mut r = a.to_vec();
    if a.len() < b.len() {
        return (vec![], r);
    }
    let mut qt = vec![Q::zero(); a.len() - b.len() + 1];
    let lb = b.last().unwrap().clone();
    while r.len() >= b.len() {
        let k = r.len() - b.len();
        let f = r.last().unwrap() / &lb;
        for i in 0..b.len() {
            let t = &f * &b[i];
            r[i + k] -= t;
        }
        qt[k] = f;
        assert!(r.last().unwrap().is_zero());
        r = trim(r);
    }
    (trim(qt), r)
}
pub fn monic(a: &[Q]) -> QP {
    match a.last() {
        None => vec![],
        Some(l) => a.iter().map(|v| v / l).collect(),
    }
}
pub fn gcd_q(a: &[Q], b: &[Q]) -> QP {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    while !b.is_empty() {
        let r = monic(&divrem(&a, &b).1);
        a = b;
        b = r;
    }
    monic(&a)
}
pub fn content(a: &[BigInt]) -> BigInt {
    a.iter().fold(BigInt::zero(), |g, v| g.gcd(v)).abs()
}
/// primitive with positive leading coefficient
pub fn primitive(a: &[BigInt]) -> ZP {
    if a.is_empty() {
        return vec![];
    }
    let mut c = content(a);
    if a.last().unwrap().is_negative() {
        c = -c;
    }
    a.iter().map(|v| v / &c).collect()
}
/// clear denominators; primitive with positive leading coefficient
pub fn q_to_primitive(a: &[Q]) -> ZP {
    let l = a.iter().fold(BigInt::one(), |l, v| l.lcm(v.denom()));
    let v: ZP = a.iter().map(|v| v.numer() * (&l / v.denom())).collect();
    primitive(&v)
}
pub fn gcd_z(a: &[BigInt], b: &[BigInt]) -> ZP {
    q_to_primitive(&gcd_q(&to_q(a), &to_q(b)))
}
pub fn squarefree_part(a: &[BigInt]) -> ZP {
    let g = gcd_q(&to_q(a), &to_q(&deriv(a)));
    q_to_primitive(&divrem(&to_q(a), &g).0)
}
pub fn compose_shift(a: &[BigInt], s: &BigInt) -> ZP {
    // a(x + s)
    let lin = trim(vec![s.clone(), BigInt::one()]);
    let mut r: ZP = vec![];
    for c in a.iter().rev() {
        r = add(&mul(&r, &lin), &trim(vec![c.clone()]));
    }
    r
}
pub fn reverse(a: &[BigInt]) -> ZP {
    trim(a.iter().rev().cloned().collect())
}
pub fn fmt(p: &[BigInt]) -> String {
    if p.is_empty() {
        return "0".into();
    }
    p.iter()
        .enumerate()
        .filter(|(_, c)| !c.is_zero())
        .map(|(i, c)| format!("{}*x^{}", c, i))
        .collect::<Vec<_>>()
        .join(" + ")
}
pub fn fmtq(p: &[Q]) -> String {
    if p.is_empty() {
        return "0".into();
    }
    p.iter()
        .enumerate()
        .filter(|(_, c)| !c.is_zero())
        .map(|(i, c)| format!("({})*x^{}", c, i))
        .collect::<Vec<_>>()
        .join(" + ")
}

// ------------------------------------------------------------ Sturm
pub struct Sturm(Vec<ZP>);
impl Sturm {
    /// `a` need not be square-free: distinct roots are counted
    pub fn new(a: &[BigInt]) -> Self {
        let a = squarefree_part(a);
        let mut chain = vec![a.clone()];
        if a.len() > 1 {
            chain.push(pos_primitive(&to_q(&deriv(&a))));
            loop {
                let n = chain.len();
                let r = divrem(&to_q(&chain[n - 2]), &to_q(&chain[n - 1])).1;
                if r.is_empty() {
                    break;
                }
                chain.push(pos_primitive(&neg(&r)));
            }
        }
        Sturm(chain)
    }
    fn variations<F: Fn(&ZP) -> i32>(&self, f: F) -> usize {
        let mut last = 0;
        let mut n = 0;
        for p in &self.0 {
            let s = f(p);
            if s != 0 {
                if last != 0 && s != last {
                    n += 1;
                }
                last = s;
            }
        }
        n
    }
    pub fn var_at(&self, x: &Q) -> usize {
        self.variations(|p| sign_at(p, x))
    }
    /// distinct real roots in (a, b]
    pub fn count_half_open(&self, a: &Q, b: &Q) -> usize {
        self.var_at(a) - self.var_at(b)
    }
    /// distinct real roots in [a, b]
    pub fn count_closed(&self, a: &Q, b: &Q) -> usize {
        self.count_half_open(a, b) + (sign_at(&self.0[0], a) == 0) as usize
    }
    pub fn total(&self) -> usize {
        let lead = |p: &ZP| if p.last().map_or(true, |v| v.is_zero()) { 0 } else if p.last().unwrap().is_positive() { 1 } else { -1 };
        let neg = self.variations(|p| if p.len() % 2 == 0 { -lead(p) } else { lead(p) });
        let pos = self.variations(|p| lead(p));
        neg - pos
    }
}
/// scale by a positive factor to a primitive integer polynomial
fn pos_primitive(a: &[Q]) -> ZP {
    let p = q_to_primitive(a);
    if a.last().map_or(false, |v| v.is_negative()) {
        neg(&p)
    } else {
        p
    }
}
/// Cauchy bound: all roots have |x| < bound
pub fn root_bound(a: &[BigInt]) -> BigInt {
    let l = a.last().unwrap().abs();
    let m = a.iter().map(|v| v.abs()).max().unwrap();
    m / l + z(2)
}
/// disjoint isolating open intervals (lo, hi] containing exactly one root each, in increasing order
pub fn isolate(a: &[BigInt]) -> Vec<(Q, Q)> {
    let st = Sturm::new(a);
    let b = Q::from_integer(root_bound(a));
    let mut out = vec![];
    fn rec(st: &Sturm, lo: Q, hi: Q, vlo: usize, vhi: usize, out: &mut Vec<(Q, Q)>) {
        match vlo - vhi {
            0 => {}
            1 => out.push((lo, hi)),
            _ => {
                let mid = (&lo + &hi) / Q::from_integer(2.into());
                let vm = st.var_at(&mid);
                rec(st, lo, mid.clone(), vlo, vm, out);
                rec(st, mid, hi, vm, vhi, out);
            }
        }
    }
    let (lo, hi) = (-b.clone(), b);
    let (vl, vh) = (st.var_at(&lo), st.var_at(&hi));
    rec(&st, lo, hi, vl, vh, &mut out);
    out
}

// ------------------------------------------------------------ determinants / resultants
/// fraction-free (Bareiss) determinant
pub fn det_bareiss(mut m: Vec<Vec<BigInt>>) -> BigInt {
    let n = m.len();
    if n == 0 {
        return BigInt::one();
    }
    let mut sign = 1;
    let mut prev = BigInt::one();
    for k in 0..n - 1 {
        if m[k][k].is_zero() {
            match (k + 1..n).find(|&i| !m[i][k].is_zero()) {
                Some(i) => {
                    m.swap(i, k);
                    sign = -sign;
                }
                None => return BigInt::zero(),
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                let t = &m[i][j] * &m[k][k] - &m[i][k] * &m[k][j];
                m[i][j] = t / &prev;
            }
        }
        prev = m[k][k].clone();
    }
    let d = m[n - 1][n - 1].clone();
    if sign < 0 {
        -d
    } else {
        d
    }
}
pub fn resultant_sylvester(a: &[BigInt], b: &[BigInt]) -> BigInt {
    let (m, n) = (a.len() - 1, b.len() - 1);
    resultant_formal(a, m, b, n)
}
/// resultant with formal degrees m and n (leading coefficients may vanish)
pub fn resultant_formal(a: &[BigInt], m: usize, b: &[BigInt], n: usize) -> BigInt {
    let s = m + n;
    let mut mat = vec![vec![BigInt::zero(); s]; s];
    let ca = |i: usize| a.get(i).cloned().unwrap_or_else(BigInt::zero);
    let cb = |i: usize| b.get(i).cloned().unwrap_or_else(BigInt::zero);
    for r in 0..n {
        for i in 0..=m {
            mat[r][r + i] = ca(m - i);
        }
    }
    for r in 0..m {
        for i in 0..=n {
            mat[n + r][r + i] = cb(n - i);
        }
    }
    det_bareiss(mat)
}

// ------------------------------------------------------------ F_p
pub mod fp {
    use super::*;
    pub type FP = Vec<u64>;
    pub fn trim(mut v: FP) -> FP {
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    pub fn from_z(a: &[BigInt], p: u64) -> FP {
        let pp = BigInt::from(p);
        trim(a.iter().map(|v| { let r = v.mod_floor(&pp); r.iter_u64_digits().next().unwrap_or(0) }).collect())
    }
    pub fn mulm(a: u64, b: u64, p: u64) -> u64 {
        ((a as u128 * b as u128) % p as u128) as u64
    }
    pub fn powm(mut a: u64, mut e: u64, p: u64) -> u64 {
        let mut r = 1 % p;
        a %= p;
        while e > 0 {
            if e & 1 == 1 {
                r = mulm(r, a, p);
            }
            a = mulm(a, a, p);
            e >>= 1;
        }
        r
    }
    pub fn inv(a: u64, p: u64) -> u64 {
        powm(a, p - 2, p)
    }
    pub fn mul(a: &[u64], b: &[u64], p: u64) -> FP {
        if a.is_empty() || b.is_empty() {
            return vec![];
        }
        let mut r = vec![0u64; a.len() + b.len() - 1];
        for (i, &x) in a.iter().enumerate() {
            for (j, &y) in b.iter().enumerate() {
                r[i + j] = (r[i + j] + mulm(x, y, p)) % p;
            }
        }
        trim(r)
    }
    pub fn sub(a: &[u64], b: &[u64], p: u64) -> FP {
        let n = a.len().max(b.len());
        trim((0..n).map(|i| (a.get(i).unwrap_or(&0) + p - b.get(i).unwrap_or(&0)) % p).collect())
    }
    pub fn divrem(a: &[u64], b: &[u64], p: u64) -> (FP, FP) {
        let mut r = a.to_vec();
        if a.len() < b.len() {
            return (vec![], r);
        }
        let mut q = vec![0; a.len() - b.len() + 1];
        let li = inv(*b.last().unwrap(), p);
        while r.len() >= b.len() {
            let k = r.len() - b.len();
            let f = mulm(*r.last().unwrap(), li, p);
            for i in 0..b.len() {
                r[i + k] = (r[i + k] + p - mulm(f, b[i], p)) % p;
            }
            q[k] = f;
            r = trim(r);
        }
        (trim(q), r)
    }
    pub fn monic(a: &[u64], p: u64) -> FP {
        match a.last() {
            None => vec![],
            Some(&l) => {
                let i = inv(l, p);
                a.iter().map(|&v| mulm(v, i, p)).collect()
            }
        }
    }
    pub fn gcd(a: &[u64], b: &[u64], p: u64) -> FP {
        let (mut a, mut b) = (a.to_vec(), b.to_vec());
        while !b.is_empty() {
            let r = divrem(&a, &b, p).1;
            a = b;
            b = r;
        }
        monic(&a, p)
    }
    pub fn deriv(a: &[u64], p: u64) -> FP {
        trim(a.iter().enumerate().skip(1).map(|(i, &c)| mulm(c, i as u64 % p, p)).collect())
    }
    pub fn powmod_x(e: u64, f: &[u64], p: u64) -> FP {
        powmod(&divrem(&[0, 1], f, p).1, e, f, p)
    }
    pub fn powmod(b: &[u64], mut e: u64, f: &[u64], p: u64) -> FP {
        let mut r = divrem(&[1], f, p).1;
        let mut b = b.to_vec();
        while e > 0 {
            if e & 1 == 1 {
                r = divrem(&mul(&r, &b, p), f, p).1;
            }
            b = divrem(&mul(&b, &b, p), f, p).1;
            e >>= 1;
        }
        r
    }
    /// Rabin irreducibility test
    pub fn irreducible(f: &[u64], p: u64) -> bool {
        let n = f.len().saturating_sub(1);
        if n == 0 {
            return false;
        }
        if n == 1 {
            return true;
        }
        // x^(p^k) mod f by repeated p-th powers
        let x = divrem(&[0, 1], f, p).1;
        let mut h = x.clone();
        for k in 1..=n {
            h = powmod(&h, p, f, p);
            let d = sub(&h, &x, p);
            if k < n {
                if n % k == 0 && {
                    let m = n / k;
                    (2..=m).all(|d| m % d != 0 || d == m)
                } {
                    let g = gcd(&d, f, p);
                    if g.len() != 1 {
                        return false;
                    }
                }
            } else if !d.is_empty() {
                return false;
            }
        }
        true
    }
    /// (degree, number of irreducible factors of that degree) of a square-free monic f
    pub fn degree_pattern(f: &[u64], p: u64) -> Vec<(usize, usize)> {
        let mut f = monic(f, p);
        let mut out = vec![];
        let x: FP = vec![0, 1];
        let mut h = divrem(&x, &f, p).1;
        let mut d = 0;
        while f.len() > 1 {
            d += 1;
            if 2 * d > f.len() - 1 {
                out.push((f.len() - 1, 1));
                break;
            }
            h = powmod(&h, p, &f, p);
            let g = gcd(&sub(&h, &x, p), &f, p);
            if g.len() > 1 {
                out.push((d, (g.len() - 1) / d));
                f = divrem(&f, &g, p).0;
                if f.len() > 1 {
                    h = divrem(&h, &f, p).1;
                }
            }
        }
        out
    }
}
/// Some(true) if some set of primes proves irreducibility over Q; None if they do not decide
pub fn irreducible_certificate(a: &[BigInt]) -> Option<bool> {
    let n = a.len() - 1;
    if n <= 1 {
        return Some(n == 1);
    }
    let mut possible: u64 = (1u64 << (n + 1)) - 1; // subset-sum degrees
    let mut used = 0;
    for p in [3u64, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97] {
        let f = fp::from_z(a, p);
        if f.len() != a.len() || fp::gcd(&f, &fp::deriv(&f, p), p).len() != 1 {
            continue;
        }
        let mut sums: u64 = 1;
        for (d, k) in fp::degree_pattern(&f, p) {
            for _ in 0..k {
                sums |= sums << d;
            }
        }
        possible &= sums;
        if possible == 1 | (1 << n) {
            return Some(true);
        }
        used += 1;
        if used > 14 {
            break;
        }
    }
    None
}

// ------------------------------------------------------------ generators
pub fn rand_zp(r: &mut Rng, max_deg: usize, max: i64) -> ZP {
    let d = r.us(0, max_deg + 1);
    trim((0..d).map(|_| z(r.small(max))).collect())
}
pub fn rand_zp_nz(r: &mut Rng, max_deg: usize, max: i64) -> ZP {
    loop {
        let p = rand_zp(r, max_deg, max);
        if !p.is_empty() {
            return p;
        }
    }
}
/// exact degree
pub fn rand_zp_deg(r: &mut Rng, deg: usize, max: i64) -> ZP {
    let mut v: ZP = (0..deg).map(|_| z(r.small(max))).collect();
    v.push(z(r.small_nz(max)));
    v
}
pub fn rand_qp(r: &mut Rng, max_deg: usize, n: i64, d: i64) -> QP {
    let k = r.us(0, max_deg + 1);
    trim((0..k).map(|_| r.ratio_small(n, d)).collect())
}
pub fn is_square(v: &BigInt) -> bool {
    if v.is_negative() {
        return false;
    }
    let s = v.sqrt();
    &s * &s == *v
}
/// random primitive irreducible polynomial of the given degree, positive leading coefficient,
/// irreducible by construction (Eisenstein, discriminant, no rational root, ...)
pub fn rand_irreducible(r: &mut Rng, deg: usize, max: i64) -> ZP {
    match deg {
        1 => loop {
            let a = z(r.int(1, max.max(1)));
            let b = z(r.small(max));
            if a.gcd(&b).is_one() {
                return vec![b, a];
            }
        },
        2 => loop {
            let p = primitive(&rand_zp_deg(r, 2, max));
            let d = &p[1] * &p[1] - z(4) * &p[0] * &p[2];
            if !is_square(&d) {
                return p;
            }
        },
        3 if r.chance(1, 2) => loop {
            let p = primitive(&rand_zp_deg(r, 3, max));
            if !has_rational_root(&p) {
                return p;
            }
        },
        _ => {
            let pr = *r.pick(&[2i64, 3, 5, 7]);
            loop {
                let mut v: ZP = vec![];
                // constant: p * unit mod p
                let c = loop {
                    let c = r.small_nz(max.max(3));
                    if c % pr != 0 {
                        break c;
                    }
                };
                v.push(z(c * pr));
                for _ in 1..deg {
                    v.push(z(r.small((max / pr).max(1)) * pr));
                }
                let l = loop {
                    let l = r.int(1, max.max(3));
                    if l % pr != 0 {
                        break l;
                    }
                };
                v.push(z(if r.chance(1, 2) { 1 } else { l }));
                if !content(&v).is_one() {
                    continue;
                }
                let v = if r.chance(1, 3) { reverse(&v) } else { v };
                let v = if r.chance(1, 3) { compose_shift(&v, &z(r.int(-2, 2))) } else { v };
                let v = primitive(&v);
                if v.len() == deg + 1 {
                    return v;
                }
            }
        }
    }
}
pub fn has_rational_root(p: &[BigInt]) -> bool {
    if p[0].is_zero() {
        return true;
    }
    let c: i64 = p[0].abs().try_into().expect("small");
    let l: i64 = p.last().unwrap().abs().try_into().expect("small");
    for n in 1..=c {
        if c % n != 0 {
            continue;
        }
        for d in 1..=l {
            if l % d != 0 {
                continue;
            }
            for s in [1, -1] {
                if sign_at(p, &q(s * n, d)) == 0 {
                    return true;
                }
            }
        }
    }
    false
}
pub fn cyclotomic(n: usize) -> ZP {
    // x^n - 1 divided by the cyclotomics of proper divisors
    let mut p = vec![Q::zero(); n + 1];
    p[0] = q(-1, 1);
    p[n] = q(1, 1);
    for d in 1..n {
        if n % d == 0 {
            p = divrem(&p, &to_q(&cyclotomic(d))).0;
        }
    }
    p.iter().map(|v| v.to_integer()).collect()
}
pub fn cmp_poly(a: &ZP, b: &ZP) -> Ordering {
    a.len().cmp(&b.len()).then_with(|| a.cmp(b))
}

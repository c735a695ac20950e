//! Exact model of real number fields K = Q[x, y] / (f(x), g(y)) with a chosen real embedding.
//! Elements are coordinate vectors over Q, so equality, inverses and minimal polynomials are plain
//! linear algebra; order is decided by bisecting the chosen roots. Independent of the crate under test.
use crate::poly::*;
use crate::real::{shr_ceil, shr_floor, Fx};
use crate::rng::Rng;
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational as Q;
use num_traits::{One, Signed, Zero};
use std::{cell::RefCell, cmp::Ordering};

/// a real root of an integer polynomial with a refinable isolating interval
pub struct Root {
    pub poly: ZP,
    sf: ZP,
    iv: RefCell<(Q, Q)>,
}
impl Root {
    /// (lo, hi] isolating
    pub fn new(poly: &[BigInt], iv: (Q, Q)) -> Root {
        let sf = squarefree_part(poly);
        let iv = if sign_at(&sf, &iv.1) == 0 { (iv.1.clone(), iv.1) } else { iv };
        Root {
            poly: poly.to_vec(),
            sf,
            iv: RefCell::new(iv),
        }
    }
    pub fn bounds(&self) -> (Q, Q) {
        self.iv.borrow().clone()
    }
    /// narrow to width <= 2^-p (open interval (lo,hi) or exact point)
    pub fn refine(&self, p: usize) {
        let mut iv = self.iv.borrow_mut();
        let target = Q::new(BigInt::one(), BigInt::one() << p);
        if &iv.1 - &iv.0 <= target {
            return;
        }
        // bisect on the dyadic grid 2^-(p+2)
        let shi = sign_at(&self.sf, &iv.1);
        debug_assert!(shi != 0);
        while &iv.1 - &iv.0 > target {
            let mid = (&iv.0 + &iv.1) / Q::from_integer(2.into());
            let s = sign_at(&self.sf, &mid);
            if s == 0 {
                *iv = (mid.clone(), mid);
                return;
            }
            if s == shi {
                iv.1 = mid;
            } else {
                iv.0 = mid;
            }
        }
    }
    pub fn fx(&self, p: usize) -> Fx {
        self.refine(p);
        let (lo, hi) = self.bounds();
        let (n, m) = (lo.numer() << p, hi.numer() << p);
        Fx {
            lo: n.div_floor(lo.denom()),
            hi: -((-m).div_floor(hi.denom())),
            p,
        }
    }
}

pub type El = Vec<Q>;
pub struct Field {
    pub f: ZP,
    pub g: ZP,
    n: usize,
    m: usize,
    xr: Vec<Vec<Q>>, // x^k reduced, k < 2n-1
    yr: Vec<Vec<Q>>,
    pub a: Root,
    pub b: Root,
}
fn power_reductions(f: &[BigInt]) -> Vec<Vec<Q>> {
    let n = f.len() - 1;
    let fq = monic(&to_q(f));
    let mut out: Vec<Vec<Q>> = vec![];
    let mut cur = vec![Q::zero(); n];
    cur[0] = Q::one();
    for _ in 0..(2 * n - 1).max(1) {
        out.push(cur.clone());
        // multiply by x
        let top = cur[n - 1].clone();
        for i in (1..n).rev() {
            cur[i] = cur[i - 1].clone();
        }
        cur[0] = Q::zero();
        for i in 0..n {
            cur[i] -= &top * &fq[i];
        }
    }
    out
}
impl Field {
    /// the caller guarantees that Q[x,y]/(f,g) is a field
    pub fn new(f: &[BigInt], fi: usize, g: &[BigInt], gi: usize) -> Option<Field> {
        let ra = isolate(f);
        let rb = isolate(g);
        if ra.is_empty() || rb.is_empty() {
            return None;
        }
        let a = Root::new(f, ra[fi % ra.len()].clone());
        let b = Root::new(g, rb[gi % rb.len()].clone());
        Some(Field {
            n: f.len() - 1,
            m: g.len() - 1,
            xr: power_reductions(f),
            yr: power_reductions(g),
            f: f.to_vec(),
            g: g.to_vec(),
            a,
            b,
        })
    }
    pub fn dim(&self) -> usize {
        self.n * self.m
    }
    pub fn zero(&self) -> El {
        vec![Q::zero(); self.dim()]
    }
    pub fn rat(&self, v: &Q) -> El {
        let mut e = self.zero();
        e[0] = v.clone();
        e
    }
    pub fn gen_a(&self) -> El {
        let mut e = self.zero();
        for i in 0..self.n {
            // x itself (reduced when n == 1)
            e[i * self.m] = if self.n == 1 {
                -Q::new(self.f[0].clone(), self.f[1].clone())
            } else if i == 1 {
                Q::one()
            } else {
                Q::zero()
            };
        }
        e
    }
    pub fn gen_b(&self) -> El {
        let mut e = self.zero();
        if self.m == 1 {
            e[0] = -Q::new(self.g[0].clone(), self.g[1].clone());
        } else {
            e[1] = Q::one();
        }
        e
    }
    pub fn add(&self, a: &El, b: &El) -> El {
        a.iter().zip(b).map(|(x, y)| x + y).collect()
    }
    pub fn sub(&self, a: &El, b: &El) -> El {
        a.iter().zip(b).map(|(x, y)| x - y).collect()
    }
    pub fn neg(&self, a: &El) -> El {
        a.iter().map(|x| -x).collect()
    }
    pub fn mul(&self, a: &El, b: &El) -> El {
        let (n, m) = (self.n, self.m);
        let mut raw = vec![vec![Q::zero(); 2 * m - 1]; 2 * n - 1];
        for i in 0..n {
            for j in 0..m {
                let c = &a[i * m + j];
                if c.is_zero() {
                    continue;
                }
                for k in 0..n {
                    for l in 0..m {
                        let d = &b[k * m + l];
                        if !d.is_zero() {
                            raw[i + k][j + l] += c * d;
                        }
                    }
                }
            }
        }
        // reduce y, then x
        let mut out = self.zero();
        for (i, row) in raw.iter().enumerate() {
            let mut ry = vec![Q::zero(); m];
            for (j, c) in row.iter().enumerate() {
                if !c.is_zero() {
                    for l in 0..m {
                        ry[l] += c * &self.yr[j][l];
                    }
                }
            }
            for k in 0..n {
                let w = &self.xr[i][k];
                if !w.is_zero() {
                    for l in 0..m {
                        out[k * m + l] += w * &ry[l];
                    }
                }
            }
        }
        out
    }
    pub fn pow(&self, a: &El, e: usize) -> El {
        let mut r = self.rat(&Q::one());
        for _ in 0..e {
            r = self.mul(&r, a);
        }
        r
    }
    pub fn is_zero(&self, a: &El) -> bool {
        a.iter().all(|v| v.is_zero())
    }
    pub fn as_rational(&self, a: &El) -> Option<Q> {
        if a[1..].iter().all(|v| v.is_zero()) {
            Some(a[0].clone())
        } else {
            None
        }
    }
    pub fn inv(&self, a: &El) -> Option<El> {
        if self.is_zero(a) {
            return None;
        }
        // solve a * x = 1
        let d = self.dim();
        let mut cols = vec![];
        for i in 0..d {
            let mut e = self.zero();
            e[i] = Q::one();
            cols.push(self.mul(a, &e));
        }
        // matrix rows
        let mut m: Vec<Vec<Q>> = (0..d)
            .map(|r| {
                let mut row: Vec<Q> = (0..d).map(|c| cols[c][r].clone()).collect();
                row.push(if r == 0 { Q::one() } else { Q::zero() });
                row
            })
            .collect();
        for c in 0..d {
            let piv = (c..d).find(|&r| !m[r][c].is_zero()).expect("not a field");
            m.swap(c, piv);
            let inv = m[c][c].recip();
            for v in m[c].iter_mut() {
                *v *= &inv;
            }
            for r in 0..d {
                if r != c && !m[r][c].is_zero() {
                    let f = m[r][c].clone();
                    for k in c..=d {
                        let t = &f * &m[c][k];
                        m[r][k] -= t;
                    }
                }
            }
        }
        Some((0..d).map(|r| m[r][d].clone()).collect())
    }
    /// enclosure of the embedded value at precision p
    pub fn fx(&self, e: &El, p: usize) -> Fx {
        let a = self.a.fx(p);
        let b = self.b.fx(p);
        let one = Fx {
            lo: BigInt::one() << p,
            hi: BigInt::one() << p,
            p,
        };
        let mut sum = Fx {
            lo: BigInt::zero(),
            hi: BigInt::zero(),
            p,
        };
        let mut ap = one.clone();
        for i in 0..self.n {
            let mut bp = ap.clone();
            for j in 0..self.m {
                let c = &e[i * self.m + j];
                if !c.is_zero() {
                    sum = sum.add(&bp.mul(&Fx::from_q(c, p)));
                }
                if j + 1 < self.m {
                    bp = bp.mul(&b);
                }
            }
            if i + 1 < self.n {
                ap = ap.mul(&a);
            }
        }
        sum
    }
    pub fn sign(&self, e: &El) -> Ordering {
        if let Some(v) = self.as_rational(e) {
            return v.cmp(&Q::zero());
        }
        let mut p = 64;
        loop {
            let s = self.fx(e, p);
            if s.lo.is_positive() {
                return Ordering::Greater;
            }
            if s.hi.is_negative() {
                return Ordering::Less;
            }
            p *= 2;
            assert!(p < 1 << 17, "oracle: sign undecided");
        }
    }
    pub fn cmp(&self, a: &El, b: &El) -> Ordering {
        self.sign(&self.sub(a, b))
    }
    pub fn cmp_q(&self, a: &El, b: &Q) -> Ordering {
        self.sign(&self.sub(a, &self.rat(b)))
    }
    /// floor of the embedded value * 2^k
    pub fn floor_scaled(&self, e: &El, k: usize) -> BigInt {
        if let Some(v) = self.as_rational(e) {
            return (v.numer() << k).div_floor(v.denom());
        }
        let mut p = 64 + k;
        loop {
            let s = self.fx(e, p);
            let lo = shr_floor(&s.lo, p - k);
            let hi = shr_floor(&s.hi, p - k);
            // irrational: never exactly on the grid
            if lo == hi && shr_ceil(&s.lo, p - k) != lo {
                return lo;
            }
            if lo == hi {
                return lo;
            }
            p *= 2;
            assert!(p < 1 << 17, "oracle: floor undecided");
        }
    }
    pub fn floor(&self, e: &El) -> BigInt {
        self.floor_scaled(e, 0)
    }
    /// primitive minimal polynomial with positive leading coefficient (Krylov)
    pub fn minpoly(&self, e: &El) -> ZP {
        let d = self.dim();
        // rows: reduced echelon of powers with their combination
        let mut rows: Vec<(usize, Vec<Q>, Vec<Q>)> = vec![]; // pivot, vector, combination
        let mut cur = self.rat(&Q::one());
        for k in 0..=d {
            let mut v = cur.clone();
            let mut comb = vec![Q::zero(); k + 1];
            comb[k] = Q::one();
            for (piv, rv, rc) in &rows {
                if !v[*piv].is_zero() {
                    let f = v[*piv].clone();
                    for i in 0..d {
                        let t = &f * &rv[i];
                        v[i] -= t;
                    }
                    for (i, c) in rc.iter().enumerate() {
                        let t = &f * c;
                        comb[i] -= t;
                    }
                }
            }
            match v.iter().position(|x| !x.is_zero()) {
                None => return q_to_primitive(&comb),
                Some(piv) => {
                    let inv = v[piv].recip();
                    for x in &mut v {
                        *x *= &inv;
                    }
                    for x in &mut comb {
                        *x *= &inv;
                    }
                    rows.push((piv, v, comb));
                }
            }
            cur = self.mul(&cur, e);
        }
        unreachable!()
    }
    pub fn describe(&self, e: &El) -> String {
        let (a, b) = (self.a.bounds(), self.b.bounds());
        format!(
            "{:?} in Q(a,b), a root of {} in [{},{}], b root of {} in [{},{}]",
            e.iter().map(|v| v.to_string()).collect::<Vec<_>>(),
            fmt(&self.f),
            a.0,
            a.1,
            fmt(&self.g),
            b.0,
            b.1
        )
    }
    pub fn rand_el(&self, r: &mut Rng, num: i64, den: i64) -> El {
        let d = self.dim();
        match r.below(10) {
            0 => self.rat(&r.ratio_small(num, den)),
            1 => {
                // one basis monomial
                let mut e = self.zero();
                e[r.us(0, d - 1)] = r.ratio_small_nz(num, den);
                e
            }
            2 | 3 => {
                // rational + monomial
                let mut e = self.rat(&r.ratio_small(num, den));
                let i = r.us(0, d - 1);
                e[i] += r.ratio_small_nz(num, den);
                e
            }
            _ => (0..d)
                .map(|_| if r.chance(1, 2) { r.ratio_small(num, den) } else { Q::zero() })
                .collect(),
        }
    }
}

/// number fields that are fields by construction, with a real embedding
pub fn rand_field(r: &mut Rng, max_dim: usize) -> Field {
    loop {
        let trivial = zp(&[0, 1]);
        let c = r.below(10);
        let fi = r.us(0, 7);
        let gi = r.us(0, 7);
        let fld = match c {
            0 | 1 | 2 => {
                let d = r.us(2, max_dim.min(4));
                let mx = *r.pick(&[2i64, 3, 5, 10]);
                Field::new(&rand_irreducible(r, d, mx), fi, &trivial, 0)
            }
            3 => {
                // pure radicals x^d - p
                let d = r.us(2, max_dim.min(5));
                let p = *r.pick(&[2i64, 3, 5, 6, 7, 10]);
                let mut v = vec![BigInt::zero(); d + 1];
                v[0] = z(-p);
                v[d] = z(1);
                Field::new(&v, fi, &trivial, 0)
            }
            4 | 5 | 6 if max_dim >= 4 => {
                // biquadratic with independent square classes
                let (m, n) = *r.pick(&[(2i64, 3i64), (2, 5), (3, 5), (2, 7), (5, 6), (3, 7), (2, 15), (6, 10)]);
                let s = r.int(-3, 3);
                let f = primitive(&compose_shift(&zp(&[-m, 0, 1]), &z(s)));
                let g = zp(&[-n, 0, 1]);
                Field::new(&f, fi, &g, gi)
            }
            7 if max_dim >= 6 => {
                // degrees 2 and 3 are coprime: the tensor product is a field
                let f = rand_irreducible(r, 2, 5);
                let g = rand_irreducible(r, 3, 4);
                Field::new(&f, fi, &g, gi)
            }
            8 => {
                // real subfields of cyclotomic fields / totally real cubics and quartics
                let f = match r.below(5) {
                    0 => zp(&[1, -2, -1, 1]),      // 2cos(2pi/7)
                    1 => zp(&[1, -3, 0, 1]),       // 2cos(2pi/9)
                    2 => zp(&[1, 0, -4, 0, 1]),    // 2cos(pi/12)
                    3 => zp(&[2, 0, -4, 0, 1]),    // 2cos(pi/8)
                    _ => zp(&[1, 0, -10, 0, 1]),   // sqrt2+sqrt3
                };
                if f.len() - 1 > max_dim {
                    continue;
                }
                Field::new(&f, fi, &trivial, 0)
            }
            _ => Field::new(&rand_irreducible(r, 2, 12), fi, &trivial, 0),
        };
        if let Some(f) = fld {
            if f.dim() <= max_dim {
                return f;
            }
        }
    }
}

/// simple extensions of high degree: Q(alpha) for irreducible polynomials known in advance
pub fn high_field(r: &mut Rng, cap: usize) -> Field {
    let trivial = zp(&[0, 1]);
    loop {
        let f: Vec<BigInt> = match r.below(4) {
            0 => {
                // Eisenstein
                let p = *r.pick(&[2i64, 3, 5, 7]);
                let d = r.us(5, cap);
                let mut v: Vec<BigInt> = (0..=d).map(|_| if r.chance(1, 2) { BigInt::zero() } else { z(p * r.int(-4, 4)) }).collect();
                v[0] = z(p * *r.pick(&[1i64, -1]));
                v[d] = z(1);
                if r.chance(1, 3) {
                    v.reverse();
                    if v[d].is_negative() {
                        v = v.into_iter().map(|c| -c).collect();
                    }
                }
                v
            }
            1 => {
                // Selmer: x^n - x - 1
                let d = r.us(5, cap);
                let mut v = vec![BigInt::zero(); d + 1];
                v[0] = z(-1);
                v[1] = z(-1);
                v[d] = z(1);
                v
            }
            2 => {
                let d = r.us(5, cap);
                let mut v = vec![BigInt::zero(); d + 1];
                v[0] = z(-*r.pick(&[2i64, 3, 5, 6, 10]));
                v[d] = z(1);
                v
            }
            _ => {
                // 2 cos(2 pi / p): all roots real, crowded near +-2
                let p = *r.pick(&[11usize, 13, 17, 19, 23]);
                let n = (p - 1) / 2;
                if n > cap {
                    continue;
                }
                let (mut a, mut b) = (zp(&[2]), zp(&[0, 1]));
                let mut s = zp(&[1]);
                for _ in 0..n {
                    let mut t = s.clone();
                    t.resize(t.len().max(b.len()), BigInt::zero());
                    for (x, y) in t.iter_mut().zip(&b) {
                        *x += y;
                    }
                    s = t;
                    let mut nx = vec![BigInt::zero()];
                    nx.extend(b.iter().cloned());
                    for (x, y) in nx.iter_mut().zip(&a) {
                        *x -= y;
                    }
                    a = b;
                    b = nx;
                }
                s
            }
        };
        if let Some(f) = Field::new(&f, r.us(0, 11), &trivial, 0) {
            return f;
        }
    }
}
/// an element of small height generating (nearly always) the whole field
pub fn high_el(fld: &Field, r: &mut Rng) -> El {
    let a = fld.gen_a();
    let a = match r.below(5) {
        0 => fld.mul(&a, &a),
        1 => fld.inv(&a).unwrap(),
        _ => a,
    };
    let a = fld.mul(&a, &fld.rat(&r.ratio_small_nz(4, 3)));
    fld.add(&a, &fld.rat(&r.ratio_small(5, 3)))
}

/// fields whose generator has a conjugate extremely close to it
pub fn close_field(r: &mut Rng, max_deg: usize) -> Field {
    let trivial = zp(&[0, 1]);
    loop {
        let k = r.us(4, 90);
        let f: ZP = if max_deg < 3 || r.chance(1, 2) {
            // (b +- sqrt n) / (2^k u)
            let n = *r.pick(&[2i64, 3, 5, 7, 17, 65]);
            let b: BigInt = {
                let bits = *r.pick(&[3usize, 20, 80]);
                r.big(bits) * 2 + 1
            };
            let u: BigInt = (BigInt::one() << k) * z(*r.pick(&[1i64, 1, 3, 5]));
            primitive(&[&b * &b - z(n), -(&b * &u * z(2)), &u * &u])
        } else {
            // Mignotte: x^d - p (a x - 1)^2, Eisenstein at p; two roots next to 1/a
            let d = r.us(3, max_deg);
            let p = *r.pick(&[2i64, 3, 5]);
            let a: BigInt = (BigInt::one() << (k / 2)) + z(r.int(0, 9));
            let mut v = vec![BigInt::zero(); d + 1];
            v[d] = z(1);
            v[0] -= p;
            v[1] += &a * (2 * p);
            v[2] -= &a * &a * p;
            v
        };
        if let Some(f) = Field::new(&f, r.us(0, 5), &trivial, 0) {
            return f;
        }
    }
}

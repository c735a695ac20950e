//! C23, reached through the guarded hooks of /repo/src/verif_hooks.rs (cfg algebraics_verif="quadratic").
#![allow(unused_imports)]
use crate::engine::*;
use crate::ensure;
use crate::poly::{fp, fp::FP};
use crate::real::{self, Fx};
use crate::ring::*;
use crate::rng::Rng;
use algebraics::mod_int::ModularInteger;
use algebraics::polynomial::Polynomial;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::{BigRational as Q, Ratio};
use num_traits::{One, Signed, ToPrimitive, Zero};
use rand::SeedableRng;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::ops::Bound;
use algebraics::verif_hooks::quadratic::Quadratic;

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c23")]
    v.push(Prop::new(
            "C23",
            "distinct quadratic numbers (or pairs) compared with exact square roots",
            vec![
                g("small-cube", 1331, 1331, quad_cube),
                g("create", 60000, 1200000, quad_create),
                g("compare", 60000, 1200000, quad_compare),
                g("compare-close", 40000, 800000, quad_close),
                g("compare-ratio", 60000, 1200000, quad_ratio),
                g("arithmetic", 60000, 1200000, quad_arith),
            ],
        ));
    v
}

/// exact value (p + s*sqrt(d)) with p, s rational, d an integer: rational when s is zero
#[derive(Clone, Debug)]
struct Val {
    p: Q,
    /// signed square of the irrational part
    s: i32,
    d: Q,
}
fn sqrt_exact(v: &BigInt) -> Option<BigInt> {
    let s = v.sqrt();
    if &s * &s == *v {
        Some(s)
    } else {
        None
    }
}
fn sqrt_q(v: &Q) -> Option<Q> {
    Some(Q::new(sqrt_exact(v.numer())?, sqrt_exact(v.denom())?))
}
impl Val {
    fn rat(p: Q) -> Val {
        Val { p, s: 0, d: Q::zero() }
    }
    /// p + s * sqrt(d)
    fn new(p: Q, s: i32, d: Q) -> Val {
        if s == 0 || d.is_zero() {
            return Val::rat(p);
        }
        match sqrt_q(&d) {
            Some(r) => Val::rat(p + r * Q::from_integer(s.into())),
            None => Val { p, s, d },
        }
    }
    /// root of a x^2 + b x + c selected by the sign of a
    fn root(c: &BigInt, b: &BigInt, a: &BigInt) -> Option<Val> {
        if a.is_zero() {
            if b.is_zero() {
                return None;
            }
            return Some(Val::rat(Q::new(-c, b.clone())));
        }
        let disc = b * b - BigInt::from(4) * a * c;
        if disc.is_negative() {
            return None;
        }
        let two_a = BigInt::from(2) * a;
        Some(Val::new(Q::new(-b, two_a.clone()), if a.is_positive() { 1 } else { -1 }, Q::new(disc, &two_a * &two_a)))
    }
    fn fx(&self, prec: usize) -> Fx {
        let b = Fx::from_q(&self.p, prec);
        if self.s == 0 {
            return b;
        }
        let r = real::root_q(&self.d, 2, prec);
        b.add(&if self.s > 0 { r } else { r.neg() })
    }
    fn cmp(&self, o: &Val) -> Ordering {
        if self.s == o.s && self.d == o.d {
            return self.p.cmp(&o.p);
        }
        // different irrational parts: never equal, refine until apart
        let mut prec = 64;
        loop {
            let diff = self.fx(prec).add(&o.fx(prec).neg());
            match diff.sign() {
                Some(s) if s > 0 => return Ordering::Greater,
                Some(s) if s < 0 => return Ordering::Less,
                _ => prec *= 2,
            }
            assert!(prec < 1 << 20);
        }
    }
    fn neg(&self) -> Val {
        Val { p: -&self.p, s: -self.s, d: self.d.clone() }
    }
    fn plus(&self, q: &Q) -> Val {
        Val { p: &self.p + q, s: self.s, d: self.d.clone() }
    }
}
/// the object is canonical and denotes the value
fn quad_same(c: &mut Ctx, what: &str, v: &Quadratic, want: &Val) -> R {
    let [c0, c1, c2] = v.terms();
    let gcd = c0.gcd(&c1).gcd(&c2);
    ensure!(c, gcd.is_one(), "not-canonical", "{}: terms {} {} {} have a common factor", what, c0, c1, c2);
    ensure!(c, c2.is_zero() == (want.s == 0), "not-canonical", "{}: terms {} {} {} for the {} value {:?}", what, c0, c1, c2, if want.s == 0 { "rational" } else { "irrational" }, want);
    if want.s == 0 {
        ensure!(c, c1.is_positive(), "not-canonical", "{}: rational with denominator {}", what, c1);
    }
    let got = Val::root(&c0, &c1, &c2);
    ensure!(c, got.as_ref().map_or(false, |g| g.s == want.s && g.d == want.d && g.p == want.p), "wrong-value", "{}: terms {} {} {} denote {:?}, should be {:?}", what, c0, c1, c2, got, want);
    let integer = want.s == 0 && want.p.is_integer();
    ensure!(c, v.is_ratio() == (want.s == 0) && v.is_integer() == integer && v.to_ratio() == if want.s == 0 { Some(want.p.clone()) } else { None } && v.to_integer() == if integer { Some(want.p.to_integer()) } else { None }, "conversion", "{}: conversions of {:?}", what, want);
    let sign = want.cmp(&Val::rat(Q::zero()));
    ensure!(c, v.is_positive() == (sign == Ordering::Greater) && v.is_negative() == (sign == Ordering::Less) && v.is_zero() == (sign == Ordering::Equal), "wrong-sign", "{}: sign of {:?} given as +{} -{} 0{}", what, want, v.is_positive(), v.is_negative(), v.is_zero());
    ensure!(c, v.is_one() == (want.s == 0 && want.p.is_one()), "wrong-one", "{}: is_one of {:?}", what, want);
    Ok(())
}
fn rand_terms(r: &mut Rng) -> [BigInt; 3] {
    let m = r.below(5);
    let mut v = [0, 1, 2].map(|_| match m {
        0 => BigInt::from(r.small(4)),
        1 | 2 => BigInt::from(r.small(100)),
        3 => r.big(40),
        _ => r.big(120),
    });
    match r.below(6) {
        0 => {
            // rational roots: (ax+b)(cx+d)
            let (a, b, cc, d) = (r.small(9), r.small(30), r.small(9), r.small(30));
            v = [BigInt::from(b * d), BigInt::from(a * d + b * cc), BigInt::from(a * cc)];
        }
        1 => {
            let k = BigInt::from(r.small_nz(12));
            v = v.map(|x| x * &k);
        }
        2 => v[r.clone().us(0, 2)] = BigInt::zero(),
        3 => {
            // opposite signs at the ends: always real
            v[0] = -v[2].signum() * v[0].abs()
        }
        _ => {}
    }
    v
}
fn rand_quad(r: &mut Rng) -> (Quadratic, Val, [BigInt; 3]) {
    loop {
        let t = rand_terms(r);
        if let Some(v) = Val::root(&t[0], &t[1], &t[2]) {
            if let Some(q) = Quadratic::new(t[0].clone(), t[1].clone(), t[2].clone()) {
                return (q, v, t);
            }
        }
    }
}
fn one_create(c: &mut Ctx, t: [BigInt; 3]) -> R {
    let want = Val::root(&t[0], &t[1], &t[2]);
    c.note(|| format!("terms {:?} -> {:?}", t, want));
    let got = Quadratic::new(t[0].clone(), t[1].clone(), t[2].clone());
    c.seen("constructions");
    match (got, want) {
        (None, None) => Ok(()),
        (Some(v), Some(w)) => {
            quad_same(c, "constructed", &v, &w)?;
            quad_same(c, "negated", &v.neg(), &w.neg())?;
            let s = w.cmp(&Val::rat(Q::zero()));
            quad_same(c, "absolute value", &v.abs(), &if s == Ordering::Less { w.neg() } else { w.clone() })?;
            quad_same(c, "sign", &v.signum(), &Val::rat(Q::from_integer((s as i32).into())))?;
            if t.iter().all(|x| x.bits() < 300) {
                let f = v.to_f64();
                // error scale: the two terms added, not their sum
                let p = w.fx(200);
                let exact = (p.lo_q().to_f64().unwrap_or(0.0) + p.hi_q().to_f64().unwrap_or(0.0)) / 2.0;
                let [c0, c1, c2] = v.terms();
                let scale = if w.s == 0 {
                    exact.abs()
                } else {
                    let disc = (&c1 * &c1 - BigInt::from(4) * &c2 * &c0).to_f64().unwrap_or(0.0);
                    (c1.abs().to_f64().unwrap_or(0.0) + disc.sqrt()) / (2.0 * c2.abs().to_f64().unwrap_or(1.0))
                };
                ensure!(c, f.map_or(false, |f| (f - exact).abs() <= 1e-12 * scale + 1e-300), "float", "{:?} as f64 is {:?}, exact value {}", t, f, exact);
            }
            c.distinct(t);
            Ok(())
        }
        (g, w) => {
            ensure!(c, false, "domain", "terms {:?}: constructed {:?}, exact root {:?}", t, g, w);
            Ok(())
        }
    }
}
fn quad_create(c: &mut Ctx, _: u64) -> R {
    let t = rand_terms(&mut c.rng);
    one_create(c, t)?;
    let [z, o, d] = Quadratic::constants();
    quad_same(c, "zero", &z, &Val::rat(Q::zero()))?;
    quad_same(c, "one", &o, &Val::rat(Q::one()))?;
    quad_same(c, "default", &d, &Val::rat(Q::zero()))?;
    let (n, dd) = (c.rng.big(60), if c.rng.chance(1, 10) { BigInt::zero() } else { c.rng.big(60) });
    match Quadratic::from_ratio(n.clone(), dd.clone()) {
        None => ensure!(c, dd.is_zero(), "domain", "{}/{} refused", n, dd),
        Some(v) => {
            ensure!(c, !dd.is_zero(), "domain", "{}/{} accepted", n, dd);
            let q = Q::new(n.clone(), dd);
            quad_same(c, "from ratio", &v, &Val::rat(q.clone()))?;
            quad_same(c, "from rational", &Quadratic::from_rational(q.clone()), &Val::rat(q))?;
        }
    }
    quad_same(c, "from integer", &Quadratic::from_integer(n.clone()), &Val::rat(Q::from_integer(n)))
}
/// all term triples in -5..=5, against each other within a slice
fn quad_cube(c: &mut Ctx, i: u64) -> R {
    let t = |i: u64| [(i % 11) as i64 - 5, (i / 11 % 11) as i64 - 5, (i / 121) as i64 - 5].map(BigInt::from);
    let a = t(i);
    one_create(c, a.clone())?;
    let Some(va) = Val::root(&a[0], &a[1], &a[2]) else { return Ok(()) };
    let qa = Quadratic::new(a[0].clone(), a[1].clone(), a[2].clone()).unwrap();
    let step = if c.thorough { 1 } else { 13 };
    let mut j = i % step;
    while j < 1331 {
        let b = t(j);
        j += step;
        if let Some(vb) = Val::root(&b[0], &b[1], &b[2]) {
            let qb = Quadratic::new(b[0].clone(), b[1].clone(), b[2].clone()).unwrap();
            cmp_pair(c, &qa, &va, &qb, &vb)?;
        }
    }
    Ok(())
}
fn hash<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
fn cmp_pair(c: &mut Ctx, a: &Quadratic, va: &Val, b: &Quadratic, vb: &Val) -> R {
    let want = va.cmp(vb);
    c.seen("comparisons");
    ensure!(c, a.cmp(b) == want && b.cmp(a) == want.reverse(), "wrong-order", "{:?} (terms {:?}) compared with {:?} (terms {:?}): {:?} / {:?}, exact {:?}", va, a.terms(), vb, b.terms(), a.cmp(b), b.cmp(a), want);
    ensure!(c, (a == b) == (want == Ordering::Equal) && (a != b || hash(a) == hash(b)), "wrong-equality", "{:?} == {:?} given as {}", va, vb, a == b);
    Ok(())
}
fn quad_compare(c: &mut Ctx, _: u64) -> R {
    let (a, va, ta) = rand_quad(&mut c.rng);
    let (b, vb, tb) = rand_quad(&mut c.rng);
    c.note(|| format!("compare {:?} with {:?}", ta, tb));
    cmp_pair(c, &a, &va, &b, &vb)?;
    cmp_pair(c, &a, &va, &a, &va)?;
    cmp_pair(c, &a, &va, &a.neg(), &va.neg())?;
    // the other root of the same polynomial
    let t = a.terms().map(|x| -x);
    if let (Some(o), Some(vo)) = (Quadratic::new(t[0].clone(), t[1].clone(), t[2].clone()), Val::root(&t[0], &t[1], &t[2])) {
        cmp_pair(c, &a, &va, &o, &vo)?;
    }
    c.distinct((ta, tb));
    Ok(())
}
/// perturbed coefficients: values that agree to many digits, in all four sign combinations
fn quad_close(c: &mut Ctx, _: u64) -> R {
    let (a, va, ta) = rand_quad(&mut c.rng);
    let sh = c.rng.us(0, 80);
    let mut t = ta.clone().map(|x| x << sh);
    let k = c.rng.us(0, 2);
    t[k] += c.rng.small(2);
    if c.rng.chance(1, 2) {
        // near the other root, or the mirrored value
        t = t.map(|x| -x);
    }
    if c.rng.chance(1, 4) {
        t[1] = -t[1].clone();
    }
    c.note(|| format!("compare {:?} with {:?}", ta, t));
    if let (Some(b), Some(vb)) = (Quadratic::new(t[0].clone(), t[1].clone(), t[2].clone()), Val::root(&t[0], &t[1], &t[2])) {
        cmp_pair(c, &a, &va, &b, &vb)?;
        cmp_pair(c, &a.neg(), &va.neg(), &b, &vb)?;
        cmp_pair(c, &a.neg(), &va.neg(), &b.neg(), &vb.neg())?;
        c.distinct((ta, t));
    }
    Ok(())
}
fn quad_ratio(c: &mut Ctx, _: u64) -> R {
    let (a, va, ta) = rand_quad(&mut c.rng);
    let q = match c.rng.below(4) {
        0 => c.rng.ratio_small(20, 9),
        1 => c.rng.ratio(60, 40),
        _ => {
            // a truncation of the value itself
            let p = c.rng.us(2, 90);
            let f = va.fx(p);
            if c.rng.chance(1, 2) {
                f.lo_q()
            } else {
                f.hi_q()
            }
        }
    };
    c.note(|| format!("compare {:?} with {}", ta, q));
    let want = va.cmp(&Val::rat(q.clone()));
    let got = a.cmp_ratio(&q);
    ensure!(c, got == (Some(want), want == Ordering::Equal, want == Ordering::Less), "wrong-order", "{:?} (terms {:?}) compared with {}: {:?}, exact {:?}", va, a.terms(), q, got, want);
    let got = Quadratic::ratio_cmp(&q, &a);
    ensure!(c, got == (Some(want.reverse()), want == Ordering::Equal), "wrong-order", "{} compared with {:?}: {:?}, exact {:?}", q, va, got, want.reverse());
    cmp_pair(c, &a, &va, &Quadratic::from_rational(q.clone()), &Val::rat(q.clone()))?;
    c.distinct((ta, q.to_string()));
    Ok(())
}
fn quad_arith(c: &mut Ctx, _: u64) -> R {
    let (a, va, ta) = rand_quad(&mut c.rng);
    let q = if va.s == 0 && c.rng.chance(1, 3) { -&va.p } else if c.rng.chance(1, 2) { c.rng.ratio_small(20, 9) } else { c.rng.ratio(60, 40) };
    let b = Quadratic::from_rational(q.clone());
    c.note(|| format!("{:?} +- {}", ta, q));
    let opt = |v: Option<Quadratic>| v;
    for (what, got, want) in [
        ("value + rational", opt(a.checked_add(&b)), va.plus(&q)),
        ("rational + value", opt(b.checked_add(&a)), va.plus(&q)),
        ("value - rational", opt(a.checked_sub(&b)), va.plus(&-&q)),
        ("rational - value", opt(b.checked_sub(&a)), va.neg().plus(&q)),
    ] {
        c.seen("sums with rationals");
        match got {
            Some(v) => quad_same(c, what, &v, &want)?,
            None => ensure!(c, false, "refused", "{}: refused for {:?} and {}", what, va, q),
        }
    }
    match b.checked_recip() {
        None => ensure!(c, q.is_zero(), "refused", "reciprocal of {} refused", q),
        Some(v) => {
            ensure!(c, !q.is_zero(), "domain", "reciprocal of zero given");
            quad_same(c, "reciprocal", &v, &Val::rat(q.recip()))?;
        }
    }
    c.distinct((ta, q.to_string()));
    Ok(())
}

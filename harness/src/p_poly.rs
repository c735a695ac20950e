//! Properties of Polynomial<T>: ring operations, division, gcd, resultant, square-free part, Sturm sequences, factorization.
use crate::engine::*;
use crate::ensure;
use crate::poly::{self, fmtq, ZP};
use crate::ring::*;
use crate::rng::Rng;
use algebraics::{
    polynomial::{PolynomialCoefficient, Polynomial, PolynomialCoefficientAbsSupported, PolynomialDivSupported, PolynomialReducingFactorSupported},
    traits::{ExactDiv, ExactDivAssign, ExtendedGCD, GCD},
};
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational as Q;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedRem, CheckedSub, One, Pow, Signed, ToPrimitive, Zero};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[macro_export]
macro_rules! rings {
    ($f:ident, $c:expr, [$($ring:ident),*]) => {{
        let k = $c.rng.below(1_000_000) as usize;
        let fs: &[fn(&mut Ctx) -> R] = &[$(|c: &mut Ctx| { let r = rings!(@ $ring, c); $f(c, &r) }),*];
        fs[k % fs.len()]($c)
    }};
    (@ F2, $c:expr) => { F2(2) };
    (@ F3, $c:expr) => { F3(3) };
    (@ F5, $c:expr) => { F5(5) };
    (@ F7, $c:expr) => { F7(7) };
    (@ F13, $c:expr) => { F13(13) };
    (@ FPi64, $c:expr) => { FPi64(some_prime(&mut $c.rng)) };
    (@ FPi32, $c:expr) => { FPi32(odd_prime(&mut $c.rng)) };
    (@ FPbig, $c:expr) => { FPbig(some_prime(&mut $c.rng)) };
    (@ ModN, $c:expr) => { ModN(*$c.rng.pick(&[4u64, 6, 8, 9, 12, 15, 16, 100, 1 << 20])) };
    (@ $r:ident, $c:expr) => { $r };
}

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c10")]
    v.push(Prop::new(
            "C10",
            "distinct (coefficient ring, operation operands) with at least one non-constant operand, compared with schoolbook arithmetic",
            vec![
                g("ops-int", 60000, 1500000, |c, _| rings!(ring_ops, c, [ZI8, ZI16, ZI32, ZI64, ZI128, ZIsize, ZBig, ZBig, ZBig])),
                g("ops-ratio", 50000, 1200000, |c, _| rings!(ring_ops, c, [QI32, QI64, QI128, QBig, QBig, QBig])),
                g("ops-modular", 50000, 1200000, |c, _| rings!(ring_ops, c, [F2, F3, F5, F7, F13, FPi64, FPi32, FPbig, ModN])),
                g("ops-nested", 8000, 200000, |c, _| rings!(ring_ops, c, [ZNest])),
                g("access-int", 20000, 400000, |c, _| rings!(access, c, [ZI8, ZI16, ZI32, ZI64, ZI128, ZIsize, ZBig, ZBig])),
                g("access-ratio", 20000, 400000, |c, _| rings!(access, c, [QI32, QI64, QI128, QBig, QBig])),
                g("access-modular", 15000, 300000, |c, _| rings!(access, c, [F2, F3, F5, F7, F13, FPi64, FPi32, FPbig, ModN])),
                g("access-nested", 4000, 100000, |c, _| rings!(access, c, [ZNest])),
                g("norms-int", 8000, 200000, |c, _| rings!(norms, c, [ZI16, ZI32, ZI64, ZI128, ZIsize, ZBig, ZBig])),
                g("norms-ratio", 8000, 200000, |c, _| rings!(norms, c, [QI32, QI64, QI128, QBig, QBig])),
                g("divisor-form", 20000, 400000, divisor_form),
                g("coefficient-parts", 20000, 400000, |c, _| rings!(coefficient_parts, c, [ZI8, ZI32, ZI64, ZI128, ZBig, QI32, QI64, QI128, QBig, QBig, QBig, F2, F3, F13, FPi64, FPbig, ModN, ZNest])),
                g("convert", 6000, 100000, convert),
                g("long", 1200, 30000, |c, _| rings!(long_ops, c, [ZI64, ZI128, ZBig, ZBig, QI128, QBig, QBig, F2, F3, F13, FPi64, FPi32, FPbig, ModN, ZNest])),
                g("high-powers", 3000, 60000, |c, _| rings!(high_powers, c, [ZI64, ZI128, ZBig, ZBig, QI128, QBig, F2, F3, F13, FPi64, FPi32, FPbig, ModN, ZNest])),
                g("arrays", 600, 6000, |c, _| rings!(arrays, c, [ZI8, ZI64, ZBig, QBig, F3, FPi64, ZNest])),
            ],
        ));
    #[cfg(feature = "c11")]
    v.push(Prop::new(
            "C11",
            "distinct (coefficient ring, dividend, non-zero divisor) whose quotient and remainder were recomputed",
            vec![
                g("field-ratio", 30000, 700000, |c, _| rings!(field_div, c, [QI128, QBig, QBig, QBig])),
                g("field-modular", 40000, 1000000, |c, _| rings!(field_div, c, [F2, F3, F5, F13, FPi64, FPi32, FPbig])),
                g("pseudo-int", 40000, 1000000, |c, _| rings!(pseudo_div, c, [ZI32, ZI64, ZI128, ZBig, ZBig, ZBig])),
                g("pseudo-other", 30000, 700000, |c, _| rings!(pseudo_div, c, [QBig, QI128, F2, F3, F13, FPi64, ZNest, ModN])),
                g("exact-int", 40000, 1000000, |c, _| rings!(exact, c, [ZI64, ZI128, ZBig, ZBig])),
                g("exact-other", 20000, 500000, |c, _| rings!(exact, c, [QBig, QI128, F2, F3, F13, FPi64, FPi32])),
                g("exact-nested", 3000, 60000, exact_nested),
                g("powmod", 12000, 300000, |c, _| rings!(powmod, c, [F2, F3, F5, F13, FPi64, FPi32, FPbig, QBig])),
                g("by-zero", 4000, 60000, |c, _| rings!(by_zero, c, [QBig, QI64, F2, F3, F13, FPi64])),
                g("by-zero-int", 4000, 60000, |c, _| rings!(by_zero_int, c, [ZI32, ZI64, ZI128, ZBig])),
            ],
        ));
    #[cfg(feature = "c12")]
    v.push(Prop::new(
            "C12",
            "distinct pairs of polynomials (with planted common factors) whose divisors were recomputed",
            vec![
                g("gcd-ratio", 12000, 300000, |c, _| rings!(gcd_field, c, [QBig])),
                g("gcd-modular", 30000, 700000, |c, _| rings!(gcd_field, c, [F2, F3, F5, F13, FPi64, FPi32, FPbig])),
                g("gcd-int", 12000, 300000, gcd_int),
                g("gcd-small-exhaustive", 243, 243, gcd_int_small),
                g("gcd-wide-gaps", 2500, 50000, |c, _| {
                    let d = c.rng.us(0, 3);
                    let f = poly::rand_zp_nz(&mut c.rng, d, 4);
                    let (a, b) = zprs(c, 26, &f);
                    gcd_int_on(c, a, b)
                }),
                g("content-int", 20000, 500000, |c, _| rings!(content_int, c, [ZI16, ZI32, ZI64, ZI128, ZIsize, ZBig, ZBig, ZBig])),
                g("content-ratio", 15000, 400000, content_ratio),
                g("monic", 15000, 400000, |c, _| rings!(monic, c, [QBig, QI64, F2, F3, F5, F13, FPi64, FPi32, FPbig])),
            ],
        ));
    #[cfg(feature = "c13")]
    v.push(Prop::new(
            "C13",
            "distinct pairs of polynomials whose resultant was compared with the Sylvester determinant",
            vec![
                g("int", 12000, 300000, resultant_int),
                g("small-exhaustive", 243, 243, resultant_int_small),
                g("wide-gaps", 1500, 30000, |c, _| {
                    let one = poly::zp(&[c.rng.small_nz(3)]);
                    let (a, b) = zprs(c, 24, &one);
                    if a.is_empty() || b.is_empty() {
                        return Ok(());
                    }
                    resultant_int_on(c, a, b)
                }),
                g("ratio", 8000, 200000, resultant_ratio),
                g("modular", 15000, 400000, |c, _| rings!(resultant_mod, c, [F2, F3, F5, F13, FPi64, FPi32, FPbig])),
                g("nested", 2500, 50000, resultant_nested),
                g("common-root", 8000, 200000, resultant_common),
            ],
        ));
    #[cfg(feature = "c14")]
    v.push(Prop::new(
            "C14",
            "distinct polynomials (with planted multiplicities) split into square-free parts",
            vec![
                g("planted", 8000, 200000, yun_planted),
                g("random", 6000, 150000, yun_random),
                g("small-exhaustive", 3361, 3361, yun_small),
                g("predicate", 8000, 200000, square_free_predicate),
                g("predicate-modular", 15000, 400000, |c, _| rings!(square_free_mod, c, [F2, F3, F5, F13, FPi64, FPi32, FPbig])),
            ],
        ));
    #[cfg(feature = "c15")]
    v.push(Prop::new(
            "C15",
            "distinct polynomials whose sign changes were compared with independent root counts",
            vec![
                g("planted-roots", 8000, 200000, |c, _| sturm(c, true)),
                g("random", 6000, 150000, |c, _| sturm(c, false)),
                g("small-exhaustive", 729, 729, sturm_small),
            ],
        ));
    #[cfg(feature = "c16")]
    v.push(Prop::new(
            "C16",
            "distinct integer polynomials factored",
            vec![
                g("products", 4000, 80000, factor_products),
                g("random", 4000, 80000, factor_random),
                g("small-exhaustive", 3125, 3125, factor_small),
                g("leading", 2500, 50000, factor_leading),
                g("many-modular-factors", 200, 4000, factor_hard),
                g("deep-subsets", 14, 14, factor_deep),
                g("cyclotomic", 120, 2500, factor_cyclotomic),
                g("large-coefficients", 1000, 20000, factor_large),
                g("shapes", 3000, 60000, factor_shapes),
                g("random-sources", 600, 12000, factor_rngs),
                g("bad-primes", 400, 8000, factor_bad_primes),
                g("coefficient-bound", 60, 1500, factor_bound),
                g("many-factors", 250, 5000, factor_many),
            ],
        ));
    v
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
/// the polynomial has exactly these coefficients, in normal form, and equals (and hashes as) one built from scratch
fn same<A: Ring>(c: &mut Ctx, r: &A, what: &str, got: &Polynomial<A::T>, want: &[Q]) -> R {
    let m = r.rd(got);
    ensure!(c, m == want, "wrong-result", "{} over {}: got {}, exact result is {}", what, A::NAME, fmtq(&m), fmtq(want));
    let fresh = r.p(want);
    ensure!(c, *got == fresh && hash(got) == hash(&fresh), "not-normal", "{} over {}: {} is not in normal form (differs from the same polynomial built from its coefficients): {:?} / {:?}", what, A::NAME, fmtq(want), got, fresh);
    ensure!(c, got.len() == want.len() && got.degree() == want.len().checked_sub(1) && got.is_empty() == want.is_empty() && got.is_zero() == want.is_empty(), "wrong-length", "{} over {}: length/degree of {}", what, A::NAME, fmtq(want));
    Ok(())
}

// ---------------------------------------------------------------- C10
fn ring_ops<A: Ring>(c: &mut Ctx, r: &A) -> R {
    let d = 1 + c.rng.us(0, r.max_deg());
    let a = r.poly(&mut c.rng, d);
    let mut b = r.poly(&mut c.rng, d);
    // cancellation of leading terms, equal or opposite operands
    match c.rng.below(8) {
        0 => b = a.clone(),
        1 => b = r.sub(&[], &a),
        2 if a.len() > 1 => {
            b = a.clone();
            let k = c.rng.us(0, a.len() - 2);
            b[k] = r.norm(&b[k] + Q::one());
            b = r.nrm(b);
            if c.rng.chance(1, 2) {
                b = r.sub(&[], &b);
            }
        }
        _ => {}
    }
    let s = if c.rng.chance(1, 8) { a.first().cloned().map(|v| r.norm(-v)).unwrap_or_else(Q::zero) } else { r.gen(&mut c.rng) };
    let (ma, mb, ms) = (r.mag(&a), r.mag(&b), r.mag(&[s.clone()]));
    if !r.fits(&((&ma + &mb) * (&ma + &mb) * BigInt::from(2))) || !r.fits(&(&ma * &ms * &ms * BigInt::from(2))) {
        c.seen("skipped-overflow");
        return Ok(());
    }
    if a.len() > 1 || b.len() > 1 {
        c.distinct((A::NAME, r.modulus(), &a, &b, &s));
    }
    c.seen(A::NAME);
    let (pa, pb, ps) = (r.p(&a), r.p(&b), r.make(&s));
    c.note(|| format!("{}: a = {}, b = {}, s = {}", A::NAME, fmtq(&a), fmtq(&b), s));
    same(c, r, "construction", &pa, &a)?;
    // addition and subtraction, every operand form
    let sum = r.add(&a, &b);
    same(c, r, "&a + &b", &(&pa + &pb), &sum)?;
    same(c, r, "a + &b", &(pa.clone() + &pb), &sum)?;
    same(c, r, "&a + b", &(&pa + pb.clone()), &sum)?;
    same(c, r, "a + b", &(pa.clone() + pb.clone()), &sum)?;
    let mut t = pa.clone();
    t += &pb;
    same(c, r, "a += &b", &t, &sum)?;
    let mut t = pa.clone();
    t += pb.clone();
    same(c, r, "a += b", &t, &sum)?;
    match pa.checked_add(&pb) {
        Some(v) => same(c, r, "checked_add", &v, &sum)?,
        None => ensure!(c, false, "refused", "checked_add refused"),
    }
    let dif = r.sub(&a, &b);
    same(c, r, "&a - &b", &(&pa - &pb), &dif)?;
    same(c, r, "a - &b", &(pa.clone() - &pb), &dif)?;
    same(c, r, "&a - b", &(&pa - pb.clone()), &dif)?;
    same(c, r, "a - b", &(pa.clone() - pb.clone()), &dif)?;
    let mut t = pa.clone();
    t -= &pb;
    same(c, r, "a -= &b", &t, &dif)?;
    let mut t = pa.clone();
    t -= pb.clone();
    same(c, r, "a -= b", &t, &dif)?;
    match pa.checked_sub(&pb) {
        Some(v) => same(c, r, "checked_sub", &v, &dif)?,
        None => ensure!(c, false, "refused", "checked_sub refused"),
    }
    // multiplication
    let prod = r.mul(&a, &b);
    same(c, r, "&a * &b", &(&pa * &pb), &prod)?;
    same(c, r, "a * &b", &(pa.clone() * &pb), &prod)?;
    same(c, r, "&a * b", &(&pa * pb.clone()), &prod)?;
    same(c, r, "a * b", &(pa.clone() * pb.clone()), &prod)?;
    let mut t = pa.clone();
    t *= &pb;
    same(c, r, "a *= &b", &t, &prod)?;
    let mut t = pa.clone();
    t *= pb.clone();
    same(c, r, "a *= b", &t, &prod)?;
    match pa.checked_mul(&pb) {
        Some(v) => same(c, r, "checked_mul", &v, &prod)?,
        None => ensure!(c, false, "refused", "checked_mul refused"),
    }
    // scalars
    let sp = r.nrm(vec![s.clone()]);
    let sum = r.add(&a, &sp);
    same(c, r, "a + s", &(pa.clone() + ps.clone()), &sum)?;
    same(c, r, "a + &s", &(pa.clone() + &ps), &sum)?;
    same(c, r, "&a + s", &(&pa + ps.clone()), &sum)?;
    same(c, r, "&a + &s", &(&pa + &ps), &sum)?;
    let mut t = pa.clone();
    t += ps.clone();
    same(c, r, "a += s", &t, &sum)?;
    let mut t = pa.clone();
    t += &ps;
    same(c, r, "a += &s", &t, &sum)?;
    let dif = r.sub(&a, &sp);
    same(c, r, "a - s", &(pa.clone() - ps.clone()), &dif)?;
    same(c, r, "a - &s", &(pa.clone() - &ps), &dif)?;
    same(c, r, "&a - s", &(&pa - ps.clone()), &dif)?;
    same(c, r, "&a - &s", &(&pa - &ps), &dif)?;
    let mut t = pa.clone();
    t -= ps.clone();
    same(c, r, "a -= s", &t, &dif)?;
    let mut t = pa.clone();
    t -= &ps;
    same(c, r, "a -= &s", &t, &dif)?;
    let prod = r.scale(&a, &s);
    same(c, r, "a * s", &(pa.clone() * ps.clone()), &prod)?;
    same(c, r, "a * &s", &(pa.clone() * &ps), &prod)?;
    same(c, r, "&a * s", &(&pa * ps.clone()), &prod)?;
    same(c, r, "&a * &s", &(&pa * &ps), &prod)?;
    let mut t = pa.clone();
    t *= ps.clone();
    same(c, r, "a *= s", &t, &prod)?;
    let mut t = pa.clone();
    t *= &ps;
    same(c, r, "a *= &s", &t, &prod)?;
    // negation
    let n = r.sub(&[], &a);
    same(c, r, "-a", &(-pa.clone()), &n)?;
    same(c, r, "-&a", &(-&pa), &n)?;
    let mut t = pa.clone();
    t.negate();
    same(c, r, "negate", &t, &n)?;
    // powers
    let e = c.rng.us(0, 6);
    let mut bound = BigInt::one();
    for _ in 0..e.next_power_of_two().max(1) * 2 {
        bound *= &ma;
    }
    if (!a.is_empty() || e > 0) && r.fits(&bound) && a.len() * e < 40 {
        let w = if e == 0 { r.nrm(vec![Q::one()]) } else { r.pow(&a, e) };
        same(c, r, "pow(&a)", &(&pa).pow(e), &w)?;
        same(c, r, "pow(a) with a signed exponent", &pa.clone().pow(e as i32), &w)?;
        same(c, r, "pow(&a) with a big exponent", &(&pa).pow(BigInt::from(e)), &w)?;
        c.seen("powers");
    }
    // derivative
    if r.fits(&(&ma * BigInt::from(a.len() + 1))) {
        let d = r.deriv(&a);
        same(c, r, "derivative", &pa.derivative(), &d)?;
        same(c, r, "into_derivative", &pa.clone().into_derivative(), &d)?;
    }
    // evaluation
    let x = r.gen(&mut c.rng);
    let mut bound = &ma * &ma;
    for _ in 0..2 * a.len() {
        bound *= r.mag(&[x.clone()]);
    }
    if r.fits(&bound) {
        let px = r.make(&x);
        let w = r.eval(&a, &x);
        for (k, v) in [pa.eval(&px), pa.clone().into_eval(&px), pa.eval_generic(&px, r.make(&Q::zero())), pa.clone().into_eval_generic(&px, r.make(&Q::zero()))].iter().enumerate() {
            ensure!(c, r.read(v) == w, "wrong-value", "evaluation form {} of {} at {} over {}: got {}, exact value {}", k, fmtq(&a), x, A::NAME, r.read(v), w);
        }
        c.seen("evaluations");
    }
    Ok(())
}

fn access<A: Ring>(c: &mut Ctx, r: &A) -> R {
    let d = 1 + c.rng.us(0, r.max_deg());
    let a = r.poly(&mut c.rng, d);
    if !r.fits(&(r.mag(&a) * r.mag(&a))) {
        return Ok(());
    }
    c.distinct((A::NAME, r.modulus(), &a));
    c.note(|| format!("{}: {}", A::NAME, fmtq(&a)));
    let pa = r.p(&a);
    // construction from lists with trailing zeros
    let mut padded: Vec<A::T> = a.iter().map(|v| r.make(v)).collect();
    for _ in 0..c.rng.below(4) {
        padded.push(r.make(&Q::zero()));
    }
    same(c, r, "from a list with trailing zeros", &Polynomial::from(padded.clone()), &a)?;
    same(c, r, "from a slice with trailing zeros", &Polynomial::from(&padded[..]), &a)?;
    same(c, r, "collected", &padded.iter().cloned().collect::<Polynomial<A::T>>(), &a)?;
    same(c, r, "from a borrowed list", &Polynomial::from(std::borrow::Cow::Borrowed(&padded[..])), &a)?;
    same(c, r, "from an owned list", &Polynomial::from(std::borrow::Cow::Owned(padded.clone())), &a)?;
    let parts: (Vec<_>, _) = pa.clone().into();
    same(c, r, "from its own parts", &Polynomial::<A::T>::from(parts), &a)?;
    let s = r.gen(&mut c.rng);
    let sp = r.nrm(vec![s.clone()]);
    same(c, r, "from a constant", &Polynomial::from(r.make(&s)), &sp)?;
    same(c, r, "from a borrowed constant", &Polynomial::from(&r.make(&s)), &sp)?;
    let k = if c.rng.chance(1, 8) { c.rng.us(10, 300) } else { c.rng.us(0, 9) };
    let mut m = vec![Q::zero(); k];
    m.push(s.clone());
    same(c, r, "make_monomial", &Polynomial::make_monomial(r.make(&s), k), &r.nrm(m))?;
    same(c, r, "zero", &Polynomial::<A::T>::zero(), &[])?;
    same(c, r, "default", &Polynomial::<A::T>::default(), &[])?;
    let one = r.nrm(vec![Q::one()]);
    ensure!(c, pa.is_one() == (a == one), "is-one", "is_one of {}", fmtq(&a));
    ensure!(c, (&pa == &r.p(&sp)) == (a == sp), "equality", "equality of {} and {}", fmtq(&a), fmtq(&sp));
    // coefficients
    for i in 0..a.len() + 3 {
        let got = pa.nonzero_coefficient(i).map(|v| r.read(&v));
        ensure!(c, got == a.get(i).cloned(), "coefficient", "coefficient {} of {}: {:?}", i, fmtq(&a), got);
    }
    ensure!(c, pa.nonzero_highest_power_coefficient().map(|v| r.read(&v)) == a.last().cloned(), "coefficient", "leading coefficient of {}", fmtq(&a));
    ensure!(c, pa.clone().into_coefficients().iter().map(|v| r.read(v)).collect::<Vec<_>>() == a, "coefficient", "into_coefficients of {}", fmtq(&a));
    // iterators from both ends, in a random interleaving
    let take: Vec<bool> = (0..a.len() + 2).map(|_| c.rng.chance(1, 2)).collect();
    let mut it1 = pa.iter();
    let mut it2 = pa.clone().into_iter();
    let mut it3 = (&pa).into_iter();
    let (mut lo, mut hi) = (0, a.len());
    for f in take {
        ensure!(c, it1.len() == hi - lo && it2.len() == hi - lo && it3.size_hint() == (hi - lo, Some(hi - lo)), "iterator", "iterator length after {} of {}", lo, fmtq(&a));
        let want = if lo == hi {
            None
        } else if f {
            lo += 1;
            Some(a[lo - 1].clone())
        } else {
            hi -= 1;
            Some(a[hi].clone())
        };
        let got = if f { [it1.next(), it2.next(), it3.next()] } else { [it1.next_back(), it2.next_back(), it3.next_back()] };
        for v in &got {
            ensure!(c, v.as_ref().map(|v| r.read(v)) == want, "iterator", "iterating over {}", fmtq(&a));
        }
    }
    // one of the same kind
    let want = if a.is_empty() { None } else { Some(one.clone()) };
    ensure!(c, pa.to_one_if_nonzero().map(|v| r.rd(&v)) == want, "one", "to_one_if_nonzero of {}", fmtq(&a));
    let got = pa.clone().into_one_if_nonzero();
    match (&got, &want) {
        (Ok(v), Some(w)) => same(c, r, "into_one_if_nonzero", v, w)?,
        (Err(v), None) => same(c, r, "into_one_if_nonzero", v, &[])?,
        _ => ensure!(c, false, "one", "into_one_if_nonzero of {}", fmtq(&a)),
    }
    let mut t = pa.clone();
    let res = t.set_one_if_nonzero();
    ensure!(c, res.is_ok() == want.is_some(), "one", "set_one_if_nonzero of {}", fmtq(&a));
    same(c, r, "set_one_if_nonzero", &t, &want.unwrap_or_default())?;
    let mut t = pa.clone();
    t.set_zero();
    same(c, r, "set_zero", &t, &[])?;
    // the text lists every coefficient with its power
    let text = pa.to_string();
    let want = render(&a.iter().map(|v| r.make(v).to_string()).collect::<Vec<_>>(), A::NAME.starts_with("Poly"));
    ensure!(c, text == want, "text", "text of {} over {} is {:?}", fmtq(&a), A::NAME, text);
    Ok(())
}
fn render(cs: &[String], nested: bool) -> String {
    if cs.is_empty() {
        return "0".into();
    }
    let (l, r, v) = if nested { ("(", ")", "Y") } else { ("", "", "X") };
    cs.iter()
        .enumerate()
        .map(|(i, s)| match i {
            0 => s.clone(),
            1 => format!("{}{}{}*{}", l, s, r, v),
            _ => format!("{}{}{}*{}^{}", l, s, r, v, i),
        })
        .collect::<Vec<_>>()
        .join(" + ")
}

fn norms<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: Ord + Zero + PolynomialCoefficientAbsSupported,
{
    let a = { let d = r.max_deg(); r.poly(&mut c.rng, d) };
    if !r.fits(&(r.mag(&a) * r.mag(&a))) {
        return Ok(());
    }
    c.distinct((A::NAME, &a));
    let pa = r.p(&a);
    let mx = a.iter().map(|v| v.abs()).max();
    let mh = if a.is_empty() { None } else { Some(a.iter().fold(Q::zero(), |s, v| s + v.abs())) };
    ensure!(c, pa.nonzero_max_norm().map(|v| r.read(&v)) == mx && r.read(&pa.max_norm()) == mx.clone().unwrap_or_else(Q::zero), "max-norm", "max norm of {}: {:?}", fmtq(&a), pa.nonzero_max_norm());
    ensure!(c, pa.nonzero_manhattan_norm().map(|v| r.read(&v)) == mh && r.read(&pa.manhattan_norm()) == mh.clone().unwrap_or_else(Q::zero), "manhattan-norm", "Manhattan norm of {}: {:?}", fmtq(&a), pa.nonzero_manhattan_norm());
    for i in 0..a.len() + 2 {
        ensure!(c, r.read(&pa.coefficient(i)) == a.get(i).cloned().unwrap_or_else(Q::zero), "coefficient", "coefficient {} of {}", i, fmtq(&a));
    }
    ensure!(c, r.read(&pa.highest_power_coefficient()) == a.last().cloned().unwrap_or_else(Q::zero), "coefficient", "leading coefficient of {}", fmtq(&a));
    Ok(())
}

/// ratios are kept as integer elements over one divisor in lowest terms
fn divisor_form(c: &mut Ctx, _: u64) -> R {
    let r = QBig;
    let a = r.poly(&mut c.rng, 6);
    c.distinct(&a);
    let pa = r.p(&a);
    let (els, div) = pa.clone().split_out_divisor();
    let l = a.iter().fold(BigInt::one(), |l, v| Integer::lcm(&l, v.denom()));
    ensure!(c, div == l && els.iter().map(|e| Q::new(e.clone(), div.clone())).collect::<Vec<_>>() == a, "divisor", "elements {:?} over {} for {}", els, div, fmtq(&a));
    // unreduced parts, of either sign, with trailing zeros
    let k = { let v = c.rng.big_nz(20); v };
    let k = k.abs();
    let mut els2: Vec<BigInt> = els.iter().map(|e| e * &k).collect();
    for _ in 0..c.rng.below(3) {
        els2.push(BigInt::zero());
    }
    same(c, &r, "from unreduced parts", &Polynomial::from((els2, &div * &k)), &a)?;
    // sums that shrink the divisor
    let b = r.poly(&mut c.rng, 6);
    let t = r.sub(&b, &a);
    same(c, &r, "a + (b - a)", &(pa + r.p(&t)), &b)
}

/// the parts (elements over a divisor) in which coefficients are kept
fn coefficient_parts<A: Ring>(c: &mut Ctx, r: &A) -> R {
    use std::borrow::Cow::{Borrowed, Owned};
    let n = c.rng.us(1, 5);
    let qs: QP = (0..n).map(|_| r.gen(&mut c.rng)).collect();
    let k = c.rng.us(0, 9);
    let e = c.rng.us(0, 7);
    // everything computed below stays within the square of the product of all parts
    let mut bound = BigInt::from(81);
    for q in &qs {
        bound = bound * (q.numer().abs() + 1) * q.denom();
    }
    if !r.fits(&(&bound * &bound)) {
        c.seen("skipped-overflow");
        return Ok(());
    }
    c.seen(A::NAME);
    c.distinct((A::NAME, r.modulus(), &qs));
    c.note(|| format!("parts of {} {:?} {}", A::NAME, r.modulus(), fmtq(&qs)));
    let ts: Vec<A::T> = qs.iter().map(|q| r.make(q)).collect();
    let (one, zero) = (r.norm(Q::one()), Q::zero());
    let t = &ts[0];
    let q = &qs[0];
    macro_rules! is {
        ($what:expr, $got:expr, $want:expr) => {{
            let (got, want): (Q, Q) = (r.read(&$got), $want);
            ensure!(c, got == want, "coefficient-part", "{} of {} in {} {:?}: {}, should be {}", $what, q, A::NAME, r.modulus(), got, want);
        }};
    }
    let (el, dv) = <A::T>::coefficient_to_element(Borrowed(t));
    ensure!(c, <A::T>::coefficient_to_element(Owned(t.clone())) == (el.clone(), dv.clone()), "coefficient-part", "parts of {} differ by form", q);
    let mk = |e: &<A::T as PolynomialCoefficient>::Element, d: &<A::T as PolynomialCoefficient>::Divisor| <A::T>::make_coefficient(Borrowed(e), Borrowed(d));
    is!("parts", mk(&el, &dv), q.clone());
    is!("owned parts", <A::T>::make_coefficient(Owned(el.clone()), Owned(dv.clone())), q.clone());
    let unit = || <<A::T as PolynomialCoefficient>::Divisor as One>::one();
    // element = coefficient times divisor
    let whole = r.read(&mk(&el, &unit()));
    for form in 0..2 {
        let d = <A::T>::divisor_to_element(if form == 0 { Borrowed(&dv) } else { Owned(dv.clone()) }, if form == 0 { Borrowed(&el) } else { Owned(el.clone()) });
        let d = r.read(&mk(&d, &unit()));
        ensure!(c, r.norm(&d * q) == whole, "coefficient-part", "{} in {}: element {} over {}", q, A::NAME, whole, d);
        is!("zero element", mk(&<A::T>::make_zero_element(if form == 0 { Borrowed(&el) } else { Owned(el.clone()) }), &dv), zero.clone());
        is!("one element", mk(&<A::T>::make_one_element(if form == 0 { Borrowed(&el) } else { Owned(el.clone()) }), &unit()), one.clone());
        is!("zero from element", <A::T>::make_zero_coefficient_from_element(if form == 0 { Borrowed(&el) } else { Owned(el.clone()) }), zero.clone());
        is!("one from element", <A::T>::make_one_coefficient_from_element(if form == 0 { Borrowed(&el) } else { Owned(el.clone()) }), one.clone());
        is!("zero", <A::T>::make_zero_coefficient_from_coefficient(if form == 0 { Borrowed(t) } else { Owned(t.clone()) }), zero.clone());
        is!("one", <A::T>::make_one_coefficient_from_coefficient(if form == 0 { Borrowed(t) } else { Owned(t.clone()) }), one.clone());
        is!("multiple", mk(&<A::T>::mul_element_by_usize(if form == 0 { Borrowed(&el) } else { Owned(el.clone()) }, k), &dv), r.norm(q * Q::from_integer(k.into())));
    }
    ensure!(c, <A::T>::is_coefficient_zero(t) == q.is_zero() && <A::T>::is_element_zero(&el) == q.is_zero(), "coefficient-part", "{} in {}: is zero", q, A::NAME);
    ensure!(c, <A::T>::is_coefficient_one(t) == (*q == one) && <A::T>::is_element_one(&el) == (whole == one), "coefficient-part", "{} in {}: is one", q, A::NAME);
    let mut x = el.clone();
    <A::T>::set_element_zero(&mut x);
    is!("element set to zero", mk(&x, &dv), zero.clone());
    let mut x = el.clone();
    <A::T>::set_element_one(&mut x);
    is!("element set to one", mk(&x, &unit()), one.clone());
    let mut x = t.clone();
    <A::T>::set_coefficient_zero(&mut x);
    is!("set to zero", x, zero.clone());
    let mut x = t.clone();
    <A::T>::set_coefficient_one(&mut x);
    is!("set to one", x, one.clone());
    let mut x = el.clone();
    <A::T>::negate_element(&mut x);
    is!("negated element", mk(&x, &dv), r.norm(-q));
    let mut x = el.clone();
    <A::T>::mul_assign_element_by_usize(&mut x, k);
    is!("multiple in place", mk(&x, &dv), r.norm(q * Q::from_integer(k.into())));
    // several at once: one divisor for all, reduced
    let (els, d) = <A::T>::coefficients_to_elements(Borrowed(&ts));
    ensure!(c, <A::T>::coefficients_to_elements(Owned(ts.clone())) == (els.clone(), d.clone()), "coefficient-part", "parts of {} differ by form", fmtq(&qs));
    ensure!(c, els.len() == n, "coefficient-part", "{} elements for {}", els.len(), fmtq(&qs));
    for (x, q) in els.iter().zip(&qs) {
        is!("shared divisor", mk(x, &d), q.clone());
    }
    let du = <A::T>::divisor_to_element(Borrowed(&d), Borrowed(&el));
    let mut wide: Vec<_> = els.iter().map(|x| x.clone() * &du).collect();
    let mut wd = d.clone() * &d;
    let reduced = <A::T>::get_reduced_divisor(&wide, &wd);
    <A::T>::reduce_divisor(&mut wide, &mut wd);
    ensure!(c, reduced == (wide.clone(), wd.clone()), "coefficient-part", "reduced parts of {} differ by form", fmtq(&qs));
    for (x, q) in wide.iter().zip(&qs) {
        is!("reduced parts", mk(x, &wd), q.clone());
    }
    ensure!(c, (wide, wd) == (els.clone(), d.clone()), "coefficient-part", "parts of {} in {} are not in lowest terms", fmtq(&qs), A::NAME);
    // powers
    let mag = { let q = q.numer().abs().max(q.denom().clone()); q.pow(e as u32) };
    // zero to the zeroth power is not defined for polynomials
    if r.fits(&(&mag * &mag)) && !(q.is_zero() && e == 0) {
        let want = (0..e).fold(one.clone(), |v, _| r.norm(v * q));
        is!("power", <A::T>::coefficient_pow_usize(t.clone(), e), want.clone());
        is!("power by parts", mk(&<A::T>::element_pow_usize(el.clone(), e), &<A::T>::divisor_pow_usize(dv.clone(), e)), want);
        c.seen("powers of parts");
    }
    Ok(())
}
/// polynomials with many terms
fn long_ops<A: Ring>(c: &mut Ctx, r: &A) -> R {
    let cap = if A::NAME.starts_with("Poly") { 24 } else if r.modulus().is_some() { *c.rng.pick(&[20, 40, 80, 160, 300, 400]) } else { *c.rng.pick(&[20, 40, 80]) };
    let some = |c: &mut Ctx| {
        let d = c.rng.us(cap / 2, cap);
        let v = match c.rng.below(4) {
            0 => r.sparse(&mut c.rng, d),
            1 => r.nrm((0..=d).map(|_| Q::from_integer(BigInt::from(c.rng.below(3)) - BigInt::one())).collect()),
            _ if r.limit().is_some() => r.nrm((0..=d).map(|_| Q::from_integer(BigInt::from(c.rng.below(200)) - BigInt::from(100))).collect()),
            _ => r.poly_deg(&mut c.rng, d),
        };
        v
    };
    let (a, mut b) = (some(c), some(c));
    if c.rng.chance(1, 4) {
        b.truncate(c.rng.us(1, 5));
        b = r.nrm(b);
    }
    if !r.fits(&((r.mag(&a) + r.mag(&b)) * (r.mag(&a) + r.mag(&b)) * BigInt::from(2))) {
        c.seen("skipped-overflow");
        return Ok(());
    }
    c.distinct((A::NAME, r.modulus(), &a, &b));
    c.seen(A::NAME);
    c.note(|| format!("{} {:?}: {} with {}", A::NAME, r.modulus(), fmtq(&a), fmtq(&b)));
    let (pa, pb) = (r.p(&a), r.p(&b));
    let w = r.mul(&a, &b);
    same(c, r, "&a * &b", &(&pa * &pb), &w)?;
    same(c, r, "b * a", &(pb.clone() * pa.clone()), &w)?;
    let mut t = pa.clone();
    t *= &pb;
    same(c, r, "a *= &b", &t, &w)?;
    let w = r.sub(&a, &b);
    same(c, r, "&a - &b", &(&pa - &pb), &w)?;
    same(c, r, "a - b", &(pa.clone() - pb.clone()), &w)?;
    let w = r.add(&a, &b);
    same(c, r, "&b + &a", &(&pb + &pa), &w)?;
    let mut t = pb.clone();
    t += pa.clone();
    same(c, r, "b += a", &t, &w)?;
    if r.fits(&(r.mag(&a) * BigInt::from(a.len() + 1))) {
        let d = r.deriv(&a);
        same(c, r, "derivative", &pa.derivative(), &d)?;
        same(c, r, "into_derivative", &pa.clone().into_derivative(), &d)?;
    }
    let x = Q::from_integer(BigInt::from(*c.rng.pick(&[-1, 0, 1])));
    let x = if r.limit().is_none() && c.rng.chance(1, 2) { r.gen(&mut c.rng) } else { r.norm(x) };
    let w = r.eval(&a, &x);
    let got = r.read(&pa.eval(&r.make(&x)));
    ensure!(c, got == w, "wrong-value", "value of {} at {} over {}: got {}, exact value {}", fmtq(&a), x, A::NAME, got, w);
    for i in 0..a.len() + 2 {
        let got = pa.nonzero_coefficient(i).map(|v| r.read(&v));
        ensure!(c, got == a.get(i).cloned(), "coefficient", "coefficient {} of {}: {:?}", i, fmtq(&a), got);
    }
    Ok(())
}
/// few terms, larger exponents, every exponent type
fn high_powers<A: Ring>(c: &mut Ctx, r: &A) -> R {
    let d = c.rng.us(0, 3);
    let a = if r.limit().is_some() || c.rng.chance(1, 3) {
        r.nrm((0..=d).map(|_| Q::from_integer(BigInt::from(c.rng.below(3)) - BigInt::one())).collect())
    } else {
        r.poly(&mut c.rng, d)
    };
    let e = if A::NAME.starts_with("Poly") { c.rng.us(1, 12) } else { *c.rng.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 11, 13, 15, 16, 17, 23, 31, 32, 33, 40, 47, 63, 64]) };
    let mut bound = BigInt::one();
    for _ in 0..e.next_power_of_two() * 2 {
        bound *= &r.mag(&a);
    }
    if !r.fits(&bound) {
        c.seen("skipped-overflow");
        return Ok(());
    }
    c.distinct((A::NAME, r.modulus(), &a, e));
    c.seen(A::NAME);
    c.note(|| format!("{} {:?}: ({}) ^ {}", A::NAME, r.modulus(), fmtq(&a), e));
    let pa = r.p(&a);
    let w = r.pow(&a, e);
    same(c, r, "pow with a usize", &(&pa).pow(e), &w)?;
    same(c, r, "pow with an i8", &(&pa).pow(e as i8), &w)?;
    same(c, r, "pow with a u8", &pa.clone().pow(e as u8), &w)?;
    same(c, r, "pow with a u64", &pa.clone().pow(e as u64), &w)?;
    same(c, r, "pow with an i128", &(&pa).pow(e as i128), &w)?;
    same(c, r, "pow with a big exponent", &pa.pow(BigInt::from(e)), &w)
}
/// conversion from arrays of every supported length
fn arrays<A: Ring>(c: &mut Ctx, r: &A) -> R {
    let q: Vec<Q> = (0..32).map(|_| if c.rng.chance(1, 6) { Q::zero() } else { r.gen(&mut c.rng) }).collect();
    c.distinct((A::NAME, r.modulus(), &q));
    let t: Vec<A::T> = q.iter().map(|v| r.make(v)).collect();
    macro_rules! each {
        ($($n:expr),*) => {$(
            {
                let a: [A::T; $n] = std::array::from_fn(|i| t[i].clone());
                let w = r.nrm(q[..$n].to_vec());
                if r.fits(&(r.mag(&w) * r.mag(&w))) {
                    same(c, r, concat!("from an array of ", $n), &Polynomial::from(a), &w)?;
                }
            }
        )*};
    }
    each!(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32);
    Ok(())
}

fn convert(c: &mut Ctx, _: u64) -> R {
    use num_traits::FromPrimitive;
    let v = match c.rng.below(4) {
        0 => {
            // at the limits of the machine types
            let k = *c.rng.pick(&[7usize, 8, 15, 16, 31, 32, 63, 64, 127, 128]);
            let b = (BigInt::one() << k) + BigInt::from(c.rng.below(3)) - BigInt::one();
            if c.rng.chance(1, 2) { -b } else { b }
        }
        1 => BigInt::from(c.rng.below(5)) - BigInt::from(2),
        _ => c.rng.big(130),
    };
    c.distinct(&v);
    let p = Polynomial::<BigInt>::from(v.clone());
    let q = Polynomial::<BigInt>::make_monomial(BigInt::one(), 1) + &p;
    let h = Polynomial::<BigInt>::from(BigInt::one());
    macro_rules! ints {
        ($($t:ident $to:ident $from:ident),*) => {$(
            ensure!(c, p.$to() == v.$to(), "to-primitive", "{} of the constant polynomial {}: {:?}", stringify!($to), v, p.$to());
            ensure!(c, q.$to().is_none(), "to-primitive", "{} of {} answers {:?}", stringify!($to), q, q.$to());
            ensure!(c, h.$to() == Some(1 as $t), "to-primitive", "{} of 1", stringify!($to));
            if let Some(x) = v.$to() {
                let w = poly::trim(vec![Q::from_integer(v.clone())]);
                match Polynomial::<BigInt>::$from(x) {
                    Some(y) => same(c, &ZBig, stringify!($from), &y, &w)?,
                    None => ensure!(c, false, "from-primitive", "{} refused {}", stringify!($from), x),
                }
                let small = Polynomial::<i8>::$from(x).map(|p| p.iter().map(|v| v as i64).collect::<Vec<_>>());
                let want = v.to_i8().map(|v| if v == 0 { vec![] } else { vec![v as i64] });
                ensure!(c, small == want, "from-primitive", "8-bit polynomial {} of {}: {:?}", stringify!($from), x, small);
            }
        )*};
    }
    ints!(i8 to_i8 from_i8, u8 to_u8 from_u8, i16 to_i16 from_i16, u16 to_u16 from_u16, i32 to_i32 from_i32, u32 to_u32 from_u32, i64 to_i64 from_i64, u64 to_u64 from_u64, i128 to_i128 from_i128, u128 to_u128 from_u128, isize to_isize from_isize, usize to_usize from_usize);
    // floating point: the coefficient type's own conversion, nothing for a non-constant polynomial
    let s = c.rng.small_nz(1 << 20);
    let p = Polynomial::<BigInt>::from(BigInt::from(s));
    ensure!(c, p.to_f64() == Some(s as f64) && p.to_f32() == Some(s as f32) && q.to_f64().is_none() && q.to_f32().is_none() && Polynomial::<BigInt>::zero().to_f64() == Some(0.0), "to-primitive", "floating point value of {}: {:?} {:?}", s, p.to_f64(), p.to_f32());
    same(c, &ZBig, "from_f64", &Polynomial::<BigInt>::from_f64(s as f64).unwrap(), &[Q::from_integer(BigInt::from(s))])?;
    same(c, &ZBig, "from_f32", &Polynomial::<BigInt>::from_f32(s as f32).unwrap(), &[Q::from_integer(BigInt::from(s))])?;
    ensure!(c, Polynomial::<BigInt>::from_f64(f64::NAN).is_none() && Polynomial::<BigInt>::from_f64(f64::INFINITY).is_none(), "from-primitive", "polynomial from a number that is not finite");
    // replacing the value in place
    let mut t = q.clone();
    t.set_one();
    same(c, &ZBig, "set_one", &t, &[Q::one()])?;
    ensure!(c, t.is_one() && !q.is_one(), "is-one", "is_one of {}", q);
    let a = QBig.poly(&mut c.rng, 4);
    let mut t = QBig.p(&a);
    t.set_one();
    same(c, &QBig, "set_one", &t, &[Q::one()])?;
    ensure!(c, t.is_one() && t == Polynomial::one(), "is-one", "set_one of {}", fmtq(&a));
    let mut t = QBig.p(&a);
    t.set_zero();
    same(c, &QBig, "set_zero", &t, &[])?;
    ensure!(c, t.is_zero() && t == Polynomial::zero(), "is-zero", "set_zero of {}", fmtq(&a));
    Ok(())
}

// ---------------------------------------------------------------- C11
fn operands<A: Ring>(c: &mut Ctx, r: &A) -> (Vec<Q>, Vec<Q>) {
    let m = r.max_deg();
    let b = { let d = c.rng.us(0, m / 2 + 1); r.poly_deg(&mut c.rng, d) };
    let mut b = if b.is_empty() { r.nrm(vec![Q::one()]) } else { b };
    if c.rng.chance(1, 5) && b.len() > 1 {
        let k = b.len() - 1;
        b[k] = r.norm(Q::one());
    }
    let a = match c.rng.below(5) {
        0 => {
            // exact multiple
            let q = r.poly(&mut c.rng, m / 2);
            r.mul(&q, &b)
        }
        1 => {
            // small remainder
            let q = r.poly(&mut c.rng, m / 2);
            let t = r.poly(&mut c.rng, 1);
            let p = r.mul(&q, &b);
            r.add(&p, &t)
        }
        2 if r.limit().is_none() => return deep_operands(c, r),
        _ => r.poly(&mut c.rng, m),
    };
    (a, b)
}
/// higher degrees: sparse dividends and divisors, remainder sequences with gaps
fn deep_operands<A: Ring>(c: &mut Ctx, r: &A) -> (Vec<Q>, Vec<Q>) {
    let cap = if r.modulus().is_some() { 40 } else { (r.max_deg() * 2).min(20) };
    if c.rng.chance(1, 3) {
        let one = r.nrm(vec![Q::one()]);
        let (a, b) = r.prs_pair(&mut c.rng, cap, &one);
        if !b.is_empty() {
            return (a, b);
        }
    }
    let d = c.rng.us(1, cap / 2);
    let mut b = r.sparse(&mut c.rng, d);
    if b.is_empty() {
        b = r.nrm(vec![Q::one()]);
    }
    if c.rng.chance(1, 2) {
        let k = b.len() - 1;
        b[k] = r.norm(Q::one());
    }
    let d = c.rng.us(0, cap);
    (r.sparse(&mut c.rng, d), b)
}
fn growth<A: Ring>(r: &A, a: &[Q], b: &[Q]) -> BigInt {
    // bound for pseudo-division intermediates
    let mb = r.mag(b);
    let mut x = r.mag(a) * r.mag(a) * &mb;
    for _ in 0..=a.len().saturating_sub(b.len()) {
        x *= &mb * &mb;
    }
    x
}
fn field_div<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: PolynomialDivSupported,
{
    let (a, b) = operands(c, r);
    if !r.fits(&growth(r, &a, &b)) {
        c.seen("skipped-overflow");
        return Ok(());
    }
    if a.len() >= b.len() && b.len() > 1 {
        c.distinct((A::NAME, r.modulus(), &a, &b));
    }
    c.seen(A::NAME);
    c.note(|| format!("{} {:?}: ({}) / ({})", A::NAME, r.modulus(), fmtq(&a), fmtq(&b)));
    let (q, m) = r.divrem(&a, &b);
    let (pa, pb) = (r.p(&a), r.p(&b));
    let (gq, gm) = pa.clone().div_rem(&pb);
    same(c, r, "quotient", &gq, &q)?;
    same(c, r, "remainder", &gm, &m)?;
    match pa.clone().checked_div_rem(&pb) {
        Some((gq, gm)) => {
            same(c, r, "checked quotient", &gq, &q)?;
            same(c, r, "checked remainder", &gm, &m)?
        }
        None => ensure!(c, false, "refused", "checked_div_rem refused a non-zero divisor"),
    }
    same(c, r, "a / b", &(pa.clone() / pb.clone()), &q)?;
    same(c, r, "a / &b", &(pa.clone() / &pb), &q)?;
    same(c, r, "&a / b", &(&pa / pb.clone()), &q)?;
    same(c, r, "&a / &b", &(&pa / &pb), &q)?;
    same(c, r, "a % b", &(pa.clone() % pb.clone()), &m)?;
    same(c, r, "a % &b", &(pa.clone() % &pb), &m)?;
    same(c, r, "&a % b", &(&pa % pb.clone()), &m)?;
    same(c, r, "&a % &b", &(&pa % &pb), &m)?;
    let mut t = pa.clone();
    t /= &pb;
    same(c, r, "a /= &b", &t, &q)?;
    let mut t = pa.clone();
    t /= pb.clone();
    same(c, r, "a /= b", &t, &q)?;
    let mut t = pa.clone();
    t %= &pb;
    same(c, r, "a %= &b", &t, &m)?;
    let mut t = pa.clone();
    t %= pb.clone();
    same(c, r, "a %= b", &t, &m)?;
    let cd = pa.checked_div(&pb);
    let cr = pa.checked_rem(&pb);
    match (cd, cr) {
        (Some(x), Some(y)) => {
            same(c, r, "checked_div", &x, &q)?;
            same(c, r, "checked_rem", &y, &m)?
        }
        _ => ensure!(c, false, "refused", "checked_div/checked_rem refused a non-zero divisor"),
    }
    Ok(())
}
pub fn pseudo_div<A: Ring>(c: &mut Ctx, r: &A) -> R {
    let (a, b) = operands(c, r);
    if b.is_empty() || !r.fits(&growth(r, &a, &b)) {
        c.seen("skipped-overflow");
        return Ok(());
    }
    if a.len() >= b.len() && b.len() > 1 {
        c.distinct((A::NAME, r.modulus(), &a, &b));
    }
    c.seen(A::NAME);
    c.note(|| format!("{}: pseudo-divide {} by {}", A::NAME, fmtq(&a), fmtq(&b)));
    let (pa, pb) = (r.p(&a), r.p(&b));
    let d = pa.clone().pseudo_div_rem(&pb);
    let e = pa.clone().checked_pseudo_div_rem(&pb);
    ensure!(c, e.as_ref() == Some(&d), "forms", "checked_pseudo_div_rem differs from pseudo_div_rem");
    let (q, m, f) = (r.rd(&d.quotient), r.rd(&d.remainder), r.read(&d.factor));
    ensure!(c, q == r.nrm(q.clone()) && m == r.nrm(m.clone()), "not-normal", "quotient or remainder has a leading zero: {} / {}", fmtq(&q), fmtq(&m));
    let lhs = r.scale(&a, &f);
    let p = r.mul(&q, &b);
    let rhs = r.add(&p, &m);
    ensure!(c, lhs == rhs, "identity", "factor*a != quotient*b + remainder: factor {}, quotient {}, remainder {}", f, fmtq(&q), fmtq(&m));
    ensure!(c, m.len() < b.len(), "remainder-degree", "remainder {} is not smaller than the divisor {}", fmtq(&m), fmtq(&b));
    // the documented shape of the factor: a power of the divisor's leading coefficient
    let k = if a.len() < b.len() { 0 } else { a.len() - b.len() + 1 };
    let mut want = r.norm(Q::one());
    for _ in 0..k {
        want = r.norm(want * b.last().unwrap());
    }
    ensure!(c, f == want, "factor", "factor {} is not the divisor's leading coefficient to the power {}", f, k);
    let ex = pa.clone().checked_exact_pseudo_div(&pb);
    ensure!(c, ex.is_some() == m.is_empty(), "exactness", "checked_exact_pseudo_div answers {} but the remainder is {}", ex.is_some(), fmtq(&m));
    if let Some((q2, f2)) = ex {
        ensure!(c, q2 == d.quotient && f2 == d.factor, "forms", "checked_exact_pseudo_div differs from pseudo_div_rem");
        let (q3, f3) = pa.exact_pseudo_div(&pb);
        ensure!(c, q3 == d.quotient && f3 == d.factor, "forms", "exact_pseudo_div differs from pseudo_div_rem");
        c.seen("exact");
    }
    Ok(())
}
pub fn exact<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: for<'a> ExactDiv<&'a A::T, Output = A::T>,
{
    let (a, b) = operands(c, r);
    let s = r.gen_nz(&mut c.rng);
    if !r.fits(&growth(r, &a, &b)) || !r.fits(&(r.mag(&a) * r.mag(&[s.clone()]) * r.mag(&[s.clone()]))) {
        c.seen("skipped-overflow");
        return Ok(());
    }
    c.distinct((A::NAME, r.modulus(), &a, &b, &s));
    c.note(|| format!("{} {:?}: exact division of {} by {} and {}", A::NAME, r.modulus(), fmtq(&a), fmtq(&b), s));
    let (pa, pb, ps) = (r.p(&a), r.p(&b), r.make(&s));
    // over the integers, division succeeds exactly when the rational quotient is integral
    let (q, m) = if r.modulus().is_some() { r.divrem(&a, &b) } else { poly::divrem(&a, &b) };
    let integral = A::FIELD || q.iter().all(|v| v.is_integer());
    let dr = pa.clone().checked_div_rem(&pb);
    ensure!(c, dr.is_some() == integral, "exactness", "checked_div_rem answers {}, the quotient is {}", dr.is_some(), fmtq(&q));
    if let Some((x, y)) = dr {
        same(c, r, "quotient", &x, &q)?;
        same(c, r, "remainder", &y, &m)?;
        c.seen("integral-quotient");
    }
    let divides = integral && m.is_empty();
    let want = if divides { Some(q.clone()) } else { None };
    let got = (&pa).checked_exact_div(&pb);
    ensure!(c, got.as_ref().map(|v| r.rd(v)) == want, "exactness", "checked_exact_div gives {:?}, exact answer {:?}", got.map(|v| fmtq(&r.rd(&v))), want.as_ref().map(|v| fmtq(v)));
    for (k, v) in [pa.clone().checked_exact_div(&pb), pa.clone().checked_exact_div(pb.clone()), (&pa).checked_exact_div(pb.clone())].iter().enumerate() {
        ensure!(c, v.as_ref().map(|v| r.rd(v)) == want, "exactness", "checked_exact_div form {} gives {:?}, exact answer {:?}", k, v.as_ref().map(|v| fmtq(&r.rd(v))), want.as_ref().map(|v| fmtq(v)));
    }
    for byref in [false, true] {
        let mut t = pa.clone();
        let res = if byref { t.checked_exact_div_assign(&pb) } else { t.checked_exact_div_assign(pb.clone()) };
        ensure!(c, res.is_ok() == divides, "exactness", "checked_exact_div_assign by {} answers {}", fmtq(&b), res.is_ok());
        same(c, r, "checked_exact_div_assign", &t, if divides { &q } else { &a })?;
    }
    if divides {
        same(c, r, "exact_div", &(&pa).exact_div(&pb), &q)?;
        same(c, r, "exact_div", &pa.clone().exact_div(&pb), &q)?;
        same(c, r, "exact_div", &(&pa).exact_div(pb.clone()), &q)?;
        same(c, r, "exact_div", &pa.clone().exact_div(pb.clone()), &q)?;
        let mut t = pa.clone();
        t.exact_div_assign(&pb);
        same(c, r, "exact_div_assign", &t, &q)?;
        let mut t = pa.clone();
        t.exact_div_assign(pb.clone());
        same(c, r, "exact_div_assign", &t, &q)?;
        c.seen("divides");
    } else {
        if c.rng.chance(1, 16) {
            // unchecked forms must not answer
            let byval = catch(|| drop(pa.clone().exact_div(pb.clone()))).is_err();
            let byref = catch(|| drop((&pa).exact_div(&pb))).is_err();
            let assign = catch(|| { let mut t = pa.clone(); t.exact_div_assign(&pb); }).is_err();
            ensure!(c, byval && byref && assign, "inexact-answer", "exact_div of {} by {} gives an answer", fmtq(&a), fmtq(&b));
            c.seen("inexact-panic");
        }
        c.seen("does-not-divide");
    }
    // by a scalar, every form
    let sc = if r.modulus().is_some() { r.scale(&a, &r.inv(&s).unwrap()) } else { a.iter().map(|v| v / &s).collect::<Vec<_>>() };
    let ok = A::FIELD || sc.iter().all(|v| v.is_integer());
    let forms = [(&pa).checked_exact_div(&ps), (&pa).checked_exact_div(ps.clone()), pa.clone().checked_exact_div(&ps), pa.clone().checked_exact_div(ps.clone())];
    for (i, f) in forms.iter().enumerate() {
        ensure!(c, f.is_some() == ok, "scalar-exactness", "checked_exact_div by scalar {} form {}: {}", s, i, f.is_some());
        if let Some(f) = f {
            same(c, r, "scalar checked_exact_div", f, &sc)?;
        }
    }
    for byref in [false, true] {
        let mut t = pa.clone();
        let res = if byref { t.checked_exact_div_assign(&ps) } else { t.checked_exact_div_assign(ps.clone()) };
        ensure!(c, res.is_ok() == ok, "scalar-exactness", "checked_exact_div_assign by {}", s);
        same(c, r, "checked_exact_div_assign", &t, if ok { &sc } else { &a })?;
    }
    if ok {
        c.seen("scalar-exact");
        same(c, r, "a / s", &(pa.clone() / ps.clone()), &sc)?;
        same(c, r, "a / &s", &(pa.clone() / &ps), &sc)?;
        same(c, r, "&a / s", &(&pa / ps.clone()), &sc)?;
        same(c, r, "&a / &s", &(&pa / &ps), &sc)?;
        same(c, r, "exact_div(s)", &(&pa).exact_div(&ps), &sc)?;
        same(c, r, "exact_div(s)", &pa.clone().exact_div(ps.clone()), &sc)?;
        same(c, r, "exact_div(s)", &(&pa).exact_div(ps.clone()), &sc)?;
        same(c, r, "exact_div(s)", &pa.clone().exact_div(&ps), &sc)?;
        let mut t = pa.clone();
        t /= &ps;
        same(c, r, "a /= &s", &t, &sc)?;
        let mut t = pa.clone();
        t.exact_div_assign(ps.clone());
        same(c, r, "exact_div_assign", &t, &sc)?;
    } else {
        c.seen("scalar-inexact");
    }
    // zero divisors are refused
    let zero = Polynomial::<A::T>::zero();
    let zs = r.make(&Q::zero());
    ensure!(c, (&pa).checked_exact_div(&zero).is_none() && pa.clone().checked_div_rem(&zero).is_none() && pa.clone().checked_pseudo_div_rem(&zero).is_none() && pa.clone().checked_exact_pseudo_div(&zero).is_none(), "by-zero", "division of {} by the zero polynomial is not refused", fmtq(&a));
    let mut t = pa.clone();
    let refused = t.checked_exact_div_assign(&zs).is_err() && t.checked_exact_div_assign(zs.clone()).is_err() && t.checked_exact_div_assign(&zero).is_err() && t.checked_exact_div_assign(zero.clone()).is_err();
    ensure!(c, refused && pa.clone().checked_exact_div(&zs).is_none() && (&pa).checked_exact_div(&zs).is_none() && (&pa).checked_exact_div(zs.clone()).is_none(), "by-zero", "division of {} by the scalar zero is not refused", fmtq(&a));
    same(c, r, "operand after a refused division by zero", &t, &a)?;
    Ok(())
}
/// Z[Y][X]
pub fn exact_nested(c: &mut Ctx, _: u64) -> R {
    let r = ZNest;
    let b = r.poly_deg(&mut c.rng, 2);
    let q = r.poly(&mut c.rng, 2);
    let a = r.mul(&q, &b);
    c.distinct((&a, &b));
    let (pa, pb) = (r.p(&a), r.p(&b));
    same(c, &r, "exact_div in Z[Y][X]", &(&pa).exact_div(&pb), &q)?;
    same(c, &r, "checked_exact_div in Z[Y][X]", &(&pa).checked_exact_div(&pb).unwrap_or_default(), &q)?;
    let d = r.gen_nz(&mut c.rng);
    let sa = r.scale(&a, &d);
    same(c, &r, "scalar division in Z[Y][X]", &(r.p(&sa) / r.make(&d)), &a)?;
    // one more than a multiple of something of positive degree
    if b.len() > 1 {
        let a1 = r.add(&a, &[Q::one()]);
        ensure!(c, (&r.p(&a1)).checked_exact_div(&pb).is_none(), "exactness", "{:?} does not divide its multiple plus one", pb);
    }
    Ok(())
}
pub fn powmod<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: PolynomialDivSupported,
{
    let big = r.modulus().is_some();
    let long = big && c.rng.chance(1, 50);
    let m = { let lo = c.rng.us(0, 3).min(1); let d = c.rng.us(lo, if long { 24 } else if big { 6 } else { 2 }); r.poly_deg(&mut c.rng, d) };
    if m.is_empty() {
        return Ok(());
    }
    let a = r.poly(&mut c.rng, if long { 40 } else if big { 8 } else { 2 });
    let e: BigInt = if big && c.rng.chance(2, 3) { let n = c.rng.us(1, if long { 260 } else { 70 }); c.rng.big(n).abs() } else { BigInt::from(c.rng.below(6)) };
    if e.is_zero() && a.is_empty() {
        return Ok(());
    }
    c.distinct((A::NAME, r.modulus(), &a, &m, &e));
    c.note(|| format!("{} {:?}: ({})^{} mod ({})", A::NAME, r.modulus(), fmtq(&a), e, fmtq(&m)));
    // left-to-right binary powering, remainder by schoolbook division
    let mut w = r.divrem(&[Q::one()], &m).1;
    for i in (0..e.bits()).rev() {
        let sq = r.mul(&w, &w);
        w = r.divrem(&sq, &m).1;
        if e.bit(i) {
            let t = r.mul(&w, &a);
            w = r.divrem(&t, &m).1;
        }
    }
    same(c, r, "powmod", &r.p(&a).powmod(e.clone(), &r.p(&m)), &w)?;
    match r.p(&a).checked_powmod(e.clone(), &r.p(&m)) {
        Some(v) => same(c, r, "checked_powmod", &v, &w)?,
        None => ensure!(c, false, "refused", "checked_powmod refused"),
    }
    if let Some(s) = e.to_u32() {
        same(c, r, "powmod with a machine exponent", &r.p(&a).powmod(s, &r.p(&m)), &w)?;
    }
    ensure!(c, r.p(&a).checked_powmod(-1, &r.p(&m)).is_none(), "refused", "negative exponent accepted");
    ensure!(c, r.p(&a).checked_powmod(e, &Polynomial::zero()).is_none(), "refused", "zero modulus accepted");
    Ok(())
}
pub fn by_zero<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: PolynomialDivSupported,
{
    let a = r.p(&{ let d = r.max_deg(); r.poly(&mut c.rng, d) });
    let z = Polynomial::<A::T>::zero();
    c.distinct((A::NAME, hash(&a)));
    ensure!(c, a.checked_div(&z).is_none() && a.checked_rem(&z).is_none() && a.clone().checked_div_rem(&z).is_none(), "by-zero", "checked division by zero answered");
    for (k, res) in [catch(|| drop(&a / &z)), catch(|| drop(&a % &z)), catch(|| drop(a.clone().div_rem(&z))), catch(|| drop(a.clone().pseudo_div_rem(&z)))].iter().enumerate() {
        ensure!(c, res.is_err(), "by-zero", "division form {} by the zero polynomial gave a result", k);
    }
    Ok(())
}
pub fn by_zero_int<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: for<'a> ExactDiv<&'a A::T, Output = A::T>,
{
    let a = r.p(&{ let d = r.max_deg(); r.poly_nz(&mut c.rng, d) });
    let z = Polynomial::<A::T>::zero();
    c.distinct((A::NAME, hash(&a)));
    ensure!(c, a.clone().checked_div_rem(&z).is_none() && (&a).checked_exact_div(&z).is_none(), "by-zero", "checked division by zero answered");
    let s = r.make(&Q::zero());
    for (k, res) in [catch(|| drop((&a).exact_div(&z))), catch(|| drop(a.clone().div_rem(&z))), catch(|| drop(a.clone().pseudo_div_rem(&z))), catch(|| drop(&a / &s)), catch(|| drop(a.clone().exact_div(&s)))].iter().enumerate() {
        ensure!(c, res.is_err(), "by-zero", "division form {} by zero gave a result", k);
    }
    Ok(())
}

// ---------------------------------------------------------------- C12
fn gcd_field<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: PolynomialDivSupported + PolynomialReducingFactorSupported,
{
    let big = r.modulus().is_none();
    let (d1, d2) = if big { (3, 3) } else { (5, 5) };
    let mut f = r.poly(&mut c.rng, d1);
    if f.is_empty() && c.rng.chance(9, 10) {
        f = r.nrm(vec![Q::one()]);
    }
    let x = r.poly(&mut c.rng, d2);
    let y = if c.rng.chance(1, 12) { x.clone() } else { r.poly(&mut c.rng, d2) };
    let (mut a, mut b) = (r.mul(&f, &x), r.mul(&f, &y));
    match c.rng.below(8) {
        0 => a = r.mul(&a, &f),
        1 => b = r.deriv(&a),
        2 => a = r.mul(&a, &b),
        3 => {
            let cap = if !big { 30 } else if c.rng.chance(1, 4) { 22 } else { 12 };
            let (x, y) = r.prs_pair(&mut c.rng, cap, &f);
            a = x;
            b = y;
            c.seen("planted-sequence");
        }
        _ => {}
    }
    if a.len() > 1 && b.len() > 1 {
        c.distinct((A::NAME, r.modulus(), &a, &b));
    }
    c.seen(A::NAME);
    c.note(|| format!("{} {:?}: gcd({}, {})", A::NAME, r.modulus(), fmtq(&a), fmtq(&b)));
    let w = r.gcd(&a, &b);
    if w.len() > 1 {
        c.seen("common-factor");
    }
    let (pa, pb) = (r.p(&a), r.p(&b));
    same(c, r, "gcd", &GCD::gcd(&pa, &pb), &w)?;
    let gl = pa.gcd_lcm(&pb);
    same(c, r, "gcd of gcd_lcm", &gl.gcd, &w)?;
    let l = r.rd(&gl.lcm);
    let l2 = r.rd(&GCD::lcm(&pa, &pb));
    let ab = r.mul(&a, &b);
    let gl2 = r.mul(&w, &l);
    ensure!(c, gl2 == ab && l2 == l && l == r.nrm(l.clone()), "lcm", "gcd*lcm != a*b: lcm {}", fmtq(&l));
    let e = pa.extended_gcd(&pb);
    same(c, r, "gcd of extended_gcd", &e.gcd, &w)?;
    let (ex, ey) = (r.rd(&e.x), r.rd(&e.y));
    let s = { let u = r.mul(&ex, &a); let v = r.mul(&ey, &b); r.add(&u, &v) };
    ensure!(c, s == w && ex == r.nrm(ex.clone()) && ey == r.nrm(ey.clone()), "bezout", "x*a + y*b = {} instead of {}: x {}, y {}", fmtq(&s), fmtq(&w), fmtq(&ex), fmtq(&ey));
    // the cofactors are the small ones
    if !w.is_empty() && a.len() > w.len() && b.len() > w.len() {
        ensure!(c, ex.len() < b.len() - w.len() + 2 && ey.len() < a.len() - w.len() + 2, "bezout-size", "cofactors too large: x {}, y {}", fmtq(&ex), fmtq(&ey));
    }
    let el = pa.extended_gcd_lcm(&pb);
    ensure!(c, el.gcd == e.gcd && el.x == e.x && el.y == e.y && el.lcm == gl.lcm, "forms", "extended_gcd_lcm differs from extended_gcd / gcd_lcm");
    // the remainder-sequence gcd is an associate
    let sr = r.rd(&pa.clone().subresultant_gcd(pb.clone()));
    ensure!(c, r.monic(&sr) == w, "subresultant", "subresultant gcd {} is not a multiple of {}", fmtq(&sr), fmtq(&w));
    Ok(())
}
/// integer pair with a planted remainder sequence, each operand possibly scaled
fn zprs(c: &mut Ctx, cap: usize, common: &[BigInt]) -> (ZP, ZP) {
    let (a, b) = ZBig.prs_pair(&mut c.rng, cap, &poly::to_q(common));
    let (s, t) = (BigInt::from(c.rng.small_nz(6)), BigInt::from(c.rng.small_nz(6)));
    let f = |v: Vec<Q>, k: &BigInt| v.into_iter().map(|v| v.to_integer() * k).collect::<ZP>();
    (f(a, &s), f(b, &t))
}
fn gcd_int(c: &mut Ctx, _: u64) -> R {
    let m = if c.rng.chance(1, 4) { 1 << 40 } else { 20 };
    let f = poly::rand_zp_nz(&mut c.rng, 3, m);
    let mut gen = |c: &mut Ctx| if c.rng.chance(1, 12) { vec![] } else { poly::rand_zp_nz(&mut c.rng, 4, m) };
    let (x, y) = (gen(c), gen(c));
    let (mut a, mut b) = (poly::mul(&f, &x), poly::mul(&f, &y));
    if c.rng.chance(1, 2) {
        let (x, y) = zprs(c, 16, &f);
        a = x;
        b = y;
        c.seen("planted-sequence");
    }
    gcd_int_on(c, a, b)
}
/// polynomial number i with n coefficients in -m..=m
fn small_zp(mut i: u64, n: usize, m: i64) -> ZP {
    let k = 2 * m as u64 + 1;
    let v = (0..n)
        .map(|_| {
            let d = (i % k) as i64 - m;
            i /= k;
            BigInt::from(d)
        })
        .collect();
    poly::trim(v)
}
fn gcd_int_small(c: &mut Ctx, i: u64) -> R {
    let a = small_zp(i, 5, 1);
    for j in 0..243 {
        gcd_int_on(c, a.clone(), small_zp(j, 5, 1))?;
    }
    Ok(())
}
fn resultant_int_small(c: &mut Ctx, i: u64) -> R {
    let a = small_zp(i, 5, 1);
    for j in 0..243 {
        let b = small_zp(j, 5, 1);
        if !a.is_empty() && !b.is_empty() {
            resultant_int_on(c, a.clone(), b)?;
        }
    }
    Ok(())
}
fn yun_small(c: &mut Ctx, i: u64) -> R {
    for a in [small_zp(i, 6, 1), small_zp(i, 4, 2), small_zp(i * 5 % 16807, 5, 3)] {
        let a = poly::to_q(&a);
        c.distinct(&a);
        check_yun(c, &a)?;
        if !a.is_empty() {
            predicate_on(c, a)?;
        }
    }
    Ok(())
}
fn sturm_small(c: &mut Ctx, i: u64) -> R {
    let a = small_zp(i, 6, 1);
    if a.is_empty() {
        return Ok(());
    }
    let points = (-12..=12).map(|k| Q::new(BigInt::from(2 * k + 1), BigInt::from(16))).collect();
    sturm_on(c, a, points)
}
fn factor_small(c: &mut Ctx, i: u64) -> R {
    for a in [small_zp(i, 7, 1), small_zp(i, 5, 2)] {
        check_factor(c, &a, None)?;
    }
    Ok(())
}
fn gcd_int_on(c: &mut Ctx, a: ZP, b: ZP) -> R {
    if a.len() > 1 && b.len() > 1 {
        c.distinct((&a, &b));
    }
    let (qa, qb) = (poly::to_q(&a), poly::to_q(&b));
    c.note(|| format!("integer gcd({}, {})", fmtq(&qa), fmtq(&qb)));
    let w = poly::gcd_z(&a, &b);
    let got = Polynomial::<BigInt>::from(a.clone()).subresultant_gcd(Polynomial::from(b.clone()));
    let g2: ZP = got.iter().collect();
    let pg = if g2.is_empty() { vec![] } else { poly::primitive(&g2) };
    ensure!(c, pg == w, "subresultant", "subresultant gcd {} is not a multiple of {}", poly::fmt(&g2), poly::fmt(&w));
    Ok(())
}
fn content_int<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: GCD<Output = A::T> + PartialOrd + Zero + PolynomialReducingFactorSupported + for<'a> ExactDiv<&'a A::T, Output = A::T>,
{
    let mut a = { let d = r.max_deg(); r.poly(&mut c.rng, d) };
    let k = r.gen_nz(&mut c.rng);
    if r.fits(&(r.mag(&a) * r.mag(&[k.clone()]))) {
        a = r.scale(&a, &k);
    }
    if !r.fits(&(r.mag(&a))) {
        return Ok(());
    }
    c.distinct((A::NAME, &a));
    c.note(|| format!("{}: content of {}", A::NAME, fmtq(&a)));
    let za: ZP = a.iter().map(|v| v.to_integer()).collect();
    let mut w = za.iter().fold(BigInt::zero(), |s, v| Integer::gcd(&s, v));
    if za.last().map_or(false, |l| l.is_negative()) {
        w = -w;
    }
    let prim: Vec<Q> = if w.is_zero() { vec![] } else { za.iter().map(|v| Q::from_integer(v / &w)).collect() };
    let wq = Q::from_integer(w.clone());
    let pa = r.p(&a);
    ensure!(c, r.read(&pa.content()) == wq, "content", "content {} instead of {}", pa.content(), w);
    ensure!(c, pa.nonzero_content().map(|v| r.read(&v)) == if a.is_empty() { None } else { Some(wq.clone()) }, "content", "nonzero_content of {}", fmtq(&a));
    ensure!(c, r.read(&pa.reducing_factor()) == wq && pa.nonzero_reducing_factor().is_some() != a.is_empty(), "reducing-factor", "reducing factor {} instead of {}", pa.reducing_factor(), w);
    same(c, r, "primitive_part", &pa.primitive_part(), &prim)?;
    same(c, r, "into_primitive_part", &pa.clone().into_primitive_part(), &prim)?;
    let mut t = pa.clone();
    t.primitive_part_assign();
    same(c, r, "primitive_part_assign", &t, &prim)?;
    same(c, r, "to_reduced", &pa.to_reduced(), &prim)?;
    same(c, r, "into_reduced", &pa.clone().into_reduced(), &prim)?;
    let mut t = pa.clone();
    t.reduce_assign();
    same(c, r, "reduce_assign", &t, &prim)
}
/// content of a polynomial of ratios: gcd of the coefficients as ratios, so the primitive part is integral and content-free
fn content_ratio(c: &mut Ctx, _: u64) -> R {
    let r = QBig;
    let a = r.poly(&mut c.rng, 6);
    c.distinct(&a);
    c.note(|| format!("content of {}", fmtq(&a)));
    let prim = if a.is_empty() { vec![] } else { poly::to_q(&poly::q_to_primitive(&a)) };
    let cont = if a.is_empty() { Q::zero() } else { a.last().unwrap() / prim.last().unwrap() };
    let pa = r.p(&a);
    ensure!(c, pa.content() == cont, "content", "content {} instead of {}", pa.content(), cont);
    ensure!(c, pa.nonzero_content() == if a.is_empty() { None } else { Some(cont.clone()) }, "content", "nonzero_content of {}", fmtq(&a));
    same(c, &r, "primitive_part", &pa.primitive_part(), &prim)?;
    same(c, &r, "into_primitive_part", &pa.into_primitive_part(), &prim)
}
fn monic<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: PolynomialReducingFactorSupported + for<'a> ExactDiv<&'a A::T, Output = A::T>,
{
    let a = { let d = r.max_deg(); r.poly(&mut c.rng, d) };
    if !r.fits(&(r.mag(&a) * r.mag(&a) * r.mag(&a))) {
        return Ok(());
    }
    c.distinct((A::NAME, r.modulus(), &a));
    let w = r.monic(&a);
    let pa = r.p(&a);
    ensure!(c, pa.nonzero_reducing_factor().map(|v| r.read(&v)) == a.last().cloned(), "reducing-factor", "reducing factor of {}", fmtq(&a));
    same(c, r, "into_monic", &pa.clone().into_monic(), &w)?;
    let mut t = pa.clone();
    t.monic_assign();
    same(c, r, "monic_assign", &t, &w)?;
    same(c, r, "to_reduced", &pa.to_reduced(), &w)?;
    let mut t = pa.clone();
    t.reduce_assign();
    same(c, r, "reduce_assign", &t, &w)
}

// ---------------------------------------------------------------- C13
fn zpair(c: &mut Ctx) -> (ZP, ZP) {
    if c.rng.chance(1, 4) {
        let one = if c.rng.chance(1, 4) { poly::rand_zp_nz(&mut c.rng, 2, 5) } else { poly::zp(&[c.rng.small_nz(3)]) };
        let (a, b) = zprs(c, 13, &one);
        if !a.is_empty() && !b.is_empty() {
            c.seen("planted-sequence");
            return (a, b);
        }
    }
    let m = *c.rng.pick(&[3i64, 9, 40, 1 << 30]);
    let mut a = poly::rand_zp_nz(&mut c.rng, 6, m);
    let mut b = poly::rand_zp_nz(&mut c.rng, 6, m);
    match c.rng.below(8) {
        0 => {
            // gaps in the remainder sequence
            let k = c.rng.us(0, 2);
            for v in a.iter_mut().skip(1).take(k) {
                *v = BigInt::zero();
            }
            a = poly::trim(a);
            if a.is_empty() {
                a = poly::zp(&[2]);
            }
        }
        1 => b = { let d = poly::deriv(&a); if d.is_empty() { poly::zp(&[3]) } else { d } },
        2 => b = {
            // b = q*a + small: the remainder sequence drops by more than one degree
            let q = poly::rand_zp_nz(&mut c.rng, 1, 3);
            let t = poly::rand_zp(&mut c.rng, 1, 5);
            let v = poly::add(&poly::mul(&q, &a), &t);
            if v.is_empty() { poly::zp(&[1]) } else { v }
        },
        _ => {}
    }
    (a, b)
}
fn resultant_int(c: &mut Ctx, _: u64) -> R {
    let (a, b) = zpair(c);
    resultant_int_on(c, a, b)
}
fn resultant_int_on(c: &mut Ctx, a: ZP, b: ZP) -> R {
    c.distinct((&a, &b));
    c.note(|| format!("resultant of {} and {}", poly::fmt(&a), poly::fmt(&b)));
    let w = poly::resultant_sylvester(&a, &b);
    let (pa, pb) = (Polynomial::<BigInt>::from(a.clone()), Polynomial::<BigInt>::from(b.clone()));
    let got = pa.clone().resultant(pb.clone());
    ensure!(c, got == w, "resultant", "resultant {} instead of {} for {} and {}", got, w, poly::fmt(&a), poly::fmt(&b));
    let nz = pa.clone().nonzero_resultant(pb.clone());
    ensure!(c, nz == if w.is_zero() { None } else { Some(w.clone()) }, "resultant", "nonzero_resultant {:?}", nz);
    let z = Polynomial::<BigInt>::zero();
    ensure!(c, pa.clone().resultant(z.clone()).is_zero() && z.clone().resultant(pa).is_zero() && z.clone().nonzero_resultant(pb).is_none(), "resultant-zero", "resultant with the zero polynomial");
    if w.is_zero() {
        c.seen("zero");
    } else {
        c.seen("nonzero");
    }
    // in a fixed-width integer type, when everything fits comfortably
    if a.len() <= 4 && b.len() <= 4 && a.iter().chain(&b).all(|v| v.abs() < BigInt::from(10)) {
        let f = |v: &ZP| Polynomial::<i128>::from(v.iter().map(|v| v.to_i128().unwrap()).collect::<Vec<_>>());
        ensure!(c, BigInt::from(f(&a).resultant(f(&b))) == w, "resultant", "128-bit resultant of {} and {}", poly::fmt(&a), poly::fmt(&b));
        c.seen("fixed-width");
    }
    Ok(())
}
fn resultant_ratio(c: &mut Ctx, _: u64) -> R {
    let (a, b) = zpair(c);
    let (s, t) = (c.rng.ratio_small_nz(9, 9), c.rng.ratio_small_nz(30, 7));
    c.distinct((&a, &b, &s, &t));
    let (qa, qb) = (poly::scale(&poly::to_q(&a), &s), poly::scale(&poly::to_q(&b), &t));
    c.note(|| format!("resultant of {} and {}", fmtq(&qa), fmtq(&qb)));
    let mut w = Q::from_integer(poly::resultant_sylvester(&a, &b));
    for _ in 1..b.len() {
        w *= &s;
    }
    for _ in 1..a.len() {
        w *= &t;
    }
    let got = QBig.p(&qa).resultant(QBig.p(&qb));
    ensure!(c, got == w, "resultant", "resultant {} instead of {} for {} and {}", got, w, fmtq(&qa), fmtq(&qb));
    Ok(())
}
fn resultant_mod<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: for<'a> ExactDiv<&'a A::T, Output = A::T>,
{
    let (mut a, mut b) = (r.poly_nz(&mut c.rng, 6), r.poly_nz(&mut c.rng, 6));
    if c.rng.chance(1, 4) {
        let f = if c.rng.chance(1, 6) { r.poly_nz(&mut c.rng, 2) } else { r.nrm(vec![Q::one()]) };
        let cap = if c.rng.chance(1, 5) { 24 } else { 16 };
        let (x, y) = r.prs_pair(&mut c.rng, cap, &f);
        if !x.is_empty() && !y.is_empty() {
            a = x;
            b = y;
            c.seen("planted-sequence");
        }
    }
    c.distinct((A::NAME, r.modulus(), &a, &b));
    c.note(|| format!("{} {:?}: resultant of {} and {}", A::NAME, r.modulus(), fmtq(&a), fmtq(&b)));
    let za: ZP = a.iter().map(|v| v.to_integer()).collect();
    let zb: ZP = b.iter().map(|v| v.to_integer()).collect();
    let w = r.norm(Q::from_integer(poly::resultant_sylvester(&za, &zb)));
    let got = r.p(&a).nonzero_resultant(r.p(&b)).map(|v| r.read(&v));
    ensure!(c, got == if w.is_zero() { None } else { Some(w.clone()) }, "resultant", "resultant {:?} instead of {}", got, w);
    Ok(())
}
/// Z[Y][X]: compared at many integer points for Y (more than the degree of the resultant)
fn resultant_nested(c: &mut Ctx, _: u64) -> R {
    let gen = |c: &mut Ctx, d: usize| -> Vec<ZP> {
        let mut v: Vec<ZP> = (0..=d).map(|_| poly::rand_zp(&mut c.rng, 2, 5)).collect();
        if v[d].is_empty() {
            v[d] = poly::zp(&[c.rng.small_nz(4)]);
        }
        v
    };
    let (m, n) = (c.rng.us(0, 3), c.rng.us(0, 3));
    let (mut a, mut b) = (gen(c, m), gen(c, n));
    match c.rng.below(4) {
        // the shapes used for sums and products of algebraic numbers: f(X), g(Y - X) or X^n*g(Y/X)
        0 => {
            a = poly::rand_zp_deg(&mut c.rng, 2, 6).into_iter().map(|v| poly::trim(vec![v])).collect();
        }
        1 => {
            let k = b.len() - 1;
            b = b.into_iter().enumerate().map(|(i, v)| { let mut w = vec![BigInt::zero(); k - i]; w.extend(v.into_iter().take(1)); poly::trim(w) }).collect();
            if b[k].is_empty() {
                b[k] = poly::zp(&[1]);
            }
        }
        _ => {}
    }
    let (m, n) = (a.len() - 1, b.len() - 1);
    c.distinct((&a, &b));
    c.note(|| format!("resultant in X over Z[Y]: {:?} and {:?}", a.iter().map(|v| poly::fmt(v)).collect::<Vec<_>>(), b.iter().map(|v| poly::fmt(v)).collect::<Vec<_>>()));
    let f = |v: &Vec<ZP>| Polynomial::<Polynomial<BigInt>>::from(v.iter().map(|c| Polynomial::<BigInt>::from(c.clone())).collect::<Vec<_>>());
    let got: ZP = f(&a).resultant(f(&b)).iter().collect();
    ensure!(c, got == poly::trim(got.clone()), "not-normal", "resultant has a leading zero");
    let deg = a.iter().map(|v| v.len()).max().unwrap() * n + b.iter().map(|v| v.len()).max().unwrap() * m + 1;
    for t in 0..deg.max(got.len()) as i64 + 1 {
        let t = BigInt::from(if t % 2 == 0 { t / 2 } else { -t / 2 - 1 });
        let ev = |v: &Vec<ZP>| v.iter().map(|c| poly::eval(c, &t)).collect::<ZP>();
        let w = poly::resultant_formal(&ev(&a), m, &ev(&b), n);
        let v = poly::eval(&got, &t);
        ensure!(c, v == w, "resultant", "at Y = {}: resultant {} instead of {}", t, v, w);
    }
    Ok(())
}
fn resultant_common(c: &mut Ctx, _: u64) -> R {
    let f = { let d = c.rng.us(1, 3); poly::rand_zp_deg(&mut c.rng, d, 20) };
    let (x, y) = (poly::rand_zp_nz(&mut c.rng, 3, 20), poly::rand_zp_nz(&mut c.rng, 3, 20));
    let (a, b) = (poly::mul(&f, &x), poly::mul(&f, &y));
    c.distinct((&a, &b));
    c.note(|| format!("resultant of {} and {} (common factor)", poly::fmt(&a), poly::fmt(&b)));
    let got = Polynomial::<BigInt>::from(a).resultant(Polynomial::from(b));
    ensure!(c, got.is_zero(), "resultant", "polynomials with a common factor have resultant {}", got);
    // swapping exchanges the sign by the product of the degrees
    let r1 = Polynomial::<BigInt>::from(x.clone()).resultant(Polynomial::from(y.clone()));
    let r2 = Polynomial::<BigInt>::from(y.clone()).resultant(Polynomial::from(x.clone()));
    let odd = (x.len() - 1) * (y.len() - 1) % 2 == 1;
    ensure!(c, r1 == if odd { -r2 } else { r2 }, "symmetry", "resultant of {} and {}", poly::fmt(&x), poly::fmt(&y));
    Ok(())
}

// ---------------------------------------------------------------- C14
fn check_yun(c: &mut Ctx, a: &[Q]) -> R {
    let r = QBig;
    let got = r.p(a).square_free_factorization_using_yuns_algorithm();
    let fs: Vec<Vec<Q>> = got.polynomial_factors.iter().map(|f| r.rd(f)).collect();
    c.note(|| format!("square-free parts of {}: {} * {:?}", fmtq(a), got.constant_factor, fs.iter().map(|f| fmtq(f)).collect::<Vec<_>>()));
    if a.len() <= 1 {
        ensure!(c, fs.iter().all(|f| f.len() == 1 && f[0].is_one()) && got.constant_factor == a.first().cloned().unwrap_or_else(Q::zero), "constant", "constant {}: {} and {:?}", fmtq(a), got.constant_factor, fs);
        return Ok(());
    }
    let mut p = vec![got.constant_factor.clone()];
    for (i, f) in fs.iter().enumerate() {
        ensure!(c, !f.is_empty() && *f == poly::trim(f.clone()), "zero-part", "part {} of {} is {}", i + 1, fmtq(a), fmtq(f));
        p = poly::mul(&p, &poly::pow(f, i + 1));
    }
    ensure!(c, p == a, "product", "constant and parts of {} multiply to {}", fmtq(a), fmtq(&p));
    for (i, f) in fs.iter().enumerate() {
        ensure!(c, f.iter().all(|v| v.is_integer()) && f.last().unwrap().is_positive() && poly::to_q(&poly::q_to_primitive(f)) == *f, "primitive", "part {} = {} is not primitive", i + 1, fmtq(f));
        let d = poly::gcd_q(f, &poly::deriv(f));
        ensure!(c, d.len() <= 1 || f.len() == 1, "square", "part {} = {} of {} has a square factor", i + 1, fmtq(f), fmtq(a));
        for (j, h) in fs.iter().enumerate().take(i) {
            ensure!(c, poly::gcd_q(f, h).len() == 1, "coprime", "parts {} and {} of {} share a factor", j + 1, i + 1, fmtq(a));
        }
    }
    ensure!(c, fs.last().map_or(false, |f| f.len() > 1), "trailing", "the last part of {} is constant", fmtq(a));
    c.seen_n("parts", fs.iter().filter(|f| f.len() > 1).count() as u64);
    Ok(())
}
fn yun_planted(c: &mut Ctx, _: u64) -> R {
    let mut a = vec![if c.rng.chance(1, 2) { c.rng.ratio_small_nz(20, 15) } else { Q::from_integer(BigInt::from(c.rng.small_nz(12))) }];
    let n = c.rng.us(1, 3);
    let mut deg = 0;
    for _ in 0..n {
        let d = c.rng.us(1, 3);
        let f = poly::to_q(&poly::rand_zp_deg(&mut c.rng, d, 7));
        let e = if c.rng.chance(1, 6) { c.rng.us(5, 12) } else { c.rng.us(1, 5) };
        if deg + d * e > 18 {
            break;
        }
        deg += d * e;
        a = poly::mul(&a, &poly::pow(&f, e));
    }
    c.distinct(&a);
    check_yun(c, &a)
}
fn yun_random(c: &mut Ctx, _: u64) -> R {
    let a = if c.rng.chance(1, 5) {
        // f(x^k) and sparse polynomials
        let d = c.rng.us(2, 12);
        let s = QBig.sparse(&mut c.rng, d);
        if c.rng.chance(1, 2) { s } else { poly::mul(&s, &s) }
    } else {
        QBig.poly(&mut c.rng, 6)
    };
    c.distinct(&a);
    check_yun(c, &a)
}
fn square_free_predicate(c: &mut Ctx, _: u64) -> R {
    let r = QBig;
    let mut a = r.poly_nz(&mut c.rng, 5);
    if c.rng.chance(1, 2) {
        let f = { let d = c.rng.us(1, 2); r.poly_deg(&mut c.rng, d) };
        a = poly::mul(&a, &poly::mul(&f, &f));
    }
    c.distinct(&a);
    predicate_on(c, a)
}
fn predicate_on(c: &mut Ctx, a: Vec<Q>) -> R {
    let r = QBig;
    let w = poly::gcd_q(&a, &poly::deriv(&a)).len() <= 1;
    let w = w || a.len() == 1;
    c.seen(if w { "square-free" } else { "not-square-free" });
    ensure!(c, r.p(&a).is_square_free() == w, "predicate", "is_square_free({}) is not {}", fmtq(&a), w);
    Ok(())
}
fn square_free_mod<A: Ring>(c: &mut Ctx, r: &A) -> R
where
    A::T: PolynomialDivSupported + PolynomialReducingFactorSupported,
{
    let mut a = r.poly_nz(&mut c.rng, 7);
    match c.rng.below(4) {
        0 => {
            let f = r.poly_nz(&mut c.rng, 2);
            a = { let s = r.mul(&f, &f); r.mul(&a, &s) };
        }
        1 => {
            // a p-th power has derivative zero
            let p = r.modulus().unwrap();
            if p < 6 {
                let f = r.poly_nz(&mut c.rng, 2);
                let h = r.pow(&f, p as usize);
                a = if c.rng.chance(1, 2) { h } else { r.mul(&a, &h) };
            }
        }
        _ => {}
    }
    if a.is_empty() {
        return Ok(());
    }
    c.distinct((A::NAME, r.modulus(), &a));
    let d = r.deriv(&a);
    let w = a.len() == 1 || r.gcd(&a, &d).len() <= 1;
    c.seen(if w { "square-free" } else { "not-square-free" });
    ensure!(c, r.p(&a).is_square_free() == w, "predicate", "{} {:?}: is_square_free({}) is not {}", A::NAME, r.modulus(), fmtq(&a), w);
    Ok(())
}

// ---------------------------------------------------------------- C15
fn changes(signs: impl Iterator<Item = i32>) -> usize {
    let v: Vec<i32> = signs.filter(|s| *s != 0).collect();
    v.windows(2).filter(|w| w[0] != w[1]).count()
}
fn sturm(c: &mut Ctx, planted: bool) -> R {
    let mut a = vec![BigInt::from(c.rng.small_nz(5))];
    let mut points: Vec<Q> = vec![];
    if planted {
        for _ in 0..c.rng.us(1, 5) {
            let root = c.rng.ratio_small(12, 5);
            let f = vec![-root.numer(), root.denom().clone()];
            let e = if c.rng.chance(1, 5) { 2 } else { 1 };
            a = poly::mul(&a, &poly::pow(&f, e));
            points.push(&root + Q::new(BigInt::one(), BigInt::from(1000)));
            points.push(&root - Q::new(BigInt::one(), BigInt::from(1000)));
        }
        if c.rng.chance(1, 2) {
            let f = poly::rand_zp_deg(&mut c.rng, 2, 9);
            a = poly::mul(&a, &f);
        }
    } else {
        a = match c.rng.below(8) {
            // x^n + a*x^k + b: gaps in the sequence
            0 | 1 => {
                let n = c.rng.us(3, 16);
                let mut v = vec![BigInt::zero(); n + 1];
                v[n] = BigInt::from(c.rng.small_nz(3));
                let k = c.rng.us(1, n - 1);
                v[k] = BigInt::from(c.rng.small(9));
                v[0] = BigInt::from(c.rng.small(9));
                v
            }
            // f(x^k)
            2 => {
                let f = poly::rand_zp_nz(&mut c.rng, 4, 9);
                let k = c.rng.us(2, 3);
                let mut v = vec![BigInt::zero(); (f.len() - 1) * k + 1];
                for (i, x) in f.iter().enumerate() {
                    v[i * k] = x.clone();
                }
                v
            }
            // roots clustered around a point
            3 => {
                let mut v = vec![BigInt::one()];
                for _ in 0..c.rng.us(2, 4) {
                    let n = BigInt::from(1_000_000i64 + c.rng.small(3));
                    v = poly::mul(&v, &[n, BigInt::from(-1_000_003i64)]);
                }
                poly::add(&v, &[BigInt::from(c.rng.below(2))])
            }
            // Chebyshev polynomials and shifts of them: all roots real
            4 => {
                let (mut t0, mut t1) = (poly::zp(&[1]), poly::zp(&[0, 1]));
                for _ in 0..c.rng.us(1, 11) {
                    let t2 = poly::sub(&poly::mul(&poly::zp(&[0, 2]), &t1), &t0);
                    t0 = t1;
                    t1 = t2;
                }
                poly::add(&t1, &poly::zp(&[c.rng.small(1)]))
            }
            5 => poly::rand_zp_nz(&mut c.rng, 14, 9),
            _ => poly::rand_zp_nz(&mut c.rng, 8, 30),
        };
        a = poly::trim(a);
        if a.is_empty() {
            a = poly::zp(&[1]);
        }
    }
    sturm_on(c, a, points)
}
fn sturm_on(c: &mut Ctx, a: ZP, mut points: Vec<Q>) -> R {
    c.distinct(&a);
    let qa = poly::to_q(&a);
    c.note(|| format!("Sturm sequences of {}", fmtq(&qa)));
    let sf = poly::squarefree_part(&a);
    let bound = Q::from_integer(poly::root_bound(&a) + 1);
    points.push(-bound.clone());
    points.push(bound);
    for _ in 0..4 {
        points.push(c.rng.ratio_small(20, 7));
    }
    // end points must not be roots
    points.retain(|x| poly::sign_at(&a, x) != 0);
    points.sort();
    points.dedup();
    let scale = c.rng.ratio_small_nz(7, 7);
    let qs = poly::scale(&qa, &scale);
    let seqs: Vec<(&str, Vec<Vec<Q>>)> = vec![
        ("sturm over ratios", QBig.p(&qs).to_sturm_sequence().iter().map(|p| QBig.rd(p)).collect()),
        ("into_sturm over ratios", QBig.p(&qs).into_sturm_sequence().iter().map(|p| QBig.rd(p)).collect()),
        ("primitive sturm over integers", Polynomial::<BigInt>::from(a.clone()).to_primitive_sturm_sequence().iter().map(|p| ZBig.rd(p)).collect()),
        ("primitive sturm over ratios", QBig.p(&qs).into_primitive_sturm_sequence().iter().map(|p| QBig.rd(p)).collect()),
    ];
    let iso = if sf.len() > 1 { poly::isolate(&sf) } else { vec![] };
    for (name, seq) in &seqs {
        let sgn = |x: &Q| {
            changes(seq.iter().map(|p| {
                let v = poly::eval(p, x);
                if v.is_positive() {
                    1
                } else if v.is_negative() {
                    -1
                } else {
                    0
                }
            }))
        };
        let at: Vec<usize> = points.iter().map(|x| sgn(x)).collect();
        if let (Some(f), Some(l)) = (at.first(), at.last()) {
            ensure!(c, *f >= *l && f - l == iso.len(), "total", "{}: {} sign changes lost over the whole line, {} has {} real roots", name, *f as i64 - *l as i64, fmtq(&qa), iso.len());
        }
        let st = if sf.len() > 1 { Some(poly::Sturm::new(&sf)) } else { None };
        for i in 1..points.len() {
            let n = st.as_ref().map_or(0, |s| s.count_half_open(&points[i - 1], &points[i]));
            ensure!(c, at[i - 1] >= at[i] && at[i - 1] - at[i] == n, "interval", "{}: sign changes {} -> {} between {} and {}, where {} has {} real roots", name, at[i - 1], at[i], points[i - 1], points[i], fmtq(&qa), n);
        }
        ensure!(c, seq.len() <= a.len() && seq[0].len() == a.len(), "shape", "{}: sequence of {} starts with {}", name, fmtq(&qa), fmtq(&seq[0]));
        c.seen_n("intervals", points.len() as u64);
    }
    c.seen_n("real-roots", iso.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C16
fn zf(p: &Polynomial<BigInt>) -> ZP {
    p.iter().collect()
}
/// `known`: the complete factorization into irreducibles, if the generator knows it
fn check_factor(c: &mut Ctx, a: &ZP, known: Option<Vec<(ZP, usize)>>) -> R {
    c.distinct(a);
    c.note(|| format!("factor {}", poly::fmt(a)));
    let pa = Polynomial::<BigInt>::from(a.clone());
    let got = pa.factor();
    let mut fs: Vec<(ZP, usize)> = got.polynomial_factors.iter().map(|f| (zf(&f.polynomial), f.power)).collect();
    c.note(|| format!("  = {} * {:?}", got.constant_factor, fs.iter().map(|(f, e)| format!("({})^{}", poly::fmt(f), e)).collect::<Vec<_>>()));
    let mut p = poly::trim(vec![got.constant_factor.clone()]);
    for (f, e) in &fs {
        ensure!(c, f.len() > 1 && *e > 0, "trivial-factor", "constant factor or power zero in the factors of {}", poly::fmt(a));
        ensure!(c, poly::content(f).is_one() && f.last().unwrap().is_positive(), "not-primitive", "factor {} of {} is not primitive with positive leading coefficient", poly::fmt(f), poly::fmt(a));
        p = poly::mul(&p, &poly::pow(f, *e));
    }
    ensure!(c, p == *a, "product", "the factors of {} multiply to {}", poly::fmt(a), poly::fmt(&p));
    fs.sort_by(|x, y| poly::cmp_poly(&x.0, &y.0));
    for w in fs.windows(2) {
        ensure!(c, w[0].0 != w[1].0, "repeated", "factor {} of {} is listed twice", poly::fmt(&w[0].0), poly::fmt(a));
    }
    c.seen_n("factors", fs.len() as u64);
    c.seen("factorizations");
    match known {
        Some(mut k) => {
            // merge equal factors
            k.sort_by(|x, y| poly::cmp_poly(&x.0, &y.0));
            let mut m: Vec<(ZP, usize)> = vec![];
            for (f, e) in k {
                match m.last_mut() {
                    Some(l) if l.0 == f => l.1 += e,
                    _ => m.push((f, e)),
                }
            }
            ensure!(c, fs == m, "not-irreducible", "factors of {}: got {:?}, irreducible factors are {:?}", poly::fmt(a), fs.iter().map(|f| poly::fmt(&f.0)).collect::<Vec<_>>(), m.iter().map(|f| poly::fmt(&f.0)).collect::<Vec<_>>());
            c.seen("known-factors");
        }
        None => {
            for (f, _) in &fs {
                match poly::irreducible_certificate(f) {
                    Some(b) => {
                        ensure!(c, b, "not-irreducible", "factor {} of {} is reducible", poly::fmt(f), poly::fmt(a));
                        c.seen("certified-irreducible");
                    }
                    None => {
                        let small = f[0].bits() <= 20 && f.last().unwrap().bits() <= 20;
                        ensure!(c, f.len() == 2 || !small || !poly::has_rational_root(f), "not-irreducible", "factor {} of {} has a rational root", poly::fmt(f), poly::fmt(a));
                        c.seen("uncertified")
                    }
                }
            }
        }
    }
    Ok(())
}
fn irreducibles(c: &mut Ctx, n: usize, max_deg: usize, m: i64) -> Vec<(ZP, usize)> {
    (0..n)
        .map(|_| {
            let d = c.rng.us(1, max_deg);
            let e = if c.rng.chance(1, 5) { c.rng.us(2, 4) } else { 1 };
            (poly::rand_irreducible(&mut c.rng, d, m), e)
        })
        .collect()
}
fn product(c: &BigInt, fs: &[(ZP, usize)]) -> ZP {
    let mut p = vec![c.clone()];
    for (f, e) in fs {
        p = poly::mul(&p, &poly::pow(f, *e));
    }
    poly::trim(p)
}
fn factor_products(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.us(1, 4);
    let m = *c.rng.pick(&[3i64, 10, 50]);
    let fs = irreducibles(c, n, 4, m);
    let k = BigInt::from(c.rng.small_nz(60));
    let a = product(&k, &fs);
    check_factor(c, &a, Some(fs))
}
fn factor_random(c: &mut Ctx, _: u64) -> R {
    let m = *c.rng.pick(&[1i64, 2, 10, 1000]);
    let a = poly::rand_zp(&mut c.rng, 9, m);
    check_factor(c, &a, None)
}
/// non-monic factors whose leading coefficients share factors
fn factor_leading(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.us(2, 4);
    let mut fs = vec![];
    for _ in 0..n {
        let d = c.rng.us(1, 3);
        let lead = BigInt::from(*c.rng.pick(&[2i64, 3, 4, 6, 12, 30, 210, 9699690]));
        let mut f = poly::rand_zp_deg(&mut c.rng, d, 12);
        *f.last_mut().unwrap() = lead;
        let f = poly::primitive(&f);
        if f.len() == 2 || (f.len() <= 4 && !poly::has_rational_root(&f)) {
            fs.push((f, 1));
        }
    }
    let a = product(&BigInt::from(c.rng.small_nz(9)), &fs);
    check_factor(c, &a, Some(fs))
}
fn swd(primes: &[i64]) -> ZP {
    // minimal polynomial of the sum of the square roots: p(x - s)p(x + s) step by step, over Z[x][s], s^2 = prime
    let mut p = poly::zp(&[0, 1]);
    for &q in primes {
        // p(x+s) = e(x) + s*o(x)
        let mut e = vec![];
        let mut o = vec![];
        // Horner in (x + s): (e, o) -> (x*e + q*o + c, e + x*o)
        for cf in p.iter().rev() {
            let mut xe = vec![BigInt::zero()];
            xe.extend(e.iter().cloned());
            let ne = poly::add(&poly::add(&poly::trim(xe), &poly::scale(&o, &BigInt::from(q))), &poly::trim(vec![cf.clone()]));
            let mut xo = vec![BigInt::zero()];
            xo.extend(o.iter().cloned());
            let no = poly::add(&e, &poly::trim(xo));
            e = ne;
            o = no;
        }
        p = poly::sub(&poly::mul(&e, &e), &poly::scale(&poly::mul(&o, &o), &BigInt::from(q)));
    }
    p
}
/// irreducible over Z but splitting into many factors modulo every prime (Swinnerton-Dyer, x^4+1 and products of them)
fn factor_hard(c: &mut Ctx, _: u64) -> R {
    let sets: &[&[i64]] = &[&[2, 3], &[2, 5], &[3, 5], &[2, 7], &[-1, 2], &[-1, 3], &[2, 3, 5], &[-1, 2, 3], &[3, 7], &[-2, 5], &[-1, 5, 7], &[2, 3, 7]];
    let mut fs = vec![];
    let mut deg = 0;
    for _ in 0..c.rng.us(1, 3) {
        let s: &[i64] = *c.rng.pick(sets);
        let p = swd(s);
        // shift by an integer: stays irreducible
        let k = BigInt::from(c.rng.small(3));
        let p = poly::compose_shift(&p, &k);
        if deg + p.len() - 1 <= 20 && !fs.iter().any(|f: &(ZP, usize)| f.0 == p) {
            deg += p.len() - 1;
            fs.push((p, 1));
        }
    }
    if c.rng.chance(1, 2) {
        fs.extend(irreducibles(c, 1, 2, 9));
    }
    let a = product(&BigInt::one(), &fs);
    check_factor(c, &a, Some(fs))
}
/// factors made of many modular factors each, so that the search has to go through large subsets
fn factor_deep(c: &mut Ctx, i: u64) -> R {
    let a = swd(&[2, 3, 5, 7]);
    let b = swd(&[-1, 2, 3, 5]);
    let e = swd(&[2, 3, 5]);
    let one = BigInt::one();
    let fs = match i {
        0 => vec![a],
        1 => vec![b],
        2 => vec![poly::compose_shift(&a, &one), e],
        3 => vec![b, poly::zp(&[1, 1]), poly::zp(&[-7, 0, 3])],
        4 => vec![a, b],
        5 => vec![poly::cyclotomic(120)],
        6 => vec![poly::cyclotomic(60), poly::cyclotomic(24)],
        7 => vec![poly::cyclotomic(84), poly::zp(&[2, 0, 0, 1])],
        8 => vec![swd(&[2, 3, 7]), swd(&[5, -3, 2]), swd(&[-1, 7])],
        9 => vec![swd(&[-2, 3, 11]), poly::compose_shift(&e, &one), e],
        10 => vec![a.iter().rev().cloned().collect()],
        11 => vec![e.iter().enumerate().map(|(k, v)| v * BigInt::from(3).pow(k as u32)).collect(), poly::cyclotomic(40)],
        12 => vec![swd(&[3, 5, 7, 11])],
        _ => vec![poly::cyclotomic(105), poly::cyclotomic(8)],
    };
    let fs: Vec<(ZP, usize)> = fs.into_iter().map(|f| (poly::primitive(&f), 1)).collect();
    c.seen("deep subset search");
    let p = product(&one, &fs);
    check_factor(c, &p, Some(fs))
}
fn factor_cyclotomic(c: &mut Ctx, i: u64) -> R {
    let n = 1 + (i as usize * 7 + c.rng.us(0, 3)) % 24;
    // x^n - 1 is the product of the cyclotomic polynomials of the divisors of n
    let mut a = vec![BigInt::zero(); n + 1];
    a[0] = -BigInt::one();
    a[n] = BigInt::one();
    let fs: Vec<(ZP, usize)> = (1..=n).filter(|d| n % d == 0).map(|d| (poly::cyclotomic(d), 1)).collect();
    check_factor(c, &a, Some(fs))
}
fn factor_large(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.us(2, 3);
    let mut fs = vec![];
    let tall = c.rng.chance(1, 60);
    for _ in 0..n {
        // linear or quadratic without rational root, big coefficients
        let bits = *c.rng.pick(&[20usize, 62, 64, 100, 200, 400]);
        let bits = if c.rng.chance(1, 20) { c.rng.us(700, 1800) } else { bits };
        let d = c.rng.us(1, 2);
        let mut f: ZP = (0..=d).map(|_| c.rng.big_nz(bits)).collect();
        if tall {
            f = (0..=d).map(|_| BigInt::from(c.rng.biguint_bits(1500)) + BigInt::one()).collect();
        }
        if d == 2 {
            // negative discriminant
            f[0] = f[0].abs();
            f[2] = f[2].abs();
            let s = (&f[0] * &f[2]).sqrt();
            f[1] = f[1].mod_floor(&(s + 1));
        }
        let f = poly::primitive(&f);
        fs.push((f, c.rng.us(1, 2)));
    }
    let a = product(&c.rng.big_nz(30), &fs);
    check_factor(c, &a, Some(fs))
}
fn factor_shapes(c: &mut Ctx, _: u64) -> R {
    let base = { let n = c.rng.us(1, 2); irreducibles(c, n, 2, 9) };
    let mut a = product(&BigInt::from(c.rng.small_nz(9)), &base);
    match c.rng.below(6) {
        0 => {
            // multiplied by a power of X
            let k = c.rng.us(1, 4);
            let mut v = vec![BigInt::zero(); k];
            v.extend(a);
            a = v;
            let mut fs = base;
            fs.push((poly::zp(&[0, 1]), k));
            return check_factor(c, &a, Some(fs));
        }
        1 => {
            // f(X^2), f(X^3)
            let k = c.rng.us(2, 3);
            let mut v = vec![BigInt::zero(); (a.len() - 1) * k + 1];
            for (i, x) in a.iter().enumerate() {
                v[i * k] = x.clone();
            }
            a = v;
        }
        2 => a = poly::reverse(&a),
        3 => a = poly::compose_shift(&a, &BigInt::from(c.rng.small(1000))),
        4 => a = poly::trim(vec![BigInt::from(c.rng.small(20))]), // constants and zero
        _ => {
            // difference of powers: X^n - k^n and friends
            let n = c.rng.us(2, 8);
            let k = BigInt::from(c.rng.small_nz(6)).pow(if c.rng.chance(1, 2) { n as u32 } else { 1 });
            a = vec![BigInt::zero(); n + 1];
            a[0] = k;
            a[n] = BigInt::one();
        }
    }
    check_factor(c, &a, None)
}
/// factors that coincide modulo every small prime: the search for a usable prime has to go on past them
fn factor_bad_primes(c: &mut Ctx, _: u64) -> R {
    let top = if c.rng.chance(1, 8) { 700 } else { 103 };
    let primes: Vec<i64> = (2i64..top).filter(|&n| (2..n).take_while(|d| d * d <= n).all(|d| n % d != 0)).collect();
    let n = c.rng.us(3, primes.len());
    let mut shift = primes[..n].iter().fold(BigInt::one(), |a, &p| a * p);
    if c.rng.chance(1, 2) {
        shift = -shift;
    }
    let d = c.rng.us(1, 3);
    let f = poly::rand_irreducible(&mut c.rng, d, 9);
    let mut fs = vec![(f.clone(), 1)];
    // f(x + shift) is irreducible and congruent to f modulo each of these primes
    fs.push((poly::compose_shift(&f, &shift), 1));
    if c.rng.chance(1, 4) {
        fs.push((poly::compose_shift(&f, &(&shift * BigInt::from(2))), c.rng.us(1, 2)));
    }
    if c.rng.chance(1, 4) {
        fs.extend(irreducibles(c, 1, 3, 9));
    }
    // and a leading coefficient those primes divide
    if c.rng.chance(1, 3) {
        fs.push((vec![BigInt::from(*c.rng.pick(&[1i64, -1])), shift.abs()], 1));
        if c.rng.chance(1, 2) {
            fs.remove(1);
        }
    }
    let k = if c.rng.chance(1, 3) { shift } else { BigInt::from(c.rng.small_nz(9)) };
    let a = product(&k, &fs);
    check_factor(c, &a, Some(fs))
}
/// a factor with coefficients far larger than the product's: (x - 1)^k + p times cyclotomics, which smooth them
fn factor_bound(c: &mut Ctx, _: u64) -> R {
    let k = c.rng.us(6, 14);
    let mut g = vec![BigInt::zero(); k + 1];
    g[k] = BigInt::one();
    let p = *c.rng.pick(&[2i64, 3, 5]);
    g[0] = BigInt::from(p * *c.rng.pick(&[1i64, -1]));
    for _ in 0..c.rng.us(0, 2) {
        let j = c.rng.us(1, k - 1);
        g[j] = BigInt::from(p * c.rng.small(2));
    }
    // Eisenstein at p, so irreducible, and so are its shift and reversal
    let mut g = poly::compose_shift(&g, &BigInt::from(*c.rng.pick(&[1i64, -1, -1])));
    if c.rng.chance(1, 4) {
        g = poly::primitive(&poly::reverse(&g));
    }
    let mut fs = vec![(g, 1)];
    let pool = [2usize, 3, 4, 5, 6, 7, 8, 12];
    let mut picked = vec![];
    for _ in 0..c.rng.us(1, 5) {
        let n = *c.rng.pick(&pool);
        if !picked.contains(&n) {
            picked.push(n);
            fs.push((poly::cyclotomic(n), 1));
        }
    }
    let a = product(&BigInt::one(), &fs);
    check_factor(c, &a, Some(fs))
}
/// many low-degree factors, total degree up to thirty
fn factor_many(c: &mut Ctx, _: u64) -> R {
    let n = c.rng.us(5, 9);
    let m = *c.rng.pick(&[3i64, 10]);
    let mut fs: Vec<(ZP, usize)> = irreducibles(c, n, 4, m).into_iter().map(|(f, _)| (f, 1)).collect();
    fs.sort_by(|x, y| poly::cmp_poly(&x.0, &y.0));
    fs.dedup();
    if c.rng.chance(1, 3) {
        fs[0].1 = c.rng.us(2, 6);
    }
    let a = product(&BigInt::from(c.rng.small_nz(60)), &fs);
    check_factor(c, &a, Some(fs))
}
/// the answer does not depend on the random source
fn factor_rngs(c: &mut Ctx, _: u64) -> R {
    use rand::SeedableRng;
    let fs = irreducibles(c, 3, 3, 12);
    let a = product(&BigInt::from(c.rng.small_nz(9)), &fs);
    c.distinct(&a);
    c.note(|| format!("factor {} with several random sources", poly::fmt(&a)));
    let pa = Polynomial::<BigInt>::from(a.clone());
    let canon = |f: algebraics::polynomial::PolynomialFactors<BigInt>| {
        let mut v: Vec<(ZP, usize)> = f.polynomial_factors.iter().map(|f| (zf(&f.polynomial), f.power)).collect();
        v.sort_by(|x, y| poly::cmp_poly(&x.0, &y.0));
        (f.constant_factor, v)
    };
    let w = canon(pa.factor());
    for _ in 0..4 {
        let mut rng = rand_pcg::Pcg64Mcg::seed_from_u64(c.rng.u64());
        let v = canon(pa.factor_with_rng(&mut rng));
        ensure!(c, v == w, "random-source", "factors of {} depend on the random source", poly::fmt(&a));
    }
    check_factor(c, &a, Some(fs))
}
fn _unused(_: &mut Rng) {}

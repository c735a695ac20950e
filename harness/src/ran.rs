//! Glue between the crate's RealAlgebraicNumber and the exact field model.
use crate::engine::{Ctx, R};
use crate::ensure;
use crate::field::*;
use crate::poly::*;
use crate::rng::Rng;
use algebraics::{interval_arithmetic::DyadicFractionInterval as DFI, polynomial::Polynomial, RealAlgebraicNumber as RAN};
use num_bigint::BigInt;
use num_rational::BigRational as Q;
use num_traits::{One, Zero};
use std::cmp::Ordering;

pub fn to_poly(v: &[BigInt]) -> Polynomial<BigInt> {
    v.to_vec().into()
}
pub fn from_poly(p: &Polynomial<BigInt>) -> ZP {
    p.iter().collect()
}
/// bounds of a number's interval, read through the numerators
pub fn iv_bounds(iv: &DFI) -> (Q, Q) {
    let d = BigInt::one() << iv.log2_denom();
    (
        Q::new(iv.lower_bound_numer().clone(), d.clone()),
        Q::new(iv.upper_bound_numer().clone(), d),
    )
}
pub fn show(v: &RAN) -> String {
    format!("{{poly {} in {}}}", fmt(&from_poly(v.minimal_polynomial())), v.interval())
}
/// a representation of the embedded value of `e`: its minimal polynomial and a random isolating interval
pub fn make(r: &mut Rng, fld: &Field, e: &El) -> RAN {
    let m = fld.minpoly(e);
    if let Some(v) = fld.as_rational(e) {
        // rationals come from the public conversions, or from a wide interval
        if r.chance(1, 2) {
            return RAN::from(v);
        }
        let k = r.us(0, 6);
        let lo = fld.floor_scaled(e, k) - r.below(4);
        let hi = -fld.floor_scaled(&fld.neg(e), k) + r.below(4);
        return RAN::new_unchecked(to_poly(&m), DFI::new(lo, hi, k));
    }
    let st = Sturm::new(&m);
    let mut k = match r.below(6) {
        0 | 1 => 0,
        2 | 3 => r.us(0, 6),
        4 => r.us(4, 20),
        _ => r.us(20, 70),
    };
    // slack in grid steps: small, or wide (covering zero / many integers)
    let wide = r.chance(1, 2);
    let slack = |r: &mut Rng| -> BigInt {
        match r.below(4) {
            0 => BigInt::zero(),
            1 => BigInt::from(r.below(4)),
            2 if wide => BigInt::from(r.below(40)),
            _ if wide => BigInt::from(r.below(12)) << r.us(0, 3.min(k)),
            _ => BigInt::from(r.below(2)),
        }
    };
    let (mut sl, mut sh) = (slack(r), slack(r));
    loop {
        let fl = fld.floor_scaled(e, k);
        let mut lo = &fl - &sl;
        let mut hi = &fl + BigInt::one() + &sh;
        // sometimes put a bound exactly on zero
        if r.chance(1, 6) {
            match fld.sign(e) {
                Ordering::Greater => lo = BigInt::zero(),
                Ordering::Less => hi = BigInt::zero(),
                _ => {}
            }
        }
        let d = BigInt::one() << k;
        let (ql, qh) = (Q::new(lo.clone(), d.clone()), Q::new(hi.clone(), d));
        if st.count_closed(&ql, &qh) == 1 {
            return RAN::new_unchecked(to_poly(&m), DFI::new(lo, hi, k));
        }
        if sl.is_zero() && sh.is_zero() {
            k += 1;
        } else {
            sl = sl / 2;
            sh = sh / 2;
        }
    }
}
/// the embedded value of `e` is what `v` represents, in canonical form
pub fn check_value(c: &mut Ctx, v: &RAN, fld: &Field, e: &El, what: &str) -> R {
    let expected = fld.minpoly(e);
    let got = from_poly(v.minimal_polynomial());
    ensure!(
        c,
        got == expected,
        "wrong-minimal-polynomial",
        "{}: got {} but the exact value has minimal polynomial {}",
        what,
        show(v),
        fmt(&expected)
    );
    let (lo, hi) = iv_bounds(v.interval());
    ensure!(
        c,
        fld.cmp_q(e, &lo) != Ordering::Less && fld.cmp_q(e, &hi) != Ordering::Greater,
        "value-outside-interval",
        "{}: got {} but the exact value is about {}",
        what,
        show(v),
        approx(fld, e)
    );
    if expected.len() > 2 {
        ensure!(
            c,
            Sturm::new(&expected).count_closed(&lo, &hi) == 1,
            "interval-not-isolating",
            "{}: got {}: the interval holds more than one root",
            what,
            show(v)
        );
    }
    Ok(())
}
pub fn approx(fld: &Field, e: &El) -> String {
    let f = fld.fx(e, 80);
    let n: BigInt = (&f.lo * BigInt::from(10u64.pow(12))) >> 80usize;
    format!("{}e-12", n)
}

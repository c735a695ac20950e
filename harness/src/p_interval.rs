//! Properties of DyadicFractionInterval: enclosure, tightness, log/exp/AGM/constants, shared constant cache.
use crate::engine::*;
use crate::ensure;
use crate::poly::{q, qi, z};
use crate::real::*;
use crate::rng::Rng;
use algebraics::{
    interval_arithmetic::DyadicFractionInterval as DFI,
    traits::{ExactDiv, ExactDivAssign, IntervalUnion, IntervalUnionAssign},
};
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::{BigRational as Q, Ratio};
use num_traits::{One, Pow, Signed, Zero};
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c06")]
    v.push(Prop::new(
            "C06",
            "distinct (operation, operand interval(s), scalar) whose result was compared with the exact range",
            vec![
                g("interval-op", 120000, 3000000, |c, _| op_binary(c, false)),
                g("scalar-op", 120000, 3000000, |c, _| op_scalar(c, false)),
                g("unary-op", 120000, 3000000, |c, _| op_unary(c, false)),
                g("power", 60000, 1500000, c06_pow),
                g("expression", 20000, 500000, c06_expression),
                g("refuse", 8000, 100000, c06_refuse),
                g("small-exhaustive", 264, 264, |c, i| small_exhaustive(c, i, false)),
            ],
        ));
    #[cfg(feature = "c07")]
    v.push(Prop::new(
            "C07",
            "distinct (operation, operands) whose bounds were compared with the exactly rounded ones",
            vec![
                g("interval-op", 120000, 3000000, |c, _| op_binary(c, true)),
                g("scalar-op", 120000, 3000000, |c, _| op_scalar(c, true)),
                g("unary-op", 120000, 3000000, |c, _| op_unary(c, true)),
                g("accessors", 40000, 500000, c07_accessors),
                g("small-exhaustive", 264, 264, |c, i| small_exhaustive(c, i, true)),
                g("elementary-point", 1500, 30000, c07_elementary),
            ],
        ));
    #[cfg(feature = "c08")]
    v.push(Prop::new(
            "C08",
            "distinct (function, argument interval) compared with independently computed rational enclosures",
            vec![
                g("log", 4000, 80000, c08_log),
                g("exp", 4000, 80000, c08_exp),
                g("near-grid", 3000, 60000, c08_near_grid),
                g("agm", 4000, 80000, c08_agm),
                g("constants", 500, 4000, c08_constants),
                g("dyadic-points", 600, 600, c08_dyadic_points),
                g("high-precision", 150, 4000, c08_high_precision),
            ],
        ));
    let mut c9 = Prop::new(
        "C09",
        "distinct (history, constant, precision) requests checked in cold-started multi-threaded processes",
        vec![
            g("threads", 160, 4000, c09_threads),
            g("orders", 60, 1500, c09_orders),
        ],
    );
    c9.single = true;
    v.push(c9);
    v
}

// ---------------------------------------------------------------- generators and helpers
const PRECS: &[usize] = &[0, 0, 1, 2, 3, 5, 8, 16, 31, 32, 33, 63, 64, 65, 100];
const DEEP: &[usize] = &[127, 128, 129, 160, 200, 255, 256, 300, 512, 1000];
pub fn gen(r: &mut Rng) -> DFI {
    let p = if r.chance(1, 12) { *r.pick(DEEP) } else { *r.pick(PRECS) };
    gen_p(r, p)
}
pub fn gen_p(r: &mut Rng, p: usize) -> DFI {
    let bits = match r.below(21) / 4 {
        0 => 2,
        1 => p + 1,
        2 => p + 4,
        5 => p + 250,
        3 => 2 * p + 8,
        _ => p / 2 + 3,
    };
    let a = r.big(bits);
    let b = match r.below(8) {
        0 => a.clone(),
        1 => &a + 1,
        2 => &a + z(r.int(0, 5)),
        3 => -&a,
        4 => z(0),
        5 => r.big(bits / 2 + 1),
        _ => r.big(bits),
    };
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    DFI::new(lo, hi, p)
}
fn pos(r: &mut Rng) -> DFI {
    loop {
        let v = gen(r).into_abs();
        if v.lower_bound_numer().is_positive() {
            return v;
        }
    }
}
pub fn lo(v: &DFI) -> Q {
    Q::new(v.lower_bound_numer().clone(), BigInt::one() << v.log2_denom())
}
pub fn hi(v: &DFI) -> Q {
    Q::new(v.upper_bound_numer().clone(), BigInt::one() << v.log2_denom())
}
pub fn key(v: &DFI) -> (String, String, usize) {
    (v.lower_bound_numer().to_string(), v.upper_bound_numer().to_string(), v.log2_denom())
}
pub fn sh(v: &DFI) -> String {
    format!("[{}/2^{}, {}/2^{}]", v.lower_bound_numer(), v.log2_denom(), v.upper_bound_numer(), v.log2_denom())
}
fn floor_p(v: &Q, p: usize) -> BigInt {
    (v.numer() << p).div_floor(v.denom())
}
fn ceil_p(v: &Q, p: usize) -> BigInt {
    -((-(v.numer() << p)).div_floor(v.denom()))
}
fn mul_range(a: (&Q, &Q), b: (&Q, &Q)) -> (Q, Q) {
    let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
    (c.iter().min().unwrap().clone(), c.iter().max().unwrap().clone())
}
/// the oracle: `res` against the exact range [tlo, thi]
fn judge(c: &mut Ctx, tight: bool, res: &DFI, tlo: &Q, thi: &Q, prec: usize, what: &dyn Fn() -> String) -> R {
    c.note(|| format!("{} = {}", what(), sh(res)));
    ensure!(
        c,
        res.lower_bound_numer() <= res.upper_bound_numer(),
        "inverted",
        "{} gave an inverted interval {}",
        what(),
        sh(res)
    );
    if !tight {
        ensure!(
            c,
            lo(res) <= *tlo && hi(res) >= *thi,
            "not-enclosed",
            "{} gave {}, the exact range is [{}, {}]",
            what(),
            sh(res),
            tlo,
            thi
        );
    } else {
        ensure!(
            c,
            res.log2_denom() == prec,
            "precision",
            "{} gave {} with precision {} instead of {}",
            what(),
            sh(res),
            res.log2_denom(),
            prec
        );
        ensure!(
            c,
            *res.lower_bound_numer() == floor_p(tlo, prec) && *res.upper_bound_numer() == ceil_p(thi, prec),
            "not-tight",
            "{} gave {}, the narrowest enclosure of [{}, {}] is [{}, {}] / 2^{}",
            what(),
            sh(res),
            tlo,
            thi,
            floor_p(tlo, prec),
            ceil_p(thi, prec),
            prec
        );
    }
    Ok(())
}

macro_rules! forms {
    ($k:expr, $a:expr, $v:expr, $o:tt, $oa:tt) => {
        match $k {
            0 => $a.clone() $o $v.clone(),
            1 => $a.clone() $o &$v,
            2 => &$a $o $v.clone(),
            3 => &$a $o &$v,
            4 => { let mut t = $a.clone(); t $oa $v.clone(); t }
            _ => { let mut t = $a.clone(); t $oa &$v; t }
        }
    };
}
macro_rules! four {
    ($op:expr, $k:expr, $a:expr, $v:expr) => {
        match $op {
            0 => forms!($k, $a, $v, +, +=),
            1 => forms!($k, $a, $v, -, -=),
            2 => forms!($k, $a, $v, *, *=),
            _ => forms!($k, $a, $v, /, /=),
        }
    };
}
const NAMES: [&str; 4] = ["+", "-", "*", "/"];

pub fn op_binary(c: &mut Ctx, tight: bool) -> R {
    let a = gen(&mut c.rng);
    let b = match c.rng.below(6) {
        0 => a.clone(),
        1 => -&a,
        2 => gen_p(&mut c.rng, a.log2_denom()),
        _ => gen(&mut c.rng),
    };
    let op = c.rng.below(5);
    binary_on(c, tight, a, b, op)
}
fn binary_on(c: &mut Ctx, tight: bool, a: DFI, b: DFI, op: u64) -> R {
    let k = c.rng.below(6);
    let (al, ah, bl, bh) = (lo(&a), hi(&a), lo(&b), hi(&b));
    let prec = a.log2_denom().max(b.log2_denom());
    let (res, t) = match op {
        0 | 1 | 2 => {
            let res = four!(op, k, a, b);
            let t = match op {
                0 => (&al + &bl, &ah + &bh),
                1 => (&al - &bh, &ah - &bl),
                _ => mul_range((&al, &ah), (&bl, &bh)),
            };
            (res, t)
        }
        3 => {
            let zero = !bl.is_positive() && !bh.is_negative();
            let checked = match k {
                0 => a.clone().checked_exact_div(b.clone()),
                1 => (&a).checked_exact_div(&b),
                2 => a.clone().checked_exact_div(&b),
                _ => {
                    let mut t = a.clone();
                    match t.checked_exact_div_assign(&b) {
                        Ok(()) => Some(t),
                        Err(()) => {
                            ensure!(c, t.is_same(&a), "failed-op-changed-operand", "failed checked division changed {} to {}", sh(&a), sh(&t));
                            None
                        }
                    }
                }
            };
            if zero {
                c.seen("division by an interval with zero refused");
                ensure!(c, checked.is_none(), "division-by-zero", "{} / {} gave {:?}", sh(&a), sh(&b), checked);
                return Ok(());
            }
            let res = match checked {
                Some(v) if c.rng.chance(1, 2) => v,
                Some(_) => forms!(k, a, b, /, /=),
                None => {
                    ensure!(c, false, "no-result", "{} / {} was refused", sh(&a), sh(&b));
                    return Ok(());
                }
            };
            if tight {
                // division may go through the reciprocal, rounded to the divisor's precision: never wider than that
                let bp = b.log2_denom();
                let r = (Q::new(floor_p(&bh.recip(), bp), BigInt::one() << bp), Q::new(ceil_p(&bl.recip(), bp), BigInt::one() << bp));
                let t = mul_range((&al, &ah), (&r.0, &r.1));
                c.seen("div");
                c.distinct((op, key(&a), key(&b)));
                c.note(|| format!("{} / {} = {}", sh(&a), sh(&b), sh(&res)));
                ensure!(c, res.log2_denom() == prec, "precision", "{} / {} gave {}", sh(&a), sh(&b), sh(&res));
                ensure!(
                    c,
                    *res.lower_bound_numer() >= floor_p(&t.0, prec) && *res.upper_bound_numer() <= ceil_p(&t.1, prec),
                    "not-tight",
                    "{} / {} gave {}, wider than the product with the rounded reciprocal",
                    sh(&a),
                    sh(&b),
                    sh(&res)
                );
                return Ok(());
            }
            let t = mul_range((&al, &ah), (&bh.recip(), &bl.recip()));
            (res, t)
        }
        _ => {
            let res = match k {
                0 => a.clone().interval_union(b.clone()),
                1 => a.clone().interval_union(&b),
                2 => (&a).interval_union(b.clone()),
                3 => (&a).interval_union(&b),
                4 => {
                    let mut t = a.clone();
                    t.interval_union_assign(b.clone());
                    t
                }
                _ => {
                    let mut t = a.clone();
                    t.interval_union_assign(&b);
                    t
                }
            };
            (res, (al.clone().min(bl.clone()), ah.clone().max(bh.clone())))
        }
    };
    let name = ["+", "-", "*", "/", "union"][op as usize];
    c.seen(["add", "sub", "mul", "div", "union"][op as usize]);
    if a.log2_denom() != b.log2_denom() {
        c.seen("operands of different precision");
    }
    if a.contains_zero() || b.contains_zero() {
        c.seen("an operand contains zero");
    }
    c.distinct((op, key(&a), key(&b)));
    judge(c, tight, &res, &t.0, &t.1, prec, &|| format!("{} {} {} (form {})", sh(&a), name, sh(&b), k))
}

macro_rules! prim {
    ($c:expr, $a:expr, $op:expr, $k:expr, $ty:ident, $ratio:expr) => {{
        let bits = $ty::BITS as u64;
        let mut v = (($c.rng.u128()) >> (128 - 1 - $c.rng.below(bits))) as $ty;
        match $c.rng.below(10) {
            0 => v = $ty::MAX,
            1 => v = $ty::MIN,
            2 => v = 1,
            3 => v = (0 as $ty).wrapping_sub(1),
            _ => {}
        }
        if $op == 3 && v == 0 {
            v = 2;
        }
        if $ratio {
            let mut d = (($c.rng.u64() as u128) >> $c.rng.below(64)) as $ty;
            if d <= 0 || $c.rng.chance(1, 5) {
                d = 3;
            }
            if v == $ty::MIN && $ty::MIN != 0 {
                v += 1; // num_rational negates
            }
            let rv = Ratio::<$ty>::new(v, d);
            let exact = Q::new(BigInt::from(*rv.numer()), BigInt::from(*rv.denom()));
            (four!($op, $k, $a, rv), exact, true)
        } else {
            (four!($op, $k, $a, v), qi(BigInt::from(v)), false)
        }
    }};
}
fn op_scalar(c: &mut Ctx, tight: bool) -> R {
    let a = gen(&mut c.rng);
    let op = c.rng.below(4);
    let k = c.rng.below(6);
    let ratio = c.rng.chance(1, 2);
    let ty = c.rng.below(15);
    let (res, s, is_ratio): (DFI, Q, bool) = match ty {
        0 => prim!(c, a, op, k, u8, ratio),
        1 => prim!(c, a, op, k, u16, ratio),
        2 => prim!(c, a, op, k, u32, ratio),
        3 => prim!(c, a, op, k, u64, ratio),
        4 => prim!(c, a, op, k, u128, ratio),
        5 => prim!(c, a, op, k, usize, ratio),
        6 => prim!(c, a, op, k, i8, ratio),
        7 => prim!(c, a, op, k, i16, ratio),
        8 => prim!(c, a, op, k, i32, ratio),
        9 => prim!(c, a, op, k, i64, ratio),
        10 => prim!(c, a, op, k, i128, ratio),
        11 => prim!(c, a, op, k, isize, ratio),
        12 => {
            let bits = *c.rng.pick(&[3usize, 40, 90, 200]);
            let n = c.rng.big(bits).magnitude().clone();
            let d = c.rng.big_nz(*c.rng.clone().pick(&[2usize, 33, 70])).magnitude().clone();
            let n = if op == 3 && n.is_zero() { BigUint::one() } else { n };
            if ratio {
                let v = Ratio::<BigUint>::new(n, d);
                let e = Q::new(BigInt::from(v.numer().clone()), BigInt::from(v.denom().clone()));
                (four!(op, k, a, v), e, true)
            } else {
                let e = qi(BigInt::from(n.clone()));
                (four!(op, k, a, n), e, false)
            }
        }
        13 => {
            let bits = *c.rng.pick(&[3usize, 40, 90, 200]);
            let v = if op == 3 { c.rng.big_nz(bits) } else { c.rng.big(bits) };
            (four!(op, k, a, v), qi(v.clone()), false)
        }
        _ => {
            let bits = *c.rng.pick(&[3usize, 40, 90, 200]);
            let mut v = c.rng.ratio(bits, bits);
            if op == 3 && v.is_zero() {
                v = q(-7, 3);
            }
            (four!(op, k, a, v), v.clone(), true)
        }
    };
    let (al, ah) = (lo(&a), hi(&a));
    let t = match op {
        0 => (&al + &s, &ah + &s),
        1 => (&al - &s, &ah - &s),
        2 => mul_range((&al, &ah), (&s, &s)),
        _ => {
            let i = s.recip();
            mul_range((&al, &ah), (&i, &i))
        }
    };
    c.seen(if is_ratio { "fraction operand" } else { "integer operand" });
    c.seen(["add", "sub", "mul", "div"][op as usize]);
    c.distinct((op, ty, key(&a), s.to_string()));
    judge(c, tight, &res, &t.0, &t.1, a.log2_denom(), &|| {
        format!("{} {} {} (type {}, form {})", sh(&a), NAMES[op as usize], s, ty, k)
    })
}

fn op_unary(c: &mut Ctx, tight: bool) -> R {
    let a = gen(&mut c.rng);
    let np = if c.rng.chance(1, 8) { *c.rng.pick(DEEP) } else { *c.rng.pick(PRECS) };
    let op = c.rng.below(10);
    unary_on(c, tight, a, op, np)
}
/// every interval with numerators in -5..=5 at precisions 0 to 3
fn small_intervals() -> Vec<DFI> {
    let mut v = vec![];
    for p in 0..4 {
        for l in -5i64..=5 {
            for h in l..=5 {
                v.push(DFI::new(z(l), z(h), p));
            }
        }
    }
    v
}
/// interval i of the small ones: every operation with every other one, every unary operation, small powers
fn small_exhaustive(c: &mut Ctx, i: u64, tight: bool) -> R {
    let all = small_intervals();
    let a = &all[i as usize];
    c.seen_n("small intervals", all.len() as u64);
    for b in &all {
        for op in 0..5 {
            binary_on(c, tight, a.clone(), b.clone(), op)?;
        }
    }
    for op in 0..10 {
        for np in 0..6 {
            unary_on(c, tight, a.clone(), op, np)?;
        }
    }
    if !tight {
        for n in -6..=9 {
            for _ in 0..4 {
                pow_on(c, a.clone(), n)?;
            }
        }
    }
    Ok(())
}
fn unary_on(c: &mut Ctx, tight: bool, a: DFI, op: u64, np: usize) -> R {
    let p = a.log2_denom();
    let (al, ah) = (lo(&a), hi(&a));
    let zero = !al.is_positive() && !ah.is_negative();
    let k = c.rng.below(3);
    let name = ["neg", "abs", "square", "recip", "sqrt", "convert", "floor", "ceil", "from_ratio_range", "from_ratio"][op as usize];
    c.seen(name);
    c.distinct((op, key(&a), np));
    let (res, t, prec): (DFI, (Q, Q), usize) = match op {
        0 => (if k == 0 { -a.clone() } else { -&a }, (-&ah, -&al), p),
        1 => {
            let res = match k {
                0 => a.abs(),
                1 => a.clone().into_abs(),
                _ => {
                    let mut t = a.clone();
                    t.abs_assign();
                    t
                }
            };
            let m = al.abs().max(ah.abs());
            (res, (if zero { Q::zero() } else { al.abs().min(ah.abs()) }, m), p)
        }
        2 => {
            let res = match k {
                0 => a.square(),
                1 => a.clone().into_square(),
                _ => {
                    let mut t = a.clone();
                    t.square_assign();
                    t
                }
            };
            let m = al.abs().max(ah.abs());
            let n = if zero { Q::zero() } else { al.abs().min(ah.abs()) };
            (res, (&n * &n, &m * &m), p)
        }
        3 => {
            let r = a.checked_recip();
            if zero {
                ensure!(c, r.is_none(), "division-by-zero", "recip of {} gave {:?}", sh(&a), r);
                c.seen("recip of an interval with zero refused");
                return Ok(());
            }
            let r = match r {
                None => {
                    ensure!(c, false, "no-result", "recip of {} was refused", sh(&a));
                    return Ok(());
                }
                Some(r) if k == 0 => r,
                Some(_) => a.recip(),
            };
            (r, (ah.recip(), al.recip()), p)
        }
        4 => {
            let a = a.abs();
            let (al, ah) = (lo(&a), hi(&a));
            let res = match k {
                0 => a.sqrt(),
                1 => a.clone().into_sqrt(),
                _ => {
                    let mut t = a.clone();
                    t.sqrt_assign();
                    t
                }
            };
            // exact comparison by squaring
            c.note(|| format!("sqrt {} = {}", sh(&a), sh(&res)));
            let (rl, rh) = (lo(&res), hi(&res));
            ensure!(c, rl <= rh && !rl.is_negative(), "inverted", "sqrt {} gave {}", sh(&a), sh(&res));
            if tight {
                ensure!(c, res.log2_denom() == p, "precision", "sqrt {} gave {}", sh(&a), sh(&res));
                let u = Q::new(BigInt::one(), BigInt::one() << p);
                let (rl1, rh1) = (&rl + &u, &rh - &u);
                ensure!(
                    c,
                    &rl * &rl <= al && &rl1 * &rl1 > al && &rh * &rh >= ah && (rh1.is_negative() || &rh1 * &rh1 < ah),
                    "not-tight",
                    "sqrt {} gave {}",
                    sh(&a),
                    sh(&res)
                );
            } else {
                ensure!(c, &rl * &rl <= al && &rh * &rh >= ah, "not-enclosed", "sqrt {} gave {}", sh(&a), sh(&res));
            }
            return Ok(());
        }
        5 => {
            let res = match k {
                0 => a.to_converted_log2_denom(np),
                1 => a.clone().into_converted_log2_denom(np),
                _ => {
                    let mut t = a.clone();
                    t.convert_log2_denom(np);
                    t
                }
            };
            (res, (al.clone(), ah.clone()), np)
        }
        6 => {
            let res = match k {
                0 => a.floor(np),
                1 => a.clone().into_floor(np),
                _ => {
                    let mut t = a.clone();
                    t.floor_assign(np);
                    t
                }
            };
            (res, (al.floor(), ah.floor()), np)
        }
        7 => {
            let res = match k {
                0 => a.ceil(np),
                1 => a.clone().into_ceil(np),
                _ => {
                    let mut t = a.clone();
                    t.ceil_assign(np);
                    t
                }
            };
            (res, (al.ceil(), ah.ceil()), np)
        }
        8 => {
            let x = c.rng.ratio(70, 40);
            let y = match c.rng.below(3) {
                0 => x.clone(),
                1 => &x + Q::new(z(1), z(1) << c.rng.us(0, 80)),
                _ => c.rng.ratio(40, 70),
            };
            let (x, y) = if x <= y { (x, y) } else { (y, x) };
            (DFI::from_ratio_range(x.clone(), y.clone(), np), (x, y), np)
        }
        _ => {
            let x = c.rng.ratio(90, 60);
            (DFI::from_ratio(x.clone(), np), (x.clone(), x), np)
        }
    };
    judge(c, tight, &res, &t.0, &t.1, prec, &|| format!("{} of {} (form {}, new precision {})", name, sh(&a), k, np))
}

fn qpow(v: &Q, n: usize) -> Q {
    Q::new_raw(num_traits::pow(v.numer().clone(), n), num_traits::pow(v.denom().clone(), n))
}
fn c06_pow(c: &mut Ctx, _i: u64) -> R {
    let long = c.rng.chance(1, 8);
    let p = if long { *c.rng.pick(&[0usize, 1, 3, 8, 16, 33]) } else { *c.rng.pick(&[0usize, 1, 2, 3, 8, 16, 32, 40, 63, 64, 65, 128, 200]) };
    let a = if long {
        // around one, so that the power neither vanishes nor explodes at once
        let one = BigInt::one() << p;
        let (u, v) = (c.rng.big(p / 2 + 2), c.rng.big(p / 2 + 2));
        let s = if c.rng.chance(1, 2) { one } else { -one };
        let (u, v) = (&s + u, s + v);
        if u <= v { DFI::new(u, v, p) } else { DFI::new(v, u, p) }
    } else {
        gen_p(&mut c.rng, p)
    };
    let n = match c.rng.below(4) {
        _ if long => c.rng.int(-127, 127),
        0 => c.rng.int(-3, 3),
        1 => c.rng.int(-12, 12),
        2 => c.rng.int(0, 7),
        _ => c.rng.int(-5, 33),
    };
    pow_on(c, a, n)
}
fn pow_on(c: &mut Ctx, a: DFI, mut n: i64) -> R {
    let p = a.log2_denom();
    let zero = a.contains_zero();
    if n < 0 && zero {
        n = -n;
    }
    let k = c.rng.below(9);
    let res = match k {
        0 => (&a).pow(n as i32),
        1 => a.clone().pow(n as i64),
        2 => a.clone().pow(BigInt::from(n)),
        3 if n >= 0 => (&a).pow(n as u32),
        4 if n >= 0 => (&a).pow(n as u8),
        5 if n >= 0 => (&a).pow(BigUint::from(n as u64)),
        6 => (&a).pow(n as i8),
        7 if n >= 0 => (&a).pow(n as usize),
        _ => a.clone().pow(n as i128),
    };
    let (al, ah) = (lo(&a), hi(&a));
    let e = n.unsigned_abs() as usize;
    let (mut tl, mut th) = if n == 0 {
        (Q::one(), Q::one())
    } else if e % 2 == 1 {
        (qpow(&al, e), qpow(&ah, e))
    } else {
        let m = al.abs().max(ah.abs());
        let s = if zero { Q::zero() } else { al.abs().min(ah.abs()) };
        (qpow(&s, e), qpow(&m, e))
    };
    if n < 0 {
        let t = (th.recip(), tl.recip());
        tl = t.0;
        th = t.1;
    }
    c.seen(if n < 0 {
        "negative exponent"
    } else if n % 2 != 0 {
        "odd exponent"
    } else {
        "even exponent"
    });
    c.distinct((n, key(&a)));
    judge(c, false, &res, &tl, &th, p, &|| format!("{} ^ {} (form {})", sh(&a), n, k))
}
/// the value of a random expression at points of the leaf intervals stays inside the result
fn c06_expression(c: &mut Ctx, _i: u64) -> R {
    // stack machine over (interval, a point inside it)
    let mut st: Vec<(DFI, Q)> = vec![];
    let mut steps = vec![];
    let n = c.rng.us(3, 9);
    for _ in 0..n {
        let leaf = {
            let p = *c.rng.pick(&[2usize, 5, 8, 16, 32]);
            let v = gen_p(&mut c.rng, p);
            let (l, h) = (lo(&v), hi(&v));
            let t = Q::new(z(c.rng.int(0, 8)), z(8));
            let x = &l + (&h - &l) * t;
            (v, x)
        };
        steps.push(sh(&leaf.0));
        st.push(leaf);
        if st.len() >= 2 && c.rng.chance(3, 4) {
            let (b, y) = st.pop().unwrap();
            let (a, x) = st.pop().unwrap();
            let op = c.rng.below(5);
            steps.push(format!("op{}", op));
            st.push(match op {
                0 => (a + b, x + y),
                1 => (a - b, x - y),
                2 => (a * b, x * y),
                3 if !b.contains_zero() => (a / b, x / y),
                3 => (a.interval_union(b), x),
                _ => {
                    let e = c.rng.int(0, 3);
                    let v = qpow(&x, e as usize);
                    (a.pow(e), v)
                }
            });
        }
        let (v, x) = st.last().unwrap();
        ensure!(
            c,
            lo(v) <= *x && *x <= hi(v),
            "not-enclosed",
            "the exact value {} of an expression is outside its interval {}; steps {:?}",
            x,
            sh(v),
            steps
        );
    }
    c.seen("expression");
    c.distinct(steps);
    Ok(())
}
pub fn c06_refuse(c: &mut Ctx, _i: u64) -> R {
    let a = gen(&mut c.rng);
    c.note(|| sh(&a));
    c.distinct(key(&a));
    let bad = |c: &mut Ctx, what: &str, r: Result<DFI, String>| -> R {
        c.seen("refused");
        ensure!(c, r.is_err(), "no-refusal", "{} of {} gave {}", what, sh(&a), sh(r.as_ref().unwrap()));
        Ok(())
    };
    if a.contains_zero() {
        bad(c, "recip", catch(|| a.recip()))?;
        bad(c, "1 /", catch(|| DFI::one(3) / &a))?;
        bad(c, "^-1", catch(|| (&a).pow(-1)))?;
        bad(c, "^-2", catch(|| (&a).pow(-2i64)))?;
    }
    bad(c, "/0", catch(|| &a / 0))?;
    if a.lower_bound_numer().is_negative() {
        bad(c, "sqrt", catch(|| a.sqrt()))?;
        bad(c, "agm", catch(|| a.arithmetic_geometric_mean(&DFI::one(4))))?;
        bad(c, "agm", catch(|| DFI::one(4).arithmetic_geometric_mean(&a)))?;
    }
    if !a.lower_bound_numer().is_positive() && a.log2_denom() < 40 {
        bad(c, "log", catch(|| a.log()))?;
    }
    if a.lower_bound_numer() < a.upper_bound_numer() {
        let (l, h, p) = a.clone().destructure();
        bad(c, "new with swapped bounds", catch(|| DFI::new(h.clone(), l.clone(), p)))?;
        bad(c, "from_ratio_range with swapped bounds", catch(|| DFI::from_ratio_range(hi(&a), lo(&a), p)))?;
        bad(c, "from_int_range with swapped bounds", catch(|| DFI::from_int_range(h.clone(), l.clone(), p)))?;
        let (x, y) = (&l - 1, &h + 1);
        bad(c, "set_upper_bound_numer below the lower bound", catch(|| {
            let mut t = a.clone();
            t.set_upper_bound_numer(x);
            t
        }))?;
        bad(c, "set_lower_bound_numer above the upper bound", catch(|| {
            let mut t = a.clone();
            t.set_lower_bound_numer(y);
            t
        }))?;
    }
    Ok(())
}
fn c07_accessors(c: &mut Ctx, _i: u64) -> R {
    let a = gen(&mut c.rng);
    let (l, h, p) = a.clone().destructure();
    c.note(|| sh(&a));
    c.distinct(key(&a));
    c.seen("accessors");
    let ql = Q::new(l.clone(), z(1) << p);
    let qh = Q::new(h.clone(), z(1) << p);
    ensure!(c, a.lower_bound() == ql && a.upper_bound() == qh, "accessor", "bounds of {}", sh(&a));
    ensure!(c, a.clone().into_lower_bound() == ql && a.clone().into_upper_bound() == qh, "accessor", "into bounds of {}", sh(&a));
    ensure!(c, a.to_ratio_range() == (ql.clone(), qh.clone()) && a.clone().into_ratio_range() == (ql.clone(), qh.clone()), "accessor", "ratio range of {}", sh(&a));
    ensure!(c, a.contains_zero() == (!ql.is_positive() && !qh.is_negative()), "accessor", "contains_zero of {}", sh(&a));
    ensure!(c, a.is_same(&a.clone()), "accessor", "is_same of {}", sh(&a));
    let other = DFI::new(l.clone() - 1, h.clone(), p);
    ensure!(c, !a.is_same(&other) && !other.is_same(&a), "accessor", "is_same of {} and {}", sh(&a), sh(&other));
    let other = DFI::new(l.clone(), h.clone() + 1, p);
    ensure!(c, !a.is_same(&other), "accessor", "is_same of {} and {}", sh(&a), sh(&other));
    let other = a.to_converted_log2_denom(p + 1);
    ensure!(c, !a.is_same(&other), "accessor", "is_same of {} and {}", sh(&a), sh(&other));
    let pt = |c: &mut Ctx, v: &DFI, x: Q, y: Q, what: &str| -> R {
        ensure!(c, lo(v) == x && hi(v) == y && v.log2_denom() == p, "constructor", "{} gave {} for [{}, {}] at 2^-{}", what, sh(v), x, y, p);
        Ok(())
    };
    let (zero, one) = (Q::zero(), Q::one());
    pt(c, &DFI::zero(p), zero.clone(), zero.clone(), "zero")?;
    pt(c, &DFI::one(p), one.clone(), one.clone(), "one")?;
    pt(c, &DFI::negative_one(p), -&one, -&one, "negative_one")?;
    pt(c, &DFI::from_int(l.clone(), p), qi(l.clone()), qi(l.clone()), "from_int")?;
    pt(c, &DFI::from_int_range(l.clone(), h.clone(), p), qi(l.clone()), qi(h.clone()), "from_int_range")?;
    pt(c, &DFI::from_dyadic_fraction(l.clone(), p), ql.clone(), ql.clone(), "from_dyadic_fraction")?;
    let mut t = a.clone();
    t.set_zero();
    pt(c, &t, zero.clone(), zero.clone(), "set_zero")?;
    t = a.clone();
    t.set_one();
    pt(c, &t, one.clone(), one.clone(), "set_one")?;
    t = a.clone();
    t.set_negative_one();
    pt(c, &t, -&one, -&one, "set_negative_one")?;
    t = a.clone();
    t.set_to_lower_bound();
    pt(c, &t, ql.clone(), ql.clone(), "set_to_lower_bound")?;
    t = a.clone();
    t.set_to_upper_bound();
    pt(c, &t, qh.clone(), qh.clone(), "set_to_upper_bound")?;
    t = a.clone();
    t.set_lower_bound_numer(&l - 3);
    t.set_upper_bound_numer(&h + 3);
    pt(c, &t, Q::new(&l - 3, z(1) << p), Q::new(&h + 3, z(1) << p), "set bounds")?;
    if !h.is_negative() {
        t = a.clone();
        t.set_lower_bound_to_zero();
        pt(c, &t, zero.clone(), qh.clone(), "set_lower_bound_to_zero")?;
    }
    if !l.is_positive() {
        t = a.clone();
        t.set_upper_bound_to_zero();
        pt(c, &t, ql.clone(), zero.clone(), "set_upper_bound_to_zero")?;
    }
    Ok(())
}
const MAX_ULPS: u64 = 4;
const MAX_AGM_ULPS: u64 = 16;
fn ulps(v: &DFI) -> BigInt {
    v.upper_bound_numer() - v.lower_bound_numer()
}
/// log, exp of single points and the constants stay narrow (a few units in the last place)
fn c07_elementary(c: &mut Ctx, _i: u64) -> R {
    let p = *c.rng.pick(&[0usize, 1, 3, 8, 20, 32, 64, 90]);
    let n = loop {
        let v = c.rng.big(p + 6);
        if !v.is_zero() {
            break v;
        }
    };
    let a = DFI::from_dyadic_fraction(n.abs(), p);
    let e = DFI::from_dyadic_fraction(n.clone(), p);
    c.note(|| format!("log of {}, exp of {}", sh(&a), sh(&e)));
    c.distinct((n.to_string(), p));
    c.seen("point");
    let l = a.log();
    ensure!(c, l.log2_denom() == p && ulps(&l) <= z(MAX_ULPS as i64), "not-tight", "log {} = {} is {} units wide", sh(&a), sh(&l), ulps(&l));
    if hi(&e) < q(40, 1) {
        let x = e.exp();
        ensure!(c, x.log2_denom() == p && ulps(&x) <= z(MAX_ULPS as i64), "not-tight", "exp {} = {} is {} units wide", sh(&e), sh(&x), ulps(&x));
    }
    let k = DFI::natural_log_of_2(p);
    ensure!(c, k.log2_denom() == p && ulps(&k) <= z(2), "not-tight", "ln 2 at 2^-{} = {}", p, sh(&k));
    let k = DFI::sqrt_2(p);
    ensure!(c, k.log2_denom() == p && ulps(&k) <= z(2), "not-tight", "sqrt 2 at 2^-{} = {}", p, sh(&k));
    Ok(())
}

// ---------------------------------------------------------------- C08
/// compare a rational with a real given by ever better enclosures; None if undecided at the cap
fn cmp_real(v: &Q, start: usize, f: &dyn Fn(usize) -> Fx) -> Option<Ordering> {
    let mut p = start + 32;
    while p < start + 5000 {
        if let Some(o) = f(p).cmp_q(v) {
            return Some(o.reverse());
        }
        p = p * 2;
    }
    None
}
fn encloses(c: &mut Ctx, res: &DFI, p: usize, flo: &dyn Fn(usize) -> Fx, fhi: &dyn Fn(usize) -> Fx, what: &dyn Fn() -> String) -> R {
    c.note(|| format!("{} = {}", what(), sh(res)));
    ensure!(c, res.log2_denom() == p, "precision", "{} gave {}", what(), sh(res));
    let l = cmp_real(&lo(res), p, flo);
    let h = cmp_real(&hi(res), p, fhi);
    if l.is_none() || h.is_none() {
        c.seen("undecided comparison");
    }
    ensure!(
        c,
        l != Some(Ordering::Greater) && h != Some(Ordering::Less),
        "not-enclosed",
        "{} gave {}; the exact range is about [{}, {}]",
        what(),
        sh(res),
        flo(64).lo_q(),
        fhi(64).hi_q()
    );
    Ok(())
}
/// the enclosure for a point argument: a few units in the last place
fn narrow(c: &mut Ctx, point: bool, res: &DFI, max: u64, what: &dyn Fn() -> String) -> R {
    if point {
        c.seen("point argument");
        ensure!(c, ulps(res) <= z(max as i64), "not-narrow", "{} gave {}, {} units wide", what(), sh(res), ulps(res));
    }
    Ok(())
}
fn elem_interval(c: &mut Ctx, wide: usize) -> DFI {
    let p = *c.rng.pick(&[0usize, 1, 2, 4, 8, 13, 20, 32, 33, 50, 64]);
    let p = if c.rng.chance(1, 15) { *c.rng.pick(&[65usize, 80, 100, 127, 128, 129, 160, 200, 256]) } else { p };
    let p = if c.rng.chance(1, 3) { c.rng.us(0, 150) } else { p };
    let mut a = c.rng.big(p + wide);
    if c.rng.chance(1, 5) {
        // few significant bits
        a = z(*c.rng.pick(&[-5, -3, -1, 1, 1, 3, 5, 7])) << c.rng.us(0, p + wide - wide.min(3));
    }
    let b = match c.rng.below(5) {
        0 | 1 => a.clone(),
        2 => &a + z(c.rng.int(1, 4)),
        3 => &a + c.rng.big(p + 1).abs(),
        _ => c.rng.big(p + wide),
    };
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    DFI::new(a, b, p)
}
fn exactly(v: Q) -> impl Fn(usize) -> Fx {
    move |p| {
        let f = Fx::from_q(&v, p);
        if v.is_integer() {
            return f;
        }
        f
    }
}
fn logf(v: Q) -> impl Fn(usize) -> Fx {
    move |p| if v.is_one() { exactly(Q::zero())(p) } else { log_q(&v, p) }
}
fn expf(v: Q) -> impl Fn(usize) -> Fx {
    move |p| if v.is_zero() { exactly(Q::one())(p) } else { exp_q(&v, p) }
}
fn c08_log(c: &mut Ctx, _i: u64) -> R {
    let wide = if c.rng.chance(1, 12) { 220 } else { 12 };
    let mut a = elem_interval(c, wide).into_abs();
    if a.lower_bound_numer().is_zero() {
        let h = a.upper_bound_numer() + 1;
        a = DFI::new(z(1), h, a.log2_denom());
    }
    if c.rng.chance(1, 8) {
        // next to the switch points 1, 3/2, 2, 3
        let p = a.log2_denom() + 2;
        let m = (z(1) << p) * *c.rng.pick(&[1, 2, 3, 4, 6]) / 2;
        let l: BigInt = &m + z(c.rng.int(-2, 2));
        let l = l.max(z(1));
        let h = &l + z(c.rng.int(0, 3));
        a = DFI::new(l, h, p);
    }
    let res = a.log();
    c.seen("log");
    narrow(c, lo(&a) == hi(&a), &res, MAX_ULPS, &|| format!("log {}", sh(&a)))?;
    c.distinct(("log", key(&a)));
    let p = a.log2_denom();
    encloses(c, &res, p, &logf(lo(&a)), &logf(hi(&a)), &|| format!("log {}", sh(&a)))
}
fn c08_exp(c: &mut Ctx, _i: u64) -> R {
    let big = c.rng.chance(1, 20);
    let mut a = elem_interval(c, if big { 10 } else { 6 });
    while hi(&a) > q(if big { 700 } else { 90 }, 1) {
        let (l, h, p) = a.destructure();
        a = DFI::new(l - (z(60) << p), h - (z(60) << p), p);
    }
    if c.rng.chance(1, 25) {
        // far below any exponent a machine word can hold
        let (l, h, p) = a.destructure();
        let k = z(1) << (p + c.rng.us(10, 140));
        a = if c.rng.chance(1, 2) { DFI::new(l - &k, h - &k, p) } else { DFI::new(l - &k, h, p) };
        c.seen("enormous negative argument");
    }
    let res = if c.rng.chance(1, 2) { a.exp() } else { a.clone().into_exp() };
    c.seen("exp");
    if hi(&a).is_negative() {
        c.seen("negative argument");
    }
    narrow(c, lo(&a) == hi(&a), &res, MAX_ULPS, &|| format!("exp {}", sh(&a)))?;
    c.distinct(("exp", key(&a)));
    let p = a.log2_denom();
    let l = lo(&a);
    let low = move |w: usize| -> Fx {
        if l < q(-4000, 1) {
            Fx { lo: z(0), hi: z(1), p: w }
        } else {
            expf(l.clone())(w)
        }
    };
    let h = hi(&a);
    let high = move |w: usize| -> Fx {
        if h < q(-4000, 1) {
            Fx { lo: z(0), hi: z(1), p: w }
        } else {
            expf(h.clone())(w)
        }
    };
    encloses(c, &res, p, &low, &high, &|| format!("exp {}", sh(&a)))
}
/// at precision i/4: exp of every +-2^-k and of some m*2^-k, log of some 1 +- m*2^-k and 2^k
fn c08_dyadic_points(c: &mut Ctx, i: u64) -> R {
    let p = i as usize / 4;
    for k in (i as usize % 4..=p).step_by(4) {
        let m = z(*c.rng.pick(&[1, 1, 3, 5]));
        for n in [z(1), z(-1), m] {
            let a = DFI::from_dyadic_fraction(n << (p - k), p);
            let res = a.exp();
            c.seen("exp of a dyadic point");
            narrow(c, true, &res, MAX_ULPS, &|| format!("exp {}", sh(&a)))?;
            encloses(c, &res, p, &expf(lo(&a)), &expf(hi(&a)), &|| format!("exp {}", sh(&a)))?;
            c.distinct(("dyadic", p, k, key(&a)));
            if c.rng.chance(7, 8) {
                continue;
            }
            let one = z(1) << p;
            let b = DFI::from_dyadic_fraction(&one + a.lower_bound_numer(), p);
            let b = if b.lower_bound_numer().is_positive() { b } else { DFI::from_dyadic_fraction(one << k, p) };
            let res = b.log();
            c.seen("log of a dyadic point");
            narrow(c, true, &res, MAX_ULPS, &|| format!("log {}", sh(&b)))?;
            encloses(c, &res, p, &logf(lo(&b)), &logf(hi(&b)), &|| format!("log {}", sh(&b)))?;
        }
    }
    Ok(())
}
/// arguments whose exact result is as close to a grid point as the grid allows
fn c08_near_grid(c: &mut Ctx, _i: u64) -> R {
    let p = *c.rng.pick(&[4usize, 8, 16, 24, 32, 48, 64]);
    let m: BigInt = c.rng.big(p + 6).abs() + 1;
    let y = Q::new(m.clone(), z(1) << p);
    c.distinct((p, m.to_string()));
    if c.rng.chance(1, 2) {
        let l = log_q(&y, p + 40);
        let x = shr_floor(&l.lo, 40) + z(c.rng.int(0, 1));
        let a = DFI::from_dyadic_fraction(x, p);
        let res = a.exp();
        c.seen("exp near a grid point");
        narrow(c, true, &res, MAX_ULPS, &|| format!("exp {}", sh(&a)))?;
        encloses(c, &res, p, &expf(lo(&a)), &expf(hi(&a)), &|| format!("exp {}", sh(&a)))
    } else {
        let t = Q::new(c.rng.big(p + 2), z(1) << p);
        let e = exp_q(&t, p + 40);
        let x = (shr_floor(&e.lo, 40) + z(c.rng.int(0, 1))).max(z(1));
        let a = DFI::from_dyadic_fraction(x, p);
        let res = a.log();
        c.seen("log near a grid point");
        narrow(c, true, &res, MAX_ULPS, &|| format!("log {}", sh(&a)))?;
        encloses(c, &res, p, &logf(lo(&a)), &logf(hi(&a)), &|| format!("log {}", sh(&a)))
    }
}
fn agm_ref(x: &Q, y: &Q, p: usize) -> Fx {
    if x.is_zero() || y.is_zero() {
        return Fx::from_q(&Q::zero(), p);
    }
    if x == y {
        return Fx::from_q(x, p);
    }
    let w = p + 30 + x.numer().bits() as usize + x.denom().bits() as usize + y.numer().bits() as usize + y.denom().bits() as usize;
    let (mut a, mut b) = (Fx::from_q(x, w), Fx::from_q(y, w));
    for _ in 0..400 {
        let s = a.add(&b);
        let na = Fx { lo: s.lo.div_floor(&z(2)), hi: -((-s.hi).div_floor(&z(2))), p: w };
        // sqrt(a*b) at w bits
        let (l, h) = (&a.lo * &b.lo, &a.hi * &b.hi);
        let (rl, rh) = (l.sqrt(), h.sqrt());
        let rh = if &rh * &rh == h { rh } else { rh + 1 };
        b = Fx { lo: rl, hi: rh, p: w };
        a = na;
        let lo = a.lo.clone().min(b.lo.clone());
        let hi = a.hi.clone().max(b.hi.clone());
        if &hi - &lo <= z(64) {
            break;
        }
    }
    let lo = a.lo.min(b.lo);
    let hi = a.hi.max(b.hi);
    Fx { lo: shr_floor(&lo, w - p), hi: shr_ceil(&hi, w - p), p }
}
fn c08_agm(c: &mut Ctx, _i: u64) -> R {
    let a = elem_interval(c, 5).into_abs();
    let b = match c.rng.below(6) {
        0 => a.clone(),
        1 => DFI::zero(a.log2_denom()),
        4 => {
            // of very different size
            let (l, h, p) = a.clone().destructure();
            let k = c.rng.us(0, 400);
            let o = z(c.rng.int(0, 5));
            DFI::new((l << k) + &o, (h << k) + o, p)
        }
        2 | 3 => {
            // of comparable size
            let (l, h, p) = a.clone().destructure();
            let (n, k) = (c.rng.int(1, 12), z(4));
            let l2 = (&l * z(n)).div_floor(&k);
            let h2 = if h == l { l2.clone() } else { (h * z(n)).div_floor(&k) + 1 };
            DFI::new(l2, h2, p)
        }
        _ => elem_interval(c, 5).into_abs(),
    };
    let res = if c.rng.chance(1, 2) { a.arithmetic_geometric_mean(&b) } else { a.clone().into_arithmetic_geometric_mean(b.clone()) };
    c.seen("agm");
    // (operands below one lose precision: others are held to this)
    let near = lo(&a) >= q(1, 1) && lo(&b) >= q(1, 1);
    // rounding a step is amplified by at most the square root of the ratio of the operands
    let (x, y) = (lo(&a).min(lo(&b)), lo(&a).max(lo(&b)));
    let amplified = if near { ((y / x).to_integer().sqrt() + 1) * MAX_AGM_ULPS } else { z(0) };
    let point = near && lo(&a) == hi(&a) && lo(&b) == hi(&b);
    ensure!(c, !point || ulps(&res) <= amplified, "not-narrow", "agm({}, {}) is {} units wide", sh(&a), sh(&b), ulps(&res));
    let near = near && lo(&a) <= lo(&b) * q(4, 1) && lo(&b) <= lo(&a) * q(4, 1);
    narrow(c, near && lo(&a) == hi(&a) && lo(&b) == hi(&b), &res, MAX_AGM_ULPS, &|| format!("agm({}, {})", sh(&a), sh(&b)))?;
    c.distinct(("agm", key(&a), key(&b)));
    let p = a.log2_denom().max(b.log2_denom());
    let (al, bl, ah, bh) = (lo(&a), lo(&b), hi(&a), hi(&b));
    encloses(c, &res, p, &|w| agm_ref(&al, &bl, w), &|w| agm_ref(&ah, &bh, w), &|| format!("agm({}, {})", sh(&a), sh(&b)))
}
fn c08_high_precision(c: &mut Ctx, _i: u64) -> R {
    let p = match c.rng.below(4) {
        0 => *c.rng.pick(&[257usize, 320, 383, 384, 385, 511, 512, 513, 640, 768, 1000, 1023, 1024, 1025, 1280]),
        1 => c.rng.us(500, 1300),
        _ => c.rng.us(256, 700),
    };
    let full = if c.rng.chance(1, 2) { p + 4 } else { p };
    let v = match c.rng.below(4) {
        0 => z(c.rng.int(1, 400)) << (p - c.rng.us(0, 8)),
        1 => (z(1) << (p - c.rng.us(0, 300).min(p))) + c.rng.big(40),
        _ => c.rng.big(full),
    };
    let w = if c.rng.chance(1, 2) { z(0) } else { z(c.rng.int(1, 3)) };
    c.seen("high precision");
    match c.rng.below(3) {
        0 => {
            let l = v.abs().max(z(1));
            let a = DFI::new(l.clone(), l + w, p);
            let res = a.log();
            narrow(c, lo(&a) == hi(&a), &res, MAX_ULPS, &|| format!("log {}", sh(&a)))?;
            c.distinct(("log", key(&a)));
            encloses(c, &res, p, &logf(lo(&a)), &logf(hi(&a)), &|| format!("log {}", sh(&a)))
        }
        1 => {
            let v = if v > (z(60) << p) { v % (z(60) << p) } else { v };
            let v = if c.rng.chance(1, 3) { -v } else { v };
            let a = DFI::new(v.clone(), v + w, p);
            let res = a.exp();
            narrow(c, lo(&a) == hi(&a), &res, MAX_ULPS, &|| format!("exp {}", sh(&a)))?;
            c.distinct(("exp", key(&a)));
            encloses(c, &res, p, &expf(lo(&a)), &expf(hi(&a)), &|| format!("exp {}", sh(&a)))
        }
        _ => {
            let l: BigInt = v.abs() + (z(1) << p);
            let m: BigInt = &l * z(c.rng.int(4, 16)) / 4;
            let (a, b) = (DFI::new(l.clone(), l + &w, p), DFI::new(m.clone(), m + w, p));
            let (a, b) = if c.rng.chance(1, 2) { (a, b) } else { (b, a) };
            let res = a.arithmetic_geometric_mean(&b);
            narrow(c, lo(&a) == hi(&a), &res, MAX_AGM_ULPS, &|| format!("agm({}, {})", sh(&a), sh(&b)))?;
            c.distinct(("agm", key(&a), key(&b)));
            let (al, bl, ah, bh) = (lo(&a), lo(&b), hi(&a), hi(&b));
            encloses(c, &res, p, &|w| agm_ref(&al, &bl, w), &|w| agm_ref(&ah, &bh, w), &|| format!("agm({}, {})", sh(&a), sh(&b)))
        }
    }
}
fn c08_constants(c: &mut Ctx, i: u64) -> R {
    let p = if i < 300 { i as usize } else { c.rng.us(0, 1200) };
    c.seen("ln 2");
    c.seen("sqrt 2");
    c.distinct(p);
    let l = DFI::natural_log_of_2(p);
    encloses(c, &l, p, &ln2, &ln2, &|| format!("ln 2 at {}", p))?;
    narrow(c, true, &l, MAX_ULPS, &|| format!("ln 2 at {}", p))?;
    let s = DFI::sqrt_2(p);
    narrow(c, true, &s, MAX_ULPS, &|| format!("sqrt 2 at {}", p))?;
    let r = |w: usize| root_q(&q(2, 1), 2, w);
    encloses(c, &s, p, &r, &r, &|| format!("sqrt 2 at {}", p))
}

// ---------------------------------------------------------------- C09: histories of the shared constant cache
struct Plan {
    threads: usize,
    ops: usize,
    seed: u64,
    mode: u64,
}
/// entry point of the cold-started process: runs a history and prints its event log
pub fn cache_worker(args: &[String]) -> i32 {
    let threads: usize = args[0].parse().unwrap();
    let ops: usize = args[1].parse().unwrap();
    let seed: u64 = args[2].parse().unwrap();
    let mode: u64 = args[3].parse().unwrap();
    let barrier = std::sync::Barrier::new(threads);
    let clock = std::sync::atomic::AtomicU64::new(0);
    let out: Vec<Vec<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (barrier, clock) = (&barrier, &clock);
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ crate::rng::mix(t as u64 + 1));
                    let mut log = vec![];
                    let tick = || clock.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    barrier.wait();
                    for k in 0..ops {
                        let p = match mode {
                            0 => r.us(0, 700),
                            1 => 40 * k + r.us(0, 5),
                            2 => (40 * (ops - k)) + r.us(0, 5),
                            3 => *r.pick(&[0usize, 31, 32, 33, 40, 41, 50, 51, 63, 64, 65, 79, 80, 81, 100, 101, 127, 128, 129]),
                            4 => r.us(30, 90) << r.us(0, 3),
                            // slow requests for high precision among quick ones
                            _ if r.chance(1, 4) => r.us(1200, 3000),
                            _ => r.us(0, 150),
                        };
                        for _ in 0..r.below(3) {
                            std::thread::yield_now();
                        }
                        let t0 = tick();
                        let kind = match r.below(8) {
                            0..=2 => 0,
                            3 | 4 => 1,
                            // logarithms and exponentials go through the same shared constants
                            k if p <= 200 => k - 3,
                            _ => 0,
                        };
                        let v = match kind {
                            0 => DFI::natural_log_of_2(p),
                            1 => DFI::sqrt_2(p),
                            2 => DFI::from_int(4.into(), p).log(),
                            3 => DFI::from_int(3.into(), p).log(),
                            _ => DFI::from_int(2.into(), p).exp(),
                        };
                        let t1 = tick();
                        log.push(format!("E {} {} {} {} {} {} {} {}", t, t0, t1, kind, p, v.log2_denom(), v.lower_bound_numer(), v.upper_bound_numer()));
                    }
                    log
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| vec!["PANIC".to_string()]))
            .collect()
    });
    let mut o = String::new();
    for l in out.iter().flatten() {
        o.push_str(l);
        o.push('\n');
    }
    o.push_str("END\n");
    use std::io::Write;
    let _ = std::io::stdout().write_all(o.as_bytes());
    0
}
fn proc_stat(pid: u32) -> Option<(char, u64)> {
    // (all threads asleep?, cpu ticks)
    let mut ticks = 0;
    let mut asleep = true;
    for e in std::fs::read_dir(format!("/proc/{}/task", pid)).ok()? {
        let s = std::fs::read_to_string(e.ok()?.path().join("stat")).ok()?;
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split_whitespace().collect();
        asleep &= f.first() == Some(&"S");
        ticks += f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    }
    Some((if asleep { 'S' } else { 'R' }, ticks))
}
fn run_history(c: &mut Ctx, plan: &Plan) -> R {
    let exe = std::env::current_exe().expect("current_exe");
    let mut ch = std::process::Command::new(exe)
        .args(["cache-worker", &plan.threads.to_string(), &plan.ops.to_string(), &plan.seed.to_string(), &plan.mode.to_string()])
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        use std::io::Read;
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let start = std::time::Instant::now();
    let mut stuck_since: Option<(std::time::Instant, u64)> = None;
    let mut deadlock = false;
    loop {
        match ch.try_wait() {
            Ok(Some(_)) => break,
            _ => {
                std::thread::sleep(std::time::Duration::from_millis(if start.elapsed().as_millis() < 200 { 1 } else { 25 }));
                if let Some((st, ticks)) = proc_stat(ch.id()) {
                    // every thread asleep and no CPU time used: nobody is left to wake anybody up
                    match (st, stuck_since) {
                        ('S', Some((t, k))) if k == ticks => {
                            if t.elapsed().as_secs() >= 30 {
                                deadlock = true;
                                let _ = ch.kill();
                                let _ = ch.wait();
                                break;
                            }
                        }
                        ('S', _) => stuck_since = Some((std::time::Instant::now(), ticks)),
                        _ => stuck_since = None,
                    }
                }
            }
        }
    }
    let text = rd.join().unwrap_or_default();
    c.seen("history");
    ensure!(c, !deadlock, "deadlock", "all {} threads of history seed={} mode={} sleep and use no CPU time for 30 s", plan.threads, plan.seed, plan.mode);
    ensure!(c, !text.lines().any(|l| l == "PANIC"), "panic", "a thread panicked in history seed={} mode={} threads={}", plan.seed, plan.mode, plan.threads);
    ensure!(c, text.ends_with("END\n"), "crash", "history seed={} mode={} threads={} died", plan.seed, plan.mode, plan.threads);
    // offline check of the event log
    let mut tight: Vec<(Q, Q)> = vec![(q(-1000, 1), q(1000, 1)); 5];
    let mut spans: Vec<(u64, u64, u64)> = vec![];
    let mut n = 0u64;
    for l in text.lines().filter(|l| l.starts_with("E ")) {
        let f: Vec<&str> = l.split(' ').collect();
        let (t, t0, t1): (u64, u64, u64) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
        let kind: usize = f[4].parse().unwrap();
        let p: usize = f[5].parse().unwrap();
        let pd: usize = f[6].parse().unwrap();
        let (lo, hi): (BigInt, BigInt) = (f[7].parse().unwrap(), f[8].parse().unwrap());
        n += 1;
        c.note(|| l.to_string());
        let name = ["ln 2", "sqrt 2", "log 4", "log 3", "exp 2"][kind];
        c.seen(name);
        c.distinct((plan.seed, kind, p));
        ensure!(c, pd == p, "precision", "{} requested at 2^-{} was answered at 2^-{} (history seed={} mode={}): {}", name, p, pd, plan.seed, plan.mode, l);
        let (ql, qh) = (Q::new(lo.clone(), z(1) << p), Q::new(hi.clone(), z(1) << p));
        let fx: Box<dyn Fn(usize) -> Fx> = match kind {
            0 => Box::new(ln2),
            1 => Box::new(|w| root_q(&q(2, 1), 2, w)),
            3 => Box::new(logf(q(3, 1))),
            4 => Box::new(expf(q(2, 1))),
            _ => Box::new(|w| {
                let l = ln2(w + 8);
                Fx { lo: shr_floor(&(l.lo * 2), 8), hi: shr_ceil(&(l.hi * 2), 8), p: w }
            }),
        };
        ensure!(
            c,
            cmp_real(&ql, p, &*fx) != Some(Ordering::Greater) && cmp_real(&qh, p, &*fx) != Some(Ordering::Less),
            "not-enclosed",
            "{} at 2^-{} was answered by [{}, {}] in history seed={} mode={}: {}",
            name, p, lo, hi, plan.seed, plan.mode, l
        );
        let w = if kind >= 2 { MAX_ULPS as i64 } else { 2 };
        ensure!(c, &hi - &lo <= z(w) && hi >= lo, "not-tight", "{} at 2^-{} was answered by an interval {} units wide in history seed={} mode={}", name, p, &hi - &lo, plan.seed, plan.mode);
        // all answers for one constant have a common point
        let e = &mut tight[kind];
        if ql > e.0 {
            e.0 = ql;
        }
        if qh < e.1 {
            e.1 = qh;
        }
        let e = tight[kind].clone();
        ensure!(c, e.0 <= e.1, "inconsistent", "two answers for {} are disjoint in history seed={} mode={}", name, plan.seed, plan.mode);
        spans.push((t0, t1, t));
    }
    ensure!(c, n == (plan.threads * plan.ops) as u64, "lost-answer", "{} of {} requests were answered (history seed={})", n, plan.threads * plan.ops, plan.seed);
    let overlaps = spans
        .iter()
        .map(|a| spans.iter().filter(|b| b.2 > a.2 && b.0 < a.1 && a.0 < b.1).count() as u64)
        .sum::<u64>();
    c.seen_n("overlapping request pairs", overlaps);
    // which interleaving was seen: order of call/return events by thread
    let mut ev: Vec<(u64, u64)> = spans.iter().flat_map(|s| [(s.0, s.2 * 2), (s.1, s.2 * 2 + 1)]).collect();
    ev.sort();
    if plan.threads > 1 {
        c.distinct(("interleaving", ev.iter().map(|e| e.1 as u8).collect::<Vec<_>>()));
    }
    Ok(())
}
fn c09_threads(c: &mut Ctx, _i: u64) -> R {
    let plan = Plan { threads: c.rng.us(2, 8), ops: c.rng.us(3, 12), seed: c.rng.u64() >> 1, mode: c.rng.below(6) };
    c.note(|| format!("{} threads, {} requests each, seed {}, mode {}", plan.threads, plan.ops, plan.seed, plan.mode));
    run_history(c, &plan)
}
/// the same requests answered in different orders by one thread
fn c09_orders(c: &mut Ctx, i: u64) -> R {
    let plan = Plan { threads: 1, ops: c.rng.us(8, 24), seed: c.rng.u64() >> 1, mode: i % 6 };
    run_history(c, &plan)
}

//! C24: every call form of an operation on real algebraic numbers gives the same number and leaves
//! borrowed operands alone; C25: printed text denotes the value printed.
use crate::engine::*;
use crate::ensure;
use crate::field::*;
use crate::p_interval;
use crate::poly::*;
use crate::ran::*;
use crate::ring::*;
use crate::ring::QP;
use crate::rings;
use crate::rng::Rng;
use algebraics::{
    algebraic_numbers::{IntoRationalExponent, RealAlgebraicNumberData as Data},
    interval_arithmetic::DyadicFractionInterval as DFI,
    mod_int::ModularInteger,
    polynomial::{get_variable_name, Polynomial, PolynomialFactor},
    traits::{ExactDiv, ExactDivAssign},
    RealAlgebraicNumber as RAN,
};
use num_bigint::{BigInt, BigUint, ToBigInt};
use num_rational::{BigRational as Q, Ratio};
use num_traits::{One, Pow, Signed, Zero};
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c24")]
    v.push(Prop::new(
            "C24",
            "distinct (operation, operands) run through every call form, with at least one irrational operand or a non-zero rational",
            vec![
                g("binary-forms", 500, 25000, c24_binary),
                g("binary-forms-rational", 3000, 80000, c24_binary_rational),
                g("remainder-forms", 150, 6000, c24_rem),
                g("unary-forms", 900, 40000, c24_unary),
                g("exponent-types", 500, 20000, c24_exponents),
                g("histories", 60, 3000, c24_history),
                g("sessions", 80, 3000, |c, _| crate::p_numbers::session(c, 0)),
                g("shared-by-threads", 30, 1200, c24_threads),
                g("representation", 3000, 80000, c24_data),
            ],
        ));
    #[cfg(feature = "c25")]
    v.push(Prop::new(
            "C25",
            "distinct printed values read back by an independent reader",
            vec![
                g("polynomial-int", 15000, 300000, |c, _| rings!(text_poly, c, [ZI8, ZI16, ZI32, ZI64, ZI128, ZIsize, ZBig, ZBig])),
                g("polynomial-ratio", 15000, 300000, |c, _| rings!(text_poly, c, [QI32, QI64, QI128, QBig, QBig])),
                g("polynomial-modular", 15000, 300000, |c, _| rings!(text_mod, c, [F2, F3, F5, F7, F13, FPi64, FPi32, FPbig, ModN])),
                g("polynomial-nested", 6000, 120000, text_nested),
                g("factors", 5000, 100000, text_factor),
                g("variable-names", 1, 1, variable_names),
                g("intervals", 30000, 500000, text_interval),
                g("numbers", 4000, 100000, text_number),
            ],
        ));
    v
}

fn rational_field() -> Field {
    Field::new(&zp(&[0, 1]), 0, &zp(&[0, 1]), 0).unwrap()
}
fn pick_field(c: &mut Ctx) -> Field {
    let d = *c.rng.pick(&[1usize, 2, 2, 2, 2, 3]);
    if d == 1 {
        rational_field()
    } else {
        rand_field(&mut c.rng, d)
    }
}
fn el(c: &mut Ctx, fld: &Field) -> El {
    let (n, d) = *c.rng.pick(&[(2i64, 1i64), (3, 2), (5, 3), (9, 4)]);
    fld.rand_el(&mut c.rng, n, d)
}
/// the operand is still exactly what it was
fn intact(c: &mut Ctx, what: &str, v: &RAN, was: &Data) -> R {
    ensure!(c, v.minimal_polynomial() == &was.minimal_polynomial && v.interval().is_same(&was.interval), "operand-changed", "{} changed a borrowed operand from {:?} to {}", what, was, show(v));
    Ok(())
}
macro_rules! all_forms {
    ($a:expr, $b:expr, $o:tt, $oa:tt) => {
        vec![
            ("v o v", $a.clone() $o $b.clone()),
            ("v o r", $a.clone() $o $b),
            ("r o v", $a $o $b.clone()),
            ("r o r", $a $o $b),
            ("v o= v", { let mut t = $a.clone(); t $oa $b.clone(); t }),
            ("v o= r", { let mut t = $a.clone(); t $oa $b; t }),
        ]
    };
}
fn forms(op: usize, a: &RAN, b: &RAN) -> Vec<(&'static str, RAN)> {
    match op {
        0 => all_forms!(a, b, +, +=),
        1 => all_forms!(a, b, -, -=),
        2 => all_forms!(a, b, *, *=),
        _ => {
            let mut v = all_forms!(a, b, /, /=);
            v.push(("exact v v", a.clone().exact_div(b.clone())));
            v.push(("exact v r", a.clone().exact_div(b)));
            v.push(("exact r v", a.exact_div(b.clone())));
            v.push(("exact r r", a.exact_div(b)));
            v.push(("exact=", { let mut t = a.clone(); t.exact_div_assign(b); t }));
            v.push(("exact= v", { let mut t = a.clone(); t.exact_div_assign(b.clone()); t }));
            v.extend(a.checked_exact_div(b).map(|v| ("checked r r", v)));
            v.extend(a.checked_exact_div(b.clone()).map(|v| ("checked r v", v)));
            v.extend(a.clone().checked_exact_div(b).map(|v| ("checked v r", v)));
            v.extend(a.clone().checked_exact_div(b.clone()).map(|v| ("checked v v", v)));
            let mut t = a.clone();
            if t.checked_exact_div_assign(b).is_ok() { v.push(("checked=", t)); }
            let mut t = a.clone();
            if t.checked_exact_div_assign(b.clone()).is_ok() { v.push(("checked= v", t)); }
            v
        }
    }
}
const NAMES: [&str; 4] = ["add", "sub", "mul", "div"];
fn model(f: &Field, op: usize, a: &El, b: &El) -> Option<El> {
    Some(match op {
        0 => f.add(a, b),
        1 => f.sub(a, b),
        2 => f.mul(a, b),
        _ => f.mul(a, &f.inv(b)?),
    })
}
fn binary(c: &mut Ctx, fld: &Field, ea: &El, eb: &El, a: &RAN, b: &RAN, op: usize) -> R {
    let what = format!("{} {} {}", show(a), NAMES[op], show(b));
    c.note(|| what.clone());
    c.distinct((op, show(a), show(b)));
    let (a0, b0) = (a.data().clone(), b.data().clone());
    match model(fld, op, ea, eb) {
        Some(w) => {
            let v = forms(op, a, b);
            ensure!(c, v.len() == if op == 3 { 18 } else { 6 }, "refused", "{}: a checked form was refused", what);
            c.seen(NAMES[op]);
            for (n, v) in &v {
                check_value(c, v, fld, &w, &format!("{} as {}", what, n))?;
            }
        }
        None => {
            c.seen("division by zero");
            ensure!(c, a.checked_exact_div(b).is_none() && a.checked_exact_div(b.clone()).is_none() && a.clone().checked_exact_div(b).is_none() && a.clone().checked_exact_div(b.clone()).is_none(), "division-by-zero", "{} answered", what);
            let mut t = a.clone();
            ensure!(c, t.checked_exact_div_assign(b).is_err() && t.checked_exact_div_assign(b.clone()).is_err(), "division-by-zero", "{} answered", what);
            intact(c, &what, &t, &a0)?;
            let und = [
                catch(|| drop(a / b)), catch(|| drop(a.clone() / b.clone())), catch(|| drop(a / b.clone())), catch(|| drop(a.clone() / b)),
                catch(|| { let mut t = a.clone(); t /= b; }), catch(|| drop(a.exact_div(b))), catch(|| drop(b.recip())), catch(|| drop(a % b)),
            ];
            ensure!(c, und.iter().all(|r| r.is_err()), "division-by-zero", "{}: an unchecked form answered", what);
        }
    }
    intact(c, &what, a, &a0)?;
    intact(c, &what, b, &b0)
}
fn c24_binary(c: &mut Ctx, _: u64) -> R {
    let fld = pick_field(c);
    let (ea, mut eb) = (el(c, &fld), el(c, &fld));
    match c.rng.below(10) {
        0 => eb = ea.clone(),
        1 => eb = fld.neg(&ea),
        2 => eb = fld.zero(),
        3 => eb = fld.rat(&c.rng.ratio_small(5, 3)),
        _ => {}
    }
    let (a, b) = (make(&mut c.rng, &fld, &ea), make(&mut c.rng, &fld, &eb));
    let op = c.rng.us(0, 3);
    binary(c, &fld, &ea, &eb, &a, &b, op)
}
fn c24_binary_rational(c: &mut Ctx, _: u64) -> R {
    let fld = rational_field();
    let bits = *c.rng.pick(&[2usize, 8, 40, 130]);
    let (ea, mut eb) = (fld.rat(&c.rng.ratio(bits, bits)), fld.rat(&c.rng.ratio(bits, bits)));
    match c.rng.below(8) {
        0 => eb = ea.clone(),
        1 => eb = fld.neg(&ea),
        2 => eb = fld.zero(),
        _ => {}
    }
    let (a, b) = (make(&mut c.rng, &fld, &ea), make(&mut c.rng, &fld, &eb));
    let op = c.rng.us(0, 3);
    binary(c, &fld, &ea, &eb, &a, &b, op)
}
fn c24_rem(c: &mut Ctx, _: u64) -> R {
    let fld = pick_field(c);
    if fld.dim() > 2 {
        return Ok(());
    }
    let (ea, eb) = (fld.rand_el(&mut c.rng, 9, 3), fld.rand_el(&mut c.rng, 4, 3));
    let Some(ib) = fld.inv(&eb) else { return Ok(()) };
    let (a, b) = (make(&mut c.rng, &fld, &ea), make(&mut c.rng, &fld, &eb));
    let quo = fld.mul(&ea, &ib);
    let tr = if fld.sign(&quo) == Ordering::Less { -fld.floor(&fld.neg(&quo)) } else { fld.floor(&quo) };
    let w = fld.sub(&ea, &fld.mul(&fld.rat(&Q::from_integer(tr)), &eb));
    let what = format!("{} rem {}", show(&a), show(&b));
    c.note(|| what.clone());
    c.distinct(what.clone());
    let (a0, b0) = (a.data().clone(), b.data().clone());
    let (ra, rb) = (&a, &b);
    for (n, v) in all_forms!(ra, rb, %, %=) {
        check_value(c, &v, &fld, &w, &format!("{} as {}", what, n))?;
    }
    c.seen("remainder in every form");
    intact(c, &what, &a, &a0)?;
    intact(c, &what, &b, &b0)
}
fn c24_unary(c: &mut Ctx, _: u64) -> R {
    let fld = pick_field(c);
    let mut e = el(c, &fld);
    if c.rng.chance(1, 4) {
        // integers and near-integers, powers of two
        let k = c.rng.int(-40, 40);
        e = fld.rat(&Q::new(BigInt::from(k), BigInt::one() << c.rng.us(0, 4)));
    }
    let a = make(&mut c.rng, &fld, &e);
    let a0 = a.data().clone();
    c.note(|| show(&a));
    c.distinct(show(&a));
    let int = |v: BigInt| fld.rat(&Q::from_integer(v));
    let fl = fld.floor(&e);
    let ce = -fld.floor(&fld.neg(&e));
    let sign = fld.sign(&e);
    let tr = if sign == Ordering::Less { ce.clone() } else { fl.clone() };
    ensure!(c, a.to_integer_floor() == fl && a.clone().into_integer_floor() == fl, "forms", "floor forms of {}", show(&a));
    ensure!(c, a.to_integer_ceil() == ce && a.clone().into_integer_ceil() == ce, "forms", "ceil forms of {}", show(&a));
    ensure!(c, a.to_integer_trunc() == tr && a.clone().into_integer_trunc() == tr, "forms", "trunc forms of {}", show(&a));
    for (n, v, w) in [
        ("floor", a.floor(), int(fl.clone())),
        ("into_floor", a.clone().into_floor(), int(fl.clone())),
        ("ceil", a.ceil(), int(ce.clone())),
        ("into_ceil", a.clone().into_ceil(), int(ce)),
        ("trunc", a.trunc(), int(tr.clone())),
        ("into_trunc", a.clone().into_trunc(), int(tr)),
        ("fract", a.fract(), fld.sub(&e, &int(fl.clone()))),
        ("into_fract", a.clone().into_fract(), fld.sub(&e, &int(fl))),
        ("neg", -&a, fld.neg(&e)),
        ("neg by value", -a.clone(), fld.neg(&e)),
        ("abs", a.abs(), if sign == Ordering::Less { fld.neg(&e) } else { e.clone() }),
        ("signum", a.signum(), int(BigInt::from(sign as i32))),
        ("clone", a.clone(), e.clone()),
    ] {
        check_value(c, &v, &fld, &w, &format!("{} of {}", n, show(&a)))?;
    }
    ensure!(c, a.cmp_with_zero() == sign && a.is_positive() == (sign == Ordering::Greater) && a.is_negative() == (sign == Ordering::Less) && a.is_zero() == (sign == Ordering::Equal), "forms", "sign forms of {}", show(&a));
    let (l1, l2) = (a.checked_floor_log2(), a.clone().into_checked_floor_log2());
    let (h1, h2) = (a.checked_ceil_log2(), a.clone().into_checked_ceil_log2());
    ensure!(c, l1 == l2 && h1 == h2 && l1.is_some() == (sign == Ordering::Greater) && h1.is_some() == l1.is_some(), "forms", "log2 forms of {}: {:?} {:?} {:?} {:?}", show(&a), l1, l2, h1, h2);
    if let (Some(l), Some(h)) = (l1, h1) {
        let p = |k: i64| if k >= 0 { Q::from_integer(BigInt::one() << k as usize) } else { Q::new(BigInt::one(), BigInt::one() << (-k) as usize) };
        ensure!(c, fld.cmp_q(&e, &p(l)) != Ordering::Less && fld.cmp_q(&e, &p(l + 1)) == Ordering::Less && fld.cmp_q(&e, &p(h)) != Ordering::Greater && fld.cmp_q(&e, &p(h - 1)) == Ordering::Greater, "log2", "log2 of {}: {} {}", show(&a), l, h);
        ensure!(c, a.to_integer_log2() == if l == h { Some(l) } else { None }, "log2", "integer log2 of {}: {:?}", show(&a), a.to_integer_log2());
    } else {
        ensure!(c, a.to_integer_log2().is_none(), "log2", "integer log2 of {}", show(&a));
    }
    let rational = fld.as_rational(&e);
    ensure!(c, a.to_rational() == rational && a.is_rational() == rational.is_some(), "forms", "to_rational of {}", show(&a));
    let integer = rational.filter(|v| v.is_integer()).map(|v| v.to_integer());
    ensure!(c, a.to_integer() == integer && a.is_integer() == integer.is_some(), "forms", "to_integer of {}", show(&a));
    let is = |k: i64| integer == Some(BigInt::from(k));
    ensure!(c, a.is_zero() == is(0) && a.is_one() == is(1) && a.is_negative_one() == is(-1), "forms", "is_zero / is_one / is_negative_one of {}", show(&a));
    // a number is set without a trace of its old value
    let mut t = a.clone();
    t.set_zero();
    check_value(c, &t, &fld, &fld.zero(), "set_zero")?;
    let mut t = a.clone();
    t.set_one();
    check_value(c, &t, &fld, &int(BigInt::one()), "set_one")?;
    let mut t = a.clone();
    t.set_negative_one();
    check_value(c, &t, &fld, &int(-BigInt::one()), "set_negative_one")?;
    let eb = el(c, &fld);
    let b = make(&mut c.rng, &fld, &eb);
    let d = fld.sub(&e, &eb);
    let w = if fld.sign(&d) == Ordering::Less { fld.zero() } else { d };
    check_value(c, &a.abs_sub(&b), &fld, &w, &format!("abs_sub of {} and {}", show(&a), show(&b)))?;
    let order = fld.cmp(&e, &eb);
    ensure!(c, a.cmp(&b) == order && a.partial_cmp(&b) == Some(order) && (a < b) == (order == Ordering::Less) && (a <= b) == (order != Ordering::Greater) && (a > b) == (order == Ordering::Greater) && (a >= b) == (order != Ordering::Less) && (a == b) == (order == Ordering::Equal) && (a != b) == (order != Ordering::Equal), "forms", "comparison forms of {} and {}", show(&a), show(&b));
    let (mx, mn) = (std::cmp::max(a.clone(), b.clone()), std::cmp::min(a.clone(), b.clone()));
    let (emx, emn) = if order == Ordering::Less { (&eb, &e) } else { (&e, &eb) };
    check_value(c, &mx, &fld, emx, "max")?;
    check_value(c, &mn, &fld, emn, "min")?;
    c.seen("unary operations in every form");
    intact(c, "unary operations", &a, &a0)
}
fn c24_exponents(c: &mut Ctx, _: u64) -> R {
    let fld = pick_field(c);
    let e = el(c, &fld);
    if fld.is_zero(&e) {
        return Ok(());
    }
    let a = make(&mut c.rng, &fld, &e);
    let a0 = a.data().clone();
    let k = c.rng.us(0, if fld.dim() > 2 { 3 } else { 5 });
    let neg = c.rng.chance(1, 3);
    let p = fld.pow(&e, k);
    let w = if neg { fld.inv(&p).unwrap() } else { p };
    let s = if neg { -(k as i64) } else { k as i64 };
    let what = format!("{} to the power {}", show(&a), s);
    c.note(|| what.clone());
    c.distinct(what.clone());
    fn pair<E: IntoRationalExponent + Clone>(a: &RAN, e: E) -> [Option<RAN>; 5] {
        [
            Some(a.pow(e.clone())),
            Some(a.clone().pow(e.clone())),
            a.checked_pow(e.clone()),
            a.clone().checked_into_pow(e.clone()),
            a.checked_pow(&e),
        ]
    }
    // one randomly chosen exponent type per case, all call forms
    macro_rules! signed { ($($t:ty),*) => { vec![$((|s: i64, m: i64| [pair_t(s as $t), pair_t(Ratio::from_integer(s as $t)), pair_t(Ratio::new((s * m) as $t, m as $t)), pair_t(((s * m) as $t, m as $t))]) as fn(i64, i64) -> [Exp; 4]),*] } }
    enum Exp { One(Box<dyn Fn(&RAN) -> [Option<RAN>; 5]>) }
    fn pair_t<E: IntoRationalExponent + Clone + 'static>(e: E) -> Exp { Exp::One(Box::new(move |a| pair(a, e.clone()))) }
    let kinds: Vec<fn(i64, i64) -> [Exp; 4]> = if neg {
        let mut v = signed!(i8, i16, i32, i64, i128, isize);
        v.push(|s, m| [pair_t(BigInt::from(s)), pair_t(Q::from_integer(BigInt::from(s))), pair_t(Q::new(BigInt::from(s * m), BigInt::from(m))), pair_t((BigInt::from(s * m), BigInt::from(m)))]);
        v
    } else {
        let mut v = signed!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
        v.push(|s, m| [pair_t(BigInt::from(s)), pair_t(Q::from_integer(BigInt::from(s))), pair_t(Q::new(BigInt::from(s * m), BigInt::from(m))), pair_t((BigInt::from(s * m), BigInt::from(m)))]);
        v.push(|s, m| {
            let u = |v: i64| BigUint::from(v as u64);
            [pair_t(u(s)), pair_t(Ratio::from_integer(u(s))), pair_t(Ratio::new(u(s * m), u(m))), pair_t((u(s * m), u(m)))]
        });
        v
    };
    let f = *c.rng.pick(&kinds);
    let m = c.rng.int(1, 7);
    for (i, Exp::One(x)) in f(s, m).iter().enumerate() {
        for (j, v) in x(&a).into_iter().enumerate() {
            ensure!(c, v.is_some(), "refused", "{} refused (exponent form {}, call form {})", what, i, j);
            check_value(c, &v.unwrap(), &fld, &w, &format!("{} (exponent form {}, call form {})", what, i, j))?;
        }
    }
    c.seen("exponent types");
    intact(c, &what, &a, &a0)
}
/// a pool of numbers used over and over: every result is recorded, and asking again later gives it again
fn c24_history(c: &mut Ctx, _: u64) -> R {
    let fld = if c.rng.chance(1, 6) { rational_field() } else { rand_field(&mut c.rng, 2) };
    let mut pool: Vec<(RAN, El, Data)> = vec![];
    for _ in 0..4 {
        let e = el(c, &fld);
        let v = make(&mut c.rng, &fld, &e);
        let d = v.data().clone();
        c.distinct(show(&v));
        pool.push((v, e, d));
    }
    let mut log: Vec<(usize, usize, usize, String)> = vec![];
    let tell = |op: usize, a: &RAN, b: &RAN| -> Option<String> {
        Some(match op {
            0 => show(&(a + b)),
            1 => show(&(a - b)),
            2 => show(&(a * b)),
            3 => a.checked_exact_div(b).map_or("none".into(), |v| show(&v)),
            4 => format!("{:?}", a.cmp(b)),
            5 => format!("{}", a == b),
            6 => a.to_integer_floor().to_string(),
            7 => show(&-a),
            8 => show(&a.fract()),
            _ => format!("{:?}", a.checked_floor_log2()),
        })
    };
    for step in 0..24 {
        let (i, j) = (c.rng.us(0, pool.len() - 1), c.rng.us(0, pool.len() - 1));
        let op = c.rng.us(0, 9);
        let answer = tell(op, &pool[i].0, &pool[j].0).unwrap();
        c.note(|| format!("step {}: operation {} on {} and {} -> {}", step, op, i, j, answer));
        // results join the pool while small
        if op < 3 && pool.len() < 9 {
            let w = model(&fld, op, &pool[i].1, &pool[j].1).unwrap();
            let v = forms(op, &pool[i].0, &pool[j].0).swap_remove(c.rng.us(0, 5)).1;
            check_value(c, &v, &fld, &w, "a result in a history")?;
            let d = v.data().clone();
            pool.push((v, w, d));
        }
        if op == 4 {
            ensure!(c, answer == format!("{:?}", fld.cmp(&pool[i].1, &pool[j].1)), "wrong-order", "comparison of {} and {} in a history: {}", show(&pool[i].0), show(&pool[j].0), answer);
        }
        if op == 5 {
            ensure!(c, answer == (fld.cmp(&pool[i].1, &pool[j].1) == Ordering::Equal).to_string(), "wrong-equality", "equality of {} and {} in a history: {}", show(&pool[i].0), show(&pool[j].0), answer);
        }
        log.push((op, i, j, answer));
        for (v, _, d) in &pool {
            intact(c, "a history", v, d)?;
        }
    }
    for (op, i, j, answer) in &log {
        let again = tell(*op, &pool[*i].0, &pool[*j].0).unwrap();
        // the same question about a fresh representation of the same operand data
        let (a, b) = (RAN::from_data(&pool[*i].2), RAN::from_data(&pool[*j].2));
        let fresh = tell(*op, &a, &b).unwrap();
        ensure!(c, again == *answer && fresh == *answer, "history-dependent", "operation {} on {} and {}: first {}, later {}, from a fresh copy {}", op, show(&pool[*i].0), show(&pool[*j].0), answer, again, fresh);
    }
    c.seen_n("logged operations replayed", log.len() as u64);
    Ok(())
}
trait FromData {
    fn from_data(d: &Data) -> RAN;
}
impl FromData for RAN {
    fn from_data(d: &Data) -> RAN {
        RAN::new_unchecked(d.minimal_polynomial.clone(), d.interval.clone())
    }
}
/// several threads use the same borrowed numbers at once
fn c24_threads(c: &mut Ctx, _: u64) -> R {
    let fld = rand_field(&mut c.rng, 2);
    let (ea, eb) = (el(c, &fld), el(c, &fld));
    let (a, b) = (make(&mut c.rng, &fld, &ea), make(&mut c.rng, &fld, &eb));
    let (a0, b0) = (a.data().clone(), b.data().clone());
    c.note(|| format!("{} and {} shared", show(&a), show(&b)));
    c.distinct((show(&a), show(&b)));
    let work = |seed: u64| -> Vec<(usize, RAN)> {
        let mut r = Rng::new(seed);
        (0..4).map(|_| { let op = r.us(0, 2); (op, forms(op, &a, &b).swap_remove(r.us(0, 5)).1) }).collect()
    };
    let seeds: Vec<u64> = (0..4).map(|_| c.rng.u64()).collect();
    let results: Vec<Result<Vec<(usize, RAN)>, String>> = std::thread::scope(|s| {
        let h: Vec<_> = seeds.iter().map(|&x| { let work = &work; s.spawn(move || catch(|| work(x))) }).collect();
        h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for r in results {
        match r {
            Ok(v) => {
                for (op, v) in v {
                    let w = model(&fld, op, &ea, &eb).unwrap();
                    check_value(c, &v, &fld, &w, "a result computed by one of several threads")?;
                    c.seen("results from concurrent threads");
                }
            }
            Err(m) => ensure!(c, false, "panic", "a thread panicked: {}", m),
        }
    }
    intact(c, "concurrent use", &a, &a0)?;
    intact(c, "concurrent use", &b, &b0)
}
fn hash<T: std::hash::Hash>(v: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
/// data(), into_data() and new_unchecked() carry the representation unchanged; equality of representations
fn c24_data(c: &mut Ctx, _: u64) -> R {
    let fld = pick_field(c);
    let e = el(c, &fld);
    let a = make(&mut c.rng, &fld, &e);
    c.distinct(show(&a));
    c.note(|| show(&a));
    let d = a.data().clone();
    let m = a.minimal_polynomial().clone();
    let iv = a.interval().clone();
    let b = RAN::new_unchecked(m.clone(), iv.clone());
    ensure!(c, d.minimal_polynomial == m && d.interval.is_same(&iv), "data", "data of {}", show(&a));
    let bd = b.clone().into_data();
    ensure!(c, bd == d && hash(&bd) == hash(&d) && *b.data() == d, "data", "new_unchecked and into_data of {}", show(&a));
    ensure!(c, a.degree() == m.degree().unwrap() && a.degree() + 1 == fld.minpoly(&e).len(), "degree", "degree of {}: {}", show(&a), a.degree());
    // another interval or polynomial is another representation
    let (l, h, p) = iv.clone().destructure();
    let other = Data { minimal_polynomial: m.clone(), interval: DFI::new(&l - 1, h.clone(), p) };
    let other2 = Data { minimal_polynomial: m.clone(), interval: DFI::new(l, h + 1, p) };
    let other3 = Data { minimal_polynomial: m.clone(), interval: iv.to_converted_log2_denom(p + 1) };
    let other4 = Data { minimal_polynomial: -m, interval: iv };
    for o in [&other, &other2, &other3, &other4] {
        ensure!(c, *o != d && d != *o, "data", "different representations {:?} and {:?} are the same", o, d);
    }
    c.seen("representations");
    Ok(())
}

// ---------------------------------------------------------------- C25: reading the text back
/// splits at top-level " + " / " - " (brackets nest), giving signed terms
fn terms(s: &str) -> Option<Vec<(bool, String)>> {
    let mut out = vec![];
    let mut depth = 0i32;
    let mut cur = String::new();
    let mut neg = false;
    let ch: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < ch.len() {
        match ch[i] {
            '(' | '[' => depth += 1,
            ')' | ']' => depth -= 1,
            _ => {}
        }
        if depth < 0 {
            return None;
        }
        if depth == 0 && i + 2 < ch.len() && ch[i] == ' ' && (ch[i + 1] == '+' || ch[i + 1] == '-') && ch[i + 2] == ' ' {
            out.push((neg, cur.trim().to_string()));
            cur = String::new();
            neg = ch[i + 1] == '-';
            i += 3;
            continue;
        }
        cur.push(ch[i]);
        i += 1;
    }
    if depth != 0 {
        return None;
    }
    out.push((neg, cur.trim().to_string()));
    Some(out)
}
/// text of coefficient and power of each term
fn read_poly(s: &str, var: &str) -> Option<Vec<(bool, String, usize)>> {
    let mut out = vec![];
    for (neg, t) in terms(s)? {
        // the variable stands outside brackets at the end of the term
        let (coef, power) = match t.rfind(|ch| ch == ')').map_or_else(|| t.find(var), |k| t[k..].find(var).map(|j| j + k)) {
            None => (t.clone(), 0),
            Some(k) => {
                let head = t[..k].trim_end().trim_end_matches('*').trim_end().to_string();
                let tail = t[k + var.len()..].trim();
                let power = if tail.is_empty() { 1 } else { tail.strip_prefix('^')?.trim().parse().ok()? };
                (if head.is_empty() { "1".to_string() } else if head == "-" { "-1".to_string() } else { head }, power)
            }
        };
        out.push((neg, coef, power));
    }
    Some(out)
}
fn read_q(s: &str) -> Option<Q> {
    let s = s.trim();
    let s = s.strip_prefix('(').and_then(|s| s.strip_suffix(')')).unwrap_or(s).trim();
    match s.split_once('/') {
        None => Some(Q::from_integer(s.parse::<BigInt>().ok()?)),
        Some((n, d)) => {
            let d = d.trim().parse::<BigInt>().ok()?;
            if d.is_zero() {
                return None;
            }
            Some(Q::new(n.trim().parse::<BigInt>().ok()?, d))
        }
    }
}
fn collect(v: Vec<(usize, Q)>) -> QP {
    let n = v.iter().map(|t| t.0 + 1).max().unwrap_or(0);
    let mut p = vec![Q::zero(); n];
    for (k, q) in v {
        p[k] += q;
    }
    trim(p)
}
fn read_qp(s: &str, var: &str) -> Option<QP> {
    let mut v = vec![];
    for (neg, coef, power) in read_poly(s, var)? {
        let q = read_q(&coef)?;
        v.push((power, if neg { -q } else { q }));
    }
    Some(collect(v))
}
fn text_poly<A: Ring>(c: &mut Ctx, r: &A) -> R {
    let mut a = r.poly(&mut c.rng, r.max_deg().max(12));
    if c.rng.chance(1, 8) && !a.is_empty() {
        // a monomial of larger degree
        let k = c.rng.us(1, 25);
        let mut v = vec![Q::zero(); k];
        v.append(&mut a);
        a = v;
    }
    let p = r.p(&a);
    let text = p.to_string();
    c.note(|| text.clone());
    c.distinct((A::NAME, text.clone()));
    let got = read_qp(&text, "X");
    ensure!(c, got.as_ref() == Some(&a), "text", "{} polynomial with coefficients {:?} prints as {:?}", A::NAME, a.iter().map(|v| v.to_string()).collect::<Vec<_>>(), text);
    ensure!(c, format!("{}", &p) == text && r.rd(&p) == a, "text-changes", "printing changed the polynomial {}", text);
    ensure!(c, !format!("{:?}", p).is_empty(), "debug", "empty debug text");
    c.seen("polynomials read back");
    Ok(())
}
/// "mod_int(v, m)": value and modulus in this order
fn read_mod(s: &str) -> Option<(BigInt, BigInt)> {
    let k = s.find("mod_int(")?;
    let rest = &s[k + 8..];
    let (v, rest) = rest.split_once(',')?;
    let (m, _) = rest.split_once(')')?;
    Some((v.trim().parse().ok()?, m.trim().parse().ok()?))
}
fn text_mod<A: Ring, V: ToBigInt + std::fmt::Display, M: std::fmt::Display>(c: &mut Ctx, r: &A) -> R
where
    A: Ring<T = ModularInteger<V, M>>,
    ModularInteger<V, M>: algebraics::polynomial::PolynomialCoefficient,
{
    let a = r.poly(&mut c.rng, 10);
    let p = r.p(&a);
    let text = p.to_string();
    c.note(|| text.clone());
    c.distinct((A::NAME, text.clone()));
    let m = BigInt::from(r.modulus().unwrap());
    let read = (|| {
        if text == "0" {
            return Some(vec![]);
        }
        let mut v = vec![];
        for (neg, coef, power) in read_poly(&text, "X")? {
            let (x, n) = read_mod(&coef)?;
            if n != m || neg {
                return None;
            }
            v.push((power, Q::from_integer(x)));
        }
        Some(collect(v))
    })();
    ensure!(c, read.as_ref() == Some(&a), "text", "{} polynomial {:?} modulo {} prints as {:?}", A::NAME, a.iter().map(|v| v.to_string()).collect::<Vec<_>>(), m, text);
    for (k, q) in a.iter().enumerate() {
        let x = r.make(q);
        ensure!(c, read_mod(&x.to_string()) == Some((q.to_integer(), m.clone())), "text", "coefficient {} of X^{} modulo {} prints as {}", q, k, m, x);
    }
    c.seen("modular polynomials read back");
    Ok(())
}
/// Z[X][Y], and Z[X][Y][Z]
fn text_nested(c: &mut Ctx, _: u64) -> R {
    let r = ZNest;
    let deep = c.rng.chance(1, 3);
    let mk = |c: &mut Ctx| -> Vec<ZP> { (0..c.rng.us(0, 4)).map(|_| rand_zp(&mut c.rng, 3, 9)).collect() };
    let norm = |mut v: Vec<ZP>| -> Vec<ZP> { while v.last().map_or(false, |p| p.is_empty()) { v.pop(); } v };
    let read2 = |s: &str| -> Option<Vec<ZP>> {
        let mut out: Vec<ZP> = vec![];
        for (neg, coef, power) in read_poly2(s, "Y")? {
            if neg {
                return None;
            }
            let q = read_qp(&coef, "X")?;
            if out.len() <= power {
                out.resize(power + 1, vec![]);
            }
            out[power] = q.into_iter().map(|v| v.to_integer()).collect();
        }
        while out.last().map_or(false, |p| p.is_empty()) { out.pop(); }
        Some(out)
    };
    if !deep {
        let v = norm(mk(c));
        let p: Polynomial<Polynomial<BigInt>> = v.iter().map(|x| Polynomial::from(x.clone())).collect::<Vec<_>>().into();
        let text = p.to_string();
        c.note(|| text.clone());
        c.distinct(text.clone());
        ensure!(c, read2(&text).as_ref() == Some(&v), "text", "polynomial in Y with coefficients {:?} prints as {:?}", v.iter().map(|x| fmt(x)).collect::<Vec<_>>(), text);
        let _ = &r;
    } else {
        let v: Vec<Vec<ZP>> = { let mut v: Vec<Vec<ZP>> = (0..c.rng.us(0, 3)).map(|_| norm(mk(c))).collect(); while v.last().map_or(false, |p| p.is_empty()) { v.pop(); } v };
        let p: Polynomial<Polynomial<Polynomial<BigInt>>> = v.iter().map(|x| Polynomial::from(x.iter().map(|y| Polynomial::from(y.clone())).collect::<Vec<_>>())).collect::<Vec<_>>().into();
        let text = p.to_string();
        c.note(|| text.clone());
        c.distinct(text.clone());
        let read = (|| {
            let mut out: Vec<Vec<ZP>> = vec![];
            for (neg, coef, power) in read_poly2(&text, "Z")? {
                if neg {
                    return None;
                }
                if out.len() <= power {
                    out.resize(power + 1, vec![]);
                }
                out[power] = read2(&coef)?;
            }
            while out.last().map_or(false, |p| p.is_empty()) { out.pop(); }
            Some(out)
        })();
        ensure!(c, read.as_ref() == Some(&v), "text", "polynomial in Z prints as {:?}", text);
    }
    c.seen("nested polynomials read back");
    Ok(())
}
/// terms of a polynomial whose coefficients are polynomials in other variables. The constant coefficient
/// is printed without brackets, so every top-level term that does not hold the variable belongs to it.
fn read_poly2(s: &str, var: &str) -> Option<Vec<(bool, String, usize)>> {
    let mut constant: Vec<String> = vec![];
    let mut out = vec![];
    for (neg, t) in terms(s)? {
        let outside = t.rfind(')').map_or(0, |k| k);
        match t[outside..].find(var) {
            None => {
                let sep = if constant.is_empty() { "" } else if neg { " - " } else { " + " };
                constant.push(format!("{}{}", sep, t));
            }
            Some(j) => {
                let k = outside + j;
                let head = t[..k].trim_end().trim_end_matches('*').trim_end();
                let head = head.strip_prefix('(').and_then(|h| h.strip_suffix(')')).unwrap_or(head).to_string();
                let tail = t[k + var.len()..].trim();
                let power = if tail.is_empty() { 1 } else { tail.strip_prefix('^')?.trim().parse().ok()? };
                out.push((neg, head, power));
            }
        }
    }
    if !constant.is_empty() {
        out.push((false, constant.concat(), 0));
    }
    Some(out)
}
fn text_factor(c: &mut Ctx, _: u64) -> R {
    let v = rand_zp(&mut c.rng, 5, 30);
    let power = c.rng.us(0, 40);
    let f = PolynomialFactor { polynomial: Polynomial::from(v.clone()), power };
    let text = f.to_string();
    c.note(|| text.clone());
    c.distinct(text.clone());
    let read = (|| {
        let (p, e) = text.rsplit_once('^')?;
        let p = p.trim().strip_prefix('(')?.strip_suffix(')')?;
        Some((read_qp(p, "X")?, e.trim().parse::<usize>().ok()?))
    })();
    let w: QP = v.iter().map(|x| Q::from_integer(x.clone())).collect();
    ensure!(c, read == Some((w, power)), "text", "factor ({}) to the power {} prints as {:?}", fmt(&v), power, text);
    Ok(())
}
fn variable_names(c: &mut Ctx, _: u64) -> R {
    let mut seen = std::collections::HashSet::new();
    for k in 0..20000usize {
        let n = get_variable_name(k).into_owned();
        ensure!(c, !n.is_empty() && n.chars().all(|ch| ch.is_ascii_uppercase()), "variable-name", "name {} of variable {}", n, k);
        ensure!(c, seen.insert(n.clone()), "variable-name", "name {} of variable {} is used twice", n, k);
        c.distinct(n);
    }
    ensure!(c, get_variable_name(0) == "X" && get_variable_name(1) == "Y", "variable-name", "first variables");
    Ok(())
}
/// all decimal integers in the text, in order; digits inside names do not count
fn integers(s: &str) -> Vec<BigInt> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut name = false;
    for ch in s.chars().chain(" ".chars()) {
        if ch.is_alphabetic() || ch == '_' || (name && ch.is_ascii_digit()) {
            name = true;
        } else {
            name = false;
            if ch.is_ascii_digit() || (ch == '-' && cur.is_empty()) {
                cur.push(ch);
                continue;
            }
        }
        if let Ok(v) = cur.parse() {
            out.push(v);
        }
        cur.clear();
        if ch == '-' {
            cur.push(ch);
        }
    }
    out
}
fn field<'a>(s: &'a str, name: &str) -> Option<&'a str> {
    let k = s.find(&format!("{}:", name))?;
    Some(s[k + name.len() + 1..].trim_start())
}
fn read_debug_interval(s: &str) -> Option<(BigInt, BigInt, usize)> {
    match &integers(s)[..] {
        [l, h, p] => Some((l.clone(), h.clone(), p.to_string().parse().ok()?)),
        _ => None,
    }
}
fn text_interval(c: &mut Ctx, _: u64) -> R {
    let a = p_interval::gen(&mut c.rng);
    let (l, h, p) = a.clone().destructure();
    let text = a.to_string();
    c.note(|| text.clone());
    c.distinct(text.clone());
    // "[l / 2^p, h / 2^p]"
    let read = match &integers(&text)[..] {
        [a, two, k, b, two2, k2] if two == &BigInt::from(2) && two2 == two => (|| {
            let k: usize = k.to_string().parse().ok()?;
            let k2: usize = k2.to_string().parse().ok()?;
            // equal values: a / 2^k == l / 2^p
            Some((a << p) == (&l << k) && (b << p) == (&h << k2))
        })(),
        _ => None,
    };
    ensure!(c, read == Some(true), "text", "interval [{}, {}] / 2^{} prints as {:?}", l, h, p, text);
    for d in [format!("{:?}", a), format!("{:#?}", a)] {
        ensure!(c, read_debug_interval(&d) == Some((l.clone(), h.clone(), p)), "debug", "interval [{}, {}] / 2^{} has debug text {:?}", l, h, p, d);
    }
    ensure!(c, a.is_same(&DFI::new(l, h, p)), "text-changes", "printing changed {}", text);
    c.seen("intervals read back");
    Ok(())
}
fn text_number(c: &mut Ctx, _: u64) -> R {
    let fld = pick_field(c);
    let e = el(c, &fld);
    let a = make(&mut c.rng, &fld, &e);
    let a0 = a.data().clone();
    c.note(|| format!("{:?}", a));
    c.distinct(show(&a));
    let want: QP = fld.minpoly(&e).into_iter().map(Q::from_integer).collect();
    let (l, h, p) = a.interval().clone().destructure();
    for d in [format!("{:?}", a), format!("{:#?}", a), format!("{:?}", a.data()), format!("{:#?}", a.data())] {
        let read = (|| {
            let t = field(&d, "minimal_polynomial")?;
            let end = t.find("interval")?;
            let t = t[..end].trim().trim_end_matches(',');
            Some((read_qp(t, "X")?, read_debug_interval(field(&d, "interval")?)?))
        })();
        ensure!(c, read == Some((want.clone(), (l.clone(), h.clone(), p))), "debug", "{} has debug text {:?}", show(&a), d);
    }
    let text = a.minimal_polynomial().to_string();
    ensure!(c, read_qp(&text, "X") == Some(want), "text", "minimal polynomial of {} prints as {}", show(&a), text);
    c.seen("numbers read back");
    intact(c, "printing", &a, &a0)
}

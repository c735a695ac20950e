//! Properties of RealAlgebraicNumber.
use crate::engine::*;
use crate::ensure;
use crate::field::*;
use crate::poly::*;
use crate::ran::*;
use crate::real::root_q;
use crate::rng::Rng;
use algebraics::{
    interval_arithmetic::DyadicFractionInterval as DFI,
    traits::{ExactDiv, ExactDivAssign},
    RealAlgebraicNumber as RAN,
};
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::{BigRational as Q, Ratio};
use num_traits::{One, Pow, Signed, Zero};
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c01")]
    v.push(Prop::new(
            "C01",
            "distinct (operation, operand representations) with at least one irrational operand or a big rational",
            vec![
                g("field-op", 900, 60000, c01_field_op),
                g("cancel", 300, 20000, c01_cancel),
                g("chain", 250, 15000, c01_chain),
                g("rational", 6000, 200000, c01_rational),
                g("wide-interval", 400, 30000, c01_wide),
                g("independent", 120, 8000, c01_independent),
                g("high-degree", 40, 2500, c01_high),
                g("close-conjugates", 200, 10000, c01_close),
                g("tall", 60, 3000, c01_tall),
                g("sessions", 120, 5000, |c, _| session(c, 0)),
                g("small-pairs", 51, 51, |c, i| small_pairs(c, i, true)),
            ],
        ));
    #[cfg(feature = "c02")]
    v.push(Prop::new(
            "C02",
            "distinct pairs of representations compared",
            vec![
                g("compare", 900, 60000, c02_compare),
                g("close", 500, 30000, c02_close),
                g("same-value", 300, 20000, c02_same),
                g("sort", 60, 4000, c02_sort),
                g("sessions", 60, 3000, |c, _| session(c, 1)),
                g("rational", 3000, 100000, c02_rational),
                g("high-degree", 60, 3000, c02_high),
                g("close-conjugates", 200, 10000, c02_close_conjugates),
                g("extremely-close", 100, 5000, c02_extreme),
                g("close-strangers", 100, 5000, c02_strangers),
                g("small-pairs", 51, 51, small_compare),
            ],
        ));
    #[cfg(feature = "c03")]
    v.push(Prop::new(
            "C03",
            "distinct results whose canonical form was audited",
            vec![
                g("results", 700, 40000, c03_results),
                g("unary", 800, 40000, c03_unary),
                g("general", 120, 8000, c03_general),
                g("high-degree", 60, 3000, |c, _| unary_case(c, 1)),
                g("close-conjugates", 60, 3000, |c, _| unary_case(c, 2)),
                g("tall", 60, 3000, |c, _| unary_case(c, 3)),
                g("small-pairs", 51, 51, |c, i| small_pairs(c, i, false)),
                g("constructors", 4000, 100000, c03_constructors),
            ],
        ));
    #[cfg(feature = "c04")]
    v.push(Prop::new(
            "C04",
            "distinct (base, exponent) pairs",
            vec![
                g("field-pow", 400, 20000, c04_field_pow),
                g("sessions", 60, 3000, |c, _| session(c, 2)),
                g("root-of-power", 250, 12000, c04_root_of_power),
                g("rational-root", 700, 40000, c04_rational_root),
                g("irrational-root", 150, 8000, c04_irrational_root),
                g("domain", 2000, 40000, c04_domain),
                g("high-degree", 25, 1500, c04_high),
                g("long-exponents", 60, 3000, c04_long),
                g("huge-exponents", 1500, 40000, c04_huge),
                g("high-roots", 60, 3000, c04_high_roots),
                g("small-numbers", 51, 51, small_powers),
            ],
        ));
    #[cfg(feature = "c05")]
    v.push(Prop::new(
            "C05",
            "distinct numbers rounded or converted",
            vec![
                g("round", 1500, 100000, c05_round),
                g("sessions", 60, 3000, |c, _| session(c, 3)),
                g("round-near-integer", 800, 40000, c05_round_near),
                g("rem", 150, 8000, c05_rem),
                g("log2", 1000, 60000, c05_log2),
                g("convert", 4000, 100000, c05_convert),
                g("rational", 6000, 200000, c05_rational),
                g("high-degree", 60, 3000, c05_high),
                g("close-conjugates", 100, 5000, c05_close),
                g("extreme", 100, 5000, c05_extreme),
                g("small-numbers", 51, 51, small_round),
            ],
        ));
    v
}

// ---------------------------------------------------------------- C01
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
}
pub const OPS: [Op; 4] = [Op::Add, Op::Sub, Op::Mul, Op::Div];
/// the operation through a random one of its call forms
fn apply(r: &mut Rng, op: Op, a: &RAN, b: &RAN) -> RAN {
    match (op, r.below(6)) {
        (Op::Add, 0) => a + b,
        (Op::Add, 1) => a.clone() + b,
        (Op::Add, 2) => a + b.clone(),
        (Op::Add, 3) => a.clone() + b.clone(),
        (Op::Add, 4) => {
            let mut v = a.clone();
            v += b;
            v
        }
        (Op::Add, _) => {
            let mut v = a.clone();
            v += b.clone();
            v
        }
        (Op::Sub, 0) => a - b,
        (Op::Sub, 1) => a.clone() - b,
        (Op::Sub, 2) => a - b.clone(),
        (Op::Sub, 3) => a.clone() - b.clone(),
        (Op::Sub, 4) => {
            let mut v = a.clone();
            v -= b;
            v
        }
        (Op::Sub, _) => {
            let mut v = a.clone();
            v -= b.clone();
            v
        }
        (Op::Mul, 0) => a * b,
        (Op::Mul, 1) => a.clone() * b,
        (Op::Mul, 2) => a * b.clone(),
        (Op::Mul, 3) => a.clone() * b.clone(),
        (Op::Mul, 4) => {
            let mut v = a.clone();
            v *= b;
            v
        }
        (Op::Mul, _) => {
            let mut v = a.clone();
            v *= b.clone();
            v
        }
        (Op::Div, 0) => a / b,
        (Op::Div, 1) => a.clone() / b,
        (Op::Div, 2) => a / b.clone(),
        (Op::Div, 3) => a.clone().exact_div(b.clone()),
        (Op::Div, 4) => {
            let mut v = a.clone();
            v /= b;
            v
        }
        (Op::Div, _) => a.checked_exact_div(b).expect("divisor is not zero"),
    }
}
fn apply_model(f: &Field, op: Op, a: &El, b: &El) -> Option<El> {
    Some(match op {
        Op::Add => f.add(a, b),
        Op::Sub => f.sub(a, b),
        Op::Mul => f.mul(a, b),
        Op::Div => f.mul(a, &f.inv(b)?),
    })
}
fn op_name(op: Op) -> &'static str {
    match op {
        Op::Add => "add",
        Op::Sub => "sub",
        Op::Mul => "mul",
        Op::Div => "div",
    }
}
fn binop_case(c: &mut Ctx, fld: &Field, ea: &El, eb: &El, a: &RAN, b: &RAN, op: Op) -> R {
    match apply_model(fld, op, ea, eb) {
        Some(e) => {
            c.note(|| format!("{} {} {}", show(a), op_name(op), show(b)));
            let (a0, b0) = (a.data().clone(), b.data().clone());
            let v = apply(&mut c.rng.clone(), op, a, b);
            c.rng.u64();
            c.note(|| format!("  = {}", show(&v)));
            c.seen(op_name(op));
            if !a.is_rational() || !b.is_rational() {
                c.distinct((op_name(op), show(a), show(b)));
            }
            match v.degree() {
                1 => c.seen("result degree 1"),
                2 => c.seen("result degree 2"),
                3 => c.seen("result degree 3"),
                4 => c.seen("result degree 4"),
                _ => c.seen("result degree >4"),
            }
            check_value(c, &v, fld, &e, &format!("{} {} {}", show(a), op_name(op), show(b)))?;
            ensure!(c, *a.data() == a0 && *b.data() == b0, "operand-changed", "{} changed an operand", op_name(op));
            Ok(())
        }
        None => {
            c.seen("division by zero");
            ensure!(c, a.checked_exact_div(b).is_none(), "division-by-zero", "{} / 0 gave a value", show(a));
            ensure!(c, b.checked_recip().is_none(), "division-by-zero", "1/0 gave a value");
            Ok(())
        }
    }
}
fn dims(c: &mut Ctx) -> usize {
    // the cost of the crate grows steeply with the product of the operands' degrees
    if c.thorough {
        *c.rng.pick(&[2, 2, 3, 4, 4, 6])
    } else {
        *c.rng.pick(&[2, 2, 2, 3, 4, 4, 6])
    }
}
fn small_els(c: &mut Ctx, fld: &Field) -> (El, El) {
    let (n, d) = *c.rng.pick(&[(2i64, 1i64), (3, 2), (5, 3), (9, 4), (30, 1)]);
    let a = fld.rand_el(&mut c.rng, n, d);
    let b = match c.rng.below(12) {
        0 => fld.gen_b(),
        1 => fld.gen_a(),
        _ => fld.rand_el(&mut c.rng, n, d),
    };
    if fld.dim() > 4 {
        // keep the product of degrees at most 12: one generator each
        (fld.add(&fld.gen_a(), &fld.rat(&c.rng.ratio_small(3, 2))), fld.gen_b())
    } else {
        (a, b)
    }
}
fn c01_field_op(c: &mut Ctx, _i: u64) -> R {
    let d = dims(c);
    let fld = rand_field(&mut c.rng, d);
    let (ea, eb) = small_els(c, &fld);
    let a = make(&mut c.rng, &fld, &ea);
    let b = make(&mut c.rng, &fld, &eb);
    let op = *c.rng.pick(&OPS);
    binop_case(c, &fld, &ea, &eb, &a, &b, op)
}
/// one thread working on with closely related numbers: one operand kept while the other runs through
/// numbers of the same degree, conjugates and multiples, so an answer kept from an earlier question would show
pub fn session(c: &mut Ctx, kind: u8) -> R {
    let d = *c.rng.pick(&[2usize, 2, 3, 3, 4]);
    let fld = rand_field(&mut c.rng, d);
    let e = fld.rand_el(&mut c.rng, 3, 2);
    let mut pool = vec![e.clone()];
    let m = fld.minpoly(&e);
    if m.len() == 3 {
        // the conjugate
        pool.push(fld.sub(&fld.rat(&Q::new(-m[1].clone(), m[2].clone())), &e));
    }
    let k = c.rng.ratio_small_nz(3, 2);
    pool.push(fld.neg(&e));
    pool.push(fld.mul(&e, &fld.rat(&k)));
    pool.push(fld.add(&e, &fld.rat(&k)));
    pool.push(fld.rand_el(&mut c.rng, 3, 2));
    pool.push(fld.gen_a());
    let nums: Vec<RAN> = pool.iter().map(|e| make(&mut c.rng, &fld, e)).collect();
    c.seen("session");
    for _ in 0..3 {
        let j = c.rng.us(0, pool.len() - 1);
        let op = *c.rng.pick(&OPS);
        let n = c.rng.int(-3, 3);
        let swapped = c.rng.chance(1, 3);
        let start = c.rng.us(0, pool.len() - 1);
        for i in 0..pool.len().min(5) {
            let i = (start + i) % pool.len();
            let (i, j) = if swapped { (j, i) } else { (i, j) };
            match kind {
                0 => binop_case(c, &fld, &pool[i], &pool[j], &nums[i], &nums[j], op)?,
                1 => cmp_all(c, &nums[i], &nums[j], fld.cmp(&pool[i], &pool[j]))?,
                2 => field_pow(c, &fld, &pool[i], n)?,
                _ => {
                    round_all(c, &nums[i], &fld, &pool[i])?;
                    if fld.sign(&pool[i]) == Ordering::Greater {
                        log_all(c, &nums[i], &fld, &pool[i])?;
                    }
                }
            }
        }
    }
    Ok(())
}
/// operands chosen so that the exact result is rational, zero, one or an operand again
fn c01_cancel(c: &mut Ctx, _i: u64) -> R {
    let d = dims(c).min(4);
    let fld = rand_field(&mut c.rng, d);
    let (ea, _) = small_els(c, &fld);
    let q = c.rng.ratio_small_nz(5, 3);
    let qe = fld.rat(&q);
    let (eb, op) = match c.rng.below(10) {
        0 => (ea.clone(), Op::Sub),
        1 => (fld.neg(&ea), Op::Add),
        2 => (ea.clone(), Op::Div),
        3 if !fld.is_zero(&ea) => (fld.inv(&ea).unwrap(), Op::Mul),
        4 => (fld.sub(&qe, &ea), Op::Add),
        5 if !fld.is_zero(&ea) => (fld.mul(&qe, &fld.inv(&ea).unwrap()), Op::Mul),
        6 => (ea.clone(), Op::Add),
        7 => (ea.clone(), Op::Mul),
        8 => (fld.neg(&ea), Op::Mul),
        _ => (fld.mul(&qe, &ea), *c.rng.pick(&OPS)),
    };
    c.seen("cancelling operands");
    let a = make(&mut c.rng, &fld, &ea);
    let b = make(&mut c.rng, &fld, &eb);
    binop_case(c, &fld, &ea, &eb, &a, &b, op)
}
/// results of operations are operands of the next ones
fn c01_chain(c: &mut Ctx, _i: u64) -> R {
    let d = *c.rng.pick(&[2usize, 2, 3, 4]);
    let fld = rand_field(&mut c.rng, d);
    let (mut e, _) = small_els(c, &fld);
    let mut v = make(&mut c.rng, &fld, &e);
    let len = if d >= 3 { 3 } else { c.rng.us(3, 6) };
    for _ in 0..len {
        let eb = if d >= 4 {
            fld.rat(&c.rng.ratio_small(3, 2))
        } else {
            fld.rand_el(&mut c.rng, 3, 2)
        };
        let b = make(&mut c.rng, &fld, &eb);
        match c.rng.below(7) {
            0 => {
                e = fld.neg(&e);
                v = -&v;
                c.seen("neg");
            }
            1 if !fld.is_zero(&e) => {
                e = fld.inv(&e).unwrap();
                v = v.recip();
                c.seen("recip");
            }
            2 => {
                let fl = fld.floor(&e);
                e = fld.sub(&e, &fld.rat(&qi(fl)));
                v = v.fract();
                c.seen("fract");
            }
            _ => {
                let op = *c.rng.pick(&OPS);
                if let Some(e2) = apply_model(&fld, op, &e, &eb) {
                    c.note(|| format!("{} {} {}", show(&v), op_name(op), show(&b)));
                    let mut r2 = c.rng.clone();
                    v = apply(&mut r2, op, &v, &b);
                    c.rng.u64();
                    e = e2;
                    c.seen("chained op");
                }
            }
        }
        // stop before the coefficients explode
        if fld.minpoly(&e).iter().any(|x| x.bits() > 60) {
            break;
        }
    }
    c.note(|| format!("  = {}", show(&v)));
    c.distinct(show(&v));
    check_value(c, &v, &fld, &e, "end of an operation chain")
}
/// an irrational number of the field with long coefficients
pub fn tall_el(r: &mut Rng, fld: &Field) -> El {
    let bits = if fld.dim() == 2 { *r.pick(&[40usize, 70, 130, 300]) } else { *r.pick(&[20usize, 40, 70]) };
    let den = *r.pick(&[1usize, 1, 20, bits]);
    let e = fld.add(&fld.mul(&fld.gen_a(), &fld.rat(&r.ratio(bits, den))), &fld.rat(&r.ratio(bits, den)));
    if fld.as_rational(&e).is_some() {
        fld.add(&e, &fld.gen_a())
    } else {
        e
    }
}
fn c01_tall(c: &mut Ctx, _i: u64) -> R {
    let d = *c.rng.pick(&[2usize, 2, 2, 3]);
    let fld = rand_field(&mut c.rng, d);
    let ea = tall_el(&mut c.rng, &fld);
    let eb = match c.rng.below(6) {
        0 | 1 => fld.rat(&c.rng.ratio(300, 300)),
        2 | 3 if fld.dim() == 2 => tall_el(&mut c.rng, &fld),
        4 => fld.add(&fld.neg(&ea), &fld.rat(&c.rng.ratio(100, 100))),
        5 => fld.add(&ea, &fld.rat(&c.rng.ratio(20, 100))),
        _ => fld.rand_el(&mut c.rng, 3, 2),
    };
    let a = make(&mut c.rng, &fld, &ea);
    let b = make(&mut c.rng, &fld, &eb);
    let op = *c.rng.pick(&OPS);
    c.seen("long coefficients");
    binop_case(c, &fld, &ea, &eb, &a, &b, op)
}
fn c01_rational(c: &mut Ctx, _i: u64) -> R {
    let bits = *c.rng.pick(&[3usize, 8, 33, 64, 65, 130, 130, 400, 1100]);
    let a = c.rng.ratio(bits, bits);
    let b = c.rng.ratio(bits, bits);
    let fld = Field::new(&zp(&[0, 1]), 0, &zp(&[0, 1]), 0).unwrap();
    let (ea, eb) = (fld.rat(&a), fld.rat(&b));
    let ra = make(&mut c.rng, &fld, &ea);
    let rb = make(&mut c.rng, &fld, &eb);
    let op = *c.rng.pick(&OPS);
    c.distinct((op_name(op), a.to_string(), b.to_string()));
    binop_case(c, &fld, &ea, &eb, &ra, &rb, op)
}
/// intervals as wide as isolation allows: bounds next to (or at) roots of the other conjugates' sums
fn c01_wide(c: &mut Ctx, _i: u64) -> R {
    // +-sqrt(n) + s with interval bounds on integers, so sums and products have bounds at rational points
    let n = c.rng.int(2, 40);
    let p = loop {
        let p = primitive(&compose_shift(&zp(&[-n, 0, 1]), &z(c.rng.int(-4, 4))));
        break p;
    };
    if is_square(&z(n)) {
        return Ok(());
    }
    let fi = c.rng.us(0, 1);
    let fld = Field::new(&p, fi, &zp(&[0, 1]), 0).unwrap();
    let (sa, sb) = (c.rng.int(-2, 2), c.rng.int(-2, 2));
    let (ta, tb) = (c.rng.small_nz(2), c.rng.small_nz(2));
    let lin = |s: i64, t: i64| {
        let mut e = fld.rat(&q(s, 1));
        e[1] += q(t, 1);
        e
    };
    let (ea, eb) = (lin(sa, ta), lin(sb, tb));
    let widest = |c: &mut Ctx, e: &El| -> RAN {
        let m = fld.minpoly(e);
        let st = Sturm::new(&m);
        let fl = fld.floor(e);
        let (mut lo, mut hi): (BigInt, BigInt) = (fl.clone(), fl + 1);
        // extend to the widest isolating integer interval, or a random part of it
        let (mut gl, mut gh) = (c.rng.below(20), c.rng.below(20));
        while gl > 0 || gh > 0 {
            if gl > 0 {
                if st.count_closed(&qi(&lo - 1), &qi(hi.clone())) == 1 {
                    lo -= 1;
                    gl -= 1;
                } else {
                    gl = 0;
                }
            }
            if gh > 0 {
                if st.count_closed(&qi(lo.clone()), &qi(&hi + 1)) == 1 {
                    hi += 1;
                    gh -= 1;
                } else {
                    gh = 0;
                }
            }
        }
        if st.count_closed(&qi(lo.clone()), &qi(hi.clone())) == 1 {
            RAN::new_unchecked(to_poly(&m), DFI::new(lo, hi, 0))
        } else {
            make(&mut c.rng, &fld, e)
        }
    };
    let (mut a, mut b) = (widest(c, &ea), widest(c, &eb));
    let (mut ea, mut eb) = (ea, eb);
    let k = if c.rng.chance(1, 2) { c.rng.us(1, 12) } else { 0 };
    if k > 0 {
        // the same on a finer grid
        for (v, e) in [(&mut a, &mut ea), (&mut b, &mut eb)] {
            *e = fld.mul(e, &fld.rat(&Q::new(BigInt::one(), BigInt::one() << k)));
            let iv = v.interval();
            let iv = DFI::new(iv.lower_bound_numer().clone(), iv.upper_bound_numer().clone(), iv.log2_denom() + k);
            *v = RAN::new_unchecked(to_poly(&fld.minpoly(e)), iv);
        }
        c.seen("fine grid");
    }
    for op in OPS {
        binop_case(c, &fld, &ea, &eb, &a, &b, op)?;
    }
    Ok(())
}
/// operands from unrelated fields; the oracle is a 400-bit enclosure plus irreducibility and isolation
fn c01_independent(c: &mut Ctx, _i: u64) -> R {
    independent(c, true)
}
fn independent(c: &mut Ctx, value: bool) -> R {
    let (d1, d2) = if c.thorough { *c.rng.pick(&[(2usize, 3usize), (3, 3), (2, 4), (3, 2), (4, 2), (2, 5), (3, 4)]) } else { *c.rng.pick(&[(2usize, 3usize), (3, 3), (2, 4), (3, 2), (4, 2), (2, 2)]) };
    let mx = *c.rng.pick(&[2i64, 3, 6]);
    let t = zp(&[0, 1]);
    let mk = |c: &mut Ctx, d: usize| loop {
        let f = rand_irreducible(&mut c.rng, d, mx);
        let i = c.rng.us(0, 7);
        if let Some(k) = Field::new(&f, i, &t, 0) {
            return k;
        }
    };
    let (k1, k2) = (mk(c, d1), mk(c, d2));
    let op = *c.rng.pick(&OPS);
    independent_on(c, value, &k1, &k2, op)
}
/// every real root of every irreducible polynomial with small coefficients
fn small_numbers() -> Vec<Field> {
    let mut v = vec![];
    for (d, m) in [(1usize, 3i64), (2, 2), (3, 1)] {
        let k = 2 * m + 1;
        for i in 0..k.pow(d as u32 + 1) {
            let f: Vec<i64> = (0..=d).map(|j| i / k.pow(j as u32) % k - m).collect();
            if f[d] <= 0 {
                continue;
            }
            let f = zp(&f);
            let irreducible = match d {
                1 => true,
                2 => !is_square(&(&f[1] * &f[1] - z(4) * &f[0] * &f[2])),
                _ => !f[0].is_zero() && !has_rational_root(&f),
            };
            if !irreducible || !content(&f).is_one() {
                continue;
            }
            for j in 0..isolate(&f).len() {
                v.extend(Field::new(&f, j, &zp(&[0, 1]), 0));
            }
        }
    }
    v
}
/// number i of the small ones with each of them, every operation
fn small_pairs(c: &mut Ctx, i: u64, value: bool) -> R {
    let all = small_numbers();
    assert!(all.len() == 51, "{} small numbers", all.len());
    let k1 = match all.get(i as usize) {
        Some(k) => k,
        None => return Ok(()),
    };
    for k2 in &all {
        for op in OPS {
            if matches!(op, Op::Div) && k2.is_zero(&k2.gen_a()) {
                continue;
            }
            independent_on(c, value, k1, k2, op)?;
        }
    }
    Ok(())
}
fn small_compare(c: &mut Ctx, i: u64) -> R {
    let all = small_numbers();
    assert!(all.len() == 51, "{} small numbers", all.len());
    let k1 = match all.get(i as usize) {
        Some(k) => k,
        None => return Ok(()),
    };
    for (j, k2) in all.iter().enumerate() {
        let want = if i as usize == j {
            Ordering::Equal
        } else {
            let mut p = 16;
            loop {
                let (x, y) = (k1.floor_scaled(&k1.gen_a(), p), k2.floor_scaled(&k2.gen_a(), p));
                if x != y {
                    break x.cmp(&y);
                }
                p *= 2;
                assert!(p < 100_000, "the listed numbers are distinct");
            }
        };
        for _ in 0..6 {
            let a = make(&mut c.rng, k1, &k1.gen_a());
            let b = make(&mut c.rng, k2, &k2.gen_a());
            cmp_all(c, &a, &b, want)?;
        }
    }
    Ok(())
}
fn small_powers(c: &mut Ctx, i: u64) -> R {
    let all = small_numbers();
    assert!(all.len() == 51, "{} small numbers", all.len());
    let k = match all.get(i as usize) {
        Some(k) => k,
        None => return Ok(()),
    };
    let e = k.gen_a();
    if !k.is_zero(&e) {
        for n in -5..=8 {
            field_pow(c, k, &e, n)?;
        }
    }
    if k.sign(&e) == Ordering::Greater {
        for (n, d) in [(1i64, 2i64), (1, 3), (-1, 2), (3, 2), (2, 3), (-2, 3), (1, 4), (3, 4), (-5, 2)] {
            root_on(c, k, &e, n, d)?;
        }
    }
    Ok(())
}
fn small_round(c: &mut Ctx, i: u64) -> R {
    let all = small_numbers();
    assert!(all.len() == 51, "{} small numbers", all.len());
    let k = match all.get(i as usize) {
        Some(k) => k,
        None => return Ok(()),
    };
    for s in -4..=4 {
        for d in [1, 2, 3] {
            let e = k.mul(&k.add(&k.gen_a(), &k.rat(&q(s, 1))), &k.rat(&q(d, 2)));
            let a = make(&mut c.rng, k, &e);
            round_all(c, &a, k, &e)?;
            let a = make(&mut c.rng, k, &e);
            log_all(c, &a, k, &e)?;
        }
    }
    Ok(())
}
fn independent_on(c: &mut Ctx, value: bool, k1: &Field, k2: &Field, op: Op) -> R {
    let (e1, e2) = (k1.gen_a(), k2.gen_a());
    let a = make(&mut c.rng, &k1, &e1);
    let b = make(&mut c.rng, &k2, &e2);
    c.note(|| format!("{} {} {}", show(&a), op_name(op), show(&b)));
    let mut r2 = c.rng.clone();
    let v = apply(&mut r2, op, &a, &b);
    c.note(|| format!("  = {}", show(&v)));
    c.distinct((op_name(op), show(&a), show(&b)));
    c.seen("operands from unrelated fields");
    let p = 420;
    let (fa, fb) = (k1.a.fx(p), k2.a.fx(p));
    let enc = match op {
        Op::Add => fa.add(&fb),
        Op::Sub => fa.add(&fb.neg()),
        Op::Mul => fa.mul(&fb),
        Op::Div => fa.div(&fb).expect("irrational divisor"),
    };
    audit(c, &v, "operation on unrelated fields")?;
    if value {
        let m = from_poly(v.minimal_polynomial());
        let (lo, hi) = iv_bounds(v.interval());
        if m.len() == 2 {
            let val = Q::new(-&m[0], m[1].clone());
            ensure!(c, enc.lo_q() <= val && val <= enc.hi_q(), "wrong-value", "{} is not {} {} {}", show(&v), show(&a), op_name(op), show(&b));
        } else {
            let (lo2, hi2) = (lo.max(enc.lo_q()), hi.min(enc.hi_q()));
            ensure!(
                c,
                lo2 <= hi2 && Sturm::new(&m).count_closed(&lo2, &hi2) == 1,
                "wrong-value",
                "{} has no root within 2^-400 of {} {} {}",
                show(&v),
                show(&a),
                op_name(op),
                show(&b)
            );
        }
    }
    Ok(())
}
/// canonical form without knowing the value
fn audit(c: &mut Ctx, v: &RAN, what: &str) -> R {
    let m = from_poly(v.minimal_polynomial());
    ensure!(c, m.len() >= 2, "degenerate-polynomial", "{}: {}", what, show(v));
    ensure!(c, m.last().unwrap().is_positive(), "leading-coefficient-not-positive", "{}: {}", what, show(v));
    ensure!(c, content(&m).is_one(), "not-primitive", "{}: {}", what, show(v));
    match irreducible_certificate(&m) {
        Some(true) => {
            c.seen("irreducibility certified");
        }
        Some(false) => {
            ensure!(c, false, "reducible-minimal-polynomial", "{}: {}", what, show(v));
        }
        None => c.seen("irreducibility not certified"),
    }
    let (lo, hi) = iv_bounds(v.interval());
    ensure!(c, lo <= hi, "empty-interval", "{}: {}", what, show(v));
    ensure!(c, Sturm::new(&m).count_closed(&lo, &hi) == 1, "interval-not-isolating", "{}: {}", what, show(v));
    ensure!(c, v.degree() == m.len() - 1 && v.is_rational() == (m.len() == 2), "degree", "{}: {}", what, show(v));
    Ok(())
}

/// operands of high degree with rationals, and with the few operands that keep the resultant small
fn c01_high(c: &mut Ctx, _i: u64) -> R {
    let fld = high_field(&mut c.rng, 12);
    let ea = high_el(&fld, &mut c.rng);
    let eb = match c.rng.below(6) {
        0 => fld.rat(&q(1, 1)),
        1 => fld.rat(&q(-1, 1)),
        2 => fld.zero(),
        _ => fld.rat(&c.rng.ratio_small_nz(30, 7)),
    };
    let (ea, eb) = if c.rng.chance(1, 2) { (ea, eb) } else { (eb, ea) };
    let a = make(&mut c.rng, &fld, &ea);
    let b = make(&mut c.rng, &fld, &eb);
    let op = *c.rng.pick(&OPS);
    c.seen("high degree operand");
    binop_case(c, &fld, &ea, &eb, &a, &b, op)
}
/// operands with a conjugate so close that isolating the result takes many bits
fn c01_close(c: &mut Ctx, _i: u64) -> R {
    let fld = close_field(&mut c.rng, 4);
    let ea = high_el(&fld, &mut c.rng);
    let eb = match c.rng.below(8) {
        0 | 1 if fld.dim() == 2 => high_el(&fld, &mut c.rng),
        2 if fld.dim() == 2 => fld.neg(&ea),
        3 => ea.clone(),
        4 => {
            // next to the operand itself
            let k = c.rng.us(0, 120);
            fld.rat(&Q::new(fld.floor_scaled(&ea, k), BigInt::one() << k))
        }
        _ => fld.rat(&c.rng.ratio_small_nz(30, 7)),
    };
    let (ea, eb) = if c.rng.chance(1, 2) { (ea, eb) } else { (eb, ea) };
    let a = make(&mut c.rng, &fld, &ea);
    let b = make(&mut c.rng, &fld, &eb);
    let op = *c.rng.pick(&OPS);
    c.seen("close conjugates");
    binop_case(c, &fld, &ea, &eb, &a, &b, op)
}
// ---------------------------------------------------------------- C02
fn c02_close_conjugates(c: &mut Ctx, _i: u64) -> R {
    let fld = close_field(&mut c.rng, 4);
    let ea = fld.add(&fld.gen_a(), &fld.rat(&c.rng.ratio_small(3, 2)));
    let (eb, name) = if fld.dim() == 2 && c.rng.chance(1, 2) {
        // its conjugate: trace minus the number
        let m = fld.minpoly(&ea);
        (fld.sub(&fld.rat(&Q::new(-m[1].clone(), m[2].clone())), &ea), "compared with the close conjugate")
    } else {
        let k = c.rng.us(0, 200);
        let near = Q::new(fld.floor_scaled(&ea, k) + c.rng.int(-1, 2), BigInt::one() << k);
        (fld.rat(&near), "compared with a close rational")
    };
    let a = make(&mut c.rng, &fld, &ea);
    let b = make(&mut c.rng, &fld, &eb);
    c.seen(name);
    cmp_all(c, &a, &b, fld.cmp(&ea, &eb))?;
    sign_all(c, &a, fld.sign(&ea))
}
/// how many bits two values agree in: mostly hundreds, sometimes thousands
fn agreeing_bits(r: &mut Rng) -> usize {
    let top = *r.pick(&[150usize, 300, 600, 1100, 1100, 2300]);
    r.us(50, top)
}
fn c02_extreme(c: &mut Ctx, _i: u64) -> R {
    let fld = rand_field(&mut c.rng, 3);
    let e = fld.rand_el(&mut c.rng, 5, 3);
    let a = make(&mut c.rng, &fld, &e);
    let k = agreeing_bits(&mut c.rng);
    // the nearest fractions with denominator 2^k, also as a number shifted by them
    let near = Q::new(fld.floor_scaled(&e, k) + c.rng.int(-1, 2), BigInt::one() << k);
    let (eb, name) = if c.rng.chance(1, 2) {
        (fld.rat(&near), "agrees with a rational in many bits")
    } else {
        (fld.add(&e, &fld.rat(&Q::new(z(c.rng.small_nz(2)), BigInt::one() << k))), "agrees with a shifted copy in many bits")
    };
    let b = make(&mut c.rng, &fld, &eb);
    c.seen(name);
    cmp_all(c, &a, &b, fld.cmp(&e, &eb))?;
    // and the tiny difference itself
    let diff = fld.sub(&e, &fld.rat(&near));
    let m = make(&mut c.rng, &fld, &diff);
    sign_all(c, &m, fld.sign(&diff))
}
/// numbers of unrelated fields that agree in many bits
fn c02_strangers(c: &mut Ctx, _i: u64) -> R {
    let n = *c.rng.pick(&[2i64, 3, 5, 6, 7]);
    let m = *c.rng.pick(&[2i64, 3, 4, 5, 11]);
    let fa = rand_field(&mut c.rng, 3);
    let ea = fa.rand_el(&mut c.rng, 4, 3);
    // b = x + y * root, rational x chosen to bring it close to a
    let f = if m == 4 { zp(&[-n, 0, 0, 1]) } else { zp(&[-n, 0, 1]) };
    let fb = Field::new(&f, 0, &zp(&[0, 1]), 0).unwrap();
    let y = fb.mul(&fb.gen_a(), &fb.rat(&c.rng.ratio_small_nz(9, 5)));
    let k = agreeing_bits(&mut c.rng).min(1200);
    let x = Q::new(fa.floor_scaled(&ea, k) - fb.floor_scaled(&y, k) + c.rng.int(-1, 1), BigInt::one() << k);
    let eb = fb.add(&y, &fb.rat(&x));
    let want = if fa.minpoly(&ea) == fb.minpoly(&eb) {
        // the same conjugates: compared within one field elsewhere
        return Ok(());
    } else {
        // different numbers: refining must separate them
        let mut p = k + 10;
        loop {
            let (u, v) = (fa.floor_scaled(&ea, p), fb.floor_scaled(&eb, p));
            if u != v {
                break u.cmp(&v);
            }
            p *= 2;
        }
    };
    let a = make(&mut c.rng, &fa, &ea);
    let b = make(&mut c.rng, &fb, &eb);
    c.seen("unrelated numbers agreeing in many bits");
    cmp_all(c, &a, &b, want)
}
fn c02_high(c: &mut Ctx, _i: u64) -> R {
    let fld = high_field(&mut c.rng, 12);
    let ea = high_el(&fld, &mut c.rng);
    let k = c.rng.us(0, 40);
    let near = Q::new(fld.floor_scaled(&ea, k) + c.rng.int(-1, 2), BigInt::one() << k);
    let eb = fld.rat(&near);
    let a = make(&mut c.rng, &fld, &ea);
    let b = make(&mut c.rng, &fld, &eb);
    c.seen("high degree operand");
    cmp_all(c, &a, &b, fld.cmp(&ea, &eb))?;
    sign_all(c, &a, fld.sign(&ea))
}
fn cmp_all(c: &mut Ctx, a: &RAN, b: &RAN, expected: Ordering) -> R {
    c.note(|| format!("{} <=> {} : {:?}", show(a), show(b), expected));
    c.distinct((show(a), show(b)));
    match expected {
        Ordering::Less => c.seen("less"),
        Ordering::Equal => c.seen("equal"),
        Ordering::Greater => c.seen("greater"),
    }
    let got = a.cmp(b);
    ensure!(c, got == expected, "wrong-order", "{} cmp {} gave {:?}, exact order {:?}", show(a), show(b), got, expected);
    ensure!(c, a.partial_cmp(b) == Some(expected), "wrong-order", "partial_cmp of {} and {}", show(a), show(b));
    ensure!(c, (a == b) == (expected == Ordering::Equal), "wrong-equality", "{} == {}", show(a), show(b));
    match c.rng.below(5) {
        0 => ensure!(c, (a < b) == (expected == Ordering::Less), "wrong-order", "{} < {}", show(a), show(b)),
        1 => ensure!(c, (a <= b) == (expected != Ordering::Greater), "wrong-order", "{} <= {}", show(a), show(b)),
        2 => ensure!(c, (a > b) == (expected == Ordering::Greater), "wrong-order", "{} > {}", show(a), show(b)),
        3 => ensure!(c, (a != b) == (expected != Ordering::Equal), "wrong-equality", "{} != {}", show(a), show(b)),
        _ => ensure!(c, b.cmp(a) == expected.reverse(), "order-not-antisymmetric", "{} cmp {}", show(b), show(a)),
    }
    Ok(())
}
fn sign_all(c: &mut Ctx, a: &RAN, s: Ordering) -> R {
    ensure!(c, a.cmp_with_zero() == s, "wrong-sign", "cmp_with_zero of {} gave {:?}, exact {:?}", show(a), a.cmp_with_zero(), s);
    ensure!(c, a.is_zero() == (s == Ordering::Equal), "wrong-sign", "is_zero of {}", show(a));
    ensure!(c, a.is_positive() == (s == Ordering::Greater), "wrong-sign", "is_positive of {}", show(a));
    ensure!(c, a.is_negative() == (s == Ordering::Less), "wrong-sign", "is_negative of {}", show(a));
    let sg = a.signum().to_integer();
    let e = match s {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    };
    ensure!(c, sg == Some(z(e)), "wrong-sign", "signum of {} gave {:?}", show(a), sg);
    Ok(())
}
fn c02_compare(c: &mut Ctx, _i: u64) -> R {
    let d = dims(c).min(4);
    let fld = rand_field(&mut c.rng, d);
    let (ea, eb) = small_els(c, &fld);
    let a = make(&mut c.rng, &fld, &ea);
    let b = make(&mut c.rng, &fld, &eb);
    cmp_all(c, &a, &b, fld.cmp(&ea, &eb))?;
    sign_all(c, &a, fld.sign(&ea))?;
    let ab = a.abs();
    let eabs = if fld.sign(&ea) == Ordering::Less { fld.neg(&ea) } else { ea.clone() };
    check_value(c, &ab, &fld, &eabs, "abs")?;
    if c.rng.chance(1, 3) {
        let s = a.abs_sub(&b);
        let e = if fld.cmp(&ea, &eb) == Ordering::Greater { fld.sub(&ea, &eb) } else { fld.zero() };
        check_value(c, &s, &fld, &e, "abs_sub")?;
    }
    Ok(())
}
/// a number against rationals (and conjugates) extremely close to it
fn c02_close(c: &mut Ctx, _i: u64) -> R {
    let fld = rand_field(&mut c.rng, 4);
    let e = fld.rand_el(&mut c.rng, 5, 3);
    let a = make(&mut c.rng, &fld, &e);
    let k = c.rng.us(1, if c.thorough { 300 } else { 60 });
    let fl = fld.floor_scaled(&e, k) + c.rng.int(0, 1);
    let rq = Q::new(fl, BigInt::one() << k);
    c.seen("rational within 2^-k of the number");
    let b = make(&mut c.rng, &fld, &fld.rat(&rq));
    cmp_all(c, &a, &b, fld.cmp_q(&e, &rq))?;
    // the difference as a number: sign must be found although it is tiny
    let diff = fld.sub(&e, &fld.rat(&rq));
    if !fld.is_zero(&diff) && k < 40 {
        let m = make(&mut c.rng, &fld, &diff);
        sign_all(c, &m, fld.sign(&diff))?;
    }
    Ok(())
}
/// one value reached by different ways
fn c02_same(c: &mut Ctx, _i: u64) -> R {
    let d = *c.rng.pick(&[2usize, 2, 3, 4]);
    let fld = rand_field(&mut c.rng, d);
    let (e, t) = small_els(c, &fld);
    let a = make(&mut c.rng, &fld, &e);
    let b = make(&mut c.rng, &fld, &e);
    cmp_all(c, &a, &b, Ordering::Equal)?;
    let t = if d > 2 { fld.rat(&c.rng.ratio_small_nz(4, 3)) } else { t };
    if fld.is_zero(&t) {
        return Ok(());
    }
    let tv = make(&mut c.rng, &fld, &t);
    let w = if c.rng.chance(1, 2) { (&a + &tv) - &tv } else { (&a * &tv) / &tv };
    c.seen("round trip");
    cmp_all(c, &a, &w, Ordering::Equal)?;
    let nz = if c.rng.chance(1, 2) { q(1, 1 << c.rng.us(1, 40)) } else { -q(1, 1 << c.rng.us(1, 40)) };
    let near = make(&mut c.rng, &fld, &fld.add(&e, &fld.rat(&nz)));
    cmp_all(c, &w, &near, if nz.is_positive() { Ordering::Less } else { Ordering::Greater })
}
fn c02_sort(c: &mut Ctx, _i: u64) -> R {
    let d = *c.rng.pick(&[2usize, 3]);
    let fld = rand_field(&mut c.rng, d);
    let n = c.rng.us(3, 7);
    let mut v: Vec<(El, RAN)> = (0..n)
        .map(|_| {
            let e = fld.rand_el(&mut c.rng, 3, 2);
            let a = make(&mut c.rng, &fld, &e);
            (e, a)
        })
        .collect();
    let mut w = v.clone();
    v.sort_by(|a, b| a.1.cmp(&b.1));
    w.sort_by(|a, b| fld.cmp(&a.0, &b.0));
    c.seen_n("sorted numbers", n as u64);
    c.distinct(v.iter().map(|v| show(&v.1)).collect::<Vec<_>>());
    for (x, y) in v.iter().zip(&w) {
        ensure!(c, x.0 == y.0, "wrong-order", "sorting {:?} gave a different order than the exact one", v.iter().map(|v| show(&v.1)).collect::<Vec<_>>());
    }
    let mx = v.iter().map(|v| v.1.clone()).max().unwrap();
    check_value(c, &mx, &fld, &w[n - 1].0, "maximum")
}
fn c02_rational(c: &mut Ctx, _i: u64) -> R {
    let bits = *c.rng.pick(&[2usize, 10, 64, 100]);
    let a = c.rng.ratio(bits, bits);
    let b = match c.rng.below(4) {
        0 => a.clone(),
        1 => &a + Q::new(BigInt::one(), BigInt::one() << c.rng.us(0, 90)),
        2 => -&a,
        _ => c.rng.ratio(bits, bits),
    };
    let fld = Field::new(&zp(&[0, 1]), 0, &zp(&[0, 1]), 0).unwrap();
    let ra = make(&mut c.rng, &fld, &fld.rat(&a));
    let rb = make(&mut c.rng, &fld, &fld.rat(&b));
    cmp_all(c, &ra, &rb, a.cmp(&b))?;
    sign_all(c, &ra, a.cmp(&Q::zero()))?;
    ensure!(c, ra.is_one() == a.is_one(), "wrong-equality", "is_one of {}", show(&ra));
    ensure!(c, ra.is_negative_one() == (-&a).is_one(), "wrong-equality", "is_negative_one of {}", show(&ra));
    Ok(())
}

// ---------------------------------------------------------------- C03
fn c03_results(c: &mut Ctx, i: u64) -> R {
    match i % 3 {
        0 => c01_chain(c, i),
        1 => c01_wide(c, i),
        _ => c01_field_op(c, i),
    }
}
fn c03_unary(c: &mut Ctx, _i: u64) -> R {
    unary_case(c, 0)
}
fn unary_case(c: &mut Ctx, kind: u8) -> R {
    let d = *c.rng.pick(&[2usize, 3, 4, 6]);
    let fld = match kind {
        0 => rand_field(&mut c.rng, d),
        1 => high_field(&mut c.rng, 12),
        2 => close_field(&mut c.rng, 5),
        _ => rand_field(&mut c.rng, 3),
    };
    let e = match kind {
        0 => fld.rand_el(&mut c.rng, 6, 4),
        1 | 2 => high_el(&fld, &mut c.rng),
        _ => tall_el(&mut c.rng, &fld),
    };
    let a = make(&mut c.rng, &fld, &e);
    c.note(|| show(&a));
    c.distinct(show(&a));
    c.seen("neg");
    check_value(c, &-&a, &fld, &fld.neg(&e), "negation")?;
    check_value(c, &-a.clone(), &fld, &fld.neg(&e), "negation")?;
    check_value(c, &-(-&a), &fld, &e, "double negation")?;
    match fld.inv(&e) {
        None => ensure!(c, a.checked_recip().is_none(), "recip-of-zero", "1/0 gave a value"),
        Some(i) => {
            c.seen("recip");
            let v = a.checked_recip();
            ensure!(c, v.is_some(), "recip-missing", "no reciprocal of {}", show(&a));
            check_value(c, &v.unwrap(), &fld, &i, &format!("reciprocal of {}", show(&a)))?;
            let rr = a.recip().recip();
            check_value(c, &rr, &fld, &e, &format!("double reciprocal of {}", show(&a)))?;
        }
    }
    let fr = a.fract();
    check_value(c, &fr, &fld, &fld.sub(&e, &fld.rat(&qi(fld.floor(&e)))), "fract")
}
fn c03_general(c: &mut Ctx, _i: u64) -> R {
    independent(c, false)
}
fn c03_constructors(c: &mut Ctx, _i: u64) -> R {
    let n = c.rng.big(*[4usize, 31, 63, 64, 127, 200].get(c.rng.clone().us(0, 5)).unwrap());
    c.rng.u64();
    let d = c.rng.big_nz(40);
    let rv = Q::new(n.clone(), d);
    c.distinct(rv.to_string());
    let v = RAN::from(rv.clone());
    audit(c, &v, "conversion from a rational")?;
    ensure!(c, v.to_rational() == Some(rv.clone()), "wrong-value", "conversion of {}", rv);
    let v = RAN::from(n.clone());
    audit(c, &v, "conversion from an integer")?;
    ensure!(c, v.to_integer() == Some(n.clone()), "wrong-value", "conversion of {}", n);
    for (v, x) in [(RAN::zero(), 0i64), (RAN::one(), 1), (RAN::negative_one(), -1)] {
        audit(c, &v, "constant")?;
        ensure!(c, v.to_integer() == Some(z(x)), "wrong-value", "constant {}", x);
    }
    let mut w = RAN::from(n);
    w.set_negative_one();
    audit(c, &w, "set_negative_one")?;
    ensure!(c, w.to_integer() == Some(z(-1)), "wrong-value", "set_negative_one");
    Ok(())
}

// ---------------------------------------------------------------- C04
fn do_pow(r: &mut Rng, a: &RAN, n: i64, d: i64) -> Option<RAN> {
    match r.below(5) {
        0 => a.checked_pow((n, d)),
        4 => {
            // not in lowest terms
            let m = *r.pick(&[2i64, 3, 4, 6, -1, -2, -3]);
            a.checked_pow((n * m, d * m))
        }
        1 => a.clone().checked_into_pow(Ratio::new(n, d)),
        2 if d == 1 => a.checked_pow(n),
        _ => a.checked_pow(Q::new(n.into(), d.into())),
    }
}
fn c04_field_pow(c: &mut Ctx, _i: u64) -> R {
    let d = *c.rng.pick(&[2usize, 2, 3, 4]);
    let fld = rand_field(&mut c.rng, d);
    let e = fld.rand_el(&mut c.rng, 3, 2);
    let n = c.rng.int(-4, 6);
    field_pow(c, &fld, &e, n)
}
fn c04_high(c: &mut Ctx, _i: u64) -> R {
    if c.rng.chance(1, 3) {
        // larger exponents of small bases
        let fld = rand_field(&mut c.rng, 2);
        let e = fld.rand_el(&mut c.rng, 3, 2);
        let n = c.rng.int(7, 24);
        let n = if c.rng.chance(1, 4) { -n } else { n };
        return field_pow(c, &fld, &e, n);
    }
    let fld = high_field(&mut c.rng, 9);
    let e = high_el(&fld, &mut c.rng);
    let n = c.rng.int(-3, 4);
    c.seen("high degree base");
    field_pow(c, &fld, &e, n)
}
fn field_pow(c: &mut Ctx, fld: &Field, e: &El, n: i64) -> R {
    if fld.is_zero(e) {
        return Ok(());
    }
    let a = make(&mut c.rng, fld, e);
    let base = if n < 0 { fld.inv(e).unwrap() } else { e.clone() };
    let x = fld.pow(&base, n.unsigned_abs() as usize);
    c.note(|| format!("{} ^ {}", show(&a), n));
    c.distinct((show(&a), n));
    c.seen("integer power");
    let mut r2 = c.rng.clone();
    let v = do_pow(&mut r2, &a, n, 1);
    ensure!(c, v.is_some(), "power-missing", "{} ^ {} gave no result", show(&a), n);
    let what = format!("{} ^ {}", show(&a), n);
    check_value(c, &v.unwrap(), fld, &x, &what)?;
    if c.rng.chance(1, 4) {
        let v: RAN = Pow::pow(&a, n);
        check_value(c, &v, fld, &x, &what)?;
    }
    Ok(())
}
/// (u^k)^(n/k) = u^n for positive u
/// exponents with large numerators
fn c04_long(c: &mut Ctx, i: u64) -> R {
    let fld = if i % 3 == 0 { Field::new(&zp(&[0, 1]), 0, &zp(&[0, 1]), 0).unwrap() } else { rand_field(&mut c.rng, 2) };
    let mut e = if i % 3 == 0 { fld.rat(&c.rng.ratio_small_nz(12, 5)) } else { fld.rand_el(&mut c.rng, 3, 2) };
    if fld.is_zero(&e) {
        return Ok(());
    }
    let n = c.rng.int(7, if i % 3 == 0 { 140 } else { 70 }) * *c.rng.pick(&[1i64, 1, -1]);
    if i % 6 == 0 {
        // far along the path of rational bases
        let n = n.signum() * c.rng.int(130, 700);
        c.seen("very long integer exponent");
        return field_pow(c, &fld, &e, n);
    }
    if c.rng.chance(1, 2) {
        c.seen("long integer exponent");
        return field_pow(c, &fld, &e, n);
    }
    if fld.sign(&e) == Ordering::Less {
        e = fld.neg(&e);
    }
    let k = c.rng.int(2, 3);
    if n.gcd(&k) != 1 {
        return Ok(());
    }
    let a = make(&mut c.rng, &fld, &e);
    let be = if n < 0 { fld.inv(&e).unwrap() } else { e.clone() };
    let pw = fld.pow(&be, n.unsigned_abs() as usize);
    c.note(|| format!("{} ^ ({}/{})", show(&a), n, k));
    c.distinct((show(&a), n, k));
    c.seen("long fractional exponent");
    let mut r2 = c.rng.clone();
    let v = do_pow(&mut r2, &a, n, k);
    ensure!(c, v.is_some(), "power-missing", "{} ^ ({}/{}) gave no result", show(&a), n, k);
    check_root(c, &v.unwrap(), &fld, &pw, k as usize, &format!("{} ^ ({}/{})", show(&a), n, k))
}
/// exponents beyond any machine word, where the answer is 0, 1, -1 or a refusal
fn c04_huge(c: &mut Ctx, _i: u64) -> R {
    let fld = rand_field(&mut c.rng, 3);
    let e = match c.rng.below(6) {
        0 => fld.zero(),
        1 => fld.rat(&q(1, 1)),
        2 | 3 => fld.rat(&q(-1, 1)),
        _ => fld.rand_el(&mut c.rng, 4, 3),
    };
    let a = make(&mut c.rng, &fld, &e);
    let bits = *c.rng.pick(&[31usize, 32, 33, 62, 63, 64, 65, 100, 200]);
    let n: BigInt = c.rng.big(bits) + z(c.rng.int(-1, 1));
    let k: BigInt = match c.rng.below(3) {
        0 => z(c.rng.int(1, 6)),
        1 => c.rng.big(bits).abs() + z(1),
        _ => z(1),
    };
    let x = Q::new(n, k);
    let s = fld.sign(&e);
    let r = fld.as_rational(&e);
    let want = if s == Ordering::Equal {
        if x.is_positive() { Some(fld.zero()) } else { None }
    } else if x.is_zero() || r == Some(q(1, 1)) {
        Some(fld.rat(&q(1, 1)))
    } else if r == Some(q(-1, 1)) {
        match (x.is_integer(), x.numer().is_even()) {
            (false, _) => None,
            (_, true) => Some(fld.rat(&q(1, 1))),
            (_, false) => Some(e.clone()),
        }
    } else if s == Ordering::Less && !x.is_integer() {
        None
    } else {
        return Ok(());
    };
    let what = format!("{} ^ ({})", show(&a), x);
    c.note(|| what.clone());
    c.distinct(what.clone());
    c.seen("huge exponent");
    let v = if c.rng.chance(1, 2) { a.checked_pow(x.clone()) } else { a.clone().checked_into_pow(x.clone()) };
    match want {
        None => {
            ensure!(c, v.is_none(), "power-outside-domain", "{} gave {}", what, show(&v.unwrap()));
            Ok(())
        }
        Some(w) => {
            ensure!(c, v.is_some(), "power-missing", "{} gave no result", what);
            check_value(c, &v.unwrap(), &fld, &w, &what)
        }
    }
}
/// roots of high index, of rationals and of exact powers
fn c04_high_roots(c: &mut Ctx, i: u64) -> R {
    let irrational = i % 4 == 3;
    let fld = if irrational { rand_field(&mut c.rng, 2) } else { Field::new(&zp(&[0, 1]), 0, &zp(&[0, 1]), 0).unwrap() };
    let mut e = if irrational { fld.rand_el(&mut c.rng, 3, 2) } else { fld.rat(&c.rng.ratio_small_nz(30, 7)) };
    match fld.sign(&e) {
        Ordering::Equal => return Ok(()),
        Ordering::Less => e = fld.neg(&e),
        _ => {}
    }
    let k = if irrational { c.rng.int(4, 6) } else { c.rng.int(6, 16) };
    let n = loop {
        let n = c.rng.int(-5, 5);
        if n != 0 && n.gcd(&k) == 1 {
            break n;
        }
    };
    if c.rng.chance(1, 2) {
        let d: Vec<i64> = (2..=k).filter(|d| k % d == 0).collect();
        let d = *c.rng.pick(&d);
        e = fld.pow(&e, d as usize);
    }
    c.seen("root of high index");
    root_on(c, &fld, &e, n, k)
}
fn c04_root_of_power(c: &mut Ctx, _i: u64) -> R {
    let d = *c.rng.pick(&[2usize, 2, 2, 3]);
    let fld = rand_field(&mut c.rng, d);
    let mut u = fld.rand_el(&mut c.rng, 3, 2);
    match fld.sign(&u) {
        Ordering::Equal => return Ok(()),
        Ordering::Less => u = fld.neg(&u),
        _ => {}
    }
    let k = c.rng.int(2, 3);
    let n = loop {
        let n = c.rng.int(-2, 3);
        if n != 0 && n.gcd(&k) == 1 {
            break n;
        }
    };
    let e = fld.pow(&u, k as usize);
    let a = make(&mut c.rng, &fld, &e);
    let ub = if n < 0 { fld.inv(&u).unwrap() } else { u.clone() };
    let x = fld.pow(&ub, n.unsigned_abs() as usize);
    c.note(|| format!("{} ^ ({}/{})", show(&a), n, k));
    c.distinct((show(&a), n, k));
    c.seen("root of an exact power");
    let mut r2 = c.rng.clone();
    let v = do_pow(&mut r2, &a, n, k);
    ensure!(c, v.is_some(), "power-missing", "{} ^ ({}/{}) gave no result", show(&a), n, k);
    check_value(c, &v.unwrap(), &fld, &x, &format!("{} ^ ({}/{})", show(&a), n, k))
}
/// checks that v is the positive real whose k-th power is `pw` (an element), pw > 0
fn check_root(c: &mut Ctx, v: &RAN, fld: &Field, pw: &El, k: usize, what: &str) -> R {
    audit(c, v, what)?;
    let m = from_poly(v.minimal_polynomial());
    let (lo, hi) = iv_bounds(v.interval());
    // lo <= v  <=>  lo <= 0 or lo^k <= pw
    let powq = |x: &Q| num_traits::pow(x.clone(), k);
    ensure!(
        c,
        (lo.is_negative() || fld.cmp_q(pw, &powq(&lo)) != Ordering::Less) && !hi.is_negative() && fld.cmp_q(pw, &powq(&hi)) != Ordering::Greater,
        "value-outside-interval",
        "{}: the root is not in the interval of {}",
        what,
        show(v)
    );
    // isolate the root among the roots of M(x^k)
    let mm = fld.minpoly(pw);
    let mut big = vec![BigInt::zero(); (mm.len() - 1) * k + 1];
    for (i, x) in mm.iter().enumerate() {
        big[i * k] = x.clone();
    }
    ensure!(c, divrem(&to_q(&big), &to_q(&m)).1.is_empty(), "wrong-minimal-polynomial", "{}: {} does not divide {}", what, show(v), fmt(&big));
    let st = Sturm::new(&big);
    let mut p = 64;
    loop {
        let f = fld.fx(pw, p * k);
        let a = root_q(&f.lo_q().max(Q::zero()), k as u32, p);
        let b = root_q(&f.hi_q(), k as u32, p);
        let (l, h) = (a.lo_q(), b.hi_q());
        if st.count_closed(&l, &h) == 1 {
            ensure!(c, Sturm::new(&m).count_closed(&l, &h) == 1, "wrong-value", "{}: {} has no root at the true value (about {})", what, show(v), l);
            return Ok(());
        }
        p *= 2;
        assert!(p < 1 << 14);
    }
}
fn c04_rational_root(c: &mut Ctx, _i: u64) -> R {
    let (nm, dm) = *c.rng.pick(&[(20i64, 1i64), (60, 12), (8, 8), (300, 1), (5, 200)]);
    let b = c.rng.ratio_small_nz(nm, dm).abs();
    let b = if c.rng.chance(1, 4) { let k = c.rng.us(2, 3); num_traits::pow(b, k) } else { b };
    let k = c.rng.int(2, 5);
    let n = loop {
        let n = c.rng.int(-4, 5);
        if n != 0 && n.gcd(&k) == 1 {
            break n;
        }
    };
    let fld = Field::new(&zp(&[0, 1]), 0, &zp(&[0, 1]), 0).unwrap();
    let e = fld.rat(&b);
    let a = make(&mut c.rng, &fld, &e);
    let bb = if n < 0 { b.recip() } else { b.clone() };
    let pw = fld.rat(&num_traits::pow(bb, n.unsigned_abs() as usize));
    c.note(|| format!("{} ^ ({}/{})", show(&a), n, k));
    c.distinct((show(&a), n, k));
    c.seen("root of a rational");
    let mut r2 = c.rng.clone();
    let v = do_pow(&mut r2, &a, n, k);
    ensure!(c, v.is_some(), "power-missing", "{} ^ ({}/{}) gave no result", show(&a), n, k);
    check_root(c, &v.unwrap(), &fld, &pw, k as usize, &format!("{} ^ ({}/{})", show(&a), n, k))
}
fn c04_irrational_root(c: &mut Ctx, _i: u64) -> R {
    let fld = rand_field(&mut c.rng, 3);
    let mut e = fld.rand_el(&mut c.rng, 4, 2);
    match fld.sign(&e) {
        Ordering::Equal => return Ok(()),
        Ordering::Less => e = fld.neg(&e),
        _ => {}
    }
    let (n, k) = *c.rng.pick(&[(1i64, 2i64), (1, 3), (-1, 2), (3, 2), (2, 3)]);
    root_on(c, &fld, &e, n, k)
}
fn root_on(c: &mut Ctx, fld: &Field, e: &El, n: i64, k: i64) -> R {
    let a = make(&mut c.rng, &fld, &e);
    let be = if n < 0 { fld.inv(&e).unwrap() } else { e.clone() };
    let pw = fld.pow(&be, n.unsigned_abs() as usize);
    c.note(|| format!("{} ^ ({}/{})", show(&a), n, k));
    c.distinct((show(&a), n, k));
    c.seen("root of an irrational");
    let mut r2 = c.rng.clone();
    let v = do_pow(&mut r2, &a, n, k);
    ensure!(c, v.is_some(), "power-missing", "{} ^ ({}/{}) gave no result", show(&a), n, k);
    check_root(c, &v.unwrap(), &fld, &pw, k as usize, &format!("{} ^ ({}/{})", show(&a), n, k))
}
fn c04_domain(c: &mut Ctx, _i: u64) -> R {
    let fld = rand_field(&mut c.rng, 3);
    let e = match c.rng.below(5) {
        0 => fld.zero(),
        1 => fld.rat(&q(1, 1)),
        2 => fld.rat(&q(-1, 1)),
        _ => fld.rand_el(&mut c.rng, 4, 3),
    };
    let a = make(&mut c.rng, &fld, &e);
    let k = c.rng.int(1, 4);
    let n = c.rng.int(-5, 5);
    let (n, k) = {
        let g = n.gcd(&k);
        (n / g, k / g)
    };
    let s = fld.sign(&e);
    let what = format!("{} ^ ({}/{})", show(&a), n, k);
    // domain: 0^e only for e > 0; negative base only for integer exponents
    let undefined = match s {
        Ordering::Equal => n <= 0,
        Ordering::Less => k != 1 && n != 0,
        Ordering::Greater => false,
    };
    if undefined {
        c.distinct(what.clone());
        c.seen("outside the domain");
        let mut r2 = c.rng.clone();
        let v = do_pow(&mut r2, &a, n, k);
        ensure!(c, v.is_none(), "power-outside-domain", "{} gave {}", what, show(&v.unwrap()));
        return Ok(());
    }
    let exp: Option<El> = if n == 0 {
        Some(fld.rat(&q(1, 1)))
    } else if s == Ordering::Equal {
        Some(fld.zero())
    } else if fld.as_rational(&e) == Some(q(1, 1)) {
        Some(e.clone())
    } else if k == 1 && n.abs() <= 2 {
        let b = if n < 0 { fld.inv(&e).unwrap() } else { e.clone() };
        Some(fld.pow(&b, n.unsigned_abs() as usize))
    } else {
        None
    };
    if let Some(x) = exp {
        c.distinct(what.clone());
        c.seen("edge of the domain");
        let mut r2 = c.rng.clone();
        let v = do_pow(&mut r2, &a, n, k);
        ensure!(c, v.is_some(), "power-missing", "{} gave no result", what);
        check_value(c, &v.unwrap(), &fld, &x, &what)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C05
fn round_all(c: &mut Ctx, a: &RAN, fld: &Field, e: &El) -> R {
    c.note(|| show(a));
    c.distinct(show(a));
    let fl = fld.floor(e);
    let ce = -fld.floor(&fld.neg(e));
    let tr = if fld.sign(e) == Ordering::Less { ce.clone() } else { fl.clone() };
    ensure!(c, a.to_integer_floor() == fl, "wrong-floor", "floor of {} gave {}, exact {}", show(a), a.to_integer_floor(), fl);
    ensure!(c, a.to_integer_ceil() == ce, "wrong-ceil", "ceil of {} gave {}, exact {}", show(a), a.to_integer_ceil(), ce);
    ensure!(c, a.to_integer_trunc() == tr, "wrong-trunc", "trunc of {} gave {}, exact {}", show(a), a.to_integer_trunc(), tr);
    match c.rng.below(4) {
        0 => {
            ensure!(c, a.clone().into_integer_floor() == fl, "wrong-floor", "into_integer_floor of {}", show(a));
            ensure!(c, a.clone().into_integer_ceil() == ce, "wrong-ceil", "into_integer_ceil of {}", show(a));
            ensure!(c, a.clone().into_integer_trunc() == tr, "wrong-trunc", "into_integer_trunc of {}", show(a));
        }
        1 => {
            check_value(c, &a.floor(), fld, &fld.rat(&qi(fl.clone())), "floor")?;
            check_value(c, &a.ceil(), fld, &fld.rat(&qi(ce)), "ceil")?;
            check_value(c, &a.trunc(), fld, &fld.rat(&qi(tr)), "trunc")?;
        }
        2 => {
            check_value(c, &a.clone().into_floor(), fld, &fld.rat(&qi(fl.clone())), "into_floor")?;
            check_value(c, &a.clone().into_ceil(), fld, &fld.rat(&qi(ce)), "into_ceil")?;
            check_value(c, &a.clone().into_trunc(), fld, &fld.rat(&qi(tr)), "into_trunc")?;
        }
        _ => {}
    }
    let fe = fld.sub(e, &fld.rat(&qi(fl)));
    let fr = if c.rng.chance(1, 2) { a.fract() } else { a.clone().into_fract() };
    check_value(c, &fr, fld, &fe, &format!("fractional part of {}", show(a)))?;
    c.seen("rounded");
    // conversions
    let rat = fld.as_rational(e);
    ensure!(c, a.to_rational() == rat, "wrong-conversion", "to_rational of {}", show(a));
    ensure!(c, a.is_rational() == rat.is_some(), "wrong-conversion", "is_rational of {}", show(a));
    let int = rat.filter(|v| v.is_integer()).map(|v| v.to_integer());
    ensure!(c, a.is_integer() == int.is_some(), "wrong-conversion", "is_integer of {}", show(a));
    ensure!(c, a.to_integer() == int, "wrong-conversion", "to_integer of {}", show(a));
    Ok(())
}
fn c05_high(c: &mut Ctx, _i: u64) -> R {
    let fld = high_field(&mut c.rng, 12);
    let mut e = high_el(&fld, &mut c.rng);
    if c.rng.chance(1, 2) {
        // next to an integer
        let k = c.rng.us(1, 60);
        let fl = fld.floor_scaled(&e, k) + c.rng.int(0, 1);
        e = fld.sub(&e, &fld.rat(&Q::new(fl, BigInt::one() << k)));
        e[0] += qi(c.rng.big(6));
    }
    let a = make(&mut c.rng, &fld, &e);
    round_all(c, &a, &fld, &e)
}
fn c05_close(c: &mut Ctx, _i: u64) -> R {
    let fld = close_field(&mut c.rng, 5);
    let mut e = high_el(&fld, &mut c.rng);
    let k = c.rng.us(0, 150);
    match c.rng.below(3) {
        0 => {
            // next to an integer
            let fl = fld.floor_scaled(&e, k) + c.rng.int(0, 1);
            e = fld.sub(&e, &fld.rat(&Q::new(fl, BigInt::one() << k)));
            e[0] += qi(c.rng.big(6));
        }
        1 => e = fld.mul(&e, &fld.rat(&qi(BigInt::one() << k))),
        _ => {}
    }
    let a = make(&mut c.rng, &fld, &e);
    c.seen("close conjugates");
    round_all(c, &a, &fld, &e)
}
fn c05_round(c: &mut Ctx, _i: u64) -> R {
    let d = *c.rng.pick(&[2usize, 3, 4, 6]);
    let fld = rand_field(&mut c.rng, d);
    let (n, dn) = *c.rng.pick(&[(2i64, 3i64), (6, 4), (50, 3), (1000, 7)]);
    let e = fld.rand_el(&mut c.rng, n, dn);
    let a = make(&mut c.rng, &fld, &e);
    round_all(c, &a, &fld, &e)
}
/// numbers whose distance to an integer is tiny (either side), or that are integers in disguise
fn c05_round_near(c: &mut Ctx, _i: u64) -> R {
    let fld = rand_field(&mut c.rng, 3);
    let e = fld.rand_el(&mut c.rng, 4, 2);
    let k = c.rng.us(1, 40);
    let fl = fld.floor_scaled(&e, k) + c.rng.int(0, 1);
    let mut near = fld.sub(&e, &fld.rat(&Q::new(fl, BigInt::one() << k)));
    near[0] += q(c.rng.int(-5, 5), 1);
    let a = make(&mut c.rng, &fld, &near);
    c.seen("within 2^-k of an integer");
    round_all(c, &a, &fld, &near)
}
/// integer parts of hundreds of bits, distances to integers and powers of two down to 2^-300
fn c05_extreme(c: &mut Ctx, _i: u64) -> R {
    let fld = rand_field(&mut c.rng, 3);
    let mut e = fld.rand_el(&mut c.rng, 4, 2);
    if c.rng.chance(2, 3) {
        let top = *c.rng.pick(&[80usize, 150, 300]);
        let k = c.rng.us(40, top);
        let fl = fld.floor_scaled(&e, k) + c.rng.int(0, 1);
        e = fld.sub(&e, &fld.rat(&Q::new(fl, BigInt::one() << k)));
        c.seen("within 2^-k of an integer, k in the hundreds");
    }
    match c.rng.below(4) {
        0 => e[0] += qi(c.rng.big(300)),
        1 => e[0] += qi(BigInt::one() << c.rng.us(0, 300)),
        2 => e[0] -= qi(BigInt::one() << c.rng.us(0, 300)),
        _ => {}
    }
    let a = make(&mut c.rng, &fld, &e);
    round_all(c, &a, &fld, &e)?;
    if c.rng.chance(1, 2) {
        e = fld.mul(&e, &fld.rat(&Q::new(BigInt::one(), BigInt::one() << c.rng.us(0, 500))));
    }
    let a = make(&mut c.rng, &fld, &e);
    log_all(c, &a, &fld, &e)
}
fn c05_rational(c: &mut Ctx, _i: u64) -> R {
    let fld = Field::new(&zp(&[0, 1]), 0, &zp(&[0, 1]), 0).unwrap();
    let bits = *c.rng.pick(&[4usize, 20, 70]);
    let v = match c.rng.below(3) {
        0 => qi(c.rng.big(bits)),
        1 => qi(c.rng.big(bits)) + Q::new(z(c.rng.small_nz(1)), BigInt::one() << c.rng.us(1, 90)),
        _ => c.rng.ratio(bits, bits),
    };
    let e = fld.rat(&v);
    let a = make(&mut c.rng, &fld, &e);
    round_all(c, &a, &fld, &e)
}
fn c05_rem(c: &mut Ctx, _i: u64) -> R {
    let d = *c.rng.pick(&[1usize, 2, 2, 2]);
    let fld = if d == 1 { Field::new(&zp(&[0, 1]), 0, &zp(&[0, 1]), 0).unwrap() } else { rand_field(&mut c.rng, d) };
    let ea = fld.rand_el(&mut c.rng, 9, 3);
    let eb = fld.rand_el(&mut c.rng, 4, 3);
    if fld.is_zero(&eb) {
        return Ok(());
    }
    let a = make(&mut c.rng, &fld, &ea);
    let b = make(&mut c.rng, &fld, &eb);
    let quo = fld.mul(&ea, &fld.inv(&eb).unwrap());
    let fl = fld.floor(&quo);
    let tr = if fld.sign(&quo) == Ordering::Less { -fld.floor(&fld.neg(&quo)) } else { fl };
    let er = fld.sub(&ea, &fld.mul(&fld.rat(&qi(tr)), &eb));
    let what = format!("{} rem {}", show(&a), show(&b));
    c.note(|| what.clone());
    c.distinct(what.clone());
    let v = match c.rng.below(5) {
        0 => &a % &b,
        1 => a.clone() % &b,
        2 => &a % b.clone(),
        3 => a.clone() % b.clone(),
        _ => {
            let mut v = a.clone();
            v %= &b;
            v
        }
    };
    c.seen("rem");
    check_value(c, &v, &fld, &er, &what)
}
fn c05_log2(c: &mut Ctx, _i: u64) -> R {
    let d = *c.rng.pick(&[1usize, 2, 3, 4]);
    let fld = if d == 1 { Field::new(&zp(&[0, 1]), 0, &zp(&[0, 1]), 0).unwrap() } else { rand_field(&mut c.rng, d) };
    let mut e = if d == 1 { let b = *c.rng.pick(&[3usize, 30, 90]); fld.rat(&c.rng.ratio(b, b)) } else { fld.rand_el(&mut c.rng, 5, 3) };
    match c.rng.below(4) {
        0 => {
            // a power of two, or close to one
            let k = c.rng.int(-60, 60);
            let p = if k >= 0 { qi(BigInt::one() << k as usize) } else { Q::new(BigInt::one(), BigInt::one() << (-k) as usize) };
            e = fld.rat(&p);
            if c.rng.chance(1, 2) {
                e[0] += &p * q(c.rng.small_nz(1), 1 << c.rng.us(1, 30));
            }
        }
        1 => {
            // scale towards a power of two from an irrational
            let k = c.rng.us(0, 30);
            let s = Q::new(BigInt::one(), BigInt::one() << k);
            e = fld.mul(&e, &fld.rat(&s));
        }
        2 if d > 1 && fld.as_rational(&e).is_none() => {
            // 2^j + tiny irrational
            let k = c.rng.us(2, 25);
            let fl = fld.floor_scaled(&e, k) + c.rng.int(0, 1);
            e = fld.sub(&e, &fld.rat(&Q::new(fl, BigInt::one() << k)));
            e[0] += qi(BigInt::one() << c.rng.us(0, 5));
        }
        _ => {}
    }
    let a = make(&mut c.rng, &fld, &e);
    log_all(c, &a, &fld, &e)
}
fn log_all(c: &mut Ctx, a: &RAN, fld: &Field, e: &El) -> R {
    c.note(|| show(a));
    c.distinct(show(a));
    if fld.sign(e) != Ordering::Greater {
        c.seen("log2 of a non-positive number");
        ensure!(c, a.checked_floor_log2().is_none() && a.checked_ceil_log2().is_none(), "log2-domain", "log2 of {}", show(a));
        ensure!(c, a.to_integer_log2().is_none(), "log2-domain", "to_integer_log2 of {}", show(a));
        return Ok(());
    }
    // floor(log2 v) by exact comparisons with powers of two
    let pow2 = |k: i64| if k >= 0 { qi(BigInt::one() << k as usize) } else { Q::new(BigInt::one(), BigInt::one() << (-k) as usize) };
    // start from an estimate
    let mut k: i64 = 0;
    for s in [0usize, 64, 300, 1100, 4200] {
        let f = fld.floor_scaled(e, s);
        if f.is_positive() {
            k = f.bits() as i64 - 1 - s as i64;
            break;
        }
    }
    while fld.cmp_q(e, &pow2(k)) == Ordering::Less {
        k -= 1;
    }
    while fld.cmp_q(e, &pow2(k + 1)) != Ordering::Less {
        k += 1;
    }
    let exact = fld.cmp_q(e, &pow2(k)) == Ordering::Equal;
    let ck = if exact { k } else { k + 1 };
    c.seen(if exact { "log2 of a power of two" } else { "log2 of another positive number" });
    ensure!(c, a.checked_floor_log2() == Some(k), "wrong-floor-log2", "floor_log2 of {} gave {:?}, exact {}", show(a), a.checked_floor_log2(), k);
    ensure!(c, a.checked_ceil_log2() == Some(ck), "wrong-ceil-log2", "ceil_log2 of {} gave {:?}, exact {}", show(a), a.checked_ceil_log2(), ck);
    ensure!(c, a.to_integer_log2() == if exact { Some(k) } else { None }, "wrong-integer-log2", "to_integer_log2 of {} gave {:?}", show(a), a.to_integer_log2());
    if c.rng.chance(1, 2) {
        ensure!(c, a.clone().into_checked_floor_log2() == Some(k), "wrong-floor-log2", "into_checked_floor_log2 of {}", show(a));
        ensure!(c, a.clone().into_checked_ceil_log2() == Some(ck), "wrong-ceil-log2", "into_checked_ceil_log2 of {}", show(a));
    }
    Ok(())
}
fn c05_convert(c: &mut Ctx, _i: u64) -> R {
    macro_rules! ints {
        ($($t:ty),*) => {{
            $( {
                let bits = <$t>::BITS;
                let raw = c.rng.u128();
                let v = match c.rng.below(4) { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => (raw & 7) as $t, _ => (raw >> c.rng.below(bits as u64)) as $t };
                let x = BigInt::from(v);
                let a = RAN::from(v);
                ensure!(c, a.to_integer() == Some(x.clone()), "wrong-conversion", "{} from {}", show(&a), x);
                let (lo, hi) = iv_bounds(a.interval());
                ensure!(c, lo <= qi(x.clone()) && qi(x.clone()) <= hi, "value-outside-interval", "{} from {}", show(&a), x);
                c.distinct((stringify!($t), x.to_string()));
                let d = match c.rng.below(3) { 0 => 1 as $t, 1 => <$t>::MAX, _ => ((c.rng.u64() & 63) + 1) as $t };
                // Ratio::new itself overflows on MIN / -1 style inputs only; d is positive
                if v != <$t>::MIN || <$t>::MIN == 0 {
                    let rt = Ratio::new(v, d);
                    let a = RAN::from(rt);
                    let x = Q::new(BigInt::from(v), BigInt::from(d));
                    ensure!(c, a.to_rational() == Some(x.clone()), "wrong-conversion", "{} from {}", show(&a), x);
                    let (lo, hi) = iv_bounds(a.interval());
                    ensure!(c, lo <= x && x <= hi, "value-outside-interval", "{} from {}", show(&a), x);
                }
            } )*
        }};
    }
    ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    let n = c.rng.biguint_bits(90);
    let d = c.rng.biguint_bits(50) + BigUint::one();
    let a = RAN::from(n.clone());
    ensure!(c, a.to_integer() == Some(n.clone().into()), "wrong-conversion", "{} from {}", show(&a), n);
    let a = RAN::from(Ratio::new(n.clone(), d.clone()));
    ensure!(c, a.to_rational() == Some(Q::new(n.into(), d.into())), "wrong-conversion", "{}", show(&a));
    c.seen("conversions from every integer type");
    Ok(())
}

//! C26: checked operations refuse exactly the undefined cases and leave their operands intact.
use crate::engine::*;
use crate::ensure;
use crate::p_interval::{c06_refuse, gen, hi, key, lo, sh};
use crate::p_mod::{division_any, exact as exact_int, exact_ratio, logs, mismatched};
use crate::p_poly::{by_zero, by_zero_int, exact, exact_nested, powmod, pseudo_div};
use crate::ring::*;
use crate::{each, rings};
use algebraics::interval_arithmetic::DyadicFractionInterval as DFI;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use num_bigint::{BigInt, BigUint};
use num_rational::BigRational as Q;
use num_rational::Ratio;
use num_traits::{Pow, Signed, Zero};

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C26",
        "distinct operands of checked and in-place operations, whose definedness was decided independently",
        vec![
            g("polynomial-exact-int", 40000, 1000000, |c, _| rings!(exact, c, [ZI64, ZI128, ZBig, ZBig])),
            g("polynomial-exact-field", 25000, 600000, |c, _| rings!(exact, c, [QBig, QI128, F2, F3, F13, FPi64, FPi32])),
            g("polynomial-exact-nested", 3000, 60000, exact_nested),
            g("polynomial-pseudo", 15000, 400000, |c, _| rings!(pseudo_div, c, [ZI64, ZBig, QBig, F3, FPi64, ZNest])),
            g("polynomial-powmod", 5000, 120000, |c, _| rings!(powmod, c, [F2, F3, F5, F13, FPi64, FPi32, FPbig, QBig])),
            g("polynomial-by-zero", 6000, 90000, |c, _| rings!(by_zero, c, [QBig, QI64, F2, F3, F13, FPi64])),
            g("polynomial-by-zero-int", 6000, 90000, |c, _| rings!(by_zero_int, c, [ZI32, ZI64, ZI128, ZBig])),
            g("modular-division", 150000, 2500000, |c, _| each!(signed division_any, c)),
            g("modular-mismatched", 20000, 300000, |c, _| each!(mismatched, c)),
            g("integer-exact", 150000, 3000000, |c, _| each!(exact_int, c)),
            g("integer-log2", 60000, 1000000, |c, _| each!(logs, c)),
            g("ratio-exact", 60000, 1000000, exact_ratio),
            g("interval-refuse", 12000, 150000, c06_refuse),
            g("interval-division", 120000, 2500000, interval_division),
        ],
    )]
}

fn interval_division(c: &mut Ctx, _: u64) -> R {
    let a = gen(&mut c.rng);
    let b = match c.rng.below(5) {
        0 => {
            // one bound exactly zero, or the point zero
            let (l, h, p) = gen(&mut c.rng).destructure();
            match c.rng.below(3) {
                0 => DFI::new(BigInt::zero(), h.abs(), p),
                1 => DFI::new(-l.abs(), BigInt::zero(), p),
                _ => DFI::new(BigInt::zero(), BigInt::zero(), p),
            }
        }
        _ => gen(&mut c.rng),
    };
    c.note(|| format!("{} / {}", sh(&a), sh(&b)));
    c.distinct((key(&a), key(&b)));
    let defined = lo(&b).is_positive() || hi(&b).is_negative();
    c.seen(if defined { "defined" } else { "undefined" });
    let forms = [
        ("v/v", a.clone().checked_exact_div(b.clone())),
        ("v/r", a.clone().checked_exact_div(&b)),
        ("r/v", (&a).checked_exact_div(b.clone())),
        ("r/r", (&a).checked_exact_div(&b)),
    ];
    for (n, v) in &forms {
        ensure!(c, v.is_some() == defined, "definedness", "{} checked division of {} by {} answers {}", n, sh(&a), sh(&b), v.is_some());
    }
    for byref in [false, true] {
        let mut t = a.clone();
        let r = if byref { t.checked_exact_div_assign(&b) } else { t.checked_exact_div_assign(b.clone()) };
        ensure!(c, r.is_ok() == defined, "definedness", "checked in-place division of {} by {} answers {}", sh(&a), sh(&b), r.is_ok());
        match &forms[0].1 {
            Some(w) => ensure!(c, t.is_same(w), "forms", "in-place division of {} by {} gives {}, not {}", sh(&a), sh(&b), sh(&t), sh(w)),
            None => ensure!(c, t.is_same(&a), "failed-assign", "refused in-place division of {} by {} leaves {}", sh(&a), sh(&b), sh(&t)),
        }
    }
    let recip = b.checked_recip();
    ensure!(c, recip.is_some() == defined, "definedness", "checked_recip of {} answers {}", sh(&b), recip.is_some());
    if let Some(w) = &forms[0].1 {
        for (n, v) in &forms {
            ensure!(c, v.as_ref().unwrap().is_same(w), "forms", "{} differs", n);
        }
        let mut t = a.clone();
        t /= &b;
        ensure!(c, (&a / &b).is_same(w) && t.is_same(w) && (&a).exact_div(&b).is_same(w), "forms", "unchecked division of {} by {} differs from checked", sh(&a), sh(&b));
        ensure!(c, b.recip().is_same(&recip.unwrap()), "forms", "recip of {} differs from checked_recip", sh(&b));
        return Ok(());
    }
    // no unchecked form may answer
    let t = || a.clone();
    let und: [(&str, Result<(), String>); 8] = [
        ("/", catch(|| drop(&a / &b))),
        ("v/v", catch(|| drop(t() / b.clone()))),
        ("/=", catch(|| { let mut t = t(); t /= &b; })),
        ("/= v", catch(|| { let mut t = t(); t /= b.clone(); })),
        ("exact_div", catch(|| drop(t().exact_div(&b)))),
        ("exact_div_assign", catch(|| { let mut t = t(); t.exact_div_assign(&b); })),
        ("recip", catch(|| drop(b.recip()))),
        ("^-1", catch(|| drop((&b).pow(-1)))),
    ];
    for (n, r) in &und {
        ensure!(c, r.is_err(), "undefined-answer", "{} with {} by {} gave an answer", n, sh(&a), sh(&b));
    }
    let zeros: [(&str, Result<(), String>); 10] = [
        ("0i32", catch(|| drop(&a / 0i32))),
        ("0u8", catch(|| drop(&a / 0u8))),
        ("0i64", catch(|| drop(t() / 0i64))),
        ("0u128", catch(|| drop(t() / 0u128))),
        ("BigInt 0", catch(|| drop(&a / BigInt::zero()))),
        ("BigUint 0", catch(|| drop(t() / BigUint::zero()))),
        ("Ratio 0", catch(|| drop(&a / Q::zero()))),
        ("Ratio<i64> 0", catch(|| drop(t() / Ratio::<i64>::zero()))),
        ("/= 0", catch(|| { let mut t = t(); t /= 0i32; })),
        ("/= Ratio 0", catch(|| { let mut t = t(); t /= Q::zero(); })),
    ];
    for (n, r) in &zeros {
        ensure!(c, r.is_err(), "undefined-answer", "{} divided by {} gave an answer", sh(&a), n);
    }
    Ok(())
}

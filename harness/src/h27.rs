//! C27, reached through the guarded hooks of /repo/src/verif_hooks.rs (cfg algebraics_verif="utilities").
#![allow(unused_imports)]
use crate::engine::*;
use crate::ensure;
use crate::poly::{fp, fp::FP};
use crate::real::{self, Fx};
use crate::ring::*;
use crate::rng::Rng;
use algebraics::mod_int::ModularInteger;
use algebraics::polynomial::Polynomial;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::{BigRational as Q, Ratio};
use num_traits::{One, Signed, ToPrimitive, Zero};
use rand::SeedableRng;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::ops::Bound;
use algebraics::verif_hooks::utilities::{self as hk, Nearest};

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c27")]
    v.push(Prop::new(
            "C27",
            "distinct operands of nearest division, and (size, range) of enumerated subsets",
            vec![
                g("nearest-8-bit", 256, 256, nearest8),
                g("nearest", 150000, 3000000, nearest),
                g("subsets", 3000, 30000, subsets),
                g("prime-table", 1, 1, prime_table),
            ],
        ));
    v
}

fn nearest_want(a: &BigInt, b: &BigInt, signed: bool) -> Option<(BigInt, BigInt)> {
    if b.is_zero() {
        return None;
    }
    if !signed {
        return Some(a.div_mod_floor(b));
    }
    // nearest, halfway towards zero: |a| = q|b| + r with r <= |b|/2, else q + 1
    let (mut q, r) = a.abs().div_rem(&b.abs());
    if r * 2 > b.abs() {
        q += 1;
    }
    if (a.is_negative()) != (b.is_negative()) {
        q = -q;
    }
    let r = a - &q * b;
    Some((q, r))
}
fn nearest8(c: &mut Ctx, i: u64) -> R {
    let a = i as u8 as i8;
    for b in i8::MIN..=i8::MAX {
        let want = nearest_want(&a.into(), &b.into(), true).filter(|(q, _)| q.to_i8().is_some());
        let got = a.nearest(b).map(|(q, r)| (BigInt::from(q), BigInt::from(r)));
        ensure!(c, got == want, "nearest", "i8: {} by {}: {:?}, should be {:?}", a, b, got, want);
        let (u, v) = (i as u8, b as u8);
        let want = nearest_want(&u.into(), &v.into(), false);
        let got = u.nearest(v).map(|(q, r)| (BigInt::from(q), BigInt::from(r)));
        ensure!(c, got == want, "nearest", "u8: {} by {}: {:?}, should be {:?}", u, v, got, want);
        c.distinct((a, b));
    }
    c.seen_n("nearest divisions", 512);
    Ok(())
}
fn nearest(c: &mut Ctx, _: u64) -> R {
    macro_rules! one {
        ($t:ty, $to:ident, $signed:expr) => {{
            let bits = <$t>::BITS as usize;
            let (a, b) = near_operands(&mut c.rng, bits);
            let fit = |v: BigInt| v.$to().or_else(|| v.abs().$to());
            let (Some(a), Some(b)) = (fit(a), fit(b)) else { return Ok(()) };
            c.note(|| format!("{}: {} by {}", stringify!($t), a, b));
            let want = nearest_want(&a.into(), &b.into(), $signed).filter(|(q, _)| q.$to().is_some());
            let got = a.nearest(b).map(|(q, r)| (BigInt::from(q), BigInt::from(r)));
            ensure!(c, got == want, "nearest", "{}: {} by {}: {:?}, should be {:?}", stringify!($t), a, b, got, want);
            if want.is_some() {
                let (q, r) = a.nearest_plain(b);
                ensure!(c, Some((BigInt::from(q), BigInt::from(r))) == want, "nearest", "{}: {} by {} (unchecked form)", stringify!($t), a, b);
            }
            c.distinct((stringify!($t), a.to_string(), b.to_string()));
        }};
    }
    c.seen("nearest divisions");
    match c.rng.below(13) {
        0 => one!(i16, to_i16, true),
        1 => one!(u16, to_u16, false),
        2 => one!(i32, to_i32, true),
        3 => one!(u32, to_u32, false),
        4 => one!(i64, to_i64, true),
        5 => one!(u64, to_u64, false),
        6 => one!(i128, to_i128, true),
        7 => one!(u128, to_u128, false),
        8 => one!(isize, to_isize, true),
        9 => one!(usize, to_usize, false),
        10 | 11 => {
            let (a, b) = near_operands(&mut c.rng, 150);
            c.note(|| format!("BigInt: {} by {}", a, b));
            let want = nearest_want(&a, &b, true);
            let got = a.clone().nearest(b.clone());
            ensure!(c, got == want, "nearest", "BigInt: {} by {}: {:?}, should be {:?}", a, b, got, want);
            let (u, v): (BigUint, BigUint) = (a.magnitude().clone(), b.magnitude().clone());
            let want = nearest_want(&a.abs(), &b.abs(), false);
            let got = u.nearest(v).map(|(q, r)| (BigInt::from(q), BigInt::from(r)));
            ensure!(c, got == want, "nearest", "BigUint: {} by {}: {:?}, should be {:?}", a.abs(), b.abs(), got, want);
            c.distinct((a, b));
        }
        _ => {
            let (a, b) = (c.rng.ratio(40, 30), if c.rng.chance(1, 10) { Q::zero() } else { c.rng.ratio(40, 30) });
            let want = if b.is_zero() { None } else { Some((&a / &b, Q::zero())) };
            let got = a.clone().nearest(b.clone());
            ensure!(c, got == want, "nearest", "ratio: {} by {}: {:?}", a, b, got);
            c.distinct((a.to_string(), b.to_string()));
        }
    }
    Ok(())
}
fn near_operands(r: &mut Rng, bits: usize) -> (BigInt, BigInt) {
    let b = match r.below(8) {
        0 => BigInt::zero(),
        1 => -(BigInt::one() << (bits - 1)),
        2 => BigInt::from(r.small(3)),
        _ => r.big(bits - 1),
    };
    let a = match r.below(6) {
        // around the halfway point
        0 | 1 => {
            let k = r.big(bits / 3);
            &k * &b + (&b >> 1usize) + r.small(2)
        }
        2 => -(BigInt::one() << (bits - 1)),
        3 => (BigInt::one() << (bits - 1)) - 1,
        _ => r.big(bits - 1),
    };
    (a, b)
}
fn subsets(c: &mut Ctx, _: u64) -> R {
    let start = c.rng.us(0, 20);
    let (len, size) = match c.rng.us(0, 3) {
        0 => (c.rng.us(10, 100), c.rng.us(0, 2)),
        1 => {
            let len = c.rng.us(10, 30);
            (len, if c.rng.us(0, 1) == 0 { 3 } else { len - c.rng.us(0, 2) })
        }
        _ => {
            let len = c.rng.us(1, 9);
            (len, c.rng.us(0, len + 2))
        }
    };
    c.note(|| format!("subsets of size {} of {}..{}", size, start, start + len));
    let mut all: Vec<Vec<usize>> = vec![];
    let ended = hk::subsets(
        |s| {
            all.push(s.to_vec());
            true
        },
        size,
        start..start + len,
    );
    let mut want = 1u64;
    for k in 0..size as u64 {
        want = if k >= len as u64 { 0 } else { want * (len as u64 - k) / (k + 1) };
    }
    c.seen_n("subsets", all.len() as u64);
    ensure!(c, ended && all.len() as u64 == want, "subset-count", "{} subsets of size {} of {}..{}, should be {}", all.len(), size, start, start + len, want);
    ensure!(c, all.iter().all(|s| s.len() == size && s.windows(2).all(|w| w[0] < w[1]) && s.iter().all(|&v| v >= start && v < start + len)), "subset-form", "a subset is not an ascending list of {} indexes: {:?}", size, all);
    ensure!(c, all.iter().collect::<HashSet<_>>().len() == all.len(), "subset-repeated", "a subset was visited twice: {:?}", all);
    if !all.is_empty() {
        let stop = c.rng.us(1, all.len());
        let mut calls = 0;
        let mut seen: Vec<Vec<usize>> = vec![];
        let ended = hk::subsets(
            |s| {
                calls += 1;
                seen.push(s.to_vec());
                calls < stop
            },
            size,
            start..start + len,
        );
        ensure!(c, !ended && calls == stop && seen[..] == all[..stop], "subset-stop", "asked to stop after {} of {} subsets: {} calls, ran to the end = {}", stop, all.len(), calls, ended);
    }
    c.distinct((start, len, size));
    Ok(())
}
fn prime_table(c: &mut Ctx, _: u64) -> R {
    let mut sieve = vec![true; 65536];
    sieve[0] = false;
    sieve[1] = false;
    for i in 2..256 {
        if sieve[i] {
            let mut j = i * i;
            while j < 65536 {
                sieve[j] = false;
                j += i;
            }
        }
    }
    let want: Vec<u16> = (0..65536).filter(|&i| sieve[i]).map(|i| i as u16).collect();
    let got = hk::primes_that_fit_in_u16();
    ensure!(c, got == &want[..], "prime-table", "the table of 16-bit primes differs from a sieve (first difference at index {:?})", got.iter().zip(&want).position(|(a, b)| a != b));
    c.seen_n("table entries", got.len() as u64);
    c.distinct("table");
    Ok(())
}

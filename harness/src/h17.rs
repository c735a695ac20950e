//! C17, reached through the guarded hooks of /repo/src/verif_hooks.rs (cfg algebraics_verif="factor").
#![allow(unused_imports)]
use crate::engine::*;
use crate::ensure;
use crate::poly::{fp, fp::FP};
use crate::real::{self, Fx};
use crate::ring::*;
use crate::rng::Rng;
use algebraics::mod_int::ModularInteger;
use algebraics::polynomial::Polynomial;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::{BigRational as Q, Ratio};
use num_traits::{One, Signed, ToPrimitive, Zero};
use rand::SeedableRng;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::ops::Bound;
use algebraics::verif_hooks::factor as hk;

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c17")]
    v.push(Prop::new(
            "C17",
            "distinct (prime, square-free polynomial) with at least two irreducible factors, or irreducible of degree two or more",
            vec![
                g("distinct-degree-planted", 9000, 200000, |c, _| ddf_any(c, true)),
                g("distinct-degree-random", 9000, 200000, |c, _| ddf_any(c, false)),
                g("same-degree", 9000, 200000, sdf_any),
                g("all-small", 120, 120, ddf_exhaustive),
                g("shapes", 300, 3000, ddf_shapes),
            ],
        ));
    v
}

fn to_p<A: Ring>(r: &A, f: &[u64]) -> Polynomial<A::T> {
    r.p(&f.iter().map(|&v| Q::from_integer(v.into())).collect::<Vec<_>>())
}
fn of_p<A: Ring>(r: &A, f: &Polynomial<A::T>) -> FP {
    r.rd(f).iter().map(|q| q.to_integer().to_u64().unwrap()).collect()
}
fn rand_irreducible(r: &mut Rng, deg: usize, p: u64) -> FP {
    loop {
        let mut f: FP = (0..deg).map(|_| r.below(p)).collect();
        f.push(1);
        if fp::irreducible(&f, p) {
            return f;
        }
    }
}
/// number of monic irreducibles of degree d over F_p, capped
fn count_irreducibles(p: u64, d: usize) -> u64 {
    if p > 100 || d > 5 {
        return 1000;
    }
    let q = |k: u32| p.pow(k) as i64;
    let n = match d {
        1 => q(1),
        2 => (q(2) - q(1)) / 2,
        3 => (q(3) - q(1)) / 3,
        4 => (q(4) - q(2)) / 4,
        5 => (q(5) - q(1)) / 5,
        _ => 0,
    };
    n as u64
}
fn planted(r: &mut Rng, p: u64, max_total: usize) -> Vec<FP> {
    let mut set: BTreeSet<FP> = BTreeSet::new();
    let total = r.us(1, max_total);
    let mut sum = 0;
    let narrow = r.chance(1, 2);
    let one = r.us(1, 4);
    for _ in 0..40 {
        let d = if narrow { one } else { r.us(1, if total > 20 { 10 } else { 6.min(total) }) };
        if sum + d > total {
            break;
        }
        let have = set.iter().filter(|f| f.len() == d + 1).count() as u64;
        if have >= count_irreducibles(p, d) {
            continue;
        }
        if set.insert(rand_irreducible(r, d, p)) {
            sum += d;
        }
    }
    set.into_iter().collect()
}
fn product(fs: &[FP], p: u64) -> FP {
    fs.iter().fold(vec![1], |a, b| fp::mul(&a, b, p))
}
/// products of the irreducible factors of each degree, by an independent distinct-degree splitting
fn reference_ddf(f: &[u64], p: u64) -> Vec<FP> {
    let mut f = fp::monic(f, p);
    let mut out = vec![];
    let mut d = 0;
    while f.len() > 1 {
        d += 1;
        // x^(p^d) - x, computed anew for each degree
        let x = fp::divrem(&[0, 1], &f, p).1;
        let mut h = x.clone();
        for _ in 0..d {
            h = fp::powmod(&h, p, &f, p);
        }
        let s = fp::sub(&h, &x, p);
        let gg = fp::gcd(&f, &s, p);
        f = fp::divrem(&f, &gg, p).0;
        out.push(gg);
    }
    out
}
macro_rules! ddf_check {
    ($c:ident, $r:expr, $f:expr, $want:expr) => {{
        let r = $r;
        let p = r.modulus().unwrap();
        let (f, mut want): (FP, Vec<FP>) = ($f, $want);
        let name = name_of(&r);
        $c.note(|| format!("distinct-degree factorization of {:?} over {} ({})", f, name, p));
        let got = hk::distinct_degree_factorization(to_p(&r, &f));
        let mut got: Vec<FP> = got.iter().map(|g| of_p(&r, g)).collect();
        $c.seen("distinct-degree factorizations");
        ensure!($c, !got.is_empty() && got[0] == vec![*f.last().unwrap()], "wrong-constant", "over {} ({}): leading coefficient of {:?} given as {:?}", name, p, f, got.first());
        got.remove(0);
        while got.last() == Some(&vec![1]) {
            got.pop();
        }
        while want.last() == Some(&vec![1]) {
            want.pop();
        }
        ensure!($c, got == want, "wrong-degree-split", "over {} (modulus {}): {:?} splits by degree into {:?}, the code says {:?}", name, p, f, want, got);
        if want.iter().map(|w| w.len() - 1).sum::<usize>() > 1 {
            $c.distinct((p, &f, "d"));
        }
        Ok::<(), Fail>(())
    }};
}
fn name_of<A: Ring>(_: &A) -> &'static str {
    A::NAME
}
fn ddf_any(c: &mut Ctx, plant: bool) -> R {
    let which = c.rng.below(6);
    let p = match which {
        0 => 2,
        1 => 3,
        2 => 5,
        _ => some_prime(&mut c.rng),
    };
    let p = if which == 4 && p == 2 { 7 } else { p };
    let max = if p > 100_000 { 10 } else if p < 300 && c.rng.chance(1, 5) { 32 } else { 16 };
    let (f, want);
    if plant {
        let fs = planted(&mut c.rng, p, max);
        let maxd = fs.iter().map(|f| f.len() - 1).max().unwrap_or(0);
        want = (1..=maxd).map(|d| product(&fs.iter().filter(|f| f.len() == d + 1).cloned().collect::<Vec<_>>(), p)).collect();
        let lc = 1 + c.rng.below(p - 1);
        f = product(&fs, p).iter().map(|&v| fp::mulm(v, lc, p)).collect::<FP>();
    } else {
        let mut h;
        loop {
            let d = c.rng.us(0, max);
            h = fp::trim((0..=d).map(|_| c.rng.below(p)).collect());
            if !h.is_empty() && (h.len() == 1 || fp::gcd(&h, &fp::deriv(&h, p), p).len() == 1) {
                break;
            }
        }
        want = reference_ddf(&h, p);
        f = h;
    }
    match which {
        0 => ddf_check!(c, F2(2), f, want),
        1 => ddf_check!(c, F3(3), f, want),
        2 => ddf_check!(c, F5(5), f, want),
        3 => ddf_check!(c, FPi64(p), f, want),
        4 => ddf_check!(c, FPi32(p), f, want),
        _ => ddf_check!(c, FPbig(p), f, want),
    }
}
/// every square-free polynomial of low degree over F_2, F_3, F_5
fn ddf_exhaustive(c: &mut Ctx, i: u64) -> R {
    for &(p, maxd) in &[(2u64, 8usize), (3, 5), (5, 3)] {
        let n = p.pow(maxd as u32 + 1);
        let mut k = i + 1;
        while k < n {
            let mut f: FP = vec![];
            let mut v = k;
            while v > 0 {
                f.push(v % p);
                v /= p;
            }
            k += 120;
            if f.len() > 1 && fp::gcd(&f, &fp::deriv(&f, p), p).len() != 1 {
                continue;
            }
            let want = reference_ddf(&f, p);
            match p {
                2 => ddf_check!(c, F2(2), f, want)?,
                3 => ddf_check!(c, F3(3), f, want)?,
                _ => ddf_check!(c, FPi64(5), f, want)?,
            }
        }
    }
    Ok(())
}
/// X^n - a, products of all linear polynomials, zero and constants
fn ddf_shapes(c: &mut Ctx, i: u64) -> R {
    let p = some_prime(&mut c.rng);
    let r = FPi64(p);
    if i == 0 {
        let got = hk::distinct_degree_factorization(to_p(&r, &[]));
        ensure!(c, got.len() == 1 && got[0].is_zero(), "zero", "distinct-degree factorization of zero gave {:?}", got);
        return Ok(());
    }
    let f: FP = if p < 32 && c.rng.chance(1, 3) {
        // X^p - X: every linear factor
        let mut f = vec![0; p as usize + 1];
        f[p as usize] = 1;
        f[1] = p - 1;
        f
    } else {
        let n = c.rng.us(1, 12);
        let mut f = vec![0; n + 1];
        f[n] = 1 + c.rng.below(p - 1);
        f[0] = 1 + c.rng.below(p - 1);
        if c.rng.chance(1, 3) {
            f.insert(0, 0);
        }
        f
    };
    if fp::gcd(&f, &fp::deriv(&f, p), p).len() != 1 {
        return Ok(());
    }
    let want = reference_ddf(&f, p);
    ddf_check!(c, r, f, want)
}
macro_rules! sdf_check {
    ($c:ident, $r:expr, $fs:expr, $d:expr) => {{
        let r = $r;
        let p = r.modulus().unwrap();
        let fs: &Vec<FP> = $fs;
        let f = product(fs, p);
        let d: usize = $d;
        $c.note(|| format!("same-degree factorization (degree {}) of {:?} over {} ({})", d, f, name_of(&r), p));
        let mut rng = rand_pcg::Pcg64Mcg::seed_from_u64($c.rng.u64());
        let mut got: Vec<FP> = hk::same_degree_factorization(to_p(&r, &f), d, &mut rng).iter().map(|g| of_p(&r, g)).collect();
        got.sort();
        $c.seen("same-degree factorizations");
        let mut want = fs.clone();
        want.sort();
        ensure!($c, got == want, "wrong-factors", "over {} (modulus {}): {:?} is the product of {:?}, the code says {:?}", name_of(&r), p, f, want, got);
        if want.len() > 1 {
            $c.distinct((p, &f, "s"));
        }
        Ok::<(), Fail>(())
    }};
}
fn sdf_any(c: &mut Ctx, _: u64) -> R {
    let which = c.rng.below(6);
    let p = match which {
        0 => 3,
        1 => 5,
        2 => 13,
        _ => odd_prime(&mut c.rng),
    };
    let d = c.rng.us(1, if p > 100_000 { 3 } else { 5 });
    let cap = if p < 1000 && c.rng.chance(1, 4) { 36 } else { 12 };
    let n = c.rng.us(1, (cap / d).max(1)).min(count_irreducibles(p, d) as usize);
    let mut set = BTreeSet::new();
    while set.len() < n {
        set.insert(rand_irreducible(&mut c.rng, d, p));
    }
    let fs: Vec<FP> = set.into_iter().collect();
    match which {
        0 => sdf_check!(c, F3(3), &fs, d),
        1 => sdf_check!(c, F5(5), &fs, d),
        2 => sdf_check!(c, F13s(13), &fs, d),
        3 => sdf_check!(c, FPi32(p), &fs, d),
        _ => {
            // the same arithmetic with i64 and BigInt residues known to be odd primes
            if c.rng.chance(1, 2) {
                sdf_check!(c, OPi64(p), &fs, d)
            } else {
                sdf_check!(c, OPi128(p), &fs, d)
            }
        }
    }
}

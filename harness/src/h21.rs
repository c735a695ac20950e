//! C21, reached through the guarded hooks of /repo/src/verif_hooks.rs (cfg algebraics_verif="lattices").
#![allow(unused_imports)]
use crate::engine::*;
use crate::ensure;
use crate::poly::{fp, fp::FP};
use crate::real::{self, Fx};
use crate::ring::*;
use crate::rng::Rng;
use algebraics::mod_int::ModularInteger;
use algebraics::polynomial::Polynomial;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::{BigRational as Q, Ratio};
use num_traits::{One, Signed, ToPrimitive, Zero};
use rand::SeedableRng;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::ops::Bound;
use algebraics::verif_hooks::lattices as hk;

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c21")]
    v.push(Prop::new(
            "C21",
            "distinct bases with at least two vectors",
            vec![
                g("reduce-small", 12000, 250000, |c, _| lll_case(c, 3, 12)),
                g("reduce-dependent-free", 4000, 80000, |c, _| lll_case(c, 5, 40)),
                g("reduce-skewed", 4000, 80000, lll_skewed),
                g("reduce-machine", 6000, 100000, lll_machine),
                g("reduce-delta", 6000, 100000, lll_delta),
                g("reduce-large", 150, 4000, |c, _| lll_sized(c, 6, 9, 8)),
                g("reduce-larger", 16, 500, |c, _| lll_sized(c, 11, 14, 4)),
                g("reduce-tall", 400, 8000, lll_tall),
                g("gram-schmidt-large", 400, 8000, |c, _| gs_sized(c, 9, 12)),
                g("gram-schmidt", 20000, 400000, gs_case),
            ],
        ));
    v
}

type Basis = Vec<Vec<BigInt>>;
fn dot(a: &[Q], b: &[Q]) -> Q {
    a.iter().zip(b).fold(Q::zero(), |s, (x, y)| s + x * y)
}
fn qv(v: &[BigInt]) -> Vec<Q> {
    v.iter().map(|x| Q::from_integer(x.clone())).collect()
}
/// classical Gram-Schmidt: (orthogonal vectors, mu)
fn gs(b: &Basis) -> (Vec<Vec<Q>>, Vec<Vec<Q>>) {
    let mut o: Vec<Vec<Q>> = vec![];
    let mut mu = vec![];
    for v in b {
        let v = qv(v);
        let mut w = v.clone();
        let mut m = vec![];
        for u in &o {
            let d = dot(u, u);
            let f = if d.is_zero() { Q::zero() } else { dot(&v, u) / d };
            for (wi, ui) in w.iter_mut().zip(u) {
                *wi -= &f * ui;
            }
            m.push(f);
        }
        o.push(w);
        mu.push(m);
    }
    (o, mu)
}
fn independent(b: &Basis) -> bool {
    gs(b).0.iter().all(|v| v.iter().any(|x| !x.is_zero()))
}
/// integer coordinates of v in the basis b (independent), if v lies in the lattice
fn coords(b: &Basis, v: &[BigInt]) -> Option<Vec<BigInt>> {
    let n = b.len();
    // solve the normal equations
    let mut m: Vec<Vec<Q>> = (0..n)
        .map(|i| {
            let mut row: Vec<Q> = (0..n).map(|j| dot(&qv(&b[i]), &qv(&b[j]))).collect();
            row.push(dot(&qv(&b[i]), &qv(v)));
            row
        })
        .collect();
    for k in 0..n {
        let piv = (k..n).find(|&i| !m[i][k].is_zero())?;
        m.swap(k, piv);
        let inv = m[k][k].recip();
        for x in &mut m[k] {
            *x *= &inv;
        }
        for i in 0..n {
            if i != k && !m[i][k].is_zero() {
                let f = m[i][k].clone();
                let row = m[k].clone();
                for (x, y) in m[i].iter_mut().zip(&row) {
                    *x -= &f * y;
                }
            }
        }
    }
    let u: Vec<Q> = m.iter().map(|r| r[n].clone()).collect();
    if !u.iter().all(|x| x.is_integer()) {
        return None;
    }
    let u: Vec<BigInt> = u.iter().map(|x| x.to_integer()).collect();
    for (y, w) in v.iter().enumerate() {
        let s: BigInt = (0..n).map(|i| &u[i] * &b[i][y]).sum();
        if s != *w {
            return None;
        }
    }
    Some(u)
}
fn check_reduced(c: &mut Ctx, b: &Basis, got: &Basis, delta: &Q) -> R {
    let n = b.len();
    let mut u = vec![];
    for v in got {
        match coords(b, v) {
            Some(x) => u.push(x),
            None => {
                ensure!(c, false, "not-in-lattice", "reduced vector {:?} is not an integer combination of {:?}", v, b);
            }
        }
    }
    let d = crate::poly::det_bareiss(u);
    ensure!(c, d.abs().is_one() || n == 0, "other-lattice", "the reduced basis {:?} of {:?} spans a sublattice of index {}", got, b, d);
    let (o, mu) = gs(got);
    let half = Q::new(1.into(), 2.into());
    for i in 0..n {
        for j in 0..i {
            ensure!(c, mu[i][j].abs() <= half, "not-size-reduced", "vectors {} and {} of {:?} (from {:?}): coefficient {} exceeds 1/2", i, j, got, b, mu[i][j]);
        }
        if i > 0 {
            let m = &mu[i][i - 1];
            ensure!(
                c,
                dot(&o[i], &o[i]) >= (delta - m * m) * dot(&o[i - 1], &o[i - 1]),
                "exchange-condition",
                "vector {} of {:?} (from {:?}) violates the exchange condition for {}",
                i,
                got,
                b,
                delta
            );
        }
    }
    c.seen("reduced bases");
    if n >= 2 {
        c.distinct(format!("{:?}{}", b, delta));
    }
    Ok(())
}
fn flat(b: &Basis) -> Vec<BigInt> {
    b.iter().flatten().cloned().collect()
}
fn unflat(n: usize, y: usize, d: Vec<BigInt>) -> Basis {
    (0..n).map(|i| d[i * y..(i + 1) * y].to_vec()).collect()
}
fn rand_basis(r: &mut Rng, max_n: usize, m: i64) -> Basis {
    loop {
        let n = r.us(1, max_n);
        let y = n + r.us(0, 2);
        let m = if r.chance(1, 4) { 1 + m / 4 } else { m };
        let b: Basis = (0..n).map(|_| (0..y).map(|_| r.small(m).into()).collect()).collect();
        if independent(&b) {
            return b;
        }
    }
}
fn run_lll(c: &mut Ctx, b: &Basis, delta: Option<Q>) -> R {
    let (n, y) = (b.len(), b.first().map_or(0, |v| v.len()));
    c.note(|| format!("reduce {:?} (delta {:?})", b, delta.as_ref().map(|d| d.to_string())));
    let got = unflat(n, y, hk::lll_reduce(n, y, flat(b), delta.clone()));
    check_reduced(c, b, &got, &delta.unwrap_or_else(|| Q::new(3.into(), 4.into())))
}
fn lll_case(c: &mut Ctx, n: usize, m: i64) -> R {
    let b = rand_basis(&mut c.rng, n, m);
    run_lll(c, &b, None)
}
fn lll_sized(c: &mut Ctx, lo: usize, hi: usize, m: i64) -> R {
    let b = loop {
        let b = rand_basis(&mut c.rng, hi, m);
        if b.len() >= lo {
            break b;
        }
    };
    c.seen("large bases");
    let d = *c.rng.pick(&[None, None, Some((1i64, 2i64)), Some((9, 10))]);
    run_lll(c, &b, d.map(|(p, q)| Q::new(p.into(), q.into())))
}
/// entries of hundreds of bits
fn lll_tall(c: &mut Ctx, _: u64) -> R {
    let r = &mut c.rng;
    let b = loop {
        let n = r.us(2, 3);
        let bits = *r.pick(&[64usize, 65, 130, 300]);
        let b: Basis = if r.chance(1, 3) {
            // nearly parallel vectors
            let v: Vec<BigInt> = (0..n).map(|_| r.big(bits)).collect();
            (0..n).map(|_| v.iter().map(|x| x + r.small(3)).collect()).collect()
        } else {
            (0..n).map(|_| (0..n).map(|_| r.big(bits)).collect()).collect()
        };
        if independent(&b) {
            break b;
        }
    };
    run_lll(c, &b, None)
}
fn lll_delta(c: &mut Ctx, _: u64) -> R {
    let b = rand_basis(&mut c.rng, 4, 12);
    let d = match c.rng.below(6) {
        0 => Q::new(1.into(), 2.into()),
        1 => Q::new(26.into(), 100.into()),
        2 => Q::new(99.into(), 100.into()),
        3 => Q::one(),
        4 => Q::new(9999.into(), 10000.into()),
        _ => Q::new(c.rng.int(26, 100).into(), 100.into()),
    };
    run_lll(c, &b, Some(d))
}
/// bases scrambled by many row operations, large entries, knapsack-type bases
fn lll_skewed(c: &mut Ctx, _: u64) -> R {
    let r = &mut c.rng;
    let b = match r.below(3) {
        0 => {
            let mut b = rand_basis(r, 4, 3);
            let n = b.len();
            if n > 1 {
                for _ in 0..r.us(2, 20) {
                    let (i, j) = (r.us(0, n - 1), r.us(0, n - 1));
                    if i != j {
                        let k = r.small(5);
                        for y in 0..b[0].len() {
                            let v = &b[j][y] * k;
                            b[i][y] += v;
                        }
                    }
                }
            }
            b
        }
        1 => {
            let n = r.us(2, 4);
            let big = r.us(10, 60);
            (0..n)
                .map(|i| {
                    let mut v: Vec<BigInt> = (0..n).map(|j| BigInt::from((i == j) as i32)).collect();
                    v.push(r.big_nz(big));
                    v
                })
                .collect()
        }
        _ => loop {
            let n = r.us(2, 4);
            let b: Basis = (0..n).map(|_| (0..n).map(|_| r.big(40)).collect()).collect();
            if independent(&b) {
                break b;
            }
        },
    };
    run_lll(c, &b, None)
}
fn lll_machine(c: &mut Ctx, _: u64) -> R {
    let b = rand_basis(&mut c.rng, 3, 9);
    let (n, y) = (b.len(), b[0].len());
    c.note(|| format!("reduce {:?} in i128", b));
    let d: Vec<i128> = flat(&b).iter().map(|v| v.to_i128().unwrap()).collect();
    let got = hk::lll_reduce(n, y, d, None);
    let got = unflat(n, y, got.into_iter().map(BigInt::from).collect());
    check_reduced(c, &b, &got, &Q::new(3.into(), 4.into()))
}
fn gs_case(c: &mut Ctx, _: u64) -> R {
    gs_sized(c, 5, 6)
}
fn gs_sized(c: &mut Ctx, max_n: usize, max_y: usize) -> R {
    let n = c.rng.us(0, max_n);
    let y = c.rng.us(0, max_y);
    let m = *c.rng.pick(&[1, 2, 10, 1000]);
    let mut b: Basis = (0..n).map(|_| (0..y).map(|_| c.rng.small(m).into()).collect()).collect();
    // dependent vectors: a combination of earlier ones
    if n >= 2 && c.rng.chance(1, 2) {
        let k = c.rng.us(1, n - 1);
        let v: Vec<BigInt> = (0..y).map(|t| (0..k).map(|i| &b[i][t] * (i as i64 % 3 - 1)).sum()).collect();
        b[k] = v;
    }
    c.note(|| format!("orthogonalise {:?}", b));
    let got = hk::gram_schmidt(n, y, flat(&b));
    let (o, _) = gs(&b);
    let want: Vec<Q> = o.into_iter().flatten().collect();
    c.seen("orthogonalisations");
    ensure!(c, got == want, "wrong-orthogonal-basis", "orthogonalising {:?} gave {:?}, exact result {:?}", b, got, want);
    if n <= 3 && m <= 10 {
        let d: Vec<i128> = flat(&b).iter().map(|v| v.to_i128().unwrap()).collect();
        let g2: Vec<Q> = hk::gram_schmidt(n, y, d).into_iter().map(|r: Ratio<i128>| Q::new((*r.numer()).into(), (*r.denom()).into())).collect();
        ensure!(c, g2 == want, "wrong-orthogonal-basis", "orthogonalising {:?} in i128 gave {:?}, exact result {:?}", b, g2, want);
    }
    if n >= 2 && y > 0 {
        c.distinct(format!("g{:?}", b));
    }
    Ok(())
}

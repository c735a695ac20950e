//! Properties of modular integers, the integer traits and the prime / sign utilities.
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use algebraics::{
    mod_int::*,
    traits::*,
    util::{is_prime_u32, next_prime_i32, next_prime_u32, prev_prime_i32, prev_prime_u32, Sign},
};
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::{BigRational as Q, Ratio};
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, Signed, ToPrimitive, Zero};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

pub trait Int: Clone + Eq + Ord + Debug + Display + Hash + 'static {
    const NAME: &'static str;
    fn of(v: &BigInt) -> Option<Self>;
    fn big(&self) -> BigInt;
    fn top() -> Option<BigInt>;
    fn bot() -> Option<BigInt>;
    fn signed() -> bool {
        Self::bot().map_or(true, |v| v.is_negative())
    }
    /// any value of the type, boundaries favoured
    fn any(r: &mut Rng) -> BigInt {
        let v = match (Self::top(), Self::bot()) {
            (Some(hi), Some(lo)) => match r.below(6) {
                0 => &hi - r.below(4),
                1 => &lo + r.below(4),
                2 => BigInt::from(r.small(9)),
                _ => {
                    let v = r.big(hi.bits() as usize + 1);
                    v.mod_floor(&(&hi - &lo + 1)) + &lo
                }
            },
            _ => r.big(200),
        };
        match Self::of(&v) {
            Some(_) => v,
            None => v.abs(),
        }
    }
    fn modulus(r: &mut Rng) -> BigInt {
        let v = match (r.below(8), Self::top()) {
            (0, _) => BigInt::from(r.int(1, 12)),
            (1, _) => BigInt::from(*r.pick(&[2u8, 3, 5, 7, 11, 13, 97, 101, 113, 127])),
            (2, Some(m)) => m - r.below(6),
            (3, Some(m)) => (m >> 1u32) + BigInt::from(r.int(-2, 3)),
            (4, Some(m)) => BigInt::one() << r.below(m.bits()),
            _ => Self::any(r).abs(),
        };
        if v.is_positive() && Self::of(&v).is_some() {
            v
        } else {
            BigInt::from(7)
        }
    }
}
macro_rules! prim {
    ($($t:ident $to:ident),*) => {$(
        impl Int for $t {
            const NAME: &'static str = stringify!($t);
            fn of(v: &BigInt) -> Option<Self> { v.$to() }
            fn big(&self) -> BigInt { BigInt::from(*self) }
            fn top() -> Option<BigInt> { Some(BigInt::from($t::MAX)) }
            fn bot() -> Option<BigInt> { Some(BigInt::from($t::MIN)) }
        }
    )*};
}
prim!(i8 to_i8, u8 to_u8, i16 to_i16, u16 to_u16, i32 to_i32, u32 to_u32, i64 to_i64, u64 to_u64, i128 to_i128, u128 to_u128, isize to_isize, usize to_usize);
impl Int for BigInt {
    const NAME: &'static str = "BigInt";
    fn of(v: &BigInt) -> Option<Self> {
        Some(v.clone())
    }
    fn big(&self) -> BigInt {
        self.clone()
    }
    fn top() -> Option<BigInt> {
        None
    }
    fn bot() -> Option<BigInt> {
        None
    }
}
impl Int for BigUint {
    const NAME: &'static str = "BigUint";
    fn of(v: &BigInt) -> Option<Self> {
        v.to_biguint()
    }
    fn big(&self) -> BigInt {
        self.clone().into()
    }
    fn top() -> Option<BigInt> {
        None
    }
    fn bot() -> Option<BigInt> {
        Some(BigInt::zero())
    }
}
#[macro_export]
macro_rules! each {
    ($f:ident, $c:expr, [$($t:ident),*]) => {{
        let fs: &[fn(&mut Ctx) -> R] = &[$($f::<$t>),*];
        let k = $c.rng.below(fs.len() as u64) as usize;
        fs[k]($c)
    }};
    ($f:ident, $c:expr) => { each!($f, $c, [i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigInt, BigUint]) };
    (signed $f:ident, $c:expr) => { each!($f, $c, [i8, i16, i32, i64, i128, isize, BigInt, BigInt]) };
}

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c18")]
    v.push(Prop::new(
            "C18",
            "distinct (value type, modulus, operands) with modulus greater than one, recomputed with big integers",
            vec![
                g("ring", 150000, 3000000, |c, _| each!(ring_any, c)),
                g("division", 120000, 2500000, |c, _| each!(signed division_any, c)),
                g("powers", 80000, 1500000, |c, _| each!(powers, c)),
                g("conversions", 80000, 1500000, |c, _| each!(conversions, c)),
                g("raw-values", 60000, 1200000, |c, _| each!(raw, c)),
                g("static-moduli", 40000, 800000, statics),
                g("exhaustive-small", 256, 256, exhaustive_small),
                g("mismatched", 20000, 300000, |c, _| each!(mismatched, c)),
                g("chains", 20000, 400000, |c, _| each!(signed chains, c)),
            ],
        ));
    #[cfg(feature = "c19")]
    v.push(Prop::new(
            "C19",
            "distinct (type, operands) whose gcd, logarithm or quotient was recomputed",
            vec![
                g("exhaustive-8-bit", 256, 256, exhaustive8),
                g("gcd", 150000, 3000000, |c, _| each!(gcds, c)),
                g("extended-gcd", 100000, 2000000, |c, _| each!(signed ext_gcds, c)),
                g("gcd-ratio", 60000, 1200000, gcd_ratio),
                g("log2", 200000, 4000000, |c, _| each!(logs, c)),
                g("exact-division", 150000, 3000000, |c, _| each!(exact, c)),
                g("exact-division-ratio", 60000, 1000000, exact_ratio),
                g("characteristic", 200, 2000, characteristic),
            ],
        ));
    #[cfg(feature = "c20")]
    v.push(Prop::new(
            "C20",
            "distinct numbers tested for primality or searched from, and sign combinations",
            vec![
                g("exhaustive-low", 256, 4096, primes_low),
                g("sieved-ranges", 64, 4096, |c, i| {
                    // thorough: every 32-bit number; quick: a seeded choice of 64 of the 4096 ranges
                    let k = if c.thorough { i } else { i * 64 + c.rng.below(64) };
                    sieved(c, k)
                }),
                g("high", 4000, 60000, primes_high),
                g("prime-squares", 6542, 6542, primes_squares),
                g("record-gaps", 1, 1, record_gaps),
                g("random", 60000, 1200000, primes_random),
                g("signs", 64, 64, signs),
            ],
        ));
    v
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- C18
fn residue(r: &mut Rng, m: &BigInt) -> BigInt {
    let v = match r.below(6) {
        0 => BigInt::from(r.below(3)),
        1 => m - 1 - r.below(3),
        2 => (m >> 1u32) + BigInt::from(r.int(-1, 1)),
        _ => r.big(m.bits() as usize + 1),
    };
    v.mod_floor(m)
}
fn eqm<V: Int, M: Clone + Eq + Debug + Hash>(c: &mut Ctx, what: &str, got: &ModularInteger<V, M>, want: &BigInt, m: &M, big: &BigInt) -> R {
    ensure!(c, got.value().big() == *want, "wrong-residue", "{} modulo {} in {}: got {}, exact residue is {}", what, big, V::NAME, got.value(), want);
    ensure!(c, got.modulus() == m, "modulus-changed", "{}: the result's modulus is {:?}, the operands' {:?}", what, got.modulus(), m);
    Ok(())
}
trait Vals: Int + ModularReduce {}
impl<T: Int + ModularReduce> Vals for T {}

fn ring_any<V: Vals + Modulus<V>>(c: &mut Ctx) -> R {
    let m = V::modulus(&mut c.rng);
    let mv = V::of(&m).unwrap();
    if c.rng.chance(1, 4) {
        ring_m(c, KnownPrime::new_unsafe(mv), &m)
    } else {
        ring_m(c, mv, &m)
    }
}
fn ring_m<V: Vals, M: Modulus<V> + Debug + Hash>(c: &mut Ctx, m: M, big: &BigInt) -> R {
    let a0 = V::any(&mut c.rng);
    let b0 = if c.rng.chance(1, 2) { residue(&mut c.rng, big) } else { V::any(&mut c.rng) };
    if big > &BigInt::one() {
        c.distinct((V::NAME, big, &a0, &b0));
    }
    c.seen(V::NAME);
    c.note(|| format!("{} modulo {} in {}: {} and {}", "ring operations", big, V::NAME, a0, b0));
    let (a, b) = (a0.mod_floor(big), b0.mod_floor(big));
    let x = ModularInteger::new(V::of(&a0).unwrap(), m.clone());
    let y = ModularInteger::from((V::of(&b0).unwrap(), m.clone()));
    eqm(c, "new", &x, &a, &m, big)?;
    eqm(c, "from a pair", &y, &b, &m, big)?;
    macro_rules! forms {
        ($op:tt, $ass:tt, $ch:ident, $w:expr) => {{
            let w: BigInt = $w;
            let w = w.mod_floor(big);
            eqm(c, concat!("a ", stringify!($op), " b"), &(x.clone() $op y.clone()), &w, &m, big)?;
            eqm(c, concat!("&a ", stringify!($op), " b"), &(&x $op y.clone()), &w, &m, big)?;
            eqm(c, concat!("a ", stringify!($op), " &b"), &(x.clone() $op &y), &w, &m, big)?;
            eqm(c, concat!("&a ", stringify!($op), " &b"), &(&x $op &y), &w, &m, big)?;
            let mut t = x.clone();
            t $ass y.clone();
            eqm(c, concat!("a ", stringify!($ass), " b"), &t, &w, &m, big)?;
            let mut t = x.clone();
            t $ass &y;
            eqm(c, concat!("a ", stringify!($ass), " &b"), &t, &w, &m, big)?;
            match x.$ch(&y) {
                Some(v) => eqm(c, stringify!($ch), &v, &w, &m, big)?,
                None => ensure!(c, false, "refused", "{} refused matching moduli", stringify!($ch)),
            }
        }};
    }
    forms!(+, +=, checked_add, &a + &b);
    forms!(-, -=, checked_sub, &a - &b);
    forms!(*, *=, checked_mul, &a * &b);
    let w = (-&a).mod_floor(big);
    eqm(c, "-a", &-x.clone(), &w, &m, big)?;
    eqm(c, "-&a", &-&x, &w, &m, big)?;
    let mut t = x.clone();
    t.neg_assign();
    eqm(c, "neg_assign", &t, &w, &m, big)?;
    // operands unchanged, equality and hash by residue
    eqm(c, "operand a afterwards", &x, &a, &m, big)?;
    eqm(c, "operand b afterwards", &y, &b, &m, big)?;
    ensure!(c, (x == y) == (a == b), "equality", "{} == {} modulo {} is {}", a0, b0, big, x == y);
    if x == y {
        ensure!(c, hash(&x) == hash(&y), "hash", "equal values {} and {} modulo {} hash differently", a0, b0, big);
    }
    ensure!(c, x.has_matching_moduli(&y), "matching", "the same modulus does not match");
    let (v, mm): (V, M) = x.clone().into();
    ensure!(c, v.big() == a && mm == m, "into-pair", "conversion into a pair gives {:?}", v);
    Ok(())
}
pub fn division_any<V: Vals + Modulus<V> + One + Zero + GCD<Output = V> + ExtendedGCD + Integer>(c: &mut Ctx) -> R {
    let m = V::modulus(&mut c.rng);
    let mv = V::of(&m).unwrap();
    if c.rng.chance(1, 4) {
        division_m(c, KnownOddPrime::new_odd_prime_unsafe(mv), &m)
    } else {
        division_m(c, mv, &m)
    }
}
fn division_m<V: Vals + One + Zero + GCD<Output = V> + ExtendedGCD, M: Modulus<V> + Debug + Hash>(c: &mut Ctx, m: M, big: &BigInt) -> R {
    let a = residue(&mut c.rng, big);
    let mut b = residue(&mut c.rng, big);
    if c.rng.chance(1, 5) {
        // shares a factor with the modulus
        b = (b * BigInt::from(*c.rng.pick(&[2u8, 3, 4, 5, 6, 9]))).mod_floor(big);
    }
    c.note(|| format!("{} / {} modulo {} in {}", a, b, big, V::NAME));
    if big > &BigInt::one() {
        c.distinct((V::NAME, big, &a, &b));
    }
    let x = ModularInteger::new(V::of(&a).unwrap(), m.clone());
    let y = ModularInteger::new(V::of(&b).unwrap(), m.clone());
    let invertible = !b.is_zero() && Integer::gcd(&b, big).is_one();
    let inv = y.checked_inverse();
    ensure!(c, inv.is_some() == invertible, "invertible", "checked_inverse of {} modulo {} in {}: {:?}", b, big, V::NAME, inv);
    let cd = x.checked_div(&y);
    let ced: [Option<ModularInteger<V, M>>; 4] = [x.clone().checked_exact_div(y.clone()), x.clone().checked_exact_div(&y), (&x).checked_exact_div(y.clone()), (&x).checked_exact_div(&y)];
    match inv {
        None => {
            c.seen("no-inverse");
            ensure!(c, cd.is_none() && ced.iter().all(|v| v.is_none()), "div-by-non-unit", "dividing {} by {} modulo {} gives {:?} / {:?}", a, b, big, cd, ced);
            let mut t = x.clone();
            ensure!(c, t.checked_exact_div_assign(&y).is_err() && t == x, "failed-assign", "failed checked_exact_div_assign of {} by {} modulo {} leaves {:?}", a, b, big, t);
            let mut t = x.clone();
            ensure!(c, t.checked_exact_div_assign(y.clone()).is_err() && t == x, "failed-assign", "failed checked_exact_div_assign of {} by {} modulo {} leaves {:?}", a, b, big, t);
            ensure!(c, catch(|| &x / &y).is_err() && catch(|| y.inverse()).is_err(), "div-by-non-unit", "{} / {} modulo {} gives an answer", a, b, big);
        }
        Some(i) => {
            c.seen("inverse");
            let iv = i.value().big();
            ensure!(c, !iv.is_negative() && iv < *big && (&iv * &b).mod_floor(big).is_one(), "inverse", "inverse of {} modulo {} in {} is {}", b, big, V::NAME, iv);
            eqm(c, "inverse", &y.inverse(), &iv, &m, big)?;
            let w = (&a * &iv).mod_floor(big);
            eqm(c, "a / b", &(x.clone() / y.clone()), &w, &m, big)?;
            eqm(c, "a / &b", &(x.clone() / &y), &w, &m, big)?;
            eqm(c, "&a / b", &(&x / y.clone()), &w, &m, big)?;
            eqm(c, "&a / &b", &(&x / &y), &w, &m, big)?;
            let mut t = x.clone();
            t /= y.clone();
            eqm(c, "a /= b", &t, &w, &m, big)?;
            let mut t = x.clone();
            t /= &y;
            eqm(c, "a /= &b", &t, &w, &m, big)?;
            match cd {
                Some(v) => eqm(c, "checked_div", &v, &w, &m, big)?,
                None => ensure!(c, false, "refused", "checked_div of {} by {} modulo {} refused", a, b, big),
            }
            for v in ced.iter() {
                match v {
                    Some(v) => eqm(c, "checked_exact_div", v, &w, &m, big)?,
                    None => ensure!(c, false, "refused", "checked_exact_div of {} by {} modulo {} refused", a, b, big),
                }
            }
            eqm(c, "exact_div", &(&x).exact_div(&y), &w, &m, big)?;
            eqm(c, "exact_div (moved)", &x.clone().exact_div(y.clone()), &w, &m, big)?;
            let mut t = x.clone();
            t.exact_div_assign(&y);
            eqm(c, "exact_div_assign", &t, &w, &m, big)?;
            let mut t = x.clone();
            ensure!(c, t.checked_exact_div_assign(&y).is_ok(), "refused", "checked_exact_div_assign refused");
            eqm(c, "checked_exact_div_assign", &t, &w, &m, big)?;
        }
    }
    Ok(())
}
fn powers<V: Vals + Modulus<V> + ModularReducePow<usize> + ModularReducePow<u8> + ModularReducePow<u64> + ModularReducePow<BigUint>>(c: &mut Ctx) -> R {
    let m = V::modulus(&mut c.rng);
    let mv = V::of(&m).unwrap();
    let b = if c.rng.chance(1, 3) { residue(&mut c.rng, &m) } else { V::any(&mut c.rng) };
    let bv = V::of(&b).unwrap();
    let e = match c.rng.below(6) {
        0 => BigInt::from(c.rng.below(4)),
        1 => BigInt::from(c.rng.below(256)),
        2 => BigInt::from(c.rng.u64()),
        3 => BigInt::from(u64::MAX - c.rng.below(3)),
        4 => BigInt::from(1u64 << c.rng.below(64)),
        _ => c.rng.big(150).abs(),
    };
    c.note(|| format!("{} ^ {} modulo {} in {}", b, e, m, V::NAME));
    if m > BigInt::one() {
        c.distinct((V::NAME, &m, &b, &e));
    }
    c.seen(if e.is_zero() { "exponent-zero" } else if m.is_one() { "modulus-one" } else { "power" });
    // square and multiply, from the top bit
    let mut w = BigInt::one().mod_floor(&m);
    for i in (0..e.bits()).rev() {
        w = (&w * &w).mod_floor(&m);
        if e.bit(i) {
            w = (&w * &b).mod_floor(&m);
        }
    }
    let big = BigUint::of(&e).unwrap();
    let v = bv.pow_modular_reduce(&big, &mv);
    ensure!(c, v.big() == w, "power", "{} ^ {} modulo {} in {} with a big exponent: {}, exact {}", b, e, m, V::NAME, v, w);
    if let Some(k) = e.to_u64() {
        let v = bv.pow_modular_reduce(&k, &mv);
        ensure!(c, v.big() == w, "power", "{} ^ {} modulo {} in {} with a u64 exponent: {}, exact {}", b, e, m, V::NAME, v, w);
        let v = bv.pow_modular_reduce(&(k as usize), &mv);
        ensure!(c, v.big() == w, "power", "{} ^ {} modulo {} in {} with a usize exponent: {}, exact {}", b, e, m, V::NAME, v, w);
    }
    if let Some(k) = e.to_u8() {
        let v = bv.pow_modular_reduce(&k, &mv);
        ensure!(c, v.big() == w, "power", "{} ^ {} modulo {} in {} with a u8 exponent: {}, exact {}", b, e, m, V::NAME, v, w);
    }
    Ok(())
}
fn conversions<V: Vals + Modulus<V>>(c: &mut Ctx) -> R {
    let big = V::modulus(&mut c.rng);
    let m = V::of(&big).unwrap();
    macro_rules! from {
        ($($t:ident $f:ident),*) => {$({
            let v = <$t as Int>::any(&mut c.rng);
            let got = ModularInteger::<V, V>::$f(<$t as Int>::of(&v).unwrap(), m.clone());
            c.distinct((V::NAME, stringify!($t), &big, &v));
            c.note(|| format!("{}({}) modulo {} in {}", stringify!($f), v, big, V::NAME));
            eqm(c, stringify!($f), &got, &v.mod_floor(&big), &m, &big)?;
        })*};
    }
    from!(u8 from_u8, i8 from_i8, u16 from_u16, i16 from_i16, u32 from_u32, i32 from_i32, u64 from_u64, i64 from_i64, u128 from_u128, i128 from_i128, usize from_usize, isize from_isize);
    let v = c.rng.big(260);
    eqm(c, "from_bigint", &ModularInteger::<V, V>::from_bigint(&v, m.clone()), &v.mod_floor(&big), &m, &big)?;
    let v = v.abs();
    eqm(c, "from_biguint", &ModularInteger::<V, V>::from_biguint(&v.to_biguint().unwrap(), m.clone()), &v.mod_floor(&big), &m, &big)?;
    let x = ModularInteger::<V, V>::from_biguint(&v.to_biguint().unwrap(), m.clone());
    let text = format!("{}", x);
    ensure!(c, text == format!("mod_int({}, {})", v.mod_floor(&big), big), "text", "text form {}", text);
    Ok(())
}
/// the operations on bare reduced values
fn raw<V: Vals + Modulus<V>>(c: &mut Ctx) -> R {
    let m = V::modulus(&mut c.rng);
    let mv = V::of(&m).unwrap();
    let (a, b) = (residue(&mut c.rng, &m), residue(&mut c.rng, &m));
    let u = V::any(&mut c.rng);
    c.note(|| format!("raw operations on {} and {} modulo {} in {}", a, b, m, V::NAME));
    if m > BigInt::one() {
        c.distinct((V::NAME, &m, &a, &b));
    }
    let (x, y) = (V::of(&a).unwrap(), V::of(&b).unwrap());
    macro_rules! forms {
        ($w:expr, $rr:ident $rm:ident $mr:ident $mm:ident $ra:ident $ma:ident) => {{
            let w: BigInt = $w;
            let w = w.mod_floor(&m);
            let mut t1 = x.clone();
            t1.$ra(&y, &mv);
            let mut t2 = x.clone();
            t2.$ma(y.clone(), &mv);
            for (k, v) in [x.$rr(&y, &mv), x.$rm(y.clone(), &mv), x.clone().$mr(&y, &mv), x.clone().$mm(y.clone(), &mv), t1, t2].iter().enumerate() {
                ensure!(c, v.big() == w, "wrong-residue", "{} form {} of {} and {} modulo {} in {}: {}", stringify!($rr), k, a, b, m, V::NAME, v);
            }
        }};
    }
    forms!(&a + &b, modular_add_ref_ref modular_add_ref_move modular_add_move_ref modular_add_move_move modular_add_ref_assign modular_add_move_assign);
    forms!(&a - &b, modular_sub_ref_ref modular_sub_ref_move modular_sub_move_ref modular_sub_move_move modular_sub_ref_assign modular_sub_move_assign);
    forms!(&a * &b, modular_mul_ref_ref modular_mul_ref_move modular_mul_move_ref modular_mul_move_move modular_mul_ref_assign modular_mul_move_assign);
    let w = (-&a).mod_floor(&m);
    let mut t = x.clone();
    t.modular_neg_assign(&mv);
    ensure!(c, x.modular_neg_ref(&mv).big() == w && x.clone().modular_neg_move(&mv).big() == w && t.big() == w, "wrong-residue", "negation of {} modulo {} in {}", a, m, V::NAME);
    let w = u.mod_floor(&m);
    let uv = V::of(&u).unwrap();
    let mut t = uv.clone();
    t.modular_reduce_assign(&mv);
    ensure!(c, uv.clone().modular_reduce(&mv).big() == w && t.big() == w, "wrong-residue", "reduction of {} modulo {} in {}", u, m, V::NAME);
    // modulus zero means no reduction
    if let Some(z) = V::of(&BigInt::zero()) {
        let mut t = uv.clone();
        t.modular_reduce_assign(&z);
        ensure!(c, uv.clone().modular_reduce(&z) == uv && t == uv, "modulus-zero", "reducing {} modulo zero in {} changes it", u, V::NAME);
    }
    Ok(())
}
fn is_prime_small(n: u64) -> bool {
    n > 1 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}
fn statics(c: &mut Ctx, _: u64) -> R {
    macro_rules! one {
        ($m:ident, $n:expr, [$($t:ident),*]) => {{
            let n = BigInt::from($n as u8);
            $({
                ensure!(c, <$m as StaticModulus<$t>>::get_modulus().big() == n && <$m as Modulus<$t>>::to_modulus(&$m).big() == n && <$m as Modulus<$t>>::into_modulus($m).big() == n, "static-modulus", "{} over {}", stringify!($m), stringify!($t));
                ensure!(c, <KnownPrime<$m> as StaticModulus<$t>>::get_modulus().big() == n && <KnownOdd<$m> as StaticModulus<$t>>::get_modulus().big() == n, "static-modulus", "wrapped {} over {}", stringify!($m), stringify!($t));
                ring_m::<$t, $m>(c, $m, &n)?;
            })*
            ensure!(c, format!("{}", $m) == format!("{}", $n) && format!("{}", KnownPrime::new_unsafe($m)) == format!("{}", $n) && format!("{}", KnownOdd::new_unsafe($m)) == format!("{}", $n), "text", "text of {}", stringify!($m));
            division_m::<i32, $m>(c, $m, &n)?;
            division_m::<i8, $m>(c, $m, &n)?;
            division_m::<BigInt, $m>(c, $m, &n)?;
        }};
    }
    macro_rules! pp {
        ($($m:ident $n:expr),*) => {$({
            let v = PrimePowerModulus::<i32>::base_and_exponent(&$m);
            let u = PrimePowerModulus::<BigUint>::base_and_exponent(&$m);
            ensure!(c, is_prime_small(v.base as u64) && (v.base as u64).pow(v.exponent as u32) == $n && u.base.big() == BigInt::from(v.base) && u.exponent == v.exponent, "prime-power", "base and exponent of {}: {:?}", stringify!($m), v);
        })*};
    }
    macro_rules! dispatch {
        ($($m:ident $n:expr),*) => {{
            let k = c.rng.below(16) + 1;
            match k {
                $($n => one!($m, $n, [i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint]),)*
                _ => unreachable!(),
            }
        }};
    }
    dispatch!(Mod1 1, Mod2 2, Mod3 3, Mod4 4, Mod5 5, Mod6 6, Mod7 7, Mod8 8, Mod9 9, Mod10 10, Mod11 11, Mod12 12, Mod13 13, Mod14 14, Mod15 15, Mod16 16);
    pp!(Mod2 2, Mod3 3, Mod4 4, Mod5 5, Mod7 7, Mod8 8, Mod9 9, Mod11 11, Mod13 13, Mod16 16);
    let p = *c.rng.pick(&[3i32, 5, 7, 101, 65537]);
    let k = KnownOddPrime::new_odd_prime_unsafe(p);
    let b = PrimePowerModulus::<i32>::base_and_exponent(&k);
    ensure!(c, b.base == p && b.exponent == 1 && k.unwrap().unwrap() == p && **k == p, "prime-power", "known prime {}: {:?}", p, b);
    Ok(())
}
/// every pair of residues of every 8-bit modulus
fn exhaustive_small(c: &mut Ctx, i: u64) -> R {
    let m = i as u32;
    if m == 0 {
        return Ok(());
    }
    c.note(|| format!("all residues modulo {}", m));
    c.distinct(("all", m));
    for a in 0..m {
        let x = ModularInteger::new(a as u8, m as u8);
        let w = ((m - a) % m) as u8;
        ensure!(c, *(-x).value() == w, "wrong-residue", "-{} modulo {} (u8)", a, m);
        for b in 0..m {
            let y = ModularInteger::new(b as u8, m as u8);
            let ok = *(x + y).value() as u32 == (a + b) % m && *(x - y).value() as u32 == (a + m - b) % m && *(x * y).value() as u32 == a * b % m;
            ensure!(c, ok, "wrong-residue", "{} and {} modulo {} (u8): {} {} {}", a, b, m, x + y, x - y, x * y);
            if m < 128 {
                let (x, y) = (ModularInteger::new(a as i8, m as i8), ModularInteger::new(b as i8, m as i8));
                let ok = *(x + y).value() as u32 == (a + b) % m && *(x - y).value() as u32 == (a + m - b) % m && *(x * y).value() as u32 == a * b % m;
                ensure!(c, ok, "wrong-residue", "{} and {} modulo {} (i8)", a, b, m);
            }
        }
        if m < 128 {
            let x = ModularInteger::new(a as i8, m as i8);
            let unit = a != 0 && Integer::gcd(&a, &m) == 1;
            let inv = x.checked_inverse();
            ensure!(c, inv.is_some() == unit && inv.map_or(true, |i| (0..m as i8).contains(i.value()) && *i.value() as u32 * a % m == 1), "inverse", "inverse of {} modulo {} (i8): {:?}", a, m, inv);
        }
    }
    Ok(())
}
pub fn mismatched<V: Vals + Modulus<V>>(c: &mut Ctx) -> R {
    let (m, n) = (V::modulus(&mut c.rng), V::modulus(&mut c.rng));
    if m == n {
        return Ok(());
    }
    let x = ModularInteger::new(V::of(&residue(&mut c.rng, &m)).unwrap(), V::of(&m).unwrap());
    let y = ModularInteger::new(V::of(&residue(&mut c.rng, &n)).unwrap(), V::of(&n).unwrap());
    c.distinct((V::NAME, &m, &n, x.value().big()));
    c.note(|| format!("{} with {}", x, y));
    ensure!(c, !x.has_matching_moduli(&y) && x != y, "matching", "{} matches {}", x, y);
    ensure!(c, x.checked_add(&y).is_none() && x.checked_sub(&y).is_none() && x.checked_mul(&y).is_none(), "mixed-moduli", "checked operations combine {} with {}", x, y);
    ensure!(c, catch(|| &x + &y).is_err() && catch(|| &x - &y).is_err() && catch(|| &x * &y).is_err() && catch(|| x.clone() + y.clone()).is_err() && catch(|| x.clone() - y.clone()).is_err() && catch(|| x.clone() * y.clone()).is_err(), "mixed-moduli", "operators combine {} with {}", x, y);
    ensure!(c, catch(|| x.clone() + &y).is_err() && catch(|| x.clone() - &y).is_err() && catch(|| x.clone() * &y).is_err() && catch(|| &x + y.clone()).is_err() && catch(|| &x - y.clone()).is_err() && catch(|| &x * y.clone()).is_err(), "mixed-moduli", "operators combine {} with {}", x, y);
    ensure!(
        c,
        catch(|| { let mut t = x.clone(); t += &y; }).is_err() && catch(|| { let mut t = x.clone(); t -= &y; }).is_err() && catch(|| { let mut t = x.clone(); t *= &y; }).is_err()
            && catch(|| { let mut t = x.clone(); t += y.clone(); }).is_err() && catch(|| { let mut t = x.clone(); t -= y.clone(); }).is_err() && catch(|| { let mut t = x.clone(); t *= y.clone(); }).is_err(),
        "mixed-moduli", "assigning operators combine {} with {}", x, y
    );
    Ok(())
}
/// long histories of operations, the residue followed exactly
fn chains<V: Vals + Modulus<V> + One + Zero + GCD<Output = V> + ExtendedGCD>(c: &mut Ctx) -> R {
    let big = V::modulus(&mut c.rng);
    let m = V::of(&big).unwrap();
    let mut x = ModularInteger::new(V::of(&residue(&mut c.rng, &big)).unwrap(), m.clone());
    let mut w = x.value().big();
    c.distinct((V::NAME, &big, &w));
    for step in 0..30 {
        let b = residue(&mut c.rng, &big);
        let y = ModularInteger::new(V::of(&b).unwrap(), m.clone());
        let k = c.rng.below(6);
        match k {
            0 => { x += &y; w = (&w + &b).mod_floor(&big) }
            1 => { x -= &y; w = (&w - &b).mod_floor(&big) }
            2 => { x *= &y; w = (&w * &b).mod_floor(&big) }
            3 => { x.neg_assign(); w = (-&w).mod_floor(&big) }
            4 => { x *= x.clone(); w = (&w * &w).mod_floor(&big) }
            _ => match x.checked_div(&y) {
                None => {}
                Some(v) => {
                    // v * b = w
                    ensure!(c, (v.value().big() * &b).mod_floor(&big) == w, "quotient", "{} / {} modulo {}: {}", w, b, big, v);
                    w = v.value().big();
                    x = v;
                }
            },
        }
        c.note(|| format!("step {}: operation {} with {} -> {}", step, k, b, w));
        ensure!(c, x.value().big() == w, "wrong-residue", "step {} modulo {} in {}: {} instead of {}", step, big, V::NAME, x, w);
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
fn fits<V: Int>(v: &BigInt) -> bool {
    V::of(v).is_some()
}
fn pair<V: Int>(r: &mut Rng) -> (BigInt, BigInt) {
    let (mut a, mut b) = (V::any(r), V::any(r));
    match r.below(5) {
        0 => {
            // planted common factor
            let bits = V::top().map_or(90, |m| m.bits() as usize);
            let f = r.big_nz(bits / 2 + 1);
            let (x, y) = (&f * r.big(bits / 2), &f * r.big(bits / 2));
            if fits::<V>(&x) && fits::<V>(&y) {
                a = x;
                b = y;
            }
        }
        1 => b = a.clone(),
        2 => a = BigInt::from(r.below(20)),
        _ => {}
    }
    (a, b)
}
fn ref_gcd(a: &BigInt, b: &BigInt) -> BigInt {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let t = &a % &b;
        a = b;
        b = t;
    }
    a
}
fn gcds<V: Int + GCD<Output = V>>(c: &mut Ctx) -> R {
    let (a, b) = pair::<V>(&mut c.rng);
    let gw = ref_gcd(&a, &b);
    let lw = if gw.is_zero() { BigInt::zero() } else { (&a * &b).abs() / &gw };
    gcd_one::<V>(c, &a, &b, &gw, &lw)
}
fn is_min<V: Int>(a: &BigInt) -> bool {
    V::signed() && V::bot().map_or(false, |m| m == *a)
}
fn gcd_one<V: Int + GCD<Output = V>>(c: &mut Ctx, a: &BigInt, b: &BigInt, gw: &BigInt, lw: &BigInt) -> R {
    // the most negative value has no magnitude in its type
    if is_min::<V>(a) || is_min::<V>(b) || !fits::<V>(gw) {
        c.seen("skipped-overflow");
        return Ok(());
    }
    c.distinct((V::NAME, a, b));
    c.seen(V::NAME);
    c.note(|| format!("gcd of {} and {} in {}", a, b, V::NAME));
    let (x, y) = (V::of(a).unwrap(), V::of(b).unwrap());
    ensure!(c, x.gcd(&y).big() == *gw, "gcd", "gcd of {} and {} in {}: {}, exact {}", a, b, V::NAME, x.gcd(&y), gw);
    if fits::<V>(lw) {
        ensure!(c, x.lcm(&y).big() == *lw, "lcm", "lcm of {} and {} in {}: {}, exact {}", a, b, V::NAME, x.lcm(&y), lw);
        let r = x.gcd_lcm(&y);
        ensure!(c, r.gcd.big() == *gw && r.lcm.big() == *lw, "gcd-lcm", "gcd_lcm of {} and {} in {}: {:?}", a, b, V::NAME, r);
    }
    Ok(())
}
fn ext_gcds<V: Int + GCD<Output = V> + ExtendedGCD>(c: &mut Ctx) -> R {
    let (a, b) = pair::<V>(&mut c.rng);
    let gw = ref_gcd(&a, &b);
    let lw = if gw.is_zero() { BigInt::zero() } else { (&a * &b).abs() / &gw };
    ext_one::<V>(c, &a, &b, &gw, &lw)
}
fn ext_one<V: Int + GCD<Output = V> + ExtendedGCD>(c: &mut Ctx, a: &BigInt, b: &BigInt, gw: &BigInt, lw: &BigInt) -> R {
    if is_min::<V>(a) || is_min::<V>(b) || !fits::<V>(gw) {
        c.seen("skipped-overflow");
        return Ok(());
    }
    c.distinct((V::NAME, a, b));
    c.note(|| format!("extended gcd of {} and {} in {}", a, b, V::NAME));
    let (x, y) = (V::of(a).unwrap(), V::of(b).unwrap());
    let r = x.extended_gcd(&y);
    ensure!(c, r.gcd.big() == *gw && r.x.big() * a + r.y.big() * b == *gw, "bezout", "extended_gcd of {} and {} in {}: {:?}", a, b, V::NAME, r);
    if fits::<V>(lw) {
        let r = x.extended_gcd_lcm(&y);
        ensure!(c, r.gcd.big() == *gw && r.x.big() * a + r.y.big() * b == *gw && r.lcm.big() == *lw, "bezout", "extended_gcd_lcm of {} and {} in {}: {:?}", a, b, V::NAME, r);
    }
    Ok(())
}
fn gcd_ratio(c: &mut Ctx, _: u64) -> R {
    let (mut a, mut b) = (c.rng.ratio(40, 30), c.rng.ratio(40, 30));
    match c.rng.below(6) {
        0 => a = Q::zero(),
        1 => b = Q::zero(),
        2 => {
            let f = c.rng.ratio(20, 20);
            a = &f * Q::from_integer(c.rng.big(10));
            b = &f * Q::from_integer(c.rng.big(10));
        }
        3 => {
            a = c.rng.ratio_small(20, 12);
            b = c.rng.ratio_small(20, 12);
        }
        _ => {}
    }
    c.distinct((&a, &b));
    c.note(|| format!("gcd of the ratios {} and {}", a, b));
    // the positive generator of the fractional ideal (a, b)
    let d = a.denom() * b.denom();
    let gw = Q::new(ref_gcd(&(a.numer() * b.denom()), &(b.numer() * a.denom())), d);
    let lw = if gw.is_zero() { Q::zero() } else { (&a * &b).abs() / &gw };
    let (gg, ll) = (GCD::gcd(&a, &b), GCD::lcm(&a, &b));
    ensure!(c, gg.abs() == gw, "gcd", "gcd of {} and {}: {}, exact {}", a, b, gg, gw);
    ensure!(c, ll.abs() == lw, "lcm", "lcm of {} and {}: {}, exact {}", a, b, ll, lw);
    let r = GCD::gcd_lcm(&a, &b);
    ensure!(c, r.gcd == gg && r.lcm == ll, "gcd-lcm", "gcd_lcm of {} and {}: {:?}", a, b, r);
    if !gw.is_zero() {
        let r = a.extended_gcd_lcm(&b);
        ensure!(c, r.gcd.abs() == gw && &r.x * &a + &r.y * &b == r.gcd && r.x.is_integer() && r.y.is_integer() && r.lcm.abs() == lw, "bezout", "extended gcd of {} and {}: {:?}", a, b, r);
        let s = a.extended_gcd(&b);
        ensure!(c, s.gcd.abs() == gw && &s.x * &a + &s.y * &b == s.gcd, "bezout", "extended gcd of {} and {}: {:?}", a, b, s);
    }
    // machine-size ratios
    let (p, q) = (Ratio::<i64>::new(c.rng.small(900), c.rng.int(1, 900)), Ratio::<i64>::new(c.rng.small(900), c.rng.int(1, 900)));
    let big = |v: &Ratio<i64>| Q::new(BigInt::from(*v.numer()), BigInt::from(*v.denom()));
    let (bp, bq) = (big(&p), big(&q));
    let gw = Q::new(ref_gcd(&(bp.numer() * bq.denom()), &(bq.numer() * bp.denom())), bp.denom() * bq.denom());
    ensure!(c, big(&GCD::gcd(&p, &q)).abs() == gw, "gcd", "gcd of {} and {}", p, q);
    let r = p.extended_gcd(&q);
    ensure!(c, gw.is_zero() || (big(&r.gcd).abs() == gw && r.x * p + r.y * q == r.gcd), "bezout", "extended gcd of {} and {}: {:?}", p, q, r);
    Ok(())
}
pub fn logs<V: Int + FloorLog2 + CeilLog2 + TrailingZeros>(c: &mut Ctx) -> R {
    let mut a = V::any(&mut c.rng);
    match c.rng.below(5) {
        0 => {
            let bits = V::top().map_or(*c.rng.pick(&[300, 300, 300, 4500]), |m| m.bits());
            a = (BigInt::one() << c.rng.below(bits)) + BigInt::from(c.rng.int(-2, 2));
        }
        1 => {
            let bits = V::top().map_or(*c.rng.pick(&[300, 300, 300, 4500]), |m| m.bits());
            let k = c.rng.below(bits);
            a = c.rng.big((bits - k) as usize) << k;
        }
        2 => a = a.abs(),
        _ => {}
    }
    if !fits::<V>(&a) {
        return Ok(());
    }
    log_one::<V>(c, &a)
}
fn log_one<V: Int + FloorLog2 + CeilLog2 + TrailingZeros>(c: &mut Ctx, a: &BigInt) -> R {
    c.distinct((V::NAME, a));
    c.note(|| format!("log2 of {} in {}", a, V::NAME));
    let x = V::of(a).unwrap();
    let (f, e, t) = (x.floor_log2(), x.ceil_log2(), x.trailing_zeros());
    if a.is_positive() {
        let ok = f.map_or(false, |k| BigInt::one() << k <= *a && *a < BigInt::one() << (k + 1));
        ensure!(c, ok, "floor-log2", "floor log2 of {} in {}: {:?}", a, V::NAME, f);
        let ok = e.map_or(false, |k| *a <= BigInt::one() << k && (k == 0 || *a > BigInt::one() << (k - 1)));
        ensure!(c, ok, "ceil-log2", "ceiling log2 of {} in {}: {:?}", a, V::NAME, e);
        c.seen("positive");
    } else {
        ensure!(c, f.is_none() && e.is_none(), "log2-domain", "log2 of {} in {}: {:?} {:?}", a, V::NAME, f, e);
        c.seen("not-positive");
    }
    if a.is_zero() {
        ensure!(c, t.is_none(), "trailing-zeros", "trailing zeros of 0 in {}: {:?}", V::NAME, t);
    } else {
        let ok = t.map_or(false, |k| (a.abs() >> k).is_odd() && (a.abs() >> k) << k == a.abs());
        ensure!(c, ok, "trailing-zeros", "trailing zeros of {} in {}: {:?}", a, V::NAME, t);
    }
    Ok(())
}
trait ED: Int + ExactDiv<Self, Output = Self> + ExactDivAssign<Self> + for<'a> ExactDiv<&'a Self, Output = Self> + for<'a> ExactDivAssign<&'a Self> {
    fn rr(&self, r: &Self) -> Option<Self>;
    fn rm(&self, r: Self) -> Option<Self>;
    fn urr(&self, r: &Self) -> Self;
    fn urm(&self, r: Self) -> Self;
}
macro_rules! ed {
    ($($t:ident),*) => {$(
        impl ED for $t {
            fn rr(&self, r: &Self) -> Option<Self> { ExactDiv::checked_exact_div(self, r) }
            fn rm(&self, r: Self) -> Option<Self> { ExactDiv::checked_exact_div(self, r) }
            fn urr(&self, r: &Self) -> Self { ExactDiv::exact_div(self, r) }
            fn urm(&self, r: Self) -> Self { ExactDiv::exact_div(self, r) }
        }
    )*};
}
ed!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, BigInt, BigUint);
pub fn exact<V: ED>(c: &mut Ctx) -> R {
    let (mut a, mut b) = (V::any(&mut c.rng), V::any(&mut c.rng));
    match c.rng.below(4) {
        0 | 1 => {
            let bits = V::top().map_or(90, |m| m.bits() as usize);
            let k = c.rng.us(0, bits);
            b = c.rng.big(k);
            let q = c.rng.big(bits - k);
            a = &b * &q;
            if c.rng.chance(1, 5) {
                a += c.rng.small(1);
            }
            if !V::signed() {
                a = a.abs();
                b = b.abs();
            }
            if !fits::<V>(&a) || !fits::<V>(&b) {
                return Ok(());
            }
        }
        2 => b = BigInt::from(c.rng.below(3)) * if V::signed() && c.rng.chance(1, 2) { -1 } else { 1 },
        _ => {}
    }
    exact_one::<V>(c, &a, &b)
}
pub fn exact_one<V: ED>(c: &mut Ctx, a: &BigInt, b: &BigInt) -> R {
    c.distinct((V::NAME, a, b));
    c.note(|| format!("{} exactly divided by {} in {}", a, b, V::NAME));
    let (x, y) = (V::of(a).unwrap(), V::of(b).unwrap());
    let w = if b.is_zero() || !(a % b).is_zero() { None } else { Some(a / b).filter(|q| fits::<V>(q)) };
    c.seen(if w.is_some() { "exact" } else { "not-exact" });
    let mut t1 = x.clone();
    let r1 = t1.checked_exact_div_assign(&y);
    let mut t2 = x.clone();
    let r2 = t2.checked_exact_div_assign(y.clone());
    let forms = [x.rr(&y), x.rm(y.clone()), x.clone().checked_exact_div(&y), x.clone().checked_exact_div(y.clone())];
    for (k, v) in forms.iter().enumerate() {
        ensure!(c, v.as_ref().map(|v| v.big()) == w, "exact-div", "checked_exact_div form {} of {} by {} in {}: {:?}, exact {:?}", k, a, b, V::NAME, v, w);
    }
    match &w {
        Some(w) => {
            ensure!(c, r1.is_ok() && r2.is_ok() && t1.big() == *w && t2.big() == *w, "exact-div", "checked_exact_div_assign of {} by {} in {}: {} {}", a, b, V::NAME, t1, t2);
            let mut t1 = x.clone();
            t1.exact_div_assign(&y);
            let mut t2 = x.clone();
            t2.exact_div_assign(y.clone());
            for (k, v) in [x.urr(&y), x.urm(y.clone()), x.clone().exact_div(&y), x.clone().exact_div(y.clone()), t1, t2].iter().enumerate() {
                ensure!(c, v.big() == *w, "exact-div", "exact_div form {} of {} by {} in {}: {}", k, a, b, V::NAME, v);
            }
        }
        None => {
            ensure!(c, r1.is_err() && r2.is_err() && t1 == x && t2 == x, "failed-assign", "failed checked_exact_div_assign of {} by {} in {}: {} {}", a, b, V::NAME, t1, t2);
            ensure!(c, catch(|| x.urr(&y)).is_err() && catch(|| x.urm(y.clone())).is_err() && catch(|| x.clone().exact_div(&y)).is_err() && catch(|| x.clone().exact_div(y.clone())).is_err(), "inexact-answer", "exact_div of {} by {} in {} gives an answer", a, b, V::NAME);
            ensure!(c, catch(|| { let mut t = x.clone(); t.exact_div_assign(&y) }).is_err() && catch(|| { let mut t = x.clone(); t.exact_div_assign(y.clone()) }).is_err(), "inexact-answer", "exact_div_assign of {} by {} in {} gives an answer", a, b, V::NAME);
        }
    }
    Ok(())
}
pub fn exact_ratio(c: &mut Ctx, _: u64) -> R {
    let a = c.rng.ratio(60, 60);
    let b = if c.rng.chance(1, 8) { Q::zero() } else { c.rng.ratio(60, 60) };
    let n = if c.rng.chance(1, 8) { BigInt::zero() } else { c.rng.big(60) };
    c.distinct((&a, &b, &n));
    c.note(|| format!("{} exactly divided by {} and {}", a, b, n));
    let wb = if b.is_zero() { None } else { Some(&a / &b) };
    let wn = if n.is_zero() { None } else { Some(&a / &n) };
    let mut t1 = a.clone();
    let r1 = t1.checked_exact_div_assign(&b).is_ok();
    let mut t2 = a.clone();
    let r2 = t2.checked_exact_div_assign(b.clone()).is_ok();
    let mut t3 = a.clone();
    let r3 = t3.checked_exact_div_assign(&n).is_ok();
    let mut t4 = a.clone();
    let r4 = t4.checked_exact_div_assign(n.clone()).is_ok();
    for (k, v) in [(&a).checked_exact_div(&b), (&a).checked_exact_div(b.clone()), a.clone().checked_exact_div(&b), a.clone().checked_exact_div(b.clone()), Some(t1.clone()).filter(|_| r1), Some(t2.clone()).filter(|_| r2)].iter().enumerate() {
        ensure!(c, *v == wb, "exact-div", "form {} of {} by {}: {:?}", k, a, b, v);
    }
    for (k, v) in [(&a).checked_exact_div(&n), (&a).checked_exact_div(n.clone()), a.clone().checked_exact_div(&n), a.clone().checked_exact_div(n.clone()), Some(t3.clone()).filter(|_| r3), Some(t4.clone()).filter(|_| r4)].iter().enumerate() {
        ensure!(c, *v == wn, "exact-div", "form {} of {} by the integer {}: {:?}", k, a, n, v);
    }
    ensure!(c, (r1 || t1 == a) && (r2 || t2 == a) && (r3 || t3 == a) && (r4 || t4 == a), "failed-assign", "failed exact division changes {}", a);
    if let (Some(wb), Some(wn)) = (wb, wn) {
        ensure!(c, (&a).exact_div(&b) == wb && a.clone().exact_div(b.clone()) == wb && (&a).exact_div(&n) == wn && a.clone().exact_div(n.clone()) == wn, "exact-div", "exact_div of {}", a);
        let mut t = [a.clone(), a.clone(), a.clone(), a.clone()];
        t[0].exact_div_assign(&b);
        t[1].exact_div_assign(b.clone());
        t[2].exact_div_assign(&n);
        t[3].exact_div_assign(n.clone());
        ensure!(c, t[0] == wb && t[1] == wb && t[2] == wn && t[3] == wn, "exact-div", "exact_div_assign of {} by {} and {}: {:?}", a, b, n, t);
    }
    Ok(())
}
fn exhaustive8(c: &mut Ctx, i: u64) -> R {
    let (u, s) = (i as u8, i as u8 as i8);
    for j in 0..=255u8 {
        let (a, b) = (u.big(), j.big());
        let gw = ref_gcd(&a, &b);
        let lw = if gw.is_zero() { BigInt::zero() } else { (&a * &b).abs() / &gw };
        gcd_one::<u8>(c, &a, &b, &gw, &lw)?;
        exact_one::<u8>(c, &a, &b)?;
        let (a, b) = (s.big(), (j as i8).big());
        let gw = ref_gcd(&a, &b);
        let lw = if gw.is_zero() { BigInt::zero() } else { (&a * &b).abs() / &gw };
        gcd_one::<i8>(c, &a, &b, &gw, &lw)?;
        ext_one::<i8>(c, &a, &b, &gw, &lw)?;
        exact_one::<i8>(c, &a, &b)?;
    }
    log_one::<u8>(c, &u.big())?;
    log_one::<i8>(c, &s.big())?;
    for j in 0..=255u16 {
        let v = (i as u16) << 8 | j;
        log_one::<u16>(c, &v.big())?;
        log_one::<i16>(c, &(v as i16).big())?;
    }
    Ok(())
}
fn characteristic(c: &mut Ctx, i: u64) -> R {
    macro_rules! bits {
        ($($t:ident),*) => {$({
            ensure!(c, <$t as IntegerBits>::BITS == $t::BITS as usize && (0 as $t).type_bits() == $t::BITS as usize, "bits", "bits of {}", stringify!($t));
            ensure!(c, (i as $t).characteristic() == CharacteristicZero && CharacteristicZero.is_zero(), "characteristic", "{}", stringify!($t));
        })*};
    }
    bits!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
    ensure!(c, BigInt::from(i).characteristic() == CharacteristicZero && Ratio::new(i as i64, 3).characteristic() == CharacteristicZero, "characteristic", "big");
    c.distinct(i);
    Ok(())
}

// ---------------------------------------------------------------- C20
/// deterministic Miller-Rabin, exact for 32-bit numbers
fn ref_prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for p in [2u64, 3, 5, 7, 11, 13] {
        if n % p == 0 {
            return n == p;
        }
    }
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 {
        d /= 2;
        s += 1;
    }
    'w: for a in [2u64, 3, 5, 7, 11, 13] {
        let (mut x, mut b, mut e) = (1u64, a % n, d);
        while e > 0 {
            if e & 1 == 1 {
                x = x * b % n;
            }
            b = b * b % n;
            e >>= 1;
        }
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = x * x % n;
            if x == n - 1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}
fn ref_next(v: u64) -> u64 {
    // beyond 32 bits only "larger" matters
    (v + 1..).find(|n| *n > u32::MAX as u64 || ref_prime(*n)).unwrap()
}
fn ref_prev(v: u64) -> Option<u64> {
    (2..v).rev().find(|n| ref_prime(*n))
}
fn prime_one(c: &mut Ctx, v: u32, search: bool) -> R {
    c.distinct(v);
    let w = ref_prime(v as u64);
    c.seen(if w { "prime" } else { "not-prime" });
    ensure!(c, is_prime_u32(v) == w, "primality", "{} is {}prime", v, if w { "" } else { "not " });
    if search {
        let w = Some(ref_next(v as u64)).filter(|n| *n <= u32::MAX as u64);
        ensure!(c, next_prime_u32(v).map(|n| n as u64) == w, "next-prime", "next prime after {}: {:?}, exact {:?}", v, next_prime_u32(v), w);
        let w = ref_prev(v as u64);
        ensure!(c, prev_prime_u32(v).map(|n| n as u64) == w, "prev-prime", "previous prime before {}: {:?}, exact {:?}", v, prev_prime_u32(v), w);
        let s = v as i32;
        let w = Some(ref_next(s.max(0) as u64)).filter(|n| *n <= i32::MAX as u64);
        ensure!(c, next_prime_i32(s).map(|n| n as u64) == w, "next-prime", "next prime after {}: {:?}, exact {:?}", s, next_prime_i32(s), w);
        let w = ref_prev(s.max(0) as u64);
        ensure!(c, prev_prime_i32(s).map(|n| n as u64) == w, "prev-prime", "previous prime before {}: {:?}, exact {:?}", s, prev_prime_i32(s), w);
        c.seen("searches");
    }
    Ok(())
}
fn primes_low(c: &mut Ctx, i: u64) -> R {
    for v in i * 1024..(i + 1) * 1024 {
        prime_one(c, v as u32, v % 16 == 0 || v < 100_000)?;
    }
    Ok(())
}
/// all numbers of one range of 2^20, against a sieve
fn sieved(c: &mut Ctx, k: u64) -> R {
    let (lo, hi) = (k << 20, (k + 1) << 20);
    c.distinct(("range", k));
    c.note(|| format!("{}..{}", lo, hi));
    let mut composite = vec![false; 1 << 20];
    for d in 2..65536u64 {
        if d > 2 && d % 2 == 0 || d > 3 && d % 3 == 0 {
            continue;
        }
        if d * d >= hi {
            break;
        }
        let mut n = (d * d).max((lo + d - 1) / d * d);
        while n < hi {
            composite[(n - lo) as usize] = true;
            n += d;
        }
    }
    let mut last: Option<u64> = None;
    let mut bad = None;
    let mut count = 0;
    for n in lo..hi {
        let w = n > 1 && !composite[(n - lo) as usize];
        if is_prime_u32(n as u32) != w {
            bad = Some(n);
            break;
        }
        if w {
            count += 1;
            if let Some(l) = last {
                // every 64th gap and every wide one, from both ends and the middle
                if count % 64 == 0 || n - l > 150 {
                    let m = l + (n - l) / 2;
                    ensure!(c, next_prime_u32(l as u32) == Some(n as u32) && prev_prime_u32(n as u32) == Some(l as u32), "gap", "neighbouring primes {} and {}: next {:?} previous {:?}", l, n, next_prime_u32(l as u32), prev_prime_u32(n as u32));
                    ensure!(c, m == l || (next_prime_u32(m as u32) == Some(n as u32) && prev_prime_u32(m as u32 + 1) == Some(if m + 1 > l { l } else { m } as u32)), "gap", "searches from {} between primes {} and {}", m, l, n);
                    c.seen("gaps");
                }
            }
            last = Some(n);
        }
    }
    c.eval(hi - lo);
    c.seen_n("sieved-primes", count);
    ensure!(c, bad.is_none(), "primality", "{:?}: is_prime_u32 is wrong", bad);
    Ok(())
}
fn primes_high(c: &mut Ctx, i: u64) -> R {
    prime_one(c, u32::MAX - (i as u32 % 2000), true)?;
    prime_one(c, (i32::MAX as u32 + 1000).wrapping_sub(i as u32 % 2000), true)?;
    // squares and products of primes near 2^16, strong pseudoprimes
    let p = ref_prev(65536 - c.rng.below(3000)).unwrap();
    let q = ref_prev(65536 - c.rng.below(3000)).unwrap();
    prime_one(c, (p * q) as u32, false)?;
    prime_one(c, (p * p) as u32, true)?;
    let p = ref_prev(3 + c.rng.below(65534)).unwrap();
    prime_one(c, (p * p) as u32, true)?;
    let v = *c.rng.pick(&[2047u32, 1373653, 25326001, 3215031751, 561, 1105, 1729, 2465, 2821, 6601, 4294967291, 4294967279, 2147483647]);
    prime_one(c, v, true)
}
/// for each 16-bit prime the composites which only it can reveal, and its neighbourhood
fn primes_squares(c: &mut Ctx, i: u64) -> R {
    static PRIMES: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    let primes = PRIMES.get_or_init(|| {
        let mut composite = vec![false; 1 << 16];
        let mut out = vec![];
        for n in 2..1usize << 16 {
            if !composite[n] {
                out.push(n as u64);
                (n * n..1 << 16).step_by(n).for_each(|k| composite[k] = true);
            }
        }
        out
    });
    let p = primes[i as usize];
    prime_one(c, p as u32, true)?;
    prime_one(c, (p * p) as u32, true)?;
    for k in 1..4 {
        if let Some(q) = primes.get(i as usize + k).filter(|q| *q * p <= u32::MAX as u64) {
            prime_one(c, (p * q) as u32, k == 1)?;
        }
    }
    // the largest multiple in range, and a random one
    let top = u32::MAX as u64 / p;
    let q = ref_prev(top + 1).unwrap();
    prime_one(c, (p * q) as u32, false)?;
    let q = ref_prev(p + 1 + c.rng.below(top - p + 1)).unwrap();
    prime_one(c, (p * q) as u32, false)
}
/// the longest stretches without primes below 2^32
fn record_gaps(c: &mut Ctx, _: u64) -> R {
    for (p, gap) in [(1327u32, 34u32), (9551, 36), (15683, 44), (19609, 52), (31397, 72), (155921, 86), (360653, 96), (370261, 112), (492113, 114), (1349533, 118), (1357201, 132), (2010733, 148), (4652353, 154), (17051707, 180), (20831323, 210), (47326693, 220), (122164747, 222), (189695659, 234), (191912783, 248), (387096133, 250), (436273009, 282), (1294268491, 288), (1453168141, 292), (2300942549, 320), (3842610773, 336)] {
        for v in [p - 1, p, p + 1, p + 2, p + gap / 2, p + gap - 2, p + gap - 1, p + gap, p + gap + 1] {
            prime_one(c, v, true)?;
        }
        let q = p + gap;
        ensure!(c, next_prime_u32(p) == Some(q) && prev_prime_u32(q) == Some(p), "gap", "neighbouring primes {} and {}: next {:?} previous {:?}", p, q, next_prime_u32(p), prev_prime_u32(q));
        c.seen("gaps");
    }
    Ok(())
}
fn primes_random(c: &mut Ctx, i: u64) -> R {
    let v = c.rng.u64() as u32 >> c.rng.below(20);
    prime_one(c, v, i % 4 == 0)?;
    // a prime and its neighbours
    if v > 2 {
        let p = ref_prev(v as u64).unwrap() as u32;
        prime_one(c, p, i % 16 == 0)?;
        // a product of two primes of random sizes
        let a = c.rng.below(15) + 1;
        let x = ref_prev(3 + (c.rng.u64() >> (64 - a))).unwrap();
        let y = ref_prev(3 + (c.rng.u64() >> (64 - (31 - a)))).unwrap();
        if x * y <= u32::MAX as u64 {
            prime_one(c, (x * y) as u32, false)?;
        }
    }
    Ok(())
}
fn signs(c: &mut Ctx, i: u64) -> R {
    use Sign::*;
    let b = |s: Sign| s == Negative;
    for s in [Negative, Positive] {
        ensure!(c, b(-s) == !b(s) && b(-&s) == !b(s) && b(!s) == !b(s) && b(!&s) == !b(s), "sign", "negation of {:?}", s);
        ensure!(c, bool::from(s) == b(s) && Sign::from(b(s)) == s, "sign", "conversion of {:?}", s);
        for t in [Negative, Positive] {
            c.distinct((i, b(s), b(t)));
            ensure!(c, b(s & t) == (b(s) & b(t)) && b(s | t) == (b(s) | b(t)) && b(s ^ t) == (b(s) ^ b(t)), "sign", "{:?} with {:?}", s, t);
            ensure!(c, b(&s & t) == (b(s) & b(t)) && b(&s | t) == (b(s) | b(t)) && b(&s ^ t) == (b(s) ^ b(t)), "sign", "{:?} with {:?}", s, t);
            ensure!(c, b(s & &t) == (b(s) & b(t)) && b(s | &t) == (b(s) | b(t)) && b(s ^ &t) == (b(s) ^ b(t)), "sign", "{:?} with {:?}", s, t);
            ensure!(c, b(&s & &t) == (b(s) & b(t)) && b(&s | &t) == (b(s) | b(t)) && b(&s ^ &t) == (b(s) ^ b(t)), "sign", "{:?} with {:?}", s, t);
            let (mut x, mut y, mut z) = (s, s, s);
            x &= t;
            y |= t;
            z ^= t;
            ensure!(c, x == s & t && y == s | t && z == s ^ t, "sign", "assigning {:?} with {:?}", s, t);
            let (mut x, mut y, mut z) = (s, s, s);
            x &= &t;
            y |= &t;
            z ^= &t;
            ensure!(c, x == s & t && y == s | t && z == s ^ t, "sign", "assigning {:?} with {:?}", s, t);
            // the order is that of the numbers with these signs
            let v = |s: Sign| if b(s) { -1 } else { 1 };
            ensure!(c, s.cmp(&t) == v(s).cmp(&v(t)) && s.partial_cmp(&t) == Some(v(s).cmp(&v(t))), "sign", "order of {:?} and {:?}", s, t);
        }
    }
    ensure!(c, Sign::default() == Positive, "sign", "default sign");
    let v = c.rng.big(80);
    let w = if v.is_positive() { Some(Positive) } else if v.is_negative() { Some(Negative) } else { None };
    ensure!(c, Sign::new(&v) == w, "sign", "sign of {}", v);
    let f = *c.rng.pick(&[0.0f64, -0.0, f64::NAN, 1.5, -2.5, f64::INFINITY, f64::NEG_INFINITY]);
    let w = if f > 0.0 { Some(Positive) } else if f < 0.0 { Some(Negative) } else { None };
    ensure!(c, Sign::new(&f) == w, "sign", "sign of {}", f);
    Ok(())
}

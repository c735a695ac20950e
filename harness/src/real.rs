//! Reference real arithmetic: exact rationals, fixed-point enclosures with outward rounding, and
//! enclosures of log / exp by rational series. Independent of the crate under test.
use num_bigint::BigInt;
use num_integer::Integer;
use num_rational::BigRational as Q;
use num_traits::{One, Signed, Zero};
use std::cmp::Ordering;

/// enclosure [lo, hi] / 2^p
#[derive(Clone, Debug)]
pub struct Fx {
    pub lo: BigInt,
    pub hi: BigInt,
    pub p: usize,
}
pub fn shr_floor(v: &BigInt, s: usize) -> BigInt {
    v.div_floor(&(BigInt::one() << s))
}
pub fn shr_ceil(v: &BigInt, s: usize) -> BigInt {
    -((-v).div_floor(&(BigInt::one() << s)))
}
impl Fx {
    pub fn from_q(v: &Q, p: usize) -> Fx {
        let n = v.numer() << p;
        Fx {
            lo: n.div_floor(v.denom()),
            hi: -((-n).div_floor(v.denom())),
            p,
        }
    }
    pub fn add(&self, o: &Fx) -> Fx {
        Fx {
            lo: &self.lo + &o.lo,
            hi: &self.hi + &o.hi,
            p: self.p,
        }
    }
    pub fn neg(&self) -> Fx {
        Fx {
            lo: -&self.hi,
            hi: -&self.lo,
            p: self.p,
        }
    }
    pub fn mul(&self, o: &Fx) -> Fx {
        let c = [
            &self.lo * &o.lo,
            &self.lo * &o.hi,
            &self.hi * &o.lo,
            &self.hi * &o.hi,
        ];
        Fx {
            lo: shr_floor(c.iter().min().unwrap(), self.p),
            hi: shr_ceil(c.iter().max().unwrap(), self.p),
            p: self.p,
        }
    }
    pub fn div(&self, o: &Fx) -> Option<Fx> {
        if !o.lo.is_positive() && !o.hi.is_negative() {
            return None;
        }
        let d = |a: &BigInt, b: &BigInt| -> (BigInt, BigInt) {
            let n = a << self.p;
            (n.div_floor(b), -((-n).div_floor(b)))
        };
        let c = [
            d(&self.lo, &o.lo),
            d(&self.lo, &o.hi),
            d(&self.hi, &o.lo),
            d(&self.hi, &o.hi),
        ];
        Some(Fx {
            lo: c.iter().map(|v| &v.0).min().unwrap().clone(),
            hi: c.iter().map(|v| &v.1).max().unwrap().clone(),
            p: self.p,
        })
    }
    pub fn lo_q(&self) -> Q {
        Q::new(self.lo.clone(), BigInt::one() << self.p)
    }
    pub fn hi_q(&self) -> Q {
        Q::new(self.hi.clone(), BigInt::one() << self.p)
    }
    pub fn sign(&self) -> Option<i32> {
        if self.lo.is_positive() {
            Some(1)
        } else if self.hi.is_negative() {
            Some(-1)
        } else if self.lo.is_zero() && self.hi.is_zero() {
            Some(0)
        } else {
            None
        }
    }
    /// compare the enclosed real with a rational; None if undecided
    pub fn cmp_q(&self, v: &Q) -> Option<Ordering> {
        let s = v.numer() << self.p;
        let (lo, hi) = (&self.lo * v.denom(), &self.hi * v.denom());
        if lo > s {
            Some(Ordering::Greater)
        } else if hi < s {
            Some(Ordering::Less)
        } else if lo == s && hi == s {
            Some(Ordering::Equal)
        } else {
            None
        }
    }
    pub fn width(&self) -> Q {
        Q::new(&self.hi - &self.lo, BigInt::one() << self.p)
    }
}

/// n-th root enclosure of a non-negative rational at p bits
pub fn root_q(v: &Q, n: u32, p: usize) -> Fx {
    assert!(!v.is_negative());
    // floor((v * 2^(n p))^(1/n))
    let s = v.numer() << (p * n as usize);
    let fl = s.div_floor(v.denom()).nth_root(n);
    let exact = num_traits::pow(fl.clone(), n as usize) * v.denom() == s;
    Fx {
        hi: if exact { fl.clone() } else { &fl + 1 },
        lo: fl,
        p,
    }
}

/// atanh(1/k)-style enclosure: log((1+t)/(1-t)) for rational |t| <= 1/2, at p bits
fn log1pt(t: &Q, p: usize) -> Fx {
    // 2 * sum t^(2i+1)/(2i+1); remainder after n terms < 2*|t|^(2n+1)/(1-t^2)
    let w = p + 20;
    let one = BigInt::one() << w;
    let tf = Fx::from_q(t, w);
    let t2 = tf.mul(&tf);
    let mut term = tf.clone();
    let mut sum = Fx {
        lo: BigInt::zero(),
        hi: BigInt::zero(),
        p: w,
    };
    let mut i = 0u64;
    loop {
        let d = BigInt::from(2 * i + 1);
        sum.lo += term.lo.div_floor(&d);
        sum.hi += -((-&term.hi).div_floor(&d));
        i += 1;
        term = term.mul(&t2);
        let m = term.lo.abs().max(term.hi.abs());
        if m <= BigInt::from(2) || i > (w as u64) * 2 {
            // remainder: <= m / (1 - 1/4) <= 2m
            let e = m * 2 + 2;
            sum.lo -= &e;
            sum.hi += &e;
            break;
        }
    }
    let _ = one;
    Fx {
        lo: shr_floor(&(sum.lo * 2), w - p),
        hi: shr_ceil(&(sum.hi * 2), w - p),
        p,
    }
}
thread_local! {
    static LN2: std::cell::RefCell<std::collections::HashMap<usize, Fx>> = Default::default();
}
/// ln 2 = log((1+1/3)/(1-1/3))
pub fn ln2(p: usize) -> Fx {
    LN2.with(|m| {
        m.borrow_mut()
            .entry(p)
            .or_insert_with(|| log1pt(&Q::new(1.into(), 3.into()), p))
            .clone()
    })
}
/// natural log of a positive rational
pub fn log_q(v: &Q, p: usize) -> Fx {
    assert!(v.is_positive());
    let mut k = v.numer().bits() as i64 - v.denom().bits() as i64;
    // v = m * 2^k with m in (1/2, 2)
    let mut m = if k >= 0 {
        v / Q::from_integer(BigInt::one() << k as usize)
    } else {
        v * Q::from_integer(BigInt::one() << (-k) as usize)
    };
    if m > Q::new(4.into(), 3.into()) {
        m /= Q::from_integer(2.into());
        k += 1;
    }
    // m in (1/2, 4/3]; t = (m-1)/(m+1) in (-1/3, 1/7]
    let w = p + 80;
    let t = (&m - Q::one()) / (&m + Q::one());
    let a = log1pt(&t, w);
    let l2 = ln2(w);
    let kk = BigInt::from(k);
    let (x, y) = (&l2.lo * &kk, &l2.hi * &kk);
    let (lo, hi) = if x <= y { (x, y) } else { (y, x) };
    Fx {
        lo: shr_floor(&(lo + a.lo), w - p),
        hi: shr_ceil(&(hi + a.hi), w - p),
        p,
    }
}
/// exp of a rational (|v| not huge)
pub fn exp_q(v: &Q, p: usize) -> Fx {
    // k = nearest integer to v/ln2; r = v - k ln2 in about [-0.36, 0.36]
    let l2s = ln2(80);
    let approx = v / l2s.lo_q();
    let k = approx.round().to_integer();
    let ki: i64 = (&k).try_into().expect("exp argument too big");
    let w = (p as i64 + 40 + ki.max(0) + 40) as usize;
    let l2 = ln2(w);
    let (x, y) = (&l2.lo * &k, &l2.hi * &k);
    let (klo, khi) = if x <= y { (x, y) } else { (y, x) };
    let vf = Fx::from_q(v, w);
    let r = Fx {
        lo: vf.lo - khi,
        hi: vf.hi - klo,
        p: w,
    };
    let one = BigInt::one() << w;
    let mut sum = Fx {
        lo: one.clone(),
        hi: one.clone(),
        p: w,
    };
    let mut term = sum.clone();
    let mut i = 0u64;
    loop {
        i += 1;
        term = term.mul(&r);
        let d = BigInt::from(i);
        term = Fx {
            lo: term.lo.div_floor(&d),
            hi: -((-&term.hi).div_floor(&d)),
            p: w,
        };
        sum = sum.add(&term);
        let m = term.lo.abs().max(term.hi.abs());
        if m <= BigInt::from(4) || i > 4 * w as u64 {
            let e = m * 2 + 4;
            sum.lo -= &e;
            sum.hi += &e;
            break;
        }
    }
    // multiply by 2^k, convert to p bits
    let sh = w as i64 - p as i64 - ki;
    if sh >= 0 {
        Fx {
            lo: shr_floor(&sum.lo, sh as usize),
            hi: shr_ceil(&sum.hi, sh as usize),
            p,
        }
    } else {
        Fx {
            lo: sum.lo << (-sh) as usize,
            hi: sum.hi << (-sh) as usize,
            p,
        }
    }
}

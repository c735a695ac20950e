//! C22, reached through the guarded hooks of /repo/src/verif_hooks.rs (cfg algebraics_verif="grid").
#![allow(unused_imports)]
use crate::engine::*;
use crate::ensure;
use crate::poly::{fp, fp::FP};
use crate::real::{self, Fx};
use crate::ring::*;
use crate::rng::Rng;
use algebraics::mod_int::ModularInteger;
use algebraics::polynomial::Polynomial;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_rational::{BigRational as Q, Ratio};
use num_traits::{One, Signed, ToPrimitive, Zero};
use rand::SeedableRng;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashSet};
use std::ops::Bound;
use algebraics::verif_hooks::grid::{self as hk, Grid, GridSlice, GridSliceMut, Rest, Seen, SliceBound, Step};

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "c22")]
    v.push(Prop::new(
            "C22",
            "distinct (size, operation, argument) on grids with at least one element",
            vec![
                g("slices", 60000, 1200000, grid_slices),
                g("walks", 60000, 1200000, grid_walks),
                g("walk-orders", 4096, 4096, walk_exhaustive),
                g("mutation", 40000, 800000, grid_mutation),
                g("refusals", 30000, 300000, grid_refusals),
                g("display", 40000, 600000, grid_display),
                g("constructors", 20000, 200000, grid_constructors),
            ],
        ));
    v
}

/// reference: element at (x, y) of the rectangle at (x0, y0) of a full column-major table
#[derive(Clone, Debug)]
struct Rect {
    x0: usize,
    y0: usize,
    w: usize,
    h: usize,
}
#[derive(Clone, Debug)]
struct Model {
    h: usize,
    data: Vec<u32>,
}
impl Model {
    fn get(&self, r: &Rect, x: usize, y: usize) -> u32 {
        self.data[(r.x0 + x) * self.h + r.y0 + y]
    }
    fn set(&mut self, r: &Rect, x: usize, y: usize, v: u32) {
        let h = self.h;
        self.data[(r.x0 + x) * h + r.y0 + y] = v;
    }
    fn list(&self, r: &Rect) -> Vec<((usize, usize), u32)> {
        let mut v = vec![];
        for x in 0..r.w {
            for y in 0..r.h {
                v.push(((x, y), self.get(r, x, y)));
            }
        }
        v
    }
}
fn rand_model(r: &mut Rng) -> (Rect, Model) {
    let (w, h) = match r.below(10) {
        0 => (0, r.us(0, 4)),
        1 => (r.us(0, 4), 0),
        2 => (1, r.us(1, 6)),
        3 => (r.us(1, 6), 1),
        4 if r.chance(1, 3) => match r.below(20) {
            0 => (r.us(1, 70), r.us(1, 70)),
            1 => (r.us(200, 300), r.us(1, 3)),
            2 => (r.us(1, 3), r.us(200, 300)),
            3 => (1, r.us(7, 300)),
            _ => (r.us(1, 20), r.us(1, 20)),
        },
        _ => (r.us(1, 6), r.us(1, 6)),
    };
    let data = (0..w * h).map(|_| r.below(1000) as u32).collect();
    (Rect { x0: 0, y0: 0, w, h }, Model { h, data })
}
fn grid(m: &Model, r: &Rect) -> Grid<u32> {
    Grid::from_array(r.w, r.h, m.data.clone())
}
/// a valid bound of some form and the range it denotes
fn bound(r: &mut Rng, size: usize) -> (SliceBound, usize, usize) {
    let a = r.us(0, size);
    let b = r.us(a, size);
    match r.below(10) {
        0 => (SliceBound::Full, 0, size),
        1 => (SliceBound::Range(a, b), a, b),
        2 => (SliceBound::From(a), a, size),
        3 => (SliceBound::To(b), 0, b),
        4 if b > a => (SliceBound::Inclusive(a, b - 1), a, b),
        5 if b > 0 => (SliceBound::ToInclusive(b - 1), 0, b),
        6 if a < size => (SliceBound::Index(a), a, a + 1),
        7 if a > 0 => (SliceBound::Pair(Bound::Excluded(a - 1), Bound::Excluded(b)), a, b),
        8 if b > 0 => (SliceBound::Pair(Bound::Unbounded, Bound::Included(b - 1)), 0, b),
        9 => (SliceBound::Pair(Bound::Included(a), Bound::Unbounded), a, size),
        _ => (SliceBound::Range(a, b), a, b),
    }
}
fn steps(r: &mut Rng, n: usize) -> Vec<Step> {
    let mode = r.below(4);
    (0..n + r.us(0, 3)).map(|_| Step { back: match mode { 0 => false, 1 => true, _ => r.chance(1, 2) }, with_position: r.chance(1, 2) }).collect()
}
fn check_walk(c: &mut Ctx, what: &str, want: &[((usize, usize), u32)], steps: &[Step], got: &[Seen<u32>]) -> R {
    let (mut lo, mut hi) = (0, want.len());
    ensure!(c, got.len() == steps.len(), "walk", "{}: {} observations for {} steps", what, got.len(), steps.len());
    for (s, g) in steps.iter().zip(got) {
        let e = if lo == hi {
            (0, None, None)
        } else {
            let (p, v) = if s.back { want[hi - 1] } else { want[lo] };
            (hi - lo, if s.with_position { Some(p) } else { None }, Some(v))
        };
        if lo < hi {
            if s.back {
                hi -= 1
            } else {
                lo += 1
            }
        }
        ensure!(c, *g == e, "wrong-element", "{}: step {:?} saw {:?}, should be {:?} (elements {:?}, steps {:?})", what, s, g, e, want, steps);
    }
    c.seen_n("iterator steps", steps.len() as u64);
    Ok(())
}
/// what is left of an iterator after the steps `back`: count, last element, last with position, positions
fn check_rest(c: &mut Ctx, what: &str, list: &[((usize, usize), u32)], back: &[bool], got: &Rest<u32>) -> R {
    let (mut lo, mut hi) = (0, list.len());
    for &b in back {
        if lo < hi {
            if b {
                hi -= 1
            } else {
                lo += 1
            }
        }
    }
    let left = &list[lo..hi];
    let want = (left.len(), left.last().map(|e| e.1), left.last().copied(), left.iter().map(|e| e.0).collect::<Vec<_>>());
    c.seen("remainders of iterators");
    ensure!(c, *got == want, "wrong-remainder", "{}: after steps {:?} there is left {:?}, should be {:?}", what, back, got, want);
    Ok(())
}
macro_rules! view_check {
    ($c:ident, $what:expr, $v:expr, $m:expr, $r:expr) => {{
        let (v, m, r) = ($v, $m, $r);
        ensure!($c, v.size() == (r.w, r.h), "wrong-size", "{}: size {:?}, should be {:?}", $what, v.size(), (r.w, r.h));
        for x in 0..r.w {
            for y in 0..r.h {
                ensure!($c, *v.at(x, y) == m.get(r, x, y), "wrong-element", "{}: element ({},{}) is {}, should be {}", $what, x, y, v.at(x, y), m.get(r, x, y));
            }
        }
        let list = m.list(r);
        ensure!($c, v.positions() == list.iter().map(|e| e.0).collect::<Vec<_>>(), "wrong-positions", "{}: positions {:?}", $what, v.positions());
        ensure!($c, v.count_and_last() == (list.len(), list.last().map(|e| e.1)), "wrong-count", "{}: count and last {:?} of {:?}", $what, v.count_and_last(), list);
        let s = steps(&mut $c.rng, list.len());
        let got = v.walk(&s);
        check_walk($c, $what, &list, &s, &got)?;
        let got = v.walk_reference(&s);
        check_walk($c, $what, &list, &s, &got)?;
        let b: Vec<bool> = s[..$c.rng.us(0, s.len())].iter().map(|s| s.back).collect();
        check_rest($c, $what, &list, &b, &v.rest(&b))?;
        let o = v.to_owned();
        ensure!($c, o.size() == (r.w, r.h) && o.data().iter().copied().eq(list.iter().map(|e| e.1)), "wrong-copy", "{}: owned copy is {:?} {:?}, should hold {:?}", $what, o.size(), o.data(), list);
    }};
}
fn slice_rec(c: &mut Ctx, v: GridSlice<u32>, m: &Model, r: &Rect, depth: usize) -> R {
    let what = format!("slice {:?}", r);
    view_check!(c, &what, &v, m, r);
    let list = m.list(r);
    let s = steps(&mut c.rng, list.len());
    let got = v.into_walk(&s);
    check_walk(c, "consumed slice", &list, &s, &got)?;
    if depth > 0 {
        let (bx, xa, xb) = bound(&mut c.rng, r.w);
        let (by, ya, yb) = bound(&mut c.rng, r.h);
        c.note(|| format!("slice of {:?} by {:?} x {:?}", r, bx, by));
        let sub = Rect { x0: r.x0 + xa, y0: r.y0 + ya, w: xb - xa, h: yb - ya };
        let s = v.slice(bx, by);
        c.seen("slices");
        slice_rec(c, s, m, &sub, depth - 1)?;
    }
    Ok(())
}
fn grid_slices(c: &mut Ctx, _: u64) -> R {
    let (r, m) = rand_model(&mut c.rng);
    let gr = grid(&m, &r);
    c.note(|| format!("grid {} x {} {:?}", r.w, r.h, m.data));
    view_check!(c, "grid", &gr, &m, &r);
    let (bx, xa, xb) = bound(&mut c.rng, r.w);
    let (by, ya, yb) = bound(&mut c.rng, r.h);
    c.note(|| format!("slice by {:?} x {:?}", bx, by));
    let sub = Rect { x0: xa, y0: ya, w: xb - xa, h: yb - ya };
    let s = gr.slice(bx, by);
    c.seen("slices");
    slice_rec(c, s, &m, &sub, 2)?;
    if r.w * r.h > 0 {
        c.distinct((r.w, r.h, format!("{:?}{:?}", bx, by)));
    }
    Ok(())
}
fn grid_walks(c: &mut Ctx, _: u64) -> R {
    let (r, mut m) = rand_model(&mut c.rng);
    let list = m.list(&r);
    let mut gr = grid(&m, &r);
    let s = steps(&mut c.rng, list.len());
    c.note(|| format!("grid {} x {}, steps {:?}", r.w, r.h, s));
    let got = gr.clone().into_walk(&s);
    check_walk(c, "consumed grid", &list, &s, &got)?;
    let add = c.rng.below(1000) as u32;
    let b: Vec<bool> = s[..c.rng.us(0, s.len())].iter().map(|s| s.back).collect();
    check_rest(c, "consumed grid", &list, &b, &gr.clone().into_rest(&b))?;
    check_rest(c, "mutating walk", &list, &b, &gr.rest_mut(&b))?;
    let got = if c.rng.chance(1, 2) { gr.walk_mut(&s, |v| v + add) } else { gr.walk_mut_reference(&s, |v| v + add) };
    check_walk(c, "mutating walk", &list, &s, &got)?;
    let (mut lo, mut hi) = (0, list.len());
    for st in &s {
        if lo < hi {
            let ((x, y), v) = if st.back {
                hi -= 1;
                list[hi]
            } else {
                lo += 1;
                list[lo - 1]
            };
            m.set(&r, x, y, v + add);
        }
    }
    ensure!(c, gr.data() == &m.data[..], "wrong-mutation", "after a mutating walk {:?} of {:?}: {:?}, should be {:?}", s, list, gr.data(), m.data);
    if !list.is_empty() {
        c.distinct((r.w, r.h, s.iter().map(|s| s.back as u8 * 2 + s.with_position as u8).collect::<Vec<_>>()));
    }
    Ok(())
}
/// bare positions, every front/back order on every shape up to 12 elements
fn walk_exhaustive(c: &mut Ctx, i: u64) -> R {
    for &(w, h) in &[(1usize, 12usize), (12, 1), (2, 6), (6, 2), (3, 4), (4, 3), (2, 2), (1, 1), (0, 3), (3, 0), (0, 0)] {
        let n = w * h;
        if n < 12 && i >> n != 0 {
            continue;
        }
        let back: Vec<bool> = (0..n + 2).map(|k| i >> k & 1 == 1).collect();
        let got = hk::walk_positions(w, h, &back);
        let all: Vec<_> = (0..w).flat_map(|x| (0..h).map(move |y| (x, y))).collect();
        let (mut lo, mut hi) = (0, n);
        for (k, &(len, front, rear, fin, item)) in got.iter().enumerate() {
            let f = if lo < hi { Some(all[lo]) } else { None };
            let b = if lo < hi { Some(all[hi - 1]) } else { None };
            let it = if back[k] { b } else { f };
            ensure!(c, (len, front, rear, fin, item) == (hi - lo, f, b, lo == hi, it), "wrong-position", "{} x {}, order {:?}, step {}: {:?}, should be {:?}", w, h, back, k, (len, front, rear, fin, item), (hi - lo, f, b, lo == hi, it));
            if lo < hi {
                if back[k] {
                    hi -= 1
                } else {
                    lo += 1
                }
            }
        }
        c.seen_n("position steps", got.len() as u64);
        c.distinct((w, h, i));
    }
    Ok(())
}
fn mutate(c: &mut Ctx, mut v: GridSliceMut<u32>, m: &mut Model, r: &Rect, depth: usize) -> R {
    for _ in 0..c.rng.us(1, 4) {
        if r.w * r.h == 0 {
            break;
        }
        let (x, y, x2, y2) = (c.rng.us(0, r.w - 1), c.rng.us(0, r.h - 1), c.rng.us(0, r.w - 1), c.rng.us(0, r.h - 1));
        if c.rng.chance(1, 2) {
            v.swap((x, y), (x2, y2));
            let (a, b) = (m.get(r, x, y), m.get(r, x2, y2));
            m.set(r, x, y, b);
            m.set(r, x2, y2, a);
        } else {
            let k = c.rng.below(1000) as u32;
            *v.at_mut(x, y) = k;
            m.set(r, x, y, k);
        }
        c.seen("mutations");
    }
    view_check!(c, "mutable slice", &v, &*m, r);
    let list = m.list(r);
    let s = steps(&mut c.rng, list.len());
    let got = v.walk_mut(&s, |v| v * 2 + 1);
    check_walk(c, "mutating walk of a slice", &list, &s, &got)?;
    let (mut lo, mut hi) = (0, list.len());
    for st in &s {
        if lo < hi {
            let ((x, y), e) = if st.back {
                hi -= 1;
                list[hi]
            } else {
                lo += 1;
                list[lo - 1]
            };
            m.set(r, x, y, e * 2 + 1);
        }
    }
    let (bx, xa, xb) = bound(&mut c.rng, r.w);
    let (by, ya, yb) = bound(&mut c.rng, r.h);
    let sub = Rect { x0: r.x0 + xa, y0: r.y0 + ya, w: xb - xa, h: yb - ya };
    c.note(|| format!("slice of mutable slice {:?} by {:?} x {:?}", r, bx, by));
    slice_rec(c, v.slice(bx, by), m, &sub, 0)?;
    if depth > 0 {
        mutate(c, v.slice_mut(bx, by), m, &sub, depth - 1)?;
    }
    let list = m.list(r);
    let s = steps(&mut c.rng, list.len());
    let got = v.into_walk(&s);
    check_walk(c, "consumed mutable slice", &list, &s, &got)
}
fn grid_mutation(c: &mut Ctx, _: u64) -> R {
    let (r, mut m) = rand_model(&mut c.rng);
    let mut gr = grid(&m, &r);
    c.note(|| format!("grid {} x {} {:?}", r.w, r.h, m.data));
    if r.w * r.h > 0 {
        let (x, y, x2, y2) = (c.rng.us(0, r.w - 1), c.rng.us(0, r.h - 1), c.rng.us(0, r.w - 1), c.rng.us(0, r.h - 1));
        gr.swap((x, y), (x2, y2));
        let (a, b) = (m.get(&r, x, y), m.get(&r, x2, y2));
        m.set(&r, x, y, b);
        m.set(&r, x2, y2, a);
        *gr.at_mut(x2, y) = 7;
        m.set(&r, x2, y, 7);
    }
    let (bx, xa, xb) = bound(&mut c.rng, r.w);
    let (by, ya, yb) = bound(&mut c.rng, r.h);
    c.note(|| format!("mutable slice by {:?} x {:?}", bx, by));
    let sub = Rect { x0: xa, y0: ya, w: xb - xa, h: yb - ya };
    mutate(c, gr.slice_mut(bx, by), &mut m, &sub, 2)?;
    ensure!(c, gr.data() == &m.data[..], "wrong-mutation", "after mutations through slices: {:?}, should be {:?}", gr.data(), m.data);
    if let Some(e) = gr.data_mut().first_mut() {
        *e = 3;
        m.data[0] = 3;
    }
    let g2 = grid(&m, &r);
    ensure!(c, gr == g2, "equality", "equal grids compare different: {:?} {:?}", gr, g2);
    if !m.data.is_empty() {
        let k = c.rng.us(0, m.data.len() - 1);
        let mut g3 = g2.clone();
        g3.data_mut()[k] += 1;
        ensure!(c, gr != g3, "equality", "different grids compare equal: {:?} {:?}", gr, g3);
        c.distinct((r.w, r.h, format!("m{:?}{:?}", bx, by)));
    }
    ensure!(c, gr.clone().into_data() == m.data, "wrong-mutation", "into_data gives {:?}, should be {:?}", gr.into_data(), m.data);
    Ok(())
}
fn grid_refusals(c: &mut Ctx, _: u64) -> R {
    let (r, m) = rand_model(&mut c.rng);
    let mut gr = grid(&m, &r);
    let (x, y) = (c.rng.us(0, r.w + 2), c.rng.us(0, r.h + 2));
    let inside = x < r.w && y < r.h;
    c.note(|| format!("grid {} x {}, element ({},{})", r.w, r.h, x, y));
    ensure!(c, catch(|| *gr.at(x, y)).is_ok() == inside, "out-of-range", "reading ({},{}) of a {} x {} grid: accepted = {}", x, y, r.w, r.h, !inside);
    ensure!(c, catch(|| *gr.at_mut(x, y) += 1).is_ok() == inside, "out-of-range", "writing ({},{}) of a {} x {} grid: accepted = {}", x, y, r.w, r.h, !inside);
    if r.w * r.h > 0 {
        ensure!(c, catch(|| gr.swap((x, y), (0, 0))).is_ok() == inside && catch(|| gr.swap((0, 0), (x, y))).is_ok() == inside, "out-of-range", "swapping ({},{}) of a {} x {} grid: accepted = {}", x, y, r.w, r.h, !inside);
    }
    let gr = grid(&m, &r);
    let (a, b) = (c.rng.us(0, r.w + 2), c.rng.us(0, r.w + 2));
    let (bx, ok) = match c.rng.below(6) {
        0 => (SliceBound::Range(a, b), a <= b && b <= r.w),
        1 => (SliceBound::From(a), a <= r.w),
        2 => (SliceBound::To(b), b <= r.w),
        3 => (SliceBound::Inclusive(a, b), a <= b + 1 && b < r.w),
        4 => (SliceBound::ToInclusive(b), b < r.w),
        _ => (SliceBound::Index(a), a < r.w),
    };
    let swapped = c.rng.chance(1, 2);
    let got = if swapped {
        // the same bound on the other axis of the transposed shape
        let t = Grid::from_array(r.h, r.w, m.data.clone());
        catch(|| t.slice(SliceBound::Full, bx).size()).is_ok()
    } else {
        catch(|| gr.slice(bx, SliceBound::Full).size()).is_ok()
    };
    c.seen("refusal decisions");
    ensure!(c, got == ok, "out-of-range", "slicing axis of size {} by {:?}: accepted = {}", r.w, bx, got);
    let k = c.rng.us(0, 40);
    ensure!(c, catch(|| Grid::from_array(r.w, r.h, vec![0u32; k]).size()).is_ok() == (k == r.w * r.h), "wrong-data-size", "{} elements for a {} x {} grid", k, r.w, r.h);
    c.distinct((r.w, r.h, x, y, format!("{:?}", bx)));
    Ok(())
}
fn render(w: usize, h: usize, cell: &dyn Fn(usize, usize) -> String, table: bool) -> String {
    let lines = |x, y| -> Vec<String> { cell(x, y).lines().map(|s: &str| s.to_string()).collect() };
    let width: Vec<usize> = (0..w).map(|x| (0..h).flat_map(|y| lines(x, y)).map(|l| l.len()).max().unwrap_or(0).max(1)).collect();
    let height: Vec<usize> = (0..h).map(|y| (0..w).map(|x| lines(x, y).len()).max().unwrap_or(0).max(1)).collect();
    let multi = height.iter().any(|&v| v > 1);
    let rule = width.iter().map(|w| format!("+{}", "-".repeat(w + 2))).collect::<String>() + "+";
    let mut out: Vec<String> = vec![];
    if table {
        out.push(rule.clone());
    }
    for y in 0..h {
        let extra = if !table && multi && y + 1 < h { 1 } else { 0 };
        for k in 0..height[y] + extra {
            let mut s = String::from(if table { "" } else { "[" });
            for x in 0..w {
                let l = lines(x, y).get(k).cloned().unwrap_or_default();
                s += &format!("{} {}{} ", if table { "|" } else { "" }, l, " ".repeat(width[x] - l.len()));
            }
            s += if table { "|" } else { "]" };
            out.push(s);
        }
        if table {
            out.push(rule.clone());
        }
    }
    out.join("\n")
}
fn grid_display(c: &mut Ctx, _: u64) -> R {
    let (w, h) = (c.rng.us(1, 4), c.rng.us(1, 4));
    let multi = c.rng.chance(1, 2);
    let cells: Vec<String> = (0..w * h)
        .map(|_| match c.rng.below(6) {
            0 => String::new(),
            1 if multi => "line 1\nline 2".into(),
            2 if multi => "a\n\nlonger line".into(),
            3 => "-17".into(),
            4 if multi => {
                let n = c.rng.us(1, 4);
                let lines: Vec<String> = (0..n).map(|_| "x".repeat(c.rng.us(0, 9))).collect();
                lines.join("\n")
            }
            _ => c.rng.below(10u64.pow(1 + c.rng.clone().below(5) as u32)).to_string(),
        })
        .collect();
    let gr = Grid::from_array(w, h, cells.clone());
    c.note(|| format!("display of {} x {} {:?}", w, h, cells));
    let at = |x: usize, y: usize| cells[x * h + y].clone();
    for table in [false, true] {
        let got = if table { format!("{:#}", gr) } else { gr.to_string() };
        let want = render(w, h, &at, table);
        ensure!(c, got == want, "wrong-text", "display of {} x {} {:?}:\n{}\nshould be\n{}", w, h, cells, got, want);
        let (bx, xa, xb) = bound(&mut c.rng, w);
        let (by, ya, yb) = bound(&mut c.rng, h);
        let v = gr.slice(bx, by);
        if xb > xa && yb > ya {
            let got = if table { format!("{:#}", v) } else { v.to_string() };
            let want = render(xb - xa, yb - ya, &|x, y| at(x + xa, y + ya), table);
            ensure!(c, got == want, "wrong-text", "display of a slice {:?} x {:?} of {:?}:\n{}\nshould be\n{}", bx, by, cells, got, want);
        }
        c.seen("texts");
    }
    c.distinct((w, h, cells));
    Ok(())
}
fn grid_constructors(c: &mut Ctx, _: u64) -> R {
    let (r, m) = rand_model(&mut c.rng);
    c.note(|| format!("constructors {} x {}", r.w, r.h));
    let mut order = vec![];
    let a = Grid::new_with_positions(r.w, r.h, |x, y| {
        order.push((x, y));
        m.get(&r, x, y)
    });
    ensure!(c, a == grid(&m, &r), "constructor", "built by position: {:?}, should be {:?}", a, m);
    ensure!(c, order.len() == r.w * r.h && order.iter().collect::<HashSet<_>>().len() == order.len(), "constructor", "each position is asked for once: {:?}", order);
    let mut k = 0u32;
    let b = Grid::new_with(r.w, r.h, || {
        k += 1;
        k
    });
    ensure!(c, b.size() == (r.w, r.h) && b.data().iter().copied().eq(1..=(r.w * r.h) as u32), "constructor", "{:?}", b);
    let d = Grid::new(r.w, r.h, 5u32);
    ensure!(c, d.size() == (r.w, r.h) && d.data().iter().all(|&v| v == 5) && d.data().len() == r.w * r.h, "constructor", "{:?}", d);
    c.seen("constructions");
    if r.w * r.h > 0 {
        c.distinct((r.w, r.h, m.data.clone()));
    }
    Ok(())
}

//! C20 (AABB operations) and C21 (primitive geometries): exhaustive
//! enumeration of bounded input spaces on the real code.
use rmc::cli::*;
use rmc::explore::*;
use rmc::gen::*;
use rmc::geom::*;
use rmc::model::*;
use rmc::props::Std;
use rmc::sut::*;
use rstar::primitives::{Line, Rectangle};
use rstar::{Envelope, Point, PointDistance, RTreeObject, AABB};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum What {
    /// b
    Box1,
    /// corners a.lo, a.hi (in any order)
    Corners,
    /// centre p, radius r
    Centre,
    /// a, b
    Pair,
    /// a, p
    BoxPt,
    /// points pts
    Points,
    /// point a.lo, query p
    PPoint,
    /// rectangle with corners a, query p
    PRect,
    /// line a.lo -> a.hi, query p
    PLine,
    /// user-defined two-point set, query p (default trait methods)
    PPair,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase {
    cfg: String,
    m: Mapping,
    what: What,
    a: Bx,
    b: Bx,
    p: Pt,
    pts: Vec<Pt>,
}
enum Out {
    Ok(u64),
    Known(String),
}
type Res = Result<Out, String>;

fn f<P: Point>(p: &P) -> Vec<f64>
where
    P::Scalar: Num,
{
    (0..P::DIMENSIONS).map(|i| p.nth(i).as_f64()).collect()
}
fn is_int<S: Num>() -> bool {
    S::of_f64(0.5).as_f64() == 0.0
}
fn d2(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y) * (x - y)).sum()
}
struct Tol(f64);
impl Tol {
    fn eq(&self, got: f64, want: f64, scale: f64) -> bool {
        got == want || (got - want).abs() <= self.0 * scale.abs().max(want.abs())
    }
}
macro_rules! ensure {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

/// Is `r` the smallest box around the given points?
fn hull_is<P: Point>(r: &AABB<P>, pts: &[Vec<f64>], what: &str) -> Result<(), String>
where
    P::Scalar: Num,
{
    let (l, u) = (f(&r.lower()), f(&r.upper()));
    for i in 0..l.len() {
        let lo = pts.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min);
        let hi = pts.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max);
        ensure!(
            l[i] == lo && u[i] == hi,
            "{what} is {:?}..{:?}, axis {i} should be {lo}..{hi}",
            l,
            u
        );
    }
    Ok(())
}

/// Sorting and partitioning of boxes spanned by the points, along every axis.
fn reorder<P: Point>(ps: &[P]) -> Result<(), String>
where
    P::Scalar: Num,
{
    let n = ps.len();
    let all: Vec<Tagged<P>> = (0..2 * n)
        .map(|i| {
            Tagged(
                AABB::from_corners(
                    ps[i % n].clone(),
                    ps[if i < n { i } else { (i + 1) % n }].clone(),
                ),
                i,
            )
        })
        .collect();
    let complete = |x: &[Tagged<P>], how: &str| {
        let mut ids: Vec<usize> = x.iter().map(|t| t.1).collect();
        ids.sort_unstable();
        ensure!(
            ids.into_iter().eq(0..2 * n),
            "{how} lost or duplicated an object"
        );
        Ok(())
    };
    // none may come after one that lies entirely beyond it
    let beyond =
        |a: &Tagged<P>, b: &Tagged<P>, axis: usize| a.0.lower().nth(axis) > b.0.upper().nth(axis);
    for axis in 0..P::DIMENSIONS {
        let mut x = all.clone();
        AABB::sort_envelopes(axis, &mut x);
        complete(&x, "sort_envelopes")?;
        for (i, a) in x.iter().enumerate() {
            ensure!(
                !x[i..].iter().any(|b| beyond(a, b, axis)),
                "sort_envelopes along axis {axis} of {all:?} gives {x:?}"
            );
        }
        for k in 0..2 * n {
            let mut x = all.clone();
            AABB::partition_envelopes(axis, &mut x, k);
            complete(&x, "partition_envelopes")?;
            ensure!(
                !x[..k]
                    .iter()
                    .any(|a| x[k + 1..].iter().any(|b| beyond(a, b, axis))),
                "partition_envelopes along axis {axis} at {k} of {all:?} gives {x:?}"
            );
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
struct Tagged<P: Point>(AABB<P>, usize);
impl<P: Point> RTreeObject for Tagged<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        self.0.clone()
    }
}

fn eval<P: Point + 'static>(c: &PCase) -> Res
where
    P::Scalar: Num,
{
    let m = &c.m;
    let d = P::DIMENSIONS;
    let int = is_int::<P::Scalar>();
    let tol = Tol(if m.exact {
        0.0
    } else if std::mem::size_of::<P::Scalar>() == 4 {
        1e-5
    } else {
        1e-12
    });
    let pt = |p: &Pt| mkpt::<P>(p, m);
    let bx = |b: &Bx| AABB::from_bounds(mkpt::<P>(&b.lo, m), mkpt::<P>(&b.hi, m));
    let mut h = 1u64;
    match c.what {
        What::Box1 => {
            let a = bx(&c.a);
            let (lo, hi) = (f(&pt(&c.a.lo)), f(&pt(&c.a.hi)));
            hull_is(&a, &[lo.clone(), hi.clone()], "from_bounds")?;
            if lo == hi {
                hull_is(&AABB::from_point(pt(&c.a.lo)), &[lo.clone()], "from_point")?;
                ensure!(
                    AABB::from_point(pt(&c.a.lo)) == a,
                    "from_point differs from from_bounds"
                );
            }
            ensure!(!a.is_empty(), "a box with points reports to be empty");
            let e = AABB::<P>::new_empty();
            ensure!(e.is_empty(), "the empty box does not report to be empty");
            ensure!(
                e.merged(&a) == a && a.merged(&e) == a,
                "the empty box is not neutral for merged"
            );
            let (mut x, mut y) = (e.clone(), a.clone());
            x.merge(&a);
            y.merge(&e);
            ensure!(x == a && y == a, "the empty box is not neutral for merge");
            ensure!(
                !e.intersects(&a) && !a.intersects(&e),
                "the empty box intersects a box"
            );
            ensure!(!e.contains_envelope(&a), "the empty box contains a box");
            ensure!(
                a.contains_envelope(&e),
                "a box does not contain the empty box"
            );
            ensure!(
                a.contains_envelope(&a) && a.intersects(&a),
                "a box does not contain or intersect itself"
            );
            let ext: Vec<f64> = lo.iter().zip(&hi).map(|(l, u)| u - l).collect();
            let area: f64 = ext.iter().product();
            ensure!(
                tol.eq(a.area().as_f64(), area, area),
                "area is {}, expected {area}",
                a.area().as_f64()
            );
            // a value proportional to the perimeter: the factor is that of the unit box
            let mut unit = [0; MAXD];
            unit[..d].iter_mut().for_each(|x| *x = 1);
            let ub = bx(&Bx {
                lo: [0; MAXD],
                hi: unit,
            });
            let us: f64 = f(&ub.upper())
                .iter()
                .zip(f(&ub.lower()))
                .map(|(u, l)| u - l)
                .sum();
            let k = ub.perimeter_value().as_f64() / us;
            ensure!(k > 0.0, "perimeter of the unit box is {}", k * us);
            let per: f64 = ext.iter().sum();
            let got = a.perimeter_value().as_f64();
            ensure!(
                (got - k * per).abs() <= (tol.0 * 4.0).max(1e-9) * k * per.abs(),
                "perimeter value is {got}, expected {}",
                k * per
            );
            let ce = f(&a.center());
            for i in 0..d {
                let mid = (lo[i] + hi[i]) / 2.0;
                if int {
                    ensure!(
                        (ce[i] - mid).abs() < 1.0 && lo[i] <= ce[i] && ce[i] <= hi[i],
                        "center is {:?}",
                        ce
                    );
                } else {
                    ensure!(
                        tol.eq(ce[i], mid, lo[i].abs().max(hi[i].abs())),
                        "center is {:?}",
                        ce
                    );
                }
            }
            h = mix(h, (area * 8.0) as i64 as u64);
        }
        What::Corners => {
            // all four combinations of corners describe the same box
            let (p, q) = (pt(&c.a.lo), pt(&c.a.hi));
            let want = [f(&p), f(&q)];
            hull_is(
                &AABB::from_corners(p.clone(), q.clone()),
                &want,
                "from_corners",
            )?;
            hull_is(
                &AABB::from_corners(q.clone(), p.clone()),
                &want,
                "from_corners (swapped)",
            )?;
            hull_is(&AABB::from_points([&p, &q]), &want, "from_points of two")?;
            let r = Rectangle::from_corners(p.clone(), q.clone());
            hull_is(&r.envelope(), &want, "Rectangle::from_corners")?;
        }
        What::Centre => {
            let r = <P::Scalar as Num>::of_f64(c.b.lo[0] as f64 * m.mul);
            let x = pt(&c.p);
            let e = AABB::from_center(x.clone(), r);
            let (l, u, x) = (f(&e.lower()), f(&e.upper()), f(&x));
            for i in 0..d {
                let s = x[i].abs() + r.as_f64().abs();
                ensure!(
                    tol.eq(l[i], x[i] - r.as_f64(), s) && tol.eq(u[i], x[i] + r.as_f64(), s),
                    "from_center is {l:?}..{u:?} for radius {:?}",
                    r
                );
            }
        }
        What::Points => {
            let ps: Vec<P> = c.pts.iter().map(pt).collect();
            let e = AABB::from_points(&ps);
            // whatever the iterator knows about its length
            let mut again = ps.iter();
            let others = [
                ("reversed", AABB::from_points(ps.iter().rev())),
                ("filtered", AABB::from_points(ps.iter().filter(|_| true))),
                (
                    "chained",
                    AABB::from_points(ps[..ps.len() / 2].iter().chain(&ps[ps.len() / 2..])),
                ),
                (
                    "flattened",
                    AABB::from_points(ps.iter().flat_map(|p| [p, p])),
                ),
                (
                    "from a function",
                    AABB::from_points(std::iter::from_fn(|| again.next())),
                ),
                (
                    "skipped into",
                    AABB::from_points(ps.iter().cycle().skip(1).take(ps.len())),
                ),
            ];
            for (how, x) in others {
                ensure!(
                    x == e,
                    "from_points of the same points, {how}, is {x:?} rather than {e:?}"
                );
            }
            reorder(&ps)?;
            if ps.is_empty() {
                ensure!(
                    e.is_empty() && e == AABB::new_empty(),
                    "from_points of nothing is {e:?}"
                );
            } else {
                let want: Vec<_> = ps.iter().map(f).collect();
                hull_is(&e, &want, "from_points")?;
                let mut g = AABB::<P>::new_empty();
                for p in &ps {
                    g.merge(&AABB::from_point(p.clone()));
                    ensure!(
                        e.contains_point(p),
                        "from_points does not contain its point {p:?}"
                    );
                }
                ensure!(
                    g == e,
                    "merging the points one by one gives {g:?}, from_points {e:?}"
                );
            }
        }
        What::Pair => {
            let (a, b) = (bx(&c.a), bx(&c.b));
            let (al, au, bl, bu) = (
                f(&pt(&c.a.lo)),
                f(&pt(&c.a.hi)),
                f(&pt(&c.b.lo)),
                f(&pt(&c.b.hi)),
            );
            let mg = a.merged(&b);
            hull_is(
                &mg,
                &[al.clone(), au.clone(), bl.clone(), bu.clone()],
                "merged",
            )?;
            let mut x = a.clone();
            x.merge(&b);
            ensure!(x == mg, "merge gives {x:?}, merged {mg:?}");
            let cont = (0..d).all(|i| al[i] <= bl[i] && bu[i] <= au[i]);
            ensure!(
                a.contains_envelope(&b) == cont,
                "contains_envelope is {}",
                !cont
            );
            let inter = (0..d).all(|i| al[i] <= bu[i] && bl[i] <= au[i]);
            ensure!(a.intersects(&b) == inter, "intersects is {}", !inter);
            let ia: f64 = (0..d)
                .map(|i| (au[i].min(bu[i]) - al[i].max(bl[i])).max(0.0))
                .product();
            let got = a.intersection_area(&b).as_f64();
            ensure!(
                tol.eq(got, ia, ia),
                "intersection_area is {got}, expected {ia}"
            );
            ensure!(
                b.intersection_area(&a).as_f64() == got,
                "intersection_area is not symmetric"
            );
            ensure!((a == b) == (c.a == c.b), "equality of boxes");
            h = mix(
                mix(h, cont as u64 * 2 + inter as u64),
                (ia * 8.0) as i64 as u64,
            );
        }
        What::BoxPt => {
            let (a, p) = (bx(&c.a), pt(&c.p));
            let (lo, hi, q) = (f(&pt(&c.a.lo)), f(&pt(&c.a.hi)), f(&p));
            let inside = (0..d).all(|i| lo[i] <= q[i] && q[i] <= hi[i]);
            ensure!(
                a.contains_point(&p) == inside,
                "contains_point is {}",
                !inside
            );
            let near: Vec<f64> = (0..d).map(|i| q[i].clamp(lo[i], hi[i])).collect();
            ensure!(
                f(&a.min_point(&p)) == near,
                "min_point is {:?}, expected {near:?}",
                a.min_point(&p)
            );
            let dd = d2(&near, &q);
            let g1 = a.distance_2(&p).as_f64();
            let g2 = Envelope::distance_2(&a, &p).as_f64();
            ensure!(
                tol.eq(g1, dd, dd) && tol.eq(g2, dd, dd),
                "distance_2 is {g1}/{g2}, expected {dd}"
            );
            ensure!(
                !inside || g1 == 0.0,
                "distance_2 of a contained point is {g1}"
            );
            // definition of min-max distance: the nearest face's farthest corner
            let mut best = f64::INFINITY;
            let near2: Vec<f64> = (0..d)
                .map(|i| (lo[i] - q[i]).powi(2).min((hi[i] - q[i]).powi(2)))
                .collect();
            let far2: Vec<f64> = (0..d)
                .map(|i| (lo[i] - q[i]).powi(2).max((hi[i] - q[i]).powi(2)))
                .collect();
            if d <= 4 {
                for k in 0..d {
                    for face in [lo[k], hi[k]] {
                        let mut worst: f64 = 0.0;
                        for mask in 0..1u32 << d {
                            let corner: Vec<f64> = (0..d)
                                .map(|i| {
                                    if i == k {
                                        face
                                    } else if mask >> i & 1 == 1 {
                                        hi[i]
                                    } else {
                                        lo[i]
                                    }
                                })
                                .collect();
                            worst = worst.max(d2(&corner, &q));
                        }
                        best = best.min(worst);
                    }
                }
            } else {
                for k in 0..d {
                    best = best.min(
                        (0..d)
                            .map(|i| if i == k { near2[i] } else { far2[i] })
                            .sum(),
                    );
                }
            }
            let mm = a.min_max_dist_2(&p).as_f64();
            ensure!(
                tol.eq(mm, best, far2.iter().sum()),
                "min_max_dist_2 is {mm}, expected {best}"
            );
            h = mix(mix(h, (dd * 8.0) as i64 as u64), (mm * 8.0) as i64 as u64);
        }
        What::PPoint => {
            let (a, p) = (pt(&c.a.lo), pt(&c.p));
            let dd = d2(&f(&a), &f(&p));
            hull_is(&a.envelope(), &[f(&a)], "the envelope")?;
            // the trait's methods, not those of the wrapper types
            ensure!(
                PointDistance::contains_point(&a, &p) == (f(&a) == f(&p)),
                "contains_point is {}",
                PointDistance::contains_point(&a, &p)
            );
            dist(&a, &p, dd, dd, &tol)?;
            h = mix(h, (dd * 8.0) as i64 as u64);
        }
        What::PRect => {
            let r = Rectangle::from_corners(pt(&c.a.lo), pt(&c.a.hi));
            let q = pt(&c.p);
            let (x, y, qf) = (f(&pt(&c.a.lo)), f(&pt(&c.a.hi)), f(&q));
            let lo: Vec<f64> = (0..d).map(|i| x[i].min(y[i])).collect();
            let hi: Vec<f64> = (0..d).map(|i| x[i].max(y[i])).collect();
            hull_is(&r.envelope(), &[x.clone(), y.clone()], "the envelope")?;
            ensure!(
                f(&r.lower()) == lo && f(&r.upper()) == hi,
                "lower/upper are {:?} {:?}",
                r.lower(),
                r.upper()
            );
            ensure!(
                Rectangle::from_aabb(r.envelope()) == r && Rectangle::from(r.envelope()) == r,
                "from_aabb"
            );
            let near: Vec<f64> = (0..d).map(|i| qf[i].clamp(lo[i], hi[i])).collect();
            ensure!(
                f(&r.nearest_point(&q)) == near,
                "nearest_point is {:?}",
                r.nearest_point(&q)
            );
            let dd = d2(&near, &qf);
            let inside = near == qf;
            ensure!(
                r.contains_point(&q) == inside,
                "contains_point is {}",
                !inside
            );
            dist(&r, &q, dd, dd, &tol)?;
            h = mix(h, (dd * 8.0) as i64 as u64);
        }
        What::PPair => {
            let r = Pair(pt(&c.a.lo), pt(&c.a.hi));
            let q = pt(&c.p);
            let dd = d2(&f(&r.0), &f(&q)).min(d2(&f(&r.1), &f(&q)));
            let inside = f(&r.0) == f(&q) || f(&r.1) == f(&q);
            ensure!(
                r.contains_point(&q) == inside,
                "the default contains_point is {}",
                !inside
            );
            dist(&r, &q, dd, dd, &tol)?;
        }
        What::PLine => {
            let l = Line::new(pt(&c.a.lo), pt(&c.a.hi));
            let q = pt(&c.p);
            let (a, b, qf) = (f(&l.from), f(&l.to), f(&q));
            ensure!(
                a == f(&pt(&c.a.lo)) && b == f(&pt(&c.a.hi)),
                "Line::new changes its end points"
            );
            hull_is(&l.envelope(), &[a.clone(), b.clone()], "the envelope")?;
            let len2 = d2(&a, &b);
            let scale = len2 + d2(&a, &qf) + d2(&b, &qf);
            ensure!(
                tol.eq(l.length_2().as_f64(), len2, len2),
                "length_2 is {}, expected {len2}",
                l.length_2().as_f64()
            );
            let got = f(&l.nearest_point(&q));
            let gd = l.distance_2(&q).as_f64();
            let eps = if std::mem::size_of::<P::Scalar>() == 4 {
                4e-6
            } else {
                1e-14
            };
            // whatever the nearest point, these must agree
            ensure!(
                (gd - d2(&got, &qf)).abs() <= if int { 0.0 } else { eps * scale * 64.0 },
                "distance_2 is {gd} but the nearest point {got:?} is at {}",
                d2(&got, &qf)
            );
            ensure!(
                l.contains_point(&q) == (gd == 0.0),
                "contains_point is {} at distance {gd}",
                l.contains_point(&q)
            );
            dist(&l, &q, gd, scale, &tol)?;
            // exact position of the nearest point, in grid units
            let gd_len2 = ptd2(d, &c.a.lo, &c.a.hi);
            let dot: i64 = (0..d)
                .map(|i| (c.p[i] as i64 - c.a.lo[i] as i64) * (c.a.hi[i] as i64 - c.a.lo[i] as i64))
                .sum();
            let (num, den) = if gd_len2 == 0 || dot <= 0 {
                (0, 1)
            } else if dot >= gd_len2 {
                (1, 1)
            } else {
                (dot, gd_len2)
            };
            let strictly_inside = num != 0 && num != den;
            let t = num as f64 / den as f64;
            let near: Vec<f64> = (0..d).map(|i| a[i] + (b[i] - a[i]) * t).collect();
            let d_true = Elem {
                a: c.a.lo,
                b: c.a.hi,
            }
            .d2(Kind::Line, d, &c.p)
                * m.mul
                * m.mul;
            if int {
                let representable =
                    (0..d).all(|i| (c.a.hi[i] as i64 - c.a.lo[i] as i64) * num % den == 0);
                if !representable {
                    return Ok(Out::Ok(7));
                }
                let mut foot = c.a.lo;
                for (i, x) in foot.iter_mut().enumerate().take(d) {
                    *x += ((c.a.hi[i] as i64 - c.a.lo[i] as i64) * num / den) as i32;
                }
                let near = f(&pt(&foot));
                if got != near {
                    if strictly_inside && got == a {
                        return Ok(Out::Known(format!(
                            "Line<P>::nearest_point and distance_2 with an integer scalar truncate the projection factor to zero: a point whose projection lies strictly inside the segment gets the segment's start, e.g. Line([0, 0], [4, 0]).nearest_point([3, 1]) == [0, 0]"
                        )));
                    }
                    return Err(format!("nearest_point is {got:?}, expected {near:?}"));
                }
            }
            // rounding of the projection: a few units in the last place
            let mag: f64 = a
                .iter()
                .chain(&b)
                .chain(&qf)
                .map(|x| x.abs())
                .fold(0.0, f64::max);
            let pow2 = den & (den - 1) == 0 && m.exact;
            for i in 0..d {
                let e = if int || pow2 {
                    0.0
                } else {
                    eps * mag.max(1e-3 * m.mul) * 8.0
                };
                ensure!(
                    (got[i] - near[i]).abs() <= e,
                    "nearest_point is {got:?}, expected {near:?}"
                );
            }
            let e = if int || pow2 { 0.0 } else { eps * scale * 64.0 };
            ensure!(
                (gd - d_true).abs() <= e,
                "distance_2 is {gd}, expected {d_true}"
            );
            if pow2 || int {
                ensure!(
                    l.contains_point(&q) == (d_true == 0.0),
                    "contains_point is {}",
                    l.contains_point(&q)
                );
            } else if d_true > 0.0 {
                ensure!(
                    !l.contains_point(&q),
                    "contains_point is true at distance {d_true}"
                );
            }
            h = mix(h, (d_true * 8.0) as i64 as u64);
        }
    }
    Ok(Out::Ok(h))
}

/// distance_2 and the bounded distance.
fn dist<T>(
    t: &T,
    q: &<T::Envelope as Envelope>::Point,
    want: f64,
    scale: f64,
    tol: &Tol,
) -> Result<(), String>
where
    T: PointDistance,
    <<T::Envelope as Envelope>::Point as Point>::Scalar: Num,
{
    type Sof<T> = <<<T as RTreeObject>::Envelope as Envelope>::Point as Point>::Scalar;
    let gs = PointDistance::distance_2(t, q);
    let g = gs.as_f64();
    ensure!(tol.eq(g, want, scale), "distance_2 is {g}, expected {want}");
    let mut bounds: Vec<Sof<T>> = vec![
        gs,
        num_traits::zero(),
        Sof::<T>::of_f64(-1.0),
        num_traits::Bounded::max_value(),
    ];
    let one = Sof::<T>::of_f64(1.0);
    bounds.push(gs - one);
    bounds.push(gs + one);
    bounds.push(gs / (one + one));
    for b in bounds {
        let r = t.distance_2_if_less_or_equal(q, b).map(|x| x.as_f64());
        let ok = if gs <= b { r == Some(g) } else { r.is_none() };
        ensure!(
            ok,
            "distance_2_if_less_or_equal with bound {b:?} is {r:?} at distance {g}"
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- types

/// A user-defined point type (coordinates stored in reverse).
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
struct Rev(f64, f64, f64);
impl Point for Rev {
    type Scalar = f64;
    const DIMENSIONS: usize = 3;
    fn generate(mut g: impl FnMut(usize) -> f64) -> Self {
        let (a, b, c) = (g(0), g(1), g(2));
        Rev(c, b, a)
    }
    fn nth(&self, i: usize) -> f64 {
        [self.2, self.1, self.0][i]
    }
    fn nth_mut(&mut self, i: usize) -> &mut f64 {
        match i {
            0 => &mut self.2,
            1 => &mut self.1,
            2 => &mut self.0,
            _ => panic!(),
        }
    }
}

macro_rules! types {
    ($($name:literal, $p:ty;)*) => {
        fn dispatch(c: &PCase) -> Res {
            match c.cfg.as_str() {
                $($name => eval::<$p>(c),)*
                x => panic!("type {x}"),
            }
        }
        const TYPES: &[(&str, usize, bool, u32)] = &[$(($name, <$p as Point>::DIMENSIONS, is_float(stringify!($p)), 8 * std::mem::size_of::<<$p as Point>::Scalar>() as u32),)*];
    };
}
const fn is_float(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'f' && (b[i + 1] == b'3' || b[i + 1] == b'6') || b[i] == b'R' {
            return true;
        }
        i += 1;
    }
    false
}
types! {
    "i8x2", [i8; 2];
    "i16x2", [i16; 2];
    "i32x2", [i32; 2];
    "i64x2", (i64, i64);
    "i128x2", [i128; 2];
    "isizex2", (isize, isize);
    "f32x2", [f32; 2];
    "f64x2", [f64; 2];
    "mint2", mint::Point2<f64>;
    "i32x3", [i32; 3];
    "f64x3", (f64, f64, f64);
    "f32x3", [f32; 3];
    "mint3", mint::Point3<i32>;
    "rev3", Rev;
    "f64x4", [f64; 4];
    "i64x4", (i64, i64, i64, i64);
    "i32x5", [i32; 5];
    "f64x6", (f64, f64, f64, f64, f64, f64);
    "f64x8", [f64; 8];
    "i64x10", (i64, i64, i64, i64, i64, i64, i64, i64, i64, i64);
}

fn maps(d: usize, float: bool, bits: u32) -> Vec<Mapping> {
    let c = Cfg {
        name: "",
        kind: Kind::Point,
        d,
        max: 0,
        small: bits < 32,
        float,
        bits,
    };
    let mut v: Vec<Mapping> = Vec::new();
    for m in mappings(&c) {
        // the oracle needs evenly spaced coordinates
        if !v.contains(&m) && m.jump == 0.0 {
            v.push(m);
        }
    }
    v
}
fn points(d: usize, vals: &[i32]) -> Vec<Pt> {
    let mut out = vec![[0; MAXD]];
    for k in 0..d {
        out = out
            .iter()
            .flat_map(|p| {
                vals.iter().map(move |v| {
                    let mut q = *p;
                    q[k] = *v;
                    q
                })
            })
            .collect();
    }
    out
}
fn boxes(d: usize, vals: &[i32]) -> Vec<Bx> {
    let ps = points(d, vals);
    let mut out = Vec::new();
    for a in &ps {
        for b in &ps {
            if (0..d).all(|i| a[i] <= b[i]) {
                out.push(Bx { lo: *a, hi: *b });
            }
        }
    }
    out
}

fn one(e: &Engine, c: &PCase, st: &mut Stats) -> bool {
    st.evals += 1;
    let c2 = c.clone();
    if st.evals % 64 == 0 || e.crumbs.is_some() {
        e.announce_lazy(Box::new(move || json!({"kind": "prim", "case": c2})));
    }
    match guard(|| dispatch(c)).unwrap_or_else(|p| Err(format!("panicked: {p}"))) {
        Ok(Out::Ok(h)) => {
            if st.outcomes.len() < 200_000 {
                let k = mix(
                    mix(h, c.what as u64),
                    (c.cfg.len() + c.cfg.as_bytes()[0] as usize) as u64,
                );
                st.outcomes.insert(k);
            }
            if st.samples.len() < 2 && st.evals % 999 == 7 {
                st.samples.push(json!(show(c)));
            }
            true
        }
        Ok(Out::Known(k)) => {
            if e.known_allowed("line-int-projection") {
                st.known.insert(k);
                st.count("known_finding_cases", 1);
                true
            } else {
                e.report(
                    json!({"kind": "prim", "case": c}),
                    format!("{}: {k}", show(c)),
                );
                false
            }
        }
        Err(m) => {
            e.report(
                json!({"kind": "prim", "case": c}),
                format!("{}: {m}", show(c)),
            );
            false
        }
    }
}
fn show(c: &PCase) -> String {
    let d = TYPES
        .iter()
        .find(|t| t.0 == c.cfg)
        .map(|t| t.1)
        .unwrap_or(2);
    let b = |b: &Bx| format!("{:?}..{:?}", &b.lo[..d], &b.hi[..d]);
    let args = match c.what {
        What::Box1 | What::Corners => b(&c.a),
        What::Pair => format!("{} and {}", b(&c.a), b(&c.b)),
        What::Centre => format!("{:?} radius {}", &c.p[..d], c.b.lo[0]),
        What::Points => format!(
            "{:?}",
            c.pts.iter().map(|p| p[..d].to_vec()).collect::<Vec<_>>()
        ),
        _ => format!("{} query {:?}", b(&c.a), &c.p[..d]),
    };
    format!(
        "{:?} on {} {args} (coordinates times {} plus {})",
        c.what, c.cfg, c.m.mul, c.m.add
    )
}

struct Prims;
impl Suite for Prims {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        let q = tier == Tier::Quick;
        let zero = Bx {
            lo: [0; MAXD],
            hi: [0; MAXD],
        };
        let mut jobs: Vec<Job> = Vec::new();
        for &(cfg, d, float, bits) in TYPES {
            for (m, uneven) in maps(d, float, bits)
                .into_iter()
                .flat_map(|m| [(m, false), (m, true)])
            {
                if uneven && (d > 4 || bits < 32) {
                    continue;
                }
                let base = PCase {
                    cfg: cfg.into(),
                    m,
                    what: What::Box1,
                    a: zero,
                    b: zero,
                    p: [0; MAXD],
                    pts: vec![],
                };
                // values per axis: (for single boxes and pairs, for queries)
                let (v1, v2, vq): (Vec<i32>, Vec<i32>, Vec<i32>) = match (d, q) {
                    (2, _) if cfg == "i8x2" => {
                        ((-2..=3).collect(), (-2..=3).collect(), (-4..=3).collect())
                    }
                    (2, true) => ((-3..=3).collect(), (-2..=3).collect(), (-4..=4).collect()),
                    (2, false) => ((-4..=5).collect(), (-4..=4).collect(), (-6..=6).collect()),
                    (3, true) => (vec![-2, 0, 1, 3], vec![-1, 0, 2], vec![-3, -1, 0, 1, 2, 4]),
                    (3, false) => (
                        vec![-2, -1, 0, 1, 3],
                        vec![-2, -1, 0, 2],
                        vec![-3, -2, -1, 0, 1, 2, 4],
                    ),
                    (4, true) => (vec![-1, 0, 2], vec![0, 1], vec![-2, 0, 1]),
                    (4, false) => (vec![-2, 0, 1], vec![-1, 0, 2], vec![-2, 0, 1, 3]),
                    (5, _) => (vec![-1, 0, 1], vec![0, 1], vec![-1, 0, 2]),
                    (6, _) => (vec![0, 2], vec![0, 1], vec![-1, 1, 3]),
                    _ => (vec![0, 1], vec![0, 1], vec![-1, 1]),
                };
                // the same with very uneven extents and distances
                let (v1, v2, vq) = match (uneven, d) {
                    (false, _) => (v1, v2, vq),
                    (_, 2) => (
                        vec![-50, -7, -1, 0, 2, 13],
                        vec![-50, -7, 0, 2, 13],
                        vec![-90, -50, -30, -7, -3, 0, 1, 13, 14, 200],
                    ),
                    (_, 3) => (
                        vec![-20, -1, 0, 9],
                        vec![-20, 1, 9],
                        vec![-50, -20, -3, 0, 9, 30],
                    ),
                    _ => (vec![-11, 0, 2], vec![-11, 2], vec![-30, 1, 9]),
                };
                if id == "C20" {
                    let b1 = base.clone();
                    let (x1, x2, xq) = (v1.clone(), v2.clone(), vq.clone());
                    let big = d > 6;
                    jobs.push(Job::new(
                        format!("boxes {cfg} {} {uneven}", m.mul),
                        move |e, st| {
                            let mut bs = boxes(d, &x1);
                            if big {
                                bs = bs.into_iter().step_by(17).collect();
                            }
                            for b in &bs {
                                if !one(
                                    e,
                                    &PCase {
                                        what: What::Box1,
                                        a: *b,
                                        ..b1.clone()
                                    },
                                    st,
                                ) {
                                    return;
                                }
                            }
                            let ps = points(d, &x1);
                            let lim = if d > 4 { 120 } else { usize::MAX };
                            for p in ps.iter().take(lim) {
                                for q in ps.iter().take(lim) {
                                    if !one(
                                        e,
                                        &PCase {
                                            what: What::Corners,
                                            a: Bx { lo: *p, hi: *q },
                                            ..b1.clone()
                                        },
                                        st,
                                    ) {
                                        return;
                                    }
                                }
                                for r in 0..4 {
                                    let b = Bx {
                                        lo: [r; MAXD],
                                        hi: [r; MAXD],
                                    };
                                    if !one(
                                        e,
                                        &PCase {
                                            what: What::Centre,
                                            p: *p,
                                            b,
                                            ..b1.clone()
                                        },
                                        st,
                                    ) {
                                        return;
                                    }
                                }
                            }
                            // sets of points: all multisets of up to 3
                            let sp = points(d, &x2);
                            let sp: Vec<Pt> = sp
                                .iter()
                                .step_by(sp.len().div_ceil(27).max(1))
                                .copied()
                                .collect();
                            for k in 0..=3 {
                                let mut go = true;
                                multisets(sp.len() as u32, k, &mut |v| {
                                    for rev in [false, true] {
                                        let mut pts: Vec<Pt> =
                                            v.iter().map(|i| sp[*i as usize]).collect();
                                        if rev {
                                            pts.reverse();
                                        }
                                        go &= one(
                                            e,
                                            &PCase {
                                                what: What::Points,
                                                pts,
                                                ..b1.clone()
                                            },
                                            st,
                                        );
                                    }
                                    go
                                });
                                if !go {
                                    return;
                                }
                            }
                            // box x point
                            let qs = points(d, &xq);
                            let bs = boxes(d, &x1);
                            let (sb, sq) = if d > 4 {
                                (bs.len().div_ceil(300), qs.len().div_ceil(300))
                            } else {
                                (1, 1)
                            };
                            for a in bs.iter().step_by(sb) {
                                for p in qs.iter().step_by(sq) {
                                    if !one(
                                        e,
                                        &PCase {
                                            what: What::BoxPt,
                                            a: *a,
                                            p: *p,
                                            ..b1.clone()
                                        },
                                        st,
                                    ) {
                                        return;
                                    }
                                }
                                if e.out_of_time() {
                                    st.truncated.push("box x point".into());
                                    return;
                                }
                            }
                        },
                    ));
                    let b1 = base.clone();
                    let x2 = v2.clone();
                    jobs.push(Job::new(
                        format!("pairs {cfg} {} {uneven}", m.mul),
                        move |e, st| {
                            let bs = boxes(d, &x2);
                            let s = if d > 5 { bs.len().div_ceil(700) } else { 1 };
                            for a in bs.iter().step_by(s) {
                                for b in bs.iter().step_by(s) {
                                    if !one(
                                        e,
                                        &PCase {
                                            what: What::Pair,
                                            a: *a,
                                            b: *b,
                                            ..b1.clone()
                                        },
                                        st,
                                    ) {
                                        return;
                                    }
                                }
                                if e.out_of_time() {
                                    st.truncated.push("box x box".into());
                                    return;
                                }
                            }
                        },
                    ));
                } else {
                    for what in [What::PPoint, What::PRect, What::PLine, What::PPair] {
                        if float && what == What::PLine && m.mul == 0.1 && d > 3 {
                            continue;
                        }
                        // feet would need bits after the last
                        if float && what == What::PLine && m.mul == 1.0 && m.add != 0.0 {
                            continue;
                        }
                        let b1 = base.clone();
                        let (x1, xq) = (v1.clone(), vq.clone());
                        jobs.push(Job::new(
                            format!("{what:?} {cfg} {} {uneven}", m.mul),
                            move |e, st| {
                                let ps = points(d, &x1);
                                let qs = points(d, &xq);
                                let (sp, sq) = if d > 3 {
                                    (
                                        ps.len().div_ceil(if q { 40 } else { 81 }),
                                        qs.len().div_ceil(if q { 60 } else { 200 }),
                                    )
                                } else {
                                    (1, 1)
                                };
                                for a in ps.iter().step_by(sp) {
                                    for b in ps.iter().step_by(sp) {
                                        if what == What::PPoint && b != &ps[0] {
                                            continue;
                                        }
                                        for p in qs.iter().step_by(sq) {
                                            let c = PCase {
                                                what,
                                                a: Bx { lo: *a, hi: *b },
                                                p: *p,
                                                ..b1.clone()
                                            };
                                            if !one(e, &c, st) {
                                                return;
                                            }
                                        }
                                    }
                                    if e.out_of_time() {
                                        st.truncated.push(format!("{what:?}"));
                                        return;
                                    }
                                }
                            },
                        ));
                    }
                }
            }
        }
        if id != "C20" && id != "C21" {
            return None;
        }
        Some(Check {
            prop: Arc::new(Std {
                id: if id == "C20" { "C20" } else { "C21" },
                follow: vec![],
                subsets: 0,
            }),
            jobs,
            level: "exploration",
            rule: if id == "C20" {
                "Every box, pair of boxes, box and query point, corner pair, centre and radius, and point multiset on the grids is evaluated on the real AABB and compared with the geometric definition (the min-max distance with the least, over faces, of the greatest corner distance). An outcome is a distinct (operation, type, answer)."
            } else {
                "Every point, rectangle and segment with corners on the grids and every query point is evaluated on the real primitive and compared with exact rational geometry (integer scalars: where the nearest point is representable). An outcome is a distinct (primitive, type, distance)."
            },
            bounds: json!({"types": TYPES.iter().map(|t| t.0).collect::<Vec<_>>(), "note": "grids of 2..10 values per axis; strided above 4 dimensions"}),
            assumptions: vec![
                "no arithmetic overflow",
                "non-exact mappings are compared up to rounding",
            ],
            special: Some(|v| {
                let c: PCase = serde_json::from_value(v["case"].clone()).expect("case");
                if std::env::var("RMC_TRACE").is_ok() {
                    eprintln!("AT {} 1", show(&c));
                }
                match guard(|| dispatch(&c)).unwrap_or_else(|p| Err(format!("panicked: {p}"))) {
                    Ok(Out::Ok(_)) => Ok(()),
                    Ok(Out::Known(k)) => Err(format!("{}: {k}", show(&c))),
                    Err(m) => Err(format!("{}: {m}", show(&c))),
                }
            }),
        })
    }
}
fn make(_: &str, _: Mapping) -> Option<Box<dyn Sut>> {
    None
}
fn main() {
    rmc::cli::main(&Prims, make)
}

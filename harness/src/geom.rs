//! Grid geometry of the reference model.  Nothing in here uses rstar.
use serde::{Deserialize, Serialize};

/// Highest dimension the harness uses.
pub const MAXD: usize = 10;
pub type Pt = [i32; MAXD];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Point,
    Rect,
    Line,
    /// A set of two points; its envelope is their bounding box.
    Pair,
    /// The point `a`, with the envelope of both points: one that is not tight.
    Loose,
    /// A ball around `a` with radius `|b[0] - a[0]|`; distances need a square
    /// root and are not exact.
    Disc,
}

/// An element of a universe, in grid coordinates.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Elem {
    pub a: Pt,
    pub b: Pt,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Bx {
    pub lo: Pt,
    pub hi: Pt,
}

pub fn pt(c: &[i32]) -> Pt {
    let mut p = [0; MAXD];
    p[..c.len()].copy_from_slice(c);
    p
}

/// How grid coordinates are turned into scalars: `c * mul + add`, and `jump` more
/// from 3 on.
/// `exact` says that all arithmetic on the mapped values is exact, so that the
/// oracle can use the grid formula; otherwise the element's own distance
/// function (checked on its own by C20/C21) is used.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Mapping {
    pub mul: f64,
    pub add: f64,
    pub exact: bool,
    #[serde(default)]
    pub jump: f64,
}
impl Mapping {
    /// The offset of a grid coordinate.
    pub fn offset(&self, c: i32) -> f64 {
        if c < 3 {
            self.add
        } else {
            self.add + self.jump
        }
    }
}
pub const UNIT: Mapping = Mapping {
    mul: 1.0,
    add: 0.0,
    exact: true,
    jump: 0.0,
};

/// The empty envelope: contains and intersects nothing.
pub const EMPTY: Bx = Bx {
    lo: [i32::MAX / 2; MAXD],
    hi: [i32::MIN / 2; MAXD],
};

impl Bx {
    pub fn is_empty(&self) -> bool {
        self.lo[0] > self.hi[0]
    }
    pub fn new(a: Pt, b: Pt) -> Bx {
        let mut lo = a;
        let mut hi = a;
        for i in 0..MAXD {
            lo[i] = a[i].min(b[i]);
            hi[i] = a[i].max(b[i]);
        }
        Bx { lo, hi }
    }
    pub fn contains_pt(&self, d: usize, p: &Pt) -> bool {
        (0..d).all(|i| self.lo[i] <= p[i] && p[i] <= self.hi[i])
    }
    pub fn contains(&self, d: usize, o: &Bx) -> bool {
        (0..d).all(|i| self.lo[i] <= o.lo[i] && o.hi[i] <= self.hi[i])
    }
    pub fn intersects(&self, d: usize, o: &Bx) -> bool {
        (0..d).all(|i| self.lo[i] <= o.hi[i] && o.lo[i] <= self.hi[i])
    }
    pub fn d2(&self, d: usize, p: &Pt) -> i64 {
        (0..d)
            .map(|i| {
                let (l, h, x) = (self.lo[i] as i64, self.hi[i] as i64, p[i] as i64);
                let g = if x < l {
                    l - x
                } else if x > h {
                    x - h
                } else {
                    0
                };
                g * g
            })
            .sum()
    }
}

pub fn ptd2(d: usize, p: &Pt, q: &Pt) -> i64 {
    (0..d).map(|i| (p[i] as i64 - q[i] as i64).pow(2)).sum()
}

impl Elem {
    pub fn point(p: Pt) -> Elem {
        Elem { a: p, b: p }
    }
    pub fn bx(&self, kind: Kind) -> Bx {
        match kind {
            Kind::Point => Bx {
                lo: self.a,
                hi: self.a,
            },
            Kind::Disc => {
                let r = self.radius();
                Bx {
                    lo: self.a.map(|x| x - r),
                    hi: self.a.map(|x| x + r),
                }
            }
            _ => Bx::new(self.a, self.b),
        }
    }
    pub fn radius(&self) -> i32 {
        (self.b[0] - self.a[0]).abs()
    }
    /// Exact squared distance (in grid units) from the element to `q`.
    pub fn d2(&self, kind: Kind, d: usize, q: &Pt) -> f64 {
        match kind {
            Kind::Point | Kind::Loose => ptd2(d, &self.a, q) as f64,
            Kind::Rect => self.bx(kind).d2(d, q) as f64,
            Kind::Pair => ptd2(d, &self.a, q).min(ptd2(d, &self.b, q)) as f64,
            Kind::Disc => {
                let (d2, r) = (ptd2(d, &self.a, q), self.radius() as i64);
                if d2 <= r * r {
                    0.0
                } else {
                    ((d2 as f64).sqrt() - r as f64).powi(2)
                }
            }
            Kind::Line => {
                let len2 = ptd2(d, &self.a, &self.b);
                if len2 == 0 {
                    return ptd2(d, &self.a, q) as f64;
                }
                let dot: i64 = (0..d)
                    .map(|i| {
                        (q[i] as i64 - self.a[i] as i64) * (self.b[i] as i64 - self.a[i] as i64)
                    })
                    .sum();
                if dot <= 0 {
                    ptd2(d, &self.a, q) as f64
                } else if dot >= len2 {
                    ptd2(d, &self.b, q) as f64
                } else {
                    // |q-a|^2 - dot^2/len2
                    let num = ptd2(d, &self.a, q) * len2 - dot * dot;
                    num as f64 / len2 as f64
                }
            }
        }
    }
    pub fn contains(&self, kind: Kind, d: usize, q: &Pt) -> bool {
        self.d2(kind, d, q) == 0.0
    }
}

/// Hash mixing used for keys of plain elements and envelopes.
pub fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15)).rotate_left(29);
    (x ^ (x >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (x >> 17)
}

//! Universes, histories and operation alphabets (all deterministic).
use crate::explore::*;
use crate::geom::*;
use crate::model::*;
use crate::sut::*;

pub const PATTERNS: [&str; 8] = [
    "row", "diag", "lattice", "perm", "dup", "fewdup", "clusters", "neg",
];

fn position(pattern: &str, i: usize, n: usize, d: usize) -> Pt {
    let i32i = i as i32;
    let mut p = [0; MAXD];
    let side = ((n as f64).powf(1.0 / d as f64).ceil() as usize).max(1);
    let lattice = |mut k: usize, p: &mut Pt, step: i32| {
        for x in p.iter_mut().take(d) {
            *x = (k % side) as i32 * step;
            k /= side;
        }
    };
    match pattern {
        "row" => p[0] = 2 * i32i,
        "col" => p[d - 1] = 2 * i32i,
        "diag" => p.iter_mut().take(d).for_each(|x| *x = i32i),
        "anti" => {
            p[0] = i32i;
            p[1] = -i32i
        }
        "lattice" => lattice(i, &mut p, 2),
        "perm" => {
            // a permutation of 0..n: multiply by a unit modulo n
            let mut mul = n * 5 / 8 + 1;
            while gcd(mul, n.max(1)) != 1 {
                mul += 1;
            }
            lattice((i * mul) % n.max(1), &mut p, 1)
        }
        "dup" => p.iter_mut().take(d).for_each(|x| *x = 3),
        "fewdup" => {
            for (a, x) in p.iter_mut().take(d).enumerate() {
                *x = ((i >> (a % 2)) % 2) as i32 * 4;
            }
        }
        "clusters" => {
            let c = (i % 4) as i32;
            let k = i / 4;
            p[0] = (c & 1) * 100 + (k % 5) as i32;
            p[1] = (c >> 1) * 100 + (k / 5) as i32;
            if d > 2 {
                p[2] = (k % 3) as i32;
            }
        }
        "neg" => {
            lattice(i, &mut p, 2);
            p.iter_mut().take(d).for_each(|x| *x -= 2 * side as i32 + 3);
        }
        "grid4" => {
            for (a, x) in p.iter_mut().take(d).enumerate() {
                *x = ((i >> (2 * a)) % 4) as i32;
            }
        }
        "zigzag" => {
            p[0] = if i % 2 == 0 { i32i } else { -i32i };
            p[1] = (i32i * 7) % 11 - 5;
        }
        _ => panic!("pattern {pattern}"),
    }
    p
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// The second corner of an element of kind `kind` at `p`.
fn extent(kind: Kind, p: Pt, i: usize, d: usize) -> Pt {
    let mut q = p;
    match kind {
        Kind::Point => {}
        Kind::Rect => {
            for (a, x) in q.iter_mut().take(d).enumerate() {
                let e = [0, 1, 3, 0, 2, 6, 1][(i + 2 * a) % 7];
                *x += if (i + a) % 5 == 4 { -e } else { e };
            }
        }
        Kind::Disc => q[0] += [0, 1, 0, 3, 2, 0, 5][i % 7],
        Kind::Pair | Kind::Loose => {
            for (a, x) in q.iter_mut().take(d).enumerate() {
                *x += ((i * 5 + a * 3) % 7) as i32 - 3;
            }
        }
        Kind::Line => {
            // axis parallel or diagonal, power-of-two extent: exact in binary
            let l = [1, 2, 4, 0][(i / 3) % 4] * if i % 2 == 0 { 1 } else { -1 };
            match i % 3 {
                0 => q[0] += l,
                1 => q[d - 1] += l,
                _ => {
                    q[0] += l;
                    q[1] -= l;
                }
            }
        }
    }
    q
}

pub fn universe(kind: Kind, d: usize, pattern: &str, n: usize) -> Vec<Elem> {
    if pattern == "nested" {
        return (0..n as i32)
            .map(|i| {
                let mut a = [0; MAXD];
                let mut b = [0; MAXD];
                // segments keep power-of-two extents (exact in binary)
                let i = if kind == Kind::Line {
                    (1 << (i % 7)) / 2
                } else {
                    i
                };
                for k in 0..d {
                    a[k] = -i;
                    b[k] = if kind == Kind::Point { -i } else { i };
                }
                Elem { a, b }
            })
            .collect();
    }
    if pattern == "cross" {
        return (0..n as i32)
            .map(|i| {
                let mut a = [0; MAXD];
                let ax = i as usize % d;
                a[(ax + 1) % d] = i;
                a[ax] = -64;
                let mut b = a;
                if kind != Kind::Point {
                    b[ax] = 64;
                }
                Elem { a, b }
            })
            .collect();
    }
    (0..n)
        .map(|i| {
            let a = position(pattern, i, n, d);
            Elem {
                a,
                b: extent(kind, a, i, d),
            }
        })
        .collect()
}

/// Elements in a congruential order: the `i`th lies at
/// `(a i mod p, (b i + k i(i-1)/2) mod (p+6), ..)`.
pub fn congruential(kind: Kind, d: usize, [p, a, b, k]: [i64; 4], n: usize) -> Vec<Elem> {
    (0..n as i64)
        .map(|i| {
            let c = [
                (i * a) % p,
                (i * b + i * (i - 1) / 2 * k) % (p + 6),
                (i * (a + b)) % (p + 1),
                (i * k) % 7,
            ];
            let mut x = [0; MAXD];
            for (j, y) in x.iter_mut().take(d).enumerate() {
                *y = c[j % 4] as i32;
            }
            Elem {
                a: x,
                b: extent(kind, x, i as usize, d),
            }
        })
        .collect()
}

/// A small universe for exhaustive history search: distinct, duplicate,
/// collinear and negative positions.
pub fn small(kind: Kind, d: usize, n: usize) -> Vec<Elem> {
    let base: [[i32; 4]; 9] = [
        [0, 0, 0, 0],
        [2, 0, 1, 0],
        [0, 2, 0, 1],
        [2, 2, 1, 1],
        [1, 1, 0, 0],
        [-1, 2, 1, -1],
        [2, 2, 1, 1],
        [3, -1, -1, 2],
        [0, 0, 0, 0],
    ];
    (0..n)
        .map(|i| {
            let mut a = [0; MAXD];
            for k in 0..d {
                a[k] = base[i % 9][k % 4];
            }
            let b = match kind {
                Kind::Point => a,
                Kind::Rect => {
                    let mut b = a;
                    b[0] += [1, 0, 2, 0, 1, 3, 0, 1, 1][i % 9];
                    b[1] += [0, 2, 1, 0, 1, 0, 0, 1, 0][i % 9];
                    if d > 2 {
                        b[2] += (i % 3) as i32;
                    }
                    b
                }
                Kind::Pair | Kind::Loose => {
                    let mut b = a;
                    b[0] += [2, 0, 1, 0, -1, 3, 0, -2, 2][i % 9];
                    b[1] += [1, 2, -1, 0, 1, 0, 0, 1, 1][i % 9];
                    b
                }
                Kind::Line | Kind::Disc => extent(kind, a, i, d),
            };
            Elem { a, b }
        })
        .collect()
}

/// All points of the grid `{0..side}^d`, or all boxes with corners on it.
pub fn grid(kind: Kind, d: usize, side: i32) -> Vec<Elem> {
    let mut pts = vec![[0; MAXD]];
    for k in 0..d {
        pts = pts
            .iter()
            .flat_map(|p| {
                (0..side).map(move |v| {
                    let mut q = *p;
                    q[k] = v;
                    q
                })
            })
            .collect();
    }
    if kind == Kind::Point {
        return pts.into_iter().map(Elem::point).collect();
    }
    let mut out = Vec::new();
    for a in &pts {
        for b in &pts {
            let ok = match kind {
                Kind::Rect => (0..d).all(|i| a[i] <= b[i]),
                Kind::Pair => a <= b,
                Kind::Loose => (0..d).map(|i| a[i] + b[i]).sum::<i32>() % 2 == 0,
                Kind::Line => {
                    let df: Vec<i32> = (0..d).map(|i| (a[i] - b[i]).abs()).collect();
                    let m = *df.iter().max().unwrap();
                    df.iter().all(|x| *x == 0 || *x == m) && (m & (m - 1)) == 0 || m == 0
                }
                Kind::Disc => a[1..] == b[1..] && a[0] <= b[0],
                Kind::Point => true,
            };
            if ok {
                out.push(Elem { a: *a, b: *b });
            }
        }
    }
    out
}

/// All multisets of size `k` over `0..n`, as sorted vectors.
pub fn multisets(n: u32, k: usize, f: &mut dyn FnMut(&[u32]) -> bool) {
    fn go(
        n: u32,
        k: usize,
        from: u32,
        v: &mut Vec<u32>,
        f: &mut dyn FnMut(&[u32]) -> bool,
    ) -> bool {
        if v.len() == k {
            return f(v);
        }
        for i in from..n {
            v.push(i);
            let c = go(n, k, i, v, f);
            v.pop();
            if !c {
                return false;
            }
        }
        true
    }
    go(n, k, 0, &mut Vec::new(), f);
}

pub fn all(n: usize) -> Vec<u32> {
    (0..n as u32).collect()
}
pub fn ins(r: std::ops::Range<usize>) -> Vec<Op> {
    r.map(|i| Op::Ins(i as u32)).collect()
}

pub const MODES: [&str; 8] = [
    "ins",
    "bulk",
    "bulkins",
    "insrem",
    "bulkdrain",
    "remheavy",
    "pop",
    "serde",
];

/// A structured history over `n` elements.
pub fn history(mode: &str, n: usize, es: &[Elem], kind: Kind, d: usize) -> Vec<Op> {
    let bx: Vec<Bx> = es.iter().map(|e| e.bx(kind)).collect();
    let mut hull = Bx {
        lo: [0; MAXD],
        hi: [0; MAXD],
    };
    for (i, b) in bx.iter().enumerate() {
        for k in 0..d {
            hull.lo[k] = if i == 0 {
                b.lo[k]
            } else {
                hull.lo[k].min(b.lo[k])
            };
            hull.hi[k] = if i == 0 {
                b.hi[k]
            } else {
                hull.hi[k].max(b.hi[k])
            };
        }
    }
    let mut half = hull;
    half.hi[0] = hull.lo[0] + (hull.hi[0] - hull.lo[0]) / 2;
    let centre = half.hi;
    let mut ops = Vec::new();
    match mode {
        "ins" => ops.extend(ins(0..n)),
        "bulk" => ops.push(Op::Bulk(all(n), 0)),
        "bulkcap" => ops.push(Op::Bulk(all(n), 1000)),
        "bulkins" => {
            ops.push(Op::Bulk(all(n / 2), 3));
            ops.extend(ins(n / 2..n));
        }
        "insrem" => {
            ops.extend(ins(0..n));
            ops.extend((0..n as u32).step_by(3).map(Op::Rem));
        }
        "bulkdrain" => {
            ops.push(Op::Bulk(all(n), 0));
            ops.push(Op::Drain(Sel::Inter(half), (n / 4) as u32, End::Drop));
            ops.extend(ins(0..n / 3));
            ops.push(Op::Drain(Sel::In(half), u32::MAX, End::Finish));
            ops.extend(ins(0..n / 3));
        }
        "remheavy" => {
            ops.push(Op::Bulk(all(n), 0));
            ops.extend((0..n as u32).filter(|i| i % 8 != 3).map(Op::Rem));
            ops.extend(ins(0..n / 2));
        }
        "pop" => {
            ops.extend(ins(0..n));
            ops.extend((0..n / 2).map(|i| Op::Pop(es[(i * 7) % n.max(1)].a)));
            ops.extend((0..n / 4).map(|i| Op::RemAt(es[(i * 5) % n.max(1)].b)));
            ops.extend(ins(0..n / 4));
        }
        "serde" => {
            ops.extend(ins(0..n / 2));
            ops.push(Op::Serde);
            ops.extend(ins(n / 2..n));
            ops.push(Op::Clone);
            ops.push(Op::Pop(centre));
        }
        "drainall" => {
            ops.push(Op::Bulk(all(n), 0));
            ops.push(Op::Drain(Sel::All, u32::MAX, End::Finish));
            ops.extend(ins(0..n));
        }
        "leak" => {
            ops.push(Op::Bulk(all(n), 0));
            ops.push(Op::Drain(Sel::All, 2, End::Forget));
            ops.extend(ins(0..n));
        }
        "within" => {
            ops.extend(ins(0..n));
            ops.push(Op::Drain(
                Sel::Within(centre, Rad::Of(n as u32 / 2)),
                (n / 5) as u32,
                End::Drop,
            ));
            ops.push(Op::Drain(
                Sel::Within(centre, Rad::Of(n as u32 / 3)),
                u32::MAX,
                End::Finish,
            ));
            ops.push(Op::Rebuild);
            ops.extend(ins(0..n / 4));
        }
        // many elements, few updates: bulk loaded or inserted one by one
        "huge" | "hugeins" => {
            let most = n - 40;
            if mode == "huge" {
                ops.push(Op::Bulk(all(most), 5));
                ops.extend(ins(most..n));
            } else {
                ops.extend(ins(0..n));
            }
            let near = |i: usize, r: i32| {
                let mut b = bx[i];
                for k in 0..d {
                    b.lo[k] -= r;
                    b.hi[k] += r;
                }
                b
            };
            let at = |k: usize| (n / 9 * k) % n;
            ops.extend((0..9).map(|k| Op::Rem(at(k) as u32)));
            ops.push(Op::Drain(Sel::Inter(near(at(2), 3)), 3, End::Drop));
            ops.push(Op::Serde);
            ops.push(Op::RemAt(es[at(4)].b));
            ops.push(Op::Pop(es[at(5)].a));
            ops.push(Op::Drain(Sel::In(near(at(6), 4)), u32::MAX, End::Finish));
            ops.push(Op::Drain(
                Sel::Within(es[at(7)].a, Rad::Of(9)),
                u32::MAX,
                End::Finish,
            ));
            ops.extend((0..9).map(|k| Op::Ins(at(k) as u32)));
        }
        _ => panic!("mode {mode}"),
    }
    if n == 0 {
        ops.retain(|o| !matches!(o, Op::Pop(_) | Op::Drain(Sel::Within(..), _, _)));
    }
    ops
}

/// General purpose alphabet: grow, shrink in every way.
pub fn alphabet(u: &[Elem], kind: Kind, ins_n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = ins(0..ins_n.min(u.len()));
    let b0 = Bx {
        lo: pt(&[-1, -1, -1, -1]),
        hi: pt(&[1, 2, 1, 1]),
    };
    let b1 = Bx {
        lo: pt(&[1, 0, -3, -3]),
        hi: pt(&[3, 2, 3, 3]),
    };
    v.push(Op::Rem(0));
    v.push(Op::Rem(3));
    v.push(Op::RemAt(u[1].a));
    v.push(Op::Pop(pt(&[1, 2])));
    v.push(Op::Drain(Sel::In(b0), u32::MAX, End::Finish));
    v.push(Op::Drain(Sel::Inter(b1), 1, End::Drop));
    v.push(Op::Drain(Sel::All, 2, End::Drop));
    let _ = kind;
    v
}
pub fn removal_alphabet(u: &[Elem], _kind: Kind, ins_n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = ins(0..ins_n.min(u.len()));
    v.extend((0..u.len() as u32).step_by(2).map(Op::Rem));
    v.push(Op::RemAt(u[3].a));
    v.push(Op::RemAt(u[5].a));
    v.push(Op::Pop(pt(&[1, 1])));
    v.push(Op::Pop(pt(&[-2, 4])));
    v.push(Op::RemSel(Sel::All));
    v
}
pub fn drain_alphabet(u: &[Elem], _kind: Kind, ins_n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = ins(0..ins_n.min(u.len()));
    let b0 = Bx {
        lo: pt(&[-1, -1, -1, -1]),
        hi: pt(&[1, 2, 1, 1]),
    };
    let b1 = Bx {
        lo: pt(&[1, 0, -3, -3]),
        hi: pt(&[3, 2, 3, 3]),
    };
    let q = pt(&[1, 1]);
    v.push(Op::Drain(Sel::All, u32::MAX, End::Finish));
    v.push(Op::Drain(Sel::All, 0, End::Drop));
    v.push(Op::Drain(Sel::All, 1, End::Drop));
    v.push(Op::Drain(Sel::All, 3, End::Drop));
    v.push(Op::Drain(Sel::All, 1, End::Forget));
    v.push(Op::Drain(Sel::In(b0), u32::MAX, End::Finish));
    v.push(Op::Drain(Sel::In(b0), 2, End::Drop));
    v.push(Op::Drain(Sel::Inter(b1), u32::MAX, End::Finish));
    v.push(Op::Drain(Sel::Inter(b1), 1, End::Drop));
    v.push(Op::Drain(Sel::Within(q, Rad::Of(3)), u32::MAX, End::Finish));
    v.push(Op::Drain(Sel::Within(q, Rad::Of(1)), 1, End::Drop));
    v.push(Op::Drain(
        Sel::Custom(NodePred::All, LeafPred::Odd),
        1,
        End::Drop,
    ));
    v.push(Op::Drain(
        Sel::Custom(NodePred::Bit(3), LeafPred::All),
        u32::MAX,
        End::Finish,
    ));
    v
}

pub fn mixed_alphabet(u: &[Elem], kind: Kind, ins_n: usize) -> Vec<Op> {
    let mut v = alphabet(u, kind, ins_n);
    v.push(Op::Drain(Sel::All, 1, End::Forget));
    v.push(Op::Serde);
    v.push(Op::Clone);
    v.push(Op::Rebuild);
    v.push(Op::Drain(
        Sel::Within(pt(&[1, 1]), Rad::Of(3)),
        1,
        End::Drop,
    ));
    v
}
pub fn custom_alphabet(u: &[Elem], _kind: Kind, ins_n: usize) -> Vec<Op> {
    let mut v: Vec<Op> = ins(0..ins_n.min(u.len()));
    for b in [3, 8] {
        v.push(Op::RemSel(Sel::Custom(NodePred::Bit(b), LeafPred::All)));
        v.push(Op::Drain(
            Sel::Custom(NodePred::Bit(b + 1), LeafPred::Odd),
            u32::MAX,
            End::Finish,
        ));
        v.push(Op::Drain(
            Sel::Custom(NodePred::Bit(b + 2), LeafPred::All),
            1,
            End::Drop,
        ));
    }
    v.push(Op::RemSel(Sel::Custom(NodePred::All, LeafPred::Odd)));
    v.push(Op::RemSel(Sel::Custom(NodePred::None, LeafPred::All)));
    v.push(Op::Drain(
        Sel::Custom(NodePred::All, LeafPred::None),
        u32::MAX,
        End::Finish,
    ));
    v
}

/// Which scopes a property asks for.
#[derive(Clone)]
pub struct Plan {
    pub cfgs: Vec<Cfg>,
    pub bfs_depth: usize,
    pub bfs_menu: MenuKind,
    pub alphabet: fn(&[Elem], Kind, usize) -> Vec<Op>,
    pub orders: usize,
    pub multiset: usize,
    pub sweep_ns: Vec<usize>,
    pub sweep_patterns: Vec<&'static str>,
    pub sweep_modes: Vec<&'static str>,
    pub sweep_menu: MenuKind,
    /// Visit every n-th step of sweeps up to this size.
    pub sweep_every_below: usize,
    /// Sizes of large trees, one pattern per size and mode.
    pub large: Vec<usize>,
    /// Sizes of trees with very many elements.
    pub huge: Vec<usize>,
    /// Extra operations appended to multiset histories.
    pub after: Vec<Op>,
    pub cong: Option<Cong>,
}
/// A range of congruential orders.
#[derive(Clone)]
pub struct Cong {
    pub moduli: Vec<i64>,
    pub a: i64,
    pub b: i64,
    pub k: i64,
    pub n: usize,
    pub every: u32,
    pub menu: MenuKind,
    /// Insertions alone besides the mode whose turn it is.
    pub insert_too: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub name: &'static str,
    pub kind: Kind,
    pub d: usize,
    /// MAX_SIZE
    pub max: usize,
    /// number type is a small integer: restrict coordinates
    pub small: bool,
    pub float: bool,
    /// Width of the number type.
    pub bits: u32,
}

pub const TENTH: Mapping = Mapping {
    mul: 0.1,
    add: 0.3,
    exact: false,
    jump: 0.0,
};
pub const SCALED: Mapping = Mapping {
    mul: 0.5,
    add: -20.0,
    exact: true,
    jump: 0.0,
};

const fn pow2(e: u32, add: f64) -> Mapping {
    Mapping {
        mul: (1u128 << e) as f64,
        add,
        exact: true,
        jump: 0.0,
    }
}

/// How grid coordinates are laid out on a configuration's number type: as they
/// are, at its large and its small end, off centre, and inexactly.
pub fn mappings(c: &Cfg) -> Vec<Mapping> {
    let mut v = vec![UNIT];
    if c.small {
        return v;
    }
    if !c.float {
        v.push(match (c.bits, c.d) {
            (128, 4..) => pow2(14, (1u64 << 50) as f64),
            (128, _) => pow2(30, (1u64 << 50) as f64),
            (64, 2) => pow2(17, -((1u64 << 41) as f64)),
            (64, 3) => pow2(8, (1u64 << 41) as f64),
            (64, 4) => pow2(4, (1u64 << 41) as f64),
            (32, 2) => Mapping {
                mul: 7.0,
                add: -3000.0,
                exact: true,
                jump: 0.0,
            },
            _ => UNIT,
        });
        return v;
    }
    if !matches!(c.kind, Kind::Line | Kind::Disc) {
        v.push(TENTH);
    }
    v.push(SCALED);
    // products over all dimensions stay in range
    let d = c.d as u32;
    let e = if c.bits == 32 {
        (100 / d - 10).min(25)
    } else {
        (900 / d - 10).min(100)
    };
    v.push(pow2(e, 0.0));
    if c.kind != Kind::Disc {
        v.push(Mapping {
            mul: 1.0 / (1u128 << e) as f64,
            add: 0.0,
            exact: true,
            jump: 0.0,
        });
    }
    if !matches!(c.kind, Kind::Line | Kind::Disc) {
        // neighbours on the grid differ in the last bits
        v.push(pow2(0, (1u64 << if c.bits == 32 { 22 } else { 51 }) as f64));
        // some extents are so large that others are lost in rounding
        v.push(Mapping {
            jump: (1u64 << if c.bits == 32 { 18 } else { 46 }) as f64,
            exact: false,
            ..UNIT
        });
    }
    v
}

pub fn jobs(p: &Plan, tier: Tier) -> Vec<Job> {
    let mut out = Vec::new();
    for c in &p.cfgs {
        let c = *c;
        let mut p = p.clone();
        if c.small {
            p.bfs_menu = MenuKind::Full;
            p.sweep_menu = MenuKind::Full;
            p.sweep_patterns = vec!["grid4", "dup", "fewdup"];
        }
        // (A) histories
        if p.bfs_depth > 0 && c.max <= 8 {
            let (alphabet, menu) = (p.alphabet, p.bfs_menu);
            let us = small(c.kind, c.d, 9);
            let m = c.max;
            let mut seedsets: Vec<(&str, usize, Vec<Op>)> = vec![
                ("empty", p.bfs_depth + 1, vec![]),
                ("full leaf", p.bfs_depth, ins(0..m)),
                (
                    "bulk",
                    p.bfs_depth - 1,
                    vec![Op::Bulk((0..2 * m as u32 + 1).map(|i| i % 9).collect(), 0)],
                ),
                (
                    "split",
                    p.bfs_depth - 1,
                    (0..2 * m + 2)
                        .map(|i| Op::Ins((i * 4 % 9) as u32))
                        .collect(),
                ),
            ];
            if tier == Tier::Thorough {
                seedsets.push((
                    "deep",
                    p.bfs_depth - 1,
                    (0..m * m + 3)
                        .map(|i| Op::Ins((i * 5 % 9) as u32))
                        .collect(),
                ));
                seedsets.push((
                    "bulkdeep",
                    p.bfs_depth - 1,
                    vec![Op::Bulk(
                        (0..(m * m) as u32 + 3).map(|i| i % 9).collect(),
                        0,
                    )],
                ));
            }
            for (name, depth, seed) in seedsets {
                let us = us.clone();
                out.push(Job::new(
                    format!("bfs {} {}", c.name, name),
                    move |e, st| {
                        let ab = alphabet(&us, c.kind, if name == "empty" { 5 } else { 4 });
                        let b = Bfs {
                            cfg: c.name.into(),
                            m: UNIT,
                            elems: us.clone(),
                            seeds: vec![seed],
                            alphabet: ab,
                            depth,
                            cap: 64,
                            menu,
                            dedup: true,
                        };
                        e.bfs(&b, st);
                    },
                ));
            }
        }
        // (B) all insertion orders
        if p.orders > 0 && c.max <= 6 {
            let n = p.orders.max(c.max + 1).min(8);
            let menu = p.sweep_menu;
            out.push(Job::new(
                format!("orders {} {}", c.name, n),
                move |e, st| {
                    let us = small(c.kind, c.d, n);
                    e.orders(c.name, UNIT, &us, menu, &[], st);
                },
            ));
        }
        // (D) all multisets on a small grid
        let p = &p;
        if p.multiset > 0 && c.d == 2 {
            for k in 0..=p.multiset {
                for bulk in [true, false] {
                    let menu = p.bfs_menu;
                    let after = p.after.clone();
                    out.push(Job::new(
                        format!("multisets {} {} {}", c.name, k, bulk),
                        move |e, st| {
                            let us = if c.kind == Kind::Point {
                                grid(c.kind, c.d, 3)
                            } else {
                                let g = grid(c.kind, c.d, 3);
                                if k > 3 || (k == 3 && c.kind == Kind::Line) {
                                    // a sub-universe: sizes grow as |U|^k / k!
                                    (0..g.len())
                                        .step_by(g.len().div_ceil(9))
                                        .map(|i| g[i])
                                        .collect()
                                } else {
                                    g
                                }
                            };
                            multisets(us.len() as u32, k, &mut |v| {
                                // compact universe: only what is used (+1 absent element)
                                let mut ids: Vec<u32> = v.to_vec();
                                ids.dedup();
                                let mut elems: Vec<Elem> =
                                    ids.iter().map(|i| us[*i as usize]).collect();
                                elems.push(us[(us.len() - 1) / 2]);
                                let map: Vec<u32> = v
                                    .iter()
                                    .map(|i| ids.iter().position(|x| x == i).unwrap() as u32)
                                    .collect();
                                let mut ops = if bulk {
                                    vec![Op::Bulk(map, 0)]
                                } else {
                                    map.into_iter().map(Op::Ins).collect()
                                };
                                ops.extend(after.iter().filter(|o| o.fits(elems.len())).cloned());
                                let case = Case {
                                    cfg: c.name.into(),
                                    m: UNIT,
                                    elems,
                                    ops,
                                    menu,
                                    every: 0,
                                };
                                e.run_case(&case, st);
                                !e.stopped() && !e.out_of_time()
                            });
                        },
                    ));
                }
            }
        }
        // (C) sweeps
        for (pi, pat) in p.sweep_patterns.iter().enumerate() {
            let pat = *pat;
            let (ns, modes, menu, below) = (
                p.sweep_ns.clone(),
                p.sweep_modes.clone(),
                p.sweep_menu,
                p.sweep_every_below,
            );
            // rotate the mappings over patterns and modes
            let maps = mappings(&c);
            out.push(Job::new(
                format!("sweep {} {}", c.name, pat),
                move |e, st| {
                    for &n in &ns {
                        let us = universe(c.kind, c.d, pat, n);
                        for (mi, mode) in modes.iter().enumerate() {
                            if e.stopped() {
                                return;
                            }
                            let case = Case {
                                cfg: c.name.into(),
                                m: maps[(pi + mi) % maps.len()],
                                elems: us.clone(),
                                ops: history(mode, n, &us, c.kind, c.d),
                                menu,
                                every: if n <= below { 1 } else { 0 },
                            };
                            e.run_case(&case, st);
                        }
                        if e.out_of_time() {
                            st.truncated
                                .push(format!("sweep {} {} n={}", c.name, pat, n));
                            return;
                        }
                    }
                },
            ));
        }
        // (F) congruential orders: all coefficients in a range
        if let (Some(g), false) = (&p.cong, c.small || c.max > 32) {
            for &m in &g.moduli {
                for a in 1..=g.a {
                    let (g, modes) = (g.clone(), p.sweep_modes.clone());
                    let maps = mappings(&c);
                    out.push(Job::new(
                        format!("orders {} mod {m} a={a}", c.name),
                        move |e, st| {
                            for b in 0..g.b {
                                for k in 1..=g.k {
                                    let us = congruential(c.kind, c.d, [m, a, b, k], g.n);
                                    let mi = (a + b + k) as usize;
                                    let mode = modes[mi % modes.len()];
                                    for mode in if g.insert_too && mode != "ins" {
                                        vec!["ins", mode]
                                    } else {
                                        vec![mode]
                                    } {
                                        let case = Case {
                                            cfg: c.name.into(),
                                            m: maps[mi % maps.len()],
                                            ops: history(mode, g.n, &us, c.kind, c.d),
                                            elems: us.clone(),
                                            menu: g.menu,
                                            every: g.every,
                                        };
                                        e.run_case(&case, st);
                                        if e.stopped() {
                                            return;
                                        }
                                    }
                                }
                                if e.out_of_time() {
                                    st.truncated.push(format!("orders {} {m} {a} {b}", c.name));
                                    return;
                                }
                            }
                        },
                    ));
                }
            }
        }
        // (G) very many elements
        if matches!(c.name, "pt2i" | "rect2i") {
            for (ni, n) in p.huge.iter().copied().enumerate() {
                let pats = ["lattice", "lattice"];
                for (mi, mode) in ["huge", "hugeins"].into_iter().enumerate() {
                    if mode == "hugeins" && c.name == "rect2i" {
                        continue;
                    }
                    out.push(Job::new(
                        format!("huge {} {mode} {n}", c.name),
                        move |e, st| {
                            let us = universe(c.kind, c.d, pats[(ni + mi) % 2], n);
                            let case = Case {
                                cfg: c.name.into(),
                                m: UNIT,
                                ops: history(mode, n, &us, c.kind, c.d),
                                elems: us,
                                menu: MenuKind::Tiny,
                                every: 0,
                            };
                            e.run_case(&case, st);
                        },
                    ));
                }
            }
        }
        // (E) large trees
        if !c.small {
            let pats = ["lattice", "dup", "perm", "clusters", "neg", "fewdup"];
            // wide nodes: the sizes at which they fill up
            let mut large = p.large.clone();
            if c.max > 32 {
                large.extend([c.max, c.max + 1, 2 * c.max + 1, 4 * c.max]);
            }
            for (ni, n) in large.into_iter().enumerate() {
                for (mi, mode) in p.sweep_modes.iter().copied().enumerate() {
                    let maps = mappings(&c);
                    out.push(Job::new(
                        format!("large {} {mode} {n}", c.name),
                        move |e, st| {
                            let pat = pats[(ni + mi + c.name.len()) % pats.len()];
                            let us = universe(c.kind, c.d, pat, n);
                            let case = Case {
                                cfg: c.name.into(),
                                m: maps[(ni + mi) % maps.len()],
                                ops: history(mode, n, &us, c.kind, c.d),
                                elems: us,
                                menu: MenuKind::Tiny,
                                every: 0,
                            };
                            e.run_case(&case, st);
                        },
                    ));
                }
            }
        }
    }
    out
}

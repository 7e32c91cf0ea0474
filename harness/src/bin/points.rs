//! C19: point representations, dimensions and number types.
use rmc::cli::*;
use rmc::explore::*;
use rmc::gen::*;
use rmc::geom::Mapping;
use rmc::model::*;
use rmc::props::*;
use rmc::sut::*;
use rstar::{DefaultParams, Point};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::sync::Arc;

/// User-defined point types.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
struct Rev {
    c: f64,
    b: f64,
    a: f64,
}
impl Point for Rev {
    type Scalar = f64;
    const DIMENSIONS: usize = 3;
    fn generate(mut g: impl FnMut(usize) -> f64) -> Self {
        let (a, b, c) = (g(0), g(1), g(2));
        Rev { a, b, c }
    }
    fn nth(&self, i: usize) -> f64 {
        [self.a, self.b, self.c][i]
    }
    fn nth_mut(&mut self, i: usize) -> &mut f64 {
        [&mut self.a, &mut self.b, &mut self.c]
            .into_iter()
            .nth(i)
            .unwrap()
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Heap(Vec<i64>);
impl Point for Heap {
    type Scalar = i64;
    const DIMENSIONS: usize = 2;
    fn generate(g: impl FnMut(usize) -> i64) -> Self {
        Heap((0..2).map(g).collect())
    }
    fn nth(&self, i: usize) -> i64 {
        self.0[i]
    }
    fn nth_mut(&mut self, i: usize) -> &mut i64 {
        &mut self.0[i]
    }
}

/// A user-defined number type: sixths.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
struct Sixths(i128);
macro_rules! ops {
    ($($tr:ident $f:ident ($a:ident, $b:ident) $e:expr;)*) => {$(
        impl std::ops::$tr for Sixths {
            type Output = Sixths;
            fn $f(self, o: Sixths) -> Sixths {
                let ($a, $b) = (self.0, o.0);
                Sixths($e)
            }
        }
    )*};
}
ops! {
    Add add (a, b) a + b;
    Sub sub (a, b) a - b;
    Mul mul (a, b) a * b / 6;
    Div div (a, b) a * 6 / b;
    Rem rem (a, b) a % b;
}
impl std::ops::Neg for Sixths {
    type Output = Sixths;
    fn neg(self) -> Sixths {
        Sixths(-self.0)
    }
}
impl num_traits::Zero for Sixths {
    fn zero() -> Self {
        Sixths(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl num_traits::One for Sixths {
    fn one() -> Self {
        Sixths(6)
    }
}
impl num_traits::Num for Sixths {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl num_traits::Signed for Sixths {
    fn abs(&self) -> Self {
        Sixths(self.0.abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        Sixths((self.0 - o.0).max(0))
    }
    fn signum(&self) -> Self {
        Sixths(6 * self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0
    }
}
impl num_traits::Bounded for Sixths {
    fn min_value() -> Self {
        Sixths(i128::MIN)
    }
    fn max_value() -> Self {
        Sixths(i128::MAX)
    }
}
impl Num for Sixths {
    const FLOAT: bool = false;
    fn grid(c: i32, m: &Mapping) -> Self {
        Sixths(6 * <i128 as Num>::grid(c, m))
    }
    fn of_f64(v: f64) -> Self {
        Sixths((v * 6.0) as i128)
    }
    fn as_f64(self) -> f64 {
        self.0 as f64 / 6.0
    }
    fn bits(self) -> u64 {
        self.0 as u64
    }
}

type T5<S> = (S, S, S, S, S);
type T6<S> = (S, S, S, S, S, S);
type T7<S> = (S, S, S, S, S, S, S);
type T8<S> = (S, S, S, S, S, S, S, S);
type T9<S> = (S, S, S, S, S, S, S, S, S);
type T10<S> = (S, S, S, S, S, S, S, S, S, S);
rmc::registry! {
    "[i8;2]", PlainS<[i8; 2]>, DefaultParams, 6, true;
    "[i16;2]", PlainS<[i16; 2]>, Pm<2, 4, 1>, 4, true;
    "(i32,2)", PlainS<(i32, i32)>, DefaultParams, 6, false;
    "[isize;2]", PlainS<[isize; 2]>, Pm<2, 4, 1>, 4, false;
    "rect[i64;2]", PlainRectS<[i64; 2]>, DefaultParams, 6, false;
    "rect(i128,2)", PlainRectS<(i128, i128)>, Pm<2, 4, 1>, 4, false;
    "(f32,2)", PlainS<(f32, f32)>, Pm<2, 4, 1>, 4, false;
    "mint2f", PlainS<mint::Point2<f64>>, DefaultParams, 6, false;
    "rect mint2i", PlainRectS<mint::Point2<i32>>, Pm<2, 4, 1>, 4, false;
    "heap2", PlainS<Heap>, DefaultParams, 6, false;
    "[sixths;2]", PlainS<[Sixths; 2]>, Pm<2, 4, 1>, 4, false;
    "rect(sixths,3)", PlainRectS<(Sixths, Sixths, Sixths)>, DefaultParams, 6, false;
    "[f32;3]", PlainS<[f32; 3]>, DefaultParams, 6, false;
    "(f64,3)", PlainRectS<(f64, f64, f64)>, Pm<2, 4, 1>, 4, false;
    "mint3", PlainRectS<mint::Point3<f32>>, DefaultParams, 6, false;
    "rev3", PlainS<Rev>, Pm<2, 4, 1>, 4, false;
    "[i32;4]", PlainS<[i32; 4]>, Pm<2, 4, 1>, 4, false;
    "rect(f64,4)", PlainRectS<(f64, f64, f64, f64)>, DefaultParams, 6, false;
    "(i64,5)", PlainS<T5<i64>>, Pm<2, 4, 1>, 4, false;
    "[f64;5]", PlainRectS<[f64; 5]>, DefaultParams, 6, false;
    "(f64,6)", PlainS<T6<f64>>, DefaultParams, 6, false;
    "(i64,7)", PlainS<T7<i64>>, Pm<2, 4, 1>, 4, false;
    "[f64;8]", PlainS<[f64; 8]>, DefaultParams, 6, false;
    "(f64,8)", PlainS<T8<f64>>, Pm<2, 4, 1>, 4, false;
    "(i64,9)", PlainRectS<T9<i64>>, DefaultParams, 6, false;
    "(f64,10)", PlainS<T10<f64>>, Pm<2, 4, 1>, 4, false;
    "[i64;10]", PlainS<[i64; 10]>, DefaultParams, 6, false;
}

// ---- coordinate access

fn access<P: Point>(name: &str) -> Result<u64, String>
where
    P::Scalar: Num,
{
    let d = P::DIMENSIONS;
    let val = |i: usize| <P::Scalar as Num>::of_f64((i * i) as f64 - 9.0);
    let mut seen = vec![0; d];
    let p = P::generate(|i| {
        if i < d {
            seen[i] += 1;
        }
        val(i)
    });
    if seen.iter().any(|c| *c != 1) {
        return Err(format!(
            "{name}: generate calls its generator {seen:?} times per index"
        ));
    }
    let mut n = 0;
    for i in 0..d {
        if p.nth(i) != val(i) {
            return Err(format!(
                "{name}: nth({i}) is {:?}, constructed with {:?}",
                p.nth(i),
                val(i)
            ));
        }
        let mut c = p.clone();
        if *c.nth_mut(i) != val(i) {
            return Err(format!(
                "{name}: nth_mut({i}) refers to {:?}, constructed with {:?}",
                c.nth_mut(i),
                val(i)
            ));
        }
        *c.nth_mut(i) = <P::Scalar as Num>::of_f64(101.0);
        for j in 0..d {
            let want = if i == j {
                <P::Scalar as Num>::of_f64(101.0)
            } else {
                val(j)
            };
            if c.nth(j) != want {
                return Err(format!(
                    "{name}: after writing through nth_mut({i}), nth({j}) is {:?}",
                    c.nth(j)
                ));
            }
            n += 1;
        }
        if c == p || P::generate(|k| c.nth(k)) != c {
            return Err(format!("{name}: equality after changing coordinate {i}"));
        }
    }
    Ok(n)
}
macro_rules! access_table {
    ($($t:ty),* $(,)?) => {
        const ACCESS: &[(&str, fn(&str) -> Result<u64, String>, usize)] = &[$((stringify!($t), access::<$t>, <$t as Point>::DIMENSIONS)),*];
    };
}
access_table! {
    [i8; 2], [i8; 3], [i8; 4], [i8; 5], [i8; 6], [i8; 7], [i8; 8], [i8; 9], [i8; 10],
    [i16; 2], [i32; 3], [i64; 4], [i128; 5], [isize; 6], [f32; 7], [f64; 8], [f64; 2], [f32; 10],
    (i32, i32), (i32, i32, i32), (i32, i32, i32, i32), T5<i32>, T6<i32>, T7<i32>, T8<i32>, T9<i32>, T10<i32>,
    (f64, f64), (f64, f64, f64), (f64, f64, f64, f64), T5<f64>, T6<f64>, T7<f64>, T8<f64>, T9<f64>, T10<f64>,
    (i8, i8), (i16, i16, i16), (i128, i128), (isize, isize, isize), (f32, f32, f32, f32),
    mint::Point2<f64>, mint::Point2<i32>, mint::Point2<i8>, mint::Point3<f64>, mint::Point3<f32>, mint::Point3<i64>,
    Rev, Heap, [Sixths; 2], (Sixths, Sixths, Sixths),
}
/// A point written as its type is written, with coordinates `from`, `from + 1`, ..
fn written<P: Point>(make: impl Fn(i8) -> P) -> Result<u64, String>
where
    P::Scalar: Num,
{
    let val = |i: i8| <P::Scalar as Num>::of_f64(i as f64);
    let mut n = 0;
    for from in [-20, 0, 3] {
        let p = make(from);
        let is = |q: &P, what: &str| {
            if *q == p {
                Ok(())
            } else {
                Err(format!("{what} gives {q:?} instead of {p:?}"))
            }
        };
        is(&P::generate(|i| val(from + i as i8)), "generate")?;
        let mut q = P::generate(|_| val(100));
        for i in 0..P::DIMENSIONS {
            if p.nth(i) != val(from + i as i8) {
                return Err(format!("nth({i}) of {p:?} is {:?}", p.nth(i)));
            }
            *q.nth_mut(i) = val(from + i as i8);
            n += 1;
        }
        is(&q, "writing through nth_mut")?;
    }
    Ok(n)
}
macro_rules! written_tuples {
    ($($($i:expr),*;)*) => {[$(
        (stringify!(($($i),*)), || written(|f| ($(f + $i),*)), || written(|f| ($((f + $i) as f64),*)),
            || written(|f| [$(f + $i),*]), || written(|f| [$((f + $i) as f32),*])),
    )*]};
}
type Written = fn() -> Result<u64, String>;
const WRITTEN: [(&str, Written, Written, Written, Written); 9] = written_tuples! {
    0, 1; 0, 1, 2; 0, 1, 2, 3; 0, 1, 2, 3, 4; 0, 1, 2, 3, 4, 5; 0, 1, 2, 3, 4, 5, 6; 0, 1, 2, 3, 4, 5, 6, 7;
    0, 1, 2, 3, 4, 5, 6, 7, 8; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9;
};
fn written_all() -> Result<u64, String> {
    let mut n = 0;
    let mut all: Vec<(&str, Written)> = WRITTEN
        .iter()
        .flat_map(|w| [(w.0, w.1), (w.0, w.2), (w.0, w.3), (w.0, w.4)])
        .collect();
    all.push(("mint::Point2", || {
        written(|f| mint::Point2 { x: f, y: f + 1 })
    }));
    all.push(("mint::Point3", || {
        written(|f| mint::Point3 {
            x: f as i64,
            y: f as i64 + 1,
            z: f as i64 + 2,
        })
    }));
    for (name, f) in all {
        n += guard(f)
            .unwrap_or_else(|p| Err(format!("panicked: {p}")))
            .map_err(|m| format!("{name}: {m}"))?;
    }
    Ok(n)
}
fn access_one(name: &str) -> Result<u64, String> {
    if name == "written" {
        return written_all();
    }
    let (n, f, d) = ACCESS.iter().find(|x| x.0 == name).expect("type");
    let want: usize = declared_dim(n);
    if want != *d {
        return Err(format!("{n}: DIMENSIONS is {d}"));
    }
    guard(|| f(n)).unwrap_or_else(|p| Err(format!("{n}: panicked: {p}")))
}
fn declared_dim(n: &str) -> usize {
    let n: String = n.chars().filter(|c| !c.is_whitespace()).collect();
    if n == "Rev" {
        return 3;
    }
    if n == "Heap" {
        return 2;
    }
    if let Some(i) = n.find("Point") {
        return n[i + 5..i + 6].parse().unwrap();
    }
    if n.starts_with('[') {
        return n[n.find(';').unwrap() + 1..n.len() - 1].parse().unwrap();
    }
    if let Some(r) = n.strip_prefix('T') {
        return r[..r.find('<').unwrap()].parse().unwrap();
    }
    n.matches(',').count() + 1
}

struct S19;
impl Suite for S19 {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        if id != "C19" {
            return None;
        }
        let q = tier == Tier::Quick;
        let mut js = Vec::new();
        for c in CFGS {
            let high = c.d > 3;
            let p = Plan {
                cfgs: vec![*c],
                bfs_depth: tier.pick(2, if high { 3 } else { 4 }),
                bfs_menu: if high {
                    MenuKind::Sparse
                } else {
                    MenuKind::Full
                },
                alphabet: mixed_alphabet,
                orders: tier.pick(if high { 0 } else { 5 }, 6),
                multiset: tier.pick(4, 6),
                sweep_ns: if q {
                    let mut v: Vec<usize> = (0..=12).collect();
                    v.extend([16, 17, 18, 19, 20, 25, 26, 31, 37, 45, 64, 65, 90]);
                    v
                } else {
                    let mut v: Vec<usize> = (0..=100).collect();
                    v.extend((110..=300).step_by(10));
                    v
                },
                sweep_patterns: if q {
                    vec!["lattice", "grid4", "fewdup", "cross", "neg"]
                } else {
                    vec![
                        "row", "col", "diag", "lattice", "perm", "dup", "fewdup", "clusters",
                        "neg", "grid4", "cross", "nested",
                    ]
                },
                sweep_modes: if q {
                    vec!["ins", "bulk", "bulkdrain", "pop", "serde"]
                } else {
                    MODES.to_vec()
                },
                sweep_menu: MenuKind::Sparse,
                sweep_every_below: 0,
                large: tier.pick(vec![400], vec![400, 900, 2000]),
                huge: vec![],
                after: vec![],
                cong: None,
            };
            let mut p = p;
            if high && !c.float {
                // areas of large boxes do not fit the number type
                p.sweep_patterns
                    .retain(|x| !matches!(*x, "cross" | "nested"));
            }
            js.extend(jobs(&p, tier));
        }
        js.push(Job::new("coordinate access", |e, st| {
            for n in ACCESS.iter().map(|a| a.0).chain(["written"]) {
                st.evals += 1;
                match access_one(n) {
                    Ok(k) => st.count("coordinate_probes", k),
                    Err(m) => {
                        e.report(json!({"kind": "access", "type": n}), m);
                        return;
                    }
                }
            }
        }));
        Some(Check {
            prop: Arc::new(Std { id: "C19", follow: vec![], subsets: 0 }),
            jobs: js,
            level: "model_checking",
            rule: "The same structured histories run over every point representation, dimension and number type and are compared with the representation-free model; and every coordinate of every point type is read, written and reconstructed. An outcome is a distinct (query kind, answer).",
            bounds: json!({"types": CFGS.iter().map(|c| c.name).collect::<Vec<_>>(), "access_types": ACCESS.len(), "multisets_up_to": tier.pick(4, 6)}),
            assumptions: vec!["coordinates are small, so no arithmetic overflows"],
            special: Some(|v: &Value| access_one(v["type"].as_str().unwrap()).map(|_| ())),
        })
    }
}
fn main() {
    rmc::cli::main(&S19, make)
}

//! C24: memory retained by bulk loaded trees.
use rmc::cli::*;
use rmc::explore::*;
use rmc::gen::*;
use rmc::geom::*;
use rmc::model::*;
use rmc::sut::*;
use rstar::primitives::{CachedEnvelope, GeomWithData, Rectangle};
use rstar::{DefaultParams, ParentNode, RTree, RTreeNode, RTreeObject, RTreeParams, AABB};
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Arc;

struct Counting;
thread_local!(static BYTES: Cell<i64> = const { Cell::new(0) });
fn add(n: i64) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;
fn bytes() -> i64 {
    BYTES.with(|b| b.get())
}

/// An element owning memory of its own.
#[derive(Clone, PartialEq)]
struct Owner(Box<[f64; 2]>, Option<Box<u8>>);
impl RTreeObject for Owner {
    type Envelope = AABB<[f64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        AABB::from_point(*self.0)
    }
}
/// As large as a node and with spare values, so that a node takes no more
/// space than an element.
#[derive(Clone, PartialEq)]
struct Niche([f64; 8], bool, Option<Box<u8>>);
impl RTreeObject for Niche {
    type Envelope = AABB<[f64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        AABB::from_point([self.0[0], self.0[1]])
    }
}
trait Elm: RTreeObject + Sized {
    fn mk(p: [i32; 3]) -> Self;
}
impl Elm for [f64; 2] {
    fn mk(p: [i32; 3]) -> Self {
        [p[0] as f64, p[1] as f64]
    }
}
impl Elm for [i8; 2] {
    fn mk(p: [i32; 3]) -> Self {
        [p[0] as i8 / 4, p[1] as i8 / 4]
    }
}
impl Elm for [f32; 3] {
    fn mk(p: [i32; 3]) -> Self {
        [p[0] as f32, p[1] as f32, p[2] as f32]
    }
}
impl Elm for [f64; 6] {
    fn mk(p: [i32; 3]) -> Self {
        [p[0] as f64, p[1] as f64, p[2] as f64, 0.0, 1.0, p[0] as f64]
    }
}
impl Elm for Owner {
    fn mk(p: [i32; 3]) -> Self {
        Owner(Box::new([p[0] as f64, p[1] as f64]), Some(Box::new(1)))
    }
}
impl Elm for Niche {
    fn mk(p: [i32; 3]) -> Self {
        Niche(
            [p[0] as f64, p[1] as f64, 0., 0., 0., 0., 0., 0.],
            true,
            Some(Box::new(2)),
        )
    }
}
type Big = GeomWithData<CachedEnvelope<Rectangle<[f64; 2]>>, (String, [u64; 20])>;
impl Elm for Big {
    fn mk(p: [i32; 3]) -> Self {
        let r =
            Rectangle::from_corners([p[0] as f64, p[1] as f64], [p[0] as f64 + 1.0, p[1] as f64]);
        GeomWithData::new(CachedEnvelope::new(r), ("x".repeat(40), [3; 20]))
    }
}

/// Slots in use, and slots that may be there: twice as many, but (as vectors
/// that grow have) at least four per node.
fn slots<T: RTreeObject>(n: &ParentNode<T>, nodes: &mut usize) -> (usize, usize) {
    *nodes += 1;
    let k = n.children().len();
    let mut sum = (k, (2 * k).max(4));
    for c in n.children() {
        if let RTreeNode::Parent(p) = c {
            let s = slots(p, nodes);
            sum = (sum.0 + s.0, sum.1 + s.1);
        }
    }
    sum
}

#[derive(Debug)]
struct Meas {
    retained: i64,
    need: i64,
    allowed: i64,
    nodes: usize,
}
fn measure<T: Elm, P: RTreeParams>(n: usize, cap: usize, pattern: &str) -> Result<Meas, String> {
    let us = universe(Kind::Point, 3, pattern, n);
    let start = bytes();
    let mut v: Vec<T> = Vec::with_capacity(cap);
    let empty = bytes() - start;
    v.extend(us.iter().map(|e| T::mk([e.a[0], e.a[1], e.a[2]])));
    // memory owned by the elements themselves
    let own = bytes() - start - empty;
    let tree = RTree::<T, P>::bulk_load_with_params(v);
    let retained = bytes() - start - own;
    let mut nodes = 0;
    let size = std::mem::size_of::<RTreeNode<T>>() as i64;
    let (need, allowed) = slots(tree.root(), &mut nodes);
    let (need, allowed) = (need as i64 * size, allowed as i64 * size);
    if tree.size() != n {
        return Err(format!("the tree has {} elements", tree.size()));
    }
    drop(tree);
    if bytes() != start {
        return Err(format!(
            "{} bytes are not returned when the tree is dropped",
            bytes() - start
        ));
    }
    Ok(Meas {
        retained,
        need,
        allowed,
        nodes,
    })
}
type F = fn(usize, usize, &str) -> Result<Meas, String>;
macro_rules! table {
    ($($name:literal, $t:ty, $p:ty;)*) => {
        /// name, measurement, bytes per slot, MAX_SIZE
        const TABLE: &[(&str, F, usize, usize)] = &[$(($name, measure::<$t, $p>, std::mem::size_of::<RTreeNode<$t>>(), <$p>::MAX_SIZE),)*];
    };
}
table! {
    "[f64;2]", [f64; 2], DefaultParams;
    "[f64;2]-2-4-1", [f64; 2], Pm<2, 4, 1>;
    "[f64;2]-10-40-5", [f64; 2], Pm<10, 40, 5>;
    "[i8;2]", [i8; 2], DefaultParams;
    "[i8;2]-3-5-1", [i8; 2], Pm<3, 5, 1>;
    "[f32;3]", [f32; 3], DefaultParams;
    "[f64;6]-2-4-1", [f64; 6], Pm<2, 4, 1>;
    "[f64;6]", [f64; 6], DefaultParams;
    "owner", Owner, DefaultParams;
    "owner-2-4-1", Owner, Pm<2, 4, 1>;
    "niche", Niche, DefaultParams;
    "niche-2-4-1", Niche, Pm<2, 4, 1>;
    "niche-20-40-0", Niche, Pm<20, 40, 0>;
    "big", Big, DefaultParams;
    "big-1-4-2", Big, Pm<1, 4, 2>;
}
/// Twice what is needed; the root of an empty tree may have room for one node.
fn one(cfg: &str, n: usize, extra: usize, pattern: &str) -> Result<Meas, String> {
    let (_, f, size, max) = *TABLE.iter().find(|t| t.0 == cfg).expect("configuration");
    let m = guard(|| f(n, n + extra, pattern))
        .unwrap_or_else(|p| Err(format!("panicked: {p}")))
        .map_err(|e| {
            format!(
                "[{cfg}] {n} elements ({pattern}) from capacity {}: {e}",
                n + extra
            )
        })?;
    let limit = if n == 0 {
        ((max + 1) * size) as i64
    } else {
        m.allowed
    };
    if m.retained > limit {
        return Err(format!(
            "[{cfg}] {n} elements ({pattern}) from capacity {}: {} bytes retained, {} nodes need {} bytes",
            n + extra,
            m.retained,
            m.nodes,
            m.need
        ));
    }
    Ok(m)
}
fn replay(v: &Value) -> Result<(), String> {
    let n = v["n"].as_u64().unwrap() as usize;
    let (cfg, pat) = (v["cfg"].as_str().unwrap(), v["pattern"].as_str().unwrap());
    if std::env::var("RMC_TRACE").is_ok() {
        eprintln!("AT bulk loading {v} 1");
    }
    one(cfg, n, v["extra"].as_u64().unwrap() as usize, pat).map(|_| ())
}

struct Nothing;
impl Prop for Nothing {
    fn owns(&self, _: &Op, _: Why) -> bool {
        false
    }
    fn visit(&self, _: &mut World, _: &Uni, _: &Menu, _: &mut Stats) -> Result<(), String> {
        Ok(())
    }
}
struct S;
impl Suite for S {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        if id != "C24" {
            return None;
        }
        let q = tier == Tier::Quick;
        let mut ns: Vec<usize> = (0..=tier.pick(260, 1400)).collect();
        ns.extend(if q {
            vec![333, 500, 777, 1000, 1297, 1700, 2500, 4097, 7000, 10000]
        } else {
            (1400..12_000)
                .step_by(37)
                .chain([20_000, 33_333, 50_000])
                .collect::<Vec<_>>()
        });
        let pats: Vec<&'static str> = if q {
            vec!["lattice", "fewdup"]
        } else {
            vec!["lattice", "fewdup", "diag", "clusters", "perm"]
        };
        let mut js = Vec::new();
        for t in TABLE {
            for pat in &pats {
                let (name, pat, ns) = (t.0, *pat, ns.clone());
                js.push(Job::new(format!("{name} {pat}"), move |e, st| {
                    let (mut worst, mut at) = (0.0f64, 0);
                    for &n in &ns {
                        let mut extras = vec![0, 1, 7, n, 9 * n + 3];
                        if n <= 300 {
                            extras.push(50_000);
                        }
                        for extra in extras {
                            let v = json!({"kind": "bulk", "cfg": name, "n": n, "extra": extra, "pattern": pat});
                            e.announce_lazy(Box::new({
                                let v = v.clone();
                                move || v.clone()
                            }));
                            st.evals += 1;
                            match one(name, n, extra, pat) {
                                Ok(m) => {
                                    st.count("nodes_measured", m.nodes as u64);
                                    st.max_n = st.max_n.max(n as u64);
                                    st.outcomes.insert(mix(mix(m.nodes as u64, m.need as u64), m.retained as u64));
                                    if n >= 4 && m.retained as f64 / m.need as f64 > worst {
                                        worst = m.retained as f64 / m.need as f64;
                                        at = n;
                                    }
                                }
                                Err(m) => {
                                    e.report(v, m);
                                    return;
                                }
                            }
                        }
                        if e.stopped() {
                            return;
                        }
                        if e.out_of_time() {
                            st.truncated.push(format!("{name} {pat} n={n}"));
                            return;
                        }
                    }
                    if st.samples.len() < 12 {
                        st.samples.push(json!({"cfg": name, "pattern": pat, "largest_ratio": (worst * 1000.0).round() / 1000.0, "at_size": at}));
                    }
                }));
            }
        }
        Some(Check {
            prop: Arc::new(Nothing),
            jobs: js,
            level: "exploration",
            rule: "Every input length in the range, several spare capacities each, is bulk loaded under a counting allocator; bytes retained are compared with the bytes of the slots in use. An outcome is a distinct (nodes, bytes needed, bytes retained).",
            bounds: json!({"configurations": TABLE.iter().map(|t| t.0).collect::<Vec<_>>(), "every_size_up_to": tier.pick(260, 1400), "largest_size": ns.iter().max(), "extra_capacity": "0, 1, 7, n, 9n+3, 50000"}),
            assumptions: vec!["memory is what is requested from the global allocator, not its own overhead"],
            special: Some(replay),
        })
    }
}
fn main() {
    rmc::cli::main(&S, |_, _| None)
}

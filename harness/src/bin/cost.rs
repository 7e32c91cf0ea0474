//! C27: the work of operations on evenly spread elements, counted in
//! operations of the number type and calls of the element's methods.
use rmc::cli::*;
use rmc::explore::*;
use rmc::model::*;
use rstar::*;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;

thread_local!(static WORK: Cell<u64> = const { Cell::new(0) });
// Tells the watchdog that a long operation is not stuck (what runs too long is stopped by `CAP`).
thread_local!(static PULSE: RefCell<Option<Arc<AtomicU64>>> = const { RefCell::new(None) });
thread_local!(static CAP: Cell<u64> = const { Cell::new(u64::MAX) });
thread_local!(static TOO_MUCH: RefCell<Option<String>> = const { RefCell::new(None) });
fn too_much(m: String) -> ! {
    TOO_MUCH.with(|t| *t.borrow_mut() = Some(m));
    std::panic::panic_any(Injected)
}
fn tick() {
    let n = WORK.with(|w| {
        w.set(w.get() + 1);
        w.get()
    });
    if n % (1 << 18) == 0 {
        PULSE.with(|p| p.borrow().as_ref().map(|p| p.fetch_add(1, SeqCst)));
    }
    if n > CAP.with(|c| c.get()) && !std::thread::panicking() {
        too_much(format!("{n} operations in all"));
    }
}
thread_local!(static CLOCK: Cell<bool> = const { Cell::new(false) });
fn work() -> u64 {
    if CLOCK.with(|c| c.get()) {
        return clock();
    }
    WORK.with(|w| w.get())
}
/// Nanoseconds this thread has been computing.
fn clock() -> u64 {
    #[repr(C)]
    struct Spec(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, spec: *mut Spec) -> i32;
    }
    const THREAD_CPUTIME: i32 = 3;
    let mut s = Spec(0, 0);
    unsafe { clock_gettime(THREAD_CPUTIME, &mut s) };
    s.0 as u64 * 1_000_000_000 + s.1 as u64
}

/// An integer that counts what is done with it.
#[derive(Clone, Copy, Debug)]
struct N(i64);
macro_rules! ops {
    ($($tr:ident $f:ident $op:tt;)*) => {$(
        impl std::ops::$tr for N {
            type Output = N;
            fn $f(self, o: N) -> N {
                tick();
                N(self.0 $op o.0)
            }
        }
    )*};
}
ops! { Add add +; Sub sub -; Mul mul *; Div div /; Rem rem %; }
impl PartialEq for N {
    fn eq(&self, o: &N) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for N {
    fn partial_cmp(&self, o: &N) -> Option<std::cmp::Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
}
impl std::ops::Neg for N {
    type Output = N;
    fn neg(self) -> N {
        N(-self.0)
    }
}
impl num_traits::Zero for N {
    fn zero() -> Self {
        N(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl num_traits::One for N {
    fn one() -> Self {
        N(1)
    }
}
impl num_traits::Num for N {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
        Err(())
    }
}
impl num_traits::Signed for N {
    fn abs(&self) -> Self {
        N(self.0.abs())
    }
    fn abs_sub(&self, o: &Self) -> Self {
        N((self.0 - o.0).max(0))
    }
    fn signum(&self) -> Self {
        N(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0
    }
}
impl num_traits::Bounded for N {
    fn min_value() -> Self {
        N(i64::MIN / 4)
    }
    fn max_value() -> Self {
        N(i64::MAX / 4)
    }
}

/// A box of some extent (zero: a point).
#[derive(Debug)]
struct E<const D: usize>([N; D], i64);
impl<const D: usize> Clone for E<D> {
    fn clone(&self) -> Self {
        tick();
        E(self.0, self.1)
    }
}
impl<const D: usize> E<D> {
    fn far(&self) -> [N; D] {
        self.0.map(|c| N(c.0 + self.1))
    }
}
impl<const D: usize> PartialEq for E<D> {
    fn eq(&self, o: &E<D>) -> bool {
        tick();
        self.1 == o.1 && self.0.iter().zip(&o.0).all(|(a, b)| a.0 == b.0)
    }
}
impl<const D: usize> RTreeObject for E<D> {
    type Envelope = AABB<[N; D]>;
    fn envelope(&self) -> AABB<[N; D]> {
        tick();
        AABB::from_corners(self.0, self.far())
    }
}
impl<const D: usize> PointDistance for E<D> {
    fn distance_2(&self, p: &[N; D]) -> N {
        tick();
        let f = |a: i64, x: i64| (a - x).max(x - a - self.1).max(0).pow(2);
        N((0..D).map(|i| f(self.0[i].0, p[i].0)).sum())
    }
    fn contains_point(&self, p: &[N; D]) -> bool {
        tick();
        (0..D).all(|i| self.0[i].0 <= p[i].0 && p[i].0 <= self.0[i].0 + self.1)
    }
}
struct Wide;
impl RTreeParams for Wide {
    const MIN_SIZE: usize = 8;
    const MAX_SIZE: usize = 24;
    const REINSERTION_COUNT: usize = 7;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}

/// Distance of neighbouring positions.
const STEP: i64 = 6;
/// The `i`th of `n` positions of a square (cubic, ..) lattice.
fn lattice<const D: usize>(i: usize, side: usize, ext: i64) -> E<D> {
    let mut j = i;
    E(
        [(); D].map(|_| {
            let c = j % side;
            j /= side;
            N(c as i64 * STEP)
        }),
        ext,
    )
}
fn side<const D: usize>(n: usize) -> usize {
    (1..).find(|s: &usize| s.pow(D as u32) >= n).unwrap()
}
/// A number coprime to `n` near its golden section: multiples of it modulo `n` are well spread.
fn stride(n: usize) -> usize {
    fn gcd(a: usize, b: usize) -> usize {
        if b == 0 {
            a
        } else {
            gcd(b, a % b)
        }
    }
    let s = (n as f64 * 0.618) as usize;
    (s.max(1)..).find(|s| gcd(*s, n) == 1).unwrap_or(1)
}

/// Work per kind of operation: the largest per result, and its total.
struct Table {
    max: BTreeMap<&'static str, (u64, u64)>,
    /// By the clock: the time of every call.
    calls: BTreeMap<&'static str, Vec<u64>>,
    cfg: &'static str,
    how: &'static str,
    n: usize,
}
impl Table {
    fn put(&mut self, what: &'static str, per: u64, total: u64) {
        if CLOCK.with(|c| c.get()) {
            return self.calls.entry(what).or_default().push(per);
        }
        if self.max.get(what).is_none_or(|e| per > e.0) {
            self.max.insert(what, (per, total));
            let limit = limit(self.cfg, self.how, what, self.n);
            if per as f64 > limit {
                too_much(format!("{what}: {per} operations on coordinates and elements per result ({total} in all); {limit:.0} are allowed"));
            }
        }
    }
}

fn note(t: &mut Table, what: &'static str, before: u64, reported: usize) {
    let w = work() - before;
    // what is reported may cost something each
    t.put(what, w / (1 + reported as u64), w);
}

fn tree<const D: usize, P: RTreeParams>(
    how: &str,
    n: usize,
    ext: i64,
    t: &mut Table,
) -> RTree<E<D>, P> {
    let s = side::<D>(n);
    let st = stride(n);
    let at = |i: usize| match how {
        "inserted in order" => lattice(i, s, ext),
        _ => lattice(i * st % n, s, ext),
    };
    let w = work();
    let mut tree = if how == "bulk" || how == "bulk, half renewed" {
        let tree = RTree::bulk_load_with_params((0..n).map(at).collect());
        t.put(
            "bulk loading, per element",
            (work() - w) / n as u64,
            work() - w,
        );
        tree
    } else {
        let mut tree = RTree::new_with_params();
        (0..n).for_each(|i| {
            let w = work();
            tree.insert(at(i));
            note(t, "insertion", w, 0);
        });
        t.put("insertion, on average", (work() - w) / n as u64, work() - w);
        tree
    };
    if how == "bulk, half renewed" {
        for i in (0..n).step_by(2) {
            let x = at(i);
            if tree.remove(&x).is_some() {
                tree.insert(x);
            }
        }
    }
    tree
}

struct Box_<const D: usize>(AABB<[N; D]>);
impl<const D: usize> SelectionFunction<E<D>> for Box_<D> {
    fn should_unpack_parent(&self, e: &AABB<[N; D]>) -> bool {
        self.0.intersects(e)
    }
    fn should_unpack_leaf(&self, e: &E<D>) -> bool {
        self.0.intersects(&e.envelope())
    }
}

fn queries<const D: usize, P: RTreeParams>(
    t: &mut RTree<E<D>, P>,
    n: usize,
    ext: i64,
    probes: usize,
    tab: &mut Table,
) {
    let s = side::<D>(n);
    // probes at positions of elements, between them, and a little outside
    let mut ps: Vec<[N; D]> = Vec::new();
    let step = (n / probes).max(1);
    for i in (0..n).step_by(step) {
        let e = lattice::<D>(i, s, ext);
        ps.push(e.0);
        ps.push(e.0.map(|c| N(c.0 + STEP / 2)));
        ps.push(e.0.map(|c| N(c.0 - 1)));
    }
    macro_rules! m {
        ($what:expr, $e:expr) => {{
            let w = work();
            let k: usize = $e;
            note(tab, $what, w, k);
        }};
    }
    const GO: ControlFlow<()> = ControlFlow::Continue(());
    for p in ps {
        let b = |r: i64| AABB::from_corners(p, p.map(|c| N(c.0 + r)));
        let r2 = N(STEP * STEP);
        m!("nearest_neighbor", {
            t.nearest_neighbor(p);
            0
        });
        m!("nearest_neighbors", t.nearest_neighbors(&p).len());
        m!("nearest_neighbor_iter, first", {
            t.nearest_neighbor_iter(p).next();
            0
        });
        m!(
            "nearest_neighbor_iter, five",
            t.nearest_neighbor_iter(p).take(5).count()
        );
        m!("locate_at_point", {
            t.locate_at_point(p);
            0
        });
        m!("locate_at_point_int", {
            t.locate_at_point_int(p);
            0
        });
        m!("locate_at_point_mut", {
            t.locate_at_point_mut(p);
            0
        });
        m!("locate_all_at_point", t.locate_all_at_point(p).count());
        m!(
            "locate_all_at_point_mut",
            t.locate_all_at_point_mut(p).count()
        );
        m!("locate_all_at_point_int", {
            let mut k = 0;
            let _ = t.locate_all_at_point_int(p, |_| {
                k += 1;
                GO
            });
            k
        });
        m!("contains", {
            t.contains(&E(p, ext));
            0
        });
        for r in [0, 2 * STEP] {
            m!("locate_in_envelope", t.locate_in_envelope(b(r)).count());
            m!(
                "locate_in_envelope_mut",
                t.locate_in_envelope_mut(b(r)).count()
            );
            m!("locate_in_envelope_int", {
                let mut k = 0;
                let _ = t.locate_in_envelope_int(b(r), |_| {
                    k += 1;
                    GO
                });
                k
            });
            m!(
                "locate_in_envelope_intersecting",
                t.locate_in_envelope_intersecting(b(r)).count()
            );
            m!(
                "locate_in_envelope_intersecting_mut",
                t.locate_in_envelope_intersecting_mut(b(r)).count()
            );
            m!("locate_in_envelope_intersecting_int_mut", {
                let mut k = 0;
                let _ = t.locate_in_envelope_intersecting_int_mut(b(r), |_| {
                    k += 1;
                    GO
                });
                k
            });
        }
        for r2 in [N(-1), N(0), N(1), r2] {
            m!(
                "locate_within_distance",
                t.locate_within_distance(p, r2).count()
            );
        }
        m!(
            "locate_with_selection_function",
            t.locate_with_selection_function(Box_(b(STEP))).count()
        );
        m!(
            "locate_with_selection_function_mut",
            t.locate_with_selection_function_mut(Box_(b(STEP))).count()
        );
        let one = |t: &mut RTree<E<D>, P>, what, x: Option<E<D>>, w: u64, tab: &mut Table| {
            note(tab, what, w, 0);
            if let Some(x) = x {
                t.insert(x);
            }
        };
        let w = work();
        let x = t.remove(&E(p, ext));
        one(t, "remove", x, w, tab);
        let w = work();
        let x = t.remove_at_point(p);
        one(t, "remove_at_point", x, w, tab);
        let w = work();
        let x = t.remove_with_selection_function(Box_(b(STEP)));
        one(t, "remove_with_selection_function", x, w, tab);
        let w = work();
        let x = t.pop_nearest_neighbor(p);
        one(t, "pop_nearest_neighbor", x, w, tab);
        let w = work();
        let xs: Vec<_> = t.drain_in_envelope_intersecting(b(STEP)).collect();
        note(tab, "drain_in_envelope_intersecting", w, xs.len());
        xs.into_iter().for_each(|x| t.insert(x));
        let w = work();
        let xs: Vec<_> = t.drain_within_distance(p, r2).collect();
        note(tab, "drain_within_distance", w, xs.len());
        xs.into_iter().for_each(|x| t.insert(x));
        if CLOCK.with(|c| c.get()) {
            m!("size", {
                t.size();
                0
            });
            m!("iter, five", t.iter().take(5).count());
            m!("iter_mut, five", t.iter_mut().take(5).count());
            let w = work();
            let x = t.drain().next();
            one(t, "drain, first", x, w, tab);
            let w = work();
            t.insert(E(p, ext));
            note(tab, "insertion", w, 0);
            t.remove(&E(p, ext));
        }
    }
    // insertion at new positions and removal again
    let w = work();
    let mut k = 0;
    for i in (0..n).step_by(step) {
        let x = E(lattice::<D>(i, s, ext).0.map(|c| N(c.0 + 1)), ext);
        t.insert(x);
        k += 1;
    }
    tab.put(
        "insertion, on average, more",
        (work() - w) / (k as u64).max(1),
        work() - w,
    );
}

/// Two trees of interleaved elements: the work of a join, per element and pair.
fn join<const D: usize, P: RTreeParams>(t: &RTree<E<D>, P>, n: usize, ext: i64, tab: &mut Table) {
    let s = side::<D>(n);
    let o: RTree<E<D>> = RTree::bulk_load(
        (0..n)
            .map(|i| E(lattice::<D>(i, s, ext).0.map(|c| N(c.0 + 1)), ext))
            .collect(),
    );
    let mut c = RTree::new();
    t.iter().for_each(|x| c.insert(x.clone()));
    let w = work();
    let k = c.intersection_candidates_with_other_tree(&o).count();
    tab.put(
        "join, per element and pair",
        (work() - w) / (n + k) as u64,
        work() - w,
    );
}

fn measure<const D: usize, P: RTreeParams>(
    cfg: &'static str,
    how: &'static str,
    n: usize,
    ext: i64,
    probes: usize,
) -> Result<Table, String> {
    let mut tab = Table {
        max: BTreeMap::new(),
        calls: BTreeMap::new(),
        cfg,
        how,
        n,
    };
    WORK.with(|w| w.set(0));
    CAP.with(|c| c.set(100_000_000 + n as u64 * 30_000));
    guard(|| {
        let mut t = tree::<D, P>(how, n, ext, &mut tab);
        queries(&mut t, n, ext, probes, &mut tab);
        join(&t, n, ext, &mut tab);
    })
    .map_err(|p| {
        TOO_MUCH
            .with(|t| t.borrow_mut().take())
            .unwrap_or(format!("panicked: {p}"))
    })?;
    Ok(tab)
}
/// No operation on one element may take longer than this: a hundredth of the
/// time it takes to look at each element once.
const TOO_LONG: Duration = Duration::from_micros(1500);
/// The time of operations on a tree of many elements.  What only happens now
/// and then (the thread is interrupted) is not counted: a call takes as long as
/// the fastest of several.
fn timed(
    how: &'static str,
    n: usize,
    probes: usize,
) -> Result<BTreeMap<&'static str, u64>, String> {
    let tab = || Table {
        max: BTreeMap::new(),
        calls: BTreeMap::new(),
        cfg: "2d",
        how,
        n,
    };
    CAP.with(|c| c.set(100_000_000 + n as u64 * 30_000));
    WORK.with(|w| w.set(0));
    let r = guard(|| {
        // what building takes is counted elsewhere
        CLOCK.with(|c| c.set(true));
        let mut t = tree::<2, DefaultParams>(how, n, 0, &mut tab());
        let mut best: BTreeMap<&'static str, Vec<u64>> = BTreeMap::new();
        for _ in 0..4 {
            let mut pass = tab();
            queries(&mut t, n, 0, probes, &mut pass);
            for (what, calls) in pass.calls {
                let b = best.entry(what).or_default();
                b.resize(calls.len(), u64::MAX);
                b.iter_mut().zip(calls).for_each(|(b, c)| *b = c.min(*b));
            }
        }
        best.into_iter()
            .map(|(what, calls)| (what, calls.into_iter().max().unwrap_or(0)))
            .collect::<BTreeMap<_, _>>()
    });
    CLOCK.with(|c| c.set(false));
    let r = r.map_err(|p| format!("tree {how} of {n} elements: panicked: {p}"))?;
    for (what, ns) in &r {
        if *ns as u128 > TOO_LONG.as_nanos() {
            return Err(format!(
                "tree {how} of {n} elements: {what}: {} us per result; {} are allowed",
                ns / 1000,
                TOO_LONG.as_micros()
            ));
        }
    }
    Ok(r)
}
type Measure = fn(&'static str, &'static str, usize, i64, usize) -> Result<Table, String>;
const CFGS: [(&str, Measure); 4] = [
    ("2d", measure::<2, DefaultParams>),
    ("2d-8-24", measure::<2, Wide>),
    ("3d", measure::<3, DefaultParams>),
    ("3d-8-24", measure::<3, Wide>),
];
const HOWS: [&str; 4] = [
    "bulk",
    "inserted",
    "inserted in order",
    "bulk, half renewed",
];
const EXTENTS: [i64; 3] = [0, 4, 7];

/// What was measured when this was written, per configuration, way to build
/// the tree and operation: the largest quotient of the work (per element
/// reported) and the logarithm of the number of elements, over all extents and
/// sizes below and from 500.
const BASE: &str = include_str!("../../cost_base.txt");
/// The work may be this many times more (small trees, large trees).
const SLACK: [f64; 2] = [4.0, 3.0];
type Bases = HashMap<(&'static str, &'static str, &'static str), [f64; 2]>;
fn bases() -> &'static Bases {
    static B: OnceLock<Bases> = OnceLock::new();
    B.get_or_init(|| {
        BASE.lines()
            .map(|l| {
                let f: Vec<&str> = l.split('\t').collect();
                (
                    (f[0], f[1], f[2]),
                    [f[3].parse().unwrap(), f[4].parse().unwrap()],
                )
            })
            .collect()
    })
}
fn class(n: usize) -> usize {
    (n >= 500) as usize
}
fn limit(cfg: &'static str, how: &'static str, what: &'static str, n: usize) -> f64 {
    match bases().get(&(cfg, how, what)) {
        Some(b) => SLACK[class(n)] * b[class(n)] * log(n),
        None if std::env::var("RMC_MEASURE").is_ok() => f64::MAX,
        None => panic!("no base for {cfg} {how} {what}"),
    }
}
fn log(n: usize) -> f64 {
    1.0 + (n as f64).log2()
}

fn judge(cfg: &str, how: &str, n: usize, ext: i64, probes: usize) -> Result<Table, String> {
    let (cfg, f) = CFGS.iter().find(|c| c.0 == cfg).expect("cfg");
    let how = HOWS.iter().find(|h| **h == how).expect("tree");
    f(cfg, how, n, ext, probes)
        .map_err(|m| format!("[{cfg}] tree {how} of {n} elements of extent {ext}: {m}"))
}
fn sizes(tier: Tier) -> Vec<usize> {
    let dense = tier.pick(200, 1200);
    let far: &[usize] = match tier {
        Tier::Quick => &[300, 500, 1000, 2500, 6000, 15_000, 40_000, 100_000],
        Tier::Thorough => &[
            1500, 2000, 3000, 4096, 6000, 10_000, 20_000, 46_656, 100_000, 262_144, 500_000,
            1_000_000,
        ],
    };
    (1..=dense).chain(far.iter().copied()).collect()
}
fn replay(v: &Value) -> Result<(), String> {
    if std::env::var("RMC_TRACE").is_ok() {
        eprintln!("AT {v} 1");
    }
    if v["kind"] == "time" {
        let how = HOWS.iter().find(|h| **h == v["tree"]).expect("tree");
        let n = v["n"].as_u64().unwrap() as usize;
        return timed(how, n, v["probes"].as_u64().unwrap() as usize).map(|_| ());
    }
    judge(
        v["cfg"].as_str().unwrap(),
        v["tree"].as_str().unwrap(),
        v["n"].as_u64().unwrap() as usize,
        v["extent"].as_i64().unwrap(),
        v["probes"].as_u64().unwrap() as usize,
    )
    .map(|_| ())
}

struct Nothing;
impl Prop for Nothing {
    fn owns(&self, _: &Op, _: Why) -> bool {
        false
    }
    fn visit(&self, _: &mut World, _: &Uni, _: &Menu, _: &mut Stats) -> Result<(), String> {
        Ok(())
    }
}
struct S;
impl Suite for S {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        if id != "C27" {
            return None;
        }
        let probes: usize = tier.pick(60, 400);
        let ns = sizes(tier);
        let largest = *ns.last().unwrap();
        let mut js = Vec::new();
        // the large ones first
        let (small, large): (Vec<usize>, Vec<usize>) = ns.iter().partition(|n| **n <= 1200);
        let mut parts: Vec<Vec<usize>> = large.into_iter().rev().map(|n| vec![n]).collect();
        parts.push(small);
        for (how, n) in [
            ("bulk", 1_000_000),
            ("inserted", tier.pick(250_000, 1_000_000)),
        ] {
            js.push(Job::new(
                format!("time, {how} {n}"),
                move |e: &Engine, st: &mut Stats| {
                    let v = json!({"kind": "time", "tree": how, "n": n, "probes": 12});
                    e.announce(|| v.clone());
                    PULSE.with(|p| *p.borrow_mut() = Some(e.pulse()));
                    match timed(how, n, 12) {
                        Ok(t) => {
                            st.evals += t.len() as u64;
                            st.samples.push(
                                json!({"tree": how, "elements": n, "nanoseconds per result": t}),
                            );
                        }
                        Err(m) => e.report(v, m),
                    }
                },
            ));
        }
        for part in parts {
            for (cfg, _) in CFGS {
                for how in HOWS {
                    for ext in EXTENTS {
                        let part = part.clone();
                        js.push(Job::new(format!("{cfg} {how} {ext} {}", part[0]), move |e: &Engine, st: &mut Stats| {
                            for &n in &part {
                                let v = json!({"kind": "cost", "cfg": cfg, "tree": how, "n": n, "extent": ext, "probes": probes});
                                e.announce(|| v.clone());
                                PULSE.with(|p| *p.borrow_mut() = Some(e.pulse()));
                                match judge(cfg, how, n, ext, probes) {
                                    Ok(t) => {
                                        st.evals += t.max.len() as u64;
                                        st.max_n = st.max_n.max(n as u64);
                                        st.count("operations_counted", work());
                                        for (k, x) in &t.max {
                                            st.outcomes.insert(rmc::geom::mix(k.len() as u64, x.1));
                                        }
                                        if st.samples.len() < 4 && n == largest {
                                            st.samples.push(json!({"cfg": cfg, "tree": how, "extent": ext, "elements": n,
                                                "work per result": t.max.iter().map(|(k, v)| (k.to_string(), json!(v.0))).collect::<serde_json::Map<_, _>>()}));
                                        }
                                    }
                                    Err(m) => return e.report(v, m),
                                }
                                if e.stopped() {
                                    return;
                                }
                                if e.out_of_time() {
                                    st.truncated.push(format!("{cfg} {how} {ext} from {n}"));
                                    return;
                                }
                            }
                        }));
                    }
                }
            }
        }
        Some(Check {
            prop: Arc::new(Nothing),
            jobs: js,
            level: "exploration",
            rule: "Trees of every size of the range, built in every listed way from an even lattice; every operation of the menu at every probe position is run with a number type and elements that count what is done with them. The count per reported element must not exceed a fixed multiple of the logarithm of the number of elements. An outcome is a distinct (operation, count).",
            bounds: json!({"configurations": CFGS.iter().map(|c| c.0).collect::<Vec<_>>(), "trees": HOWS, "extents": EXTENTS,
                "every_size_up_to": tier.pick(200, 1200), "sizes": ns.iter().filter(|n| **n > 200).collect::<Vec<_>>(),
                "probes": format!("{probes} positions of elements, as many between them and as many beside them"), "slack": SLACK}),
            assumptions: vec![
                "work is what is done with coordinates and elements; what is done with neither (moving a node) is not counted",
                "the constant is what was measured when the check was written, with slack; growth beyond the largest size is not claimed",
            ],
            special: Some(replay),
        })
    }
}
fn measure_all() {
    let todo = Mutex::new(
        CFGS.iter()
            .flat_map(|c| {
                HOWS.iter()
                    .flat_map(move |h| EXTENTS.iter().map(move |e| (c.0, *h, *e)))
            })
            .collect::<Vec<_>>(),
    );
    let b: Mutex<BTreeMap<(&str, &str, &str), [f64; 2]>> = Default::default();
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let Some((cfg, how, ext)) = todo.lock().unwrap().pop() else {
                    return;
                };
                for n in sizes(Tier::Quick) {
                    let t = judge(cfg, how, n, ext, if n < 500 { 60 } else { 400 }).unwrap();
                    let mut b = b.lock().unwrap();
                    for (k, v) in t.max {
                        let x = &mut b.entry((cfg, how, k)).or_default()[class(n)];
                        *x = x.max(v.0 as f64 / log(n));
                    }
                }
            });
        }
    });
    for ((cfg, how, k), v) in b.into_inner().unwrap() {
        println!("{cfg}\t{how}\t{k}\t{:.1}\t{:.1}", v[0], v[1]);
    }
}
fn main() {
    if std::env::args().nth(1).as_deref() == Some("measure") {
        std::env::set_var("RMC_MEASURE", "1");
        return measure_all();
    }
    rmc::cli::main(&S, |_, _| None)
}

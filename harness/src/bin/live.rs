//! C25: simultaneously live queries.
use rmc::cli::*;
use rmc::explore::*;
use rmc::gen::*;
use rmc::geom::*;
use rmc::model::*;
use rmc::sut::*;
use rstar::{ParentNode, RTree, RTreeNode, SelectionFunction, AABB};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

type P2 = [f64; 2];
type T = <ProbeS<PairS<P2>> as Spec>::T;
type S0 = ProbeS<PairS<P2>>;
type Tree = RTree<T>;
type Other = RTree<T, Pm<2, 4, 1>>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    Iter,
    In,
    Inter,
    InterAll,
    At,
    Within,
    Custom,
    NnIter,
    NnPlain,
    JoinOther,
    JoinSelf,
    // one-shot queries
    Nn,
    Nns,
    One,
    Contains,
    IntIn,
    IntInter,
    IntAt,
    IntBreak,
    Clone,
    Walk,
    /// Updates of a private copy: nothing outside it may notice.
    Update,
    Load,
    Drain,
    IntoIter,
}
const ALL: &[Q] = &[
    Q::Iter,
    Q::In,
    Q::Inter,
    Q::InterAll,
    Q::At,
    Q::Within,
    Q::Custom,
    Q::NnIter,
    Q::NnPlain,
    Q::JoinOther,
    Q::JoinSelf,
    Q::Nn,
    Q::Nns,
    Q::One,
    Q::Contains,
    Q::IntIn,
    Q::IntInter,
    Q::IntAt,
    Q::IntBreak,
    Q::Clone,
    Q::Walk,
    Q::Update,
    Q::Load,
    Q::Drain,
    Q::IntoIter,
];

struct Odd;
impl SelectionFunction<T> for Odd {
    fn should_unpack_parent(&self, _: &AABB<P2>) -> bool {
        tick();
        true
    }
    fn should_unpack_leaf(&self, t: &T) -> bool {
        tick();
        S0::key(t) % 3 != 1
    }
}

/// A shared tree and the arguments of the queries on it.
struct Scene {
    a: Tree,
    b: Tree,
    c: Other,
    half: [AABB<P2>; 2],
    pts: [P2; 3],
    probe: [T; 2],
}
unsafe impl Sync for Scene {}

fn scene(n: usize, pattern: &str, bulk: bool) -> Scene {
    let us = universe(Kind::Pair, 2, pattern, n.max(1));
    let el = |i: usize| S0::make(&us[i % us.len()], i as u32, &UNIT);
    let (mut a, mut b, mut c) = (Tree::new(), Tree::new(), Other::new_with_params());
    if bulk {
        a = Tree::bulk_load((0..n).map(el).collect());
        c = Other::bulk_load_with_params((0..n).map(el).collect());
    } else {
        (0..n).for_each(|i| a.insert(el(i)));
        (0..n).for_each(|i| c.insert(el(n - 1 - i)));
    }
    (0..n / 2).for_each(|i| b.insert(el(i * 2)));
    let e = a.root().envelope();
    let (lo, hi) = if n == 0 {
        ([0.0, 0.0], [1.0, 1.0])
    } else {
        (e.lower(), e.upper())
    };
    let mid = [
        ((lo[0] + hi[0]) / 2.0).floor(),
        ((lo[1] + hi[1]) / 2.0).floor(),
    ];
    let p0 = mkpt::<P2>(&us[us.len() / 2].a, &UNIT);
    Scene {
        a,
        b,
        c,
        half: [AABB::from_corners(lo, mid), AABB::from_corners(mid, hi)],
        pts: [p0, mid, [hi[0] + 3.0, lo[1]]],
        probe: [el(n / 2), el(0)],
    }
}

type It<'a> = Box<dyn Iterator<Item = u64> + 'a>;
fn k(t: &T) -> u64 {
    S0::key(t)
}
fn kd(x: (&T, f64)) -> u64 {
    mix(k(x.0), x.1.to_bits())
}
fn walk(n: &ParentNode<T>, out: &mut Vec<u64>) {
    out.push(envhash(&n.envelope()));
    for c in n.children() {
        match c {
            RTreeNode::Leaf(t) => out.push(k(t)),
            RTreeNode::Parent(p) => walk(p, out),
        }
    }
}
/// A drain of a private copy of the tree.
struct PrivateDrain {
    it: Option<Box<dyn Iterator<Item = T>>>,
    tree: *mut Tree,
}
impl PrivateDrain {
    fn new(t: &Tree, bx: AABB<P2>) -> Self {
        let tree = Box::into_raw(Box::new(t.clone()));
        // the iterator is dropped before the tree
        let it: Box<dyn Iterator<Item = T>> =
            Box::new(unsafe { &mut *tree }.drain_in_envelope_intersecting(bx));
        PrivateDrain { it: Some(it), tree }
    }
}
impl Iterator for PrivateDrain {
    type Item = u64;
    fn next(&mut self) -> Option<u64> {
        self.it.as_mut().unwrap().next().map(|t| k(&t))
    }
}
impl Drop for PrivateDrain {
    fn drop(&mut self) {
        self.it = None;
        let t = unsafe { Box::from_raw(self.tree) };
        assert_eq!(t.iter().count(), t.size(), "size after a drain");
    }
}
/// A query with the `v`-th choice of arguments, as an iterator; one-shot
/// queries run at the first poll.
fn start<'a>(q: Q, v: usize, s: &'a Scene) -> It<'a> {
    let t = if v % 2 == 0 { &s.a } else { &s.b };
    let (bx, p) = (s.half[v % 2], s.pts[v % 3]);
    fn once<'a>(f: impl FnOnce() -> u64 + 'a) -> It<'a> {
        Box::new(std::iter::once_with(f))
    }
    fn fold(v: Vec<u64>) -> u64 {
        v.into_iter().fold(9, mix)
    }
    match q {
        Q::Iter => Box::new(t.iter().map(k)),
        Q::In => Box::new(t.locate_in_envelope(bx).map(k)),
        Q::Inter => Box::new(t.locate_in_envelope_intersecting(bx).map(k)),
        Q::InterAll => Box::new(
            t.locate_in_envelope_intersecting(t.root().envelope())
                .map(k),
        ),
        Q::At => Box::new(t.locate_all_at_point(p).map(k)),
        Q::Within => Box::new(t.locate_within_distance(p, 30.0 + 100.0 * v as f64).map(k)),
        Q::Custom => Box::new(t.locate_with_selection_function(Odd).map(k)),
        Q::NnIter => Box::new(t.nearest_neighbor_iter_with_distance_2(p).map(kd)),
        Q::NnPlain => Box::new(t.nearest_neighbor_iter(p).map(k)),
        Q::JoinOther => Box::new(
            s.c.intersection_candidates_with_other_tree(t)
                .map(|(x, y)| mix(k(x), k(y))),
        ),
        Q::JoinSelf => Box::new(
            t.intersection_candidates_with_other_tree(t)
                .map(|(x, y)| mix(k(x), k(y))),
        ),
        Q::Nn => once(move || t.nearest_neighbor_with_distance_2(p).map_or(0, kd)),
        Q::Nns => once(move || fold(t.nearest_neighbors(&p).into_iter().map(k).collect())),
        Q::One => once(move || {
            t.locate_at_point(p).map_or(0, k) ^ t.locate_at_point_int(p).map_or(0, k) << 9
        }),
        Q::Contains => once(move || {
            t.contains(&s.probe[v % 2]) as u64 + 2 * t.contains(&s.probe[(v + 1) % 2]) as u64
        }),
        Q::IntIn => once(move || {
            let mut o = vec![];
            let _ = t.locate_in_envelope_int(bx, |x| {
                tick();
                o.push(k(x));
                ControlFlow::<()>::Continue(())
            });
            fold(o)
        }),
        Q::IntInter => once(move || {
            let mut o = vec![];
            let _ = t.locate_in_envelope_intersecting_int(bx, |x| {
                tick();
                o.push(k(x));
                ControlFlow::<()>::Continue(())
            });
            fold(o)
        }),
        Q::IntAt => once(move || {
            let mut o = vec![];
            let _ = t.locate_all_at_point_int(p, |x| {
                tick();
                o.push(k(x));
                ControlFlow::<()>::Continue(())
            });
            fold(o)
        }),
        Q::IntBreak => once(move || {
            let mut n = 0;
            let r = t.locate_in_envelope_intersecting_int(t.root().envelope(), |x| {
                tick();
                n += 1;
                if n == 3 {
                    ControlFlow::Break(k(x))
                } else {
                    ControlFlow::Continue(())
                }
            });
            match r {
                ControlFlow::Break(x) => x + 1,
                ControlFlow::Continue(()) => 0,
            }
        }),
        Q::Clone => once(move || {
            let c = t.clone();
            fold(c.iter().map(k).collect())
        }),
        Q::Walk => once(move || {
            let mut o = vec![t.size() as u64];
            walk(t.root(), &mut o);
            fold(o)
        }),
        Q::Update => once(move || {
            let mut c = t.clone();
            let mut o = vec![];
            for i in 0..4 {
                c.insert(s.probe[i % 2].clone());
            }
            o.push(c.remove(&s.probe[v % 2]).map_or(0, |x| k(&x)));
            o.push(c.remove_at_point(p).map_or(0, |x| k(&x)));
            o.push(c.pop_nearest_neighbor(p).map_or(0, |x| k(&x)));
            o.extend(c.drain_within_distance(p, 9.0).take(2).map(|x| k(&x)));
            o.push(c.size() as u64);
            walk(c.root(), &mut o);
            fold(o)
        }),
        Q::Load => once(move || {
            let c = Other::bulk_load_with_params(t.iter().cloned().collect());
            let mut o = vec![];
            walk(c.root(), &mut o);
            fold(o)
        }),
        Q::Drain => Box::new(PrivateDrain::new(t, bx)),
        Q::IntoIter => Box::new(t.clone().into_iter().map(|x| k(&x))),
    }
}
fn alone(q: Q, v: usize, s: &Scene) -> Vec<u64> {
    start(q, v, s).collect()
}

// ---------------------------------------------------------------- step interleavings

/// One query in an interleaving: started, polled `polls` times, dropped.
struct Track<'a> {
    q: Q,
    v: usize,
    s: &'a Scene,
    want: &'a [u64],
    polls: usize,
    it: Option<It<'a>>,
    done: usize,
}
impl<'a> Track<'a> {
    fn new(q: Q, v: usize, s: &'a Scene, want: &'a [u64], polls: usize) -> Self {
        Track {
            q,
            v,
            s,
            want,
            polls,
            it: None,
            done: 0,
        }
    }
    /// Performs the next step.
    fn step(&mut self) -> Result<(), String> {
        if self.done == 0 {
            self.it = Some(start(self.q, self.v, self.s));
        } else if self.done <= self.polls {
            let i = self.done - 1;
            let got = self.it.as_mut().unwrap().next();
            let want = self.want.get(i).copied();
            if got != want {
                return Err(format!(
                    "result {i} of {:?}/{} is {got:?}, alone it is {want:?}",
                    self.q, self.v
                ));
            }
        } else {
            self.it = None;
        }
        self.done += 1;
        Ok(())
    }
}
/// Runs one interleaving, given as the index of the track to advance.
fn run_order(
    s: &Scene,
    qs: &[(Q, usize, usize)],
    want: &[Vec<u64>],
    order: &[u8],
) -> Result<(), String> {
    let mut tr: Vec<Track> = qs
        .iter()
        .zip(want)
        .map(|(q, w)| Track::new(q.0, q.1, s, w, q.2))
        .collect();
    for o in order {
        tr[*o as usize].step()?;
    }
    Ok(())
}
/// All merges of tracks with `left` remaining steps.
fn merges(left: &mut [usize], order: &mut Vec<u8>, f: &mut dyn FnMut(&[u8]) -> bool) -> bool {
    if left.iter().all(|l| *l == 0) {
        return f(order);
    }
    for i in 0..left.len() {
        if left[i] > 0 {
            left[i] -= 1;
            order.push(i as u8);
            let go = merges(left, order, f);
            order.pop();
            left[i] += 1;
            if !go {
                return false;
            }
        }
    }
    true
}

// ---------------------------------------------------------------- reentrancy

/// Runs `outer`; its `at`-th callback runs `inner` (or polls it twice, if it
/// was started before).
fn reenter(
    s: &Scene,
    outer: (Q, usize),
    inner: (Q, usize),
    at: u64,
    before: bool,
) -> Result<bool, String> {
    let (wo, wi) = (alone(outer.0, outer.1, s), alone(inner.0, inner.1, s));
    // the scene outlives the closure, which is dropped below
    let st: &'static Scene = unsafe { &*(s as *const Scene) };
    let got: Rc<RefCell<Option<Vec<u64>>>> = Rc::default();
    let early: Rc<RefCell<Option<It<'static>>>> = Rc::new(RefCell::new(None));
    let mut head = Vec::new();
    if before {
        let mut it = start(inner.0, inner.1, st);
        head.extend(it.next());
        *early.borrow_mut() = Some(it);
    }
    let (g, e) = (got.clone(), early.clone());
    TICKS.with(|t| {
        *t.act.borrow_mut() = Some(Box::new(move || {
            let mut e = e.borrow_mut();
            *g.borrow_mut() = Some(match e.as_mut() {
                Some(it) => it.by_ref().take(2).collect(),
                None => alone(inner.0, inner.1, st),
            });
        }))
    });
    arm(at);
    let o: Vec<u64> = start(outer.0, outer.1, s).collect();
    disarm();
    TICKS.with(|t| *t.act.borrow_mut() = None);
    let fired = got.borrow().is_some();
    if o != wo {
        return Err(format!(
            "{outer:?} gives {o:?} instead of {wo:?} when {inner:?} runs in its callback {at}"
        ));
    }
    let mut all = head;
    all.extend(got.borrow_mut().take().into_iter().flatten());
    if let Some(it) = early.borrow_mut().take() {
        all.extend(it);
    }
    if (fired || before) && all != wi {
        return Err(format!(
            "{inner:?} gives {all:?} instead of {wi:?} in callback {at} of {outer:?}"
        ));
    }
    Ok(fired)
}
fn callbacks(s: &Scene, q: (Q, usize)) -> u64 {
    arm(u64::MAX);
    alone(q.0, q.1, s);
    disarm()
}

// ---------------------------------------------------------------- crowds and nesting

/// `copies` instances of each of the queries, all started and polled once
/// before any of them is finished; some of them are dropped early.
fn crowd(s: &Scene, qs: &[(Q, usize)], want: &[Vec<u64>], copies: usize) -> Result<(), String> {
    let mut live: Vec<(usize, usize, It)> = Vec::new();
    let bad = |j: usize, i: usize, got: Option<u64>, n: usize| {
        format!(
            "result {i} of {:?} is {got:?} with {n} queries alive, alone it is {:?}",
            qs[j],
            want[j].get(i)
        )
    };
    for c in 0..copies {
        for (j, q) in qs.iter().enumerate() {
            let mut it = start(q.0, q.1, s);
            let polls = c % 3;
            for i in 0..polls {
                let got = it.next();
                if got != want[j].get(i).copied() {
                    return Err(bad(j, i, got, live.len() + 1));
                }
            }
            live.push((j, polls, it));
        }
    }
    // whole queries while all the others are alive
    for (j, q) in qs.iter().enumerate() {
        if alone(q.0, q.1, s) != want[j] {
            return Err(format!(
                "{q:?} differs while {} queries are alive",
                live.len()
            ));
        }
    }
    // drop every fifth, then one step each in turn, then to the end in reverse
    let mut n = 0;
    live.retain(|_| {
        n += 1;
        n % 5 != 0
    });
    let total = live.len();
    for (j, i, it) in live.iter_mut() {
        let got = it.next();
        if got != want[*j].get(*i).copied() {
            return Err(bad(*j, *i, got, total));
        }
        *i += 1;
    }
    while let Some((j, i, it)) = live.pop() {
        let rest: Vec<u64> = it.collect();
        if rest[..] != want[j][i.min(want[j].len())..] {
            return Err(format!(
                "{:?} ends with {} instead of {} results with {} queries alive",
                qs[j],
                rest.len(),
                want[j].len().saturating_sub(i),
                live.len() + 1
            ));
        }
    }
    Ok(())
}

struct Nest {
    s: *const Scene,
    qs: Vec<(Q, usize)>,
    want: Vec<Vec<u64>>,
    /// Callbacks made by the query at each level that is running.
    made: Vec<u64>,
    at: u64,
    depth: usize,
    deepest: usize,
    err: Option<String>,
}
thread_local!(static NEST: RefCell<Option<Nest>> = const { RefCell::new(None) });
/// A callback: the `at`-th one of every level runs the next level's query.
fn nest_point() {
    let go = NEST.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.as_mut()?;
        let l = n.made.len();
        let c = n.made.last_mut()?;
        *c += 1;
        if *c != n.at + 1 || l >= n.depth {
            return None;
        }
        n.made.push(0);
        n.deepest = n.deepest.max(l + 1);
        Some((n.s, n.qs[l % n.qs.len()], l % n.qs.len()))
    });
    if let Some((s, q, j)) = go {
        let r = alone(q.0, q.1, unsafe { &*s });
        NEST.with(|n| {
            let mut n = n.borrow_mut();
            let n = n.as_mut().unwrap();
            if r != n.want[j] && n.err.is_none() {
                n.err = Some(format!(
                    "{q:?} gives {} instead of {} results (or other ones) {} levels deep inside callbacks of other queries",
                    r.len(),
                    n.want[j].len(),
                    n.made.len() - 1
                ));
            }
            n.made.pop();
        });
    }
}
/// Queries inside callbacks of queries inside callbacks ...; gives the depth
/// reached.
fn nest(s: &Scene, qs: &[(Q, usize)], at: u64, depth: usize) -> Result<usize, String> {
    let want: Vec<Vec<u64>> = qs.iter().map(|q| alone(q.0, q.1, s)).collect();
    let w0 = want[0].clone();
    NEST.with(|n| {
        *n.borrow_mut() = Some(Nest {
            s,
            qs: qs.to_vec(),
            want,
            made: vec![0],
            at,
            depth,
            deepest: 1,
            err: None,
        })
    });
    TICKS.with(|t| t.every.set(Some(nest_point)));
    let r = guard(|| alone(qs[0].0, qs[0].1, s));
    TICKS.with(|t| t.every.set(None));
    let n = NEST.with(|n| n.borrow_mut().take()).unwrap();
    let r = r.map_err(|p| format!("nested queries panicked: {p}"))?;
    if let Some(m) = n.err {
        return Err(m);
    }
    if r != w0 {
        return Err(format!("{:?} gives {} instead of {} results (or other ones) with queries nested in its callbacks", qs[0], r.len(), w0.len()));
    }
    Ok(n.deepest)
}

// ---------------------------------------------------------------- threads

/// A scheduler that lets one thread run at a time; control changes hands only
/// at scheduling points (callbacks and polls).
struct Sched {
    m: Mutex<SchedState>,
    c: Condvar,
}
struct SchedState {
    turn: usize,
    finished: Vec<bool>,
    /// Points at which control is taken away from the running thread.
    preempt: Vec<u64>,
    point: u64,
    stuck: bool,
}
thread_local!(static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) });
fn sched_point() {
    let x = ME.with(|m| m.borrow().clone());
    if let Some((s, me)) = x {
        s.point(me);
    }
}
impl Sched {
    fn wait(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        while g.turn != me && !g.stuck {
            let before = g.point;
            let (h, t) = self.c.wait_timeout(g, Duration::from_millis(1500)).unwrap();
            g = h;
            if t.timed_out() && g.point == before && g.turn != me {
                // the running thread is blocked on something the others hold
                g.stuck = true;
                self.c.notify_all();
            }
        }
    }
    fn other(g: &SchedState, me: usize) -> Option<usize> {
        let n = g.finished.len();
        (1..n).map(|i| (me + i) % n).find(|i| !g.finished[*i])
    }
    fn point(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.point += 1;
        let p = g.point;
        if g.preempt.contains(&p) {
            if let Some(o) = Self::other(&g, me) {
                g.turn = o;
                self.c.notify_all();
                drop(g);
                self.wait(me);
            }
        }
    }
    fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.finished[me] = true;
        if let Some(o) = Self::other(&g, me) {
            g.turn = o;
        }
        self.c.notify_all();
    }
}
/// Runs the queries on one thread each with the given preemption points;
/// returns the number of scheduling points.
fn threads(
    s: &Scene,
    qs: &[(Q, usize)],
    want: &[Vec<u64>],
    preempt: &[u64],
) -> Result<u64, String> {
    let sched = Arc::new(Sched {
        m: Mutex::new(SchedState {
            turn: 0,
            finished: vec![false; qs.len()],
            preempt: preempt.to_vec(),
            point: 0,
            stuck: false,
        }),
        c: Condvar::new(),
    });
    let out: Vec<Result<Vec<u64>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = qs
            .iter()
            .enumerate()
            .map(|(me, q)| {
                let sched = sched.clone();
                sc.spawn(move || {
                    sched.wait(me);
                    ME.with(|m| *m.borrow_mut() = Some((sched.clone(), me)));
                    TICKS.with(|t| t.every.set(Some(sched_point)));
                    let r = guard(|| {
                        let mut it = start(q.0, q.1, s);
                        let mut v = Vec::new();
                        loop {
                            sched.point(me);
                            match it.next() {
                                Some(x) => v.push(x),
                                None => break v,
                            }
                        }
                    });
                    TICKS.with(|t| t.every.set(None));
                    sched.finish(me);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for ((q, w), o) in qs.iter().zip(want).zip(out) {
        let o = o.map_err(|p| format!("{q:?} panicked on its thread: {p}"))?;
        if &o != w {
            return Err(format!(
                "{q:?} gives {o:?} instead of {w:?} when preempted at {preempt:?}"
            ));
        }
    }
    let n = sched.m.lock().unwrap().point;
    Ok(n)
}

struct Pass<'a>(It<'a>);
unsafe impl Send for Pass<'_> {}
/// Every poll of the query happens on another thread.
fn handed_over(s: &Scene, q: (Q, usize), want: &[u64]) -> Result<(), String> {
    let mut it = Pass(start(q.0, q.1, s));
    let mut got = Vec::new();
    for _ in 0..=want.len() {
        let (i2, r) = std::thread::scope(|sc| {
            sc.spawn(move || {
                let mut w = it;
                let r = guard(|| {
                    let p: &mut Pass = &mut w;
                    p.0.next()
                });
                (w, r)
            })
            .join()
            .unwrap()
        });
        it = i2;
        match r.map_err(|p| format!("{q:?} polled on several threads panicked: {p}"))? {
            Some(x) => got.push(x),
            None => break,
        }
    }
    if got != want {
        return Err(format!(
            "{q:?} gives {got:?} instead of {want:?} when polled on several threads"
        ));
    }
    Ok(())
}

/// Is the type `Send` / `Sync`?  Decided without failing to compile.
struct Ask<X>(PhantomData<X>);
#[allow(dead_code)]
trait Neither {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<X> Neither for Ask<X> {}
struct AskSend<X>(PhantomData<X>);
impl<X> Neither for AskSend<X> {}
impl<X: Sync> Ask<X> {
    const SYNC: bool = true;
}
impl<X: Send> AskSend<X> {
    const SEND: bool = true;
}
fn auto_traits() -> Result<(), String> {
    type R = RTree<P2>;
    type R2 =
        RTree<rstar::primitives::GeomWithData<rstar::primitives::Line<P2>, String>, Pm<2, 4, 1>>;
    let facts = [
        ("RTree is Sync", Ask::<R>::SYNC),
        ("RTree is Send", AskSend::<R>::SEND),
        ("RTree of lines is Sync", Ask::<R2>::SYNC),
        ("RTree of lines is Send", AskSend::<R2>::SEND),
        ("AABB is Send", AskSend::<AABB<P2>>::SEND),
        ("a node is Sync", Ask::<RTreeNode<P2>>::SYNC),
        (
            "an iterator is Send",
            AskSend::<rstar::iterators::RTreeIterator<'static, P2>>::SEND,
        ),
        (
            "a nearest neighbor iterator is Send",
            AskSend::<rstar::iterators::NearestNeighborIterator<'static, P2>>::SEND,
        ),
        (
            "a selection is Send",
            AskSend::<rstar::iterators::LocateInEnvelope<'static, P2>>::SEND,
        ),
        (
            "an intersection iterator is Send",
            AskSend::<rstar::iterators::IntersectionIterator<'static, P2>>::SEND,
        ),
    ];
    assert!(
        !Ask::<std::cell::Cell<u8>>::SYNC
            && !AskSend::<Rc<u8>>::SEND
            && AskSend::<std::cell::Cell<u8>>::SEND
    );
    for (w, ok) in facts {
        if !ok {
            return Err(format!("no longer true: {w}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- suite

fn q_of(v: &Value) -> (Q, usize) {
    let n = v[0].as_str().unwrap();
    (
        *ALL.iter().find(|q| format!("{q:?}") == n).expect("query"),
        v[1].as_u64().unwrap() as usize,
    )
}
fn qj(q: &(Q, usize)) -> Value {
    json!([format!("{:?}", q.0), q.1])
}
fn scene_of(v: &Value) -> Scene {
    scene(
        v["n"].as_u64().unwrap() as usize,
        v["pattern"].as_str().unwrap(),
        v["bulk"].as_bool().unwrap(),
    )
}
fn replay(v: &Value) -> Result<(), String> {
    if std::env::var("RMC_TRACE").is_ok() {
        eprintln!("AT {v} 1");
    }
    guard(|| replay_inner(v)).unwrap_or_else(|p| Err(format!("a query panicked: {p}")))
}
fn replay_inner(v: &Value) -> Result<(), String> {
    if v["kind"] == "auto" {
        return auto_traits();
    }
    let s = scene_of(v);
    let qs: Vec<(Q, usize)> = v["qs"].as_array().unwrap().iter().map(q_of).collect();
    let want: Vec<Vec<u64>> = qs.iter().map(|q| alone(q.0, q.1, &s)).collect();
    let ints = |k: &str| -> Vec<u64> {
        v[k].as_array()
            .unwrap()
            .iter()
            .map(|x| x.as_u64().unwrap())
            .collect()
    };
    match v["kind"].as_str().unwrap() {
        "steps" => {
            let q3: Vec<(Q, usize, usize)> = qs
                .iter()
                .zip(ints("polls"))
                .map(|(q, p)| (q.0, q.1, p as usize))
                .collect();
            run_order(
                &s,
                &q3,
                &want,
                &ints("order").iter().map(|x| *x as u8).collect::<Vec<_>>(),
            )
        }
        "reenter" => reenter(
            &s,
            qs[0],
            qs[1],
            v["at"].as_u64().unwrap(),
            v["before"].as_bool().unwrap(),
        )
        .map(|_| ()),
        "threads" => threads(&s, &qs, &want, &ints("preempt")).map(|_| ()),
        "crowd" => crowd(&s, &qs, &want, v["copies"].as_u64().unwrap() as usize),
        "nest" => nest(
            &s,
            &qs,
            v["at"].as_u64().unwrap(),
            v["depth"].as_u64().unwrap() as usize,
        )
        .map(|_| ()),
        "pass" => handed_over(&s, qs[0], &want[0]),
        "repeat" => repeat(&s, qs[0]),
        x => panic!("kind {x}"),
    }
}
fn repeat(s: &Scene, q: (Q, usize)) -> Result<(), String> {
    let w = alone(q.0, q.1, s);
    for _ in 0..3 {
        let g = alone(q.0, q.1, s);
        if g != w {
            return Err(format!("{q:?} gives {g:?} after {w:?}"));
        }
    }
    Ok(())
}

struct Nothing;
impl Prop for Nothing {
    fn owns(&self, _: &Op, _: Why) -> bool {
        false
    }
    fn visit(&self, _: &mut World, _: &Uni, _: &Menu, _: &mut Stats) -> Result<(), String> {
        Ok(())
    }
}
/// Runs one execution; reports and returns false on a deviation.
fn attempt(
    e: &Engine,
    st: &mut Stats,
    v: &dyn Fn() -> Value,
    f: impl FnOnce() -> Result<(), String>,
) -> bool {
    e.beat();
    st.traces += 1;
    st.evals += 1;
    match guard(f).unwrap_or_else(|p| Err(format!("a query panicked: {p}"))) {
        Ok(()) => true,
        Err(m) => {
            TICKS.with(|t| *t.act.borrow_mut() = None);
            e.report(v(), m);
            false
        }
    }
}

struct S;
impl Suite for S {
    fn isolated(&self, _: &str) -> bool {
        true
    }
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        if id != "C25" {
            return None;
        }
        let q = tier == Tier::Quick;
        let scenes: Vec<(usize, &'static str, bool)> = if q {
            vec![
                (0, "lattice", false),
                (3, "lattice", false),
                (9, "fewdup", false),
                (20, "lattice", true),
                (60, "perm", false),
                (130, "nested", true),
            ]
        } else {
            vec![
                (0, "lattice", false),
                (1, "dup", true),
                (3, "lattice", false),
                (7, "dup", false),
                (9, "fewdup", false),
                (14, "perm", true),
                (20, "lattice", true),
                (40, "clusters", false),
                (60, "perm", false),
                (130, "nested", true),
            ]
        };
        let mut js = vec![Job::new("auto traits", |e, st| {
            st.evals += 1;
            if let Err(m) = auto_traits() {
                e.report(json!({"kind": "auto"}), m);
            }
        })];
        let pairs: Vec<(usize, usize)> = (0..ALL.len())
            .flat_map(|a| (a..ALL.len()).map(move |b| (a, b)))
            .collect();
        for (n, pat, bulk) in scenes.clone() {
            let base = move || json!({"n": n, "pattern": pat, "bulk": bulk});
            let with = move |kind: &str, qs: &[(Q, usize)], more: &[(&str, Value)]| {
                let mut v = base();
                v["kind"] = json!(kind);
                v["qs"] = json!(qs.iter().map(qj).collect::<Vec<_>>());
                for (k, x) in more {
                    v[*k] = x.clone();
                }
                v
            };
            for chunk in pairs.chunks(29) {
                let chunk = chunk.to_vec();
                let polls = tier.pick(5, 7);
                js.push(Job::new(format!("steps {n} {pat}"), move |e, st| {
                    let s = scene(n, pat, bulk);
                    for (ia, ib) in &chunk {
                        for (va, vb) in [(0, 0), (0, 1)] {
                            let (a, b) = ((ALL[*ia], va), (ALL[*ib], vb));
                            let want = vec![alone(a.0, a.1, &s), alone(b.0, b.1, &s)];
                            // polled past the end where that is within reach
                            let pl = |w: &Vec<u64>| (w.len() + 1).min(polls);
                            let mut variants = vec![(pl(&want[0]), pl(&want[1]))];
                            if va == vb {
                                variants.push((1, pl(&want[1])));
                            }
                            for (pa, pb) in variants {
                                let qs = [(a.0, a.1, pa), (b.0, b.1, pb)];
                                let mut left = [pa + 2, pb + 2];
                                e.announce_lazy(Box::new(move || with("steps", &[a, b], &[("polls", json!([pa, pb])), ("order", json!(vec![0; pa + 2].into_iter().chain(vec![1; pb + 2]).collect::<Vec<u8>>()))])));
                                merges(&mut left, &mut Vec::new(), &mut |o| {
                                    st.transitions += o.len() as u64;
                                    attempt(e, st, &|| with("steps", &[a, b], &[("polls", json!([pa, pb])), ("order", json!(o))]), || run_order(&s, &qs, &want, o))
                                });
                                st.states += 1;
                                if want[0].len() + want[1].len() > 0 {
                                    st.nontrivial += 1;
                                }
                                st.outcomes.insert(want.iter().flatten().fold(5, |h, x| mix(h, *x)));
                                st.count("step_scopes", 1);
                                if e.stopped() {
                                    return;
                                }
                            }
                        }
                        if e.out_of_time() {
                            st.truncated.push(format!("steps {n} {pat}"));
                            return;
                        }
                    }
                    if st.samples.len() < 3 {
                        st.samples.push(json!({"scene": base(), "interleaved": format!("{:?}", chunk.iter().map(|(a, b)| (ALL[*a], ALL[*b])).take(4).collect::<Vec<_>>())}));
                    }
                }));
            }
            // three at once
            for ta in 0..ALL.len() {
                js.push(Job::new(
                    format!("triples {n} {pat} {:?}", ALL[ta]),
                    move |e, st| {
                        let s = scene(n, pat, bulk);
                        for (tb, tc) in
                            (ta..ALL.len()).flat_map(|b| (b..ALL.len()).map(move |c| (b, c)))
                        {
                            let qs = [
                                (ALL[ta], 0usize),
                                (ALL[tb], 0),
                                (ALL[tc], 2 * ((ta + tb) % 2)),
                            ];
                            let want: Vec<Vec<u64>> =
                                qs.iter().map(|q| alone(q.0, q.1, &s)).collect();
                            let q3: Vec<(Q, usize, usize)> =
                                qs.iter().map(|q| (q.0, q.1, 1)).collect();
                            let mut left = [3, 3, 3];
                            merges(&mut left, &mut Vec::new(), &mut |o| {
                                st.transitions += 9;
                                attempt(
                                    e,
                                    st,
                                    &|| {
                                        with(
                                            "steps",
                                            &qs,
                                            &[("polls", json!([1, 1, 1])), ("order", json!(o))],
                                        )
                                    },
                                    || run_order(&s, &q3, &want, o),
                                )
                            });
                            st.count("triples", 1);
                            if e.stopped() || e.out_of_time() {
                                return;
                            }
                        }
                    },
                ));
            }
            // reentrant queries
            for (oi, oq) in ALL.iter().enumerate() {
                let oq = *oq;
                js.push(Job::new(
                    format!("reenter {n} {pat} {oq:?}"),
                    move |e, st| {
                        let s = scene(n, pat, bulk);
                        for v in 0..2 {
                            let outer = (oq, v);
                            let total = callbacks(&s, outer);
                            let cap = tier.pick(30, 120);
                            for at in 0..total {
                                if at >= cap && (total <= cap || at % (total / cap + 1) != 0) {
                                    continue;
                                }
                                for (ii, iq) in ALL.iter().enumerate() {
                                    let inner = (*iq, (at as usize + oi + ii) % 3);
                                    for before in [false, true] {
                                        let f = move || {
                                            with(
                                                "reenter",
                                                &[outer, inner],
                                                &[("at", json!(at)), ("before", json!(before))],
                                            )
                                        };
                                        e.announce_lazy(Box::new(f));
                                        st.transitions += 1;
                                        if !attempt(e, st, &f, || {
                                            reenter(&s, outer, inner, at, before).map(|_| ())
                                        }) {
                                            return;
                                        }
                                        st.count("reentrant_queries", 1);
                                    }
                                }
                                if e.stopped() || e.out_of_time() {
                                    return;
                                }
                            }
                        }
                    },
                ));
            }
            // many at once, and deep nesting
            for (oi, oq) in ALL.iter().enumerate() {
                let oq = *oq;
                js.push(Job::new(format!("crowd {n} {pat} {oq:?}"), move |e, st| {
                    let s = scene(n, pat, bulk);
                    for ii in 0..ALL.len() {
                        let qs: Vec<(Q, usize)> = if ii == oi {
                            vec![(oq, 0)]
                        } else {
                            vec![(oq, 0), (ALL[ii], ii % 3)]
                        };
                        let want: Vec<Vec<u64>> = qs.iter().map(|q| alone(q.0, q.1, &s)).collect();
                        let all: &[usize] = if ii == oi {
                            &[2, 9, 40, 150, 300]
                        } else if q {
                            &[20]
                        } else {
                            &[5, 20, 70]
                        };
                        for &copies in all {
                            let f = {
                                let qs = qs.clone();
                                move || with("crowd", &qs, &[("copies", json!(copies))])
                            };
                            e.announce_lazy(Box::new(f.clone()));
                            st.transitions += (copies * qs.len()) as u64;
                            st.count("crowds", 1);
                            if !attempt(e, st, &f, || crowd(&s, &qs, &want, copies)) {
                                return;
                            }
                        }
                        for (at, depth) in [(0, 3), (1, 12), (0, 70), (2, 150)] {
                            if q && depth == 150 && ii != oi {
                                continue;
                            }
                            let f = {
                                let qs = qs.clone();
                                move || {
                                    with("nest", &qs, &[("at", json!(at)), ("depth", json!(depth))])
                                }
                            };
                            e.announce_lazy(Box::new(f.clone()));
                            st.transitions += depth as u64;
                            let mut reached = 0;
                            if !attempt(e, st, &f, || {
                                reached = nest(&s, &qs, at, depth)?;
                                Ok(())
                            }) {
                                return;
                            }
                            st.count("nested_runs", 1);
                            st.count("nested_levels", reached as u64);
                        }
                        if e.stopped() || e.out_of_time() {
                            return;
                        }
                    }
                }));
            }
            // threads
            if n >= 3 && n <= 40 {
                for a in 0..ALL.len() {
                    js.push(Job::new(
                        format!("threads {n} {pat} {:?}", ALL[a]),
                        move |e, st| {
                            let s = scene(n, pat, bulk);
                            for b in a..ALL.len() {
                                let qs = [(ALL[a], 0usize), (ALL[b], 0)];
                                let want: Vec<Vec<u64>> =
                                    qs.iter().map(|q| alone(q.0, q.1, &s)).collect();
                                let run = |pre: Vec<u64>, st: &mut Stats, total: &mut u64| {
                                    let f = {
                                        let pre = pre.clone();
                                        move || with("threads", &qs, &[("preempt", json!(pre))])
                                    };
                                    e.announce_lazy(Box::new(f.clone()));
                                    st.count("thread_schedules", 1);
                                    attempt(e, st, &f, || {
                                        *total = threads(&s, &qs, &want, &pre)?;
                                        Ok(())
                                    })
                                };
                                let mut total = 0;
                                if !run(vec![], st, &mut total) {
                                    return;
                                }
                                let cap = tier.pick(26, 60).min(total);
                                let pts: Vec<u64> = (0..cap)
                                    .map(|i| 1 + i * total.saturating_sub(1) / cap.max(1))
                                    .collect();
                                let mut d = 0;
                                for (i, x) in pts.iter().enumerate() {
                                    if !run(vec![*x], st, &mut d) {
                                        return;
                                    }
                                    for y in &pts[i + 1..] {
                                        if !run(vec![*x, *y], st, &mut d) {
                                            return;
                                        }
                                    }
                                    if e.stopped() || e.out_of_time() {
                                        return;
                                    }
                                }
                                st.count("scheduling_points", total);
                            }
                        },
                    ));
                }
            }
            js.push(Job::new(format!("hand over {n} {pat}"), move |e, st| {
                let s = scene(n, pat, bulk);
                for q in ALL {
                    for v in 0..2 {
                        let w = alone(*q, v, &s);
                        let f = || with("repeat", &[(*q, v)], &[]);
                        if !attempt(e, st, &f, || repeat(&s, (*q, v))) {
                            return;
                        }
                        if w.len() > 200 {
                            continue;
                        }
                        let f = || with("pass", &[(*q, v)], &[]);
                        if !attempt(e, st, &f, || handed_over(&s, (*q, v), &w)) {
                            return;
                        }
                    }
                }
            }));
        }
        Some(Check {
            prop: Arc::new(Nothing),
            jobs: js,
            level: "model_checking",
            rule: "Every merge of the steps (start, polls, drop) of every pair of queries, merges of triples, every query inside every callback of every other, two threads under a scheduler with up to two preemptions at callbacks and polls, crowds of live queries and deep nesting of queries inside callbacks; the steps include updates, drains and bulk loads of private trees; every result is compared with the query run alone. An outcome is a distinct pair of results.",
            bounds: json!({"scenes": scenes, "queries": ALL.iter().map(|q| format!("{q:?}")).collect::<Vec<_>>(), "polls_per_query": tier.pick(5, 7), "preemptions": 2, "preemption_points_per_pair": tier.pick(26, 60), "callbacks_per_outer_query": tier.pick(30, 120), "queries_alive_at_once": 300, "nesting_depth": 150}),
            assumptions: vec!["scheduling points are callbacks and polls: a race within a stretch of library code that makes no callback is not explored", "coordinates are small, so no arithmetic overflows"],
            special: Some(replay),
        })
    }
}
fn main() {
    rmc::cli::main(&S, |_, _| None)
}

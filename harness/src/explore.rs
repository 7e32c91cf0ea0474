//! Explicit-state / stateless exploration of operation histories.
use crate::geom::*;
use crate::model::*;
use crate::sut::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// Which query arguments a visit enumerates.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MenuKind {
    /// Every box and point over the grid spanned by the universe, plus a margin.
    Full,
    /// Critical subset for large universes.
    Sparse,
    /// A handful.
    Tiny,
    /// One or two, for very many or very large trees.
    Bare,
}

pub struct QPoint {
    pub p: Pt,
    pub d2: Vec<f64>,
    pub at: Bits,
    pub rads: Vec<(Rad, Bits)>,
}
pub struct QBox {
    pub b: Bx,
    pub inside: Bits,
    pub inter: Bits,
}
pub struct Menu {
    pub pts: Vec<QPoint>,
    pub boxes: Vec<QBox>,
}

fn axis_values(u: &Uni, ax: usize, margin: i32) -> Vec<i32> {
    let mut v: Vec<i32> = u.elems.iter().flat_map(|e| [e.a[ax], e.b[ax]]).collect();
    if v.is_empty() {
        v.push(0);
    }
    let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
    if margin > 0 {
        v.push(lo - margin);
        v.push(hi + margin);
    }
    v.sort();
    v.dedup();
    v
}
fn product(axes: &[Vec<i32>]) -> Vec<Pt> {
    let mut out = vec![[0; MAXD]];
    for (i, ax) in axes.iter().enumerate() {
        let mut next = Vec::new();
        for p in &out {
            for v in ax {
                let mut q = *p;
                q[i] = *v;
                next.push(q);
            }
        }
        out = next;
    }
    out
}
fn spread<T: Clone>(v: &[T], k: usize) -> Vec<T> {
    if v.len() <= k {
        return v.to_vec();
    }
    (0..k)
        .map(|i| v[i * (v.len() - 1) / (k - 1).max(1)].clone())
        .collect()
}

impl Menu {
    pub fn new(u: &Uni, sut: &dyn Sut, kind: MenuKind) -> Menu {
        let d = u.d;
        let mut pts: Vec<Pt> = Vec::new();
        let mut boxes: Vec<Bx> = Vec::new();
        let axes: Vec<Vec<i32>> = (0..d).map(|a| axis_values(u, a, 1)).collect();
        let lo: Pt = pt(&axes.iter().map(|a| a[0]).collect::<Vec<_>>());
        let hi: Pt = pt(&axes.iter().map(|a| *a.last().unwrap()).collect::<Vec<_>>());
        let mut mid = lo;
        for i in 0..d {
            mid[i] = lo[i] + (hi[i] - lo[i]) / 2;
        }
        match kind {
            MenuKind::Full => {
                let cap = match d {
                    2 => 7,
                    3 => 4,
                    _ => 3,
                };
                let ax: Vec<Vec<i32>> = axes.iter().map(|a| spread(a, cap)).collect();
                pts = product(&ax);
                let bcap = match d {
                    2 => 6,
                    3 => 3,
                    _ => 2,
                };
                let bx: Vec<Vec<i32>> = axes.iter().map(|a| spread(a, bcap)).collect();
                let corners = product(&bx);
                for a in &corners {
                    for b in &corners {
                        if (0..d).all(|i| a[i] <= b[i]) {
                            boxes.push(Bx { lo: *a, hi: *b });
                        }
                    }
                }
            }
            MenuKind::Sparse | MenuKind::Tiny => {
                let k = if kind == MenuKind::Tiny { 3 } else { 9 };
                let es = spread(&u.elems, k);
                for e in &es {
                    pts.push(e.a);
                    let mut q = e.b;
                    q[0] += 1;
                    pts.push(q);
                    boxes.push(e.bx(u.kind));
                }
                pts.extend([lo, hi, mid]);
                let mut far = hi;
                far[0] += 3 * (hi[0] - lo[0]).max(1);
                pts.push(far);
                for w in es.windows(2) {
                    boxes.push(Bx::new(w[0].a, w[1].b));
                }
                boxes.push(Bx { lo, hi });
                // half spaces
                for ax in 0..d {
                    let mut h = hi;
                    h[ax] = mid[ax];
                    boxes.push(Bx { lo, hi: h });
                    let mut l = lo;
                    l[ax] = mid[ax];
                    boxes.push(Bx { lo: l, hi });
                }
                // outside, and degenerate at the centre
                boxes.push(Bx { lo: far, hi: far });
                boxes.push(Bx { lo: mid, hi: mid });
            }
            MenuKind::Bare => {
                pts.push(mid);
                let mut q = mid;
                q.iter_mut().take(d).for_each(|x| *x += 2);
                boxes.push(Bx { lo: mid, hi: q });
            }
        }
        boxes.push(EMPTY);
        // far away in several directions
        if sut_max(sut) > 1e6 && kind != MenuKind::Bare {
            let mut r = hi;
            r.iter_mut().take(d).for_each(|x| *x += 1500);
            pts.push(r);
            r = mid;
            r[d - 1] = lo[d - 1] - 1501;
            pts.push(r);
            if kind != MenuKind::Tiny {
                r = lo;
                r[0] -= 1500;
                r[1] += 777;
                pts.push(r);
                if sut_max(sut) > 1e100 {
                    // elements of one column differ in the last bits of their distance
                    r = lo;
                    r[0] -= 1 << 24;
                    pts.push(r);
                }
            }
        }
        pts.sort();
        pts.dedup();
        let n = u.n();
        let nr = match kind {
            MenuKind::Full => 8,
            MenuKind::Sparse => 5,
            MenuKind::Tiny => 3,
            MenuKind::Bare => 1,
        };
        let pts = pts
            .into_iter()
            .map(|p| {
                let d2: Vec<f64> = (0..n).map(|i| u.d2(sut, i, &p)).collect();
                let at = u.sel_bits(sut, &Sel::At(p));
                let mut rads: Vec<Rad> = vec![Rad::Grid(-1), Rad::Max, Rad::Min];
                if !u.fuzzy {
                    rads.push(Rad::Grid(0));
                }
                if u.m.exact {
                    let mut g: Vec<i64> = u
                        .elems
                        .iter()
                        .map(|e| e.d2(u.kind, d, &p).floor() as i64)
                        .collect();
                    g.sort();
                    g.dedup();
                    for v in spread(&g, nr) {
                        rads.push(Rad::Grid(v));
                        rads.push(Rad::Grid(v - 1));
                        if v > 0 {
                            rads.push(Rad::Grid(v + 1));
                        }
                    }
                } else {
                    let ids: Vec<u32> = (0..n as u32).collect();
                    rads.extend(spread(&ids, nr).into_iter().map(Rad::Of));
                }
                let mut uniq: Vec<Rad> = Vec::new();
                for r in rads {
                    // a radius on a tiny integer type must be representable
                    if let Rad::Grid(g) = r {
                        let v = g as f64 * u.m.mul * u.m.mul;
                        if sut_max(sut) < v {
                            continue;
                        }
                    }
                    if !uniq.contains(&r) {
                        uniq.push(r);
                    }
                }
                let rads = uniq
                    .into_iter()
                    .map(|r| {
                        let b = u.sel_bits(sut, &Sel::Within(p, r.clone()));
                        (r, b)
                    })
                    .collect();
                QPoint { p, d2, at, rads }
            })
            .collect();
        let boxes = boxes
            .into_iter()
            .map(|b| QBox {
                b,
                inside: u.sel_bits(sut, &Sel::In(b)),
                inter: u.sel_bits(sut, &Sel::Inter(b)),
            })
            .collect();
        Menu { pts, boxes }
    }
}
fn sut_max(sut: &dyn Sut) -> f64 {
    sut.scalar_max()
}

// ---------------------------------------------------------------- statistics

#[derive(Default, Clone, Debug, Serialize, Deserialize)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evals: u64,
    pub foreign: u64,
    pub foreign_sample: Option<String>,
    pub max_n: u64,
    pub max_height: u64,
    pub nontrivial: u64,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<Value>,
    pub scopes: u64,
    pub truncated: Vec<String>,
    pub known: std::collections::BTreeSet<String>,
    pub extra: std::collections::BTreeMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.evals += o.evals;
        self.foreign += o.foreign;
        if self.foreign_sample.is_none() {
            self.foreign_sample = o.foreign_sample;
        }
        self.max_n = self.max_n.max(o.max_n);
        self.max_height = self.max_height.max(o.max_height);
        self.nontrivial += o.nontrivial;
        if self.outcomes.len() < 1_000_000 {
            self.outcomes.extend(o.outcomes);
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.scopes += o.scopes;
        self.truncated.extend(o.truncated);
        self.known.extend(o.known);
        for (k, v) in o.extra {
            *self.extra.entry(k).or_default() += v;
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_default() += n;
    }
}

// ---------------------------------------------------------------- cases

/// A complete, self-contained history: what a replay file holds.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub cfg: String,
    pub m: Mapping,
    pub elems: Vec<Elem>,
    pub ops: Vec<Op>,
    pub menu: MenuKind,
    /// Visit after every `every`-th operation (and always at the end).
    pub every: u32,
}

/// What a property's checker must provide.
pub trait Prop: Sync + Send {
    fn owns(&self, op: &Op, why: Why) -> bool;
    /// Like `owns`, knowing the history before `op`.
    fn owns_after(&self, _hist: &[Op], op: &Op, why: Why) -> bool {
        self.owns(op, why)
    }
    /// Evaluate the property in a state.  A panic inside counts as a deviation.
    fn visit(&self, w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> Result<(), String>;
    /// Only panics are the property's business; results are ignored.
    fn panics_only(&self) -> bool {
        false
    }
}

pub struct Job {
    pub label: String,
    /// Position in the check's list.
    pub index: usize,
    pub run: Box<dyn FnOnce(&Engine, &mut Stats) + Send>,
}
impl Job {
    pub fn new(
        label: impl Into<String>,
        run: impl FnOnce(&Engine, &mut Stats) + Send + 'static,
    ) -> Job {
        Job {
            label: label.into(),
            index: usize::MAX,
            run: Box::new(run),
        }
    }
}

pub struct Engine {
    pub prop_id: String,
    pub tier: Tier,
    pub prop: Arc<dyn Prop>,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub violations: Mutex<Vec<(Value, String)>>,
    pub slots: Vec<Slot>,
    pub crumbs: Option<String>,
    /// Keys of the recorded findings of this property.
    pub known: HashSet<String>,
}
#[derive(Default)]
pub struct Slot {
    pub beat: Arc<AtomicU64>,
    pub active: AtomicBool,
    pub what: Mutex<Option<Box<dyn Fn() -> Value + Send>>>,
}
thread_local!(static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
thread_local!(static JOB: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) });

pub type MakeSut = fn(&str, Mapping) -> Option<Box<dyn Sut>>;
pub static MAKE: Mutex<Option<MakeSut>> = Mutex::new(None);
pub fn make_sut(cfg: &str, m: Mapping) -> Box<dyn Sut> {
    let f = MAKE.lock().unwrap().expect("no registry");
    f(cfg, m).unwrap_or_else(|| panic!("unknown configuration {cfg}"))
}

impl Engine {
    pub fn beat(&self) {
        self.slots[WORKER.with(|w| w.get())]
            .beat
            .fetch_add(1, SeqCst);
    }
    /// The beat of this thread's worker, to be increased while it makes progress.
    pub fn pulse(&self) -> Arc<AtomicU64> {
        self.slots[WORKER.with(|w| w.get())].beat.clone()
    }
    /// Announce what is about to run, for the watchdog and crash analysis.
    pub fn announce(&self, f: impl FnOnce() -> Value) {
        let s = &self.slots[WORKER.with(|w| w.get())];
        s.beat.fetch_add(1, SeqCst);
        let v = f();
        if let Some(c) = &self.crumbs {
            let p = format!("{}.{}", c, WORKER.with(|w| w.get()));
            let _ = std::fs::write(p, serde_json::to_string(&v).unwrap());
        }
        *s.what.lock().unwrap() = Some(Box::new(move || v.clone()));
    }
    /// Like `announce`, but the description is only computed when needed.
    pub fn announce_lazy(&self, f: Box<dyn Fn() -> Value + Send>) {
        let s = &self.slots[WORKER.with(|w| w.get())];
        s.beat.fetch_add(1, SeqCst);
        if let Some(c) = &self.crumbs {
            let p = format!("{}.{}", c, WORKER.with(|w| w.get()));
            let _ = std::fs::write(p, serde_json::to_string(&f()).unwrap());
        }
        *s.what.lock().unwrap() = Some(f);
    }
    pub fn known_allowed(&self, key: &str) -> bool {
        self.known.contains(key)
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(SeqCst)
    }
    pub fn out_of_time(&self) -> bool {
        Instant::now() > self.deadline
    }
    pub fn report(&self, replay: Value, msg: String) {
        let mut v = self.violations.lock().unwrap();
        let mut replay = replay;
        let j = JOB.with(|j| j.get());
        if j != usize::MAX {
            // for behaviour that depends on what ran before in the process
            replay["job"] = json!({"index": j, "tier": self.tier.pick("quick", "thorough")});
        }
        if v.len() < 5 {
            v.push((replay, msg));
        }
        self.stop.store(true, SeqCst);
    }
    pub fn foreign(&self, st: &mut Stats, msg: &str) {
        st.foreign += 1;
        if st.foreign_sample.is_none() {
            st.foreign_sample = Some(msg.to_string());
        }
    }

    /// Run one history from scratch; report an owned deviation.
    pub fn run_case(&self, case: &Case, st: &mut Stats) -> bool {
        self.announce(|| json!({"kind": "case", "case": case}));
        match exec(case, &*self.prop, st, Some(self)) {
            Verdict::Ok => true,
            Verdict::Foreign(m) => {
                self.foreign(st, &m);
                false
            }
            Verdict::Bad(msg, upto) => {
                let mut c = case.clone();
                c.ops.truncate(upto);
                c.every = 0;
                let (c, msg) = self.shrink(c, msg);
                self.report(json!({"kind": "case", "case": c}), msg);
                false
            }
        }
    }
    /// Greedy minimisation of a failing history.
    fn shrink(&self, case: Case, msg: String) -> (Case, String) {
        let start = Instant::now();
        let mut st = Stats::default();
        let fails = |c: &Case, st: &mut Stats| match exec(c, &*self.prop, st, None) {
            Verdict::Bad(m, _) => Some(m),
            _ => None,
        };
        let mut best = case;
        let mut bmsg = match fails(&best, &mut st) {
            Some(m) => m,
            None => {
                // needs the intermediate visits
                best.every = 1;
                match fails(&best, &mut st) {
                    Some(m) => m,
                    None => return (best, format!("{msg} (not reproduced when minimising)")),
                }
            }
        };
        let mut chunk = (best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() {
                if start.elapsed() > Duration::from_secs(5) {
                    return (best, bmsg);
                }
                let mut c = best.clone();
                let j = (i + chunk).min(c.ops.len());
                c.ops.drain(i..j);
                self.beat();
                match fails(&c, &mut st) {
                    Some(m) => {
                        best = c;
                        bmsg = m;
                    }
                    None => i += chunk,
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // minimise bulk vectors
        for i in 0..best.ops.len() {
            if let Op::Bulk(v, _) = best.ops[i].clone() {
                let mut cur = v;
                let mut chunk = (cur.len() / 2).max(1);
                loop {
                    let mut k = 0;
                    while k < cur.len() {
                        if start.elapsed() > Duration::from_secs(8) {
                            return (best, bmsg);
                        }
                        let mut t = cur.clone();
                        let e = (k + chunk).min(t.len());
                        t.drain(k..e);
                        let mut c = best.clone();
                        if let Op::Bulk(x, _) = &mut c.ops[i] {
                            *x = t.clone();
                        }
                        self.beat();
                        match fails(&c, &mut st) {
                            Some(m) => {
                                best = c;
                                bmsg = m;
                                cur = t;
                            }
                            None => k += chunk,
                        }
                    }
                    if chunk == 1 {
                        break;
                    }
                    chunk /= 2;
                }
            }
        }
        (best, bmsg)
    }
}

pub enum Verdict {
    Ok,
    Foreign(String),
    /// message, number of operations executed
    Bad(String, usize),
}

fn height(w: &World) -> u64 {
    w.sut.height() as u64
}

fn visit(
    prop: &dyn Prop,
    w: &mut World,
    u: &Uni,
    menu: &Menu,
    st: &mut Stats,
) -> Result<(), String> {
    st.states += 1;
    st.max_n = st.max_n.max(w.n as u64);
    if w.n > 0 {
        st.nontrivial += 1;
    }
    match guard(|| prop.visit(w, u, menu, st)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(m)) => {
            if prop.panics_only() {
                Ok(())
            } else {
                Err(m)
            }
        }
        Err(p) => Err(format!("a query panicked: {p}")),
    }
}

/// Execute a history from scratch.
pub fn exec(case: &Case, prop: &dyn Prop, st: &mut Stats, eng: Option<&Engine>) -> Verdict {
    let sut = match guard(|| make_sut(&case.cfg, case.m)) {
        Ok(s) => s,
        Err(p) => {
            let m = format!("constructing an empty tree panicked: {p}");
            return if prop.owns(&Op::New, Why::Panic) {
                Verdict::Bad(m, 0)
            } else {
                Verdict::Foreign(m)
            };
        }
    };
    let u = Uni::new(&*sut, &case.elems, case.m);
    let menu = match guard(|| Menu::new(&u, &*sut, case.menu)) {
        Ok(m) => m,
        Err(p) => return Verdict::Foreign(format!("distance oracle panicked: {p}")),
    };
    let mut w = World::new(sut, &u);
    st.traces += 1;
    let trace = eng.is_none() && std::env::var("RMC_TRACE").is_ok();
    for (i, op) in case.ops.iter().enumerate() {
        st.transitions += 1;
        if let Some(e) = eng {
            e.beat();
        }
        if trace {
            let owned = prop.owns_after(&case.ops[..i], op, Why::Panic) as u8;
            eprintln!(
                "AT [{}] {} after {} {}",
                case.cfg,
                op.short(u.d),
                short_ops(&case.ops[..i], u.d),
                owned
            );
        }
        if let Err(d) = w.apply(&u, op) {
            let m = format!(
                "[{}] after {}: {}",
                case.cfg,
                short_ops(&case.ops[..i], u.d),
                d.msg
            );
            return if prop.owns_after(&case.ops[..i], op, d.why) {
                Verdict::Bad(m, i + 1)
            } else {
                Verdict::Foreign(m)
            };
        }
        let last = i + 1 == case.ops.len();
        if last || (case.every > 0 && (i + 1) % case.every as usize == 0) {
            if trace {
                eprintln!(
                    "AT [{}] a query after {} 1",
                    case.cfg,
                    short_ops(&case.ops[..i + 1], u.d)
                );
            }
            if let Err(m) = visit(prop, &mut w, &u, &menu, st) {
                let m = format!(
                    "[{}] after {}: {}",
                    case.cfg,
                    short_ops(&case.ops[..i + 1], u.d),
                    m
                );
                return Verdict::Bad(m, i + 1);
            }
            if last {
                st.max_height = st.max_height.max(height(&w));
            }
        }
    }
    if case.ops.is_empty() {
        if trace {
            eprintln!("AT [{}] a query on a new tree 1", case.cfg);
        }
        if let Err(m) = visit(prop, &mut w, &u, &menu, st) {
            return Verdict::Bad(format!("[{}] on a new tree: {}", case.cfg, m), 0);
        }
    }
    if let Some(e) = eng {
        if e.tier == Tier::Quick || st.samples.len() < 4 {
            if st.samples.len() < 3 {
                st.samples.push(json!({"cfg": case.cfg, "history": short_ops(&case.ops, u.d), "final_size": w.n}));
            }
        }
    }
    Verdict::Ok
}

// ---------------------------------------------------------------- BFS

pub struct Bfs {
    pub cfg: String,
    pub m: Mapping,
    pub elems: Vec<Elem>,
    pub seeds: Vec<Vec<Op>>,
    pub alphabet: Vec<Op>,
    pub depth: usize,
    /// Do not grow beyond this many elements.
    pub cap: usize,
    pub menu: MenuKind,
    /// Merge states with equal dumps.
    pub dedup: bool,
}

fn hash_dump(v: &[u64]) -> u128 {
    let (mut a, mut b) = (1u64, 0x5151_5151u64);
    for x in v {
        a = mix(a, *x);
        b = mix(b ^ 0xABCD_EF01, x.rotate_left(17));
    }
    (a as u128) << 64 | b as u128
}

impl Engine {
    pub fn bfs(&self, b: &Bfs, st: &mut Stats) {
        let sut = match guard(|| make_sut(&b.cfg, b.m)) {
            Ok(s) => s,
            Err(p) => return self.foreign(st, &p),
        };
        let u = Uni::new(&*sut, &b.elems, b.m);
        let menu = match guard(|| Menu::new(&u, &*sut, b.menu)) {
            Ok(m) => m,
            Err(p) => return self.foreign(st, &p),
        };
        let mk = |ops: &[Op]| Case {
            cfg: b.cfg.clone(),
            m: b.m,
            elems: b.elems.clone(),
            ops: ops.to_vec(),
            menu: b.menu,
            every: 0,
        };
        let mut seen: HashSet<u128> = HashSet::new();
        let mut dump = Vec::new();
        // (world, seed index, alphabet indices)
        let mut frontier: Vec<(World, usize, Vec<u16>)> = Vec::new();
        let full = |seed: usize, path: &[u16]| -> Vec<Op> {
            let mut ops = b.seeds[seed].clone();
            ops.extend(path.iter().map(|i| b.alphabet[*i as usize].clone()));
            ops
        };
        for (si, seed) in b.seeds.iter().enumerate() {
            // seeds are executed and visited from scratch
            let case = mk(seed);
            if !self.run_case(&case, st) {
                if self.stopped() {
                    return;
                }
                continue;
            }
            let sut = match guard(|| make_sut(&b.cfg, b.m)) {
                Ok(s) => s,
                Err(_) => continue,
            };
            let mut w = World::new(sut, &u);
            if seed.iter().any(|op| w.apply(&u, op).is_err()) {
                continue;
            }
            w.sut.dump(&mut dump);
            if seen.insert(hash_dump(&dump)) || !b.dedup {
                frontier.push((w, si, Vec::new()));
            }
        }
        for depth in 0..b.depth {
            let mut next = Vec::new();
            for (w, si, path) in frontier {
                if self.stopped() {
                    return;
                }
                if self.out_of_time() {
                    st.truncated.push(format!("{} depth {}", b.cfg, depth));
                    return;
                }
                for (ai, op) in b.alphabet.iter().enumerate() {
                    let grow = match op {
                        Op::Ins(_) => 1,
                        _ => 0,
                    };
                    if w.n + grow > b.cap {
                        continue;
                    }
                    let mut p2 = path.clone();
                    p2.push(ai as u16);
                    self.announce(|| {
                        json!({"kind": "path", "seed": b.seeds[si].len(), "case": mk(&full(si, &p2))})
                    });
                    let mut w2 = match guard(|| w.fork()) {
                        Ok(w) => w,
                        Err(p) => {
                            self.foreign(st, &format!("clone panicked: {p}"));
                            continue;
                        }
                    };
                    st.transitions += 1;
                    let r = match w2.apply(&u, op) {
                        Err(d) => Err((
                            d.msg.clone(),
                            self.prop.owns_after(&full(si, &path), op, d.why),
                        )),
                        Ok(()) => {
                            w2.sut.dump(&mut dump);
                            if b.dedup && !seen.insert(hash_dump(&dump)) {
                                st.traces += 1;
                                continue;
                            }
                            visit(&*self.prop, &mut w2, &u, &menu, st).map_err(|m| (m, true))
                        }
                    };
                    match r {
                        Ok(()) => {
                            if depth + 1 == b.depth {
                                st.traces += 1;
                                if st.samples.len() < 3 {
                                    st.samples.push(json!({"cfg": b.cfg, "history": short_ops(&full(si, &p2), u.d), "final_size": w2.n}));
                                }
                                st.max_height = st.max_height.max(height(&w2));
                            } else {
                                next.push((w2, si, p2));
                            }
                        }
                        Err((m, owned)) => {
                            if !owned {
                                self.foreign(st, &m);
                                continue;
                            }
                            // confirm by executing the history from scratch
                            let mut c = mk(&full(si, &p2));
                            let mut ok = self.run_case(&c, st);
                            if ok && !self.stopped() {
                                c.every = 1;
                                ok = self.run_case(&c, st);
                            }
                            if ok {
                                self.foreign(st, &format!("only after cloning: {m}"));
                            }
                            if self.stopped() {
                                return;
                            }
                        }
                    }
                }
            }
            frontier = next;
        }
    }

    /// Visit every insertion order of `perm` (all permutations), sharing prefixes.
    pub fn orders(
        &self,
        cfg: &str,
        m: Mapping,
        elems: &[Elem],
        menu: MenuKind,
        after: &[Op],
        st: &mut Stats,
    ) {
        let n = elems.len();
        let mut order: Vec<u32> = (0..n as u32).collect();
        // Heap's algorithm
        let mut c = vec![0usize; n];
        let run = |order: &[u32], st: &mut Stats| -> bool {
            let mut ops: Vec<Op> = order.iter().map(|i| Op::Ins(*i)).collect();
            ops.extend(after.iter().cloned());
            let case = Case {
                cfg: cfg.to_string(),
                m,
                elems: elems.to_vec(),
                ops,
                menu,
                every: 0,
            };
            self.run_case(&case, st);
            !self.stopped()
        };
        if !run(&order, st) {
            return;
        }
        let mut i = 0;
        while i < n {
            if c[i] < i {
                if i % 2 == 0 {
                    order.swap(0, i);
                } else {
                    order.swap(c[i], i);
                }
                if !run(&order, st) {
                    return;
                }
                if self.out_of_time() {
                    st.truncated.push(format!("{cfg} orders"));
                    return;
                }
                c[i] += 1;
                i = 0;
            } else {
                c[i] = 0;
                i += 1;
            }
        }
    }

    /// Run all jobs on `threads` workers.
    pub fn run(self: &Arc<Self>, jobs: Vec<Job>, threads: usize) -> Stats {
        let total = jobs.len();
        let jobs: Arc<Mutex<Vec<Option<Job>>>> =
            Arc::new(Mutex::new(jobs.into_iter().map(Some).collect()));
        let next = Arc::new(AtomicUsize::new(0));
        let mut hs = Vec::new();
        for t in 0..threads {
            let (me, jobs, next) = (self.clone(), jobs.clone(), next.clone());
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    WORKER.with(|w| w.set(t));
                    let mut st = Stats::default();
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= total || me.stopped() {
                            break;
                        }
                        let job = jobs.lock().unwrap()[i].take().unwrap();
                        JOB.with(|j| j.set(job.index));
                        if me.out_of_time() {
                            st.truncated.push(job.label);
                            continue;
                        }
                        me.slots[t].active.store(true, SeqCst);
                        let t0 = Instant::now();
                        let label = job.label.clone();
                        (job.run)(&me, &mut st);
                        if std::env::var("RMC_TIME").is_ok() {
                            eprintln!("{:7.2}s {}", t0.elapsed().as_secs_f64(), label);
                        }
                        me.slots[t].active.store(false, SeqCst);
                        st.scopes += 1;
                    }
                    st
                })
                .unwrap();
            hs.push(h);
        }
        let mut st = Stats::default();
        for h in hs {
            match h.join() {
                Ok(s) => st.merge(s),
                Err(_) => {
                    let mut b = HARNESS_BUG.lock().unwrap_or_else(|e| e.into_inner());
                    if b.is_none() {
                        *b = Some("a worker died".into());
                    }
                }
            }
        }
        st
    }
}

/// Ends the process with status 7 when a worker makes no progress, after
/// writing what every worker was doing.
pub fn watchdog(eng: Arc<Engine>, limit: Duration, out: String) {
    std::thread::spawn(move || {
        let mut last: Vec<(u64, Instant)> = eng
            .slots
            .iter()
            .map(|s| (s.beat.load(SeqCst), Instant::now()))
            .collect();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in eng.slots.iter().enumerate() {
                let b = s.beat.load(SeqCst);
                if b != last[i].0 || !s.active.load(SeqCst) {
                    last[i] = (b, Instant::now());
                } else if last[i].1.elapsed() > limit {
                    let v = s
                        .what
                        .lock()
                        .ok()
                        .and_then(|v| v.as_ref().map(|f| f()))
                        .unwrap_or(Value::Null);
                    let _ = std::fs::write(&out, serde_json::to_string(&v).unwrap());
                    eprintln!("watchdog: worker {i} makes no progress");
                    std::process::exit(7);
                }
            }
        }
    });
}

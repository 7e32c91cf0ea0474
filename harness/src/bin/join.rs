//! C13: the two-tree join, over pairs of reachable trees.
use rmc::cli::*;
use rmc::explore::*;
use rmc::gen::*;
use rmc::geom::*;
use rmc::model::*;
use rmc::props::{check_consumed, scripts, Std};
use rmc::sut::*;
use rstar::DefaultParams;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::Arc;

macro_rules! registry {
    ($($name:literal, $spec:ty, $pm:ty, [$($u:ty),*];)*) => {
        fn make(name: &str, m: Mapping) -> Option<Box<dyn Sut>> {
            match name {
                $($name => Some(Box::new(TreeSut::<$spec, $pm>::new(m))),)*
                _ => None,
            }
        }
        fn join_any(name: &str, a: &dyn Sut, b: &dyn Sut, limit: usize) -> Option<(Vec<(u64, u64)>, bool)> {
            match name {
                $($name => {
                    let a = a.as_any().downcast_ref::<TreeSut<$spec, $pm>>().expect("type");
                    if let Some(r) = join_with::<$spec, $pm, $spec>(a, b, limit) { return Some(r); }
                    $(if let Some(r) = join_with::<$spec, $pm, $u>(a, b, limit) { return Some(r); })*
                    None
                })*
                _ => None,
            }
        }
        fn consume_any(name: &str, a: &dyn Sut, b: &dyn Sut, sc: Script) -> Option<Consumed> {
            match name {
                $($name => {
                    let a = a.as_any().downcast_ref::<TreeSut<$spec, $pm>>().expect("type");
                    if let Some(r) = join_consume::<$spec, $pm, $spec>(a, b, sc) { return Some(r); }
                    $(if let Some(r) = join_consume::<$spec, $pm, $u>(a, b, sc) { return Some(r); })*
                    None
                })*
                _ => None,
            }
        }
        fn cfg_of(name: &str) -> Cfg {
            match name {
                $($name => Cfg {
                    name: $name,
                    kind: <$spec as Spec>::KIND,
                    d: <<$spec as Spec>::P as rstar::Point>::DIMENSIONS,
                    max: <$pm as rstar::RTreeParams>::MAX_SIZE,
                    small: false,
                    float: <<$spec as Spec>::S as Num>::FLOAT,
                    bits: 8 * std::mem::size_of::<<$spec as Spec>::S>() as u32,
                },)*
                _ => panic!("cfg {name}"),
            }
        }
        fn info(name: &str) -> (Kind, usize, usize) {
            let c = cfg_of(name);
            (c.kind, c.d, c.max)
        }
    };
}
registry! {
    "rect2i", RectS<[i32; 2]>, DefaultParams, [PointS<[i32; 2]>, LineS<[i32; 2]>];
    "rect2i-2-4-1", RectS<[i32; 2]>, Pm<2, 4, 1>, [PointS<[i32; 2]>, LineS<[i32; 2]>];
    "rect2i-1-4-0", RectS<[i32; 2]>, Pm<1, 4, 0>, [PointS<[i32; 2]>];
    "rect2i-10-40-5", RectS<[i32; 2]>, Pm<10, 40, 5>, [PointS<[i32; 2]>];
    "pt2i", PointS<[i32; 2]>, DefaultParams, [RectS<[i32; 2]>, LineS<[i32; 2]>];
    "pt2i-3-5-1", PointS<[i32; 2]>, Pm<3, 5, 1>, [RectS<[i32; 2]>];
    "line2i", LineS<[i32; 2]>, DefaultParams, [PointS<[i32; 2]>, RectS<[i32; 2]>];
    "rect3f", RectS<[f64; 3]>, DefaultParams, [];
    "rect3f-2-4-1", RectS<[f64; 3]>, Pm<2, 4, 1>, [];
    "plain2f", PlainS<[f64; 2]>, DefaultParams, [PlainRectS<[f64; 2]>];
    "prect2f", PlainRectS<[f64; 2]>, DefaultParams, [PlainS<[f64; 2]>];
    "prect2f-2-4-1", PlainRectS<[f64; 2]>, Pm<2, 4, 1>, [PlainS<[f64; 2]>];
    "pair2l", PairS<[i64; 2]>, DefaultParams, [RectS<[i64; 2]>, LooseS<[i64; 2]>];
    "rect2l-2-5-1", RectS<[i64; 2]>, Pm<2, 5, 1>, [PairS<[i64; 2]>, LooseS<[i64; 2]>];
    "rect2l", RectS<[i64; 2]>, DefaultParams, [LooseS<[i64; 2]>];
    "loose2l", LooseS<[i64; 2]>, DefaultParams, [];
    "disc2f", DiscS<[f64; 2]>, DefaultParams, [];
    "disc2f-1-4-1", DiscS<[f64; 2]>, Pm<1, 4, 1>, [];
    "rect3s-2-5-2", RectS<[f32; 3]>, Pm<2, 5, 2>, [PointS<[f32; 3]>];
    "rect3s", RectS<[f32; 3]>, DefaultParams, [];
    "pt3s", PointS<[f32; 3]>, DefaultParams, [];
    "rect4h", RectS<[i128; 4]>, DefaultParams, [];
    "tup4l", PlainS<(i64, i64, i64, i64)>, DefaultParams, [];
}

#[derive(Clone, Serialize, Deserialize)]
struct Side {
    cfg: String,
    elems: Vec<Elem>,
    ops: Vec<Op>,
}
#[derive(Clone, Serialize, Deserialize)]
struct JoinCase {
    m: Mapping,
    a: Side,
    /// None: join with itself.
    b: Option<Side>,
}
struct Built {
    side: Arc<Side>,
    u: Uni,
    w: World,
}
fn build(s: &Side, m: Mapping) -> Result<Built, String> {
    let sut = guard(|| make_sut(&s.cfg, m))?;
    let u = Uni::new(&*sut, &s.elems, m);
    let mut w = World::new(sut, &u);
    for op in &s.ops {
        w.apply(&u, op).map_err(|d| d.msg)?;
    }
    Ok(Built {
        side: Arc::new(s.clone()),
        u,
        w,
    })
}

/// The property: each pair of stored copies with touching boxes, once.
fn check(a: &Built, b: &Built) -> Result<u64, String> {
    let d = a.u.d;
    let mut want = 0usize;
    let pa: Vec<usize> = a.w.present().collect();
    let pb: Vec<usize> = b.w.present().collect();
    for &i in &pa {
        for &j in &pb {
            if a.u.boxes[i].intersects(d, &b.u.boxes[j]) {
                want += (a.w.counts[i] * b.w.counts[j]) as usize;
            }
        }
    }
    let (got, again) = match guard(|| join_any(&a.side.cfg, &*a.w.sut, &*b.w.sut, want + 8)) {
        Ok(Some(g)) => g,
        Ok(None) => panic!("unsupported pair of types {} {}", a.side.cfg, b.side.cfg),
        Err(p) => return Err(format!("the join panicked: {p}")),
    };
    let mut cnt: std::collections::HashMap<(u32, u32), u32> = Default::default();
    for (x, y) in &got {
        let (Some(i), Some(j)) = (a.u.idx.get(x), b.u.idx.get(y)) else {
            return Err("the join yields an element that was never stored".into());
        };
        *cnt.entry((*i, *j)).or_default() += 1;
    }
    for ((i, j), c) in &cnt {
        let (x, y) = (*i as usize, *j as usize);
        let w = if a.u.boxes[x].intersects(d, &b.u.boxes[y]) {
            a.w.counts[x] * b.w.counts[y]
        } else {
            0
        };
        if *c != w {
            return Err(format!(
                "pair ({}, {}) is reported {} time(s), expected {}",
                a.u.show(x),
                b.u.show(y),
                c,
                w
            ));
        }
    }
    if got.len() != want {
        for &i in &pa {
            for &j in &pb {
                let w = a.u.boxes[i].intersects(d, &b.u.boxes[j]);
                if w && !cnt.contains_key(&(i as u32, j as u32)) {
                    return Err(format!(
                        "pair ({}, {}) is missing; {} of {} pairs reported",
                        a.u.show(i),
                        b.u.show(j),
                        got.len(),
                        want
                    ));
                }
            }
        }
        return Err(format!("{} pairs reported, expected {}", got.len(), want));
    }
    if !again {
        return Err("the finished join yields another pair".into());
    }
    // other ways of consuming the same join
    if got.len() <= 60 {
        let base: Vec<u64> = got.iter().map(|(x, y)| mix(mix(11, *x), *y)).collect();
        let all = scripts(base.len(), false);
        let off = (pa.len() * 7 + pb.len()) % 5;
        for sc in all
            .into_iter()
            .skip(if base.len() < 6 { 0 } else { off })
            .step_by(if base.len() < 6 { 1 } else { 5 })
        {
            let c = match guard(|| consume_any(&a.side.cfg, &*a.w.sut, &*b.w.sut, sc)) {
                Ok(c) => c.expect("supported"),
                Err(p) => return Err(format!("the join consumed by {sc:?} panicked: {p}")),
            };
            check_consumed(&base, sc, &c)
                .map_err(|m| format!("the join consumed by {sc:?}: {m}"))?;
        }
    }
    Ok(got.len() as u64)
}

fn case_of(a: &Built, b: Option<&Built>) -> JoinCase {
    JoinCase {
        m: a.u.m,
        a: (*a.side).clone(),
        b: b.map(|b| (*b.side).clone()),
    }
}
fn exec_case(c: &JoinCase) -> Result<Result<u64, String>, String> {
    let a = build(&c.a, c.m)?;
    Ok(match &c.b {
        None => check(&a, &a),
        Some(s) => check(&a, &build(s, c.m)?),
    })
}
fn describe(c: &JoinCase, m: &str) -> String {
    let f = |s: &Side| format!("[{}] {}", s.cfg, short_ops(&s.ops, info(&s.cfg).1));
    match &c.b {
        None => format!("self join of {}: {m}", f(&c.a)),
        Some(b) => format!("join of {} with {}: {m}", f(&c.a), f(b)),
    }
}
fn shrink(e: &Engine, mut c: JoinCase, mut msg: String) -> (JoinCase, String) {
    let t0 = std::time::Instant::now();
    let mut changed = true;
    while changed && t0.elapsed().as_secs() < 6 {
        changed = false;
        for second in [false, true] {
            if second && c.b.is_none() {
                continue;
            }
            let n = if second {
                c.b.as_ref().unwrap().ops.len()
            } else {
                c.a.ops.len()
            };
            for i in (0..n).rev() {
                let ops = if second {
                    &c.b.as_ref().unwrap().ops
                } else {
                    &c.a.ops
                };
                let mut tries = vec![];
                match &ops[i] {
                    Op::Bulk(v, k) => {
                        let (v, k) = (v.clone(), *k);
                        for j in (0..v.len()).rev() {
                            let mut v2 = v.clone();
                            v2.remove(j);
                            tries.push(Some(Op::Bulk(v2, k)));
                        }
                    }
                    _ => tries.push(None),
                }
                for t in tries {
                    let mut d = c.clone();
                    let ops = if second {
                        &mut d.b.as_mut().unwrap().ops
                    } else {
                        &mut d.a.ops
                    };
                    match t {
                        Some(o) => ops[i] = o,
                        None => {
                            ops.remove(i);
                        }
                    }
                    e.beat();
                    if let Ok(Err(m)) = exec_case(&d) {
                        c = d;
                        msg = m;
                        changed = true;
                        break;
                    }
                    if t0.elapsed().as_secs() >= 6 {
                        return (c, msg);
                    }
                }
            }
        }
    }
    (c, msg)
}
fn pair(e: &Engine, a: &Built, b: Option<&Built>, st: &mut Stats) {
    let (m, x, y) = (a.u.m, a.side.clone(), b.map(|b| b.side.clone()));
    e.announce_lazy(Box::new(move || {
        json!({"kind": "join", "case": JoinCase { m, a: (*x).clone(), b: y.as_ref().map(|y| (**y).clone()) }})
    }));
    st.evals += 1;
    st.transitions += 1;
    let r = check(a, b.unwrap_or(a));
    match r {
        Ok(n) => {
            if a.w.n > 0 && b.map_or(a.w.n, |b| b.w.n) > 0 {
                st.nontrivial += 1;
            }
            let mut da = Vec::new();
            a.w.sut.dump(&mut da);
            let h = da.iter().fold(n, |h, x| mix(h, *x));
            if st.outcomes.len() < 200_000 {
                st.outcomes.insert(h);
            }
            st.count("pairs_reported", n);
            st.max_n = st
                .max_n
                .max(a.w.n as u64)
                .max(b.map_or(0, |b| b.w.n as u64));
            st.max_height = st.max_height.max(a.w.sut.height() as u64);
            if st.samples.len() < 3 && n > 2 {
                let c = case_of(a, b);
                st.samples
                    .push(json!({"case": describe(&c, ""), "pairs": n}));
            }
        }
        Err(m) => {
            let (c, m) = shrink(e, case_of(a, b), m);
            e.report(json!({"kind": "join", "case": c}), describe(&c, &m));
        }
    }
}
fn all_pairs(e: &Engine, xs: &[Built], ys: &[Built], st: &mut Stats) {
    for a in xs {
        for b in ys {
            pair(e, a, Some(b), st);
            if e.stopped() {
                return;
            }
        }
        if e.out_of_time() {
            st.truncated.push("pairs".into());
            return;
        }
    }
}
fn prep(e: &Engine, sides: Vec<Side>, m: Mapping, st: &mut Stats) -> Vec<Built> {
    let mut out = Vec::new();
    for s in sides {
        e.beat();
        st.traces += 1;
        match build(&s, m) {
            Ok(b) => {
                st.states += 1;
                out.push(b)
            }
            Err(m) => e.foreign(st, &m),
        }
    }
    out
}

fn tiny(kind: Kind, n: usize) -> Vec<Elem> {
    let g = grid(kind, 2, 3);
    let step = g.len().div_ceil(n).max(1);
    (0..g.len()).step_by(step).map(|i| g[i]).collect()
}
fn multi_sides(cfg: &str, us: &[Elem], k: usize) -> Vec<Side> {
    let mut out = Vec::new();
    for kk in 0..=k {
        multisets(us.len() as u32, kk, &mut |v| {
            let ops = if out.len() % 2 == 0 {
                vec![Op::Bulk(v.to_vec(), 0)]
            } else {
                v.iter().map(|i| Op::Ins(*i)).collect()
            };
            out.push(Side {
                cfg: cfg.into(),
                elems: us.to_vec(),
                ops,
            });
            true
        });
    }
    out
}
/// All distinct trees reached by histories of up to `depth` operations.
fn reachable(cfg: &str, depth: usize, cap: usize) -> Vec<Side> {
    let (kind, d, max) = info(cfg);
    let us = small(kind, d, 9);
    let ab = mixed_alphabet(&us, kind, 4);
    let mut out: Vec<Side> = Vec::new();
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let seeds: Vec<Vec<Op>> = vec![
        vec![],
        ins(0..max.min(9)),
        vec![Op::Bulk(
            (0..2 * max as u32 + 1).map(|i| i % 9).collect(),
            0,
        )],
        (0..max * max + 2)
            .map(|i| Op::Ins((i * 5 % 9) as u32))
            .collect(),
    ];
    let mut dump = Vec::new();
    for seed in seeds {
        let s0 = Side {
            cfg: cfg.into(),
            elems: us.clone(),
            ops: seed,
        };
        let Ok(b) = build(&s0, UNIT) else { continue };
        b.w.sut.dump(&mut dump);
        seen.insert(dump.clone());
        out.push(s0);
        let mut frontier = vec![b];
        for _ in 0..depth {
            let mut next = Vec::new();
            for b in &frontier {
                for op in &ab {
                    let mut w = b.w.fork();
                    if w.apply(&b.u, op).is_err() {
                        continue;
                    }
                    w.sut.dump(&mut dump);
                    if !seen.insert(dump.clone()) || out.len() >= cap {
                        continue;
                    }
                    let mut side = (*b.side).clone();
                    side.ops.push(op.clone());
                    out.push(side.clone());
                    let u = Uni::new(&*w.sut, &us, UNIT);
                    next.push(Built {
                        side: Arc::new(side),
                        u,
                        w,
                    });
                }
            }
            frontier = next;
        }
    }
    out
}

struct Suite13;
impl Suite for Suite13 {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        if id != "C13" {
            return None;
        }
        let q = tier == Tier::Quick;
        let mut jobs = Vec::new();
        let type_pairs: &[(&'static str, &'static str)] = &[
            ("rect2i", "rect2i"),
            ("rect2i-2-4-1", "rect2i"),
            ("rect2i-1-4-0", "pt2i"),
            ("rect2i", "pt2i"),
            ("pt2i", "rect2i"),
            ("pt2i-3-5-1", "rect2i"),
            ("line2i", "rect2i"),
            ("rect2i-2-4-1", "line2i"),
            ("plain2f", "prect2f"),
            ("prect2f-2-4-1", "plain2f"),
            ("prect2f", "prect2f"),
            ("pt2i", "pt2i"),
        ];
        // (1) all pairs of small multisets
        for &(ca, cb) in type_pairs {
            let k = tier.pick(4, 5);
            jobs.push(Job::new(format!("multisets {ca} {cb}"), move |e, st| {
                let (ka, kb) = (info(ca).0, info(cb).0);
                let n = if q { 7 } else { 9 };
                let xs = prep(e, multi_sides(ca, &tiny(ka, n), k), UNIT, st);
                let ys = prep(e, multi_sides(cb, &tiny(kb, n), tier.pick(3, 4)), UNIT, st);
                all_pairs(e, &xs, &ys, st);
            }));
        }
        // (2) reachable states x reachable states, and each with itself
        for &(ca, cb) in type_pairs {
            if info(ca).2 > 8 {
                continue;
            }
            let (na, nb) = tier.pick((1500, 250), (12000, 1500));
            jobs.push(Job::new(format!("reachable {ca} {cb}"), move |e, st| {
                let xs = prep(e, reachable(ca, tier.pick(3, 4), na), UNIT, st);
                let mut b = reachable(cb, tier.pick(3, 4), nb * 4);
                let step = b.len().div_ceil(nb).max(1);
                b = b.into_iter().step_by(step).collect();
                let ys = prep(e, b, UNIT, st);
                all_pairs(e, &xs, &ys, st);
            }));
            if ca == cb {
                jobs.push(Job::new(format!("self {ca}"), move |e, st| {
                    let xs = prep(
                        e,
                        reachable(ca, tier.pick(3, 4), tier.pick(4000, 40000)),
                        UNIT,
                        st,
                    );
                    for a in &xs {
                        pair(e, a, None, st);
                        if e.stopped() || e.out_of_time() {
                            return;
                        }
                    }
                }));
            }
        }
        // (3) every pair of sizes
        let ns: Vec<usize> = if q {
            let mut v: Vec<usize> = (0..=9).collect();
            v.extend([
                10, 11, 12, 13, 16, 17, 18, 19, 20, 24, 25, 27, 30, 36, 37, 43, 50, 64, 65, 80,
                100, 130,
            ]);
            v
        } else {
            let mut v: Vec<usize> = (0..=50).collect();
            v.extend((55..=220).step_by(5));
            v.push(300);
            v
        };
        let sized: &[(&'static str, &'static str)] = &[
            ("rect2i", "rect2i"),
            ("rect2i-2-4-1", "rect2i"),
            ("rect2i-1-4-0", "pt2i"),
            ("rect2i-10-40-5", "rect2i"),
            ("rect2i-10-40-5", "pt2i"),
            ("pt2i", "rect2i"),
            ("pt2i-3-5-1", "rect2i"),
            ("line2i", "line2i"),
            ("rect3f", "rect3f"),
            ("rect3f-2-4-1", "rect3f"),
            ("plain2f", "prect2f"),
            ("prect2f-2-4-1", "plain2f"),
            ("pair2l", "rect2l"),
            ("rect2l-2-5-1", "loose2l"),
            ("loose2l", "loose2l"),
            ("disc2f-1-4-1", "disc2f"),
            ("rect3s-2-5-2", "pt3s"),
            ("rect4h", "rect4h"),
            ("tup4l", "tup4l"),
        ];
        for (ci, &(ca, cb)) in sized.iter().enumerate() {
            let pats: Vec<(&'static str, &'static str)> = if q {
                vec![
                    ("lattice", "lattice"),
                    ("lattice", "clusters"),
                    ("perm", "nested"),
                    ("cross", "fewdup"),
                    ("dup", "dup"),
                    ("neg", "lattice"),
                    ("nested", "nested"),
                    ("clusters", "clusters"),
                ]
            } else {
                let all = [
                    "row", "diag", "lattice", "perm", "dup", "fewdup", "clusters", "neg", "nested",
                    "cross",
                ];
                all.iter()
                    .flat_map(|a| all.iter().map(move |b| (*a, *b)))
                    .collect()
            };
            for (pi, (pa, pb)) in pats.into_iter().enumerate() {
                let ns = ns.clone();
                jobs.push(Job::new(
                    format!("sizes {ca} {pa} x {cb} {pb}"),
                    move |e, st| {
                        let ms = mappings(&cfg_of(ca));
                        let m = ms[(ci + pi) % ms.len()];
                        let sides = |cfg: &str, pat: &str, ms: &[&str], ns: &[usize]| {
                            let (k, d, _) = info(cfg);
                            let mut out = Vec::new();
                            for &n in ns {
                                let us = universe(k, d, pat, n);
                                for md in ms {
                                    out.push(Side {
                                        cfg: cfg.into(),
                                        elems: us.clone(),
                                        ops: history(md, n, &us, k, d),
                                    });
                                }
                            }
                            out
                        };
                        let xs = prep(e, sides(ca, pa, &["ins", "bulk", "bulkdrain"], &ns), m, st);
                        let ys = prep(
                            e,
                            sides(
                                cb,
                                pb,
                                if q {
                                    &["bulk", "insrem"]
                                } else {
                                    &["ins", "bulk", "insrem", "drainall"]
                                },
                                &ns,
                            ),
                            m,
                            st,
                        );
                        all_pairs(e, &xs, &ys, st);
                    },
                ));
            }
        }
        // (4) larger trees, of similar and of very different sizes
        let big: Vec<(usize, usize)> = tier.pick(
            vec![
                (1, 2000),
                (2000, 2),
                (7, 2500),
                (3000, 40),
                (300, 1100),
                (1100, 300),
                (800, 800),
                (70_000, 60),
                (90, 70_000),
            ],
            vec![
                (1, 9000),
                (9000, 2),
                (7, 9000),
                (9000, 40),
                (400, 5000),
                (5000, 400),
                (2500, 2500),
                (1000, 1000),
                (140_000, 150),
                (200, 140_000),
            ],
        );
        for (ci, &(ca, cb)) in sized.iter().enumerate() {
            for (bi, &(na, nb)) in big.iter().enumerate() {
                if na.max(nb) > 50_000 && ci > 1 {
                    continue;
                }
                for (pi, &(pa, pb)) in [("perm", "lattice"), ("lattice", "clusters")]
                    .iter()
                    .enumerate()
                {
                    jobs.push(Job::new(
                        format!("large {ca} {pa} {na} x {cb} {pb} {nb}"),
                        move |e, st| {
                            let ms = mappings(&cfg_of(ca));
                            let m = ms[(ci + bi + pi) % ms.len()];
                            let side = |cfg: &str, pat: &str, n: usize, md: &str| {
                                let (k, d, _) = info(cfg);
                                let us = universe(k, d, pat, n);
                                let ops = history(md, n, &us, k, d);
                                Side {
                                    cfg: cfg.into(),
                                    elems: us,
                                    ops,
                                }
                            };
                            let xs = prep(
                                e,
                                vec![side(ca, pa, na, ["ins", "bulk"][(bi + pi) % 2])],
                                m,
                                st,
                            );
                            let ys =
                                prep(e, vec![side(cb, pb, nb, ["bulk", "bulkdrain"][pi])], m, st);
                            all_pairs(e, &xs, &ys, st);
                            if ca == cb && na < 1500 {
                                for x in &xs {
                                    pair(e, x, None, st);
                                }
                            }
                        },
                    ));
                }
            }
        }
        let rule = "Every pair (left tree, right tree) of the scopes is joined and compared, as a multiset of pairs, with the pairs of boxes that touch. Scopes: all pairs of multisets of up to k boxes/points on a grid; all pairs of trees reachable by bounded histories (and each with itself); all pairs of sizes of structured trees. An outcome is a distinct (left tree, number of pairs).";
        Some(Check {
            prop: Arc::new(Std { id: "C13", follow: vec![], subsets: 0 }),
            jobs,
            level: "model_checking",
            rule,
            bounds: json!({"multiset_size": [tier.pick(4, 5), tier.pick(3, 4)], "history_depth": tier.pick(3, 4), "sizes": ns, "large_sizes": big}),
            assumptions: vec!["the contents of a tree are what the reference model says (C01); a tree whose construction already deviates is skipped and counted as foreign"],
            special: Some(special),
        })
    }
}
fn special(v: &Value) -> Result<(), String> {
    let c: JoinCase = serde_json::from_value(v["case"].clone()).expect("case");
    if std::env::var("RMC_TRACE").is_ok() {
        eprintln!("AT building the trees of {} 0", describe(&c, ""));
    }
    let a = match build(&c.a, c.m) {
        Ok(a) => a,
        Err(m) => {
            println!("foreign deviation: {m}");
            return Ok(());
        }
    };
    let b = match &c.b {
        None => None,
        Some(s) => match build(s, c.m) {
            Ok(b) => Some(b),
            Err(m) => {
                println!("foreign deviation: {m}");
                return Ok(());
            }
        },
    };
    if std::env::var("RMC_TRACE").is_ok() {
        eprintln!("AT {} 1", describe(&c, "join"));
    }
    check(&a, b.as_ref().unwrap_or(&a))
        .map(|_| ())
        .map_err(|m| describe(&c, &m))
}
fn main() {
    rmc::cli::main(&Suite13, make)
}

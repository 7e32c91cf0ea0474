//! C17 (ownership and clones) and C26 (panicking callbacks): the same
//! histories as elsewhere, over elements that count their lives and can fail.
use rmc::cli::*;
use rmc::explore::*;
use rmc::gen::*;
use rmc::geom::*;
use rmc::model::*;
use rmc::props::*;
use rmc::sut::*;
use rstar::DefaultParams;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

rmc::registry! {
    "probe pt", ProbeS<PointS<[i32; 2]>>, DefaultParams, 6, false;
    "probe pt-2-4-1", ProbeS<PointS<[i32; 2]>>, Pm<2, 4, 1>, 4, false;
    "probe rect-1-4-0", ProbeS<RectS<[f64; 2]>>, Pm<1, 4, 0>, 4, false;
    "probe pair-2-5-2", ProbeS<PairS<[i64; 2]>>, Pm<2, 5, 2>, 5, false;
    "probe plain3-2-4-1", ProbeS<PlainS<[f32; 3]>>, Pm<2, 4, 1>, 4, false;
}

type R = Result<(), String>;

fn selections(u: &Uni, w: &World) -> Vec<Sel> {
    let b0 = Bx {
        lo: pt(&[-1, -1, -1, -1]),
        hi: pt(&[1, 2, 1, 1]),
    };
    let b1 = Bx {
        lo: pt(&[1, 0, -3, -3]),
        hi: pt(&[40, 2, 3, 3]),
    };
    let q = pt(&[1, 1]);
    let mut v = vec![
        Sel::All,
        Sel::In(b0),
        Sel::Inter(b1),
        Sel::Inter(Bx {
            lo: pt(&[900, 900]),
            hi: pt(&[901, 901, 1, 1]),
        }),
        Sel::Within(q, Rad::Max),
        Sel::Custom(NodePred::All, LeafPred::Odd),
        Sel::Custom(NodePred::All, LeafPred::None),
        Sel::Custom(NodePred::Bit(3), LeafPred::All),
    ];
    if w.n > 0 {
        let k = (w.present().count() / 2).min(u.n() - 1);
        v.push(Sel::Within(q, Rad::Of(k as u32)));
    }
    v
}
/// `0..n`, thinned out above `cap` values.
fn positions(n: usize, cap: usize) -> Vec<usize> {
    if n <= cap {
        return (0..n).collect();
    }
    let mut v: Vec<usize> = (0..cap).map(|i| i * (n - 1) / (cap - 1)).collect();
    v.extend(0..cap / 2);
    v.sort();
    v.dedup();
    v
}
fn alive(at: i64, what: &str) -> R {
    if overdropped() {
        return Err(format!("{what}: an element is dropped twice"));
    }
    if live() != at {
        return Err(format!(
            "{what}: {} elements too many are alive",
            live() - at
        ));
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

struct Own {
    cap: usize,
}
impl Prop for Own {
    fn owns(&self, _: &Op, why: Why) -> bool {
        why == Why::Ownership
    }
    fn visit(&self, w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
        let base = live();
        let mut mine = Vec::new();
        w.sut.dump(&mut mine);
        let mut buf = Vec::new();
        // a clone answers everything like the original
        let mut c = w.fork();
        alive(base + w.n as i64, "cloning")?;
        c.check_contents(u).map_err(|m| format!("clone: {m}"))?;
        if let Err(m) = v_all(&mut c, u, menu, st) {
            if v_all(w, u, menu, st).is_ok() {
                return Err(format!("clone: {m}"));
            }
            st.foreign += 1;
        }
        drop(c);
        alive(base, "dropping a clone")?;
        // cloning into an existing tree
        let ids: Vec<u32> = (0..u.n() as u32).collect();
        for ops in [
            vec![Op::New],
            vec![Op::New, Op::Ins(0)],
            vec![Op::Ins(0)],
            vec![Op::RemSel(Sel::All)],
            vec![Op::Bulk(ids.iter().chain(&ids).copied().collect(), 3)],
            vec![Op::Drain(Sel::All, 1, End::Forget)],
        ] {
            let mut c = w.fork();
            if ops.iter().any(|op| c.apply(u, op).is_err()) {
                continue;
            }
            let before = live() - c.n as i64;
            c.sut.assign(&*w.sut);
            c.counts = w.counts.clone();
            c.n = w.n;
            alive(before + w.n as i64, "clone_from")?;
            c.check_contents(u)
                .map_err(|m| format!("clone_from: {m}"))?;
            c.sut.dump(&mut buf);
            if buf != mine {
                return Err("clone_from gives a different tree".into());
            }
            drop(c);
            alive(before, "dropping a tree assigned with clone_from")?;
            st.count("clone_from", 1);
        }
        // updates of one never show in the other
        let mut ops: Vec<Op> = vec![
            Op::New,
            Op::Bulk(vec![0, 1, 0, 2], 5),
            Op::Ins(0),
            Op::Rebuild,
            Op::Serde,
            Op::RemAt(u.elems[0].a),
        ];
        ops.extend(positions(u.n(), 6).into_iter().map(|i| Op::Rem(i as u32)));
        ops.push(Op::Pop(pt(&[1, 1])));
        ops.push(Op::RemSel(Sel::All));
        let takes = positions(w.n + 1, self.cap);
        for s in selections(u, w) {
            for k in &takes {
                for end in [End::Drop, End::Forget] {
                    ops.push(Op::Drain(s.clone(), *k as u32, end));
                }
            }
            ops.push(Op::Drain(s, u32::MAX, End::Finish));
        }
        for op in &ops {
            if !op.fits(u.n()) || matches!(op, Op::Bulk(..)) && u.n() < 3 {
                continue;
            }
            let start = live();
            let mut a = w.fork();
            let mut b = a.fork();
            if let Err(d) = a.apply(u, op) {
                if d.why == Why::Ownership {
                    return Err(d.msg);
                }
                st.foreign += 1;
            } else {
                st.evals += 1;
                // the tree that was updated and its siblings
                w.sut.dump(&mut buf);
                if buf != mine {
                    return Err(format!("{} on a clone changes the original", op.short(u.d)));
                }
                b.sut.dump(&mut buf);
                if buf != mine {
                    return Err(format!("{} changes a clone made before", op.short(u.d)));
                }
                b.check_contents(u)
                    .map_err(|m| format!("a clone after {}: {m}", op.short(u.d)))?;
                if matches!(op, Op::Drain(_, _, End::Forget)) {
                    let (n, have) = (a.n as i64, live());
                    drop(a);
                    if live() != have - n {
                        return Err(format!(
                            "{}: dropping the tree releases {} instead of {} elements",
                            op.short(u.d),
                            have - live(),
                            n
                        ));
                    }
                } else {
                    drop(a);
                    alive(
                        start + b.n as i64,
                        &format!("dropping the tree after {}", op.short(u.d)),
                    )?;
                }
                let have = live();
                let n = b.n as i64;
                drop(b);
                if live() != have - n {
                    return Err(format!(
                        "dropping a clone releases {} instead of {} elements",
                        have - live(),
                        n
                    ));
                }
            }
            st.count("update_pairs", 1);
        }
        // owned iteration abandoned anywhere
        let base = live();
        for k in positions(w.n + 2, 4 * self.cap) {
            let (keys, again) = w.sut.into_iter_of_clone(k);
            w.within_by(u, &keys, |_| true)
                .map_err(|m| format!("owned iteration: {m}"))?;
            if keys.len() != k.min(w.n) {
                return Err(format!(
                    "owned iteration ends after {} of {} elements",
                    keys.len(),
                    w.n
                ));
            }
            if k > w.n && !again {
                return Err("owned iteration continues after its end".into());
            }
            alive(
                base,
                &format!("owned iteration abandoned after {k} elements"),
            )?;
            st.evals += 1;
            st.count("abandoned_iterations", 1);
        }
        if st.outcomes.len() < 200_000 {
            st.outcomes.insert(mine.iter().fold(1, |h, x| mix(h, *x)));
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C26

#[derive(Clone, Debug)]
enum Act {
    Up(Op),
    Query(Sel, Var, usize),
    One(Pt, Var),
    Contains(usize),
    Nn(Pt, u8),
    NnIter(Pt, u8, usize),
}
impl Act {
    fn show(&self, d: usize) -> String {
        match self {
            Act::Up(o) => o.short(d),
            Act::Query(s, v, l) => format!("query {v:?} {s:?} limit {l}"),
            x => format!("{x:?}"),
        }
    }
    fn run(&self, w: &mut World, u: &Uni) {
        match self {
            Act::Up(op) => {
                let s = &mut w.sut;
                match op {
                    Op::Rem(i) => {
                        s.remove(&u.elems[*i as usize], *i);
                    }
                    Op::RemAt(p) => {
                        s.remove_at(p);
                    }
                    Op::Pop(p) => {
                        s.pop_nn(p);
                    }
                    Op::RemSel(x) => {
                        s.remove_sel(x);
                    }
                    Op::Drain(x, k, e) => {
                        s.drain(x, *k as usize, *e);
                    }
                    _ => unreachable!(),
                }
            }
            Act::Query(s, v, l) => {
                w.sut.select(s, *v, *l, None);
            }
            Act::One(p, v) => {
                w.sut.locate_one(p, *v, None);
            }
            Act::Contains(i) => {
                w.sut.contains(&u.elems[*i], *i as u32);
            }
            Act::Nn(p, k) => match k {
                0 => {
                    w.sut.nn(p);
                }
                1 => {
                    w.sut.nn_plain(p);
                }
                2 => {
                    w.sut.nns(p);
                }
                _ => {
                    w.sut.nns_plain(p);
                }
            },
            Act::NnIter(p, k, l) => {
                w.sut.nn_iter(p, *k, *l);
            }
        }
    }
}

struct Panics {
    /// All fault positions up to this many, spread above.
    cap: usize,
    /// Second faults in states of up to this many elements.
    double: usize,
    rich: bool,
}
impl Panics {
    fn acts(&self, w: &World, u: &Uni) -> Vec<Act> {
        let mut v = Vec::new();
        for i in positions(u.n(), 5) {
            v.push(Act::Up(Op::Rem(i as u32)));
            v.push(Act::Contains(i));
        }
        let q = pt(&[1, 1]);
        v.push(Act::Up(Op::RemAt(u.elems[0].a)));
        v.push(Act::Up(Op::RemAt(u.elems[u.n() - 1].b)));
        v.push(Act::Up(Op::Pop(q)));
        v.push(Act::Up(Op::RemSel(Sel::Custom(
            NodePred::All,
            LeafPred::Odd,
        ))));
        v.push(Act::Up(Op::RemSel(Sel::Custom(
            NodePred::Bit(5),
            LeafPred::None,
        ))));
        for s in selections(u, w) {
            v.push(Act::Up(Op::Drain(s.clone(), u32::MAX, End::Finish)));
            v.push(Act::Up(Op::Drain(s.clone(), 2, End::Drop)));
            for var in [Var::Iter, Var::Mut, Var::Int, Var::IntMut] {
                v.push(Act::Query(s.clone(), var, NOLIM));
            }
        }
        for p in [u.elems[0].a, q] {
            for var in [Var::Iter, Var::Mut, Var::Int, Var::IntMut] {
                v.push(Act::One(p, var));
                v.push(Act::Query(Sel::At(p), var, NOLIM));
            }
            for k in 0..4 {
                v.push(Act::Nn(p, k));
            }
            for k in 0..3 {
                v.push(Act::NnIter(p, k, NOLIM));
            }
        }
        v
    }
    /// What must hold after a fault.
    fn intact(&self, c: &mut World, u: &Uni, st: &mut Stats) -> R {
        c.check_contents(u)?;
        v_structure(c, st)
    }
    fn keeps_working(
        &self,
        c: &mut World,
        u: &Uni,
        menu: &Menu,
        later: bool,
        deep: bool,
        st: &mut Stats,
    ) -> R {
        self.intact(c, u, st)?;
        if !later {
            return Ok(());
        }
        if deep {
            v_all(c, u, menu, st)?;
        }
        for op in [
            Op::Ins(0),
            Op::Pop(pt(&[1, 1])),
            Op::Drain(Sel::Custom(NodePred::All, LeafPred::Odd), 1, End::Drop),
            Op::Ins(1 % u.n() as u32),
            Op::Rem(0),
        ] {
            c.apply(u, &op).map_err(|d| format!("later {}", d.msg))?;
            v_structure(c, st).map_err(|m| format!("after a later {}: {m}", op.short(u.d)))?;
        }
        Ok(())
    }
    /// Runs `act` on `c` with a fault at callback `k`; updates the model.
    /// False if the callback was never made.
    fn fault(
        &self,
        c: &mut World,
        u: &Uni,
        act: &Act,
        k: u64,
        resume: bool,
    ) -> Result<bool, String> {
        let before = live();
        arm(k);
        TICKS.with(|t| t.resume.set(resume));
        let r = catch_unwind(AssertUnwindSafe(|| act.run(c, u)));
        TICKS.with(|t| t.resume.set(false));
        let hit = disarm() > k;
        if let Err(p) = r {
            if !p.is::<Injected>() {
                return Err("the operation raises a panic of its own".into());
            }
        }
        if matches!(act, Act::Up(_)) {
            c.ins_only = false;
        }
        if !hit {
            return Ok(false);
        }
        let n0 = c.n;
        if let Act::Up(Op::Drain(..)) = act {
            let got = TICKS.with(|t| std::mem::take(&mut *t.yielded.borrow_mut()));
            for key in got {
                match u.idx.get(&key) {
                    Some(i) if c.counts[*i as usize] > 0 => {
                        c.counts[*i as usize] -= 1;
                        c.n -= 1;
                    }
                    _ => return Err(format!("yields {} which is not stored", u.name(key))),
                }
            }
        }
        if overdropped() || live() - before != c.n as i64 - n0 as i64 {
            return Err(format!(
                "{} elements are alive too many",
                live() - before - (c.n as i64 - n0 as i64)
            ));
        }
        Ok(true)
    }
}
impl Prop for Panics {
    fn owns(&self, _: &Op, _: Why) -> bool {
        false
    }
    fn visit(&self, w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
        let acts = self.acts(w, u);
        for (ai, act) in acts.iter().enumerate() {
            let up = matches!(act, Act::Up(_));
            let mut c = w.fork();
            arm(u64::MAX);
            let dry = catch_unwind(AssertUnwindSafe(|| act.run(&mut c, u)));
            let n = disarm() as usize;
            if dry.is_err() {
                // some other property's business
                st.foreign += 1;
                continue;
            }
            for k in positions(n, if up { self.cap } else { self.cap / 2 }) {
                let drain = matches!(act, Act::Up(Op::Drain(..)));
                for resume in if drain {
                    &[false, true][..]
                } else {
                    &[false][..]
                } {
                    let mut c = w.fork();
                    let what = |m: String| {
                        format!(
                            "{} with a panic in callback {} of {}{}: {m}",
                            act.show(u.d),
                            k,
                            n,
                            if *resume { ", polled again" } else { "" }
                        )
                    };
                    st.evals += 1;
                    if !self
                        .fault(&mut c, u, act, k as u64, *resume)
                        .map_err(what)?
                    {
                        continue;
                    }
                    st.count("faults_injected", 1);
                    let taken = w.n - c.n;
                    let deep = self.rich || k % 4 == 0;
                    if let Err(m) = self.keeps_working(&mut c, u, menu, up || k % 3 == 0, deep, st)
                    {
                        // does it work without the panic?
                        let mut ctl = w.fork();
                        if let Act::Up(Op::Drain(s, _, _)) = act {
                            if ctl
                                .apply(u, &Op::Drain(s.clone(), taken as u32, End::Drop))
                                .is_err()
                            {
                                st.foreign += 1;
                                continue;
                            }
                        }
                        ctl.ins_only &= !up;
                        match self.keeps_working(&mut ctl, u, menu, up || k % 3 == 0, deep, st) {
                            Ok(()) => return Err(what(m)),
                            Err(_) => {
                                st.foreign += 1;
                                continue;
                            }
                        }
                    }
                    let c0 = w.n - taken;
                    if up && w.n <= self.double {
                        let mut c = w.fork();
                        self.fault(&mut c, u, act, k as u64, *resume)
                            .map_err(what)?;
                        // a second fault in another removal
                        let second = &acts[(ai * 7 + k * 3) % acts.len()];
                        for k2 in [0, 1, 2, 3, 5, 8] {
                            let mut d = c.fork();
                            if self.fault(&mut d, u, second, k2, false).map_err(what)? {
                                st.count("second_faults", 1);
                                if let Err(m) = self.intact(&mut d, u, st) {
                                    let mut ctl = w.fork();
                                    for (a, left) in [(act, c0), (second, d.n)] {
                                        if let Act::Up(Op::Drain(s, _, _)) = a {
                                            let _ = ctl.apply(
                                                u,
                                                &Op::Drain(
                                                    s.clone(),
                                                    (ctl.n - left) as u32,
                                                    End::Drop,
                                                ),
                                            );
                                        }
                                    }
                                    ctl.ins_only = false;
                                    if self.intact(&mut ctl, u, st).is_ok() {
                                        return Err(format!(
                                            "{} and then {} with a panic in callback {k2}: {m}",
                                            what(String::new()),
                                            second.show(u.d)
                                        ));
                                    }
                                    st.foreign += 1;
                                }
                            }
                        }
                    }
                }
            }
        }
        if st.outcomes.len() < 200_000 {
            let mut d = Vec::new();
            w.sut.dump(&mut d);
            st.outcomes.insert(d.iter().fold(1, |h, x| mix(h, *x)));
        }
        Ok(())
    }
}

// ---- elements without size

/// Nothing but a place; all of them are alike and may share an address.
struct Unit;
thread_local! {
    static UNITS: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
impl Unit {
    fn new() -> Unit {
        UNITS.with(|c| c.set(c.get() + 1));
        Unit
    }
}
impl Clone for Unit {
    fn clone(&self) -> Unit {
        Unit::new()
    }
}
impl Drop for Unit {
    fn drop(&mut self) {
        UNITS.with(|c| c.set(c.get() - 1));
    }
}
impl PartialEq for Unit {
    fn eq(&self, _: &Unit) -> bool {
        true
    }
}
impl rstar::RTreeObject for Unit {
    type Envelope = rstar::AABB<[i32; 2]>;
    fn envelope(&self) -> Self::Envelope {
        rstar::AABB::from_corners([1, 1], [3, 2])
    }
}
impl rstar::PointDistance for Unit {
    fn distance_2(&self, p: &[i32; 2]) -> i32 {
        rstar::RTreeObject::envelope(self).distance_2(p)
    }
}
/// Marks what other properties are about.
const FOREIGN: &str = "(not about ownership) ";
const UNIT_OPS: [&str; 12] = [
    "insert",
    "bulk 3",
    "bulk 17",
    "remove",
    "remove_at",
    "pop",
    "drain 1",
    "drain",
    "drain nothing",
    "leak",
    "clone",
    "drop clone",
];
/// Run a history of trees of units; the model is a number.
fn units(ops: &[u8]) -> Result<u64, String> {
    use rstar::{RTree, AABB};
    use std::mem::forget;
    let before = UNITS.with(|c| c.get());
    let mut lost = 0i64;
    let r = guard(|| -> Result<u64, String> {
        let mut t: RTree<Unit> = RTree::new();
        let (mut n, mut kept, mut evals) = (0usize, None::<(RTree<Unit>, usize)>, 0);
        for o in ops {
            let name = UNIT_OPS[*o as usize];
            let some = n.min(1);
            let (got, gone) = match name {
                "insert" => {
                    t.insert(Unit::new());
                    n += 1;
                    (0, 0)
                }
                "bulk 3" | "bulk 17" => {
                    n = if *o == 1 { 3 } else { 17 };
                    t = RTree::bulk_load((0..n).map(|_| Unit::new()).collect());
                    (0, 0)
                }
                "remove" => (t.remove(&Unit::new()).is_some() as usize, some),
                "remove_at" => (t.remove_at_point([2, 2]).is_some() as usize, some),
                "pop" => (t.pop_nearest_neighbor([9, 9]).is_some() as usize, some),
                "drain 1" => (t.drain().take(1).count(), some),
                "drain" => (
                    t.drain_in_envelope(AABB::from_corners([0, 0], [4, 4]))
                        .count(),
                    n,
                ),
                "drain nothing" => (t.drain_within_distance([9, 9], 1).count(), 0),
                "leak" => {
                    let mut d = t.drain();
                    let k = d.next().is_some() as usize;
                    forget(d);
                    lost += (n - k) as i64;
                    n = k;
                    (k, k)
                }
                "clone" => {
                    kept = Some((t.clone(), n));
                    (0, 0)
                }
                _ => {
                    if let Some((k, m)) = kept.take() {
                        let c = k.into_iter().count();
                        if c != m {
                            return Err(format!("a clone of {m} elements yields {c}"));
                        }
                    }
                    (0, 0)
                }
            };
            if got != gone {
                return Err(format!("{FOREIGN}{name} of {n} elements yields {got}"));
            }
            n -= gone;
            let q = [5, 2];
            let seen = [
                ("size", t.size()),
                ("iter", t.iter().count()),
                ("iter_mut", t.iter_mut().count()),
                (
                    "locate_in_envelope",
                    t.locate_in_envelope(AABB::from_corners([1, 1], [3, 3]))
                        .count(),
                ),
                (
                    "locate_in_envelope_intersecting",
                    t.locate_in_envelope_intersecting(AABB::from_point([3, 2]))
                        .count(),
                ),
                ("locate_all_at_point", t.locate_all_at_point([1, 2]).count()),
                (
                    "locate_within_distance",
                    t.locate_within_distance(q, 4).count(),
                ),
                ("nearest_neighbors", t.nearest_neighbors(&q).len()),
                ("nearest_neighbor_iter", t.nearest_neighbor_iter(q).count()),
                (
                    "nearest_neighbor_iter_with_distance_2",
                    t.nearest_neighbor_iter_with_distance_2(q)
                        .filter(|x| x.1 == 4)
                        .count(),
                ),
            ];
            for (what, k) in seen {
                if k != n {
                    let own = ["size", "iter", "iter_mut"].contains(&what);
                    return Err(format!(
                        "{}after {name}, {what} gives {k} of {n} elements",
                        if own { "" } else { FOREIGN }
                    ));
                }
            }
            let some = n > 0;
            let none = t.locate_at_point([0, 0]).is_some()
                || t.locate_within_distance(q, 3).next().is_some();
            if none
                || t.contains(&Unit::new()) != some
                || t.nearest_neighbor(q).is_some() != some
                || t.locate_at_point([3, 1]).is_some() != some
            {
                return Err(format!("{FOREIGN}after {name}, lookups among {n} elements"));
            }
            let pairs = t.intersection_candidates_with_other_tree(&t).count();
            if pairs != n * n {
                return Err(format!(
                    "{FOREIGN}after {name}, a self join of {n} elements yields {pairs} pairs"
                ));
            }
            evals += 15;
            let live = UNITS.with(|c| c.get()) - before;
            let want = n as i64 + lost + kept.as_ref().map_or(0, |k| k.1 as i64);
            if live != want {
                return Err(format!(
                    "after {name}, {live} elements are alive instead of {want}"
                ));
            }
        }
        Ok(evals)
    });
    let live = UNITS.with(|c| c.get()) - before;
    UNITS.with(|c| c.set(before));
    let show = || {
        ops.iter()
            .map(|o| UNIT_OPS[*o as usize])
            .collect::<Vec<_>>()
            .join(", ")
    };
    match r {
        Err(p) => Err(format!("{FOREIGN}zero-sized elements [{}]: panicked: {p}", show())),
        Ok(Err(m)) if m.starts_with(FOREIGN) => Err(m),
        Ok(Err(m)) => Err(format!("zero-sized elements [{}]: {m}", show())),
        Ok(Ok(_)) if live != lost => Err(format!("zero-sized elements [{}]: {live} elements are alive after the trees are gone instead of {lost}", show())),
        Ok(Ok(n)) => Ok(n),
    }
}
fn units_replay(v: &Value) -> Result<(), String> {
    let ops: Vec<u8> = v["ops"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_u64().unwrap() as u8)
        .collect();
    match units(&ops) {
        Err(m) if !m.starts_with(FOREIGN) => Err(m),
        _ => Ok(()),
    }
}
fn units_jobs(depth: usize) -> Vec<Job> {
    let k = UNIT_OPS.len();
    (0..k)
        .map(|first| {
            Job::new(
                format!("units {first}"),
                move |e: &Engine, st: &mut Stats| {
                    let n = k.pow(depth as u32 - 1);
                    for i in 0..n {
                        let mut ops = vec![first as u8];
                        let mut x = i;
                        for _ in 1..depth {
                            ops.push((x % k) as u8);
                            x /= k;
                        }
                        let v = json!({"kind": "units", "ops": ops});
                        e.announce(|| v.clone());
                        e.beat();
                        st.traces += 1;
                        st.transitions += depth as u64;
                        match units(&ops) {
                            Ok(m) => st.evals += m,
                            Err(m) if m.starts_with(FOREIGN) => e.foreign(st, &m),
                            Err(m) => {
                                e.report(v, m);
                                return;
                            }
                        }
                        if e.stopped() || e.out_of_time() {
                            return;
                        }
                    }
                },
            )
        })
        .collect()
}

struct S;
impl Suite for S {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        let q = tier == Tier::Quick;
        let ns = |v: &[usize]| v.to_vec();
        let mut p = Plan {
            cfgs: CFGS.to_vec(),
            bfs_depth: 2,
            bfs_menu: MenuKind::Tiny,
            alphabet: mixed_alphabet,
            orders: 0,
            multiset: tier.pick(2, 4),
            sweep_ns: ns(&[]),
            sweep_patterns: if q {
                vec!["lattice", "fewdup"]
            } else {
                vec!["lattice", "fewdup", "perm", "clusters", "nested"]
            },
            sweep_modes: if q {
                vec!["ins", "bulk", "insrem", "bulkdrain"]
            } else {
                MODES.to_vec()
            },
            sweep_menu: MenuKind::Tiny,
            sweep_every_below: 0,
            large: vec![],
            huge: vec![],
            after: vec![],
            cong: None,
        };
        match id {
            "C17" => {
                p.bfs_depth = tier.pick(4, 5);
                p.multiset = tier.pick(3, 5);
                p.sweep_ns = if q {
                    ns(&[1, 3, 5, 7, 13, 17, 26, 40, 45, 66])
                } else {
                    (0..=100).step_by(3).collect()
                };
                p.sweep_modes.push("leak");
                p.sweep_modes.push("serde");
                Some(Check {
                    prop: Arc::new(Own { cap: tier.pick(8, 30) }),
                    jobs: {
                        let mut js = jobs(&p, tier);
                        js.extend(units_jobs(tier.pick(5, 6)));
                        js
                    },
                    level: "model_checking",
                    rule: "In every explored state the tree is cloned, every update of a menu (every kind of drain dropped or leaked after every number of steps) is applied to the clone and to the original of another clone, and a registry of live elements is compared with the model before, between and after; owned iteration is abandoned after every number of elements. An outcome is a distinct tree.",
                    bounds: json!({"configurations": CFGS.iter().map(|c| c.name).collect::<Vec<_>>(), "bfs_depth": p.bfs_depth, "sweep_sizes": p.sweep_ns, "drain_lengths_per_state": tier.pick(8, 30), "zero_sized_histories": {"operations": UNIT_OPS, "depth": tier.pick(5, 6)}}),
                    assumptions: vec!["coordinates are small, so no arithmetic overflows"],
                    special: Some(units_replay),
                })
            }
            "C26" => {
                p.bfs_depth = tier.pick(2, 3);
                p.multiset = tier.pick(2, 3);
                p.sweep_ns = if q {
                    ns(&[7, 13, 24, 40])
                } else {
                    (0..=80).step_by(4).collect()
                };
                p.after = vec![];
                Some(Check {
                    prop: Arc::new(Panics { cap: tier.pick(24, 60), double: tier.pick(8, 12), rich: !q }),
                    jobs: jobs(&p, tier),
                    level: "fault_enumeration",
                    rule: "In every explored state every operation of a menu is run once for every callback it makes, with a panic raised in that callback; contents, size, hierarchy and live elements are then compared with the model and further operations are run, among them ones with a second fault. An outcome is a distinct tree.",
                    bounds: json!({"configurations": CFGS.iter().map(|c| c.name).collect::<Vec<_>>(), "bfs_depth": p.bfs_depth, "sweep_sizes": p.sweep_ns, "fault_positions": "all up to the cap, spread above", "cap": tier.pick(24, 60)}),
                    assumptions: vec!["coordinates are small, so no arithmetic overflows"],
                    special: None,
                })
            }
            _ => None,
        }
    }
}
fn main() {
    rmc::cli::main(&S, make)
}

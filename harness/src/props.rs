//! State-based property checkers C01..C16, C18, C19, C22, C23.
use crate::explore::*;
use crate::geom::*;
use crate::model::*;
use crate::sut::*;

type R = Result<(), String>;

pub fn is_removal(op: &Op) -> bool {
    matches!(op, Op::Rem(_) | Op::RemAt(_) | Op::Pop(_) | Op::RemSel(_))
}
fn is_custom(op: &Op) -> bool {
    matches!(
        op,
        Op::RemSel(Sel::Custom(..)) | Op::Drain(Sel::Custom(..), _, _)
    )
}

fn outcome(st: &mut Stats, a: usize, b: u64) {
    if st.outcomes.len() < 200_000 {
        st.outcomes.insert(mix(a as u64 + 1, b));
    }
}
fn keyset(keys: &[u64]) -> u64 {
    keys.iter().fold(0u64, |h, k| h.wrapping_add(mix(3, *k)))
}

// ---------------------------------------------------------------- shared visits

pub fn v_contents(w: &mut World, u: &Uni, st: &mut Stats) -> R {
    for v in [Var::Iter, Var::Mut, Var::Into, Var::IntoMut] {
        let f = w.sut.select(&Sel::All, v, NOLIM, None);
        st.evals += 1;
        w.same_by(u, &f.keys, |_| true)
            .map_err(|m| format!("iteration ({v:?}): {m}"))?;
        outcome(st, 1, keyset(&f.keys));
    }
    let (k, again) = w.sut.into_iter_of_clone(NOLIM);
    w.same_by(u, &k, |_| true)
        .map_err(|m| format!("owned iteration: {m}"))?;
    if !again {
        return Err("owned iteration yields elements after its end".into());
    }
    if w.sut.size() != w.n {
        return Err(format!(
            "size() is {}, {} elements are stored",
            w.sut.size(),
            w.n
        ));
    }
    // taking everything out again hands back the same multiset
    let mut c = w.fork();
    let d = c.sut.drain(&Sel::All, NOLIM, End::Finish);
    w.same_by(u, &d.keys, |_| true)
        .map_err(|m| format!("draining everything: {m}"))?;
    if c.sut.size() != 0 {
        return Err(format!(
            "size() is {} after draining everything",
            c.sut.size()
        ));
    }
    let mut left = Vec::new();
    c.sut.iter_keys(&mut left);
    if !left.is_empty() {
        return Err("elements are left after draining everything".into());
    }
    st.evals += 3;
    Ok(())
}

pub fn v_structure(w: &World, st: &mut Stats) -> R {
    let s = w.sut.structure();
    st.evals += 1;
    let (min, max, _) = w.sut.params();
    let mut leaf_depth: Option<u32> = None;
    // children kinds per open node
    let mut stack: Vec<(usize, bool, bool)> = Vec::new(); // (index, has leaf, has parent)
    let finish = |x: (usize, bool, bool)| -> R {
        if x.1 && x.2 {
            return Err(format!("node {} mixes elements and sub-nodes", x.0));
        }
        Ok(())
    };
    for (i, x) in s.iter().enumerate() {
        while stack.len() > x.depth as usize {
            finish(stack.pop().unwrap())?;
        }
        if let Some(t) = stack.last_mut() {
            if x.parent {
                t.2 = true
            } else {
                t.1 = true
            }
        }
        if x.parent {
            if !x.tight {
                return Err(format!(
                    "a node at depth {} with {} children does not report the smallest envelope of its children",
                    x.depth, x.nchild
                ));
            }
            if x.odd {
                return Err(format!(
                    "a child of a node at depth {} reports another kind or envelope than what it holds",
                    x.depth
                ));
            }
            if x.nchild == 0 && !(i == 0 && w.n == 0) {
                return Err(format!("childless node at depth {}", x.depth));
            }
            if w.ins_only {
                if x.nchild as usize > max {
                    return Err(format!(
                        "a node has {} children, the maximum is {}",
                        x.nchild, max
                    ));
                }
                if i > 0 && (x.nchild as usize) < min {
                    return Err(format!(
                        "a node at depth {} has {} children, the minimum is {}",
                        x.depth, x.nchild, min
                    ));
                }
            }
            stack.push((i, false, false));
        } else {
            match leaf_depth {
                None => leaf_depth = Some(x.depth),
                Some(d) if d != x.depth => {
                    return Err(format!("elements at depths {} and {}", d, x.depth))
                }
                _ => {}
            }
        }
    }
    while let Some(x) = stack.pop() {
        finish(x)?;
    }
    if w.n == 0 && s.len() != 1 {
        return Err("an empty tree has nodes below its root".into());
    }
    outcome(st, s.len(), leaf_depth.unwrap_or(0) as u64);
    Ok(())
}

const QVARS: [Var; 4] = [Var::Iter, Var::Mut, Var::Int, Var::IntMut];

pub fn v_envelope(w: &mut World, u: &Uni, menu: &Menu, vars: &[Var], st: &mut Stats) -> R {
    for q in &menu.boxes {
        for (sel, bits) in [(Sel::In(q.b), &q.inside), (Sel::Inter(q.b), &q.inter)] {
            for v in vars {
                let f = w.sut.select(&sel, *v, NOLIM, None);
                st.evals += 1;
                w.same(u, &f.keys, bits).map_err(|m| {
                    format!(
                        "{} query ({v:?}) with {:?}..{:?}: {m}",
                        if matches!(sel, Sel::In(_)) {
                            "contained-in-envelope"
                        } else {
                            "intersecting"
                        },
                        &q.b.lo[..u.d],
                        &q.b.hi[..u.d]
                    )
                })?;
                if *v == Var::Iter {
                    outcome(st, 4, keyset(&f.keys));
                }
            }
        }
    }
    Ok(())
}

pub fn v_point(w: &mut World, u: &Uni, menu: &Menu, vars: &[Var], st: &mut Stats) -> R {
    for q in &menu.pts {
        for v in vars {
            let f = w.sut.select(&Sel::At(q.p), *v, NOLIM, None);
            st.evals += 1;
            w.same(u, &f.keys, &q.at)
                .map_err(|m| format!("all-at-point ({v:?}) {:?}: {m}", &q.p[..u.d]))?;
            let one = w.sut.locate_one(&q.p, *v, None);
            let any = !f.keys.is_empty();
            st.evals += 1;
            match one {
                None if !any => {}
                Some(k) if f.keys.contains(&k) => {}
                o => {
                    return Err(format!(
                        "locate_at_point ({v:?}) {:?} gives {:?}, elements there: {}",
                        &q.p[..u.d],
                        o.map(|k| u.name(k)),
                        u.names(&f.keys)
                    ))
                }
            }
            outcome(st, 5, keyset(&f.keys));
        }
    }
    Ok(())
}
pub fn v_contains(w: &mut World, u: &Uni, st: &mut Stats) -> R {
    for i in 0..u.n() {
        let want = w.counts[u.canon[i] as usize] > 0;
        st.evals += 1;
        if w.sut.contains(&u.elems[i], i as u32) != want {
            return Err(format!("contains(#{i} {}) is {}", u.show(i), !want));
        }
        if u.has_id && i % 4 == 0 {
            // same geometry, different identity: not equal, so not contained
            if w.sut.contains(&u.elems[i], 1_000_000 + i as u32) {
                return Err(format!(
                    "contains() is true for an element that only shares its geometry with #{i}"
                ));
            }
        }
    }
    Ok(())
}

fn min_of(w: &World, d2: &[f64]) -> Option<f64> {
    w.present()
        .map(|i| d2[i])
        .fold(None, |m: Option<f64>, d| match m {
            Some(m) if m <= d => Some(m),
            _ => Some(d),
        })
}

pub fn v_nn(w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
    if u.kind == Kind::Loose {
        return Ok(()); // not specified
    }
    for q in &menu.pts {
        let min = min_of(w, &q.d2);
        let r = w.sut.nn(&q.p);
        let r2 = w.sut.nn_plain(&q.p);
        st.evals += 2;
        let at = &q.p[..u.d];
        match (min, r) {
            (None, None) => {}
            (Some(m), Some((k, d))) => {
                let Some(i) = u.idx.get(&k).copied().filter(|i| w.counts[*i as usize] > 0) else {
                    return Err(format!(
                        "nearest neighbour of {at:?} is not stored: {}",
                        u.name(k)
                    ));
                };
                let td = q.d2[i as usize];
                if !close(td, d, u.m.exact) {
                    return Err(format!("nearest neighbour of {at:?} is {} with distance_2 {d}, its true distance_2 is {td}", u.name(k)));
                }
                if !close(td, m, u.m.exact) {
                    return Err(format!("nearest neighbour of {at:?} is {} at distance_2 {d}, but the minimum is {m}", u.name(k)));
                }
                outcome(st, 6, k);
            }
            (m, r) => {
                return Err(format!(
                    "nearest neighbour of {at:?}: got {r:?}, minimum is {m:?}"
                ))
            }
        }
        match (min, r2) {
            (None, None) => {}
            (Some(m), Some(k)) => match u.idx.get(&k) {
                Some(i) if w.counts[*i as usize] > 0 && close(q.d2[*i as usize], m, u.m.exact) => {}
                _ => {
                    return Err(format!(
                        "nearest_neighbor({at:?}) gives {} although the minimum is {m}",
                        u.name(k)
                    ))
                }
            },
            (m, r) => {
                return Err(format!(
                    "nearest_neighbor({at:?}): got {r:?}, minimum is {m:?}"
                ))
            }
        }
    }
    Ok(())
}

pub fn v_nns(w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
    if u.kind == Kind::Loose {
        return Ok(()); // not specified
    }
    for q in &menu.pts {
        let min = min_of(w, &q.d2);
        let at = &q.p[..u.d];
        let r = w.sut.nns(&q.p);
        let r2 = w.sut.nns_plain(&q.p);
        st.evals += 2;
        match (min, r) {
            (None, None) => {
                if !r2.is_empty() {
                    return Err("nearest_neighbors of an empty tree is not empty".into());
                }
            }
            (Some(m), Some((ks, d))) => {
                if !close(d, m, u.m.exact) {
                    return Err(format!(
                        "nearest_neighbors({at:?}) reports distance_2 {d}, the minimum is {m}"
                    ));
                }
                if u.fuzzy {
                    // only what is tied up to rounding; all of it if exactly tied
                    let near = |i: usize| close(q.d2[i], m, false);
                    w.within_by(u, &ks, near)
                        .map_err(|e| format!("nearest_neighbors_with_distance_2({at:?}): {e}"))?;
                    w.within_by(u, &r2, near)
                        .map_err(|e| format!("nearest_neighbors({at:?}): {e}"))?;
                    let even = w.present().all(|i| !near(i) || q.d2[i] == m);
                    if ks.is_empty() || r2.is_empty() {
                        return Err(format!("nearest_neighbors({at:?}) gives nothing"));
                    }
                    if !even {
                        continue;
                    }
                }
                let tied = |i: usize| q.d2[i] == m;
                w.same_by(u, &ks, tied)
                    .map_err(|e| format!("nearest_neighbors_with_distance_2({at:?}): {e}"))?;
                w.same_by(u, &r2, tied)
                    .map_err(|e| format!("nearest_neighbors({at:?}): {e}"))?;
                outcome(st, 7, keyset(&ks));
            }
            (m, r) => {
                return Err(format!(
                    "nearest_neighbors({at:?}): got {r:?}, minimum is {m:?}"
                ))
            }
        }
    }
    Ok(())
}

pub fn v_nniter(w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
    for q in &menu.pts {
        let at = &q.p[..u.d];
        for kind in 0..3u8 {
            let (v, end) = w.sut.nn_iter(&q.p, kind, NOLIM);
            st.evals += 1;
            let keys: Vec<u64> = v.iter().map(|x| x.0).collect();
            w.same_by(u, &keys, |_| true).map_err(|e| {
                format!("nearest neighbour iteration (form {kind}) from {at:?}: {e}")
            })?;
            if !end {
                return Err(format!(
                    "nearest neighbour iteration from {at:?} goes on after its end"
                ));
            }
            let mut prev = -1.0;
            for (k, d) in &v {
                let t = q.d2[u.idx[k] as usize];
                if kind != 1 && !close(*d, t, u.m.exact) {
                    return Err(format!("nearest neighbour iteration (form {kind}) from {at:?} reports distance_2 {d} for {}, it is {t}", u.name(*k)));
                }
                if t < prev && !close(t, prev, u.m.exact) {
                    return Err(format!("nearest neighbour iteration (form {kind}) from {at:?} yields {} at distance_2 {t} after {prev}", u.name(*k)));
                }
                prev = t;
            }
            if kind == 0 {
                outcome(st, 8, keys.iter().fold(1, |h, k| mix(h, *k)));
            }
        }
    }
    Ok(())
}

pub fn v_within(w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
    for q in &menu.pts {
        for (r, bits) in &q.rads {
            let f = w
                .sut
                .select(&Sel::Within(q.p, r.clone()), Var::Iter, NOLIM, None);
            st.evals += 1;
            w.same(u, &f.keys, bits)
                .map_err(|m| format!("within distance_2 {r:?} of {:?}: {m}", &q.p[..u.d]))?;
            outcome(st, 9, keyset(&f.keys));
        }
    }
    Ok(())
}
/// The draining form, on copies.
pub fn v_drain_within(w: &mut World, u: &Uni, menu: &Menu, stride: usize, st: &mut Stats) -> R {
    for (n, q) in menu.pts.iter().enumerate() {
        for (m, (r, bits)) in q.rads.iter().enumerate() {
            if (n + m) % stride != 0 {
                continue;
            }
            let mut c = w.fork();
            let d = c
                .sut
                .drain(&Sel::Within(q.p, r.clone()), NOLIM, End::Finish);
            st.evals += 1;
            w.same(u, &d.keys, bits)
                .map_err(|m| format!("drain_within_distance {r:?} of {:?}: {m}", &q.p[..u.d]))?;
            let mut left = Vec::new();
            c.sut.iter_keys(&mut left);
            w.same_by(u, &left, |i| !bits.get(i)).map_err(|m| {
                format!(
                    "left after drain_within_distance {r:?} of {:?}: {m}",
                    &q.p[..u.d]
                )
            })?;
        }
    }
    Ok(())
}

/// Every kind of query once per menu entry.
pub fn v_all(w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
    v_envelope(w, u, menu, &[Var::Iter, Var::IntMut], st)?;
    v_point(w, u, menu, &[Var::Iter, Var::Int], st)?;
    v_contains(w, u, st)?;
    v_nn(w, u, menu, st)?;
    v_nns(w, u, menu, st)?;
    v_nniter(w, u, menu, st)?;
    v_within(w, u, menu, st)
}

// ---------------------------------------------------------------- ways of consuming

/// Every script up to two leading calls over a sequence of `n` elements, with
/// the positions around its end.
pub fn scripts(n: usize, full: bool) -> Vec<Script> {
    let mut v = Vec::new();
    let leads: &[usize] = if full { &[0, 1, 2] } else { &[0, 1] };
    for &lead in leads {
        if lead > n {
            continue;
        }
        let rest = n - lead;
        let mut ks = vec![0, 1, 2, 5, rest / 2, rest.saturating_sub(1), rest, rest + 1];
        ks.sort();
        ks.dedup();
        ks.retain(|k| *k <= rest + 1);
        for k in &ks {
            v.push(Script {
                lead,
                act: Act::Nth(*k),
            });
            if full {
                v.push(Script {
                    lead,
                    act: Act::NthDrop(*k),
                });
                v.push(Script {
                    lead,
                    act: Act::Skip(*k),
                });
            }
        }
        for act in [Act::Count, Act::Last, Act::Fold, Act::Step(2), Act::Step(3)] {
            v.push(Script { lead, act });
        }
    }
    for lead in [n / 2, n.saturating_sub(1), n, n + 1] {
        for act in [Act::Count, Act::Last, Act::Fold, Act::Nth(0), Act::Skip(1)] {
            v.push(Script { lead, act });
        }
    }
    v
}
/// What was consumed must be what repeated calls of `next` give (`base`), up
/// to the order; returns the number of elements taken off the iterator.
pub fn check_consumed(base: &[u64], sc: Script, c: &Consumed) -> Result<usize, String> {
    let n = base.len();
    let lead = sc.lead.min(n);
    let rest = n - lead;
    for (pos, lo, hi) in &c.hints {
        let left = n.saturating_sub(*pos);
        if *lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!(
                "size_hint is ({lo}, {hi:?}) with {left} elements left"
            ));
        }
    }
    if c.again {
        return Err("an element comes after the end".into());
    }
    let mut have = base.to_vec();
    have.sort_unstable();
    let mut got: Vec<u64> = c.keys.iter().map(|x| x.1).collect();
    got.sort_unstable();
    let mut have = have.into_iter();
    for k in got {
        if !have.by_ref().any(|x| x == k) {
            return Err(format!("element {k:#x} is yielded once too often"));
        }
    }
    let (want, taken) = match sc.act {
        Act::Nth(k) => (if k < rest { rest - k } else { 0 }, n),
        Act::NthDrop(k) => ((k < rest) as usize, n.min(lead.saturating_add(k + 1))),
        Act::Count => (0, n),
        Act::Last => ((rest > 0) as usize, n),
        Act::Fold => (rest, n),
        Act::Skip(k) => (rest.saturating_sub(k), n),
        Act::Step(k) => (rest.div_ceil(k), n),
    };
    if c.keys.len() != lead + want {
        return Err(format!(
            "{} elements are yielded instead of {}",
            c.keys.len(),
            lead + want
        ));
    }
    if c.count.is_some_and(|x| x != rest) {
        return Err(format!("count() is {:?} instead of {rest}", c.count));
    }
    Ok(taken)
}
/// All scripts on one iterator.
pub fn v_consume(w: &mut World, u: &Uni, src: &Source, full: bool, st: &mut Stats) -> R {
    let plain = Script {
        lead: usize::MAX,
        act: Act::Last,
    };
    let drains = matches!(src, Source::Drain(_));
    let mut c = if drains { Some(w.fork()) } else { None };
    let Some(base) = c.as_mut().unwrap_or(w).sut.consume(src, plain) else {
        return Ok(());
    };
    let base: Vec<u64> = base.keys.iter().map(|x| x.1).collect();
    for sc in scripts(base.len(), full) {
        st.evals += 1;
        if !drains {
            let got = w.sut.consume(src, sc).unwrap();
            check_consumed(&base, sc, &got)
                .map_err(|m| format!("{src:?} consumed by {sc:?}: {m}"))?;
            continue;
        }
        let mut c = w.fork();
        let got = c.sut.consume(src, sc).unwrap();
        let taken = check_consumed(&base, sc, &got)
            .map_err(|m| format!("{src:?} consumed by {sc:?}: {m}"))?;
        let mut left = Vec::new();
        c.sut.iter_keys(&mut left);
        if left.len() != w.n - taken || c.sut.size() != left.len() {
            return Err(format!(
                "{src:?} consumed by {sc:?}: {} of {} elements are left, size() is {}, {taken} were taken",
                left.len(),
                w.n,
                c.sut.size()
            ));
        }
        left.extend(got.keys.iter().map(|x| x.1));
        w.within_by(u, &left, |_| true)
            .map_err(|m| format!("{src:?} consumed by {sc:?}: yielded and left together: {m}"))?;
    }
    Ok(())
}
/// The scripts on nearest-neighbour iteration, with the distances at the
/// positions asked for.
pub fn v_consume_near(w: &mut World, u: &Uni, q: &QPoint, kind: u8, st: &mut Stats) -> R {
    let src = Source::Near(q.p, kind);
    v_consume(w, u, &src, true, st)?;
    let mut d: Vec<f64> = Vec::new();
    for i in w.present() {
        for _ in 0..w.counts[i] {
            d.push(q.d2[i]);
        }
    }
    d.sort_by(f64::total_cmp);
    for sc in scripts(d.len(), false) {
        let got = w.sut.consume(&src, sc).unwrap();
        for (pos, k) in got.keys {
            let pos = pos.min(d.len() - 1);
            let t = q.d2[u.idx[&k] as usize];
            if !close(t, d[pos], u.m.exact) {
                return Err(format!(
                    "{src:?} consumed by {sc:?}: {} at distance_2 {t} stands at position {pos}, where distance_2 is {}",
                    u.name(k),
                    d[pos]
                ));
            }
        }
    }
    Ok(())
}
/// A box that selects some but not all elements.
fn partial<'a>(w: &World, menu: &'a Menu) -> Option<&'a QBox> {
    menu.boxes
        .iter()
        .filter(|q| {
            let c = w.count_by(|i| q.inter.get(i));
            c > 0 && c < w.n
        })
        .max_by_key(|q| w.count_by(|i| q.inside.get(i)))
}

// ---------------------------------------------------------------- C12

fn node_keys(w: &World) -> Vec<u64> {
    let mut v: Vec<u64> = w
        .sut
        .structure()
        .iter()
        .filter(|x| x.parent)
        .map(|x| x.key)
        .collect();
    v.sort();
    v.dedup();
    v
}
pub fn custom_menu(w: &World, u: &Uni, subsets: usize) -> Vec<Sel> {
    let mut nodes: Vec<NodePred> = vec![NodePred::All, NodePred::None];
    let ks = node_keys(w);
    if ks.len() <= subsets {
        for mask in 1..(1u32 << ks.len()) {
            nodes.push(NodePred::Reject(
                (0..ks.len())
                    .filter(|i| mask >> i & 1 == 1)
                    .map(|i| ks[i])
                    .collect(),
            ));
        }
    } else {
        for k in ks.iter().take(12) {
            nodes.push(NodePred::Reject(vec![*k]));
        }
        for b in 0..5 {
            nodes.push(NodePred::Bit(b * 7));
        }
    }
    let mut leaves = vec![LeafPred::All, LeafPred::None, LeafPred::Odd];
    for i in 0..u.n().min(3) {
        leaves.push(LeafPred::Accept(vec![u.keys[i]]));
    }
    let mut out = Vec::new();
    for (i, n) in nodes.iter().enumerate() {
        for (j, l) in leaves.iter().enumerate() {
            if i < 4 || j < 3 {
                out.push(Sel::Custom(n.clone(), l.clone()));
            }
        }
    }
    out
}
fn multiset_eq(a: &[u64], b: &[u64]) -> bool {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    a.sort();
    b.sort();
    a == b
}
pub fn v_custom(w: &mut World, u: &Uni, subsets: usize, st: &mut Stats) -> R {
    let s = w.sut.structure();
    if let Some(x) = s.iter().find(|x| x.parent && !x.tight && x.nchild > 0) {
        return Err(format!(
            "the node test would get an envelope that is not the bounding box of its {} children",
            x.nchild
        ));
    }
    let ks = node_keys(w);
    for sel in custom_menu(w, u, subsets) {
        let Sel::Custom(np, lp) = &sel else {
            unreachable!()
        };
        let want = w.custom_selected(np, lp);
        for v in [Var::Iter, Var::Mut] {
            let _ = take_calls();
            let f = w.sut.select(&sel, v, NOLIM, None);
            let calls = take_calls();
            st.evals += 1;
            if !multiset_eq(&f.keys, &want) {
                return Err(format!(
                    "search ({v:?}) with {np:?}/{lp:?} yields {}, selected are {}",
                    u.names(&f.keys),
                    u.names(&want)
                ));
            }
            check_calls(w, u, &ks, np, &calls)
                .map_err(|m| format!("search ({v:?}) with {np:?}/{lp:?}: {m}"))?;
            outcome(st, 12, keyset(&f.keys));
        }
        // removal and drains on copies
        let mut c = w.fork();
        let _ = take_calls();
        let r = c.sut.remove_sel(&sel);
        let calls = take_calls();
        check_calls(w, u, &ks, np, &calls)
            .map_err(|m| format!("removal with {np:?}/{lp:?}: {m}"))?;
        st.evals += 1;
        match r {
            None if want.is_empty() => {}
            Some(k) if want.contains(&k) => {}
            r => {
                return Err(format!(
                    "removal with {np:?}/{lp:?} gives {:?}, selected are {}",
                    r.map(|k| u.name(k)),
                    u.names(&want)
                ))
            }
        }
        let mut left = Vec::new();
        c.sut.iter_keys(&mut left);
        if left.len() + r.is_some() as usize != w.n || c.sut.size() != left.len() {
            return Err(format!(
                "removal with {np:?}/{lp:?} leaves {} of {} elements, size {}",
                left.len(),
                w.n,
                c.sut.size()
            ));
        }
        for (take, end) in [(NOLIM, End::Finish), (want.len() / 2, End::Drop)] {
            let mut c = w.fork();
            let _ = take_calls();
            let d = c.sut.drain(&sel, take, end);
            let calls = take_calls();
            check_calls(w, u, &ks, np, &calls)
                .map_err(|m| format!("drain with {np:?}/{lp:?}: {m}"))?;
            st.evals += 1;
            let ok = if end == End::Finish {
                multiset_eq(&d.keys, &want)
            } else {
                d.keys.len() == want.len() / 2 && d.keys.iter().all(|k| want.contains(k))
            };
            if !ok {
                return Err(format!(
                    "drain (take {take}) with {np:?}/{lp:?} yields {}, selected are {}",
                    u.names(&d.keys),
                    u.names(&want)
                ));
            }
            let mut left = Vec::new();
            c.sut.iter_keys(&mut left);
            let mut allk = left.clone();
            allk.extend(&d.keys);
            w.same_by(u, &allk, |_| true).map_err(|m| {
                format!("drain with {np:?}/{lp:?}: yielded and left elements together: {m}")
            })?;
        }
    }
    Ok(())
}
fn check_calls(w: &World, u: &Uni, ks: &[u64], np: &NodePred, c: &Calls) -> R {
    for h in &c.nodes {
        if !ks.contains(h) {
            return Err("the node test was given an envelope that no node of the tree has".into());
        }
        if w.n == 0 {
            return Err("the node test was called on an empty tree".into());
        }
    }
    let reach = w.custom_selected(np, &LeafPred::All);
    for k in &c.leaves {
        if !reach.contains(k) {
            return Err(format!(
                "the leaf test was called for {} below a rejected node",
                u.name(*k)
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22 / C23

/// Write tags through mutable access and check who got them.
pub fn v_mutable(w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
    let mut before = Vec::new();
    let mut after = Vec::new();
    let mut tagno = 1u32;
    let mut w2 = w.fork();
    let mut run = |w: &mut World,
                   w2: &mut World,
                   sel: Sel,
                   v: Var,
                   lim: usize,
                   bits: &dyn Fn(usize) -> bool,
                   st: &mut Stats|
     -> R {
        tagno += 1;
        let tag = tagno;
        let old = w2.sut.tags();
        let f = w2.sut.select(&sel, v, lim, Some(tag));
        st.evals += 1;
        let name = format!("{:?} ({v:?}, first {})", sel, lim as isize);
        if lim == NOLIM {
            w.same_by(u, &f.keys, bits)
                .map_err(|m| format!("{name}: {m}"))?;
        } else {
            w.within_by(u, &f.keys, bits)
                .map_err(|m| format!("{name}: {m}"))?;
            let want = w.count_by(bits).min(lim.max((v == Var::IntMut) as usize));
            if f.keys.len() != want {
                return Err(format!(
                    "{name} yields {} elements instead of {want}",
                    f.keys.len()
                ));
            }
        }
        check_tags(u, &old, &w2.sut.tags(), &f.keys, tag).map_err(|m| format!("{name}: {m}"))?;
        outcome(st, 22, keyset(&f.keys));
        Ok(())
    };
    w.sut.dump(&mut before);
    run(w, &mut w2, Sel::All, Var::Mut, NOLIM, &|_| true, st)?;
    run(w, &mut w2, Sel::All, Var::IntoMut, NOLIM, &|_| true, st)?;
    for lim in 0..=w.n.min(3) {
        run(w, &mut w2, Sel::All, Var::Mut, lim, &|_| true, st)?;
    }
    for q in &menu.boxes {
        for v in [Var::Mut, Var::IntMut] {
            run(w, &mut w2, Sel::In(q.b), v, NOLIM, &|i| q.inside.get(i), st)?;
            run(
                w,
                &mut w2,
                Sel::Inter(q.b),
                v,
                NOLIM,
                &|i| q.inter.get(i),
                st,
            )?;
            run(w, &mut w2, Sel::Inter(q.b), v, 1, &|i| q.inter.get(i), st)?;
        }
    }
    for q in &menu.pts {
        for v in [Var::Mut, Var::IntMut] {
            run(w, &mut w2, Sel::At(q.p), v, NOLIM, &|i| q.at.get(i), st)?;
        }
    }
    for q in &menu.pts {
        for v in [Var::Mut, Var::IntMut] {
            let old = w2.sut.tags();
            let tag = 900_000;
            let r = w2.sut.locate_one(&q.p, v, Some(tag));
            st.evals += 1;
            let any = w.count_by(|i| q.at.get(i)) > 0;
            if r.is_some() != any {
                return Err(format!(
                    "locate_at_point ({v:?}) {:?} gives {r:?}",
                    &q.p[..u.d]
                ));
            }
            check_tags(
                u,
                &old,
                &w2.sut.tags(),
                &r.into_iter().collect::<Vec<_>>(),
                tag,
            )?;
            // clear again
            for _ in w2.sut.select(&Sel::All, Var::Mut, NOLIM, Some(0)).keys {}
        }
    }
    // custom selections, mutable form
    for b in [0u32, 5, 11] {
        let (np, lp) = (NodePred::Bit(b), LeafPred::Odd);
        let want = w2.custom_selected(&np, &lp);
        let old = w2.sut.tags();
        let f = w2
            .sut
            .select(&Sel::Custom(np, lp), Var::Mut, NOLIM, Some(77 + b));
        if !multiset_eq(&f.keys, &want) {
            return Err(format!(
                "custom mutable search yields {}, selected are {}",
                u.names(&f.keys),
                u.names(&want)
            ));
        }
        check_tags(u, &old, &w2.sut.tags(), &f.keys, 77 + b)?;
    }
    // nothing but tags changed
    for _ in w2.sut.select(&Sel::All, Var::Mut, NOLIM, Some(0)).keys {}
    w2.sut.dump(&mut after);
    if before != after {
        return Err("mutable access changed the node hierarchy, positions or size".into());
    }
    Ok(())
}
fn check_tags(u: &Uni, old: &[(u64, u32)], new: &[(u64, u32)], keys: &[u64], tag: u32) -> R {
    if !u.has_id {
        return Ok(());
    }
    if old.len() != new.len() {
        return Err("the number of elements changed".into());
    }
    let mut todo: Vec<u64> = keys.to_vec();
    for (o, n) in old.iter().zip(new) {
        if o.0 != n.0 {
            return Err("the order of elements changed".into());
        }
        if n.1 == tag {
            match todo.iter().position(|k| *k == n.0) {
                Some(p) => {
                    todo.swap_remove(p);
                }
                None => {
                    return Err(format!(
                        "{} was written although it was not yielded",
                        u.name(n.0)
                    ))
                }
            }
        } else if n.1 != o.1 {
            return Err(format!("data of {} changed", u.name(n.0)));
        }
    }
    if !todo.is_empty() {
        return Err(format!("data written to {} is not visible", u.names(&todo)));
    }
    Ok(())
}

pub fn v_callback(w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
    let mut sels: Vec<Sel> = Vec::new();
    for q in &menu.boxes {
        sels.push(Sel::In(q.b));
        sels.push(Sel::Inter(q.b));
    }
    for q in &menu.pts {
        sels.push(Sel::At(q.p));
    }
    for sel in sels {
        let it = w.sut.select(&sel, Var::Iter, NOLIM, None);
        let total = it.keys.len();
        for v in [Var::Int, Var::IntMut] {
            let full = w.sut.select(&sel, v, NOLIM, None);
            st.evals += 1;
            if !multiset_eq(&full.keys, &it.keys) {
                return Err(format!(
                    "{sel:?} ({v:?}) calls the visitor for {}, the iterator yields {}",
                    u.names(&full.keys),
                    u.names(&it.keys)
                ));
            }
            if full.broke.is_some() {
                return Err(format!("{sel:?} ({v:?}) reports a break nobody asked for"));
            }
            let lims: Vec<usize> = if total <= 8 {
                (1..=total + 1).collect()
            } else {
                vec![1, 2, total / 2, total - 1, total, total + 1]
            };
            for lim in lims {
                let f = w.sut.select(&sel, v, lim, None);
                st.evals += 1;
                let want = total.min(lim);
                if f.keys.len() != want {
                    return Err(format!(
                        "{sel:?} ({v:?}) made {} calls when told to stop at call {lim} of {total}",
                        f.keys.len()
                    ));
                }
                let wantb = if lim <= total { Some(lim as u64) } else { None };
                if f.broke != wantb {
                    return Err(format!(
                        "{sel:?} ({v:?}) stopped at call {lim} of {total} reports {:?}",
                        f.broke
                    ));
                }
                // the calls made are a prefix of the full run's calls
                if f.keys[..] != full.keys[..want] {
                    return Err(format!(
                        "{sel:?} ({v:?}) visits different elements when stopped at call {lim}"
                    ));
                }
            }
        }
        outcome(st, 23, total as u64);
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

pub fn v_serde(w: &mut World, u: &Uni, menu: &Menu, follow: &[Op], st: &mut Stats) -> R {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    let Some(r) = w.sut.roundtrip() else {
        return Ok(());
    };
    let (s2, json) = r?;
    st.evals += 1;
    w.sut.dump(&mut a);
    s2.dump(&mut b);
    if a != b {
        return Err(
            "the deserialized tree has another size, hierarchy, envelopes or contents".into(),
        );
    }
    if s2.json().as_deref() != Some(&json) {
        return Err("serializing the deserialized tree gives another result".into());
    }
    for (name, r) in w.sut.others() {
        st.evals += 1;
        let s3 = r.map_err(|e| format!("through {name}: {e}"))?;
        s3.dump(&mut b);
        if a != b {
            return Err(format!("through {name}: the deserialized tree has another size, hierarchy, envelopes or contents"));
        }
    }
    let mut w2 = w.fork();
    w2.sut = s2;
    w2.check_contents(u)?;
    v_all(&mut w2, u, menu, st).map_err(|m| format!("deserialized tree: {m}"))?;
    for op in follow.iter().filter(|o| o.fits(u.n())) {
        let mut x = w.fork();
        let mut y = w2.fork();
        st.evals += 1;
        let ra = x.apply(u, op);
        let rb = y.apply(u, op);
        match (ra, rb) {
            (Ok(()), Ok(())) => {}
            (Err(_), Err(_)) => continue, // not this property's business
            (Ok(()), Err(d)) => {
                return Err(format!(
                    "works on the original, fails on the deserialized tree: {}",
                    d.msg
                ))
            }
            (Err(_), Ok(())) => return Err(format!("{op:?} works on the deserialized tree only")),
        }
        x.sut.dump(&mut a);
        y.sut.dump(&mut b);
        if a != b {
            return Err(format!("{} leads to different trees", op.short(u.d)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

/// Everything, ignoring answers.
pub fn v_everything(w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
    let _ = v_contents(w, u, st);
    for q in &menu.boxes {
        for sel in [Sel::In(q.b), Sel::Inter(q.b)] {
            for v in QVARS {
                w.sut.select(&sel, v, NOLIM, None);
                st.evals += 1;
            }
        }
    }
    for q in &menu.pts {
        for v in QVARS {
            w.sut.select(&Sel::At(q.p), v, NOLIM, None);
            w.sut.locate_one(&q.p, v, None);
            st.evals += 2;
        }
        w.sut.nn(&q.p);
        w.sut.nn_plain(&q.p);
        w.sut.nns(&q.p);
        w.sut.nns_plain(&q.p);
        for k in 0..3 {
            w.sut.nn_iter(&q.p, k, NOLIM);
        }
        for (r, _) in &q.rads {
            w.sut
                .select(&Sel::Within(q.p, r.clone()), Var::Iter, NOLIM, None);
        }
        st.evals += 8;
    }
    for i in 0..u.n().min(20) {
        w.sut.contains(&u.elems[i], i as u32);
    }
    w.sut.self_join();
    // updates and drains on a copy
    let mut c = w.fork();
    if let Some(q) = menu.pts.first() {
        c.sut.pop_nn(&q.p);
        c.sut.remove_at(&q.p);
    }
    for q in menu.boxes.iter().take(3) {
        c.sut.drain(&Sel::Inter(q.b), 2, End::Drop);
        c.sut.drain(&Sel::In(q.b), NOLIM, End::Finish);
    }
    if let Some(q) = menu.pts.last() {
        c.sut
            .drain(&Sel::Within(q.p, Rad::Grid(1)), NOLIM, End::Finish);
        c.sut.drain(&Sel::Within(q.p, Rad::Max), 1, End::Drop);
    }
    c.sut.drain(&Sel::All, NOLIM, End::Finish);
    c.sut.drain(&Sel::All, NOLIM, End::Finish);
    if let Some(q) = menu.pts.last() {
        c.sut
            .drain(&Sel::Within(q.p, Rad::Grid(1)), NOLIM, End::Finish);
        c.sut.pop_nn(&q.p);
        c.sut.nns(&q.p);
    }
    for q in menu.boxes.iter().take(2) {
        c.sut.drain(&Sel::Inter(q.b), NOLIM, End::Finish);
        c.sut.select(&Sel::Inter(q.b), Var::Iter, NOLIM, None);
    }
    for i in 0..u.n().min(4) {
        c.sut.insert(&u.elems[i], i as u32);
        c.sut.remove(&u.elems[i], i as u32);
    }
    st.evals += 10;
    Ok(())
}

// ---------------------------------------------------------------- dispatch

pub struct Std {
    pub id: &'static str,
    pub follow: Vec<Op>,
    /// Bound on the number of nodes whose accept/reject subsets are all tried.
    pub subsets: usize,
}

impl Prop for Std {
    fn owns(&self, op: &Op, why: Why) -> bool {
        match self.id {
            "C01" => why == Why::Contents,
            "C02" => why == Why::Panic,
            "C03" => false,
            "C09" => matches!(op, Op::Drain(Sel::Within(..), _, _)),
            "C10" => is_removal(op),
            "C11" => matches!(op, Op::Drain(..)),
            "C12" => is_custom(op),
            "C14" => matches!(op, Op::Bulk(..) | Op::Rebuild),
            "C16" => matches!(op, Op::Serde),
            "C15" | "C18" | "C19" => true,
            _ => false,
        }
    }
    fn owns_after(&self, hist: &[Op], op: &Op, why: Why) -> bool {
        // whatever goes wrong in a tree that was bulk loaded
        self.owns(op, why)
            || self.id == "C14"
                && hist
                    .iter()
                    .rev()
                    .take_while(|o| **o != Op::New)
                    .any(|o| matches!(o, Op::Bulk(..) | Op::Rebuild))
    }
    fn panics_only(&self) -> bool {
        self.id == "C02"
    }
    fn visit(&self, w: &mut World, u: &Uni, menu: &Menu, st: &mut Stats) -> R {
        match self.id {
            "C01" => {
                v_contents(w, u, st)?;
                if menu.pts.len() == 1 && w.n > 150 {
                    return Ok(());
                }
                let full = w.n <= 8;
                for v in [Var::Iter, Var::Mut, Var::Into, Var::IntoMut] {
                    v_consume(w, u, &Source::Query(Sel::All, v), full, st)?;
                }
                v_consume(w, u, &Source::Owned, full, st)?;
                v_consume(w, u, &Source::Drain(Sel::All), full && w.n <= 5, st)
            }
            "C02" => v_everything(w, u, menu, st),
            "C03" => v_structure(w, st),
            "C04" => {
                v_envelope(w, u, menu, &QVARS, st)?;
                if let Some(q) = partial(w, menu) {
                    for sel in [Sel::In(q.b), Sel::Inter(q.b)] {
                        for v in [Var::Iter, Var::Mut] {
                            v_consume(w, u, &Source::Query(sel.clone(), v), w.n <= 8, st)?;
                        }
                    }
                }
                Ok(())
            }
            "C05" => {
                v_point(w, u, menu, &QVARS, st)?;
                let most = menu.pts.iter().max_by_key(|q| w.count_by(|i| q.at.get(i)));
                if let Some(q) = most {
                    for v in [Var::Iter, Var::Mut] {
                        v_consume(w, u, &Source::Query(Sel::At(q.p), v), w.n <= 8, st)?;
                    }
                }
                v_contains(w, u, st)
            }
            "C06" => v_nn(w, u, menu, st),
            "C07" => v_nns(w, u, menu, st),
            "C08" => {
                v_nniter(w, u, menu, st)?;
                for q in [menu.pts.first(), menu.pts.get(menu.pts.len() / 2)]
                    .into_iter()
                    .flatten()
                {
                    for kind in 0..3 {
                        v_consume_near(w, u, q, kind, st)?;
                    }
                }
                Ok(())
            }
            "C09" => {
                v_within(w, u, menu, st)?;
                v_drain_within(w, u, menu, 7, st)?;
                if let Some(q) = menu.pts.get(menu.pts.len() / 2) {
                    let some = q.rads.iter().find(|r| {
                        let c = w.count_by(|i| r.1.get(i));
                        c > 0 && (c < w.n || w.n < 3)
                    });
                    if let Some((r, _)) = some {
                        let sel = Sel::Within(q.p, r.clone());
                        v_consume(w, u, &Source::Query(sel.clone(), Var::Iter), w.n <= 8, st)?;
                        v_consume(w, u, &Source::Drain(sel), false, st)?;
                    }
                }
                Ok(())
            }
            "C10" => v_all(w, u, menu, st),
            "C11" => {
                v_all(w, u, menu, st)?;
                v_structure(w, st)?;
                if let Some(q) = partial(w, menu) {
                    for sel in [Sel::In(q.b), Sel::Inter(q.b)] {
                        v_consume(w, u, &Source::Drain(sel), w.n <= 5, st)?;
                    }
                }
                v_consume(w, u, &Source::Drain(Sel::All), w.n <= 5, st)
            }
            "C12" => {
                v_custom(w, u, self.subsets, st)?;
                let menu = custom_menu(w, u, self.subsets);
                for i in [0, menu.len() / 2, menu.len() - 1] {
                    for v in [Var::Iter, Var::Mut] {
                        v_consume(w, u, &Source::Query(menu[i].clone(), v), w.n <= 8, st)?;
                    }
                    v_consume(w, u, &Source::Drain(menu[i].clone()), false, st)?;
                }
                Ok(())
            }
            "C14" | "C15" | "C18" | "C19" => {
                v_all(w, u, menu, st)?;
                v_contents(w, u, st)
            }
            "C16" => v_serde(w, u, menu, &self.follow, st),
            "C22" => v_mutable(w, u, menu, st),
            "C23" => v_callback(w, u, menu, st),
            _ => Err(format!("no visit for {}", self.id)),
        }
    }
}

//! Reference model: a multiset of universe elements, and the oracle that
//! compares every operation of the real tree with it.
use crate::geom::*;
use crate::sut::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    New,
    /// Bulk load the given universe elements from a vector with spare capacity.
    Bulk(Vec<u32>, u32),
    Ins(u32),
    Rem(u32),
    RemAt(Pt),
    Pop(Pt),
    RemSel(Sel),
    Drain(Sel, u32, End),
    Serde,
    Clone,
    Rebuild,
}
impl Op {
    /// Refers only to elements of a universe of `n`.
    pub fn fits(&self, n: usize) -> bool {
        match self {
            Op::Ins(i) | Op::Rem(i) => (*i as usize) < n,
            Op::Drain(Sel::Within(_, Rad::Of(i)), _, _) => (*i as usize) < n,
            _ => true,
        }
    }
    /// Compact rendering for samples and messages.
    pub fn short(&self, d: usize) -> String {
        let p = |p: &Pt| format!("{:?}", &p[..d]);
        let s = |s: &Sel| match s {
            Sel::All => "all".to_string(),
            Sel::In(b) => format!("in {}..{}", p(&b.lo), p(&b.hi)),
            Sel::Inter(b) => format!("intersecting {}..{}", p(&b.lo), p(&b.hi)),
            Sel::Within(q, r) => format!("within {} r2={:?}", p(q), r),
            Sel::At(q) => format!("at {}", p(q)),
            Sel::Custom(n, l) => format!("custom {:?}/{:?}", n, l),
        };
        match self {
            Op::New => "new".into(),
            Op::Bulk(v, c) if v.len() > 12 => format!("bulk[{} elements]+cap{}", v.len(), c),
            Op::Bulk(v, c) => format!("bulk{:?}+cap{}", v, c),
            Op::Ins(i) => format!("insert {i}"),
            Op::Rem(i) => format!("remove {i}"),
            Op::RemAt(q) => format!("remove_at {}", p(q)),
            Op::Pop(q) => format!("pop_nn {}", p(q)),
            Op::RemSel(x) => format!("remove_sel {}", s(x)),
            Op::Drain(x, k, e) => {
                format!(
                    "drain {} take {} {:?}",
                    s(x),
                    if *k == u32::MAX { -1 } else { *k as i64 },
                    e
                )
            }
            Op::Serde => "serde".into(),
            Op::Clone => "clone".into(),
            Op::Rebuild => "rebuild".into(),
        }
    }
}
pub fn short_ops(ops: &[Op], d: usize) -> String {
    if ops.len() > 16 {
        let h: Vec<_> = ops[..6].iter().map(|o| o.short(d)).collect();
        let t: Vec<_> = ops[ops.len() - 4..].iter().map(|o| o.short(d)).collect();
        format!(
            "{}; ..{} more..; {}",
            h.join("; "),
            ops.len() - 10,
            t.join("; ")
        )
    } else {
        ops.iter()
            .map(|o| o.short(d))
            .collect::<Vec<_>>()
            .join("; ")
    }
}

/// A set of universe indices.
#[derive(Clone, Debug, PartialEq)]
pub struct Bits(Vec<u64>);
impl Bits {
    pub fn of(n: usize, f: impl Fn(usize) -> bool) -> Bits {
        let mut v = vec![0; n.div_ceil(64)];
        for i in 0..n {
            if f(i) {
                v[i / 64] |= 1 << (i % 64);
            }
        }
        Bits(v)
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
}

pub struct Uni {
    pub elems: Vec<Elem>,
    pub boxes: Vec<Bx>,
    pub kind: Kind,
    pub d: usize,
    pub m: Mapping,
    pub has_id: bool,
    /// Distances are rounded; boundary cases of distances are left open.
    pub fuzzy: bool,
    pub keys: Vec<u64>,
    pub canon: Vec<u32>,
    pub idx: HashMap<u64, u32>,
}
impl Uni {
    pub fn new(sut: &dyn Sut, elems: &[Elem], mut m: Mapping) -> Uni {
        let fuzzy = sut.fuzzy();
        m.exact &= !fuzzy;
        let keys: Vec<u64> = elems
            .iter()
            .enumerate()
            .map(|(i, e)| sut.key_of(e, i as u32))
            .collect();
        let mut idx = HashMap::new();
        let mut canon = Vec::new();
        for (i, k) in keys.iter().enumerate() {
            canon.push(*idx.entry(*k).or_insert(i as u32));
        }
        UNIVERSE.with(|u| *u.borrow_mut() = elems.to_vec());
        Uni {
            elems: elems.to_vec(),
            boxes: elems.iter().map(|e| e.bx(sut.kind())).collect(),
            kind: sut.kind(),
            d: sut.dim(),
            m,
            has_id: sut.has_id(),
            fuzzy,
            keys,
            canon,
            idx,
        }
    }
    pub fn n(&self) -> usize {
        self.elems.len()
    }
    /// True squared distance of element `i` to `q`, in scalar units.
    pub fn d2(&self, sut: &dyn Sut, i: usize, q: &Pt) -> f64 {
        if self.m.exact {
            self.elems[i].d2(self.kind, self.d, q) * self.m.mul * self.m.mul
        } else {
            sut.elem_d2(&self.elems[i], q)
        }
    }
    /// The geometric predicate of a (non-custom) selection.
    pub fn sel_bits(&self, sut: &dyn Sut, s: &Sel) -> Bits {
        let n = self.n();
        match s {
            Sel::All => Bits::of(n, |_| true),
            Sel::In(b) => Bits::of(n, |i| b.contains(self.d, &self.boxes[i])),
            Sel::Inter(b) => Bits::of(n, |i| b.intersects(self.d, &self.boxes[i])),
            Sel::At(p) => Bits::of(n, |i| self.elems[i].contains(self.kind, self.d, p)),
            Sel::Within(p, r) => {
                let r = match r {
                    Rad::Grid(g) => *g as f64 * self.m.mul * self.m.mul,
                    Rad::Of(i) if self.fuzzy => past(self.d2(sut, *i as usize, p)),
                    Rad::Of(i) => self.d2(sut, *i as usize, p),
                    Rad::Max => f64::INFINITY,
                    Rad::Min => f64::NEG_INFINITY,
                };
                Bits::of(n, |i| self.d2(sut, i, p) <= r)
            }
            Sel::Custom(..) => unreachable!(),
        }
    }
    pub fn name(&self, k: u64) -> String {
        match self.idx.get(&k) {
            Some(i) => format!("#{}{:?}", i, self.show(*i as usize)),
            None => format!("unknown element (key {k:#x})"),
        }
    }
    pub fn show(&self, i: usize) -> String {
        let e = &self.elems[i];
        if self.kind == Kind::Point {
            format!("{:?}", &e.a[..self.d])
        } else {
            format!("{:?}-{:?}", &e.a[..self.d], &e.b[..self.d])
        }
    }
    pub fn names(&self, k: &[u64]) -> String {
        let mut v: Vec<_> = k.iter().map(|k| self.name(*k)).collect();
        v.sort();
        if v.len() > 12 {
            let n = v.len();
            v.truncate(12);
            v.push(format!("..{} in all", n));
        }
        format!("[{}]", v.join(", "))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    Panic,
    /// The operation returned something the model does not allow.
    Result,
    /// The stored contents or the size differ from the model afterwards.
    Contents,
    /// An element was lost, leaked or dropped twice.
    Ownership,
}
#[derive(Clone, Debug)]
pub struct Dev {
    pub why: Why,
    pub msg: String,
}
fn bad<T>(why: Why, msg: String) -> Result<T, Dev> {
    Err(Dev { why, msg })
}

pub struct World {
    pub sut: Box<dyn Sut>,
    pub counts: Vec<u32>,
    pub n: usize,
    /// Only insertions (and pure copies) so far.
    pub ins_only: bool,
    buf: Vec<u64>,
    cnt: Vec<u32>,
}

impl World {
    pub fn new(sut: Box<dyn Sut>, u: &Uni) -> World {
        World {
            sut,
            counts: vec![0; u.n()],
            n: 0,
            ins_only: true,
            buf: Vec::new(),
            cnt: vec![0; u.n()],
        }
    }
    pub fn fork(&self) -> World {
        World {
            sut: self.sut.clone_box(),
            counts: self.counts.clone(),
            n: self.n,
            ins_only: self.ins_only,
            buf: Vec::new(),
            cnt: vec![0; self.counts.len()],
        }
    }
    pub fn present(&self) -> impl Iterator<Item = usize> + '_ {
        (0..self.counts.len()).filter(move |i| self.counts[*i] > 0)
    }
    /// `keys` must be exactly the stored copies of the elements in `want`.
    pub fn same(&mut self, u: &Uni, keys: &[u64], want: &Bits) -> Result<(), String> {
        self.same_by(u, keys, |i| want.get(i))
    }
    pub fn same_by(
        &mut self,
        u: &Uni,
        keys: &[u64],
        want: impl Fn(usize) -> bool,
    ) -> Result<(), String> {
        self.cnt.iter_mut().for_each(|c| *c = 0);
        for k in keys {
            match u.idx.get(k) {
                Some(i) => self.cnt[*i as usize] += 1,
                None => return Err(format!("yields an element that was never stored: {k:#x}")),
            }
        }
        for i in 0..self.counts.len() {
            let w = if self.counts[i] > 0 && want(i) {
                self.counts[i]
            } else {
                0
            };
            if self.cnt[i] != w {
                return Err(format!(
                    "element #{} {} expected {} time(s) but found {} time(s); got {}",
                    i,
                    u.show(i),
                    w,
                    self.cnt[i],
                    u.names(keys)
                ));
            }
        }
        Ok(())
    }
    /// `keys` must be a sub-multiset of the stored copies of `want`.
    pub fn within_by(
        &mut self,
        u: &Uni,
        keys: &[u64],
        want: impl Fn(usize) -> bool,
    ) -> Result<(), String> {
        self.cnt.iter_mut().for_each(|c| *c = 0);
        for k in keys {
            match u.idx.get(k) {
                Some(i) => {
                    let i = *i as usize;
                    self.cnt[i] += 1;
                    if !want(i) || self.cnt[i] > self.counts[i] {
                        return Err(format!("yields {} which is not selected", u.name(*k)));
                    }
                }
                None => return Err(format!("yields an element that was never stored: {k:#x}")),
            }
        }
        Ok(())
    }
    pub fn count_by(&self, want: impl Fn(usize) -> bool) -> usize {
        (0..self.counts.len())
            .filter(|i| want(*i))
            .map(|i| self.counts[i] as usize)
            .sum()
    }
    pub fn check_contents(&mut self, u: &Uni) -> Result<(), String> {
        self.check_size()?;
        let mut buf = std::mem::take(&mut self.buf);
        self.sut.iter_keys(&mut buf);
        let r = self
            .same_by(u, &buf, |_| true)
            .map_err(|e| format!("contents: {e}"));
        self.buf = buf;
        r
    }
    fn check_size(&self) -> Result<(), String> {
        if self.sut.size() != self.n {
            return Err(format!(
                "size() is {} but {} elements are stored",
                self.sut.size(),
                self.n
            ));
        }
        Ok(())
    }
    fn take_out(&mut self, u: &Uni, k: u64) -> Result<usize, String> {
        match u.idx.get(&k) {
            Some(i) if self.counts[*i as usize] > 0 => {
                self.counts[*i as usize] -= 1;
                self.n -= 1;
                Ok(*i as usize)
            }
            _ => Err(format!("returned {} which is not stored", u.name(k))),
        }
    }
    /// Keys selected by a custom selection function, by definition.
    pub fn custom_selected(&self, np: &NodePred, lp: &LeafPred) -> Vec<u64> {
        let s = self.sut.structure();
        let mut out = Vec::new();
        if self.n == 0 && s.len() == 1 {
            return out;
        }
        // ok[d] = all ancestors up to depth d accepted
        let mut ok = vec![true];
        for x in &s {
            let d = x.depth as usize;
            ok.truncate(d + 1);
            let parent_ok = if d == 0 { true } else { ok[d] };
            if x.parent {
                let me = parent_ok && np.test(x.key);
                if ok.len() <= d + 1 {
                    ok.resize(d + 2, false);
                }
                ok[d + 1] = me;
            } else if parent_ok && lp.test(x.key) {
                out.push(x.key);
            }
        }
        out
    }
    pub fn min_d2(&self, u: &Uni, q: &Pt) -> Option<f64> {
        self.present()
            .map(|i| u.d2(&*self.sut, i, q))
            .fold(None, |m: Option<f64>, d| {
                Some(match m {
                    Some(m) if m <= d => m,
                    _ => d,
                })
            })
    }

    /// Apply `op` to the real tree and to the model, comparing the two.
    pub fn apply(&mut self, u: &Uni, op: &Op) -> Result<(), Dev> {
        let (before, n) = (live(), self.n);
        let res = match guard(|| self.apply_inner(u, op)) {
            Ok(r) => r,
            Err(p) => return bad(Why::Panic, format!("{} panicked: {}", op.short(u.d), p)),
        };
        if res.is_ok() && self.sut.probed() {
            let want = before - n as i64 + self.n as i64;
            // elements of a leaked drain may be leaked
            let leak = if matches!(op, Op::Drain(_, _, End::Forget)) {
                n as i64
            } else {
                0
            };
            if overdropped() || live() < want || live() > want + leak {
                return bad(
                    Why::Ownership,
                    format!(
                        "{}: {} elements are alive, expected {}",
                        op.short(u.d),
                        live() - before + n as i64,
                        self.n
                    ),
                );
            }
        }
        res.map_err(|d| Dev {
            why: d.why,
            msg: format!("{}: {}", op.short(u.d), d.msg),
        })
    }

    fn apply_inner(&mut self, u: &Uni, op: &Op) -> Result<(), Dev> {
        match op {
            Op::New => self.ins_only = true,
            Op::Ins(_) | Op::Clone | Op::Serde => {}
            _ => self.ins_only = false,
        }
        match op {
            Op::New => {
                self.sut.reset();
                self.counts.iter_mut().for_each(|c| *c = 0);
                self.n = 0;
            }
            Op::Bulk(v, cap) => {
                let es: Vec<(Elem, u32)> = v.iter().map(|i| (u.elems[*i as usize], *i)).collect();
                self.sut.bulk(&es, *cap as usize);
                self.counts.iter_mut().for_each(|c| *c = 0);
                for i in v {
                    self.counts[u.canon[*i as usize] as usize] += 1;
                }
                self.n = v.len();
            }
            Op::Ins(i) => {
                self.sut.insert(&u.elems[*i as usize], *i);
                self.counts[u.canon[*i as usize] as usize] += 1;
                self.n += 1;
            }
            Op::Rem(i) => {
                let c = u.canon[*i as usize] as usize;
                let r = self.sut.remove(&u.elems[*i as usize], *i);
                match (r, self.counts[c] > 0) {
                    (None, false) => {}
                    (None, true) => {
                        return bad(
                            Why::Result,
                            format!("returned None although {} is stored", u.show(c)),
                        )
                    }
                    (Some(k), has) => {
                        if !has || k != u.keys[c] {
                            return bad(
                                Why::Result,
                                format!(
                                    "returned {} for {} (stored: {})",
                                    u.name(k),
                                    u.show(c),
                                    has
                                ),
                            );
                        }
                        self.take_out(u, k).map_err(|m| Dev {
                            why: Why::Result,
                            msg: m,
                        })?;
                    }
                }
            }
            Op::RemAt(p) => {
                let at = u.sel_bits(&*self.sut, &Sel::At(*p));
                let any = self.count_by(|i| at.get(i)) > 0;
                let r = self.sut.remove_at(p);
                self.one_of(u, r, any, |i| at.get(i))?;
            }
            Op::Pop(p) => {
                let min = self.min_d2(u, p);
                let r = self.sut.pop_nn(p);
                let ok: Vec<bool> = (0..u.n())
                    .map(|i| {
                        self.counts[i] > 0
                            && close(u.d2(&*self.sut, i, p), min.unwrap_or(0.0), u.m.exact)
                    })
                    .collect();
                if u.kind == Kind::Loose {
                    // nearest neighbours are only specified for tight envelopes
                    self.one_of(u, r, min.is_some() && r.is_some(), |_| true)?;
                } else {
                    self.one_of(u, r, min.is_some(), |i| ok[i])?;
                }
            }
            Op::RemSel(s) => {
                if let Sel::Custom(np, lp) = s {
                    let sel = self.custom_selected(np, lp);
                    let _ = take_calls();
                    let r = self.sut.remove_sel(s);
                    match r {
                        None if sel.is_empty() => {}
                        Some(k) if sel.contains(&k) => {
                            self.take_out(u, k).map_err(|m| Dev {
                                why: Why::Result,
                                msg: m,
                            })?;
                        }
                        r => {
                            return bad(
                                Why::Result,
                                format!(
                                    "returned {:?}, selected are {}",
                                    r.map(|k| u.name(k)),
                                    u.names(&sel)
                                ),
                            )
                        }
                    }
                } else {
                    let b = u.sel_bits(&*self.sut, s);
                    let any = self.count_by(|i| b.get(i)) > 0;
                    let r = self.sut.remove_sel(s);
                    self.one_of(u, r, any, |i| b.get(i))?;
                }
            }
            Op::Drain(s, take, end) => self.drain(u, s, *take as usize, *end)?,
            Op::Serde => {
                if let Some(r) = self.sut.roundtrip() {
                    match r {
                        Ok((s, _)) => self.sut = s,
                        Err(e) => return bad(Why::Result, e),
                    }
                }
            }
            Op::Clone => self.sut = self.sut.clone_box(),
            Op::Rebuild => self.sut.rebuild(),
        }
        let ins = matches!(op, Op::Ins(_));
        if ins && self.n > 10_000 && self.n % 4096 > 1 {
            // going through very many elements after each insertion takes too
            // long; later operations and the final visit do
            return self.check_size().map_err(|m| Dev {
                why: Why::Contents,
                msg: m,
            });
        }
        self.check_contents(u).map_err(|m| Dev {
            why: Why::Contents,
            msg: m,
        })
    }
    fn one_of(
        &mut self,
        u: &Uni,
        r: Option<u64>,
        any: bool,
        ok: impl Fn(usize) -> bool,
    ) -> Result<(), Dev> {
        match r {
            None if !any => Ok(()),
            None => bad(
                Why::Result,
                "returned None although a match is stored".into(),
            ),
            Some(k) => match u.idx.get(&k) {
                Some(i) if self.counts[*i as usize] > 0 && ok(*i as usize) => {
                    self.take_out(u, k).map(|_| ()).map_err(|m| Dev {
                        why: Why::Result,
                        msg: m,
                    })
                }
                _ => bad(
                    Why::Result,
                    format!("returned {} which does not match", u.name(k)),
                ),
            },
        }
    }
    fn drain(&mut self, u: &Uni, s: &Sel, take: usize, end: End) -> Result<(), Dev> {
        let custom = match s {
            Sel::Custom(np, lp) => {
                let mut c = vec![0u32; u.n()];
                for k in self.custom_selected(np, lp) {
                    match u.idx.get(&k) {
                        Some(i) => c[*i as usize] += 1,
                        None => return bad(Why::Contents, "tree holds an unknown element".into()),
                    }
                }
                Some(c)
            }
            _ => None,
        };
        let _ = take_calls();
        // how many copies of each element the drain selects
        let sel: Vec<u32> = match custom {
            Some(c) => c,
            None => {
                let b = u.sel_bits(&*self.sut, s);
                (0..u.n())
                    .map(|i| if b.get(i) { self.counts[i] } else { 0 })
                    .collect()
            }
        };
        let total: usize = sel.iter().map(|c| *c as usize).sum();
        let r = self.sut.drain(s, take, end);
        if r.extra > 0 {
            return bad(
                Why::Result,
                "a finished drain yielded another element".into(),
            );
        }
        let mut got = vec![0u32; u.n()];
        for k in &r.keys {
            match u.idx.get(k) {
                Some(i) => {
                    got[*i as usize] += 1;
                    if got[*i as usize] > sel[*i as usize] {
                        return bad(
                            Why::Result,
                            format!("yielded {} which is not selected", u.name(*k)),
                        );
                    }
                }
                None => return bad(Why::Result, format!("yielded an unknown element {k:#x}")),
            }
        }
        let expect = match end {
            End::Finish => total,
            _ => total.min(take),
        };
        if r.keys.len() != expect {
            return bad(
                Why::Result,
                format!(
                    "yielded {} elements, expected {}; got {}",
                    r.keys.len(),
                    expect,
                    u.names(&r.keys)
                ),
            );
        }
        let leaked = end == End::Forget && !r.ended;
        if leaked {
            self.counts.iter_mut().for_each(|c| *c = 0);
            self.n = 0;
        } else {
            for i in 0..u.n() {
                self.counts[i] -= got[i];
            }
            self.n -= r.keys.len();
        }
        Ok(())
    }
}

pub fn close(a: f64, b: f64, exact: bool) -> bool {
    a == b || (!exact && (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-12)
}

// ---------------------------------------------------------------- panics

thread_local!(static LAST: std::cell::RefCell<Option<(String, bool)>> = std::cell::RefCell::new(None));
/// Raised on a panic that originates in the harness itself.
pub static HARNESS_BUG: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

/// Payload of panics the harness injects on purpose.
pub struct Injected;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() {
            return;
        }
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        // our own sources are compiled with relative paths
        let ours = loc.starts_with("src/") || loc.contains("harness/src/");
        if ours {
            let mut h = HARNESS_BUG.lock().unwrap_or_else(|e| e.into_inner());
            if h.is_none() {
                *h = Some(format!("{msg} at {loc}"));
            }
        }
        let loc = loc.rsplit("rstar/src/").next().unwrap_or("").to_string();
        LAST.with(|l| *l.borrow_mut() = Some((format!("'{msg}' at {loc}"), ours)));
    }));
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(LAST
            .with(|l| l.borrow_mut().take())
            .map(|x| x.0)
            .unwrap_or_else(|| "injected".into())),
    }
}

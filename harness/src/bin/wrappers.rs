//! C18: element wrappers behave like what they wrap.
use rmc::cli::*;
use rmc::explore::*;
use rmc::gen::*;
use rmc::model::*;
use rmc::props::*;
use rmc::sut::*;
use rstar::primitives::*;
use rstar::{DefaultParams, Envelope, PointDistance, RTreeObject, AABB};
use serde_json::{json, Value};
use std::rc::Rc;
use std::sync::Arc;

rmc::registry! {
    "data-point", PointS<[i32; 2]>, DefaultParams, 6, false;
    "data-line", LineS<[f64; 2]>, Pm<2, 4, 1>, 4, false;
    "pwd", PwdS<[i32; 2]>, DefaultParams, 6, false;
    "pwd-2-4-1", PwdS<[f64; 3]>, Pm<2, 4, 1>, 4, false;
    "cached-rect", CachedS<PlainRectS<[i32; 2]>>, Pm<2, 4, 1>, 4, false;
    "cached-data-pair", CachedS<PairS<[f64; 2]>>, DefaultParams, 6, false;
    "cached-line", CachedS<LineS<[f64; 2]>>, DefaultParams, 6, false;
    "data-cached", DataCachedS<[f64; 2]>, DefaultParams, 6, false;
    "arc-data-rect", ArcS<RectS<[i32; 2]>>, DefaultParams, 6, false;
    "arc-plain", ArcS<PlainS<[f64; 2]>>, Pm<2, 4, 1>, 4, false;
    "rc-data-pair", RcS<PairS<[i32; 2]>>, Pm<2, 4, 1>, 4, false;
    "rc-rect3", RcS<PlainRectS<[f32; 3]>>, DefaultParams, 6, false;
    "ref-data-rect", RefS<RectS<[i32; 2]>>, DefaultParams, 6, false;
    "ref-line", RefS<LineS<[f64; 2]>>, Pm<2, 4, 1>, 4, false;
    "cached-arc-ref-point", CachedS1<[i32; 2]>, DefaultParams, 6, false;
}
/// A stack of wrappers without serialization.
pub struct CachedS1<P>(std::marker::PhantomData<P>);
impl<P: rstar::Point + serde::Serialize + serde::de::DeserializeOwned + 'static> Spec
    for CachedS1<P>
where
    P::Scalar: Num,
{
    type P = P;
    type S = P::Scalar;
    type T = CachedEnvelope<Arc<Rc<GeomWithData<P, Data>>>>;
    const KIND: rmc::geom::Kind = rmc::geom::Kind::Point;
    const HAS_ID: bool = true;
    fn make(e: &rmc::geom::Elem, id: u32, m: &rmc::geom::Mapping) -> Self::T {
        CachedEnvelope::new(Arc::new(Rc::new(PointS::<P>::make(e, id, m))))
    }
    fn key(t: &Self::T) -> u64 {
        t.data.id as u64
    }
    fn tag(t: &Self::T) -> u32 {
        t.data.tag
    }
}

// ---- delegation, on a geometry whose methods are unrelated to each other

#[derive(Clone, Copy, Debug, PartialEq)]
struct Odd(u64);
fn h(a: u64, b: u64, p: &[f64; 2], x: f64) -> u64 {
    rmc::geom::mix(
        rmc::geom::mix(rmc::geom::mix(a, b), p[0].to_bits()),
        p[1].to_bits() ^ x.to_bits().rotate_left(9),
    )
}
impl RTreeObject for Odd {
    type Envelope = AABB<[f64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        let k = (self.0 % 7) as f64;
        AABB::from_corners([k, -k], [k + 1.0, 2.0 * k])
    }
}
impl PointDistance for Odd {
    fn distance_2(&self, p: &[f64; 2]) -> f64 {
        (h(self.0, 1, p, 0.0) % 1000) as f64
    }
    fn contains_point(&self, p: &[f64; 2]) -> bool {
        h(self.0, 2, p, 0.0) >> 7 & 1 == 1
    }
    fn distance_2_if_less_or_equal(&self, p: &[f64; 2], m: f64) -> Option<f64> {
        let x = h(self.0, 3, p, m);
        (x >> 9 & 1 == 1).then_some((x % 777) as f64)
    }
}
/// A geometry that keeps the provided methods.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Plain(u64);
impl RTreeObject for Plain {
    type Envelope = AABB<[f64; 2]>;
    fn envelope(&self) -> Self::Envelope {
        Odd(self.0).envelope()
    }
}
impl PointDistance for Plain {
    fn distance_2(&self, p: &[f64; 2]) -> f64 {
        let k = self.0 as f64;
        (p[0] - k).abs().max((p[1] - k).abs()).floor()
    }
}

type E = AABB<[f64; 2]>;
fn same<G: PointDistance<Envelope = E>, W: PointDistance<Envelope = E>>(
    name: &str,
    g: &G,
    w: &W,
    p: &[f64; 2],
    b: f64,
) -> Result<(), String> {
    if w.envelope() != g.envelope() {
        return Err(format!(
            "{name}: envelope {:?} instead of {:?}",
            w.envelope(),
            g.envelope()
        ));
    }
    let (x, y) = (
        PointDistance::distance_2(w, p),
        PointDistance::distance_2(g, p),
    );
    if x != y {
        return Err(format!("{name}: distance_2 to {p:?} is {x} instead of {y}"));
    }
    let (x, y) = (
        PointDistance::contains_point(w, p),
        PointDistance::contains_point(g, p),
    );
    if x != y {
        return Err(format!(
            "{name}: contains_point {p:?} is {x} instead of {y}"
        ));
    }
    let (x, y) = (
        w.distance_2_if_less_or_equal(p, b),
        g.distance_2_if_less_or_equal(p, b),
    );
    if x != y {
        return Err(format!(
            "{name}: distance_2_if_less_or_equal({p:?}, {b}) is {x:?} instead of {y:?}"
        ));
    }
    Ok(())
}
fn wrap_all<G: PointDistance<Envelope = E> + Clone + PartialEq + std::fmt::Debug + 'static>(
    g: G,
    p: &[f64; 2],
    b: f64,
) -> Result<(), String> {
    let gd = GeomWithData::new(g.clone(), 77u8);
    same("GeomWithData", &g, &gd, p, b)?;
    if gd.data != 77 || gd.geom() != &g {
        return Err("GeomWithData does not preserve its parts".into());
    }
    let ce = CachedEnvelope::new(g.clone());
    same("CachedEnvelope", &g, &ce, p, b)?;
    if *ce != g {
        return Err("CachedEnvelope does not dereference to its geometry".into());
    }
    let or = ObjectRef::new(&g);
    same("ObjectRef", &g, &or, p, b)?;
    if *or != g {
        return Err("ObjectRef does not dereference to its object".into());
    }
    same("Arc", &g, &Arc::new(g.clone()), p, b)?;
    same("Rc", &g, &Rc::new(g.clone()), p, b)?;
    let a: Arc<dyn PointDistance<Envelope = E>> = Arc::new(g.clone());
    same("Arc of a trait object", &g, &a, p, b)?;
    let a: Rc<dyn PointDistance<Envelope = E>> = Rc::new(g.clone());
    same("Rc of a trait object", &g, &a, p, b)?;
    let n = GeomWithData::new(CachedEnvelope::new(Arc::new(g.clone())), "x");
    same("GeomWithData of CachedEnvelope of Arc", &g, &n, p, b)?;
    let n = CachedEnvelope::new(GeomWithData::new(Rc::new(g.clone()), 1.5));
    same("CachedEnvelope of GeomWithData of Rc", &g, &n, p, b)?;
    let d = GeomWithData::new(g.clone(), 1u8);
    same("ObjectRef of GeomWithData", &g, &ObjectRef::new(&d), p, b)
}
#[allow(deprecated)]
fn delegation(k: u64, x: i64, y: i64, b: i64) -> Result<(), String> {
    let p = [x as f64 / 2.0, y as f64 / 2.0];
    let b = if b == 99 { f64::MAX } else { b as f64 };
    wrap_all(Odd(k), &p, b)?;
    wrap_all(Plain(k), &p, b)?;
    let q = [(k % 3) as f64, (k / 3) as f64];
    wrap_all(q, &p, b)?;
    wrap_all(Rectangle::from_corners(q, [1.0, -1.0]), &p, b)?;
    wrap_all(Line::new(q, [2.0, 1.0]), &p, b)?;
    let w = PointWithData::new("payload", q);
    same("PointWithData", &q, &w, &p, b)?;
    if w.data != "payload" || w.position() != &q {
        return Err("PointWithData does not preserve its parts".into());
    }
    let e = q.envelope();
    if Envelope::contains_point(&e, &p) != (p == q) {
        return Err("the envelope of a point".into());
    }
    Ok(())
}

struct S18;
impl Suite for S18 {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        if id != "C18" {
            return None;
        }
        let q = tier == Tier::Quick;
        let p = Plan {
            cfgs: CFGS.to_vec(),
            bfs_depth: tier.pick(2, 4),
            bfs_menu: MenuKind::Full,
            alphabet: mixed_alphabet,
            orders: tier.pick(5, 7),
            multiset: tier.pick(4, 6),
            sweep_ns: if q {
                let mut v: Vec<usize> = (0..=20).collect();
                v.extend([25, 26, 31, 37, 45, 50, 64, 65, 90]);
                v
            } else {
                let mut v: Vec<usize> = (0..=100).collect();
                v.extend((110..=300).step_by(10));
                v
            },
            sweep_patterns: if q {
                vec!["lattice", "perm", "fewdup", "nested"]
            } else {
                PATTERNS.to_vec()
            },
            sweep_modes: if q {
                vec!["ins", "bulk", "insrem", "bulkdrain", "pop", "serde"]
            } else {
                MODES.to_vec()
            },
            sweep_menu: MenuKind::Sparse,
            sweep_every_below: 0,
            large: tier.pick(vec![400], vec![400, 900, 2000]),
            huge: vec![],
            after: vec![],
            cong: None,
        };
        let mut js = jobs(&p, tier);
        let top = tier.pick(6i64, 16);
        js.push(Job::new("delegation", move |e, st| {
            for k in 0..12 {
                for x in -top..=top {
                    for y in -top..=top {
                        for b in [-1, 0, 1, 2, 5, 30, 400, 99] {
                            let v = json!({"kind": "delegation", "k": k, "x": x, "y": y, "b": b});
                            e.announce_lazy(Box::new({
                                let v = v.clone();
                                move || v.clone()
                            }));
                            st.evals += 1;
                            st.count("delegation_probes", 1);
                            if let Err(m) = guard(|| delegation(k, x, y, b)).unwrap_or_else(Err) {
                                e.report(v, m);
                                return;
                            }
                        }
                    }
                }
            }
        }));
        Some(Check {
            prop: Arc::new(Std { id: "C18", follow: vec![], subsets: 0 }),
            jobs: js,
            level: "model_checking",
            rule: "The same histories and queries run over every wrapper and are compared with the model of the bare geometry; and every trait method of every wrapper is compared with the wrapped object's on a grid of arguments, including a geometry whose four methods are unrelated to each other. An outcome is a distinct (query kind, answer).",
            bounds: json!({"wrappers": CFGS.iter().map(|c| c.name).collect::<Vec<_>>(), "bfs_depth": p.bfs_depth, "sweep_sizes": p.sweep_ns, "multisets_up_to": p.multiset}),
            assumptions: vec!["coordinates are small, so no arithmetic overflows"],
            special: Some(|v: &Value| {
                let g = |k: &str| v[k].as_i64().unwrap();
                if std::env::var("RMC_TRACE").is_ok() {
                    eprintln!("AT delegation {v} 1");
                }
                guard(|| delegation(g("k") as u64, g("x"), g("y"), g("b"))).unwrap_or_else(Err)
            }),
        })
    }
}
fn main() {
    rmc::cli::main(&S18, make)
}

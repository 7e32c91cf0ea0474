//! The system under test: real rstar trees behind an object-safe interface.
use crate::geom::*;
use rstar::primitives::{CachedEnvelope, GeomWithData, Line, ObjectRef, Rectangle};
use rstar::{
    Envelope, ParentNode, Point, PointDistance, RTree, RTreeNode, RTreeNum, RTreeObject,
    RTreeParams, SelectionFunction, AABB,
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::ControlFlow;

// ---------------------------------------------------------------- scalars

pub trait Num: RTreeNum + 'static {
    const FLOAT: bool;
    fn grid(c: i32, m: &Mapping) -> Self;
    fn of_f64(v: f64) -> Self;
    fn as_f64(self) -> f64;
    fn bits(self) -> u64;
}
macro_rules! int_num {
    ($($t:ty),*) => {$(impl Num for $t {
        const FLOAT: bool = false;
        fn grid(c: i32, m: &Mapping) -> Self { (c as f64 * m.mul + m.offset(c)) as $t }
        fn of_f64(v: f64) -> Self { v as $t }
        fn as_f64(self) -> f64 { self as f64 }
        fn bits(self) -> u64 { self as u64 }
    })*};
}
int_num!(i8, i16, i32, i64, i128, isize);
macro_rules! float_num {
    ($($t:ty),*) => {$(impl Num for $t {
        const FLOAT: bool = true;
        fn grid(c: i32, m: &Mapping) -> Self { c as $t * m.mul as $t + m.offset(c) as $t }
        fn of_f64(v: f64) -> Self { v as $t }
        fn as_f64(self) -> f64 { self as f64 }
        fn bits(self) -> u64 { (self + 0.0).to_bits() as u64 }
    })*};
}
float_num!(f32, f64);

pub trait GP: Point + 'static {}
impl<P: Point + 'static> GP for P {}
pub type Sc<P> = <P as Point>::Scalar;

pub fn mkpt<P: Point>(p: &Pt, m: &Mapping) -> P
where
    P::Scalar: Num,
{
    P::generate(|i| <P::Scalar as Num>::grid(p[i], m))
}
pub fn mkbox<P: Point>(b: &Bx, m: &Mapping) -> AABB<P>
where
    P::Scalar: Num,
{
    if b.is_empty() {
        return AABB::new_empty();
    }
    AABB::from_corners(mkpt::<P>(&b.lo, m), mkpt::<P>(&b.hi, m))
}
pub fn pthash<P: Point>(h: u64, p: &P) -> u64
where
    P::Scalar: Num,
{
    (0..P::DIMENSIONS).fold(h, |h, i| mix(h, p.nth(i).bits()))
}
pub fn envhash<P: Point>(e: &AABB<P>) -> u64
where
    P::Scalar: Num,
{
    pthash(pthash(7, &e.lower()), &e.upper())
}

// ---------------------------------------------------------------- payload

/// Payload of an element: identity (compared) and a mutable tag (not compared).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, Default)]
pub struct Data {
    pub id: u32,
    pub tag: u32,
}
impl PartialEq for Data {
    fn eq(&self, o: &Data) -> bool {
        self.id == o.id
    }
}

/// A user-defined element type: the set of its two end points.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pair<P>(pub P, pub P);
impl<P: Point> RTreeObject for Pair<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        AABB::from_points([&self.0, &self.1])
    }
}
fn ud2<P: Point>(a: &P, b: &P) -> P::Scalar {
    let mut s = num_traits::zero::<P::Scalar>();
    for i in 0..P::DIMENSIONS {
        let d = a.nth(i) - b.nth(i);
        s = s + d * d;
    }
    s
}
impl<P: Point> PointDistance for Pair<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        let (a, b) = (ud2(&self.0, p), ud2(&self.1, p));
        if b < a {
            b
        } else {
            a
        }
    }
}

/// A user-defined element type: a point with an envelope that is not tight
/// (say, padded for other queries).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Loose<P>(pub P, pub P);
impl<P: Point> RTreeObject for Loose<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        AABB::from_corners(self.0.clone(), self.1.clone())
    }
}
impl<P: Point> PointDistance for Loose<P> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        ud2(&self.0, p)
    }
}

/// A user-defined element type: a ball, as in the documentation.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Disc<P> {
    pub centre: P,
    pub radius: f64,
}
impl<P: Point<Scalar = f64>> RTreeObject for Disc<P> {
    type Envelope = AABB<P>;
    fn envelope(&self) -> AABB<P> {
        AABB::from_corners(
            P::generate(|i| self.centre.nth(i) - self.radius),
            P::generate(|i| self.centre.nth(i) + self.radius),
        )
    }
}
impl<P: Point<Scalar = f64>> PointDistance for Disc<P> {
    fn distance_2(&self, p: &P) -> f64 {
        let d = (ud2(&self.centre, p).sqrt() - self.radius).max(0.0);
        d * d
    }
}

// ---------------------------------------------------------------- element specs

/// An element type under test.
pub trait Spec: 'static {
    type P: Point<Scalar = Self::S> + 'static;
    type S: Num;
    type T: PointDistance<Envelope = AABB<Self::P>> + Clone + PartialEq + 'static;
    const KIND: Kind;
    /// Whether two universe entries with the same geometry are distinguishable.
    const HAS_ID: bool;
    /// Distances are rounded: the distance of an element can be less than that
    /// of its envelope by a rounding error.
    const FUZZY: bool = false;
    /// Elements are `Probe`s.
    const PROBED: bool = false;
    fn make(e: &Elem, id: u32, m: &Mapping) -> Self::T;
    fn key(t: &Self::T) -> u64;
    fn tag(_t: &Self::T) -> u32 {
        0
    }
    fn set_tag(_t: &mut Self::T, _tag: u32) {}
    fn roundtrip<Pm: RTreeParams>(
        _t: &RTree<Self::T, Pm>,
    ) -> Option<Result<(RTree<Self::T, Pm>, String), String>> {
        None
    }
    fn json<Pm: RTreeParams>(_t: &RTree<Self::T, Pm>) -> Option<String> {
        None
    }
    /// Round trips through other formats and deserializers.
    #[allow(clippy::type_complexity)]
    fn others<Pm: RTreeParams>(
        _t: &RTree<Self::T, Pm>,
    ) -> Vec<(&'static str, Result<RTree<Self::T, Pm>, String>)> {
        vec![]
    }
}

macro_rules! serde_impl {
    () => {
        fn roundtrip<Pm: RTreeParams>(
            t: &RTree<Self::T, Pm>,
        ) -> Option<Result<(RTree<Self::T, Pm>, String), String>> {
            let s = match serde_json::to_string(t) {
                Ok(s) => s,
                Err(e) => return Some(Err(format!("serialization failed: {e}"))),
            };
            Some(match serde_json::from_str(&s) {
                Ok(t) => Ok((t, s)),
                Err(e) => Err(format!("deserialization failed: {e}")),
            })
        }
        fn json<Pm: RTreeParams>(t: &RTree<Self::T, Pm>) -> Option<String> {
            serde_json::to_string(t).ok()
        }
        fn others<Pm: RTreeParams>(
            t: &RTree<Self::T, Pm>,
        ) -> Vec<(&'static str, Result<RTree<Self::T, Pm>, String>)> {
            serde_others(t)
        }
    };
}
/// Formats that are compact and not self-describing, have no borrowed strings,
/// or keep fields in another order.
fn serde_others<T: Serialize + DeserializeOwned>(t: &T) -> Vec<(&'static str, Result<T, String>)> {
    let bin = bincode::serialize(t)
        .map_err(|e| format!("serialization failed: {e}"))
        .and_then(|v| bincode::deserialize(&v).map_err(|e| format!("deserialization failed: {e}")));
    let value = serde_json::to_value(t)
        .map_err(|e| format!("serialization failed: {e}"))
        .and_then(|v| {
            serde_json::from_value(v).map_err(|e| format!("deserialization failed: {e}"))
        });
    let mut buf = Vec::new();
    let reader = serde_json::to_writer(&mut buf, t)
        .map_err(|e| format!("serialization failed: {e}"))
        .and_then(|()| {
            serde_json::from_reader(&buf[..]).map_err(|e| format!("deserialization failed: {e}"))
        });
    vec![
        ("a compact binary format", bin),
        ("a tree of values", value),
        ("a reader", reader),
    ]
}
macro_rules! geom_spec {
    ($name:ident, $kind:expr, $g:ty, $e:ident, $m:ident, $make:expr) => {
        pub struct $name<P>(PhantomData<P>);
        impl<P: Point + Serialize + DeserializeOwned + 'static> Spec for $name<P>
        where
            P::Scalar: Num,
        {
            type P = P;
            type S = P::Scalar;
            type T = GeomWithData<$g, Data>;
            const KIND: Kind = $kind;
            const HAS_ID: bool = true;
            fn make($e: &Elem, id: u32, $m: &Mapping) -> Self::T {
                GeomWithData::new($make, Data { id, tag: 0 })
            }
            fn key(t: &Self::T) -> u64 {
                t.data.id as u64
            }
            fn tag(t: &Self::T) -> u32 {
                t.data.tag
            }
            fn set_tag(t: &mut Self::T, tag: u32) {
                t.data.tag = tag
            }
            serde_impl!();
        }
    };
}
geom_spec!(PointS, Kind::Point, P, e, m, mkpt(&e.a, m));
geom_spec!(
    RectS,
    Kind::Rect,
    Rectangle<P>,
    e,
    m,
    Rectangle::from_corners(mkpt(&e.a, m), mkpt(&e.b, m))
);
geom_spec!(
    LineS,
    Kind::Line,
    Line<P>,
    e,
    m,
    Line::new(mkpt(&e.a, m), mkpt(&e.b, m))
);
geom_spec!(
    PairS,
    Kind::Pair,
    Pair<P>,
    e,
    m,
    Pair(mkpt(&e.a, m), mkpt(&e.b, m))
);
geom_spec!(
    LooseS,
    Kind::Loose,
    Loose<P>,
    e,
    m,
    Loose(mkpt(&e.a, m), mkpt(&e.b, m))
);

/// Balls.
pub struct DiscS<P>(PhantomData<P>);
impl<P: Point<Scalar = f64> + Serialize + DeserializeOwned + 'static> Spec for DiscS<P> {
    type P = P;
    type S = f64;
    type T = GeomWithData<Disc<P>, Data>;
    const KIND: Kind = Kind::Disc;
    const HAS_ID: bool = true;
    const FUZZY: bool = true;
    fn make(e: &Elem, id: u32, m: &Mapping) -> Self::T {
        let g = Disc {
            centre: mkpt(&e.a, m),
            radius: e.radius() as f64 * m.mul,
        };
        GeomWithData::new(g, Data { id, tag: 0 })
    }
    fn key(t: &Self::T) -> u64 {
        t.data.id as u64
    }
    fn tag(t: &Self::T) -> u32 {
        t.data.tag
    }
    fn set_tag(t: &mut Self::T, tag: u32) {
        t.data.tag = tag
    }
    serde_impl!();
}

/// Bare points stored without any wrapper (the most common use).
pub struct PlainS<P>(PhantomData<P>);
impl<P: Point + Serialize + DeserializeOwned + 'static> Spec for PlainS<P>
where
    P::Scalar: Num,
{
    type P = P;
    type S = P::Scalar;
    type T = P;
    const KIND: Kind = Kind::Point;
    const HAS_ID: bool = false;
    fn make(e: &Elem, _id: u32, m: &Mapping) -> P {
        mkpt(&e.a, m)
    }
    fn key(t: &P) -> u64 {
        pthash(1, t)
    }
    serde_impl!();
}

/// Bare rectangles.
pub struct PlainRectS<P>(PhantomData<P>);
impl<P: Point + Serialize + DeserializeOwned + 'static> Spec for PlainRectS<P>
where
    P::Scalar: Num,
{
    type P = P;
    type S = P::Scalar;
    type T = Rectangle<P>;
    const KIND: Kind = Kind::Rect;
    const HAS_ID: bool = false;
    fn make(e: &Elem, _id: u32, m: &Mapping) -> Self::T {
        Rectangle::from_corners(mkpt(&e.a, m), mkpt(&e.b, m))
    }
    fn key(t: &Self::T) -> u64 {
        pthash(pthash(1, &t.lower()), &t.upper())
    }
    serde_impl!();
}

/// Elements wrapped by `CachedEnvelope`, `ObjectRef`, `Arc`, `Rc`, `PointWithData`.
pub struct CachedS<B>(PhantomData<B>);
impl<B: Spec> Spec for CachedS<B>
where
    B::T: Serialize + DeserializeOwned,
    B::P: Serialize + DeserializeOwned,
{
    type P = B::P;
    type S = B::S;
    type T = CachedEnvelope<B::T>;
    const KIND: Kind = B::KIND;
    const HAS_ID: bool = B::HAS_ID;
    fn make(e: &Elem, id: u32, m: &Mapping) -> Self::T {
        CachedEnvelope::new(B::make(e, id, m))
    }
    fn key(t: &Self::T) -> u64 {
        B::key(t)
    }
    serde_impl!();
}
/// Data outside, cached geometry inside.
pub struct DataCachedS<P>(PhantomData<P>);
impl<P: Point + Serialize + DeserializeOwned + 'static> Spec for DataCachedS<P>
where
    P::Scalar: Num,
{
    type P = P;
    type S = P::Scalar;
    type T = GeomWithData<CachedEnvelope<Rectangle<P>>, Data>;
    const KIND: Kind = Kind::Rect;
    const HAS_ID: bool = true;
    fn make(e: &Elem, id: u32, m: &Mapping) -> Self::T {
        let g = Rectangle::from_corners(mkpt(&e.a, m), mkpt(&e.b, m));
        GeomWithData::new(CachedEnvelope::new(g), Data { id, tag: 0 })
    }
    fn key(t: &Self::T) -> u64 {
        t.data.id as u64
    }
    fn tag(t: &Self::T) -> u32 {
        t.data.tag
    }
    fn set_tag(t: &mut Self::T, tag: u32) {
        t.data.tag = tag
    }
    serde_impl!();
}
pub struct ArcS<B>(PhantomData<B>);
impl<B: Spec> Spec for ArcS<B> {
    type P = B::P;
    type S = B::S;
    type T = std::sync::Arc<B::T>;
    const KIND: Kind = B::KIND;
    const HAS_ID: bool = B::HAS_ID;
    fn make(e: &Elem, id: u32, m: &Mapping) -> Self::T {
        std::sync::Arc::new(B::make(e, id, m))
    }
    fn key(t: &Self::T) -> u64 {
        B::key(t)
    }
}
pub struct RcS<B>(PhantomData<B>);
impl<B: Spec> Spec for RcS<B> {
    type P = B::P;
    type S = B::S;
    type T = std::rc::Rc<B::T>;
    const KIND: Kind = B::KIND;
    const HAS_ID: bool = B::HAS_ID;
    fn make(e: &Elem, id: u32, m: &Mapping) -> Self::T {
        std::rc::Rc::new(B::make(e, id, m))
    }
    fn key(t: &Self::T) -> u64 {
        B::key(t)
    }
}
pub struct RefS<B>(PhantomData<B>);
impl<B: Spec> Spec for RefS<B> {
    type P = B::P;
    type S = B::S;
    type T = ObjectRef<'static, B::T>;
    const KIND: Kind = B::KIND;
    const HAS_ID: bool = B::HAS_ID;
    fn make(e: &Elem, id: u32, m: &Mapping) -> Self::T {
        // Interned: the referents live for the whole (short) run.
        thread_local!(static POOL: RefCell<std::collections::HashMap<(Elem, u32, [u64; 3], std::any::TypeId), &'static dyn Any>> = RefCell::new(Default::default()));
        let k = (
            *e,
            id,
            [m.mul.to_bits(), m.add.to_bits(), m.jump.to_bits()],
            std::any::TypeId::of::<B>(),
        );
        POOL.with(|p| {
            let mut p = p.borrow_mut();
            let r = p
                .entry(k)
                .or_insert_with(|| Box::leak(Box::new(B::make(e, id, m))) as &'static dyn Any);
            ObjectRef::new(r.downcast_ref::<B::T>().unwrap())
        })
    }
    fn key(t: &Self::T) -> u64 {
        B::key(t)
    }
}
#[allow(deprecated)]
pub struct PwdS<P>(PhantomData<P>);
#[allow(deprecated)]
impl<P: Point + Serialize + DeserializeOwned + 'static> Spec for PwdS<P>
where
    P::Scalar: Num,
{
    type P = P;
    type S = P::Scalar;
    type T = rstar::primitives::PointWithData<Data, P>;
    const KIND: Kind = Kind::Point;
    const HAS_ID: bool = true;
    fn make(e: &Elem, id: u32, m: &Mapping) -> Self::T {
        rstar::primitives::PointWithData::new(Data { id, tag: 0 }, mkpt(&e.a, m))
    }
    fn key(t: &Self::T) -> u64 {
        t.data.id as u64
    }
    fn tag(t: &Self::T) -> u32 {
        t.data.tag
    }
    fn set_tag(t: &mut Self::T, tag: u32) {
        t.data.tag = tag
    }
    serde_impl!();
}

// ---------------------------------------------------------------- probes

/// Faults injected into, and life cycles recorded of, `Probe` elements.
pub struct Ticks {
    /// Callbacks made so far since `arm`.
    pub count: Cell<u64>,
    /// Callback (from 0) at which to act; `u64::MAX` for never.
    pub at: Cell<u64>,
    /// What to do there: `None` panics with `Injected`.
    pub act: RefCell<Option<Box<dyn FnMut()>>>,
    /// Called at every callback (a scheduling point).
    pub every: Cell<Option<fn()>>,
    /// Keep polling a drain whose callback panicked.
    pub resume: Cell<bool>,
    /// Keys handed out by the drain in progress.
    pub yielded: RefCell<Vec<u64>>,
    /// Live probes.
    pub live: Cell<i64>,
    pub dead: Cell<bool>,
}
thread_local!(pub static TICKS: Ticks = const { Ticks {
    count: Cell::new(0),
    at: Cell::new(u64::MAX),
    act: RefCell::new(None),
    every: Cell::new(None),
    resume: Cell::new(false),
    yielded: RefCell::new(Vec::new()),
    live: Cell::new(0),
    dead: Cell::new(false),
} });
/// Called by every callback the harness passes to rstar.
#[inline]
pub fn tick() {
    TICKS.with(|t| {
        let c = t.count.get();
        t.count.set(c + 1);
        if let Some(f) = t.every.get() {
            f();
        }
        if c == t.at.get() {
            let f = t.act.borrow_mut().take();
            match f {
                Some(mut f) => f(),
                None => std::panic::panic_any(crate::model::Injected),
            }
        }
    })
}
pub fn arm(at: u64) {
    TICKS.with(|t| {
        t.count.set(0);
        t.at.set(at);
        t.yielded.borrow_mut().clear();
    })
}
/// Stops acting; returns the number of callbacks made.
pub fn disarm() -> u64 {
    TICKS.with(|t| {
        t.at.set(u64::MAX);
        t.count.get()
    })
}
pub fn live() -> i64 {
    TICKS.with(|t| t.live.get())
}
/// A probe was dropped although it was not alive.
pub fn overdropped() -> bool {
    TICKS.with(|t| t.dead.get())
}

const ALIVE: u32 = 0xA11CE;
/// An element that records its life cycle and whose methods can fail.
pub struct Probe<T> {
    inner: T,
    state: u32,
    /// Owned memory, so that a second drop is also a double free.
    _heap: Box<u8>,
}
impl<T> Probe<T> {
    pub fn new(inner: T) -> Self {
        TICKS.with(|t| t.live.set(t.live.get() + 1));
        Probe {
            inner,
            state: ALIVE,
            _heap: Box::new(1),
        }
    }
}
impl<T> Drop for Probe<T> {
    fn drop(&mut self) {
        TICKS.with(|t| {
            t.live.set(t.live.get() - 1);
            if self.state != ALIVE {
                t.dead.set(true);
            }
        });
        self.state = 0xDEAD;
    }
}
impl<T: Clone> Clone for Probe<T> {
    fn clone(&self) -> Self {
        Probe::new(self.inner.clone())
    }
}
impl<T: PartialEq> PartialEq for Probe<T> {
    fn eq(&self, o: &Self) -> bool {
        tick();
        self.inner == o.inner
    }
}
impl<T: RTreeObject> RTreeObject for Probe<T> {
    type Envelope = T::Envelope;
    fn envelope(&self) -> Self::Envelope {
        self.inner.envelope()
    }
}
impl<P: Point, T: PointDistance<Envelope = AABB<P>>> PointDistance for Probe<T> {
    fn distance_2(&self, p: &P) -> P::Scalar {
        tick();
        self.inner.distance_2(p)
    }
    fn contains_point(&self, p: &P) -> bool {
        tick();
        self.inner.contains_point(p)
    }
    fn distance_2_if_less_or_equal(&self, p: &P, m: P::Scalar) -> Option<P::Scalar> {
        tick();
        self.inner.distance_2_if_less_or_equal(p, m)
    }
}
impl<T: Serialize> Serialize for Probe<T> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.inner.serialize(s)
    }
}
impl<'de, T: Deserialize<'de>> Deserialize<'de> for Probe<T> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        T::deserialize(d).map(Probe::new)
    }
}
pub struct ProbeS<B>(PhantomData<B>);
impl<B: Spec> Spec for ProbeS<B>
where
    B::T: Serialize + DeserializeOwned,
    B::P: Serialize + DeserializeOwned,
{
    type P = B::P;
    type S = B::S;
    type T = Probe<B::T>;
    const KIND: Kind = B::KIND;
    const HAS_ID: bool = B::HAS_ID;
    const PROBED: bool = true;
    fn make(e: &Elem, id: u32, m: &Mapping) -> Self::T {
        Probe::new(B::make(e, id, m))
    }
    fn key(t: &Self::T) -> u64 {
        B::key(&t.inner)
    }
    fn tag(t: &Self::T) -> u32 {
        B::tag(&t.inner)
    }
    fn set_tag(t: &mut Self::T, tag: u32) {
        B::set_tag(&mut t.inner, tag)
    }
    serde_impl!();
}

// ---------------------------------------------------------------- parameters

#[derive(Clone, Copy)]
pub struct Pm<const MIN: usize, const MAX: usize, const R: usize>;
impl<const MIN: usize, const MAX: usize, const R: usize> RTreeParams for Pm<MIN, MAX, R> {
    const MIN_SIZE: usize = MIN;
    const MAX_SIZE: usize = MAX;
    const REINSERTION_COUNT: usize = R;
    type DefaultInsertionStrategy = rstar::RStarInsertionStrategy;
}

// ---------------------------------------------------------------- selections

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Rad {
    /// Squared radius in grid units.
    Grid(i64),
    /// The distance of the query point to the given universe element.
    Of(u32),
    /// Largest finite scalar.
    Max,
    /// Smallest finite scalar.
    Min,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum NodePred {
    All,
    None,
    /// Accept nodes whose envelope hash has this bit set.
    Bit(u32),
    /// Reject nodes with one of these envelope hashes.
    Reject(Vec<u64>),
}
impl NodePred {
    pub fn test(&self, h: u64) -> bool {
        match self {
            NodePred::All => true,
            NodePred::None => false,
            NodePred::Bit(b) => h >> b & 1 == 1,
            NodePred::Reject(v) => !v.contains(&h),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum LeafPred {
    All,
    None,
    Odd,
    Accept(Vec<u64>),
}
impl LeafPred {
    pub fn test(&self, k: u64) -> bool {
        match self {
            LeafPred::All => true,
            LeafPred::None => false,
            LeafPred::Odd => k & 1 == 1,
            LeafPred::Accept(v) => v.contains(&k),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Sel {
    All,
    In(Bx),
    Inter(Bx),
    Within(Pt, Rad),
    At(Pt),
    Custom(NodePred, LeafPred),
}

/// Record of the calls made to a custom selection function.
#[derive(Default, Clone, Debug)]
pub struct Calls {
    pub nodes: Vec<u64>,
    pub leaves: Vec<u64>,
}
thread_local!(static CALLS: RefCell<Calls> = RefCell::new(Calls::default()));
pub fn take_calls() -> Calls {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

pub struct CustomFn<S> {
    n: NodePred,
    l: LeafPred,
    _s: PhantomData<S>,
}
impl<S: Spec> SelectionFunction<S::T> for CustomFn<S> {
    fn should_unpack_parent(&self, e: &AABB<S::P>) -> bool {
        tick();
        let h = envhash(e);
        CALLS.with(|c| c.borrow_mut().nodes.push(h));
        self.n.test(h)
    }
    fn should_unpack_leaf(&self, t: &S::T) -> bool {
        tick();
        let k = S::key(t);
        CALLS.with(|c| c.borrow_mut().leaves.push(k));
        self.l.test(k)
    }
}
/// The built-in selections as user code would write them, for the generic
/// removal/drain entry points.
pub struct UserAll;
impl<T: RTreeObject> SelectionFunction<T> for UserAll {
    fn should_unpack_parent(&self, _: &T::Envelope) -> bool {
        true
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Var {
    Iter,
    Mut,
    Int,
    IntMut,
    /// `&tree` / `&mut tree` as IntoIterator (only for `Sel::All`).
    Into,
    IntoMut,
}
pub const NOLIM: usize = usize::MAX;

/// Result of a search.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Found {
    pub keys: Vec<u64>,
    /// `Some(n)` if the callback query returned Break carrying `n`.
    pub broke: Option<u64>,
    pub supported: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum End {
    /// Poll until None, then twice more.
    Finish,
    Drop,
    Forget,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Drained {
    pub keys: Vec<u64>,
    /// None was observed.
    pub ended: bool,
    /// Elements yielded after None.
    pub extra: usize,
}

/// A way of consuming an iterator: `lead` calls of `next`, then `act`.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Script {
    pub lead: usize,
    pub act: Act,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    /// `nth(k)`, then `next` to the end and beyond it.
    Nth(usize),
    /// `nth(k)`, then drop.
    NthDrop(usize),
    Count,
    Last,
    Fold,
    /// `skip(k)` and a `for` loop over the rest.
    Skip(usize),
    /// `step_by(k)`.
    Step(usize),
}
/// What such a consumption yielded.
#[derive(Clone, Debug, Default)]
pub struct Consumed {
    /// Position claimed by the call, key.
    pub keys: Vec<(usize, u64)>,
    /// Result of `count`.
    pub count: Option<usize>,
    /// (elements consumed before, lower, upper bound).
    pub hints: Vec<(usize, usize, Option<usize>)>,
    /// An element came after the end.
    pub again: bool,
}
fn consume<T, I: Iterator<Item = T>>(mut it: I, sc: Script, key: impl Fn(&T) -> u64) -> Consumed {
    let mut r = Consumed::default();
    let mut pos = 0;
    let hint = |it: &I, pos: usize, r: &mut Consumed| {
        let (a, b) = it.size_hint();
        r.hints.push((pos, a, b));
    };
    hint(&it, 0, &mut r);
    for _ in 0..sc.lead {
        match it.next() {
            Some(t) => r.keys.push((pos, key(&t))),
            None => break,
        }
        pos += 1;
        hint(&it, pos, &mut r);
    }
    match sc.act {
        Act::Nth(k) | Act::NthDrop(k) => {
            match it.nth(k) {
                Some(t) => {
                    r.keys.push((pos + k, key(&t)));
                    pos += k + 1;
                    hint(&it, pos, &mut r);
                }
                None => pos = usize::MAX,
            }
            if matches!(sc.act, Act::Nth(_)) {
                if pos != usize::MAX {
                    while let Some(t) = it.next() {
                        r.keys.push((pos, key(&t)));
                        pos += 1;
                        hint(&it, pos, &mut r);
                    }
                }
                for _ in 0..2 {
                    r.again |= it.next().is_some();
                }
            }
        }
        Act::Count => r.count = Some(it.count()),
        Act::Last => {
            if let Some(t) = it.last() {
                r.keys.push((usize::MAX, key(&t)));
            }
        }
        Act::Fold => {
            let keys = &mut r.keys;
            it.fold((), |_, t| {
                keys.push((pos, key(&t)));
                pos += 1;
            });
        }
        Act::Skip(k) => {
            for (i, t) in it.skip(k).enumerate() {
                r.keys.push((pos + k + i, key(&t)));
            }
        }
        Act::Step(k) => {
            for (i, t) in it.step_by(k).enumerate() {
                r.keys.push((pos + k * i, key(&t)));
            }
        }
    }
    r
}

/// Which iterator to consume.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Source {
    Query(Sel, Var),
    /// The owning iterator of a clone.
    Owned,
    Drain(Sel),
    /// Nearest neighbours; kind 0: with distance, 1: plain, 2: deprecated.
    Near(Pt, u8),
    SelfJoin,
}

#[derive(Clone, Debug)]
pub struct NodeInfo {
    pub depth: u32,
    pub parent: bool,
    /// Element key or envelope hash.
    pub key: u64,
    pub nchild: u32,
    /// Envelope is exactly the smallest one around the children.
    pub tight: bool,
    pub empty_env: bool,
    /// `is_leaf` and `envelope` of the child as a node disagree with what it is.
    pub odd: bool,
}

pub trait Sut {
    fn as_any(&self) -> &dyn Any;
    fn kind(&self) -> Kind;
    fn dim(&self) -> usize;
    fn has_id(&self) -> bool;
    fn fuzzy(&self) -> bool;
    fn probed(&self) -> bool;
    fn key_of(&self, e: &Elem, id: u32) -> u64;
    fn params(&self) -> (usize, usize, usize);
    fn clone_box(&self) -> Box<dyn Sut>;
    /// `clone_from` of a tree of the same type.
    fn assign(&mut self, from: &dyn Sut);
    fn reset(&mut self);
    fn bulk(&mut self, es: &[(Elem, u32)], extra_cap: usize);
    /// Consume the tree through its owning iterator and bulk load the result.
    fn rebuild(&mut self);
    fn size(&self) -> usize;
    fn insert(&mut self, e: &Elem, id: u32);
    fn remove(&mut self, e: &Elem, id: u32) -> Option<u64>;
    fn remove_at(&mut self, p: &Pt) -> Option<u64>;
    fn pop_nn(&mut self, p: &Pt) -> Option<u64>;
    fn remove_sel(&mut self, s: &Sel) -> Option<u64>;
    fn drain(&mut self, s: &Sel, take: usize, end: End) -> Drained;
    /// Yield `take` elements of the owning iterator of a clone, then drop it.
    fn into_iter_of_clone(&self, take: usize) -> (Vec<u64>, bool);
    fn select(&mut self, s: &Sel, v: Var, limit: usize, tag: Option<u32>) -> Found;
    /// Consume an iterator in the given way; None if there is no such iterator.
    fn consume(&mut self, src: &Source, sc: Script) -> Option<Consumed>;
    fn iter_keys(&self, out: &mut Vec<u64>);
    fn locate_one(&mut self, p: &Pt, v: Var, tag: Option<u32>) -> Option<u64>;
    fn contains(&self, e: &Elem, id: u32) -> bool;
    fn nn(&self, q: &Pt) -> Option<(u64, f64)>;
    fn nn_plain(&self, q: &Pt) -> Option<u64>;
    fn nns(&self, q: &Pt) -> Option<(Vec<u64>, f64)>;
    fn nns_plain(&self, q: &Pt) -> Vec<u64>;
    /// kind 0: with_distance_2, 1: plain, 2: deprecated with_distance.
    fn nn_iter(&self, q: &Pt, kind: u8, limit: usize) -> (Vec<(u64, f64)>, bool);
    fn elem_d2(&self, e: &Elem, q: &Pt) -> f64;
    fn structure(&self) -> Vec<NodeInfo>;
    fn dump(&self, out: &mut Vec<u64>);
    fn tags(&self) -> Vec<(u64, u32)>;
    fn roundtrip(&self) -> Option<Result<(Box<dyn Sut>, String), String>>;
    fn json(&self) -> Option<String>;
    #[allow(clippy::type_complexity)]
    fn others(&self) -> Vec<(&'static str, Result<Box<dyn Sut>, String>)>;
    fn self_join(&self) -> Option<Vec<(u64, u64)>>;
    /// Join with another tree; None if the pair of types is not supported.
    fn join(&self, other: &dyn Sut, limit: usize) -> Option<(Vec<(u64, u64)>, bool)>;
    /// Levels of internal nodes along the first path.
    fn height(&self) -> usize;
    fn scalar_max(&self) -> f64;
}

pub struct TreeSut<S: Spec, P: RTreeParams + Clone> {
    pub tree: RTree<S::T, P>,
    pub m: Mapping,
}

impl<S: Spec, P: RTreeParams + Clone + 'static> TreeSut<S, P> {
    pub fn new(m: Mapping) -> Self {
        TreeSut {
            // both ways of making an empty tree
            tree: if m.add == 0.0 {
                RTree::new_with_params()
            } else {
                Default::default()
            },
            m,
        }
    }
    fn p(&self, p: &Pt) -> S::P {
        mkpt(p, &self.m)
    }
    fn b(&self, b: &Bx) -> AABB<S::P> {
        mkbox(b, &self.m)
    }
    fn rad(&self, q: &Pt, r: &Rad, uni: Option<&Elem>) -> S::S {
        let _ = q;
        match r {
            Rad::Grid(g) => S::S::of_f64(*g as f64 * self.m.mul * self.m.mul),
            Rad::Of(_) => {
                let e = uni.expect("Rad::Of needs a universe");
                let r = S::make(e, 0, &self.m).distance_2(&self.p(q));
                if S::FUZZY {
                    S::S::of_f64(past(r.as_f64()))
                } else {
                    r
                }
            }
            Rad::Max => num_traits::Bounded::max_value(),
            Rad::Min => num_traits::Bounded::min_value(),
        }
    }
    fn radius(&self, q: &Pt, r: &Rad) -> S::S {
        match r {
            Rad::Of(i) => UNIVERSE.with(|u| self.rad(q, r, u.borrow().get(*i as usize))),
            _ => self.rad(q, r, None),
        }
    }
}
/// A little more than `r`, by more than any rounding error.
pub fn past(r: f64) -> f64 {
    r * (1.0 + 1e-6) + 1e-6
}
thread_local!(pub static UNIVERSE: RefCell<Vec<Elem>> = RefCell::new(Vec::new()));

fn run_drain<T, I: Iterator<Item = T>>(
    mut it: I,
    take: usize,
    end: End,
    key: impl Fn(&T) -> u64,
) -> Drained {
    let mut r = Drained {
        keys: Vec::new(),
        ended: false,
        extra: 0,
    };
    let key = |t: &T| {
        let k = key(t);
        TICKS.with(|t| t.yielded.borrow_mut().push(k));
        k
    };
    TICKS.with(|t| t.yielded.borrow_mut().clear());
    let resume = TICKS.with(|t| t.resume.get());
    for _ in 0..take {
        let x = if resume {
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.next())) {
                Ok(x) => x,
                Err(_) => continue,
            }
        } else {
            it.next()
        };
        match x {
            Some(t) => r.keys.push(key(&t)),
            None => {
                r.ended = true;
                break;
            }
        }
    }
    match end {
        End::Finish => {
            if !r.ended {
                loop {
                    let x = if resume {
                        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.next())) {
                            Ok(x) => x,
                            Err(_) => continue,
                        }
                    } else {
                        it.next()
                    };
                    match x {
                        Some(t) => r.keys.push(key(&t)),
                        None => break,
                    }
                }
                r.ended = true;
            }
            for _ in 0..3 {
                if it.next().is_some() {
                    r.extra += 1;
                }
            }
            drop(it);
        }
        End::Drop => drop(it),
        End::Forget => std::mem::forget(it),
    }
    r
}

fn walk<S: Spec>(n: &ParentNode<S::T>, depth: u32, out: &mut Vec<NodeInfo>) {
    let env = n.envelope();
    let at = out.len();
    let mut lo: Vec<S::S> = Vec::new();
    let mut hi: Vec<S::S> = Vec::new();
    out.push(NodeInfo {
        depth,
        parent: true,
        key: envhash(&env),
        nchild: n.children().len() as u32,
        tight: false,
        empty_env: false,
        odd: false,
    });
    let mut odd = false;
    let mut first = true;
    let mut add = |e: &AABB<S::P>| {
        let (l, u) = (e.lower(), e.upper());
        for i in 0..S::P::DIMENSIONS {
            if first {
                lo.push(l.nth(i));
                hi.push(u.nth(i));
            } else {
                if l.nth(i) < lo[i] {
                    lo[i] = l.nth(i);
                }
                if u.nth(i) > hi[i] {
                    hi[i] = u.nth(i);
                }
            }
        }
        first = false;
    };
    for c in n.children() {
        match c {
            RTreeNode::Leaf(t) => {
                add(&t.envelope());
                odd |= !c.is_leaf() || c.envelope() != t.envelope();
                out.push(NodeInfo {
                    depth: depth + 1,
                    parent: false,
                    key: S::key(t),
                    nchild: 0,
                    tight: true,
                    empty_env: false,
                    odd: false,
                });
            }
            RTreeNode::Parent(p) => {
                add(&p.envelope());
                odd |= c.is_leaf() || c.envelope() != p.envelope();
                walk::<S>(p, depth + 1, out);
            }
        }
    }
    let (l, u) = (env.lower(), env.upper());
    out[at].tight = if lo.is_empty() {
        let e: AABB<S::P> = AABB::new_empty();
        env == e
    } else {
        (0..S::P::DIMENSIONS).all(|i| l.nth(i) == lo[i] && u.nth(i) == hi[i])
    };
    out[at].empty_env = lo.is_empty();
    out[at].odd = odd;
}
fn dump_node<S: Spec>(n: &ParentNode<S::T>, out: &mut Vec<u64>) {
    out.push(u64::MAX - n.children().len() as u64);
    out.push(envhash(&n.envelope()));
    for c in n.children() {
        match c {
            RTreeNode::Leaf(t) => {
                out.push(S::key(t));
                out.push(S::tag(t) as u64);
            }
            RTreeNode::Parent(p) => dump_node::<S>(p, out),
        }
    }
}

macro_rules! collect_iter {
    ($it:expr, $limit:expr, $tag:expr, $r:ident, mutable) => {
        for t in $it.take($limit) {
            $r.keys.push(S::key(t));
            if let Some(x) = $tag {
                S::set_tag(t, x);
            }
        }
    };
    ($it:expr, $limit:expr, $r:ident) => {
        for t in $it.take($limit) {
            $r.keys.push(S::key(t));
        }
    };
}

impl<S: Spec, P: RTreeParams + Clone + 'static> Sut for TreeSut<S, P> {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn kind(&self) -> Kind {
        S::KIND
    }
    fn dim(&self) -> usize {
        S::P::DIMENSIONS
    }
    fn has_id(&self) -> bool {
        S::HAS_ID
    }
    fn fuzzy(&self) -> bool {
        S::FUZZY
    }
    fn probed(&self) -> bool {
        S::PROBED
    }
    fn key_of(&self, e: &Elem, id: u32) -> u64 {
        S::key(&S::make(e, id, &self.m))
    }
    fn params(&self) -> (usize, usize, usize) {
        (P::MIN_SIZE, P::MAX_SIZE, P::REINSERTION_COUNT)
    }
    fn clone_box(&self) -> Box<dyn Sut> {
        Box::new(TreeSut::<S, P> {
            tree: clone_tree::<S, P>(&self.tree),
            m: self.m,
        })
    }
    fn assign(&mut self, from: &dyn Sut) {
        let from = from.as_any().downcast_ref::<Self>().expect("same type");
        self.tree.clone_from(&from.tree);
    }
    fn reset(&mut self) {
        self.tree = RTree::new_with_params();
    }
    fn bulk(&mut self, es: &[(Elem, u32)], extra_cap: usize) {
        let mut v = Vec::with_capacity(es.len() + extra_cap);
        v.extend(es.iter().map(|(e, id)| S::make(e, *id, &self.m)));
        self.tree = RTree::bulk_load_with_params(v);
    }
    fn rebuild(&mut self) {
        let t = std::mem::replace(&mut self.tree, RTree::new_with_params());
        let v: Vec<S::T> = t.into_iter().collect();
        self.tree = RTree::bulk_load_with_params(v);
    }
    fn size(&self) -> usize {
        self.tree.size()
    }
    fn insert(&mut self, e: &Elem, id: u32) {
        self.tree.insert(S::make(e, id, &self.m))
    }
    fn remove(&mut self, e: &Elem, id: u32) -> Option<u64> {
        self.tree
            .remove(&S::make(e, id, &self.m))
            .map(|t| S::key(&t))
    }
    fn remove_at(&mut self, p: &Pt) -> Option<u64> {
        let p = self.p(p);
        self.tree.remove_at_point(p).map(|t| S::key(&t))
    }
    fn pop_nn(&mut self, p: &Pt) -> Option<u64> {
        let p = self.p(p);
        self.tree.pop_nearest_neighbor(p).map(|t| S::key(&t))
    }
    fn remove_sel(&mut self, s: &Sel) -> Option<u64> {
        match s {
            Sel::Custom(n, l) => self
                .tree
                .remove_with_selection_function(CustomFn::<S> {
                    n: n.clone(),
                    l: l.clone(),
                    _s: PhantomData,
                })
                .map(|t| S::key(&t)),
            Sel::All => self
                .tree
                .remove_with_selection_function(UserAll)
                .map(|t| S::key(&t)),
            Sel::At(p) => self.remove_at(p),
            _ => panic!("remove_sel: unsupported selection"),
        }
    }
    fn drain(&mut self, s: &Sel, take: usize, end: End) -> Drained {
        match s {
            Sel::All => run_drain(self.tree.drain(), take, end, S::key),
            Sel::In(b) => {
                let b = self.b(b);
                run_drain(self.tree.drain_in_envelope(b), take, end, S::key)
            }
            Sel::Inter(b) => {
                let b = self.b(b);
                run_drain(
                    self.tree.drain_in_envelope_intersecting(b),
                    take,
                    end,
                    S::key,
                )
            }
            Sel::Within(p, r) => {
                let r = self.radius(p, r);
                let p = self.p(p);
                run_drain(self.tree.drain_within_distance(p, r), take, end, S::key)
            }
            Sel::Custom(n, l) => run_drain(
                self.tree.drain_with_selection_function(CustomFn::<S> {
                    n: n.clone(),
                    l: l.clone(),
                    _s: PhantomData,
                }),
                take,
                end,
                S::key,
            ),
            Sel::At(_) => panic!("drain: unsupported selection"),
        }
    }
    fn into_iter_of_clone(&self, take: usize) -> (Vec<u64>, bool) {
        let mut it = clone_tree::<S, P>(&self.tree).into_iter();
        let mut keys = Vec::new();
        for _ in 0..take {
            match it.next() {
                Some(t) => keys.push(S::key(&t)),
                None => {
                    let again = it.next().is_none() && it.next().is_none();
                    return (keys, again);
                }
            }
        }
        (keys, false)
    }
    fn select(&mut self, s: &Sel, v: Var, limit: usize, tag: Option<u32>) -> Found {
        let mut r = Found {
            supported: true,
            ..Default::default()
        };
        macro_rules! int_visit {
            () => {{
                let mut n = 0usize;
                let keys = &mut r.keys;
                move |t: &S::T| {
                    tick();
                    keys.push(S::key(t));
                    n += 1;
                    if n >= limit {
                        ControlFlow::Break(n as u64)
                    } else {
                        ControlFlow::Continue(())
                    }
                }
            }};
        }
        macro_rules! int_visit_mut {
            () => {{
                let mut n = 0usize;
                let keys = &mut r.keys;
                move |t: &mut S::T| {
                    tick();
                    keys.push(S::key(t));
                    if let Some(x) = tag {
                        S::set_tag(t, x);
                    }
                    n += 1;
                    if n >= limit {
                        ControlFlow::Break(n as u64)
                    } else {
                        ControlFlow::Continue(())
                    }
                }
            }};
        }
        let mut flow: ControlFlow<u64> = ControlFlow::Continue(());
        match s {
            Sel::All => match v {
                Var::Iter => collect_iter!(self.tree.iter(), limit, r),
                Var::Mut => collect_iter!(self.tree.iter_mut(), limit, tag, r, mutable),
                Var::Into => collect_iter!((&self.tree).into_iter(), limit, r),
                Var::IntoMut => collect_iter!((&mut self.tree).into_iter(), limit, tag, r, mutable),
                _ => r.supported = false,
            },
            Sel::In(b) => {
                let b = self.b(b);
                match v {
                    Var::Iter => collect_iter!(self.tree.locate_in_envelope(b), limit, r),
                    Var::Mut => {
                        collect_iter!(self.tree.locate_in_envelope_mut(b), limit, tag, r, mutable)
                    }
                    Var::Int => flow = self.tree.locate_in_envelope_int(b, int_visit!()),
                    Var::IntMut => flow = self.tree.locate_in_envelope_int_mut(b, int_visit_mut!()),
                    _ => r.supported = false,
                }
            }
            Sel::Inter(b) => {
                let b = self.b(b);
                match v {
                    Var::Iter => {
                        collect_iter!(self.tree.locate_in_envelope_intersecting(b), limit, r)
                    }
                    Var::Mut => collect_iter!(
                        self.tree.locate_in_envelope_intersecting_mut(b),
                        limit,
                        tag,
                        r,
                        mutable
                    ),
                    Var::Int => {
                        flow = self
                            .tree
                            .locate_in_envelope_intersecting_int(b, int_visit!())
                    }
                    Var::IntMut => {
                        flow = self
                            .tree
                            .locate_in_envelope_intersecting_int_mut(b, int_visit_mut!())
                    }
                    _ => r.supported = false,
                }
            }
            Sel::Within(p, rad) => {
                let rad = self.radius(p, rad);
                let p = self.p(p);
                match v {
                    Var::Iter => {
                        collect_iter!(self.tree.locate_within_distance(p, rad), limit, r)
                    }
                    _ => r.supported = false,
                }
            }
            Sel::At(p) => {
                let p = self.p(p);
                match v {
                    Var::Iter => collect_iter!(self.tree.locate_all_at_point(p), limit, r),
                    Var::Mut => {
                        collect_iter!(self.tree.locate_all_at_point_mut(p), limit, tag, r, mutable)
                    }
                    Var::Int => flow = self.tree.locate_all_at_point_int(p, int_visit!()),
                    Var::IntMut => {
                        flow = self.tree.locate_all_at_point_int_mut(p, int_visit_mut!())
                    }
                    _ => r.supported = false,
                }
            }
            Sel::Custom(n, l) => {
                let f = CustomFn::<S> {
                    n: n.clone(),
                    l: l.clone(),
                    _s: PhantomData,
                };
                match v {
                    Var::Iter => {
                        collect_iter!(self.tree.locate_with_selection_function(f), limit, r)
                    }
                    Var::Mut => collect_iter!(
                        self.tree.locate_with_selection_function_mut(f),
                        limit,
                        tag,
                        r,
                        mutable
                    ),
                    _ => r.supported = false,
                }
            }
        }
        if let ControlFlow::Break(n) = flow {
            r.broke = Some(n);
        }
        r
    }
    fn consume(&mut self, src: &Source, sc: Script) -> Option<Consumed> {
        let k = |t: &&S::T| S::key(t);
        let km = |t: &&mut S::T| S::key(t);
        Some(match src {
            Source::Query(s, v) => {
                macro_rules! two {
                    ($a:expr, $b:expr) => {
                        match v {
                            Var::Iter => consume($a, sc, k),
                            Var::Mut => consume($b, sc, km),
                            _ => return None,
                        }
                    };
                }
                match s {
                    Sel::All => match v {
                        Var::Iter => consume(self.tree.iter(), sc, k),
                        Var::Mut => consume(self.tree.iter_mut(), sc, km),
                        Var::Into => consume((&self.tree).into_iter(), sc, k),
                        Var::IntoMut => consume((&mut self.tree).into_iter(), sc, km),
                        _ => return None,
                    },
                    Sel::In(b) => {
                        let b = self.b(b);
                        two!(
                            self.tree.locate_in_envelope(b),
                            self.tree.locate_in_envelope_mut(b)
                        )
                    }
                    Sel::Inter(b) => {
                        let b = self.b(b);
                        two!(
                            self.tree.locate_in_envelope_intersecting(b),
                            self.tree.locate_in_envelope_intersecting_mut(b)
                        )
                    }
                    Sel::At(p) => {
                        let p = self.p(p);
                        two!(
                            self.tree.locate_all_at_point(p),
                            self.tree.locate_all_at_point_mut(p)
                        )
                    }
                    Sel::Within(p, r) => {
                        if *v != Var::Iter {
                            return None;
                        }
                        let r = self.radius(p, r);
                        let p = self.p(p);
                        consume(self.tree.locate_within_distance(p, r), sc, k)
                    }
                    Sel::Custom(n, l) => {
                        let f = CustomFn::<S> {
                            n: n.clone(),
                            l: l.clone(),
                            _s: PhantomData,
                        };
                        match v {
                            Var::Iter => {
                                consume(self.tree.locate_with_selection_function(f), sc, k)
                            }
                            Var::Mut => {
                                consume(self.tree.locate_with_selection_function_mut(f), sc, km)
                            }
                            _ => return None,
                        }
                    }
                }
            }
            Source::Owned => consume(clone_tree::<S, P>(&self.tree).into_iter(), sc, S::key),
            Source::Drain(s) => match s {
                Sel::All => consume(self.tree.drain(), sc, S::key),
                Sel::In(b) => {
                    let b = self.b(b);
                    consume(self.tree.drain_in_envelope(b), sc, S::key)
                }
                Sel::Inter(b) => {
                    let b = self.b(b);
                    consume(self.tree.drain_in_envelope_intersecting(b), sc, S::key)
                }
                Sel::Within(p, r) => {
                    let r = self.radius(p, r);
                    let p = self.p(p);
                    consume(self.tree.drain_within_distance(p, r), sc, S::key)
                }
                Sel::Custom(n, l) => {
                    let f = CustomFn::<S> {
                        n: n.clone(),
                        l: l.clone(),
                        _s: PhantomData,
                    };
                    consume(self.tree.drain_with_selection_function(f), sc, S::key)
                }
                Sel::At(_) => return None,
            },
            Source::Near(q, kind) => {
                let q = self.p(q);
                match kind {
                    0 => consume(
                        self.tree.nearest_neighbor_iter_with_distance_2(q),
                        sc,
                        |x: &(&S::T, S::S)| S::key(x.0),
                    ),
                    1 => consume(self.tree.nearest_neighbor_iter(q), sc, k),
                    _ =>
                    {
                        #[allow(deprecated)]
                        consume(
                            self.tree.nearest_neighbor_iter_with_distance(q),
                            sc,
                            |x: &(&S::T, S::S)| S::key(x.0),
                        )
                    }
                }
            }
            Source::SelfJoin => {
                let o =
                    (&self.tree as &dyn Any).downcast_ref::<RTree<S::T, rstar::DefaultParams>>()?;
                consume(
                    self.tree.intersection_candidates_with_other_tree(o),
                    sc,
                    |x: &(&S::T, &S::T)| mix(S::key(x.0), S::key(x.1)),
                )
            }
        })
    }
    fn iter_keys(&self, out: &mut Vec<u64>) {
        out.clear();
        out.extend(self.tree.iter().map(S::key));
    }
    fn locate_one(&mut self, p: &Pt, v: Var, tag: Option<u32>) -> Option<u64> {
        let p = self.p(p);
        let tagged = |t: &mut S::T| {
            let k = S::key(t);
            if let Some(x) = tag {
                S::set_tag(t, x);
            }
            k
        };
        match v {
            Var::Iter => self.tree.locate_at_point(p).map(S::key),
            Var::Mut => self.tree.locate_at_point_mut(p).map(tagged),
            Var::Int => self.tree.locate_at_point_int(p).map(S::key),
            Var::IntMut => self.tree.locate_at_point_int_mut(p).map(tagged),
            _ => None,
        }
    }
    fn contains(&self, e: &Elem, id: u32) -> bool {
        self.tree.contains(&S::make(e, id, &self.m))
    }
    fn nn(&self, q: &Pt) -> Option<(u64, f64)> {
        self.tree
            .nearest_neighbor_with_distance_2(self.p(q))
            .map(|(t, d)| (S::key(t), d.as_f64()))
    }
    fn nn_plain(&self, q: &Pt) -> Option<u64> {
        self.tree.nearest_neighbor(self.p(q)).map(S::key)
    }
    fn nns(&self, q: &Pt) -> Option<(Vec<u64>, f64)> {
        self.tree
            .nearest_neighbors_with_distance_2(&self.p(q))
            .map(|(v, d)| (v.into_iter().map(S::key).collect(), d.as_f64()))
    }
    fn nns_plain(&self, q: &Pt) -> Vec<u64> {
        self.tree
            .nearest_neighbors(&self.p(q))
            .into_iter()
            .map(S::key)
            .collect()
    }
    fn nn_iter(&self, q: &Pt, kind: u8, limit: usize) -> (Vec<(u64, f64)>, bool) {
        let p = self.p(q);
        let mut v = Vec::new();
        macro_rules! go {
            ($it:expr, $f:expr) => {{
                let mut it = $it;
                while v.len() < limit {
                    match it.next() {
                        Some(x) => v.push($f(x)),
                        None => return (v, it.next().is_none() && it.next().is_none()),
                    }
                }
                (v, false)
            }};
        }
        match kind {
            0 => go!(
                self.tree.nearest_neighbor_iter_with_distance_2(p),
                |(t, d): (&S::T, S::S)| (S::key(t), d.as_f64())
            ),
            1 => go!(self.tree.nearest_neighbor_iter(p), |t: &S::T| (
                S::key(t),
                f64::NAN
            )),
            _ => {
                #[allow(deprecated)]
                {
                    go!(
                        self.tree.nearest_neighbor_iter_with_distance(p),
                        |(t, d): (&S::T, S::S)| (S::key(t), d.as_f64())
                    )
                }
            }
        }
    }
    fn elem_d2(&self, e: &Elem, q: &Pt) -> f64 {
        S::make(e, 0, &self.m).distance_2(&self.p(q)).as_f64()
    }
    fn structure(&self) -> Vec<NodeInfo> {
        let mut v = Vec::new();
        walk::<S>(self.tree.root(), 0, &mut v);
        v
    }
    fn dump(&self, out: &mut Vec<u64>) {
        out.clear();
        out.push(self.tree.size() as u64);
        dump_node::<S>(self.tree.root(), out);
    }
    fn tags(&self) -> Vec<(u64, u32)> {
        self.tree.iter().map(|t| (S::key(t), S::tag(t))).collect()
    }
    fn roundtrip(&self) -> Option<Result<(Box<dyn Sut>, String), String>> {
        S::roundtrip::<P>(&self.tree).map(|r| {
            r.map(|(tree, s)| {
                (
                    Box::new(TreeSut::<S, P> { tree, m: self.m }) as Box<dyn Sut>,
                    s,
                )
            })
        })
    }
    fn json(&self) -> Option<String> {
        S::json::<P>(&self.tree)
    }
    fn others(&self) -> Vec<(&'static str, Result<Box<dyn Sut>, String>)> {
        S::others::<P>(&self.tree)
            .into_iter()
            .map(|(n, r)| {
                let r = r.map(|tree| Box::new(TreeSut::<S, P> { tree, m: self.m }) as Box<dyn Sut>);
                (n, r)
            })
            .collect()
    }
    fn self_join(&self) -> Option<Vec<(u64, u64)>> {
        self.join(self, NOLIM).map(|x| x.0)
    }
    fn join(&self, other: &dyn Sut, limit: usize) -> Option<(Vec<(u64, u64)>, bool)> {
        join_with::<S, P, S>(self, other, limit)
    }
    fn height(&self) -> usize {
        let mut h = 1;
        let mut n = self.tree.root();
        while let Some(RTreeNode::Parent(p)) = n.children().first() {
            h += 1;
            n = p;
        }
        h
    }
    fn scalar_max(&self) -> f64 {
        <S::S as num_traits::Bounded>::max_value().as_f64()
    }
}

fn clone_tree<S: Spec, P: RTreeParams + Clone + 'static>(t: &RTree<S::T, P>) -> RTree<S::T, P> {
    t.clone()
}

/// Join a tree with one of another element type; also says whether the
/// iterator stays exhausted (or the limit was reached).
pub fn join_with<S: Spec, P: RTreeParams + Clone + 'static, U: Spec<P = S::P>>(
    a: &TreeSut<S, P>,
    other: &dyn Sut,
    limit: usize,
) -> Option<(Vec<(u64, u64)>, bool)> {
    let o = other
        .as_any()
        .downcast_ref::<TreeSut<U, rstar::DefaultParams>>()?;
    let mut it = a.tree.intersection_candidates_with_other_tree(&o.tree);
    let mut out = Vec::new();
    while out.len() < limit {
        match it.next() {
            Some((x, y)) => out.push((S::key(x), U::key(y))),
            None => {
                let again = it.next().is_none() && it.next().is_none();
                return Some((out, again));
            }
        }
    }
    Some((out, true))
}

/// The join consumed in another way than by `next`; keys are pair hashes.
pub fn join_consume<S: Spec, P: RTreeParams + Clone + 'static, U: Spec<P = S::P>>(
    a: &TreeSut<S, P>,
    other: &dyn Sut,
    sc: Script,
) -> Option<Consumed> {
    let o = other
        .as_any()
        .downcast_ref::<TreeSut<U, rstar::DefaultParams>>()?;
    let it = a.tree.intersection_candidates_with_other_tree(&o.tree);
    Some(consume(it, sc, |x: &(&S::T, &U::T)| {
        mix(mix(11, S::key(x.0)), U::key(x.1))
    }))
}

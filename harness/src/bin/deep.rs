//! The second part of C02: every operation on trees of many elements, on the stack a thread gets by
//! default: recursion per element (rather than per level) does not fit there.
use rmc::cli::*;
use rmc::explore::*;
use rmc::model::*;
use rstar::primitives::Rectangle;
use rstar::*;
use serde_json::{json, Value};
use std::ops::ControlFlow;
use std::sync::Arc;

const STACK: usize = 2 << 20;

struct Picky<'a>(&'a dyn Fn(i32) -> bool);
impl SelectionFunction<[i32; 2]> for Picky<'_> {
    fn should_unpack_parent(&self, _: &AABB<[i32; 2]>) -> bool {
        true
    }
    fn should_unpack_leaf(&self, p: &[i32; 2]) -> bool {
        (self.0)(p[0])
    }
}
type T = RTree<[i32; 2]>;

fn tree(how: &str, n: i32) -> T {
    let side = (n as f64).sqrt() as i32 + 1;
    let pts = (0..n).map(move |i| match how {
        "bulk equal" => [7, 7],
        "bulk row" => [i % 40_000, 0],
        _ => [2 * (i % side), 2 * (i / side)],
    });
    match how {
        "inserted" => {
            let mut t = RTree::new();
            pts.for_each(|p| t.insert(p));
            t
        }
        _ => RTree::bulk_load(pts.collect()),
    }
}
const TREES: [&str; 4] = ["bulk", "bulk equal", "bulk row", "inserted"];

type Act = fn(&mut T) -> usize;
const W: i32 = 1 << 20;
fn world() -> AABB<[i32; 2]> {
    AABB::from_corners([-W, -W], [W, W])
}
fn never(_: i32) -> bool {
    false
}
fn always(_: i32) -> bool {
    true
}
fn few(x: i32) -> bool {
    x % 1000 == 0
}
fn go(_: &[i32; 2]) -> ControlFlow<()> {
    ControlFlow::Continue(())
}
fn go_mut(_: &mut [i32; 2]) -> ControlFlow<()> {
    ControlFlow::Continue(())
}
fn shifted(t: &T) -> T {
    RTree::bulk_load(t.iter().map(|p| [p[0] + 1, p[1] + 1]).collect())
}
const ACTS: &[(&str, Act)] = &[
    ("iter", |t| t.iter().count()),
    ("iter_mut", |t| t.iter_mut().count()),
    ("clone", |t| t.clone().size()),
    ("into_iter", |t| std::mem::take(t).into_iter().count()),
    ("drop", |t| {
        drop(std::mem::take(t));
        0
    }),
    ("drain", |t| t.drain().count()),
    ("drain, stopped", |t| t.drain().take(1000).count()),
    ("drain nothing", |t| {
        t.drain_with_selection_function(Picky(&never)).count()
    }),
    ("drain few", |t| {
        t.drain_with_selection_function(Picky(&few)).count()
    }),
    ("drain_in_envelope", |t| {
        t.drain_in_envelope(world()).count()
    }),
    ("drain_in_envelope_intersecting", |t| {
        t.drain_in_envelope_intersecting(world()).count()
    }),
    ("drain_within_distance", |t| {
        t.drain_within_distance([5, 5], W).count()
    }),
    ("select nothing", |t| {
        t.locate_with_selection_function(Picky(&never)).count()
    }),
    ("select few", |t| {
        t.locate_with_selection_function(Picky(&few)).count()
    }),
    ("select all", |t| {
        t.locate_with_selection_function(Picky(&always)).count()
    }),
    ("select nothing, mut", |t| {
        t.locate_with_selection_function_mut(Picky(&never)).count()
    }),
    ("select few, mut", |t| {
        t.locate_with_selection_function_mut(Picky(&few)).count()
    }),
    ("remove nothing", |t| {
        t.remove_with_selection_function(Picky(&never)).is_some() as usize
    }),
    ("remove few", |t| {
        (0..3)
            .filter(|_| t.remove_with_selection_function(Picky(&few)).is_some())
            .count()
    }),
    ("locate_in_envelope", |t| {
        t.locate_in_envelope(world()).count()
    }),
    ("locate_in_envelope_mut", |t| {
        t.locate_in_envelope_mut(world()).count()
    }),
    ("locate_in_envelope_int", |t| {
        t.locate_in_envelope_int(world(), go).is_continue() as usize
    }),
    ("locate_in_envelope_int_mut", |t| {
        t.locate_in_envelope_int_mut(world(), go_mut).is_continue() as usize
    }),
    ("locate_in_envelope_intersecting", |t| {
        t.locate_in_envelope_intersecting(world()).count()
    }),
    ("locate_in_envelope_intersecting_mut", |t| {
        t.locate_in_envelope_intersecting_mut(world()).count()
    }),
    ("locate_in_envelope_intersecting_int", |t| {
        t.locate_in_envelope_intersecting_int(world(), go)
            .is_continue() as usize
    }),
    ("locate_in_envelope_intersecting_int_mut", |t| {
        t.locate_in_envelope_intersecting_int_mut(world(), go_mut)
            .is_continue() as usize
    }),
    ("locate_all_at_point", |t| {
        t.locate_all_at_point([7, 7]).count()
    }),
    ("locate_all_at_point_mut", |t| {
        t.locate_all_at_point_mut([7, 7]).count()
    }),
    ("locate_all_at_point_int", |t| {
        t.locate_all_at_point_int([7, 7], go).is_continue() as usize
    }),
    ("locate_all_at_point_int_mut", |t| {
        t.locate_all_at_point_int_mut([7, 7], go_mut).is_continue() as usize
    }),
    ("locate_at_point", |t| {
        [[7, 7], [0, 0], [3, 3]]
            .iter()
            .filter(|p| t.locate_at_point(**p).is_some())
            .count()
    }),
    ("contains", |t| {
        [[7, 7], [0, 0], [3, 3]]
            .iter()
            .filter(|p| t.contains(p))
            .count()
    }),
    ("nearest_neighbor", |t| {
        t.nearest_neighbor([9, 9]).is_some() as usize
    }),
    ("nearest_neighbors", |t| t.nearest_neighbors(&[7, 7]).len()),
    ("nearest_neighbor_iter", |t| {
        t.nearest_neighbor_iter([9, 9]).count()
    }),
    ("nearest_neighbor_iter_with_distance_2", |t| {
        t.nearest_neighbor_iter_with_distance_2([900, -900]).count()
    }),
    ("locate_within_distance", |t| {
        t.locate_within_distance([5, 5], W).count()
    }),
    ("pop_nearest_neighbor", |t| {
        (0..3)
            .filter(|_| t.pop_nearest_neighbor([9, 9]).is_some())
            .count()
    }),
    ("remove", |t| {
        [[7, 7], [0, 0], [3, 3]]
            .iter()
            .filter(|p| t.remove(p).is_some())
            .count()
    }),
    ("remove_at_point", |t| {
        [[7, 7], [0, 0], [3, 3]]
            .iter()
            .filter(|p| t.remove_at_point(**p).is_some())
            .count()
    }),
    ("insert", |t| {
        (0..500).for_each(|i| t.insert([i * 7 % 501, 7]));
        t.size()
    }),
    ("join with nothing in common", |t| {
        let o = shifted(t);
        t.intersection_candidates_with_other_tree(&o)
            .take(1000)
            .count()
    }),
    ("join", |t| {
        t.intersection_candidates_with_other_tree(&t.clone())
            .take(100_000)
            .count()
    }),
    ("join with a large box", |t| {
        let o: RTree<Rectangle<[i32; 2]>> =
            RTree::bulk_load(vec![Rectangle::from_aabb(world()); 2]);
        t.intersection_candidates_with_other_tree(&o)
            .take(100_000)
            .count()
    }),
    ("bulk_load", |t| {
        RTree::bulk_load(t.iter().copied().collect::<Vec<_>>()).size()
    }),
    ("serialize", |t| {
        let b = bincode::serialize(t).expect("serialize");
        bincode::deserialize::<T>(&b).expect("deserialize").size()
    }),
    ("debug", |t| {
        format!("{:?}", t.root().children().len()).len()
    }),
];

/// Whether trees may be sent or shared is C25's business; here only one
/// thread at a time touches them.
struct Pass<X>(X);
unsafe impl<X> Send for Pass<X> {}
/// On the stack a thread gets by default; an overflow ends the process.
fn small<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let f = Pass(f);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                let f: Pass<_> = f;
                Pass(guard(f.0))
            })
            .expect("thread")
            .join()
            .expect("thread")
            .0
    })
}
fn build(how: &str, n: i32) -> Result<T, String> {
    small(|| tree(how, n))
        .map_err(|p| format!("building a tree of {n} elements ({how}) panicked: {p}"))
}
/// One operation on (a copy of) one tree.
fn run(t: &T, how: &str, act: &str, n: i32) -> Result<u64, String> {
    let f = ACTS.iter().find(|a| a.0 == act).expect("act").1;
    small(|| f(&mut t.clone()) as u64)
        .map_err(|p| format!("{act} on a tree of {n} elements ({how}) panicked: {p}"))
}
fn replay(v: &Value) -> Result<(), String> {
    eprintln!("AT {v} 1");
    let (how, act) = (v["tree"].as_str().unwrap(), v["act"].as_str().unwrap());
    let n = v["n"].as_i64().unwrap() as i32;
    let t = build(how, n)?;
    if act != "build" {
        run(&t, how, act, n)?;
    }
    Ok(())
}
fn jobs(n: i32) -> Vec<Job> {
    let case = move |how: &str, act: &str| json!({"kind": "deep", "tree": how, "act": act, "n": n});
    TREES
        .iter()
        .map(|how| {
            Job::new(
                format!("many elements, {how}"),
                move |e: &Engine, st: &mut Stats| {
                    e.announce(|| case(how, "build"));
                    let t = match build(how, n) {
                        Ok(t) => t,
                        Err(m) => return e.report(case(how, "build"), m),
                    };
                    for (act, _) in ACTS {
                        e.announce(|| case(how, act));
                        st.transitions += 1;
                        st.evals += 1;
                        match run(&t, how, act, n) {
                            Ok(k) => {
                                st.outcomes.insert(k);
                            }
                            Err(m) => return e.report(case(how, act), m),
                        }
                        if e.stopped() {
                            return;
                        }
                        if e.out_of_time() {
                            st.truncated.push(format!("{how} {act}"));
                            return;
                        }
                    }
                },
            )
        })
        .collect()
}

struct Nothing;
impl Prop for Nothing {
    fn owns(&self, _: &Op, _: Why) -> bool {
        false
    }
    fn visit(&self, _: &mut World, _: &Uni, _: &Menu, _: &mut Stats) -> Result<(), String> {
        Ok(())
    }
}
struct S;
impl Suite for S {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        if id != "C02" {
            return None;
        }
        let n = tier.pick(100_000, 400_000);
        Some(Check {
            prop: Arc::new(Nothing),
            jobs: jobs(n),
            level: "model_checking",
            rule: "Every operation of the menu on every tree of the list, in an unoptimized build on a thread with the default stack.",
            bounds: json!({"elements": n, "trees": TREES, "operations": ACTS.iter().map(|a| a.0).collect::<Vec<_>>(), "stack_bytes": STACK}),
            assumptions: vec![],
            special: Some(replay),
        })
    }
}
fn main() {
    rmc::cli::main(&S, |_, _| None)
}

//! C15: parameter validation and independence of answers from parameters.
use rmc::cli::*;
use rmc::explore::*;
use rmc::gen::*;
use rmc::model::*;
use rmc::props::*;
use rmc::sut::*;
use rstar::{DefaultParams, RTree};
use serde_json::{json, Value};
use std::sync::Arc;

rmc::registry! {
    "3-6-2", PointS<[i32; 2]>, DefaultParams, 6, false;
    "1-4-0", PointS<[i32; 2]>, Pm<1, 4, 0>, 4, false;
    "1-4-2", PointS<[i32; 2]>, Pm<1, 4, 2>, 4, false;
    "2-4-0", PointS<[i32; 2]>, Pm<2, 4, 0>, 4, false;
    "2-4-1", PointS<[i32; 2]>, Pm<2, 4, 1>, 4, false;
    "1-5-3", PointS<[i32; 2]>, Pm<1, 5, 3>, 5, false;
    "2-5-2", PointS<[i32; 2]>, Pm<2, 5, 2>, 5, false;
    "3-5-1", PointS<[i32; 2]>, Pm<3, 5, 1>, 5, false;
    "1-6-4", PointS<[i32; 2]>, Pm<1, 6, 4>, 6, false;
    "2-6-3", PointS<[i32; 2]>, Pm<2, 6, 3>, 6, false;
    "4-7-2", PointS<[i32; 2]>, Pm<4, 7, 2>, 7, false;
    "4-8-3", PointS<[i32; 2]>, Pm<4, 8, 3>, 8, false;
    "5-9-0", PointS<[i32; 2]>, Pm<5, 9, 0>, 9, false;
    "1-12-10", PointS<[i32; 2]>, Pm<1, 12, 10>, 12, false;
    "10-20-9", PointS<[i32; 2]>, Pm<10, 20, 9>, 20, false;
    "50-100-25", PointS<[i32; 2]>, Pm<50, 100, 25>, 100, false;
    "4-8-0", PointS<[i32; 2]>, Pm<4, 8, 0>, 8, false;
    "1-8-6", PointS<[i32; 2]>, Pm<1, 8, 6>, 8, false;
    "3-7-3", PointS<[i32; 2]>, Pm<3, 7, 3>, 7, false;
    "1-40-38", PointS<[i32; 2]>, Pm<1, 40, 38>, 40, false;
    "32-64-31", PointS<[i32; 2]>, Pm<32, 64, 31>, 64, false;
    "100-300-60", PointS<[i32; 2]>, Pm<100, 300, 60>, 300, false;
    "r-16-33-16", RectS<[f64; 2]>, Pm<16, 33, 16>, 33, false;
    "t-2-4-0", RectS<[i64; 3]>, Pm<2, 4, 0>, 4, false;
    "t-5-10-4", RectS<[i64; 3]>, Pm<5, 10, 4>, 10, false;
    "r-2-4-1", RectS<[f64; 2]>, Pm<2, 4, 1>, 4, false;
    "r-1-5-3", RectS<[f64; 2]>, Pm<1, 5, 3>, 5, false;
    "r-3-6-2", RectS<[f64; 2]>, DefaultParams, 6, false;
}

type Probe = fn(u8, u8) -> usize;
fn new_tree<const A: usize, const B: usize, const C: usize>(dim: u8, how: u8) -> usize {
    let _ = how;
    match dim {
        1 => RTree::<[i32; 1], Pm<A, B, C>>::new_with_params().size(),
        2 => RTree::<[i32; 2], Pm<A, B, C>>::new_with_params().size(),
        _ => RTree::<[i32; 3], Pm<A, B, C>>::new_with_params().size(),
    }
}
fn bulk_tree<const A: usize, const B: usize, const C: usize>(dim: u8, how: u8) -> usize {
    let n = [0, 1, 7][how as usize % 3];
    match dim {
        1 => RTree::<[i32; 1], Pm<A, B, C>>::bulk_load_with_params((0..n).map(|i| [i]).collect())
            .size(),
        _ => {
            RTree::<[i32; 2], Pm<A, B, C>>::bulk_load_with_params((0..n).map(|i| [i, -i]).collect())
                .size()
        }
    }
}
macro_rules! cross {
    ($f:ident $v:ident; [$($a:literal)*]; $b:tt; $c:tt) => { $( cross!(@b $f $v; $a; $b; $c); )* };
    (@b $f:ident $v:ident; $a:literal; [$($b:literal)*]; $c:tt) => { $( cross!(@c $f $v; $a; $b; $c); )* };
    (@c $f:ident $v:ident; $a:literal; $b:literal; [$($c:literal)*]) => {
        $( $v.push(($a, $b, $c, $f::<$a, $b, $c> as Probe)); )*
    };
}
fn tables() -> (
    Vec<(usize, usize, usize, Probe)>,
    Vec<(usize, usize, usize, Probe)>,
) {
    let (mut n, mut b) = (Vec::new(), Vec::new());
    cross!(new_tree n; [0 1 2 3 4 5 6]; [0 1 2 3 4 5 6 7 8 9 10 11 12]; [0 1 2 3 4 5 6 7 8 9 10 11 12]);
    cross!(new_tree n; [32 33 50 51]; [63 64 65 100 101]; [0 12 13 14 30 31 32 33 49 50 51 100]);
    cross!(bulk_tree b; [0 1 2 3]; [3 4 5 6]; [0 1 2 3 4]);
    (n, b)
}
fn valid(min: usize, max: usize, r: usize, dim: u8) -> bool {
    max >= 4 && min >= 1 && min <= max.div_ceil(2) && r + min < max && dim >= 2
}
/// Runs one probe; how >= 100 are the fixed constructors.
fn probe(bulk: bool, x: &(usize, usize, usize, Probe), dim: u8, how: u8) -> Result<(), String> {
    let want = valid(x.0, x.1, x.2, dim);
    let n = if bulk { [0, 1, 7][how as usize % 3] } else { 0 };
    let what = format!(
        "{} with MIN_SIZE {}, MAX_SIZE {}, REINSERTION_COUNT {} and {dim}-dimensional points",
        if bulk {
            format!("bulk loading {n} elements")
        } else {
            "a new tree".into()
        },
        x.0,
        x.1,
        x.2
    );
    match (guard(|| x.3(dim, how)), want) {
        (Ok(s), true) if s == n => Ok(()),
        (Ok(s), true) => Err(format!("{what} has size {s}")),
        (Err(_), false) => Ok(()),
        (Ok(_), false) => Err(format!("{what} is accepted")),
        (Err(p), true) => Err(format!("{what} is rejected: {p}")),
    }
}
/// Constructors with default parameters, and other one-dimensional types.
fn fixed(i: u64) -> Option<Result<(), String>> {
    let (f, want): (Box<dyn FnOnce() -> usize>, bool) = match i {
        0 => (Box::new(|| RTree::<[f64; 2]>::new().size()), true),
        1 => (Box::new(|| RTree::<[f64; 1]>::new().size()), false),
        2 => (Box::new(|| RTree::<(i32,)>::new().size()), false),
        3 => (Box::new(|| RTree::<[f64; 2]>::default().size()), true),
        4 => (Box::new(|| RTree::<[f64; 1]>::default().size()), false),
        5 => (
            Box::new(|| RTree::bulk_load(Vec::<[f64; 2]>::new()).size()),
            true,
        ),
        6 => (
            Box::new(|| RTree::bulk_load(Vec::<[f64; 1]>::new()).size()),
            false,
        ),
        7 => (
            Box::new(|| RTree::bulk_load(vec![(1i32,)]).size() - 1),
            false,
        ),
        8 => (
            Box::new(|| RTree::bulk_load(vec![[1.0f32; 10]; 30]).size() - 30),
            true,
        ),
        9 => (Box::new(|| RTree::<(i8, i8)>::new().size()), true),
        10 => (Box::new(|| RTree::<[i128; 10]>::default().size()), true),
        _ => return None,
    };
    Some(match (guard(f), want) {
        (Ok(0), true) | (Err(_), false) => Ok(()),
        (r, _) => Err(format!(
            "default constructor #{i}: {r:?}, expected {}",
            if want { "success" } else { "a panic" }
        )),
    })
}

struct S15;
impl Suite for S15 {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        if id != "C15" {
            return None;
        }
        let q = tier == Tier::Quick;
        let p = Plan {
            cfgs: CFGS.to_vec(),
            bfs_depth: tier.pick(3, 4),
            bfs_menu: MenuKind::Sparse,
            alphabet: mixed_alphabet,
            orders: tier.pick(6, 8),
            multiset: tier.pick(3, 5),
            sweep_ns: if q {
                let mut v: Vec<usize> = (0..=20).collect();
                v.extend([25, 26, 31, 37, 45, 50, 64, 65, 90, 101, 130, 210]);
                v
            } else {
                let mut v: Vec<usize> = (0..=130).collect();
                v.extend((140..=520).step_by(20));
                v
            },
            sweep_patterns: if q {
                vec!["lattice", "perm", "fewdup", "clusters"]
            } else {
                PATTERNS.to_vec()
            },
            sweep_modes: if q {
                vec!["ins", "bulk", "bulkins", "insrem", "bulkdrain", "pop"]
            } else {
                MODES.to_vec()
            },
            sweep_menu: MenuKind::Sparse,
            sweep_every_below: 0,
            large: tier.pick(vec![500, 1300], vec![500, 1300, 3000]),
            huge: vec![],
            after: vec![],
            cong: Some(Cong {
                moduli: if q {
                    vec![31, 101]
                } else {
                    vec![7, 31, 61, 101, 251]
                },
                a: tier.pick(3, 12),
                b: tier.pick(6, 12),
                k: tier.pick(2, 4),
                n: tier.pick(120, 300),
                every: 8,
                menu: MenuKind::Tiny,
                insert_too: true,
            }),
        };
        let mut js = jobs(&p, tier);
        js.push(Job::new("validity", |e, st| {
            let (n, b) = tables();
            for (bulk, t) in [(false, &n), (true, &b)] {
                for x in t {
                    for dim in if bulk { 1..=2u8 } else { 1..=3u8 } {
                        for how in if bulk { 0..3u8 } else { 0..1u8 } {
                            let v = json!({"kind": "valid", "bulk": bulk, "min": x.0, "max": x.1, "r": x.2, "dim": dim, "how": how});
                            e.announce(|| v.clone());
                            st.evals += 1;
                            st.count("parameter_sets_probed", 1);
                            if let Err(m) = probe(bulk, x, dim, how) {
                                e.report(v, m);
                                return;
                            }
                        }
                    }
                }
            }
            for i in 0.. {
                match fixed(i) {
                    None => break,
                    Some(Ok(())) => st.evals += 1,
                    Some(Err(m)) => {
                        e.report(json!({"kind": "valid", "fixed": i}), m);
                        return;
                    }
                }
            }
        }));
        Some(Check {
            prop: Arc::new(Std { id: "C15", follow: vec![], subsets: 0 }),
            jobs: js,
            level: "model_checking",
            rule: "Construction is probed for every parameter triple of a grid, one to three dimensions; then the same histories are executed under each accepted parameter set and each is compared with the one parameter-free reference model. An outcome is a distinct (query kind, answer).",
            bounds: json!({"parameters_with_histories": CFGS.iter().map(|c| c.name).collect::<Vec<_>>(), "bfs_depth": p.bfs_depth, "sweep_sizes": p.sweep_ns, "multisets_up_to": p.multiset, "congruential_orders": p.cong.as_ref().map(|g| json!({"moduli": g.moduli, "a_up_to": g.a, "b_below": g.b, "k_up_to": g.k, "elements": g.n}))}),
            assumptions: vec!["coordinates are small, so no arithmetic overflows"],
            special: Some(|v: &Value| {
                if let Some(i) = v["fixed"].as_u64() {
                    return fixed(i).expect("index");
                }
                let (n, b) = tables();
                let bulk = v["bulk"].as_bool().unwrap();
                let t = if bulk { b } else { n };
                let g = |k: &str| v[k].as_u64().unwrap();
                let x = t.iter().find(|x| x.0 as u64 == g("min") && x.1 as u64 == g("max") && x.2 as u64 == g("r")).expect("probe");
                if std::env::var("RMC_TRACE").is_ok() {
                    eprintln!("AT constructing a tree {v} 1");
                }
                probe(bulk, x, g("dim") as u8, g("how") as u8)
            }),
        })
    }
}
fn main() {
    rmc::cli::main(&S15, make)
}

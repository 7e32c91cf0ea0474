//! Checkers C01..C12, C14, C16, C22, C23 on the core configurations.
use rmc::cli::*;
use rmc::explore::*;
use rmc::gen::*;
use rmc::geom::*;
use rmc::model::*;
use rmc::props::*;
use rmc::sut::*;
use rstar::DefaultParams;
use serde_json::json;
use std::sync::Arc;

rmc::registry! {
    "pt2i", PointS<[i32; 2]>, DefaultParams, 6, false;
    "pt2i-2-4-1", PointS<[i32; 2]>, Pm<2, 4, 1>, 4, false;
    "pt2i-1-4-2", PointS<[i32; 2]>, Pm<1, 4, 2>, 4, false;
    "pt2i-2-5-0", PointS<[i32; 2]>, Pm<2, 5, 0>, 5, false;
    "pt2i-3-5-1", PointS<[i32; 2]>, Pm<3, 5, 1>, 5, false;
    "pt2i-1-8-6", PointS<[i32; 2]>, Pm<1, 8, 6>, 8, false;
    "pt2i-20-70-10", PointS<[i32; 2]>, Pm<20, 70, 10>, 70, false;
    "pt2l-100-300-60", PointS<[i64; 2]>, Pm<100, 300, 60>, 300, false;
    "plain2f", PlainS<[f64; 2]>, DefaultParams, 6, false;
    "rect2i", RectS<[i32; 2]>, DefaultParams, 6, false;
    "rect2i-2-4-1", RectS<[i32; 2]>, Pm<2, 4, 1>, 4, false;
    "rect2f-20-40-0", PlainRectS<[f64; 2]>, Pm<20, 40, 0>, 40, false;
    "rect3f-2-4-1", RectS<[f64; 3]>, Pm<2, 4, 1>, 4, false;
    "line2f-1-4-0", LineS<[f64; 2]>, Pm<1, 4, 0>, 4, false;
    "disc2f", DiscS<[f64; 2]>, DefaultParams, 6, false;
    "disc2f-2-4-1", DiscS<[f64; 2]>, Pm<2, 4, 1>, 4, false;
    "pair2l", PairS<[i64; 2]>, DefaultParams, 6, false;
    "loose2l-2-4-1", LooseS<[i64; 2]>, Pm<2, 4, 1>, 4, false;
    "loose3f", LooseS<[f64; 3]>, DefaultParams, 6, false;
    "pt3f-2-5-2", PointS<[f32; 3]>, Pm<2, 5, 2>, 5, false;
    "i8x2", PlainS<[i8; 2]>, DefaultParams, 6, true;
    "i16x2-2-4-1", PointS<[i16; 2]>, Pm<2, 4, 1>, 4, true;
    "i128x3", RectS<[i128; 3]>, Pm<1, 4, 2>, 4, false;
    "tup4l-2-4-1", PlainS<(i64, i64, i64, i64)>, Pm<2, 4, 1>, 4, false;
}
fn cfg(names: &[&str]) -> Vec<Cfg> {
    names
        .iter()
        .map(|n| *CFGS.iter().find(|c| c.name == *n).expect("cfg"))
        .collect()
}

/// Bulk loads of every given size, then some insertions.
fn bulk_sizes(c: Cfg, pat: &'static str, ns: Vec<usize>, extra: usize, menu: MenuKind) -> Job {
    Job::new(
        format!("bulk sizes {} {:?}..", c.name, ns.first()),
        move |e, st| {
            for n in ns {
                let mut ops = vec![Op::Bulk(all(n), n as u32 % 5)];
                ops.extend(ins(n..n + extra));
                let case = Case {
                    cfg: c.name.into(),
                    m: UNIT,
                    elems: universe(c.kind, c.d, pat, n + extra),
                    ops,
                    menu,
                    every: 1,
                };
                e.run_case(&case, st);
                if e.stopped() || e.out_of_time() {
                    break;
                }
            }
        },
    )
}

struct Core;
impl Suite for Core {
    fn check(&self, id: &str, tier: Tier) -> Option<Check> {
        let q = tier == Tier::Quick;
        let ns: Vec<usize> = if q {
            let mut v: Vec<usize> = (0..=30).collect();
            v.extend([33, 36, 37, 41, 43, 48, 49, 55, 64, 65, 72, 80, 97, 120, 150]);
            v
        } else {
            let mut v: Vec<usize> = (0..=160).collect();
            v.extend((170..=420).step_by(10));
            v
        };
        let mut p = Plan {
            cfgs: CFGS
                .iter()
                .filter(|c| !["i8x2", "i16x2-2-4-1", "i128x3", "pt2i-1-8-6"].contains(&c.name))
                .copied()
                .collect(),
            bfs_depth: tier.pick(3, 4),
            bfs_menu: MenuKind::Sparse,
            alphabet,
            orders: tier.pick(6, 8),
            multiset: tier.pick(4, 6),
            sweep_ns: ns,
            sweep_patterns: if q {
                vec!["lattice", "perm", "fewdup", "clusters", "neg", "nested"]
            } else {
                vec![
                    "row", "diag", "anti", "lattice", "perm", "dup", "fewdup", "clusters", "neg",
                    "nested", "cross", "zigzag",
                ]
            },
            sweep_modes: if q {
                vec![
                    "ins",
                    "bulk",
                    "bulkins",
                    "insrem",
                    "bulkdrain",
                    "pop",
                    "serde",
                ]
            } else {
                vec![
                    "ins",
                    "bulk",
                    "bulkcap",
                    "bulkins",
                    "insrem",
                    "bulkdrain",
                    "remheavy",
                    "pop",
                    "serde",
                    "drainall",
                    "leak",
                    "within",
                ]
            },
            sweep_menu: MenuKind::Sparse,
            sweep_every_below: 0,
            large: if q {
                vec![500, 1100, 2300]
            } else {
                vec![500, 800, 1100, 1700, 2300, 4000, 7000]
            },
            huge: tier.pick(vec![70_000], vec![70_000, 140_000]),
            after: vec![],
            cong: Some(Cong {
                moduli: if q {
                    vec![7, 31, 101]
                } else {
                    vec![5, 7, 13, 31, 61, 101, 251]
                },
                a: tier.pick(6, 16),
                b: tier.pick(6, 16),
                k: tier.pick(2, 4),
                n: tier.pick(120, 300),
                every: 0,
                menu: MenuKind::Tiny,
                insert_too: false,
            }),
        };
        let mut follow = vec![];
        let mut extra_jobs = vec![];
        match id {
            "C01" => {
                p.alphabet = mixed_alphabet;
                p.sweep_modes = if q {
                    vec![
                        "ins",
                        "bulk",
                        "bulkins",
                        "insrem",
                        "bulkdrain",
                        "pop",
                        "serde",
                        "leak",
                        "within",
                    ]
                } else {
                    p.sweep_modes
                };
                p.orders = tier.pick(7, 8);
            }
            "C02" => {
                p.cfgs.extend(cfg(&["i8x2", "i16x2-2-4-1", "i128x3"]));
                p.alphabet = mixed_alphabet;
                p.sweep_menu = MenuKind::Tiny;
                p.sweep_patterns = vec![
                    "row", "diag", "lattice", "perm", "dup", "fewdup", "clusters", "neg", "nested",
                    "cross",
                ];
                let m = p.sweep_modes.clone();
                p.sweep_modes = m;
                // every bulk size: shapes depend on it in steps
                for c in p.cfgs.clone() {
                    if c.small {
                        continue;
                    }
                    for pat in ["perm", "dup"] {
                        let top = tier.pick(
                            if c.max > 8 { 420 } else { 300 },
                            if c.max > 8 { 2000 } else { 1200 },
                        );
                        extra_jobs.push(Job::new(
                            format!("bulk sizes {} {pat}", c.name),
                            move |e, st| {
                                for n in 0..=top {
                                    let us = universe(c.kind, c.d, pat, n + 8);
                                    let mut ops = vec![Op::Bulk(all(n), 0)];
                                    ops.extend(ins(n..n + 8));
                                    ops.push(Op::Rem(n as u32 / 2));
                                    let case = Case {
                                        cfg: c.name.into(),
                                        m: UNIT,
                                        elems: us,
                                        ops,
                                        menu: MenuKind::Tiny,
                                        every: 0,
                                    };
                                    e.run_case(&case, st);
                                    if e.stopped() || e.out_of_time() {
                                        break;
                                    }
                                }
                            },
                        ));
                    }
                }
            }
            "C03" => {
                p.cfgs.extend(cfg(&["pt2i-1-8-6"]));
                let g = p.cong.as_mut().unwrap();
                (g.every, g.insert_too) = (8, true);
                (g.a, g.b, g.k) = (tier.pick(10, 20), tier.pick(8, 20), tier.pick(3, 6));
                p.alphabet = mixed_alphabet;
                p.orders = tier.pick(8, 8);
                p.bfs_depth = tier.pick(4, 5);
                p.sweep_every_below = 1000;
                for c in p.cfgs.clone() {
                    let top = tier.pick(250, 1000);
                    extra_jobs.push(bulk_sizes(
                        c,
                        "perm",
                        (0..=top).collect(),
                        0,
                        MenuKind::Tiny,
                    ));
                }
            }
            "C06" | "C07" => {
                p.cfgs.retain(|c| c.kind != Kind::Loose);
                p.bfs_menu = MenuKind::Full;
                p.multiset = tier.pick(5, 7);
            }
            "C04" | "C05" | "C08" | "C09" => {
                p.bfs_menu = MenuKind::Full;
                p.multiset = tier.pick(5, 7);
            }
            "C10" => p.alphabet = removal_alphabet,
            "C11" => p.alphabet = drain_alphabet,
            "C12" => {
                p.alphabet = custom_alphabet;
                p.bfs_menu = MenuKind::Tiny;
                p.sweep_menu = MenuKind::Tiny;
            }
            "C14" => {
                p.bfs_depth = 0;
                p.orders = 0;
                p.multiset = tier.pick(5, 7);
                p.after = vec![
                    Op::Ins(0),
                    Op::Rem(1),
                    Op::Ins(1),
                    Op::Pop(pt(&[1, 1])),
                    Op::Drain(Sel::All, 1, End::Drop),
                    Op::Ins(0),
                ];
                p.sweep_modes = vec![
                    "bulk",
                    "bulkcap",
                    "bulkins",
                    "bulkdrain",
                    "drainall",
                    "remheavy",
                ];
                for c in p.cfgs.clone() {
                    let top = tier.pick(250, 1000);
                    extra_jobs.push(bulk_sizes(
                        c,
                        "perm",
                        (0..=top).collect(),
                        3,
                        MenuKind::Tiny,
                    ));
                }
            }
            "C16" => {
                p.bfs_menu = MenuKind::Tiny;
                p.sweep_menu = MenuKind::Tiny;
                follow = vec![
                    Op::Ins(0),
                    Op::Ins(1),
                    Op::Rem(0),
                    Op::Rem(2),
                    Op::RemAt(pt(&[0, 2])),
                    Op::Pop(pt(&[1, 1])),
                    Op::Drain(Sel::All, 2, End::Drop),
                    Op::Drain(
                        Sel::Inter(Bx {
                            lo: pt(&[0, 0]),
                            hi: pt(&[2, 2, 2, 2]),
                        }),
                        u32::MAX,
                        End::Finish,
                    ),
                    Op::Drain(Sel::All, 1, End::Forget),
                    Op::Rebuild,
                ];
            }
            "C22" | "C23" => {}
            _ => return None,
        }
        // every size of bulk loaded trees up to a greater bound, and the sizes
        // around powers of the node capacity (where the height changes) beyond
        let mut bulk_top = [0, 0];
        if let "C01" | "C02" | "C03" | "C14" = id {
            bulk_top = match (id, q) {
                ("C03", true) => [3000, 70_000],
                ("C03", false) => [12_000, 600_000],
                (_, true) => [1200, 70_000],
                (_, false) => [4000, 600_000],
            };
            for c in cfg(&[
                "pt2i-2-4-1",
                "pt2i-2-5-0",
                "pt2i",
                "tup4l-2-4-1",
                "pt3f-2-5-2",
                "pt2i-20-70-10",
            ]) {
                let ins = if id == "C14" { 3 } else { 0 };
                let all: Vec<usize> = (251..=bulk_top[0]).collect();
                for chunk in all.chunks(150) {
                    extra_jobs.push(bulk_sizes(c, "perm", chunk.to_vec(), ins, MenuKind::Bare));
                }
                let mut pow = c.max * c.max;
                while pow <= bulk_top[1] {
                    if pow > bulk_top[0] {
                        for n in [pow - 1, pow, pow + 1] {
                            extra_jobs.push(bulk_sizes(c, "perm", vec![n], ins, MenuKind::Bare));
                        }
                    }
                    pow *= c.max;
                }
            }
        }
        let mut js = jobs(&p, tier);
        js.extend(extra_jobs);
        Some(Check {
            prop: Arc::new(Std { id: leak(id), follow, subsets: tier.pick(4, 6) }),
            jobs: js,
            level: "model_checking",
            rule: "Every history of the listed scopes (all operation sequences over the alphabet up to the depth with equal trees merged, all insertion orders, all multisets over the grid, all sizes of every pattern in every mode) is executed on the real tree and compared with the reference model; an outcome is a distinct (query kind, answer) pair.",
            bounds: json!({
                "configurations": p.cfgs.iter().map(|c| c.name).collect::<Vec<_>>(),
                "bfs_depth": p.bfs_depth,
                "all_insertion_orders_of": p.orders,
                "multisets_up_to": p.multiset,
                "sweep_sizes": [p.sweep_ns.first(), p.sweep_ns.last()],
                "sweep_size_count": p.sweep_ns.len(),
                "sweep_patterns": p.sweep_patterns,
                "sweep_modes": p.sweep_modes,
                "large_sizes": p.large,
                "congruential_orders": p.cong.as_ref().map(|g| json!({"moduli": g.moduli, "a_up_to": g.a, "b_below": g.b, "k_up_to": g.k, "elements": g.n})),
                "every_bulk_size_up_to": bulk_top[0],
                "bulk_sizes_around_powers_up_to": bulk_top[1],
            }),
            assumptions: vec![
                "coordinates are small multiples of the mapping step, so no arithmetic overflows",
                "two trees with equal node hierarchy, envelopes, contents and size behave alike (states are merged by a 128-bit hash of that)",
            ],
            special: None,
        })
    }
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
fn main() {
    rmc::cli::main(&Core, make)
}

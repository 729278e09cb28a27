//! C20: the range managers against sets of words.
use craballoc::range::{IsRange, Range, RangeManager};
use craballoc::runtime::SlabUpdate;
use crabslab::Array;
use engine::{ensure, Check, Family, Stats, Verdict};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FreeOp {
    /// add a range; which words of it are new is decided by the model
    Add { at: u16, n: u16 },
    /// through an array
    AddArray { at: u16, n: u8 },
    Remove { n: u16 },
    /// remove what is the longest run, or one more
    RemoveLongest { more: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FreeCase {
    base: u32,
    ops: Vec<FreeOp>,
}

fn runs(set: &BTreeSet<u64>) -> Vec<(u64, u64)> {
    let mut out: Vec<(u64, u64)> = vec![];
    for w in set {
        match out.last_mut() {
            Some(l) if l.1 + 1 == *w => l.1 = *w,
            _ => out.push((*w, *w)),
        }
    }
    out
}

fn check_free(c: &FreeCase, st: &mut Stats) -> Verdict {
    let mut m = RangeManager::<Range>::default();
    let mut set = BTreeSet::<u64>::new();
    let mut only_added = true;
    let (mut merges, mut removed) = (0, 0);
    for op in &c.ops {
        match op {
            FreeOp::Add { .. } | FreeOp::AddArray { .. } => {
                let (at, n) = match op {
                    FreeOp::Add { at, n } => (*at, *n as u64),
                    FreeOp::AddArray { at, n } => (*at, *n as u64 % 20 * 3),
                    _ => unreachable!(),
                };
                let first = c.base as u64 + at as u64;
                // the part before the first word that is already there
                let n = (first..first + n)
                    .take_while(|w| !set.contains(w) && *w < u32::MAX as u64)
                    .count() as u64;
                if n == 0 {
                    continue;
                }
                let range = if matches!(op, FreeOp::AddArray { .. }) && n % 3 == 0 {
                    Range::from(Array::<glam::Vec3>::new(first as u32, n as u32 / 3))
                } else if n % 2 == 0 {
                    Range::from(Array::<u32>::new(first as u32, n as u32))
                } else {
                    Range {
                        first_index: first as u32,
                        last_index: (first + n - 1) as u32,
                    }
                };
                ensure!(
                    range.first_index as u64 == first && range.last_index as u64 == first + n - 1,
                    "from-array",
                    "the range of the {n} words at {first} is {range:?}"
                );
                ensure!(
                    range.len() as u64 == n && !range.is_empty(),
                    "range-len",
                    "{range:?} has length {}, is_empty {}",
                    range.len(),
                    range.is_empty()
                );
                let before = runs(&set).len();
                m.add_range(range);
                set.extend(first..first + n);
                if runs(&set).len() <= before {
                    merges += 1;
                }
            }
            FreeOp::Remove { .. } | FreeOp::RemoveLongest { .. } => {
                let longest = runs(&set).iter().map(|r| r.1 - r.0 + 1).max().unwrap_or(0);
                let n = match op {
                    FreeOp::Remove { n } => *n as u64,
                    FreeOp::RemoveLongest { more } => longest + u64::from(*more),
                    _ => unreachable!(),
                };
                // what the manager can know: runs are only as long as it holds them
                let held = m.ranges.iter().map(|r| r.len() as u64).max().unwrap_or(0);
                let got = m.remove(n as u32);
                match got {
                    Some(r) => {
                        ensure!(n > 0, "remove-nothing", "removing 0 words gave {r:?}");
                        let (a, b) = (r.first_index as u64, r.last_index as u64);
                        ensure!(
                            b >= a && b - a + 1 == n,
                            "remove-count",
                            "removing {n} words gave {r:?}"
                        );
                        for w in a..=b {
                            ensure!(
                                set.remove(&w),
                                "remove-foreign",
                                "removing {n} words gave {r:?}, but {w} is not in the set"
                            );
                        }
                        removed += 1;
                        only_added = false;
                    }
                    None => {
                        ensure!(
                            n == 0 || held < n,
                            "remove-none",
                            "removing {n} words gave nothing, but a range has {held}"
                        );
                        ensure!(
                            n == 0 || longest < n,
                            "remove-none",
                            "removing {n} words gave nothing, but a run has {longest}"
                        );
                    }
                }
            }
        }
        // it represents the set
        let mut words = BTreeSet::new();
        for r in &m.ranges {
            for w in r.first_index as u64..=r.last_index as u64 {
                ensure!(words.insert(w), "twice", "word {w} is in two of {:?}", m.ranges);
            }
        }
        ensure!(
            words == set,
            "set",
            "{:?} are held after {op:?}, expected the runs {:?}",
            m.ranges,
            runs(&set)
        );
        ensure!(
            m.len() == m.ranges.len() && m.is_empty() == set.is_empty(),
            "len",
            "the manager of {:?} has length {}, is_empty {}",
            m.ranges,
            m.len(),
            m.is_empty()
        );
        if only_added {
            ensure!(
                m.len() == runs(&set).len(),
                "not-maximal",
                "{:?} are held after only adding, expected the runs {:?}",
                m.ranges,
                runs(&set)
            );
        }
        for a in &m.ranges {
            for b in &m.ranges {
                let want = a.first_index.max(b.first_index) <= a.last_index.min(b.last_index);
                ensure!(
                    a.intersects(b) == want,
                    "intersects",
                    "{a:?} intersects {b:?}: {}",
                    a.intersects(b)
                );
            }
        }
    }
    if merges > 0 {
        st.label("ranges merged");
    }
    if removed > 0 {
        st.label("words removed");
    }
    if merges > 0 && removed > 0 {
        st.nontrivial();
    }
    Ok(())
}

fn free_cases() -> impl Strategy<Value = FreeCase> {
    let op = prop_oneof![
        8 => (0u16..60, 1u16..8).prop_map(|(at, n)| FreeOp::Add { at, n }),
        2 => (0u16..300, 1u16..80).prop_map(|(at, n)| FreeOp::Add { at, n }),
        2 => (0u16..60, 1u8..20).prop_map(|(at, n)| FreeOp::AddArray { at, n }),
        5 => (0u16..12).prop_map(|n| FreeOp::Remove { n }),
        2 => any::<bool>().prop_map(|more| FreeOp::RemoveLongest { more }),
    ];
    (
        prop_oneof![
            4 => Just(0u32),
            1 => 0u32..1000,
            1 => Just(0x7fff_ffe0u32),
            1 => Just(u32::MAX - 300),
        ],
        prop_oneof![
            1 => prop::collection::vec(op.clone(), 1..8),
            2 => prop::collection::vec(op, 8..50),
        ],
    )
        .prop_map(|(base, ops)| FreeCase { base, ops })
}

/// Relations between two ranges, over the whole space of words.
fn check_pair(c: &(u32, u32, u32, u32), st: &mut Stats) -> Verdict {
    let (a, n, b, m) = *c;
    let a = a.min(u32::MAX - n);
    let b = b.min(u32::MAX - m);
    let r = |f: u32, n: u32| Range {
        first_index: f,
        last_index: f + n - 1,
    };
    let (x, y) = (r(a, n), r(b, m));
    let (a, n, b, m) = (a as u64, n as u64, b as u64, m as u64);
    let over = a < b + m && b < a + n;
    let touch = a + n == b || b + m == a;
    ensure!(
        x.intersects(&y) == over && y.intersects(&x) == over,
        "intersects",
        "{x:?} intersects {y:?}: {}",
        x.intersects(&y)
    );
    if !over && (a + n).max(b + m) < u32::MAX as u64 {
        ensure!(
            x.should_merge_with(&y) == touch && y.should_merge_with(&x) == touch,
            "should-merge",
            "{x:?} should merge with {y:?}: {}",
            x.should_merge_with(&y)
        );
        if touch {
            let mut u = x;
            u.union(y);
            ensure!(
                u.first_index as u64 == a.min(b) && u.len() as u64 == n + m,
                "union",
                "the union of {x:?} and {y:?} is {u:?}"
            );
        }
    }
    let up = |f: u64, n: u64| SlabUpdate {
        array: Array::new(f as u32, n as u32),
        elements: vec![],
    };
    ensure!(
        up(a, n).intersects(&up(b, m)) == over,
        "update-intersects",
        "updates of {x:?} and {y:?} intersect: {}",
        !over
    );
    if over || touch {
        st.nontrivial();
    }
    st.label(match (over, touch) {
        (true, _) => "overlapping",
        (_, true) => "touching",
        _ => "apart",
    });
    Ok(())
}

fn pairs() -> impl Strategy<Value = (u32, u32, u32, u32)> {
    prop_oneof![
        3 => (0u32..30, 1u32..10, 0u32..30, 1u32..10),
        1 => (any::<u32>(), 1u32..1000, any::<u32>(), 1u32..1000),
        1 => (any::<u32>(), 1u32..1000, -12i32..12, 1u32..1000).prop_map(|(a, n, d, m)| {
            let a = a.min(u32::MAX - 4000);
            (a, n, (a + n).saturating_add_signed(d), m)
        }),
        1 => (any::<u32>(), 1u32..10, 1u32..10).prop_map(|(a, n, m)| (a, n, a.saturating_add(n), m)),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct UpdateCase {
    base: u32,
    updates: Vec<(u16, u16, u32)>,
}

fn check_updates(c: &UpdateCase, st: &mut Stats) -> Verdict {
    let mut m = RangeManager::<SlabUpdate>::default();
    let mut want = BTreeMap::<u32, u32>::new();
    let mut overlaps = 0;
    for (k, (at, n, w)) in c.updates.iter().enumerate() {
        let first = c.base + *at as u32;
        let elements: Vec<u32> = (0..*n as u32)
            .map(|i| engine::mix(*w as u64 + ((k as u64) << 32) + i as u64) as u32)
            .collect();
        for (i, e) in elements.iter().enumerate() {
            if want.insert(first + i as u32, *e).is_some() {
                overlaps += 1;
            }
        }
        m.add_range(SlabUpdate {
            array: Array::new(first, *n as u32),
            elements,
        });
        let mut got = BTreeMap::new();
        for u in &m.ranges {
            ensure!(
                u.array.len() == u.elements.len(),
                "update-len",
                "an update of {:?} has {} elements",
                u.array,
                u.elements.len()
            );
            for (i, e) in u.elements.iter().enumerate() {
                ensure!(
                    got.insert(u.array.index + i as u32, *e).is_none(),
                    "update-overlap",
                    "two merged updates hold word {}, after update {k}",
                    u.array.index + i as u32
                );
            }
        }
        if got != want {
            let w = want
                .keys()
                .chain(got.keys())
                .find(|w| got.get(w) != want.get(w))
                .unwrap();
            ensure!(
                false,
                "update-apply",
                "after update {k}, word {w} is set to {:x?}, expected {:x?}",
                got.get(w),
                want.get(w)
            );
        }
    }
    if overlaps > 0 {
        st.nontrivial();
        st.label("overlapping updates");
    }
    if m.len() > 1 {
        st.label("several merged updates");
    }
    Ok(())
}

fn update_cases() -> impl Strategy<Value = UpdateCase> {
    let u = prop_oneof![
        6 => (0u16..40, 1u16..6, any::<u32>()),
        3 => (0u16..40, 1u16..20, any::<u32>()),
        1 => (0u16..400, 1u16..200, any::<u32>()),
    ];
    (
        prop_oneof![3 => Just(0u32), 1 => Just(u32::MAX - 1000)],
        prop_oneof![
            2 => prop::collection::vec(u.clone(), 1..7),
            2 => prop::collection::vec(u, 7..40),
        ],
    )
        .prop_map(|(base, updates)| UpdateCase { base, updates })
}

pub fn check() -> Check {
    Check {
        id: "C20",
        rule: "ranges merged and words were removed; two ranges overlap or touch; updates overlap",
        assumptions: vec![
            "ranges added to a manager of free words are not empty and do not overlap (the code asserts this)",
            "the words of a range end before the largest 32-bit number",
        ],
        families: vec![
            Box::new(Family::new("free ranges", 120_000, 3_000_000, free_cases, check_free)),
            Box::new(Family::new("pairs of ranges", 200_000, 4_000_000, pairs, check_pair)),
            Box::new(Family::new("updates", 100_000, 3_000_000, update_cases, check_updates)),
        ],
    }
}

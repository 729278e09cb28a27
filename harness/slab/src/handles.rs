//! C07: the algebra of ids and arrays.
use crate::ty::{by_name, drive, registry, It};
use crabslab::{Array, Id};
use engine::{DynFamily, ensure, Check, Family, Stats, Verdict};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{hash_map::DefaultHasher, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arr {
    ty: String,
    index: u32,
    len: u32,
    at: usize,
}

fn index() -> impl Strategy<Value = u32> + Clone {
    prop_oneof![
        4 => 0u32..50,
        1 => 0u32..100_000,
        2 => any::<u32>(),
        1 => prop::sample::select(vec![0xfff0u32, 0xffff, 0x1_0000, 0x00ff_ffff, 0x0100_0000, 0x7fff_ff00, 0x8000_0000, 0xffff_ff00, u32::MAX - 1, u32::MAX]),
    ]
}

fn arr() -> impl Strategy<Value = Arr> {
    let names: Vec<String> = registry().iter().map(|t| t.name.to_string()).collect();
    (
        prop::sample::select(names),
        index(),
        prop_oneof![6 => 0u32..8, 2 => 0u32..300, 1 => any::<u32>(), 1 => 60_000u32..70_000],
        prop_oneof![4 => 0usize..10, 1 => any::<usize>(), 1 => any::<u32>().prop_map(|u| u as usize)],
        0i64..4,
    )
        .prop_map(|(ty, index, len, at, near)| {
            let t = by_name(&ty);
            // Only arrays that lie within the 32-bit index space exist, but for the null array
            let size = (t.size as u64).max(1);
            let room = (u32::MAX as u64 - index as u64) / size;
            let len = if room == 0 { 0 } else { (len as u64 % (room + 1)) as u32 };
            // half of the time, look near the end of the array
            let at = if at % 2 == 0 { at } else { (len as i64 + near - 2).max(0) as usize };
            Arr { ty, index, len, at }
        })
}

fn array(c: &Arr, stats: &mut Stats) -> Verdict {
    let t = by_name(&c.ty);
    let h = (t.handles)(c.index, c.len, c.at);
    let (index, len, size) = (c.index as u64, c.len as u64, t.size as u64);
    ensure!(h.len as u64 == len, "len", "len is {}", h.len);
    ensure!(h.start as u64 == index, "start", "starting index is {}", h.start);
    ensure!(h.is_empty == (len == 0), "is-empty", "is_empty of {len}");
    ensure!(
        h.is_null == (c.index == u32::MAX),
        "is-null",
        "is_null of an array at {index}"
    );
    let want = if (c.at as u64) < len {
        stats.label("element within the array");
        (index + size * c.at as u64) as u32
    } else {
        stats.label("element outside of the array");
        u32::MAX
    };
    ensure!(
        h.at.inner() == want,
        "at",
        "element {} of {len} {} at {index} is {:?}, expected {want}",
        c.at,
        t.name,
        h.at
    );
    ensure!(
        h.iter.len() as u64 == len.min(5000),
        "iter-len",
        "iterating {len} elements gave {}",
        h.iter.len()
    );
    for (i, id) in h.iter.iter().enumerate() {
        ensure!(
            *id as u64 == index + size * i as u64,
            "iter",
            "element {i} of {} at {index} is {id} when iterating",
            t.name
        );
    }
    if len <= 5000 {
        ensure!(
            h.iter_clone_rest == 0,
            "iter-fused",
            "the iterator goes on after the end"
        );
    }
    ensure!(
        h.u32_array == (c.index, (len * size) as u32),
        "u32-array",
        "{len} {} at {index} are {:?} as words",
        t.name,
        h.u32_array
    );
    ensure!(
        h.single == (c.index, 1),
        "from-id",
        "the array of one id is {:?}",
        h.single
    );
    ensure!(
        h.debug.contains("null") == (c.index == u32::MAX),
        "debug",
        "an array at {index} prints as {}",
        h.debug
    );
    if len > 0 && index > 0 {
        stats.nontrivial();
    }
    if index + len * size > 0xffff {
        stats.label("beyond 16 bits");
    }
    if index + len * size > i32::MAX as u64 {
        stats.label("beyond 31 bits");
    }
    // the words themselves
    if index + len * size < 2_000 || (len == 0 && c.index == u32::MAX) {
        let end = if len == 0 { 0 } else { index + len * size };
        let slab: Vec<u32> = (0..end as u32 + 3).map(|i| i ^ 0xabcd).collect();
        if len > 0 || (index as usize) < slab.len() || c.index == u32::MAX {
            let got = (t.sub_slab)(&slab, c.index, c.len);
            let want: Vec<u32> = (index..index + len * size).map(|i| i as u32 ^ 0xabcd).collect();
            ensure!(
                got == want,
                "sub-slab",
                "sub_slab of {len} {} at {index} is {got:?}, expected {want:?}",
                t.name
            );
            stats.label("sub_slab");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ids {
    ids: Vec<u32>,
    add: u32,
    arrays: Vec<(u32, u32)>,
    probe: usize,
}

fn ids() -> impl Strategy<Value = Ids> {
    (
        prop::collection::vec(index(), 1..8),
        prop_oneof![0u32..100, any::<u32>()],
        prop::collection::vec((index(), prop_oneof![4 => 0u32..20, 1 => any::<u32>()]), 2..5),
        prop_oneof![3 => 0usize..80, 1 => index().prop_map(|i| i as usize)],
    )
        .prop_map(|(ids, add, arrays, probe)| Ids {
            ids,
            add,
            arrays: arrays
                .into_iter()
                // within the index space
                .map(|(i, l)| (i, l.min(u32::MAX - i)))
                .collect(),
            probe,
        })
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn id_laws(c: &Ids, stats: &mut Stats) -> Verdict {
    type I = Id<[u8; 3]>;
    for &x in &c.ids {
        let id = I::new(x);
        ensure!(
            id.inner() == x
                && id.index() == x as usize
                && u32::from(id) == x
                && I::from(x) == id
                && I::from(x as usize) == id,
            "id-conversion",
            "conversions of the id {x}"
        );
        ensure!(
            id.is_none() == (x == u32::MAX) && id.is_some() != id.is_none(),
            "id-none",
            "is_none of {x} is {}",
            id.is_none()
        );
        ensure!(
            (id == I::NONE) == (x == u32::MAX) && I::default() == I::NONE,
            "id-none-eq",
            "NONE of {x}"
        );
        ensure!(
            format!("{id:?}").contains("null") == (x == u32::MAX),
            "id-debug",
            "{x} prints as {id:?}"
        );
        let add = c.add.min(u32::MAX - x);
        ensure!(
            (id + add).inner() == x + add
                && (add + id).inner() == x + add
                && (id + add as usize).inner() == x + add
                && (add as usize + id).inner() == x + add,
            "id-add",
            "{x} + {add}"
        );
        for &y in &c.ids {
            let other = I::new(y);
            ensure!(
                (id == other) == (x == y)
                    && id.cmp(&other) == x.cmp(&y)
                    && id.partial_cmp(&other) == Some(x.cmp(&y))
                    && (id < other, id <= other, id > other, id >= other) == (x < y, x <= y, x > y, x >= y)
                    && id.max(other).inner() == x.max(y)
                    && id.min(other).inner() == x.min(y)
                    && (id != other) == (x != y),
                "id-order",
                "ids {x} and {y} compare differently than their values"
            );
            ensure!(
                x != y || h(&id) == h(&other),
                "id-hash",
                "equal ids {x} hash differently"
            );
        }
    }
    let set: HashSet<I> = c.ids.iter().map(|x| I::new(*x)).collect();
    let ordered: BTreeSet<I> = c.ids.iter().map(|x| I::new(*x)).collect();
    let want: BTreeSet<u32> = c.ids.iter().copied().collect();
    ensure!(
        set.len() == want.len() && ordered.iter().map(|i| i.inner()).eq(want.iter().copied()),
        "id-sets",
        "sets of ids {:?}",
        c.ids
    );
    // Arrays of words
    for &(i, l) in &c.arrays {
        let a = Array::<u32>::new(i, l);
        for p in [c.probe, i as usize, (i as usize + l as usize), (i as usize + l as usize).saturating_sub(1), (i as usize).saturating_sub(1)] {
            let want = p >= i as usize && p < i as usize + l as usize;
            ensure!(
                a.contains_index(p) == want,
                "contains-index",
                "an array of {l} words at {i} contains {p}: {}",
                a.contains_index(p)
            );
        }
        for &(j, m) in &c.arrays {
            let b = Array::<u32>::new(j, m);
            ensure!(
                (a == b) == (i == j && l == m),
                "array-eq",
                "equality of ({i}, {l}) and ({j}, {m})"
            );
            let mut u = a;
            u.union(&b);
            let start = i.min(j);
            let end = (i + l).max(j + m);
            ensure!(
                u.index == start && u.len == end - start,
                "union",
                "the union of ({i}, {l}) and ({j}, {m}) is ({}, {})",
                u.index,
                u.len
            );
        }
    }
    ensure!(
        Array::<u32>::default() == Array::NONE && Array::<u32>::NONE.is_null() && Array::<u32>::NONE.is_empty(),
        "array-none",
        "the default array is not null"
    );
    if c.ids.len() > 1 {
        stats.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Iteration {
    ty: String,
    index: u32,
    len: u32,
    ops: Vec<It>,
}

fn iteration() -> impl Strategy<Value = Iteration> {
    let names: Vec<String> = registry().iter().map(|t| t.name.to_string()).collect();
    let n = || prop_oneof![5 => 0usize..6, 1 => 0usize..60];
    let op = prop_oneof![
        6 => Just(It::Next),
        4 => n().prop_map(It::Nth),
        2 => n().prop_map(It::Take),
        2 => n().prop_map(It::Skip),
        2 => (1usize..7, n()).prop_map(|(a, b)| It::StepBy(a, b)),
        1 => (1u32..9).prop_map(It::Find),
        1 => (1u32..9).prop_map(It::Position),
        1 => prop::sample::select(vec![It::Count, It::Last, It::Collect, It::Fold, It::MinMax, It::Fuse, It::Peek]),
        2 => Just(It::SizeHint),
        1 => Just(It::Keep),
        1 => Just(It::Restore),
        1 => n().prop_map(It::Zip),
        1 => n().prop_map(It::Chain),
    ];
    (
        prop::sample::select(names),
        index(),
        prop_oneof![6 => 0u32..12, 1 => 0u32..60],
        prop::collection::vec(op, 1..12),
    )
        .prop_map(|(ty, index, len, ops)| {
            // within the 32-bit index space
            let room = (u32::MAX as u64 - index as u64) / (by_name(&ty).size as u64).max(1);
            Iteration { ty, index, len: if room == 0 { 0 } else { len.min(room as u32) }, ops }
        })
}

fn iterate(c: &Iteration, stats: &mut Stats) -> Verdict {
    let t = by_name(&c.ty);
    let got = (t.iterate)(c.index, c.len, &c.ops);
    let ids: Vec<u32> = (0..c.len).map(|i| c.index + i * t.size as u32).collect();
    let want = drive(ids.into_iter(), &c.ops, |i| i);
    for (i, (got, want)) in got.iter().zip(&want).enumerate() {
        ensure!(
            got == want,
            "iterator",
            "iterating an array of {} {} at {}, step {i} ({:?}) gives {got}, expected {want}",
            c.len,
            t.name,
            c.index,
            c.ops[i]
        );
    }
    if c.len > 1 && c.ops.len() > 1 {
        stats.nontrivial();
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C07",
        rule: "A case is an array of a type of the registry anywhere in the 32-bit index space with an element index (array), or several ids, an addend and several arrays of words (ids); everything the handles say is compared to 64-bit arithmetic; or a sequence of uses of an array's iterator (next, nth, skipping, stepping, cloning, size hints, ..) compared to the iterator of a vector of the expected ids (iteration). Non-trivial: a non-empty array not at index 0; two or more ids; two or more elements and steps.",
        assumptions: vec!["arrays and sums beyond the 32-bit index space are not generated"],
        families: families(1),
    }
}

/// A part of the usual number of cases.
pub fn families(part: u64) -> Vec<Box<dyn DynFamily>> {
    vec![
        Box::new(Family::new("array", 3_000_000 / part, 50_000_000 / part, arr, array)),
        Box::new(Family::new("ids", 1_500_000 / part, 20_000_000 / part, ids, id_laws)),
        Box::new(Family::new("iteration", 2_000_000 / part, 40_000_000 / part, iteration, iterate)),
    ]
}

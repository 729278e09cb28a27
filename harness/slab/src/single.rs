//! C01 to C05: reading and writing values.
use crate::ty::{by_name, registry, Kind, Ty, READ_APIS, WRITE_APIS};
use engine::{
    ensure,
    words::{noise, words},
    Check, Family, Failure, Stats, Verdict,
};
use items::{matches, Word};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn kind() -> impl Strategy<Value = Kind> + Clone {
    prop::sample::select(vec![Kind::Slice, Kind::Vec, Kind::Cpu])
}

pub fn ty_name() -> impl Strategy<Value = String> + Clone {
    let names: Vec<String> = registry().iter().map(|t| t.name.to_string()).collect();
    prop::sample::select(names)
}

/// Mostly small, sometimes large.
fn index() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![
        3 => Just(0usize),
        40 => 0usize..12,
        20 => 0usize..300,
        1 => 65_500usize..65_600,
        1 => prop::sample::select(vec![0xff_usize, 0x100, 0xffff, 0x1_0000, 0x1_0001, 131_072]),
    ]
}

fn count() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![
        40 => 0usize..6,
        20 => 0usize..40,
        1 => 250usize..300,
        1 => 1000usize..3000,
    ]
}

fn enc_eq(a: &[Word], b: &[Word]) -> bool {
    a == b
}

fn show(w: &[Word]) -> String {
    let v: Vec<String> = w
        .iter()
        .map(|w| w.map(|w| format!("{w:#x}")).unwrap_or("_".into()))
        .collect();
    format!("[{}]", v.join(", "))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    ty: String,
    words: Vec<u32>,
    index: usize,
    pad: usize,
    noise: u32,
    kind: Kind,
    write: u8,
    read: u8,
}

fn one() -> impl Strategy<Value = One> {
    (
        ty_name(),
        words(48),
        index(),
        prop_oneof![Just(0usize), 0usize..20],
        any::<u32>(),
        kind(),
        0..WRITE_APIS,
        0..READ_APIS,
    )
        .prop_map(|(ty, words, index, pad, noise, kind, write, read)| One {
            ty,
            words,
            index,
            pad,
            noise,
            kind,
            write,
            read,
        })
}

fn label_size(t: &Ty, stats: &mut Stats) {
    stats.label(match t.size {
        0 => "zero sized",
        1 => "one word",
        2..=8 => "2-8 words",
        _ => "9+ words",
    });
}

fn sizes_agree(t: &Ty) -> Verdict {
    ensure!(
        t.size == t.slab_size,
        "size",
        "{}: takes {} words, expected {}",
        t.name,
        t.slab_size,
        t.size
    );
    Ok(())
}

// C01
fn roundtrip(c: &One, stats: &mut Stats) -> Verdict {
    let t = by_name(&c.ty);
    label_size(t, stats);
    let expected = (t.build)(&c.words);
    let size = t.slab_size;
    let mut slab = noise(c.noise, c.index + size + c.pad);
    let after = (t.write)(&c.words, c.kind, &mut slab, c.index, c.write);
    if let Some(after) = after {
        ensure!(
            after == c.index + size,
            "next-index",
            "{}: writing at {} returned {after}, expected {}",
            t.name,
            c.index,
            c.index + size
        );
    }
    let got = (t.read)(c.kind, &mut slab, c.index, c.read);
    ensure!(
        enc_eq(&expected, &got),
        "roundtrip",
        "{}: wrote {} {} and read {}",
        t.name,
        (t.debug)(&c.words),
        show(&expected),
        show(&got)
    );
    if expected.iter().flatten().any(|w| *w != 0) {
        stats.nontrivial();
    }
    if c.index > 0xffff {
        stats.label("index beyond 16 bits");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    ty: String,
    words: Vec<u32>,
    index: usize,
    n: usize,
    pad: usize,
    kind: Kind,
    write: u8,
    read: u8,
}

fn far() -> impl Strategy<Value = Far> {
    (
        ty_name(),
        words(24),
        (16u32..28, -20i64..20, prop_oneof![Just(0usize), any::<u32>().prop_map(|u| u as usize)]),
        0usize..6,
        0usize..4,
        kind(),
        0..WRITE_APIS,
        0..READ_APIS,
    )
        .prop_map(|(ty, words, (bit, delta, more), n, pad, kind, write, read)| Far {
            ty,
            words,
            index: ((1i64 << bit) + delta) as usize + more % (1 << bit),
            n,
            pad,
            kind,
            write,
            read,
        })
}

// C01: slabs of up to 2^29 words. They are all zero and hardly touched, so this is cheap.
fn far_roundtrip(c: &Far, stats: &mut Stats) -> Verdict {
    let t = by_name(&c.ty);
    let total = t.slab_size * (c.n + 1);
    let mut slab = vec![0u32; c.index + total + c.pad];
    let edges = |slab: &mut Vec<u32>, v: u32| {
        let end = c.index + total;
        slab[c.index - 1] = v;
        if c.pad > 0 {
            slab[end] = v;
        }
    };
    edges(&mut slab, 0xabcd);
    let after = (t.write)(&c.words, c.kind, &mut slab, c.index, c.write);
    ensure!(
        after.unwrap_or(c.index + t.slab_size) == c.index + t.slab_size,
        "next-index",
        "{}: writing at {} returned {after:?}",
        t.name,
        c.index
    );
    let rest = c.index + t.slab_size;
    let after = (t.write_slice)(&c.words, c.n, c.kind, &mut slab, rest);
    ensure!(
        after == rest + c.n * t.slab_size,
        "next-index",
        "{}: writing {} items at {rest} returned {after}",
        t.name,
        c.n
    );
    let expected = (t.build)(&c.words);
    let got = (t.read)(c.kind, &mut slab, c.index, c.read);
    ensure!(
        enc_eq(&expected, &got),
        "roundtrip",
        "{}: at {} wrote {} and read {}",
        t.name,
        c.index,
        show(&expected),
        show(&got)
    );
    let expected = (t.build_many)(&c.words, c.n);
    let got = (t.read_vec)(c.kind, &mut slab, rest as u32, c.n as u32);
    ensure!(
        expected == got,
        "roundtrip",
        "{}: {} items at {rest} were written and differ when read",
        t.name,
        c.n
    );
    ensure!(
        slab[c.index - 1] == 0xabcd && (c.pad == 0 || slab[c.index + total] == 0xabcd),
        "clobber",
        "{}: a neighbour of {} was changed",
        t.name,
        c.index
    );
    ensure!(
        (t.contains)(c.kind, &mut slab, c.index as u32)
            && !(t.contains)(c.kind, &mut slab, u32::MAX),
        "contains",
        "{}: contains of {} in a slab of {} words",
        t.name,
        c.index,
        c.index + total + c.pad
    );
    stats.nontrivial();
    if c.index > 1 << 24 {
        stats.label("index beyond 24 bits");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    ty: String,
    words: Vec<u32>,
    n: usize,
    index: usize,
    pad: usize,
    noise: u32,
    kind: Kind,
    write: u8,
}

fn many() -> impl Strategy<Value = Many> {
    (
        ty_name(),
        words(64),
        count(),
        index(),
        0usize..12,
        any::<u32>(),
        kind(),
        0u8..2,
    )
        .prop_map(|(ty, words, n, index, pad, noise, kind, write)| Many {
            ty,
            words,
            n,
            index,
            pad,
            noise,
            kind,
            write,
        })
}

// C01
fn slice_roundtrip(c: &Many, stats: &mut Stats) -> Verdict {
    let t = by_name(&c.ty);
    label_size(t, stats);
    let expected = (t.build_many)(&c.words, c.n);
    let total = t.slab_size * c.n;
    let before = noise(c.noise, c.index + total + c.pad);
    let mut slab = before.clone();
    if c.write == 0 {
        let after = (t.write_slice)(&c.words, c.n, c.kind, &mut slab, c.index);
        ensure!(
            after == c.index + total,
            "next-index",
            "{}: writing {} items at {} returned {after}",
            t.name,
            c.n,
            c.index
        );
    } else {
        (t.write_array)(
            &c.words,
            c.n,
            c.kind,
            &mut slab,
            c.index as u32,
            c.n as u32,
        );
    }
    let got = (t.read_vec)(c.kind, &mut slab, c.index as u32, c.n as u32);
    ensure!(
        got.len() == c.n,
        "read-vec-len",
        "{}: read {} items out of {}",
        t.name,
        got.len(),
        c.n
    );
    for (i, (e, g)) in expected.iter().zip(&got).enumerate() {
        ensure!(
            enc_eq(e, g),
            "roundtrip",
            "{}: item {i}: wrote {} and read {}",
            t.name,
            show(e),
            show(g)
        );
    }
    ensure!(
        slab[..c.index] == before[..c.index] && slab[c.index + total..] == before[c.index + total..],
        "clobber",
        "{}: writing {} items at {} changed words outside of them",
        t.name,
        c.n,
        c.index
    );
    if c.n > 1 {
        stats.nontrivial();
    }
    if c.n > 255 {
        stats.label("more than 255 items");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Placement {
    ty: String,
    words: Vec<u32>,
    gap: usize,
    order: u32,
    write: u8,
    read: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Packed {
    items: Vec<Placement>,
    rewrites: Vec<(usize, Vec<u32>, u8)>,
    noise: u32,
    kind: Kind,
    tail: usize,
}

fn packed() -> impl Strategy<Value = Packed> {
    let placement = (
        ty_name(),
        words(24),
        prop_oneof![3 => Just(0usize), 1 => 0usize..6],
        any::<u32>(),
        0..WRITE_APIS,
        0..READ_APIS,
    )
        .prop_map(|(ty, words, gap, order, write, read)| Placement {
            ty,
            words,
            gap,
            order,
            write,
            read,
        });
    (
        prop::collection::vec(placement, 1..12),
        prop::collection::vec((0usize..12, words(16), 0..WRITE_APIS), 0..8),
        any::<u32>(),
        kind(),
        0usize..4,
    )
        .prop_map(|(items, rewrites, noise, kind, tail)| Packed {
            items,
            rewrites,
            noise,
            kind,
            tail,
        })
}

// C02: every word of the slab is known at all times
fn locality(c: &Packed, stats: &mut Stats) -> Verdict {
    let mut at = vec![];
    let mut end = 0;
    for p in &c.items {
        let t = by_name(&p.ty);
        end += p.gap;
        at.push(end);
        end += t.slab_size;
    }
    let mut slab = noise(c.noise, end + c.tail);
    let mut latest: Vec<Option<Vec<u32>>> = vec![None; c.items.len()];
    let mut order: Vec<usize> = (0..c.items.len()).collect();
    order.sort_by_key(|i| c.items[*i].order);
    let writes = order
        .iter()
        .map(|i| (*i, &c.items[*i].words, c.items[*i].write))
        .chain(
            c.rewrites
                .iter()
                .map(|(i, w, api)| (*i % c.items.len(), w, *api)),
        );
    let mut rewritten = false;
    for (i, w, api) in writes {
        let t = by_name(&c.items[i].ty);
        let before = slab.clone();
        (t.write)(w, c.kind, &mut slab, at[i], api);
        ensure!(
            slab.len() == before.len(),
            "resized",
            "{}: writing changed the length of the slab",
            t.name
        );
        for k in 0..slab.len() {
            if !(at[i]..at[i] + t.slab_size).contains(&k) {
                ensure!(
                    slab[k] == before[k],
                    "clobber",
                    "{}: writing {} words at {} changed word {k} from {:#x} to {:#x}",
                    t.name,
                    t.slab_size,
                    at[i],
                    before[k],
                    slab[k]
                );
            }
        }
        rewritten |= latest[i].is_some();
        latest[i] = Some(w.clone());
    }
    for (i, p) in c.items.iter().enumerate() {
        let t = by_name(&p.ty);
        let expected = (t.build)(latest[i].as_ref().unwrap());
        let got = (t.read)(c.kind, &mut slab, at[i], p.read);
        ensure!(
            enc_eq(&expected, &got),
            "neighbour",
            "{}: at {} wrote {} and read {} after other writes",
            t.name,
            at[i],
            show(&expected),
            show(&got)
        );
        // Reading only depends on the item's own words
        let mut other = noise(c.noise ^ 0x5555_5555, slab.len());
        other[at[i]..at[i] + t.slab_size].copy_from_slice(&slab[at[i]..at[i] + t.slab_size]);
        let again = (t.read)(c.kind, &mut other, at[i], p.read);
        ensure!(
            enc_eq(&got, &again),
            "read-depends-on-neighbours",
            "{}: at {} read {} and, with different neighbours, {}",
            t.name,
            at[i],
            show(&got),
            show(&again)
        );
        // ...and not on where they are
        let mut own = slab[at[i]..at[i] + t.slab_size].to_vec();
        let moved = (t.read)(c.kind, &mut own, 0, p.read);
        ensure!(
            enc_eq(&got, &moved),
            "read-depends-on-position",
            "{}: at {} read {} and at 0 {}",
            t.name,
            at[i],
            show(&got),
            show(&moved)
        );
    }
    if c.items.len() > 1 {
        stats.nontrivial();
    }
    if rewritten {
        stats.label("rewritten items");
    }
    if c.items.iter().any(|p| p.gap == 0) {
        stats.label("adjacent items");
    }
    Ok(())
}

// C03
fn layout(c: &One, stats: &mut Stats) -> Verdict {
    let t = by_name(&c.ty);
    label_size(t, stats);
    sizes_agree(t)?;
    let expected = (t.build)(&c.words);
    let mut slab = noise(c.noise, c.index + t.size + c.pad);
    (t.write)(&c.words, c.kind, &mut slab, c.index, c.write);
    let got = &slab[c.index..c.index + t.size];
    ensure!(
        matches(&expected, got),
        "layout",
        "{}: {} is {:x?} in the slab, expected {}",
        t.name,
        (t.debug)(&c.words),
        got,
        show(&expected)
    );
    // and read the other way: a value that was laid out by someone else
    let mut slab = noise(c.noise, c.index + t.size + c.pad);
    for (w, e) in slab[c.index..].iter_mut().zip(&expected) {
        if let Some(e) = e {
            *w = *e;
        }
    }
    let got = (t.read)(c.kind, &mut slab, c.index, c.read);
    ensure!(
        enc_eq(&expected, &got),
        "layout-read",
        "{}: read {} from the reference layout {}",
        t.name,
        show(&got),
        show(&expected)
    );
    if t.size > 1 && expected.iter().flatten().any(|w| *w != 0) {
        stats.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
    ty: String,
    words: Vec<u32>,
    index: usize,
    kind: Kind,
    read: u8,
    write: u8,
    noise: u32,
}

fn raw() -> impl Strategy<Value = Raw> {
    (
        ty_name(),
        words(48),
        0usize..8,
        kind(),
        0..READ_APIS,
        0..WRITE_APIS,
        any::<u32>(),
    )
        .prop_map(|(ty, words, index, kind, read, write, noise)| Raw {
            ty,
            words,
            index,
            kind,
            read,
            write,
            noise,
        })
}

// C04
fn decode(c: &Raw, stats: &mut Stats) -> Verdict {
    let t = by_name(&c.ty);
    label_size(t, stats);
    let mut src = engine::words::Src::new(&c.words);
    let mut slab: Vec<u32> = (0..c.index + t.slab_size + 3).map(|_| src.next()).collect();
    if c.words.len() < 4 {
        // short generated streams: noise in the payload, the generated words first
        let n = noise(c.noise, slab.len());
        for i in c.index + c.words.len()..slab.len() {
            slab[i] = n[i];
        }
    }
    let before = slab.clone();
    let expected = (t.dec)(&slab[c.index..c.index + t.slab_size]);
    let got = (t.read)(c.kind, &mut slab, c.index, c.read);
    ensure!(
        slab == before,
        "read-writes",
        "{}: reading changed the slab",
        t.name
    );
    ensure!(
        enc_eq(&expected, &got),
        "decode",
        "{}: words {:x?} read as {}, expected {}",
        t.name,
        &slab[c.index..c.index + t.slab_size],
        show(&got),
        show(&expected)
    );
    // What was read is a value like any other: it survives being written and read again.
    let canonical = reencode(t, c, &mut slab)?;
    ensure!(
        enc_eq(&canonical, &got),
        "canonical",
        "{}: words {:x?} read as {}, and after writing that, as {}",
        t.name,
        &before[c.index..c.index + t.slab_size],
        show(&got),
        show(&canonical)
    );
    let mut to = noise(c.noise ^ 2, t.slab_size + 4);
    let next = (t.copy)(&before, c.index, &mut to, 2);
    ensure!(
        next == 2 + t.slab_size && matches(&got, &to[2..2 + t.slab_size]),
        "canonical-copy",
        "{}: words {:x?} read as {}, and copying that wrote {:x?}",
        t.name,
        &before[c.index..c.index + t.slab_size],
        show(&got),
        &to[2..2 + t.slab_size]
    );
    let own = &before[c.index..c.index + t.slab_size];
    if !matches(&got, own) {
        stats.nontrivial();
        stats.label("words no value encodes to");
    } else if own.iter().any(|w| *w != 0) {
        stats.nontrivial();
        stats.label("words a value encodes to");
    }
    Ok(())
}

fn reencode(t: &Ty, c: &Raw, slab: &mut Vec<u32>) -> Result<Vec<Word>, Failure> {
    let e = (t.read)(c.kind, slab, c.index, c.read);
    let mut fresh = noise(c.noise ^ 1, slab.len());
    for (w, e) in fresh[c.index..].iter_mut().zip(&e) {
        if let Some(e) = e {
            *w = *e;
        }
    }
    Ok((t.read)(c.kind, &mut fresh, c.index, c.read))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bounds {
    ty: String,
    words: Vec<u32>,
    len: usize,
    /// index relative to the last index that fits
    delta: i64,
    absolute: Option<u64>,
    n: usize,
    array_len: u32,
    noise: u32,
    kind: Kind,
}

fn bounds() -> impl Strategy<Value = Bounds> {
    (
        ty_name(),
        words(24),
        prop_oneof![0usize..4, 0usize..70, 0usize..70, 500usize..530],
        prop_oneof![-3i64..4, -40i64..40],
        prop_oneof![
            6 => Just(None),
            1 => prop::sample::select(vec![
                u32::MAX as u64, u32::MAX as u64 - 1, 0x8000_0000, 0x7fff_ffff, 0xffff_0000, 1 << 32, (1 << 32) + 1,
                u64::MAX, u64::MAX - 1, u64::MAX - 3, 1 << 63, (1 << 62) + 5,
            ])
            .prop_map(Some),
        ],
        0usize..7,
        0u32..7,
        any::<u32>(),
        kind(),
    )
        .prop_map(
            |(ty, words, len, delta, absolute, n, array_len, noise, kind)| Bounds {
                ty,
                words,
                len,
                delta,
                absolute,
                n,
                array_len,
                noise,
                kind,
            },
        )
}

// C05
fn bounds_safety(c: &Bounds, stats: &mut Stats) -> Verdict {
    let t = by_name(&c.ty);
    let size = t.slab_size as u128;
    let index: u64 = c
        .absolute
        .unwrap_or_else(|| (c.len as i64 - t.slab_size as i64 + c.delta).max(0) as u64);
    let before = noise(c.noise, c.len);
    let fits = |n: u128| index as u128 + size * n <= c.len as u128;
    let mut slab = before.clone();
    let ok = fits(1);
    stats.label(if ok { "fits" } else { "does not fit" });
    let is_slice_of = |got: &[u32], encs: &[Vec<Word>]| -> bool {
        let i = index as usize;
        let all: Vec<Word> = encs.iter().flatten().copied().collect();
        got[..i] == before[..i]
            && matches(&all, &got[i..i + all.len()])
            && got[i + all.len()..] == before[i + all.len()..]
    };

    if index <= u32::MAX as u64 {
        let id = index as u32;
        let contains = (t.contains)(c.kind, &mut slab, id);
        ensure!(
            contains == ok,
            "contains",
            "{}: contains({id}) of a slab of {} words is {contains}",
            t.name,
            c.len
        );
        let got = (t.read_or_default)(c.kind, &mut slab, id);
        let want = if ok {
            let i = id as usize;
            (t.dec)(&before[i..i + t.slab_size])
        } else {
            (t.default)()
        };
        ensure!(
            enc_eq(&want, &got),
            "read-bounds",
            "{}: read({id}) of a slab of {} words gives {}, expected {}",
            t.name,
            c.len,
            show(&got),
            show(&want)
        );
        // read_into_if_some leaves the value alone if there's nothing to read
        if id == u32::MAX {
            let got = (t.read_into)(&c.words, c.kind, &mut slab, id);
            ensure!(
                enc_eq(&got, &(t.build)(&c.words)),
                "read-into-none",
                "{}: reading nothing gave {}",
                t.name,
                show(&got)
            );
        }
        // arrays: elementwise
        if id as u64 + (size as u64) * c.array_len as u64 <= u32::MAX as u64 {
            let got = (t.read_vec)(c.kind, &mut slab, id, c.array_len);
            ensure!(
                got.len() == c.array_len as usize,
                "read-vec-len",
                "{}: read {} of {} items",
                t.name,
                got.len(),
                c.array_len
            );
            for (k, g) in got.iter().enumerate() {
                let at = id as u128 + size * k as u128;
                let want = if at + size <= c.len as u128 {
                    (t.dec)(&before[at as usize..at as usize + t.slab_size])
                } else {
                    stats.label("array partly out of bounds");
                    (t.default)()
                };
                ensure!(
                    enc_eq(&want, g),
                    "read-vec",
                    "{}: item {k} of the array at {id} is {}, expected {}",
                    t.name,
                    show(g),
                    show(&want)
                );
            }
            ensure!(slab == before, "read-writes", "reading changed the slab");
            // write_array
            let mut slab = before.clone();
            (t.write_array)(&c.words, c.n, c.kind, &mut slab, id, c.array_len);
            let writes = c.array_len as usize <= c.n && fits(c.array_len as u128);
            if writes && c.array_len > 0 {
                let encs = (t.build_many)(&c.words, c.n);
                ensure!(
                    is_slice_of(&slab, &encs[..c.array_len as usize]),
                    "write-array",
                    "{}: writing {} items into an array of {} at {id} of {} words",
                    t.name,
                    c.n,
                    c.array_len,
                    c.len
                );
                stats.label("array written");
            } else {
                ensure!(
                    slab == before,
                    "write-array-noop",
                    "{}: writing {} items into an array of {} at {id} of {} words changed the slab",
                    t.name,
                    c.n,
                    c.array_len,
                    c.len
                );
                stats.label("array not written");
            }
        }
        let mut slab = before.clone();
        (t.write)(&c.words, c.kind, &mut slab, id as usize, 1);
        let good = if ok {
            is_slice_of(&slab, &[(t.build)(&c.words)])
        } else {
            slab == before
        };
        ensure!(
            good,
            "write-bounds",
            "{}: write({id}) into a slab of {} words",
            t.name,
            c.len
        );
    }

    let mut slab = before.clone();
    let i = index as usize;
    let next = (t.write)(&c.words, c.kind, &mut slab, i, 0).unwrap();
    if ok {
        ensure!(
            next == i + t.slab_size && is_slice_of(&slab, &[(t.build)(&c.words)]),
            "write-indexed",
            "{}: write at {i} of {} words returned {next}",
            t.name,
            c.len
        );
    } else {
        ensure!(
            next == i && slab == before,
            "write-indexed-noop",
            "{}: write at {i} of {} words returned {next}, changed: {}",
            t.name,
            c.len,
            slab != before
        );
    }
    let mut slab = before.clone();
    let next = (t.write_slice)(&c.words, c.n, c.kind, &mut slab, i);
    if fits(c.n as u128) {
        ensure!(
            next == i + t.slab_size * c.n && is_slice_of(&slab, &(t.build_many)(&c.words, c.n)),
            "write-slice",
            "{}: write of {} items at {i} of {} words returned {next}",
            t.name,
            c.n,
            c.len
        );
    } else {
        ensure!(
            next == i && slab == before,
            "write-slice-noop",
            "{}: write of {} items at {i} of {} words returned {next}, changed: {}",
            t.name,
            c.n,
            c.len,
            slab != before
        );
        stats.label("slice does not fit");
    }
    if c.delta.abs() <= 3 || c.absolute.is_some() {
        stats.nontrivial();
    }
    Ok(())
}

/// Types whose own write is tested against a slab that is too small.
const DIRECT: &[&str] = &[
    "u32",
    "u64",
    "f32",
    "bool",
    "Vec2",
    "Vec3",
    "Mat4",
    "Light",
    "(Vec2, u32)",
    "PhantomData<u32>",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Direct {
    ty: String,
    words: Vec<u32>,
    len: usize,
    delta: usize,
    noise: u32,
}

fn direct() -> impl Strategy<Value = Direct> {
    (
        prop::sample::select(DIRECT.iter().map(|s| s.to_string()).collect::<Vec<_>>()),
        words(16),
        0usize..24,
        0usize..20,
        any::<u32>(),
    )
        .prop_map(|(ty, words, len, delta, noise)| Direct {
            ty,
            words,
            len,
            delta,
            noise,
        })
}

// C05: writing a value directly, without going through a slab
fn direct_write(c: &Direct, stats: &mut Stats) -> Verdict {
    let t = by_name(&c.ty);
    // the first index that does not fit, or somewhat later
    let index = (c.len + 1).saturating_sub(t.slab_size) + c.delta;
    let fits = index + t.slab_size <= c.len;
    let before = noise(c.noise, c.len);
    let mut slab = before.clone();
    stats.label(if fits { "fits" } else { "does not fit" });
    if !fits {
        stats.nontrivial();
    }
    let r = engine::catch(|| {
        let mut s = before.clone();
        let r = (t.write_direct)(&c.words, &mut s, index);
        (r, s)
    });
    match r {
        Err(m) => Err(Failure::new(
            format!("direct-write-panics:{}", t.name),
            format!("{}: write at {index} of {} words: {m}", t.name, c.len),
        )),
        Ok((next, s)) => {
            slab.copy_from_slice(&s);
            if fits {
                ensure!(
                    next == index + t.slab_size,
                    "direct-write",
                    "{}: write at {index} of {} words returned {next}",
                    t.name,
                    c.len
                );
            } else {
                ensure!(
                    next == index,
                    format!("direct-write-index:{}", t.name),
                    "{}: write at {index} of {} words, where it does not fit, returned {next}",
                    t.name,
                    c.len
                );
            }
            Ok(())
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "A case is a type of the registry (123 types: primitives, math types, handles, options, arrays, tuples to 13 elements, derived structs and enums), a stream of words it is built from (biased to bit patterns such as NaN payloads and sign bits), an index, surrounding noise, a kind of slab and the reading and writing API. Non-trivial: the value has a non-zero word (single), or there are two or more items (slices).",
            assumptions: vec!["f32 and f64 moves keep NaN payloads on the host (x86_64)"],
            families: vec![
                Box::new(Family::new("roundtrip", 3_000_000, 60_000_000, one, roundtrip)),
                Box::new(Family::new("far", 40_000, 1_000_000, far, far_roundtrip)),
                Box::new(Family::new("slice-roundtrip", 500_000, 8_000_000, many, slice_roundtrip)),
            ],
        },
        Check {
            id: "C02",
            rule: "A case places 1 to 11 items of random types in one slab of noise, adjacent or with gaps, writes them in random order and rewrites some of them; every word outside the written item is compared after every write, and every item is read back, with its neighbours replaced, and from another position. Non-trivial: two or more items.",
            assumptions: vec![],
            families: vec![Box::new(Family::new("locality", 1_000_000, 15_000_000, packed, locality))],
        },
        Check {
            id: "C03",
            rule: "A case is a type of the registry and a value of it; its words in the slab are compared to a reference encoder written independently of the code, and a value laid out by the reference encoder is read back. Non-trivial: more than one word, one of them not zero.",
            assumptions: vec!["words of an option or enum that hold no field are not specified"],
            families: vec![Box::new(Family::new("layout", 3_000_000, 60_000_000, one, layout))],
        },
        Check {
            id: "C04",
            rule: "A case is a type of the registry and arbitrary words that are read as that type; the result is compared to a reference decoder, and read again after being re-encoded. Non-trivial: the words are not all zero, or are not what any value encodes to.",
            assumptions: vec![],
            families: vec![Box::new(Family::new("decode", 3_000_000, 60_000_000, raw, decode))],
        },
        Check {
            id: "C05",
            rule: "A case is a type, a slab length and an index around the last index that fits (or a huge one); containment, reads, array reads and all writes are compared to arithmetic on the model, with every word of the slab. Non-trivial: the index is within 3 of the last one that fits, or huge; direct writes: the value does not fit.",
            assumptions: vec!["arrays whose last word would be beyond the 32-bit index space are not generated"],
            families: vec![
                Box::new(Family::new("bounds", 3_000_000, 50_000_000, bounds, bounds_safety)),
                Box::new(Family::new("direct", 100_000, 1_000_000, direct, direct_write)),
            ],
        },
    ]
}

/// The same, of a slab that is compiled as for a GPU.
#[cfg(feature = "gpu")]
pub fn gpu_check() -> Check {
    Check {
        id: "C25",
        rule: "Cases, oracles and rules of C01 to C05 and C07 (on slices, the only slabs there), and of C08 and C09 with programs that have no standard library, of crabslab compiled as for a GPU, where an unchecked access out of bounds ends the case. Non-trivial: as there.",
        assumptions: vec![
            "the GPU is simulated: the sources are compiled for the host with target_arch = \"spirv\", and unchecked indexing is checked",
            "usize has 64 bits, not 32",
        ],
        families: vec![
            Box::new(Family::new("roundtrip", 1_500_000, 30_000_000, one, roundtrip)),
            Box::new(Family::new("slice-roundtrip", 300_000, 5_000_000, many, slice_roundtrip)),
            Box::new(Family::new("locality", 500_000, 8_000_000, packed, locality)),
            Box::new(Family::new("layout", 1_000_000, 20_000_000, one, layout)),
            Box::new(Family::new("decode", 1_500_000, 30_000_000, raw, decode)),
            Box::new(Family::new("bounds", 2_000_000, 30_000_000, bounds, bounds_safety)),
        ],
    }
}

/// The same, without the default features.
#[cfg(feature = "plain")]
pub fn plain_check() -> Check {
    Check {
        id: "C28",
        rule: "Cases, oracles and rules of C01 to C07 of crabslab without its default features, with math types that are derived in place of glam's, and of C10 to C16, C22 and C23 of craballoc without its default features. Non-trivial: as there.",
        assumptions: vec!["with the default features, the same is covered by C01 to C27"],
        families: vec![
            Box::new(Family::new("roundtrip", 600_000, 20_000_000, one, roundtrip)),
            Box::new(Family::new("slice-roundtrip", 100_000, 2_000_000, many, slice_roundtrip)),
            Box::new(Family::new("locality", 200_000, 5_000_000, packed, locality)),
            Box::new(Family::new("layout", 600_000, 20_000_000, one, layout)),
            Box::new(Family::new("decode", 600_000, 20_000_000, raw, decode)),
            Box::new(Family::new("bounds", 600_000, 20_000_000, bounds, bounds_safety)),
        ],
    }
}

//! C06: histories of slabs that grow, against a model.
use crabslab::{Array, CpuSlab, GrowableSlab, Id, Slab, SlabItem};
use engine::{DynFamily, 
    ensure,
    words::{words, Src},
    Check, Family, Stats, Verdict,
};
use items::{Item, Word};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A user-provided growable slab, which grows only when told to and refuses to be overrun.
pub struct Fixed {
    words: Vec<u32>,
    capacity: usize,
    reserves: usize,
}

impl Slab for Fixed {
    fn len(&self) -> usize {
        self.words.len()
    }
    fn read_unchecked<T: SlabItem>(&self, id: Id<T>) -> T {
        self.words.as_slice().read_unchecked(id)
    }
    fn write_indexed<T: SlabItem>(&mut self, t: &T, index: usize) -> usize {
        self.words.as_mut_slice().write_indexed(t, index)
    }
    fn write_indexed_slice<T: SlabItem>(&mut self, t: &[T], index: usize) -> usize {
        self.words.as_mut_slice().write_indexed_slice(t, index)
    }
}

impl GrowableSlab for Fixed {
    fn capacity(&self) -> usize {
        self.capacity
    }
    fn reserve_capacity(&mut self, capacity: usize) {
        self.reserves += 1;
        self.capacity = self.capacity.max(capacity);
    }
    fn increment_len(&mut self, n: usize) -> usize {
        let at = self.words.len();
        assert!(
            at + n <= self.capacity,
            "the slab was asked to hold {} words with a capacity of {}",
            at + n,
            self.capacity
        );
        self.words.resize(at + n, 0);
        at
    }
}

pub enum G {
    Vec(Vec<u32>),
    Cpu(CpuSlab<Vec<u32>>),
    Fixed(Fixed),
    CpuFixed(CpuSlab<Fixed>),
    CpuCpu(CpuSlab<CpuSlab<Vec<u32>>>),
}

impl G {
    fn new(kind: u8, initial: usize) -> Self {
        let v = vec![7u32; initial];
        let fixed = Fixed {
            words: v.clone(),
            capacity: initial,
            reserves: 0,
        };
        match kind {
            0 => G::Vec(v),
            1 => G::Cpu(CpuSlab::new(v)),
            2 => G::Fixed(fixed),
            3 => G::CpuFixed(CpuSlab::new(fixed)),
            _ => G::CpuCpu(CpuSlab::new(CpuSlab::new(v))),
        }
    }
    fn raw(&self) -> &[u32] {
        match self {
            G::Vec(v) => v,
            G::Cpu(c) => c.as_ref(),
            G::Fixed(f) => &f.words,
            G::CpuFixed(c) => &c.as_ref().words,
            G::CpuCpu(c) => c.as_ref().as_ref(),
        }
    }
    fn raw_mut(&mut self) -> &mut [u32] {
        match self {
            G::Vec(v) => v,
            G::Cpu(c) => c.as_mut(),
            G::Fixed(f) => &mut f.words,
            G::CpuFixed(c) => &mut c.as_mut().words,
            G::CpuCpu(c) => c.as_mut().as_mut(),
        }
    }
    fn into_raw(self) -> Vec<u32> {
        match self {
            G::Vec(v) => v,
            G::Cpu(c) => c.into_inner(),
            G::Fixed(f) => f.words,
            G::CpuFixed(c) => c.into_inner().words,
            G::CpuCpu(c) => c.into_inner().into_inner(),
        }
    }
}

macro_rules! on {
    ($g:expr, |$s:ident| $body:expr) => {
        match $g {
            G::Vec($s) => $body,
            G::Cpu($s) => $body,
            G::Fixed($s) => $body,
            G::CpuFixed($s) => $body,
            G::CpuCpu($s) => $body,
        }
    };
}

#[derive(Clone, Copy)]
struct GTy {
    name: &'static str,
    size: usize,
    values: fn(&[u32], usize) -> Vec<Vec<Word>>,
    allocate: fn(&mut G) -> u32,
    allocate_array: fn(&mut G, usize) -> (u32, u32),
    append: fn(&mut G, &[u32]) -> u32,
    append_array: fn(&mut G, &[u32], usize) -> (u32, u32),
    write: fn(&mut G, u32, &[u32]),
    write_array: fn(&mut G, u32, u32, &[u32]),
    read: fn(&mut G, u32) -> Vec<Word>,
    read_vec: fn(&mut G, u32, u32) -> Vec<Vec<Word>>,
    expand: fn(&mut G, usize),
}

fn many<T: Item>(w: &[u32], n: usize) -> Vec<T> {
    let mut s = Src::new(w);
    (0..n).map(|_| T::build(&mut s)).collect()
}

fn gty<T: Item + Default>(name: &'static str) -> GTy {
    GTy {
        name,
        size: T::size(),
        values: |w, n| many::<T>(w, n).iter().map(|t| t.words()).collect(),
        allocate: |g| on!(g, |s| s.allocate::<T>().inner()),
        allocate_array: |g, n| {
            let a = on!(g, |s| s.allocate_array::<T>(n));
            (a.index, a.len)
        },
        // `Vec` has an `append` of its own
        append: |g, w| on!(g, |s| GrowableSlab::append(s, &many::<T>(w, 1)[0]).inner()),
        append_array: |g, w, n| {
            let a = on!(g, |s| s.append_array(&many::<T>(w, n)));
            (a.index, a.len)
        },
        write: |g, i, w| on!(g, |s| s.write(Id::new(i), &many::<T>(w, 1)[0])),
        write_array: |g, i, n, w| {
            on!(g, |s| s
                .write_array(Array::new(i, n), &many::<T>(w, n as usize)))
        },
        read: |g, i| on!(g, |s| s.read(Id::<T>::new(i)).words()),
        read_vec: |g, i, n| {
            on!(g, |s| s.read_vec(Array::<T>::new(i, n)))
                .iter()
                .map(|t| t.words())
                .collect()
        },
        expand: |g, n| on!(g, |s| s.maybe_expand_to_fit::<T>(n)),
    }
}

fn registry() -> &'static [GTy] {
    static REG: std::sync::OnceLock<Vec<GTy>> = std::sync::OnceLock::new();
    REG.get_or_init(|| {
        use glam::*;
        use items::*;
        macro_rules! reg { ($($t:ty),*) => { vec![$(gty::<$t>(stringify!($t))),*] } }
        reg!(
            u32, u8, u64, i128, Vec2, Vec3, Mat4, Option<u64>, [u32; 5], (u8, u64), (Vec2, Option<u16>),
            Shape, Deep, Light, Many, Holes, Zst, Empty, std::marker::PhantomData<u8>, [Mat4; 3],
            Id<Mat4>, Array<u8>
        )
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Allocate(u8),
    AllocateArray(u8, usize),
    Append(u8, Vec<u32>),
    AppendArray(u8, usize, Vec<u32>),
    Write(u16, Vec<u32>),
    Reserve(usize),
    Increment(usize),
    Expand(u8, usize),
    ReadAll,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    kind: u8,
    initial: usize,
    ops: Vec<Op>,
}

fn len() -> impl Strategy<Value = usize> + Clone {
    prop_oneof![30 => 0usize..6, 6 => 0usize..50, 1 => 900usize..5000]
}

fn op() -> impl Strategy<Value = Op> + Clone {
    let t = || 0..registry().len() as u8;
    prop_oneof![
        3 => t().prop_map(Op::Allocate),
        3 => (t(), len()).prop_map(|(t, n)| Op::AllocateArray(t, n)),
        6 => (t(), words(16)).prop_map(|(t, w)| Op::Append(t, w)),
        5 => (t(), len(), words(24)).prop_map(|(t, n, w)| Op::AppendArray(t, n, w)),
        5 => (any::<u16>(), words(24)).prop_map(|(i, w)| Op::Write(i, w)),
        1 => prop_oneof![0usize..20, 0usize..5000].prop_map(Op::Reserve),
        1 => (0usize..10).prop_map(Op::Increment),
        1 => (t(), len()).prop_map(|(t, n)| Op::Expand(t, n)),
        1 => Just(Op::ReadAll),
    ]
}

fn history() -> impl Strategy<Value = History> {
    (
        0u8..5,
        prop_oneof![3 => Just(0usize), 1 => 0usize..10],
        prop::collection::vec(op(), 1..30),
    )
        .prop_map(|(kind, initial, ops)| History { kind, initial, ops })
}

struct Region {
    ty: &'static GTy,
    at: u32,
    n: u32,
    single: bool,
    values: Option<Vec<Vec<Word>>>,
}

fn run(h: &History, stats: &mut Stats) -> Verdict {
    let reg = registry();
    let mut g = G::new(h.kind, h.initial);
    let mut model: Vec<Word> = vec![Some(7); h.initial];
    let mut regions: Vec<Region> = vec![];
    let mut capacity = on!(&g, |s| s.capacity());
    for (step, op) in h.ops.iter().enumerate() {
        let old_len = model.len();
        // what the operation returned, and what it allocated
        let mut allocated: Option<(&'static GTy, u32, u32, bool, Option<Vec<Vec<Word>>>)> = None;
        let mut wanted_capacity = 0;
        match op {
            Op::Allocate(t) => {
                let t = &reg[*t as usize % reg.len()];
                allocated = Some((t, (t.allocate)(&mut g), 1, true, None));
            }
            Op::AllocateArray(t, n) => {
                let t = &reg[*t as usize % reg.len()];
                let (i, l) = (t.allocate_array)(&mut g, *n);
                ensure!(
                    l as usize == *n,
                    "array-len",
                    "step {step}: allocated an array of {n} {} and got {l}",
                    t.name
                );
                allocated = Some((t, i, l, false, None));
            }
            Op::Append(t, w) => {
                let t = &reg[*t as usize % reg.len()];
                let i = (t.append)(&mut g, w);
                allocated = Some((t, i, 1, true, Some((t.values)(w, 1))));
            }
            Op::AppendArray(t, n, w) => {
                let t = &reg[*t as usize % reg.len()];
                let (i, l) = (t.append_array)(&mut g, w, *n);
                ensure!(
                    l as usize == *n,
                    "array-len",
                    "step {step}: appended {n} {} and got an array of {l}",
                    t.name
                );
                allocated = Some((t, i, l, false, Some((t.values)(w, *n))));
            }
            Op::Write(i, w) => {
                if !regions.is_empty() {
                    let k = *i as usize % regions.len();
                    let r = &mut regions[k];
                    if r.n == 0 {
                        continue;
                    }
                    if r.single {
                        (r.ty.write)(&mut g, r.at, w);
                    } else {
                        (r.ty.write_array)(&mut g, r.at, r.n, w);
                    }
                    let vals = (r.ty.values)(w, r.n as usize);
                    set(&mut model, r.at as usize, &vals);
                    r.values = Some(vals);
                    stats.label("write to an earlier allocation");
                }
            }
            Op::Reserve(n) => {
                on!(&mut g, |s| s.reserve_capacity(*n));
                wanted_capacity = *n;
            }
            Op::Increment(n) => {
                if let G::Fixed(_) | G::CpuFixed(_) = g {
                    on!(&mut g, |s| s.maybe_expand_to_fit::<u32>(*n));
                }
                let at = on!(&mut g, |s| s.increment_len(*n));
                ensure!(
                    at == old_len,
                    "increment",
                    "step {step}: incrementing a length of {old_len} returned {at}"
                );
                model.extend(std::iter::repeat_n(Some(0), *n));
            }
            Op::Expand(t, n) => {
                let t = &reg[*t as usize % reg.len()];
                (t.expand)(&mut g, *n);
                wanted_capacity = old_len + t.size * n;
            }
            Op::ReadAll => {
                for r in &regions {
                    if let Some(vals) = &r.values {
                        check_read(&mut g, r, vals, step)?;
                    }
                }
            }
        }
        if let Some((t, at, n, single, values)) = allocated {
            if n == 0 {
                ensure!(
                    at == u32::MAX,
                    "empty-array",
                    "step {step}: an empty array is at {at}, expected null"
                );
            } else {
                ensure!(
                    at as usize == old_len,
                    "fresh",
                    "step {step}: {n} {} were allocated at {at} in a slab of {old_len} words",
                    t.name
                );
                model.extend(std::iter::repeat_n(Some(0), t.size * n as usize));
                if let Some(v) = &values {
                    set(&mut model, old_len, v);
                }
            }
            regions.push(Region {
                ty: t,
                at,
                n,
                single,
                values,
            });
        }
        let len = on!(&g, |s| Slab::len(s));
        ensure!(
            len == model.len() && len == g.raw().len(),
            "len",
            "step {step} {op:?}: the slab has {len} words, expected {}",
            model.len()
        );
        ensure!(
            on!(&g, |s| Slab::is_empty(s)) == model.is_empty(),
            "is-empty",
            "step {step}: is_empty is wrong at {len} words"
        );
        let cap = on!(&g, |s| GrowableSlab::capacity(s));
        ensure!(
            cap >= len && cap >= capacity && cap >= wanted_capacity,
            "capacity",
            "step {step} {op:?}: capacity went from {capacity} to {cap}, with {len} words and {wanted_capacity} wanted"
        );
        if cap > capacity {
            stats.label("grew");
        }
        capacity = cap;
        // The whole slab, at every step
        let raw = g.raw();
        if let Some(k) = (0..raw.len()).find(|k| model[*k].map(|m| m != raw[*k]).unwrap_or(false)) {
            return Err(engine::Failure::new(
                "contents",
                format!(
                    "step {step} {op:?}: word {k} is {:#x}, expected {:#x}",
                    raw[k],
                    model[k].unwrap()
                ),
            ));
        }
    }
    for r in &regions {
        if let Some(vals) = &r.values {
            check_read(&mut g, r, vals, h.ops.len())?;
        }
    }
    if regions.iter().filter(|r| r.values.is_some()).count() > 1 {
        stats.nontrivial();
    }
    if model.len() > 1000 {
        stats.label("more than 1000 words");
    }
    // The wrapper gives access to the very words
    let copy = g.raw().to_vec();
    if let Some(w) = g.raw_mut().first_mut() {
        *w = !*w;
        let first = on!(&mut g, |s| s.read(Id::<u32>::new(0)));
        ensure!(first == !copy[0], "as-mut", "as_mut is not the slab");
        g.raw_mut()[0] = copy[0];
    }
    ensure!(
        g.into_raw() == copy,
        "into-inner",
        "into_inner is not the slab"
    );
    Ok(())
}

fn set(model: &mut [Word], at: usize, vals: &[Vec<Word>]) {
    for (k, w) in vals.iter().flatten().enumerate() {
        model[at + k] = *w;
    }
}

fn check_read(g: &mut G, r: &Region, vals: &[Vec<Word>], step: usize) -> Verdict {
    if r.single {
        let got = (r.ty.read)(g, r.at);
        ensure!(
            got == vals[0],
            "read",
            "step {step}: {} at {} is {got:x?}, expected {:x?}",
            r.ty.name,
            r.at,
            vals[0]
        );
    } else {
        let got = (r.ty.read_vec)(g, r.at, r.n);
        ensure!(
            got == vals,
            "read-vec",
            "step {step}: array of {} {} at {} differs from what was written",
            r.n,
            r.ty.name,
            r.at
        );
    }
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C06",
        rule: "A case is a history of 1 to 29 operations (allocate, allocate array, append, append array, write to an earlier allocation, reserve, increment the length, expand, read everything) with values of 22 types on a Vec<u32>, a CpuSlab of it, a nested CpuSlab, or a user-provided growable slab that refuses to be overrun, against a model holding every word. Non-trivial: two or more regions with values.",
        assumptions: vec!["the user-provided slab grows exactly to the capacity it is asked for"],
        families: vec![family(1)],
    }
}

pub fn family(part: u64) -> Box<dyn DynFamily> {
    Box::new(Family::new("growable", 500_000 / part, 8_000_000 / part, history, run))
}

//! Type-erased access to the code under test, for every type in the registry.
#[cfg(not(feature = "gpu"))]
use crabslab::CpuSlab;
use crabslab::{Array, Id, Slab};
use engine::words::Src;
use items::{Item, Word};

#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    Slice,
    Vec,
    Cpu,
}

pub const WRITE_APIS: u8 = 5;
pub const READ_APIS: u8 = 5;

/// One type of the registry.
#[derive(Clone, Copy)]
pub struct Ty {
    pub name: &'static str,
    /// reference size
    pub size: usize,
    /// size according to the code
    pub slab_size: usize,
    pub build: fn(&[u32]) -> Vec<Word>,
    pub default: fn() -> Vec<Word>,
    pub dec: fn(&[u32]) -> Vec<Word>,
    pub debug: fn(&[u32]) -> String,
    pub write: fn(&[u32], Kind, &mut Vec<u32>, usize, u8) -> Option<usize>,
    pub write_direct: fn(&[u32], &mut [u32], usize) -> usize,
    pub read: fn(Kind, &mut Vec<u32>, usize, u8) -> Vec<Word>,
    pub read_or_default: fn(Kind, &mut Vec<u32>, u32) -> Vec<Word>,
    pub contains: fn(Kind, &mut Vec<u32>, u32) -> bool,
    pub build_many: fn(&[u32], usize) -> Vec<Vec<Word>>,
    pub write_slice: fn(&[u32], usize, Kind, &mut Vec<u32>, usize) -> usize,
    pub write_array: fn(&[u32], usize, Kind, &mut Vec<u32>, u32, u32),
    pub read_vec: fn(Kind, &mut Vec<u32>, u32, u32) -> Vec<Vec<Word>>,
    /// read_into_if_some over a value built from words
    pub read_into: fn(&[u32], Kind, &mut Vec<u32>, u32) -> Vec<Word>,
    /// read a value from one slab and write it into another
    pub copy: fn(&[u32], usize, &mut Vec<u32>, usize) -> usize,
    pub handles: fn(u32, u32, usize) -> Handles,
    pub sub_slab: fn(&[u32], u32, u32) -> Vec<u32>,
    pub iterate: fn(u32, u32, &[It]) -> Vec<String>,
}

/// A use of an iterator.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum It {
    Next,
    Nth(usize),
    Take(usize),
    Skip(usize),
    StepBy(usize, usize),
    Find(u32),
    Position(u32),
    Count,
    Last,
    Collect,
    Fold,
    MinMax,
    SizeHint,
    Keep,
    Restore,
    Fuse,
    Zip(usize),
    Chain(usize),
    Peek,
}

/// Uses an iterator, and says what it yielded.
pub fn drive<I: Iterator + Clone>(mut it: I, ops: &[It], id: fn(I::Item) -> u32) -> Vec<String> {
    let mut out = vec![];
    let mut kept = it.clone();
    for op in ops {
        let ids = |v: Vec<I::Item>| v.into_iter().map(id).collect::<Vec<u32>>();
        out.push(match op {
            It::Next => format!("{:?}", it.next().map(id)),
            It::Nth(n) => format!("{:?}", it.nth(*n).map(id)),
            It::Take(n) => format!("{:?}", ids(it.by_ref().take(*n).collect())),
            It::Skip(n) => format!("{:?}", ids(it.clone().skip(*n).collect())),
            It::StepBy(n, k) => format!("{:?}", ids(it.clone().step_by(*n).take(*k).collect())),
            It::Find(m) => format!("{:?}", it.by_ref().map(id).find(|i| i % m == 0)),
            It::Position(m) => format!("{:?}", it.position(|i| id(i) % m == 0)),
            It::Count => format!("{}", it.clone().count()),
            It::Last => format!("{:?}", it.clone().last().map(id)),
            It::Collect => format!("{:?}", ids(it.clone().collect())),
            It::Fold => format!("{}", it.clone().fold(0u32, |a, i| a.wrapping_mul(31).wrapping_add(id(i)))),
            It::MinMax => format!("{:?}", (it.clone().map(id).min(), it.clone().map(id).max())),
            It::SizeHint => {
                let (low, high) = it.size_hint();
                let mut n = 0;
                let mut rest = it.clone();
                while rest.next().is_some() {
                    n += 1;
                }
                format!("size hint includes the size: {}", low <= n && high.is_none_or(|h| n <= h))
            }
            It::Keep => {
                kept = it.clone();
                String::new()
            }
            It::Restore => {
                it = kept.clone();
                String::new()
            }
            It::Fuse => format!("{:?}", ids(it.clone().fuse().take(3).collect())),
            It::Zip(n) => format!("{:?}", it.clone().zip(it.clone().skip(*n)).map(|(a, b)| (id(a), id(b))).collect::<Vec<_>>()),
            It::Chain(n) => format!("{:?}", ids(it.clone().take(*n).chain(it.clone()).collect())),
            It::Peek => {
                let mut p = it.clone().peekable();
                let first = p.peek().is_some();
                format!("{first} {:?}", p.next().map(id))
            }
        });
    }
    out
}

/// What the handle types say about an array.
pub struct Handles {
    pub at: Id<u32>,
    pub iter: Vec<u32>,
    pub iter_clone_rest: usize,
    pub u32_array: (u32, u32),
    pub len: usize,
    pub is_empty: bool,
    pub is_null: bool,
    pub start: usize,
    pub debug: String,
    pub single: (u32, u32),
}

// On a GPU there are only slices.
#[cfg(feature = "gpu")]
macro_rules! with_slab {
    ($kind:expr, $data:expr, |$s:ident| $body:expr) => {{
        let _ = $kind;
        let $s: &mut [u32] = $data.as_mut_slice();
        $body
    }};
}

#[cfg(not(feature = "gpu"))]
macro_rules! with_slab {
    ($kind:expr, $data:expr, |$s:ident| $body:expr) => {
        match $kind {
            Kind::Slice => {
                let $s: &mut [u32] = $data.as_mut_slice();
                $body
            }
            Kind::Vec => {
                let $s: &mut Vec<u32> = $data;
                $body
            }
            Kind::Cpu => {
                let mut cpu = CpuSlab::new(std::mem::take($data));
                let r = {
                    let $s = &mut cpu;
                    $body
                };
                *$data = cpu.into_inner();
                r
            }
        }
    };
}

#[cfg(feature = "gpu")]
fn read_vec<T: Item + Default>(_: Kind, data: &mut Vec<u32>, array: Array<T>) -> Vec<T> {
    let slab: &[u32] = data;
    let mut out = vec![];
    for id in array.iter() {
        out.push(slab.read(id));
    }
    out
}

#[cfg(not(feature = "gpu"))]
fn read_vec<T: Item + Default>(kind: Kind, data: &mut Vec<u32>, array: Array<T>) -> Vec<T> {
    with_slab!(kind, data, |s| s.read_vec(array))
}

#[cfg(feature = "gpu")]
fn sub_slab<T: Item>(slab: &[u32], array: Array<T>) -> Vec<u32> {
    if array.is_empty() {
        return vec![];
    }
    let words = array.into_u32_array();
    slab[words.starting_index()..][..words.len()].to_vec()
}

#[cfg(not(feature = "gpu"))]
fn sub_slab<T: Item>(slab: &[u32], array: Array<T>) -> Vec<u32> {
    array.sub_slab(slab).to_vec()
}

fn build<T: Item>(w: &[u32]) -> T {
    T::build(&mut Src::new(w))
}

fn build_many<T: Item>(w: &[u32], n: usize) -> Vec<T> {
    let mut s = Src::new(w);
    (0..n).map(|_| T::build(&mut s)).collect()
}

fn write<T: Item + Default>(
    w: &[u32],
    kind: Kind,
    data: &mut Vec<u32>,
    index: usize,
    api: u8,
) -> Option<usize> {
    let v: T = build(w);
    match api {
        0 => Some(with_slab!(kind, data, |s| s.write_indexed(&v, index))),
        1 => {
            with_slab!(kind, data, |s| s.write(Id::from(index), &v));
            None
        }
        2 => Some(with_slab!(kind, data, |s| s
            .write_indexed_slice(std::slice::from_ref(&v), index))),
        3 => {
            with_slab!(kind, data, |s| s.write_array(
                Array::new(index as u32, 1),
                std::slice::from_ref(&v)
            ));
            None
        }
        _ => Some(v.write_slab(index, data)),
    }
}

fn read<T: Item + Default>(kind: Kind, data: &mut Vec<u32>, index: usize, api: u8) -> Vec<Word> {
    let id = Id::<T>::from(index);
    let v: T = match api {
        0 => with_slab!(kind, data, |s| s.read(id)),
        1 => with_slab!(kind, data, |s| s.read_unchecked(id)),
        2 => T::read_slab(index, data),
        3 => {
            let mut t = T::default();
            with_slab!(kind, data, |s| s.read_into_if_some(id, &mut t));
            t
        }
        _ => read_vec(kind, data, Array::from(id)).remove(0),
    };
    v.words()
}

fn handles<T: Item>(index: u32, len: u32, at: usize) -> Handles {
    let a = Array::<T>::new(index, len);
    let mut it = a.iter();
    let mut ids = vec![];
    let cap = 5000;
    while ids.len() < cap {
        match it.next() {
            Some(id) => ids.push(id.inner()),
            None => break,
        }
    }
    let u = a.into_u32_array();
    let single = Array::from(Id::<T>::new(index));
    Handles {
        at: Id::new(a.at(at).inner()),
        iter: ids,
        iter_clone_rest: it.take(3).count(),
        u32_array: (u.index, u.len),
        len: a.len(),
        is_empty: a.is_empty(),
        is_null: a.is_null(),
        start: a.starting_index(),
        debug: format!("{a:?}"),
        single: (single.index, single.len),
    }
}

pub fn ty<T: Item + Default>(name: &'static str) -> Ty {
    Ty {
        name,
        size: T::size(),
        slab_size: T::SLAB_SIZE,
        build: |w| build::<T>(w).words(),
        default: || T::dflt().words(),
        dec: |w| T::dec(w).words(),
        debug: |w| format!("{:?}", build::<T>(w)),
        write: write::<T>,
        write_direct: |w, slab, index| build::<T>(w).write_slab(index, slab),
        read: read::<T>,
        read_or_default: |k, d, i| with_slab!(k, d, |s| s.read(Id::<T>::new(i))).words(),
        contains: |k, d, i| with_slab!(k, d, |s| Slab::contains(s, Id::<T>::new(i))),
        build_many: |w, n| build_many::<T>(w, n).iter().map(|t| t.words()).collect(),
        write_slice: |w, n, k, d, i| {
            let v = build_many::<T>(w, n);
            with_slab!(k, d, |s| s.write_indexed_slice(&v, i))
        },
        write_array: |w, n, k, d, i, len| {
            let v = build_many::<T>(w, n);
            with_slab!(k, d, |s| s.write_array(Array::new(i, len), &v))
        },
        read_vec: |k, d, i, len| {
            read_vec(k, d, Array::<T>::new(i, len))
                .iter()
                .map(|t| t.words())
                .collect()
        },
        read_into: |w, k, d, i| {
            let mut t: T = build(w);
            with_slab!(k, d, |s| s.read_into_if_some(Id::new(i), &mut t));
            t.words()
        },
        copy: |from, i, to, j| {
            let t: T = from.read_unchecked(Id::from(i));
            to.as_mut_slice().write_indexed(&t, j)
        },
        handles: handles::<T>,
        sub_slab: |slab, i, len| sub_slab(slab, Array::<T>::new(i, len)),
        iterate: |i, len, ops| drive(Array::<T>::new(i, len).iter(), ops, |id| id.inner()),
    }
}

pub fn registry() -> &'static [Ty] {
    static REG: std::sync::OnceLock<Vec<Ty>> = std::sync::OnceLock::new();
    REG.get_or_init(|| {
        macro_rules! reg { ($($t:ty),*) => { vec![$(ty::<$t>(tidy(stringify!($t)))),*] } }
        items::for_all_types!(reg)
    })
}

pub fn by_name(name: &str) -> &'static Ty {
    registry()
        .iter()
        .find(|t| t.name == name)
        .unwrap_or_else(|| panic!("unknown type {name}"))
}

/// `stringify!` leaves spaces as it likes
fn tidy(name: &'static str) -> &'static str {
    name.replace(" <", "<").replace("< ", "<").replace(" >", ">").leak()
}

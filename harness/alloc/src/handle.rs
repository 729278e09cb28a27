//! Type-erased handles of the allocator.
use craballoc::prelude::*;
use crabslab::SlabItem;
use engine::words::Src;
use items::{Item, Word};
use std::cell::Cell;
use std::marker::PhantomData;

pub trait Val: Item + Send + Sync + 'static {}
impl<T: Item + Send + Sync + 'static> Val for T {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Hybrid,
    Gpu,
    Array,
    GpuArray,
    Weak,
    WeakGpu,
}

impl K {
    pub fn owns(self) -> bool {
        !matches!(self, K::Weak | K::WeakGpu)
    }
    pub fn has_cpu(self) -> bool {
        matches!(self, K::Hybrid | K::Array)
    }
}

pub enum Any<T: 'static> {
    Hybrid(Hybrid<T>),
    Gpu(Gpu<T>),
    Array(HybridArray<T>),
    GpuArray(GpuArray<T>),
    Weak(WeakHybrid<T>),
    WeakGpu(WeakGpu<T>),
}

/// What setting through a handle did.
#[derive(Default)]
pub struct Outcome {
    /// item and its new words
    pub changed: Option<(usize, Vec<Word>)>,
    /// an update was queued even if nothing changed
    pub queued: bool,
    pub cpu: bool,
    pub errors: Vec<String>,
}

pub trait H {
    fn kind(&self) -> K;
    fn at(&self) -> u32;
    fn len(&self) -> Option<u32>;
    fn uid(&self) -> usize;
    fn duplicate(&self) -> Box<dyn H>;
    fn into_gpu(self: Box<Self>) -> Box<dyn H>;
    fn weak(&self, gpu: bool) -> Option<Box<dyn H>>;
    fn upgrade(&self, gpu: bool) -> Option<Box<dyn H>>;
    fn refs(&self) -> Option<usize>;
    fn values(&self) -> Option<Vec<Vec<Word>>>;
    /// `model` are the current CPU side values, `inside` is to be called while holding a lock.
    fn set(
        &self,
        mode: u8,
        item: usize,
        words: &[u32],
        model: &[Vec<Word>],
        inside: &mut dyn FnMut(),
    ) -> Outcome;
    /// User code panics while it changes the value. Gives whether it got that far, and complaints.
    fn panic(&self, how: u8, item: usize, words: &[u32], inside: &mut dyn FnMut()) -> (bool, Vec<String>);
    /// Reading that must not queue anything. Gives complaints.
    fn inspect(&self, item: usize, model: &[Vec<Word>]) -> Vec<String>;
}

fn build<T: Item>(w: &[u32]) -> T {
    T::build(&mut Src::new(w))
}

impl<T: Val> H for Any<T> {
    fn kind(&self) -> K {
        match self {
            Any::Hybrid(_) => K::Hybrid,
            Any::Gpu(_) => K::Gpu,
            Any::Array(_) => K::Array,
            Any::GpuArray(_) => K::GpuArray,
            Any::Weak(_) => K::Weak,
            Any::WeakGpu(_) => K::WeakGpu,
        }
    }

    fn at(&self) -> u32 {
        match self {
            Any::Hybrid(h) => h.id().inner(),
            Any::Gpu(h) => h.id().inner(),
            Any::Array(h) => h.array().index,
            Any::GpuArray(h) => h.array().index,
            Any::Weak(h) => h.id().inner(),
            // has no id of its own until it is upgraded
            Any::WeakGpu(h) => h.upgrade().map(|g| g.id().inner()).unwrap_or(u32::MAX),
        }
    }

    fn len(&self) -> Option<u32> {
        match self {
            Any::Array(h) => Some(h.array().len),
            Any::GpuArray(h) => Some(h.array().len),
            _ => None,
        }
    }

    fn uid(&self) -> usize {
        match self {
            Any::Hybrid(h) => h.notifier_index(),
            Any::Gpu(h) => h.notifier_index(),
            Any::Array(h) => h.notifier_index(),
            Any::GpuArray(h) => h.notifier_index(),
            Any::Weak(h) => h.notifier_index(),
            Any::WeakGpu(h) => h.notifier_index(),
        }
    }

    fn duplicate(&self) -> Box<dyn H> {
        Box::new(match self {
            Any::Hybrid(h) => Any::Hybrid(h.clone()),
            Any::Gpu(h) => Any::Gpu(h.clone()),
            Any::Array(h) => Any::Array(h.clone()),
            Any::GpuArray(h) => Any::GpuArray(h.clone()),
            Any::Weak(h) => Any::Weak(h.clone()),
            Any::WeakGpu(h) => Any::WeakGpu(h.clone()),
        })
    }

    fn into_gpu(self: Box<Self>) -> Box<dyn H> {
        Box::new(match *self {
            Any::Hybrid(h) => Any::Gpu(h.into_gpu_only()),
            Any::Array(h) => Any::GpuArray(h.into_gpu_only()),
            x => x,
        })
    }

    fn weak(&self, gpu: bool) -> Option<Box<dyn H>> {
        Some(Box::new(match self {
            Any::Hybrid(h) => {
                let w = WeakHybrid::from_hybrid(h);
                if gpu {
                    Any::WeakGpu(w.weak_gpu().clone())
                } else {
                    Any::Weak(w)
                }
            }
            Any::Gpu(h) => Any::WeakGpu(WeakGpu::from_gpu(h)),
            Any::Weak(h) if gpu => Any::WeakGpu(h.weak_gpu().clone()),
            _ => return None,
        }))
    }

    fn upgrade(&self, gpu: bool) -> Option<Box<dyn H>> {
        Some(Box::new(match self {
            Any::Weak(h) if gpu => Any::Gpu(h.weak_gpu().upgrade()?),
            Any::Weak(h) => Any::Hybrid(h.upgrade()?),
            Any::WeakGpu(h) => Any::Gpu(h.upgrade()?),
            _ => return None,
        }))
    }

    fn refs(&self) -> Option<usize> {
        match self {
            Any::Hybrid(h) => Some(h.ref_count()),
            Any::Array(h) => Some(h.ref_count()),
            Any::Weak(h) => Some(h.strong_count()),
            _ => None,
        }
    }

    fn values(&self) -> Option<Vec<Vec<Word>>> {
        match self {
            Any::Hybrid(h) => Some(vec![h.get().words()]),
            Any::Array(h) => Some(h.get_vec().iter().map(|t| t.words()).collect()),
            _ => None,
        }
    }

    fn set(
        &self,
        mode: u8,
        item: usize,
        words: &[u32],
        model: &[Vec<Word>],
        inside: &mut dyn FnMut(),
    ) -> Outcome {
        let v: T = build(words);
        let enc = v.words();
        let mut o = Outcome {
            queued: true,
            cpu: true,
            ..Default::default()
        };
        match self {
            Any::Hybrid(h) => {
                o.changed = Some((0, enc.clone()));
                match mode % 8 {
                    0 | 1 => h.set(v),
                    2 => {
                        let mut seen = vec![];
                        let token = words.len() as u64 ^ 0xfeed;
                        let got = h.modify(|t| {
                            seen = t.words();
                            if mode & 8 != 0 {
                                inside();
                            }
                            *t = v;
                            token
                        });
                        if got != token {
                            o.errors.push("modify lost the result of its closure".into());
                        }
                        if seen != model[0] {
                            o.errors.push(format!("modify saw {seen:x?}, expected {:x?}", model[0]));
                        }
                    }
                    3 => *h.lock() = v,
                    4 => {
                        let mut g = h.lock();
                        if g.words() != model[0] {
                            o.errors.push(format!("a guard saw {:x?}, expected {:x?}", g.words(), model[0]));
                        }
                        *g = T::dflt();
                        *g = v;
                        if g.words() != enc {
                            o.errors.push("a guard does not see what it wrote".into());
                        }
                    }
                    5 => {
                        // commit while the lock is held, before anything is changed
                        let mut g = h.lock();
                        inside();
                        *g = v;
                    }
                    6 => {
                        // not changed
                        let g = h.lock();
                        if g.words() != model[0] {
                            o.errors.push(format!("a guard saw {:x?}, expected {:x?}", g.words(), model[0]));
                        }
                        inside();
                        o.changed = None;
                        o.queued = false;
                    }
                    _ => {
                        // modified, but to the same
                        h.modify(|_| ());
                        o.changed = Some((0, model[0].clone()));
                    }
                }
            }
            Any::Gpu(h) => {
                h.set(v);
                o.cpu = false;
                o.changed = Some((0, enc));
            }
            Any::Array(h) => {
                let n = model.len();
                if item < n {
                    o.changed = Some((item, enc.clone()));
                } else {
                    o.queued = false;
                }
                if mode % 2 == 0 {
                    let old = h.set_item(item, v).map(|t| t.words());
                    if old.as_ref() != model.get(item) {
                        o.errors.push(format!(
                            "set_item({item}) of {n} returned {old:x?}, expected {:x?}",
                            model.get(item)
                        ));
                    }
                } else {
                    let called = Cell::new(0);
                    let mut seen = vec![];
                    let got = h.modify(item, |t| {
                        called.set(called.get() + 1);
                        seen = t.words();
                        if mode & 8 != 0 {
                            inside();
                        }
                        *t = v;
                        item ^ 77
                    });
                    let want = (item < n).then_some(item ^ 77);
                    if got != want || called.get() != usize::from(item < n) {
                        o.errors.push(format!("modify({item}) of {n} returned {got:?}, expected {want:?}"));
                    }
                    if item < n && seen != model[item] {
                        o.errors.push(format!("modify({item}) saw {seen:x?}, expected {:x?}", model[item]));
                    }
                }
            }
            Any::GpuArray(h) => {
                o.cpu = false;
                if item < h.len() {
                    o.changed = Some((item, enc));
                } else {
                    o.queued = false;
                }
                h.set_item(item, &v);
            }
            Any::Weak(_) | Any::WeakGpu(_) => o.queued = false,
        }
        o
    }

    fn panic(&self, how: u8, item: usize, words: &[u32], inside: &mut dyn FnMut()) -> (bool, Vec<String>) {
        let mut called = false;
        let v: T = build(words);
        let r = engine::catch(|| match self {
            Any::Hybrid(h) => match how % 5 {
                0 => h.modify(|_| {
                    called = true;
                    panic!("by the user")
                }),
                1 => h.modify(|t| {
                    called = true;
                    *t = v;
                    inside();
                    panic!("by the user")
                }),
                2 => {
                    let _g = h.lock();
                    called = true;
                    panic!("by the user")
                }
                3 => {
                    let mut g = h.lock();
                    called = true;
                    *g = v;
                    panic!("by the user")
                }
                _ => {
                    let g = h.lock();
                    called = true;
                    inside();
                    let _ = g.words();
                    panic!("by the user")
                }
            },
            Any::Array(h) => {
                h.modify(item, |t| {
                    called = true;
                    if how & 1 == 0 {
                        *t = v;
                    }
                    if how & 2 == 0 {
                        inside();
                    }
                    panic!("by the user")
                });
            }
            _ => (),
        });
        let errors = match r {
            Err(m) if called && m.starts_with("by the user") => vec![],
            Ok(()) if !called => vec![],
            r => vec![format!("the user's code panicked: {called}, this came out: {r:?}")],
        };
        (called, errors)
    }

    fn inspect(&self, item: usize, model: &[Vec<Word>]) -> Vec<String> {
        let mut e = vec![];
        match self {
            Any::Hybrid(h) => {
                if h.get().words() != model[0] {
                    e.push(format!("get gives {:x?}, expected {:x?}", h.get().words(), model[0]));
                }
                if AsRef::<Hybrid<T>>::as_ref(h).id() != h.id() {
                    e.push("as_ref is another handle".into());
                }
                let _ = format!("{h:?}");
            }
            Any::Array(h) => {
                let all: Vec<_> = h.get_vec().iter().map(|t| t.words()).collect();
                if all != model {
                    e.push(format!("get_vec gives {all:x?}, expected {model:x?}"));
                }
                let one = h.get(item).map(|t| t.words());
                if one.as_ref() != model.get(item) {
                    e.push(format!("get({item}) gives {one:x?}, expected {:x?}", model.get(item)));
                }
                if h.len() != model.len() || h.is_empty() != model.is_empty() {
                    e.push(format!("an array of {} has length {}", model.len(), h.len()));
                }
                let want = if item < model.len() {
                    h.array().index + (item * T::SLAB_SIZE) as u32
                } else {
                    u32::MAX
                };
                if h.get_id(item).inner() != want {
                    e.push(format!("item {item} of an array of {} has the id {:?}, expected {want}", model.len(), h.get_id(item)));
                }
                let _ = format!("{h:?}");
            }
            Any::GpuArray(h) => {
                if h.len() != h.array().len() || h.is_empty() != h.array().is_empty() {
                    e.push("the length of a GPU array is not that of its array".into());
                }
                if h.get_id(item) != h.array().at(item) {
                    e.push(format!("item {item} of a GPU array has the id {:?}", h.get_id(item)));
                }
            }
            Any::Weak(h) => {
                if h.has_external_references() != (h.strong_count() > 0) {
                    e.push("has_external_references contradicts strong_count".into());
                }
            }
            _ => {}
        }
        e
    }
}

/// A type of values, and how to create them in an allocator.
pub struct Ty<R: IsRuntime> {
    pub name: &'static str,
    pub size: usize,
    pub tracked: bool,
    pub values: fn(&[u32], usize) -> Vec<Vec<Word>>,
    pub new: fn(&SlabAllocator<R>, u8, &[u32]) -> Box<dyn H>,
    pub new_array: fn(&SlabAllocator<R>, u8, &[u32], usize) -> Box<dyn H>,
    /// the values of a new array panic after some, gives what came out of it
    pub panic_array: fn(&SlabAllocator<R>, &[u32], usize) -> Result<(), String>,
}

fn many<T: Item>(w: &[u32], n: usize) -> Vec<T> {
    let mut s = Src::new(w);
    (0..n).map(|_| T::build(&mut s)).collect()
}

fn ty<R: IsRuntime, T: Val>(name: &'static str) -> Ty<R> {
    Ty {
        name,
        size: T::size(),
        tracked: std::any::TypeId::of::<T>() == std::any::TypeId::of::<Tracked>(),
        values: |w, n| many::<T>(w, n).iter().map(|t| t.words()).collect(),
        new: |a, how, w| {
            let v = many::<T>(w, 1).remove(0);
            Box::new(match how % 8 {
                0..=4 => Any::Hybrid(a.new_value(v)),
                5 => Any::Hybrid(Hybrid::new(a, v)),
                6 => Any::Gpu(Gpu::new(a, v)),
                _ => Any::Gpu(a.new_value(v).into_gpu_only()),
            })
        },
        new_array: |a, how, w, n| {
            let v = many::<T>(w, n);
            Box::new(match how % 8 {
                0..=4 => Any::Array(a.new_array(v)),
                5 => Any::Array(HybridArray::new(a, v)),
                6 => Any::GpuArray(GpuArray::new(a, &v)),
                _ => Any::GpuArray(a.new_array(v).into_gpu_only()),
            })
        },
        panic_array: |a, w, n| {
            let v = many::<T>(w, n).into_iter().chain(std::iter::once_with(|| panic!("by the user")));
            engine::catch(|| drop(a.new_array(v)))
        },
    }
}

thread_local! {
    pub static TRACKED: Cell<i64> = const { Cell::new(0) };
}

/// A value whose instances are counted.
pub struct Tracked(u32, PhantomData<()>);
impl Tracked {
    fn new(v: u32) -> Self {
        TRACKED.with(|t| t.set(t.get() + 1));
        Tracked(v, PhantomData)
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        TRACKED.with(|t| t.set(t.get() - 1));
    }
}
impl Clone for Tracked {
    fn clone(&self) -> Self {
        Tracked::new(self.0)
    }
}
impl std::fmt::Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Tracked({})", self.0)
    }
}
impl SlabItem for Tracked {
    const SLAB_SIZE: usize = 1;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        Tracked::new(slab[index])
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        slab[index] = self.0;
        index + 1
    }
}
impl Item for Tracked {
    fn build(s: &mut Src) -> Self {
        Tracked::new(s.next())
    }
    fn size() -> usize {
        1
    }
    fn enc(&self, out: &mut Vec<Word>) {
        out.push(Some(self.0))
    }
    fn dec(w: &[u32]) -> Self {
        Tracked::new(w[0])
    }
    fn dflt() -> Self {
        Tracked::new(0)
    }
}

/// All types; those of the first few are picked more often.
pub fn types<R: IsRuntime>() -> Vec<Ty<R>> {
    use glam::*;
    use items::*;
    macro_rules! reg { ($($t:ty),*) => { vec![$(ty::<R, $t>(stringify!($t))),*] } }
    reg!(
        u32,
        Vec2,
        [u32; 3],
        Tracked,
        u64,
        (u8, [u32; 4]),
        u8,
        bool,
        f32,
        i128,
        Vec3,
        Mat4,
        Option<u64>,
        Shape,
        Light,
        Deep,
        Zst,
        crabslab::Id<Light>,
        Empty,
        [u32; 7],
        Wide
    )
}

pub const TYPES: u8 = 21;

//! Values and arrays of any size behind one interface.
use craballoc::prelude::*;
use crabslab::SlabItem;
use craballoc::runtime::IsRuntime;
use craballoc::value::{Gpu, GpuArray, Hybrid, HybridArray, WeakGpu, WeakHybrid};
use vstd::point;

/// An item holds its tag in each of its words.
#[derive(Clone, Copy, Debug)]
pub struct Item<const N: usize>([u32; N]);

impl<const N: usize> SlabItem for Item<N> {
    const SLAB_SIZE: usize = N;
    fn read_slab(index: usize, slab: &[u32]) -> Self {
        Item(std::array::from_fn(|i| slab[index + i]))
    }
    fn write_slab(&self, index: usize, slab: &mut [u32]) -> usize {
        slab[index..index + N].copy_from_slice(&self.0);
        index + N
    }
}

pub fn item<const N: usize>(tag: u32) -> Item<N> {
    Item(std::array::from_fn(|i| tag << 2 | i as u32))
}

/// The tag of an item, unless it is a mix of several.
pub fn tag(words: &[u32]) -> Option<u32> {
    let t = words[0] >> 2;
    words.iter().enumerate().all(|(i, w)| *w == (t << 2 | i as u32)).then_some(t)
}

/// A write to one item: what it is told about the item before, and what is known after.
pub trait Turn {
    /// called inside of the critical section with the tag that was there
    fn old(&mut self, tag: Option<u32>);
    fn done(&mut self);
}

pub trait Val: Send {
    /// first word and number of words
    fn extent(&self) -> (usize, usize);
    fn items(&self) -> usize;
    /// whether there is a value on the CPU
    fn hybrid(&self) -> bool;
    fn set(&self, i: usize, tag: u32);
    /// read, then write, under the value's own lock; `guard` takes that with `lock`
    fn modify(&self, i: usize, tag: u32, guard: bool, turn: &mut dyn Turn);
    fn get(&self, i: usize) -> Option<Option<u32>>;
    fn dup(&self) -> Box<dyn Val>;
    fn weak(&self) -> Option<Box<dyn WeakVal>>;
    fn into_gpu(self: Box<Self>) -> Box<dyn Val>;
}

pub trait WeakVal: Send {
    fn upgrade(&self) -> Option<Box<dyn Val>>;
    fn dup(&self) -> Box<dyn WeakVal>;
    /// needs the value on the CPU
    fn hybrid(&self) -> bool;
}

impl<const N: usize> Val for Hybrid<Item<N>> {
    fn extent(&self) -> (usize, usize) {
        (self.id().index(), N)
    }
    fn items(&self) -> usize {
        1
    }
    fn hybrid(&self) -> bool {
        true
    }
    fn set(&self, _: usize, tag: u32) {
        Hybrid::set(self, item(tag))
    }
    fn modify(&self, _: usize, new: u32, guard: bool, turn: &mut dyn Turn) {
        if guard {
            let mut g = self.lock();
            turn.old(tag(&g.0));
            point();
            *g = item(new);
            turn.done();
        } else {
            Hybrid::modify(self, |v| {
                turn.old(tag(&v.0));
                point();
                *v = item(new);
                turn.done();
            })
        }
    }
    fn get(&self, _: usize) -> Option<Option<u32>> {
        Some(tag(&Hybrid::get(self).0))
    }
    fn dup(&self) -> Box<dyn Val> {
        Box::new(self.clone())
    }
    fn weak(&self) -> Option<Box<dyn WeakVal>> {
        Some(Box::new(WeakHybrid::from_hybrid(self)))
    }
    fn into_gpu(self: Box<Self>) -> Box<dyn Val> {
        Box::new(self.into_gpu_only())
    }
}

impl<const N: usize> WeakVal for WeakHybrid<Item<N>> {
    fn upgrade(&self) -> Option<Box<dyn Val>> {
        WeakHybrid::upgrade(self).map(|h| Box::new(h) as Box<dyn Val>)
    }
    fn dup(&self) -> Box<dyn WeakVal> {
        Box::new(self.clone())
    }
    fn hybrid(&self) -> bool {
        true
    }
}

impl<const N: usize> Val for Gpu<Item<N>> {
    fn extent(&self) -> (usize, usize) {
        (self.id().index(), N)
    }
    fn items(&self) -> usize {
        1
    }
    fn hybrid(&self) -> bool {
        false
    }
    fn set(&self, _: usize, tag: u32) {
        Gpu::set(self, item(tag))
    }
    fn modify(&self, i: usize, tag: u32, _: bool, _: &mut dyn Turn) {
        Val::set(self, i, tag)
    }
    fn get(&self, _: usize) -> Option<Option<u32>> {
        None
    }
    fn dup(&self) -> Box<dyn Val> {
        Box::new(self.clone())
    }
    fn weak(&self) -> Option<Box<dyn WeakVal>> {
        Some(Box::new(WeakGpu::from_gpu(self)))
    }
    fn into_gpu(self: Box<Self>) -> Box<dyn Val> {
        self
    }
}

impl<const N: usize> WeakVal for WeakGpu<Item<N>> {
    fn upgrade(&self) -> Option<Box<dyn Val>> {
        WeakGpu::upgrade(self).map(|h| Box::new(h) as Box<dyn Val>)
    }
    fn dup(&self) -> Box<dyn WeakVal> {
        Box::new(self.clone())
    }
    fn hybrid(&self) -> bool {
        false
    }
}

impl<const N: usize> Val for HybridArray<Item<N>> {
    fn extent(&self) -> (usize, usize) {
        (self.array().starting_index(), N * self.len())
    }
    fn items(&self) -> usize {
        self.len()
    }
    fn hybrid(&self) -> bool {
        true
    }
    fn set(&self, i: usize, tag: u32) {
        self.set_item(i, item(tag));
    }
    fn modify(&self, i: usize, new: u32, _: bool, turn: &mut dyn Turn) {
        HybridArray::modify(self, i, |v| {
            turn.old(tag(&v.0));
            point();
            *v = item(new);
            turn.done();
        });
    }
    fn get(&self, i: usize) -> Option<Option<u32>> {
        Some(HybridArray::get(self, i).and_then(|v| tag(&v.0)))
    }
    fn dup(&self) -> Box<dyn Val> {
        Box::new(self.clone())
    }
    fn weak(&self) -> Option<Box<dyn WeakVal>> {
        None
    }
    fn into_gpu(self: Box<Self>) -> Box<dyn Val> {
        Box::new(self.into_gpu_only())
    }
}

impl<const N: usize> Val for GpuArray<Item<N>> {
    fn extent(&self) -> (usize, usize) {
        (self.array().starting_index(), N * self.len())
    }
    fn items(&self) -> usize {
        self.len()
    }
    fn hybrid(&self) -> bool {
        false
    }
    fn set(&self, i: usize, tag: u32) {
        self.set_item(i, &item(tag))
    }
    fn modify(&self, i: usize, tag: u32, _: bool, _: &mut dyn Turn) {
        Val::set(self, i, tag)
    }
    fn get(&self, _: usize) -> Option<Option<u32>> {
        None
    }
    fn dup(&self) -> Box<dyn Val> {
        Box::new(self.clone())
    }
    fn weak(&self) -> Option<Box<dyn WeakVal>> {
        None
    }
    fn into_gpu(self: Box<Self>) -> Box<dyn Val> {
        self
    }
}

fn make_n<const N: usize>(slab: &SlabAllocator<impl IsRuntime>, kind: u8, tags: &[u32]) -> Box<dyn Val> {
    let items: Vec<Item<N>> = tags.iter().map(|t| item(*t)).collect();
    match kind % 4 {
        0 => Box::new(slab.new_value(items[0])),
        1 => Box::new(Gpu::new(slab, items[0])),
        2 => Box::new(slab.new_array(items)),
        _ => Box::new(GpuArray::new(slab, &items)),
    }
}

/// Values have one tag, arrays any number of them.
pub fn make(slab: &SlabAllocator<impl IsRuntime>, kind: u8, words: usize, tags: &[u32]) -> Box<dyn Val> {
    match words {
        1 => make_n::<1>(slab, kind, tags),
        2 => make_n::<2>(slab, kind, tags),
        _ => make_n::<3>(slab, kind, tags),
    }
}

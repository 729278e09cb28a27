//! Runtimes whose operations take their time.
use crate::reg::Reg;
use craballoc::prelude::*;
use craballoc::runtime::{CpuRuntime, IsRuntime, SlabUpdate, VecSlab};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use vstd::point;

pub trait Backend: IsRuntime<BufferUsages = ()> + AsRef<Self> + Send + Sync + 'static
where
    Self::Buffer: Send + Sync,
{
    fn make(reg: &Reg) -> Self;
    fn ident(b: &Self::Buffer) -> usize;
    fn words(b: &Self::Buffer) -> Vec<u32>;
}

impl Backend for CpuRuntime {
    fn make(_: &Reg) -> Self {
        CpuRuntime
    }
    fn ident(b: &VecSlab) -> usize {
        b as *const VecSlab as usize
    }
    fn words(b: &VecSlab) -> Vec<u32> {
        b.as_vec().clone()
    }
}

#[derive(Clone)]
pub struct Slow {
    reg: Reg,
    next: Arc<AtomicUsize>,
}

impl AsRef<Slow> for Slow {
    fn as_ref(&self) -> &Slow {
        self
    }
}

pub struct Buf {
    id: usize,
    words: Mutex<Vec<u32>>,
}

impl Backend for Slow {
    fn make(reg: &Reg) -> Self {
        Slow {
            reg: reg.clone(),
            next: Default::default(),
        }
    }
    fn ident(b: &Buf) -> usize {
        b.id
    }
    fn words(b: &Buf) -> Vec<u32> {
        b.words.lock().unwrap().clone()
    }
}

impl IsRuntime for Slow {
    type Buffer = Buf;
    type BufferUsages = ();

    fn buffer_create(&self, capacity: usize, _: Option<&str>, _: ()) -> Buf {
        point();
        let b = Buf {
            id: self.next.fetch_add(1, Ordering::SeqCst) + 1,
            words: Mutex::new(vec![0; capacity]),
        };
        point();
        b
    }

    fn buffer_copy(&self, source: &Buf, destination: &Buf, _: Option<&str>) {
        point();
        let from = Self::words(source);
        point();
        let mut to = destination.words.lock().unwrap();
        if to.len() < from.len() {
            self.reg.lock().fail(
                "C18",
                "shrunk",
                format!("a buffer of {} words is replaced by one of {}", from.len(), to.len()),
            );
        }
        let n = from.len().min(to.len());
        to[..n].copy_from_slice(&from[..n]);
        drop(to);
        point();
    }

    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, updates: U, buffer: &Buf) {
        for u in updates {
            point();
            let mut words = buffer.words.lock().unwrap();
            let at = u.array.starting_index();
            if at + u.elements.len() > words.len() {
                self.reg.lock().fail(
                    "C18",
                    "write-outside",
                    format!("words {at}..{} are written to a buffer of {}", at + u.elements.len(), words.len()),
                );
                continue;
            }
            words[at..at + u.elements.len()].copy_from_slice(&u.elements);
        }
        point();
    }

    async fn buffer_read(
        &self,
        buffer: &Buf,
        _: usize,
        _: impl std::ops::RangeBounds<usize>,
    ) -> Result<Vec<u32>, SlabAllocatorError> {
        Ok(Self::words(buffer))
    }
}

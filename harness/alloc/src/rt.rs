//! Runtimes the allocator is plugged into.
use craballoc::prelude::*;
use craballoc::runtime::{CpuRuntime, IsRuntime, SlabUpdate, VecSlab};
use std::sync::{
    atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering},
    Arc, Mutex,
};

/// What the executor needs of a runtime under test.
pub trait Backend: IsRuntime {
    fn usages(n: u32) -> Self::BufferUsages;
    fn ident(b: &Self::Buffer) -> usize;
    fn words(b: &Self::Buffer) -> Vec<u32>;
    /// A write by the GPU.
    fn poke(&self, b: &Self::Buffer, at: u32, word: u32);
    fn log(&self) -> Option<&Inner>;
    /// Whether the same calls have had the same effect on the CPU runtime.
    fn agrees(_: &Self::Buffer) -> bool {
        true
    }
    /// Wait for a read.
    fn wait<F: std::future::Future>(&self, f: F) -> F::Output {
        block_on(f)
    }
    /// Whether the allocator can read.
    const READS: bool = false;
    /// Read through the allocator. Gives complaints.
    fn read_back(&self, _: &SlabAllocator<Self>, _: &Known) -> Vec<String> {
        vec![]
    }
}

/// What is known of an allocator.
pub struct Known<'a> {
    /// words of the latest buffer
    pub words: Option<&'a [u32]>,
    /// words that were allocated so far
    pub len: usize,
    /// type, position and number of items of what is alive and in the buffer
    pub values: &'a [(&'static str, u32, usize)],
    /// changes from call to call
    pub turn: usize,
}

impl Backend for CpuRuntime {
    fn usages(_: u32) {}
    fn ident(b: &VecSlab) -> usize {
        b as *const VecSlab as usize
    }
    fn words(b: &VecSlab) -> Vec<u32> {
        b.as_vec().clone()
    }
    fn poke(&self, b: &VecSlab, at: u32, word: u32) {
        self.buffer_write(
            std::iter::once(SlabUpdate {
                array: crabslab::Array::new(at, 1),
                elements: vec![word],
            }),
            b,
        );
    }
    fn log(&self) -> Option<&Inner> {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Usages(pub u32);

/// A runtime that checks how it is called, counts its buffers, and mirrors all calls to the CPU
/// runtime.
#[derive(Clone)]
pub struct Rec(pub Arc<Inner>);

pub struct Inner {
    pub live: Arc<AtomicI64>,
    pub next: AtomicUsize,
    pub calls: AtomicUsize,
    pub writes: AtomicUsize,
    pub in_commit: AtomicBool,
    /// what new buffers are filled with
    pub fill: u32,
    pub expect: Mutex<Expect>,
    pub errors: Mutex<Vec<String>>,
}

#[derive(Default)]
pub struct Expect {
    pub label: Option<String>,
    pub usages: u32,
    /// the latest buffer and its length
    pub latest: Option<(usize, usize)>,
    pub copied: bool,
}

pub struct Buf {
    pub id: usize,
    pub words: Mutex<Vec<u32>>,
    mirror: VecSlab,
    live: Arc<AtomicI64>,
}

impl Drop for Buf {
    fn drop(&mut self) {
        self.live.fetch_sub(1, Ordering::SeqCst);
    }
}

impl AsRef<Rec> for Rec {
    fn as_ref(&self) -> &Rec {
        self
    }
}

impl Rec {
    pub fn new(fill: u32, label: Option<String>, usages: u32) -> Self {
        Rec(Arc::new(Inner {
            live: Default::default(),
            next: Default::default(),
            calls: Default::default(),
            writes: Default::default(),
            in_commit: Default::default(),
            fill,
            expect: Mutex::new(Expect {
                label,
                usages,
                latest: None,
                copied: true,
            }),
            errors: Default::default(),
        }))
    }
}

impl Inner {
    fn err(&self, m: String) {
        self.errors.lock().unwrap().push(m);
    }
    fn call(&self, what: &str) {
        self.calls.fetch_add(1, Ordering::SeqCst);
        if !self.in_commit.load(Ordering::SeqCst) {
            self.err(format!("{what} outside of a commit"));
        }
    }
}

impl IsRuntime for Rec {
    type Buffer = Buf;
    type BufferUsages = Usages;

    fn buffer_create(&self, capacity: usize, label: Option<&str>, usages: Usages) -> Buf {
        let i = &self.0;
        i.call("buffer_create");
        let id = i.next.fetch_add(1, Ordering::SeqCst);
        i.live.fetch_add(1, Ordering::SeqCst);
        let mut e = i.expect.lock().unwrap();
        if capacity == 0 {
            i.err("a buffer without words was created".into());
        }
        if label != e.label.as_deref() {
            i.err(format!("a buffer was created with the label {label:?}, expected {:?}", e.label));
        }
        if usages.0 != e.usages {
            i.err(format!("a buffer was created with the usages {usages:?}, expected {}", e.usages));
        }
        if !e.copied {
            i.err("a buffer was created, and nothing was copied to it, before the next one".into());
        }
        // the first one has nothing to copy
        e.copied = e.latest.is_none();
        let buf = Buf {
            id,
            words: Mutex::new(vec![i.fill; capacity]),
            mirror: CpuRuntime.buffer_create(capacity, label, ()),
            live: i.live.clone(),
        };
        if buf.mirror.as_vec().len() != capacity {
            i.err(format!("the CPU runtime created a buffer of {} words, asked for {capacity}", buf.mirror.as_vec().len()));
        }
        if i.fill != 0 {
            CpuRuntime.buffer_write(
                std::iter::once(SlabUpdate {
                    array: crabslab::Array::new(0, capacity as u32),
                    elements: vec![i.fill; capacity],
                }),
                &buf.mirror,
            );
        } else if buf.mirror.as_vec().iter().any(|w| *w != 0) {
            i.err("a new CPU buffer is not zero".into());
        }
        buf
    }

    fn buffer_copy(&self, src: &Buf, dst: &Buf, label: Option<&str>) {
        let i = &self.0;
        i.call("buffer_copy");
        let mut e = i.expect.lock().unwrap();
        if label != e.label.as_deref() {
            i.err(format!("a copy was labelled {label:?}, expected {:?}", e.label));
        }
        if src.id == dst.id {
            i.err("a buffer was copied to itself".into());
            return;
        }
        let s = src.words.lock().unwrap();
        let mut d = dst.words.lock().unwrap();
        if Some((src.id, s.len())) != e.latest {
            i.err(format!("a copy was made from buffer {} of {} words, but the latest is {:?}", src.id, s.len(), e.latest));
        }
        if dst.id + 1 != i.next.load(Ordering::SeqCst) {
            i.err(format!("a copy was made to buffer {}, which is not the new one", dst.id));
        }
        if d.len() < s.len() {
            i.err(format!("a buffer of {} words was copied to one of {}", s.len(), d.len()));
            return;
        }
        d[..s.len()].copy_from_slice(&s);
        e.copied = true;
        CpuRuntime.buffer_copy(&src.mirror, &dst.mirror, label);
    }

    fn buffer_write<U: Iterator<Item = SlabUpdate>>(&self, updates: U, buffer: &Buf) {
        let i = &self.0;
        i.call("buffer_write");
        let updates: Vec<SlabUpdate> = updates.collect();
        // a call without updates writes nothing, and does not count
        if updates.is_empty() {
            i.calls.fetch_sub(1, Ordering::SeqCst);
        }
        i.writes.fetch_add(updates.iter().filter(|u| u.array.len > 0).count(), Ordering::SeqCst);
        let mut w = buffer.words.lock().unwrap();
        let mut good = true;
        let mut spans = vec![];
        for u in &updates {
            let (at, len) = (u.array.index as usize, u.array.len as usize);
            if u.elements.len() != len {
                i.err(format!("an update of {len} words at {at} has {} elements", u.elements.len()));
                good = false;
                continue;
            }
            if at + len > w.len() {
                i.err(format!("an update of {len} words at {at} is beyond the {} words of the buffer", w.len()));
                good = false;
                continue;
            }
            spans.push((at, len));
            w[at..at + len].copy_from_slice(&u.elements);
        }
        spans.retain(|s| s.1 > 0);
        spans.sort();
        for p in spans.windows(2) {
            if p[0].0 + p[0].1 > p[1].0 {
                i.err(format!("updates overlap: {:?} and {:?}", p[0], p[1]));
            }
        }
        if good {
            CpuRuntime.buffer_write(updates.into_iter(), &buffer.mirror);
        }
    }

    async fn buffer_read(
        &self,
        buffer: &Buf,
        buffer_len: usize,
        range: impl std::ops::RangeBounds<usize>,
    ) -> Result<Vec<u32>, SlabAllocatorError> {
        CpuRuntime.buffer_read(&buffer.mirror, buffer_len, range).await
    }
}

impl Backend for Rec {
    fn usages(n: u32) -> Usages {
        Usages(n)
    }
    fn ident(b: &Buf) -> usize {
        b.id
    }
    fn words(b: &Buf) -> Vec<u32> {
        b.words.lock().unwrap().clone()
    }
    fn poke(&self, b: &Buf, at: u32, word: u32) {
        b.words.lock().unwrap()[at as usize] = word;
        CpuRuntime.poke(&b.mirror, at, word);
    }
    fn log(&self) -> Option<&Inner> {
        Some(&self.0)
    }
    fn agrees(b: &Buf) -> bool {
        *b.mirror.as_vec() == *b.words.lock().unwrap()
    }
}

/// Wait for a future that is always ready.
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..1000 {
        if let std::task::Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            return t;
        }
    }
    panic!("the future is not ready")
}

//! A stand-in for the part of wgpu 24 that deals with buffers, on a GPU that is simulated.
//!
//! The checks are those of wgpu 24.0.5 (api/buffer.rs) and wgpu-core 24.0.5 (device/queue.rs,
//! device/resource.rs, command/transfer.rs and resource.rs). What wgpu reports to the handler of
//! uncaptured errors is a panic, which is what that handler does by default.
//!
//! Work is done in the order it was submitted, but no sooner than it has to be.
use std::{
    collections::VecDeque,
    fmt,
    ops::{Bound, Deref, DerefMut, Range, RangeBounds},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex, MutexGuard,
    },
};

pub use wgpu_types as wgt;
pub use wgt::{
    BufferAddress, BufferSize, BufferUsages, Maintain as MaintainBase, MaintainResult, COPY_BUFFER_ALIGNMENT,
    MAP_ALIGNMENT,
};

pub type Label<'a> = Option<&'a str>;
pub type BufferDescriptor<'a> = wgt::BufferDescriptor<Label<'a>>;
pub type CommandEncoderDescriptor<'a> = wgt::CommandEncoderDescriptor<Label<'a>>;
pub type Maintain = wgt::Maintain<SubmissionIndex>;

fn invalid(what: impl fmt::Display) -> ! {
    panic!("wgpu error: Validation Error: {what}")
}

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|p| p.into_inner())
}

// --- the simulated GPU ---------------------------------------------------------------------------

/// How the GPU behaves.
#[derive(Clone, Copy, Debug, Default)]
pub struct Config {
    pub seed: u64,
    /// As in a browser: polling does nothing, callbacks are called in between.
    pub web: bool,
    /// Each mapping whose number modulo 64 is set here fails.
    pub fail: u64,
}

#[derive(Clone, Debug)]
enum Cmd {
    Write { to: Arc<BufferInner>, at: u64, bytes: Vec<u8> },
    Copy { from: Arc<BufferInner>, from_at: u64, to: Arc<BufferInner>, to_at: u64, size: u64 },
    Clear { to: Arc<BufferInner>, at: u64, size: u64 },
}

impl Cmd {
    fn buffers(&self) -> Vec<&Arc<BufferInner>> {
        match self {
            Cmd::Write { to, .. } | Cmd::Clear { to, .. } => vec![to],
            Cmd::Copy { from, to, .. } => vec![from, to],
        }
    }
    fn run(self) {
        match self {
            Cmd::Write { to, at, bytes } => lock(&to.data)[at as usize..][..bytes.len()].copy_from_slice(&bytes),
            Cmd::Clear { to, at, size } => lock(&to.data)[at as usize..][..size as usize].fill(0),
            Cmd::Copy { from, from_at, to, to_at, size } => {
                let bytes = lock(&from.data)[from_at as usize..][..size as usize].to_vec();
                lock(&to.data)[to_at as usize..][..size as usize].copy_from_slice(&bytes);
            }
        }
    }
}

type MapCallback = Box<dyn FnOnce(Result<(), BufferAsyncError>) + Send>;

struct Mapping {
    buffer: Arc<BufferInner>,
    after: u64,
    ok: bool,
    callback: MapCallback,
}

#[derive(Default)]
struct State {
    /// writes that go with the next submission
    pending: Vec<Cmd>,
    submitted: u64,
    done: u64,
    work: VecDeque<Vec<Cmd>>,
    mappings: Vec<Mapping>,
    mapped: u64,
    done_callbacks: Vec<(u64, Box<dyn FnOnce() + Send>)>,
    rng: u64,
}

pub struct Gpu {
    config: Config,
    state: Mutex<State>,
    next: AtomicUsize,
    polls: AtomicUsize,
    live: AtomicUsize,
    created: Mutex<Vec<Created>>,
}

/// What buffers were created.
#[derive(Clone, Debug, PartialEq)]
pub struct Created {
    pub id: usize,
    pub label: Option<String>,
    pub size: u64,
    pub usage: BufferUsages,
}

impl fmt::Debug for Gpu {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Gpu")
    }
}

impl Gpu {
    pub fn new(config: Config) -> (Arc<Gpu>, Device, Queue) {
        let gpu = Arc::new(Gpu {
            config,
            state: Mutex::new(State { rng: config.seed | 1, ..Default::default() }),
            next: Default::default(),
            polls: Default::default(),
            live: Default::default(),
            created: Default::default(),
        });
        (gpu.clone(), Device { gpu: gpu.clone() }, Queue { gpu })
    }
    pub fn live_buffers(&self) -> usize {
        self.live.load(Ordering::SeqCst)
    }
    pub fn created(&self) -> Vec<Created> {
        lock(&self.created).clone()
    }
    /// Whether a mapping fails
    pub fn fails(&self, k: u64) -> bool {
        self.config.fail >> (k % 64) & 1 == 1
    }
    /// Mappings requested so far
    pub fn mappings(&self) -> u64 {
        lock(&self.state).mapped
    }
    /// Some time passes, in which everything that was submitted is done.
    pub fn tick(&self) {
        self.polls.store(0, Ordering::SeqCst);
        self.advance(u64::MAX);
        self.call_back();
    }
    /// Some time passes, and nobody else does anything with the device.
    ///
    /// What was submitted is done, but only a browser says so by itself: natively that happens when
    /// the device is polled, or something is submitted.
    pub fn rest(&self) {
        self.polls.store(0, Ordering::SeqCst);
        self.advance(u64::MAX);
        if self.config.web {
            self.call_back();
        }
    }
    /// Something else is submitted, and is done.
    pub fn flush(&self) {
        self.submit(vec![]);
        self.advance(u64::MAX);
    }
    fn chance(&self) -> bool {
        let s = &mut lock(&self.state).rng;
        *s ^= *s << 13;
        *s ^= *s >> 7;
        *s ^= *s << 17;
        *s & 1 == 0
    }
    fn advance(&self, until: u64) {
        let mut s = lock(&self.state);
        while s.done < until {
            let Some(cmds) = s.work.pop_front() else { break };
            s.done += 1;
            cmds.into_iter().for_each(Cmd::run);
        }
    }
    fn call_back(&self) {
        let mut s = lock(&self.state);
        let done = s.done;
        let (ready, waiting) = std::mem::take(&mut s.mappings).into_iter().partition(|m: &Mapping| m.after <= done);
        s.mappings = waiting;
        let (finished, unfinished) = std::mem::take(&mut s.done_callbacks).into_iter().partition(|c: &(u64, _)| c.0 <= done);
        s.done_callbacks = unfinished;
        drop(s);
        let ready: Vec<Mapping> = ready;
        for m in ready {
            let result = {
                let mut state = lock(&m.buffer.map_state);
                match (&*state, m.ok) {
                    (MapState::Waiting(range), true) => {
                        *state = MapState::Active(range.clone());
                        Ok(())
                    }
                    (MapState::Waiting(_), false) => {
                        *state = MapState::Idle;
                        Err(BufferAsyncError)
                    }
                    // it was unmapped in the meantime
                    _ => Err(BufferAsyncError),
                }
            };
            (m.callback)(result);
        }
        let finished: Vec<(u64, Box<dyn FnOnce() + Send>)> = finished;
        finished.into_iter().for_each(|c| (c.1)());
    }
    fn submit(&self, cmds: Vec<Cmd>) -> u64 {
        let mut s = lock(&self.state);
        let mut all = std::mem::take(&mut s.pending);
        all.extend(cmds);
        s.submitted += 1;
        let k = s.submitted;
        for b in all.iter().flat_map(Cmd::buffers) {
            if !matches!(*lock(&b.map_state), MapState::Idle) {
                drop(s);
                invalid(format!("In Queue::submit: Buffer {b:?} is still mapped"));
            }
            if *lock(&b.destroyed) {
                drop(s);
                invalid(format!("In Queue::submit: Buffer {b:?} has been destroyed"));
            }
            *lock(&b.last_use) = k;
        }
        s.work.push_back(all);
        k
    }
}

// --- buffers -------------------------------------------------------------------------------------

#[derive(Debug)]
enum MapState {
    Idle,
    Waiting(Range<u64>),
    Active(Range<u64>),
}

struct BufferInner {
    gpu: Arc<Gpu>,
    id: usize,
    size: u64,
    usage: BufferUsages,
    label: Option<String>,
    data: Mutex<Vec<u8>>,
    map_state: Mutex<MapState>,
    views: Mutex<Vec<Range<u64>>>,
    /// what was asked to be mapped
    asked: Mutex<Range<u64>>,
    last_use: Mutex<u64>,
    destroyed: Mutex<bool>,
}

impl fmt::Debug for BufferInner {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{} {:?}", self.id, self.label)
    }
}

impl Drop for BufferInner {
    fn drop(&mut self) {
        self.gpu.live.fetch_sub(1, Ordering::SeqCst);
    }
}

impl BufferInner {
    fn check_usage(&self, u: BufferUsages) {
        if !self.usage.contains(u) {
            invalid(format!("Usage flags {:?} of buffer {self:?} do not contain required usage flags {u:?}", self.usage))
        }
    }
    fn check_range(&self, at: u64, size: u64) {
        if size % COPY_BUFFER_ALIGNMENT != 0 {
            invalid(format!("Copy size {size} does not respect `COPY_BUFFER_ALIGNMENT`"));
        }
        if at % COPY_BUFFER_ALIGNMENT != 0 {
            invalid(format!("Buffer offset {at} is not aligned to block size or `COPY_BUFFER_ALIGNMENT`"));
        }
        if at + size > self.size {
            invalid(format!("Copy of {at}..{} would end up overrunning the bounds of the buffer of size {}", at + size, self.size));
        }
    }
}

#[derive(Clone, Debug)]
pub struct Buffer {
    inner: Arc<BufferInner>,
}

impl PartialEq for Buffer {
    fn eq(&self, other: &Self) -> bool {
        Arc::ptr_eq(&self.inner, &other.inner)
    }
}
impl Eq for Buffer {}
impl PartialOrd for Buffer {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
impl Ord for Buffer {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.inner.id.cmp(&other.inner.id)
    }
}
impl std::hash::Hash for Buffer {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.inner.id.hash(state);
    }
}

impl Buffer {
    /// Not part of wgpu: what tells this buffer from others.
    pub fn fake_id(&self) -> usize {
        self.inner.id
    }
    /// Not part of wgpu: the words a shader would see that is submitted now.
    pub fn fake_words(&self) -> Vec<u32> {
        self.inner.gpu.flush();
        lock(&self.inner.data).chunks_exact(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect()
    }
    /// Not part of wgpu: a shader that writes a word.
    pub fn fake_poke(&self, at: usize, word: u32) {
        self.inner.gpu.flush();
        lock(&self.inner.data)[at * 4..][..4].copy_from_slice(&word.to_le_bytes());
    }
    pub fn slice<S: RangeBounds<BufferAddress>>(&self, bounds: S) -> BufferSlice<'_> {
        let offset = match bounds.start_bound() {
            Bound::Included(&bound) => bound,
            Bound::Excluded(&bound) => bound + 1,
            Bound::Unbounded => 0,
        };
        let size = match bounds.end_bound() {
            Bound::Included(&bound) => Some(bound + 1 - offset),
            Bound::Excluded(&bound) => Some(bound - offset),
            Bound::Unbounded => None,
        }
        .map(|size| BufferSize::new(size).expect("Buffer slices can not be empty"));
        let buffer_size = self.inner.size;
        if offset >= buffer_size {
            panic!("slice offset {offset} is out of range for buffer of size {buffer_size}");
        }
        if let Some(size) = size {
            if offset.checked_add(size.get()).map_or(true, |end| end > buffer_size) {
                panic!("slice offset {offset} size {size} is out of range for buffer of size {buffer_size}");
            }
        }
        BufferSlice { buffer: self, offset, size }
    }
    pub fn unmap(&self) {
        *lock(&self.inner.asked) = 0..0;
        assert!(lock(&self.inner.views).is_empty(), "You cannot unmap a buffer that still has accessible mapped views");
        let mut s = lock(&self.inner.map_state);
        if matches!(*s, MapState::Idle) {
            drop(s);
            invalid("Buffer is not mapped");
        }
        *s = MapState::Idle;
    }
    pub fn destroy(&self) {
        *lock(&self.inner.destroyed) = true;
    }
    pub fn size(&self) -> BufferAddress {
        self.inner.size
    }
    pub fn usage(&self) -> BufferUsages {
        self.inner.usage
    }
}

#[derive(Copy, Clone, Debug)]
pub struct BufferSlice<'a> {
    buffer: &'a Buffer,
    offset: BufferAddress,
    size: Option<BufferSize>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct BufferAsyncError;

impl fmt::Display for BufferAsyncError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Error occurred when trying to async map a buffer")
    }
}

impl std::error::Error for BufferAsyncError {}

#[derive(Debug, Clone, Copy, Eq, PartialEq)]
pub enum MapMode {
    Read,
    Write,
}

impl<'a> BufferSlice<'a> {
    pub fn map_async(&self, mode: MapMode, callback: impl FnOnce(Result<(), BufferAsyncError>) + Send + 'static) {
        let b = &self.buffer.inner;
        let range = {
            let mut asked = lock(&b.asked);
            assert_eq!(*asked, 0..0, "Buffer is already mapped");
            let end = self.size.map_or(b.size, |s| self.offset + s.get());
            *asked = self.offset..end;
            asked.clone()
        };
        let usage = match mode {
            MapMode::Read => BufferUsages::MAP_READ,
            MapMode::Write => BufferUsages::MAP_WRITE,
        };
        if range.start % MAP_ALIGNMENT != 0 || range.end % COPY_BUFFER_ALIGNMENT != 0 {
            callback(Err(BufferAsyncError));
            invalid("Buffer map range is not aligned");
        }
        if !b.usage.contains(usage) {
            callback(Err(BufferAsyncError));
            b.check_usage(usage);
            return;
        }
        {
            let mut s = lock(&b.map_state);
            if !matches!(*s, MapState::Idle) {
                drop(s);
                callback(Err(BufferAsyncError));
                invalid("Buffer map is pending or done");
            }
            *s = MapState::Waiting(range);
        }
        let mut s = lock(&b.gpu.state);
        let k = s.mapped;
        s.mapped += 1;
        let after = *lock(&b.last_use);
        s.mappings.push(Mapping {
            buffer: b.clone(),
            after,
            ok: !b.gpu.fails(k),
            callback: Box::new(callback),
        });
    }
    fn view(&self) -> (Range<u64>, Vec<u64>) {
        let b = &self.buffer.inner;
        let asked = lock(&b.asked).clone();
        let end = self.size.map_or(asked.end, |s| self.offset + s.get());
        assert!(asked.start <= self.offset && end <= asked.end);
        let mut views = lock(&b.views);
        for sub in views.iter() {
            assert!(end <= sub.start || self.offset >= sub.end, "Intersecting map range with {sub:?}");
        }
        match &*lock(&b.map_state) {
            MapState::Active(r) if r.start <= self.offset && end <= r.end => {}
            _ => invalid("Buffer is not mapped"),
        }
        views.push(self.offset..end);
        let data = lock(&b.data);
        // aligned, as mapped memory is
        let words = data[self.offset as usize..end as usize]
            .chunks(8)
            .map(|c| {
                let mut w = [0; 8];
                w[..c.len()].copy_from_slice(c);
                u64::from_ne_bytes(w)
            })
            .collect();
        (self.offset..end, words)
    }
    pub fn get_mapped_range(&self) -> BufferView<'a> {
        let (range, words) = self.view();
        BufferView { slice: *self, range, words }
    }
    pub fn get_mapped_range_mut(&self) -> BufferViewMut<'a> {
        let (range, words) = self.view();
        BufferViewMut(BufferView { slice: *self, range, words })
    }
}

#[derive(Debug)]
pub struct BufferView<'a> {
    slice: BufferSlice<'a>,
    range: Range<u64>,
    words: Vec<u64>,
}

impl BufferView<'_> {
    fn len(&self) -> usize {
        (self.range.end - self.range.start) as usize
    }
}

impl Deref for BufferView<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        // Sound: any bytes are fine, and there are at least as many
        unsafe { std::slice::from_raw_parts(self.words.as_ptr() as *const u8, self.len()) }
    }
}

impl AsRef<[u8]> for BufferView<'_> {
    fn as_ref(&self) -> &[u8] {
        self
    }
}

impl Drop for BufferView<'_> {
    fn drop(&mut self) {
        lock(&self.slice.buffer.inner.views).retain(|r| *r != self.range);
    }
}

#[derive(Debug)]
pub struct BufferViewMut<'a>(BufferView<'a>);

impl Deref for BufferViewMut<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

impl DerefMut for BufferViewMut<'_> {
    fn deref_mut(&mut self) -> &mut [u8] {
        // Sound: as above, and the borrow is exclusive
        unsafe { std::slice::from_raw_parts_mut(self.0.words.as_mut_ptr() as *mut u8, self.0.len()) }
    }
}

impl AsMut<[u8]> for BufferViewMut<'_> {
    fn as_mut(&mut self) -> &mut [u8] {
        self
    }
}

impl Drop for BufferViewMut<'_> {
    fn drop(&mut self) {
        let bytes = self.0.to_vec();
        lock(&self.0.slice.buffer.inner.data)[self.0.range.start as usize..self.0.range.end as usize].copy_from_slice(&bytes);
    }
}

// --- device, encoder and queue -------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Device {
    gpu: Arc<Gpu>,
}

impl Device {
    /// Not part of wgpu
    pub fn fake_gpu(&self) -> &Gpu {
        &self.gpu
    }
    pub fn create_buffer(&self, desc: &BufferDescriptor) -> Buffer {
        use BufferUsages as Bu;
        let u = desc.usage;
        if u.is_empty() || u | Bu::all() != Bu::all() {
            invalid(format!("Invalid usage flags {u:?}"));
        }
        if u.contains(Bu::MAP_WRITE) && !(Bu::MAP_WRITE | Bu::COPY_SRC).contains(u)
            || u.contains(Bu::MAP_READ) && !(Bu::MAP_READ | Bu::COPY_DST).contains(u)
        {
            invalid(format!("Usage flags {u:?} mix map usage with other usage"));
        }
        if desc.mapped_at_creation && desc.size % COPY_BUFFER_ALIGNMENT != 0 {
            invalid("Buffers that are mapped at creation have to be aligned to `COPY_BUFFER_ALIGNMENT`");
        }
        if desc.size > 1 << 28 {
            invalid(format!("Buffer size {} is greater than the maximum buffer size", desc.size));
        }
        let id = self.gpu.next.fetch_add(1, Ordering::SeqCst);
        self.gpu.live.fetch_add(1, Ordering::SeqCst);
        let label = desc.label.map(|l| l.to_string());
        lock(&self.gpu.created).push(Created { id, label: label.clone(), size: desc.size, usage: u });
        let whole = 0..desc.size;
        Buffer {
            inner: Arc::new(BufferInner {
                gpu: self.gpu.clone(),
                id,
                size: desc.size,
                usage: u,
                label,
                data: Mutex::new(vec![0; desc.size as usize]),
                map_state: Mutex::new(if desc.mapped_at_creation { MapState::Active(whole.clone()) } else { MapState::Idle }),
                views: Default::default(),
                asked: Mutex::new(if desc.mapped_at_creation { whole } else { 0..0 }),
                last_use: Default::default(),
                destroyed: Default::default(),
            }),
        }
    }
    pub fn create_command_encoder(&self, _: &CommandEncoderDescriptor) -> CommandEncoder {
        CommandEncoder { cmds: vec![] }
    }
    pub fn poll(&self, maintain: Maintain) -> MaintainResult {
        if self.gpu.config.web {
            // nothing happens until whoever polls yields
            let polls = self.gpu.polls.fetch_add(1, Ordering::SeqCst);
            assert!(polls < 100_000, "the device is polled without end");
            return MaintainResult::SubmissionQueueEmpty;
        }
        match maintain {
            MaintainBase::WaitForSubmissionIndex(i) => {
                if i.index > lock(&self.gpu.state).submitted {
                    invalid("that was never submitted");
                }
                self.gpu.advance(i.index)
            }
            MaintainBase::Wait => self.gpu.advance(u64::MAX),
            MaintainBase::Poll => {
                if self.gpu.chance() {
                    let until = lock(&self.gpu.state).done + 1;
                    self.gpu.advance(until);
                }
            }
        }
        self.gpu.call_back();
        let s = lock(&self.gpu.state);
        if s.work.is_empty() {
            MaintainResult::SubmissionQueueEmpty
        } else {
            MaintainResult::Ok
        }
    }
    pub fn limits(&self) -> wgt::Limits {
        wgt::Limits::default()
    }
    pub fn features(&self) -> wgt::Features {
        wgt::Features::empty()
    }
}

#[derive(Debug)]
pub struct CommandEncoder {
    cmds: Vec<Cmd>,
}

#[derive(Clone, Debug)]
pub struct CommandBuffer(Arc<Mutex<Option<Vec<Cmd>>>>);

impl CommandEncoder {
    pub fn finish(self) -> CommandBuffer {
        CommandBuffer(Arc::new(Mutex::new(Some(self.cmds))))
    }
    pub fn copy_buffer_to_buffer(
        &mut self,
        source: &Buffer,
        source_offset: BufferAddress,
        destination: &Buffer,
        destination_offset: BufferAddress,
        copy_size: BufferAddress,
    ) {
        if source == destination {
            invalid("Cannot copy from and to the same buffer");
        }
        source.inner.check_usage(BufferUsages::COPY_SRC);
        destination.inner.check_usage(BufferUsages::COPY_DST);
        source.inner.check_range(source_offset, copy_size);
        destination.inner.check_range(destination_offset, copy_size);
        if copy_size == 0 {
            return;
        }
        self.cmds.push(Cmd::Copy {
            from: source.inner.clone(),
            from_at: source_offset,
            to: destination.inner.clone(),
            to_at: destination_offset,
            size: copy_size,
        });
    }
    pub fn clear_buffer(&mut self, buffer: &Buffer, offset: BufferAddress, size: Option<BufferAddress>) {
        buffer.inner.check_usage(BufferUsages::COPY_DST);
        let size = size.unwrap_or(buffer.inner.size.saturating_sub(offset));
        buffer.inner.check_range(offset, size);
        self.cmds.push(Cmd::Clear { to: buffer.inner.clone(), at: offset, size });
    }
    pub fn insert_debug_marker(&mut self, _: &str) {}
    pub fn push_debug_group(&mut self, _: &str) {}
    pub fn pop_debug_group(&mut self) {}
}

#[derive(Debug, Clone)]
pub struct SubmissionIndex {
    index: u64,
}

#[derive(Clone, Debug)]
pub struct Queue {
    gpu: Arc<Gpu>,
}

impl Queue {
    pub fn write_buffer(&self, buffer: &Buffer, offset: BufferAddress, data: &[u8]) {
        if data.is_empty() {
            return;
        }
        buffer.inner.check_usage(BufferUsages::COPY_DST);
        buffer.inner.check_range(offset, data.len() as u64);
        if *lock(&buffer.inner.destroyed) {
            invalid("Buffer has been destroyed");
        }
        lock(&self.gpu.state).pending.push(Cmd::Write { to: buffer.inner.clone(), at: offset, bytes: data.to_vec() });
    }
    #[must_use]
    pub fn write_buffer_with<'a>(
        &'a self,
        buffer: &'a Buffer,
        offset: BufferAddress,
        size: BufferSize,
    ) -> Option<QueueWriteBufferView<'a>> {
        buffer.inner.check_usage(BufferUsages::COPY_DST);
        buffer.inner.check_range(offset, size.get());
        Some(QueueWriteBufferView { queue: self, buffer, offset, bytes: vec![0; size.get() as usize] })
    }
    pub fn submit<I: IntoIterator<Item = CommandBuffer>>(&self, command_buffers: I) -> SubmissionIndex {
        let cmds = command_buffers
            .into_iter()
            .flat_map(|c| lock(&c.0).take().expect("Command buffer already submitted"))
            .collect();
        let index = self.gpu.submit(cmds);
        if !self.gpu.config.web {
            // submitting also looks at what is done
            if self.gpu.chance() {
                let until = lock(&self.gpu.state).done + 1;
                self.gpu.advance(until);
            }
            self.gpu.call_back();
        }
        SubmissionIndex { index }
    }
    pub fn on_submitted_work_done(&self, callback: impl FnOnce() + Send + 'static) {
        let mut s = lock(&self.gpu.state);
        let k = s.submitted;
        s.done_callbacks.push((k, Box::new(callback)));
    }
}

pub struct QueueWriteBufferView<'a> {
    queue: &'a Queue,
    buffer: &'a Buffer,
    offset: BufferAddress,
    bytes: Vec<u8>,
}

impl Deref for QueueWriteBufferView<'_> {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.bytes
    }
}

impl DerefMut for QueueWriteBufferView<'_> {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.bytes
    }
}

impl AsMut<[u8]> for QueueWriteBufferView<'_> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.bytes
    }
}

impl Drop for QueueWriteBufferView<'_> {
    fn drop(&mut self) {
        self.queue.write_buffer(self.buffer, self.offset, &self.bytes);
    }
}

pub mod util {
    use super::*;

    #[derive(Debug, Clone, PartialEq, Eq, Hash)]
    pub struct BufferInitDescriptor<'a> {
        pub label: Label<'a>,
        pub contents: &'a [u8],
        pub usage: BufferUsages,
    }

    pub trait DeviceExt {
        fn create_buffer_init(&self, desc: &BufferInitDescriptor<'_>) -> Buffer;
    }

    impl DeviceExt for Device {
        fn create_buffer_init(&self, desc: &BufferInitDescriptor<'_>) -> Buffer {
            let n = desc.contents.len() as u64;
            let size = if n == 0 { 0 } else { n.next_multiple_of(COPY_BUFFER_ALIGNMENT).max(COPY_BUFFER_ALIGNMENT) };
            let b = self.create_buffer(&BufferDescriptor {
                label: desc.label,
                size,
                usage: desc.usage,
                mapped_at_creation: false,
            });
            lock(&b.inner.data)[..n as usize].copy_from_slice(desc.contents);
            b
        }
    }

    /// The contents of a buffer that were downloaded.
    pub struct DownloadBuffer(Vec<u64>, usize);

    impl DownloadBuffer {
        pub fn read_buffer(
            device: &Device,
            queue: &Queue,
            buffer: &BufferSlice<'_>,
            callback: impl FnOnce(Result<Self, BufferAsyncError>) + Send + 'static,
        ) {
            let size = buffer.size.map_or(buffer.buffer.inner.size - buffer.offset, |s| s.get());
            let download = device.create_buffer(&BufferDescriptor {
                size,
                usage: BufferUsages::COPY_DST | BufferUsages::MAP_READ,
                mapped_at_creation: false,
                label: None,
            });
            let mut encoder = device.create_command_encoder(&CommandEncoderDescriptor { label: None });
            encoder.copy_buffer_to_buffer(buffer.buffer, buffer.offset, &download, 0, size);
            queue.submit(Some(encoder.finish()));
            let b = download.clone();
            download.slice(..).map_async(MapMode::Read, move |r| {
                callback(r.map(|()| {
                    let v = b.slice(..).get_mapped_range();
                    DownloadBuffer(v.words.clone(), v.len())
                }))
            });
        }
    }

    impl Deref for DownloadBuffer {
        type Target = [u8];
        fn deref(&self) -> &[u8] {
            // Sound: as for `BufferView`
            unsafe { std::slice::from_raw_parts(self.0.as_ptr() as *const u8, self.1) }
        }
    }
}

//! C24: the wgpu runtime, on a GPU that is simulated.
#![allow(dead_code)]
#[path = "../../alloc/src/exec.rs"]
mod exec;
#[path = "../../alloc/src/handle.rs"]
mod handle;
mod overlap;
#[path = "../../alloc/src/rt.rs"]
mod rt;
#[path = "../../alloc/src/runtimes.rs"]
mod runtimes;

use craballoc::prelude::*;
use craballoc::runtime::WgpuRuntime;
use crabslab::Array;
use engine::{ensure, Check, DynFamily, Family, Stats, Verdict};
use exec::{histories, label, Exec, Facts, History, Profile};
use items::{Item, Word};
use proptest::prelude::*;
use rt::{Backend, Inner, Known};
use serde::{Deserialize, Serialize};
use std::ops::Bound;
use std::sync::Arc;
use wgpu::{BufferUsages, Config, Gpu};

/// Wait for a future, while time passes and nobody else uses the device.
pub fn drive<F: std::future::Future>(gpu: &Gpu, f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    for _ in 0..1000 {
        if let std::task::Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            return t;
        }
        gpu.rest();
    }
    panic!("the future is not ready, and nothing is left to be done")
}

pub fn usages(n: u32) -> BufferUsages {
    let mut u = BufferUsages::empty();
    for (k, v) in [BufferUsages::INDEX, BufferUsages::VERTEX, BufferUsages::UNIFORM, BufferUsages::INDIRECT, BufferUsages::STORAGE]
        .into_iter()
        .enumerate()
    {
        if n >> k & 1 == 1 {
            u |= v
        }
    }
    u
}

type Typed = fn(&SlabAllocator<WgpuRuntime>, u32, usize) -> Result<Vec<Vec<Word>>, String>;

fn typed<T: Item + Default>(a: &SlabAllocator<WgpuRuntime>, at: u32, n: usize) -> Result<Vec<Vec<Word>>, String> {
    drive(a.device().fake_gpu(), a.read_array(Array::<T>::new(at, n as u32)))
        .map(|v| v.iter().map(Item::words).collect())
        .map_err(|e| format!("{e}"))
}

type Decode = fn(&[u32], usize) -> Vec<Vec<Word>>;

fn decode<T: Item>(w: &[u32], n: usize) -> Vec<Vec<Word>> {
    (0..n).map(|i| T::dec(&w[i * T::size()..][..T::size()]).words()).collect()
}

fn by_name(name: &str) -> Option<(Typed, Decode)> {
    use glam::*;
    use items::*;
    macro_rules! reg { ($($t:ty),*) => {
        match name {
            $(stringify!($t) => Some((typed::<$t> as Typed, decode::<$t> as Decode)),)*
            _ => None,
        }
    } }
    reg!(u32, Vec2, [u32; 3], u64, (u8, [u32; 4]), u8, bool, f32, i128, Vec3, Mat4, Option<u64>, Shape, Light, Deep, Zst, crabslab::Id<Light>, Empty, [u32; 7], Wide)
}

/// Whether one of the mappings since failed.
fn failed(gpu: &Gpu, since: u64) -> bool {
    (since..gpu.mappings()).any(|k| gpu.fails(k))
}

impl Backend for WgpuRuntime {
    fn usages(n: u32) -> BufferUsages {
        usages(n)
    }
    fn ident(b: &wgpu::Buffer) -> usize {
        b.fake_id()
    }
    fn words(b: &wgpu::Buffer) -> Vec<u32> {
        b.fake_words()
    }
    fn poke(&self, b: &wgpu::Buffer, at: u32, word: u32) {
        b.fake_poke(at as usize, word)
    }
    fn log(&self) -> Option<&Inner> {
        None
    }
    fn wait<F: std::future::Future>(&self, f: F) -> F::Output {
        drive(self.device.fake_gpu(), f)
    }
    const READS: bool = true;
    fn read_back(&self, a: &SlabAllocator<Self>, k: &Known) -> Vec<String> {
        let gpu = self.device.fake_gpu();
        let mut e = vec![];
        let before = gpu.live_buffers();
        let since = gpu.mappings();
        if !std::ptr::eq(a.device(), &*self.device) || !std::ptr::eq(a.queue(), &*self.queue) {
            e.push("the device or queue of the allocator is not that of its runtime".into());
        }
        let Some(words) = k.words else {
            match drive(gpu, a.read(..)) {
                Err(SlabAllocatorError::NoInternalBuffer) => (),
                r => e.push(format!("reading before the first commit gave {r:?}")),
            }
            return e;
        };
        let judge = |what: String, got: Result<Vec<u32>, String>, want: &[u32], since: u64| match got {
            Ok(g) if g == want => None,
            Ok(g) => Some(format!("{what} gave {g:x?}, expected {want:x?}")),
            Err(_) if failed(gpu, since) => None,
            Err(m) => Some(format!("{what} failed though nothing else did: {m}")),
        };
        // what was allocated, as far as the buffer goes
        let all = &words[..k.len.min(words.len())];
        let pick = |salt: u64, n: usize| (engine::mix(k.turn as u64 ^ salt << 32) % n.max(1) as u64) as usize;
        let s = pick(1, words.len() + 1);
        let len = match pick(2, 4) {
            0 => 0,
            1 => words.len() - s,
            _ => pick(3, words.len() - s + 1),
        };
        let read = |r: (Bound<usize>, Bound<usize>)| drive(gpu, a.read(r)).map_err(|e| e.to_string());
        let r = match pick(4, 4) {
            0 => judge("reading ..".into(), read((Bound::Unbounded, Bound::Unbounded)), all, since),
            1 if s <= all.len() => {
                judge(format!("reading {s}.."), read((Bound::Included(s), Bound::Unbounded)), &all[s..], since)
            }
            2 if len > 0 => judge(
                format!("reading {s}..={}", s + len - 1),
                read((Bound::Included(s), Bound::Included(s + len - 1))),
                &words[s..s + len],
                since,
            ),
            _ => judge(
                format!("reading {s}..{}", s + len),
                drive(gpu, a.read(s..s + len)).map_err(|e| e.to_string()),
                &words[s..s + len],
                since,
            ),
        };
        e.extend(r);
        // one of the values, all of it or a part
        if !k.values.is_empty() {
            let (name, at, n) = k.values[pick(5, k.values.len())];
            if let Some((read, decode)) = by_name(name) {
                let since = gpu.mappings();
                let n = if pick(6, 3) == 0 { pick(7, n + 1) } else { n };
                // an empty array is at the end of all words
                let from = if n == 0 { &[][..] } else { &words[at as usize..] };
                let want = decode(from, n);
                match read(a, at, n) {
                    Ok(g) if g == want => (),
                    Ok(g) => e.push(format!("reading {n} {name} at {at} gave {g:x?}, expected {want:x?}")),
                    Err(_) if failed(gpu, since) => (),
                    Err(m) => e.push(format!("reading {n} {name} at {at} failed though nothing else did: {m}")),
                }
            }
        }
        gpu.flush();
        if gpu.live_buffers() != before {
            e.push(format!("{before} buffers existed before reading, {} after", gpu.live_buffers()));
        }
        e
    }
}

/// The simulated GPU
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Sim {
    pub seed: u64,
    pub web: bool,
    pub fail: u64,
}

impl Sim {
    pub fn new(&self) -> (Arc<Gpu>, WgpuRuntime) {
        let (gpu, device, queue) = Gpu::new(Config {
            seed: self.seed,
            web: self.web,
            fail: self.fail,
        });
        let rt = WgpuRuntime {
            device: Arc::new(device),
            queue: Arc::new(queue),
        };
        (gpu, rt)
    }
}

pub fn sims() -> impl Strategy<Value = Sim> {
    (
        any::<u64>(),
        any::<bool>(),
        prop_oneof![2 => Just(0u64), 1 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| a & b)],
    )
        .prop_map(|(seed, web, fail)| Sim { seed, web, fail })
}

/// All buffers are as they were asked for, and are gone.
fn leftovers(gpu: &Gpu, want_label: &Option<String>, want_usages: u32) -> Verdict {
    gpu.flush();
    gpu.tick();
    ensure!(
        gpu.live_buffers() == 0,
        "leak",
        "{} buffers are left after everything was dropped",
        gpu.live_buffers()
    );
    let want = usages(want_usages) | BufferUsages::STORAGE | BufferUsages::COPY_SRC | BufferUsages::COPY_DST;
    for c in gpu.created() {
        // to read back
        if c.usage.contains(BufferUsages::MAP_READ) {
            continue;
        }
        ensure!(
            c.usage.contains(want),
            "usages",
            "a buffer was created with the usages {:?}, expected {want:?}",
            c.usage
        );
        ensure!(
            c.label == *want_label,
            "label",
            "a buffer was created with the label {:?}, expected {want_label:?}",
            c.label
        );
    }
    Ok(())
}

fn on_gpu(name: &'static str, quick: u64, p: Profile, rule: fn(&Facts) -> bool) -> Box<dyn DynFamily> {
    Box::new(Family::new(
        name,
        quick,
        quick * 25,
        move || (histories(p.clone()), sims()),
        move |(h, sim): &(History, Sim), st: &mut Stats| {
            let (gpu, rt) = sim.new();
            let (f, failures) = Exec::new(rt, h).run(h);
            if rule(&f) && gpu.mappings() > 0 {
                st.nontrivial();
            }
            for (on, l) in [
                (f.grows > 0, "buffer replaced by a larger one"),
                (f.kept_grown > 0, "GPU writes kept over a replaced buffer"),
                (f.reuses > 0, "reclaimed words reused"),
                (sim.web, "polling does nothing"),
                (failed(&gpu, 0), "a mapping failed"),
                (gpu.mappings() > 20, "over 20 reads"),
                (f.max_words > 1000, "over 1000 words"),
            ] {
                if on {
                    st.label(l);
                }
            }
            st.note(format!("{f:?}"));
            if let Some((_, f)) = failures.into_iter().next() {
                return Err(f);
            }
            leftovers(&gpu, &label(h.label), h.usages as u32)
        },
    ))
}

fn direct() -> Box<dyn DynFamily> {
    Box::new(Family::new(
        "wgpu runtime",
        200_000,
        4_000_000,
        || (runtimes::cases(), sims().prop_map(|s| Sim { fail: 0, ..s })),
        |(c, sim): &(runtimes::Case, Sim), st: &mut Stats| {
            let (gpu, rt) = sim.new();
            runtimes::check(rt, c, st)?;
            leftovers(&gpu, &c.label.then(|| "label".into()), c.len as u32)
        },
    ))
}

fn main() {
    engine::hangs_after(45);
    let d = Profile::default;
    let r: fn(&Facts) -> bool = |f| f.updates > 0 && f.grows > 0;
    let churn = Profile {
        types: 6,
        max_ops: 90,
        new: 22,
        array: 14,
        drop: 24,
        drop_many: 3,
        inspect: 0,
        commit: 16,
        buffers: 1,
        ..d()
    };
    let big = Profile {
        max_ops: 40,
        many: 6,
        burst: 8,
        drop_many: 4,
        commit: 6,
        poke: 12,
        ..d()
    };
    let gone = Profile { gone: 2, buffers: 9, ..d() };
    engine::main(vec![Check {
        id: "C24",
        rule: "the history commits updates of values that were already committed, its buffer is replaced by a larger one, and words are read back; for direct calls, the range that is read is not empty and not everything; for overlapping reads, a read ends after a write or a copy that came after its start",
        assumptions: vec![
            "the GPU is simulated: buffers, the queue and mapping are those of a stand-in for wgpu 24 with the validation of wgpu-core; there is no adapter here",
            "a GPU write is modelled as a write to the buffer between two operations",
        ],
        families: vec![
            on_gpu("history", 60_000, Profile { poke: 12, ..d() }, r),
            on_gpu("churn", 24_000, churn, r),
            on_gpu("large", 5_000, big, r),
            on_gpu("allocator gone", 16_000, gone, r),
            direct(),
            overlap::family(),
        ],
    }])
}

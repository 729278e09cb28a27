//! C26: the heap that an allocator holds on to.
use crate::handle::{types, Ty, H, K};
use craballoc::prelude::*;
use craballoc::runtime::CpuRuntime;
use engine::{Check, Family, Stats, Verdict};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static HEAP: Cell<i64> = const { Cell::new(0) };
}

/// Counts the bytes each thread has on the heap.
pub struct Counting;

fn count(n: i64) {
    let _ = HEAP.try_with(|h| h.set(h.get() + n));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

fn heap() -> i64 {
    HEAP.with(|h| h.get())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New { ty: u8, how: u8 },
    NewArray { ty: u8, how: u8, n: u8 },
    Set { h: u8, mode: u8, item: u8 },
    SetLasting { h: u8, mode: u8, item: u8 },
    Clone { h: u8 },
    CloneLasting { h: u8 },
    Drop { h: u8 },
    IntoGpu { h: u8 },
    Weak { h: u8, gpu: bool },
    Upgrade { h: u8, gpu: bool },
    Read { h: u8 },
    Commit { keep: bool },
    Peek,
    Defrag,
    CloneAllocator,
    UpdateBuffer { b: u8 },
    UpdateLasting,
    /// other user's code panics while it changes a value
    Panic { h: u8, how: u8 },
}

/// What is done over and over.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cycle {
    /// values that live for good: type, kind and number of items
    lasting: Vec<(u8, u8, Option<u8>)>,
    ops: Vec<Op>,
    /// values are dropped in this order at the end, with a commit in between
    order: u8,
    /// the allocator lives only as long as the lasting values are created
    gone: bool,
    seed: u32,
}

fn cycles(gone: bool) -> BoxedStrategy<Cycle> {
    let n = || prop_oneof![8 => 0u8..6, 2 => 6u8..60];
    let op = prop_oneof![
        14 => (any::<u8>(), any::<u8>()).prop_map(|(ty, how)| Op::New { ty, how }),
        8 => (any::<u8>(), any::<u8>(), n()).prop_map(|(ty, how, n)| Op::NewArray { ty, how, n }),
        10 => (any::<u8>(), any::<u8>(), n()).prop_map(|(h, mode, item)| Op::Set { h, mode, item }),
        10 => (any::<u8>(), any::<u8>(), n()).prop_map(|(h, mode, item)| Op::SetLasting { h, mode, item }),
        4 => any::<u8>().prop_map(|h| Op::Clone { h }),
        3 => any::<u8>().prop_map(|h| Op::CloneLasting { h }),
        10 => any::<u8>().prop_map(|h| Op::Drop { h }),
        3 => any::<u8>().prop_map(|h| Op::IntoGpu { h }),
        4 => (any::<u8>(), any::<bool>()).prop_map(|(h, gpu)| Op::Weak { h, gpu }),
        4 => (any::<u8>(), any::<bool>()).prop_map(|(h, gpu)| Op::Upgrade { h, gpu }),
        2 => any::<u8>().prop_map(|h| Op::Read { h }),
        7 => any::<bool>().prop_map(|keep| Op::Commit { keep }),
        3 => Just(Op::Peek),
        1 => Just(Op::Defrag),
        2 => Just(Op::CloneAllocator),
        2 => any::<u8>().prop_map(|b| Op::UpdateBuffer { b }),
        2 => Just(Op::UpdateLasting),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(h, how)| Op::Panic { h, how }),
    ];
    (
        prop::collection::vec((any::<u8>(), any::<u8>(), prop::option::of(n())), usize::from(gone)..6),
        prop::collection::vec(op, 1..24),
        any::<u8>(),
        any::<u32>(),
    )
        .prop_map(move |(lasting, ops, order, seed)| Cycle {
            lasting,
            ops,
            order,
            gone,
            seed,
        })
        .boxed()
}

type Handle = Box<dyn H>;

struct Run<'a> {
    tys: &'a [Ty<CpuRuntime>],
    slab: Option<SlabAllocator<CpuRuntime>>,
    lasting: Vec<Handle>,
    buffer: Option<SlabBuffer<craballoc::runtime::VecSlab>>,
    facts: [usize; 4],
}

const DIED: usize = 0;
const SETS: usize = 1;
const COMMITS: usize = 2;
const WEAK: usize = 3;

fn set(h: &Handle, mode: u8, item: u8, k: u32) {
    let n = h.len().unwrap_or(1) as usize;
    let model = vec![vec![]; n];
    // complaints are not about memory
    let _ = h.set(mode & 7, item as usize, &[k, !k, k ^ 77], &model, &mut || ());
}

impl Run<'_> {
    fn cycle(&mut self, c: &Cycle, k: u32) {
        let mut slots: Vec<(Handle, bool)> = vec![];
        let mut buffers = vec![];
        let mut slabs = vec![];
        let at = |h: u8, n: usize| h as usize * 7 % n.max(1);
        for op in &c.ops {
            match op {
                Op::New { ty, how } => {
                    if let Some(s) = &self.slab {
                        let t = &self.tys[*ty as usize % self.tys.len()];
                        slots.push(((t.new)(s, *how, &[k, 1]), false));
                    }
                }
                Op::NewArray { ty, how, n } => {
                    if let Some(s) = &self.slab {
                        let t = &self.tys[*ty as usize % self.tys.len()];
                        slots.push(((t.new_array)(s, *how, &[k, 2], *n as usize), false));
                    }
                }
                Op::Set { h, mode, item } => {
                    if let Some((h, poisoned)) = slots.get(at(*h, slots.len())) {
                        if !(*poisoned && h.kind().has_cpu()) {
                            set(h, *mode, *item, k);
                        }
                    }
                }
                Op::SetLasting { h, mode, item } => {
                    if let Some(h) = self.lasting.get(at(*h, self.lasting.len())) {
                        set(h, *mode, *item, k);
                        self.facts[SETS] += 1;
                    }
                }
                Op::Clone { h } => {
                    if let Some((h, p)) = slots.get(at(*h, slots.len())) {
                        let h = (h.duplicate(), *p);
                        slots.push(h);
                    }
                }
                Op::CloneLasting { h } => {
                    if let Some(h) = self.lasting.get(at(*h, self.lasting.len())) {
                        slots.push((h.duplicate(), false));
                    }
                }
                Op::Drop { h } => {
                    if !slots.is_empty() {
                        let i = at(*h, slots.len());
                        slots.swap_remove(i);
                        self.facts[DIED] += 1;
                    }
                }
                Op::IntoGpu { h } => {
                    if !slots.is_empty() {
                        let i = at(*h, slots.len());
                        let (h, p) = slots.swap_remove(i);
                        slots.push((h.into_gpu(), p));
                    }
                }
                Op::Weak { h, gpu } => {
                    if let Some((h, p)) = slots.get(at(*h, slots.len())) {
                        if let Some(w) = h.weak(*gpu) {
                            let p = *p;
                            slots.push((w, p));
                            self.facts[WEAK] += 1;
                        }
                    }
                }
                Op::Upgrade { h, gpu } => {
                    let from = at(*h, slots.len());
                    let m = slots.len();
                    let i = (0..m).map(|k| (from + k) % m).find(|i| !slots[*i].0.kind().owns());
                    if let Some(i) = i {
                        if let Some(u) = slots[i].0.upgrade(*gpu) {
                            let p = slots[i].1;
                            slots.push((u, p));
                        }
                    }
                }
                Op::Read { h } => {
                    if let Some((h, false)) = slots.get(at(*h, slots.len())) {
                        let _ = (h.values(), h.refs(), h.at(), h.uid());
                    }
                }
                Op::Commit { keep } => {
                    if let Some(s) = &self.slab {
                        let b = s.commit();
                        self.facts[COMMITS] += 1;
                        if *keep {
                            buffers.push(b);
                        }
                    }
                }
                Op::Peek => {
                    if let Some(s) = &self.slab {
                        let _ = (s.has_queued_updates(), s.get_updated_source_ids());
                    }
                }
                Op::Defrag => {
                    if let Some(s) = &self.slab {
                        s.defrag();
                    }
                }
                Op::CloneAllocator => slabs.extend(self.slab.clone()),
                Op::UpdateBuffer { b } => {
                    if !buffers.is_empty() {
                        let i = at(*b, buffers.len());
                        buffers[i].update_if_invalid();
                        let c = buffers[i].clone();
                        buffers.push(c);
                    }
                }
                Op::UpdateLasting => {
                    if let Some(b) = &mut self.buffer {
                        b.update_if_invalid();
                    }
                }
                Op::Panic { h, how } => {
                    let n = slots.len();
                    if let Some((h, p)) = slots.get_mut(at(*h, n)) {
                        if matches!(h.kind(), K::Hybrid | K::Array) && !*p {
                            // a clone of a lasting value stays usable
                            if !self.lasting.iter().any(|l| l.uid() == h.uid()) {
                                let _ = h.panic(*how, 0, &[k], &mut || ());
                                *p = true;
                                let uid = h.uid();
                                slots.iter_mut().filter(|s| s.0.uid() == uid).for_each(|s| s.1 = true);
                            }
                        }
                    }
                }
            }
        }
        if c.order & 1 != 0 {
            slots.reverse();
        }
        while slots.len() > 1 && c.order & 2 != 0 {
            let i = at(c.order, slots.len());
            slots.swap_remove(i);
            if c.order & 4 != 0 && slots.len() == 3 {
                if let Some(s) = &self.slab {
                    s.commit();
                }
            }
        }
        drop((slots, slabs));
        drop(buffers);
        if let Some(s) = &self.slab {
            s.commit();
        }
        // what is held for good is the current one
        if let Some(b) = &mut self.buffer {
            b.update_if_invalid();
        }
    }

    /// Bytes on the heap, but for the contents of the buffer.
    fn bytes(&self) -> i64 {
        let words = match &self.slab {
            Some(s) => s.get_buffer().map_or(0, |b| b.as_vec().capacity()),
            None => 0,
        };
        heap() - 4 * words as i64
    }
}

/// What may come and go: free ranges and spare capacity.
const SLACK: i64 = 1000;
const WARM: u32 = 150;
const CYCLES: u32 = 900;

fn memory(c: &Cycle, st: &mut Stats) -> Verdict {
    let tys = types::<CpuRuntime>();
    // What is allocated once and for all, for example by the first panic of a thread
    thread_local! { static FIRST: Cell<bool> = const { Cell::new(true) }; }
    if FIRST.with(|f| f.replace(false)) {
        let _ = once(c, &tys, &mut Stats::default(), 3);
        let _ = engine::catch(|| panic!("by the user"));
    }
    once(c, &tys, st, CYCLES)
}

fn once(c: &Cycle, tys: &[Ty<CpuRuntime>], st: &mut Stats, cycles: u32) -> Verdict {
    let before = heap();
    let (facts, verdict) = {
        let slab = SlabAllocator::new_with_label(CpuRuntime, (), Some("memory"));
        let mut r = Run {
            tys,
            slab: Some(slab),
            lasting: vec![],
            buffer: None,
            facts: [0; 4],
        };
        let s = r.slab.as_ref().unwrap();
        for (ty, how, n) in &c.lasting {
            let t = &r.tys[*ty as usize % r.tys.len()];
            r.lasting.push(match n {
                None => (t.new)(s, *how, &[1, 2]),
                Some(n) => (t.new_array)(s, *how, &[1, 2], *n as usize),
            });
        }
        if c.order & 8 != 0 {
            r.buffer = Some(s.commit());
        }
        if c.gone {
            r.slab = None;
        }
        let mut high = 0;
        let mut verdict = Ok(());
        for k in 0..cycles {
            r.cycle(c, k ^ c.seed);
            let now = r.bytes();
            if k < WARM {
                high = now.max(high);
            } else if now > high + SLACK {
                verdict = Err(engine::Failure::new(
                    "grows",
                    format!("after {k} times the same, with everything dropped and committed, {now} bytes are held; after {WARM} times it were at most {high}"),
                ));
                break;
            }
        }
        let facts = r.facts;
        if c.order & 16 != 0 {
            r.lasting.clear();
        }
        if c.order & 32 != 0 {
            r.slab = None;
        }
        if c.order & 64 != 0 {
            r.buffer = None;
        }
        drop(r);
        let left = heap() - before;
        verdict = verdict.and_then(|_| {
            if left != 0 {
                return Err(engine::Failure::new(
                    "left",
                    format!("{left} bytes are held after the allocator and all of its handles and buffers are gone"),
                ));
            }
            Ok(())
        });
        (facts, verdict)
    };
    for (i, l) in [(DIED, "dropped within the cycle"), (SETS, "lasting values set"), (COMMITS, "commits within the cycle"), (WEAK, "weak handles")] {
        if facts[i] > 0 {
            st.label(l);
        }
    }
    if if c.gone { facts[SETS] > 0 } else { facts[DIED] > 0 && facts[COMMITS] > 0 } {
        st.nontrivial();
    }
    st.note(format!("{facts:?}"));
    verdict
}

pub fn check() -> Check {
    Check {
        id: "C26",
        rule: "a cycle of operations is repeated 900 times, and drops values and commits before its end (with the allocator gone: sets values that live on)",
        assumptions: vec![
            "growth by less than 1000 bytes in 750 repetitions, 2 bytes in each, is not seen",
            "the heap of the CPU runtime's buffers is counted by their capacity, and memory of other runtimes is not looked at (C23 counts their buffers)",
        ],
        families: vec![
            Box::new(Family::new("cycles", 20_000, 500_000, || cycles(false), memory)),
            Box::new(Family::new("without the allocator", 6_000, 100_000, || cycles(true), memory)),
        ],
    }
}

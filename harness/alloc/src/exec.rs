//! Histories of operations on an allocator, and the model they are compared to.
use crate::handle::{types, Ty, H, K, TRACKED, TYPES};
use crate::rt::{Backend, Inner, Known};
use craballoc::prelude::*;
use engine::{words::words, Failure};
use items::Word;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use std::rc::Rc;
use std::sync::atomic::Ordering;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// create a value
    New { ty: u8, how: u8, words: Vec<u32> },
    /// create an array
    NewArray { ty: u8, how: u8, n: u16, words: Vec<u32> },
    /// create an array that takes some more (or less) than 65536 words
    NewHuge { ty: u8, how: u8, more: u16, words: Vec<u32> },
    /// create many values of a few types
    NewMany { ty: u8, n: u16 },
    /// set through a handle
    Set { h: u16, mode: u8, item: u8, words: Vec<u32> },
    /// set many items of an array, or a value many times
    Burst { h: u16, n: u16, word: u32 },
    /// user code panics in the middle of setting or creating
    Panic { h: u16, how: u8, item: u8, words: Vec<u32> },
    /// the next operations are done by a destructor that runs because user code panicked
    Unwind { n: u8 },
    Clone { h: u16 },
    Drop { h: u16 },
    /// drop a run of handles
    DropMany { from: u16, n: u16, step: u8 },
    IntoGpu { h: u16 },
    Weak { h: u16, gpu: bool },
    Upgrade { h: u16, gpu: bool },
    Inspect { h: u16, item: u8 },
    Commit { keep: bool, old: bool },
    CommitMany { n: u16 },
    /// create empty arrays and drop them
    Ids { n: u16 },
    /// look at the pending updates
    Peek,
    /// the GPU writes a word
    Poke { at: u16, word: u32 },
    Defrag,
    CloneAllocator,
    DropClone,
    GetBuffer,
    CloneBuffer { b: u8 },
    UpdateBuffer { b: u8, old: bool },
    DropBuffer { b: u8 },
    /// all handles to the allocator
    DropAllocator,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub fill: u32,
    pub label: u8,
    pub usages: u8,
    pub ops: Vec<Op>,
    /// the order of the final drops
    pub order: u8,
}

/// Weights of the operations.
#[derive(Clone)]
pub struct Profile {
    /// types to choose from
    pub types: u8,
    pub max_ops: usize,
    pub new: u32,
    pub array: u32,
    pub huge: u32,
    pub many: u32,
    pub set: u32,
    pub burst: u32,
    pub panic: u32,
    pub clone: u32,
    pub drop: u32,
    pub drop_many: u32,
    pub into_gpu: u32,
    pub weak: u32,
    pub inspect: u32,
    pub commit: u32,
    pub commit_many: u32,
    pub ages: u32,
    pub peek: u32,
    pub poke: u32,
    pub allocators: u32,
    pub buffers: u32,
    pub gone: u32,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            types: TYPES,
            max_ops: 70,
            new: 14,
            array: 8,
            huge: 0,
            many: 1,
            set: 24,
            burst: 1,
            panic: 0,
            clone: 4,
            drop: 12,
            drop_many: 1,
            into_gpu: 3,
            weak: 3,
            inspect: 3,
            commit: 14,
            commit_many: 0,
            ages: 0,
            peek: 3,
            poke: 6,
            allocators: 1,
            buffers: 4,
            gone: 0,
        }
    }
}

pub fn histories(p: Profile) -> BoxedStrategy<History> {
    let types = p.types;
    let ty = move || {
        prop_oneof![
            2 => 0..6u8.min(types),
            1 => 0..types,
        ]
    };
    let h = || any::<u16>();
    let n = || prop_oneof![12 => 0u16..6, 5 => 6u16..40, 1 => 40u16..2000];
    let item = || prop_oneof![10 => 0u8..8, 4 => 8u8..250, 1 => 250u8..=255];
    let all: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (p.new, (ty(), any::<u8>(), words(6)).prop_map(|(ty, how, words)| Op::New { ty, how, words }).boxed()),
        (p.array, (ty(), any::<u8>(), n(), words(8)).prop_map(|(ty, how, n, words)| Op::NewArray { ty, how, n, words }).boxed()),
        (p.huge, (ty(), any::<u8>(), 0u16..6000, words(8)).prop_map(|(ty, how, more, words)| Op::NewHuge { ty, how, more, words }).boxed()),
        (p.many, (ty(), 2u16..300).prop_map(|(ty, n)| Op::NewMany { ty, n }).boxed()),
        (p.set, (h(), any::<u8>(), item(), words(6)).prop_map(|(h, mode, item, words)| Op::Set { h, mode, item, words }).boxed()),
        (p.burst, (h(), 2u16..300, any::<u32>()).prop_map(|(h, n, word)| Op::Burst { h, n, word }).boxed()),
        (p.panic, (h(), any::<u8>(), item(), words(6)).prop_map(|(h, how, item, words)| Op::Panic { h, how, item, words }).boxed()),
        (p.panic / 2, (1u8..5).prop_map(|n| Op::Unwind { n }).boxed()),
        (p.clone, h().prop_map(|h| Op::Clone { h }).boxed()),
        (p.drop, h().prop_map(|h| Op::Drop { h }).boxed()),
        (p.drop_many, (h(), 2u16..40, 1u8..3).prop_map(|(from, n, step)| Op::DropMany { from, n, step }).boxed()),
        (p.into_gpu, h().prop_map(|h| Op::IntoGpu { h }).boxed()),
        (p.weak, (h(), any::<bool>()).prop_map(|(h, gpu)| Op::Weak { h, gpu }).boxed()),
        (p.weak, (h(), any::<bool>()).prop_map(|(h, gpu)| Op::Upgrade { h, gpu }).boxed()),
        (p.inspect, (h(), item()).prop_map(|(h, item)| Op::Inspect { h, item }).boxed()),
        (p.commit, (prop::bool::weighted(0.3), prop::bool::weighted(0.1)).prop_map(|(keep, old)| Op::Commit { keep, old }).boxed()),
        (p.commit_many, (2u16..300).prop_map(|n| Op::CommitMany { n }).boxed()),
        (p.ages, (u16::MAX - 300..=u16::MAX).prop_map(|n| Op::CommitMany { n }).boxed()),
        (p.ages, (u16::MAX - 300..=u16::MAX).prop_map(|n| Op::Ids { n }).boxed()),
        (p.peek, Just(Op::Peek).boxed()),
        (p.poke, (any::<u16>(), any::<u32>()).prop_map(|(at, word)| Op::Poke { at, word }).boxed()),
        (p.allocators, Just(Op::CloneAllocator).boxed()),
        (p.allocators, Just(Op::DropClone).boxed()),
        (p.allocators, Just(Op::Defrag).boxed()),
        (p.buffers, Just(Op::GetBuffer).boxed()),
        (p.buffers, any::<u8>().prop_map(|b| Op::CloneBuffer { b }).boxed()),
        (p.buffers, (any::<u8>(), prop::bool::weighted(0.2)).prop_map(|(b, old)| Op::UpdateBuffer { b, old }).boxed()),
        (p.buffers, any::<u8>().prop_map(|b| Op::DropBuffer { b }).boxed()),
        (p.gone, Just(Op::DropAllocator).boxed()),
    ];
    let op = prop::strategy::Union::new_weighted(all.into_iter().filter(|o| o.0 > 0).collect());
    let max = p.max_ops;
    (
        prop_oneof![Just(0u32), any::<u32>()],
        0u8..4,
        any::<u8>(),
        prop_oneof![
            1 => prop::collection::vec(op.clone(), 1..=12),
            3 => prop::collection::vec(op, 12..=max),
        ],
        any::<u8>(),
    )
        .prop_map(|(fill, label, usages, ops, order)| History {
            fill,
            label,
            usages,
            ops,
            order,
        })
        .boxed()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Never,
    Live,
    /// dropped, but no commit since
    Limbo,
    Free,
}

/// A modelled allocation.
struct A {
    name: &'static str,
    at: u32,
    /// words
    n: usize,
    item: usize,
    tracked: bool,
    cpu: Rc<Vec<Vec<Word>>>,
    owners: usize,
    cpu_owners: usize,
    uid: usize,
    pending: bool,
    released: bool,
    /// user code panicked while it was locked, so that only its GPU side can be used
    poisoned: bool,
}

struct Held<R: IsRuntime> {
    buf: SlabBuffer<R::Buffer>,
    ident: usize,
    created: usize,
    /// contents from when it was replaced on
    last: Option<Vec<u32>>,
}

/// What happened in a history.
#[derive(Default, Debug)]
pub struct Facts {
    pub commits: usize,
    pub grows: usize,
    pub values: usize,
    pub arrays: usize,
    /// updates of committed values
    pub updates: usize,
    pub deaths: usize,
    /// allocations that reused words, and those of them that merged dropped neighbours
    pub reuses: usize,
    pub merged: usize,
    /// words that held a GPU write over a commit, and over one that replaced the buffer
    pub kept_pokes: usize,
    pub kept_grown: usize,
    pub shared_sets: usize,
    pub upgrades: usize,
    pub failed_upgrades: usize,
    pub gpu_only: usize,
    pub out_of_range: usize,
    pub lock_only: usize,
    pub commits_in_lock: usize,
    pub peeks_pending: usize,
    pub peeks_clean: usize,
    pub refreshed: usize,
    pub stale: usize,
    pub gone_sets: usize,
    pub gone_stale: usize,
    pub gone_pending: bool,
    pub queue: usize,
    pub idle_commits: usize,
    pub released_cpu: usize,
    pub released_bufs: usize,
    pub max_words: usize,
    /// panics of user code, and what happened after one
    pub panics: usize,
    pub unwound: usize,
    pub commits_after_panic: usize,
    pub poisoned_reclaimed: usize,
    pub poisoned_set: usize,
}

pub struct Exec<R: Backend> {
    rt: R,
    tys: Vec<Ty<R>>,
    allocators: Vec<SlabAllocator<R>>,
    turn: usize,
    gone: bool,
    slots: Vec<(Option<Box<dyn H>>, usize)>,
    all: Vec<A>,
    state: Vec<S>,
    free: usize,
    /// target of updates that were not committed yet
    dirty: Vec<Option<Word>>,
    buf: Option<(usize, Vec<u32>)>,
    created: usize,
    new_at_last: bool,
    touched: BTreeSet<usize>,
    locked: BTreeSet<usize>,
    peeked: bool,
    poked: HashSet<usize>,
    held: Vec<Held<R>>,
    pub facts: Facts,
    pub failures: Vec<(Vec<&'static str>, Failure)>,
    queued: usize,
    huge: bool,
    /// words that many commits have looked at
    work: usize,
}

fn spread(r: &[S], s: S) -> bool {
    r.iter().all(|x| *x == s)
}

impl<R: Backend> Exec<R> {
    pub fn new(rt: R, h: &History) -> Self {
        TRACKED.with(|t| t.set(0));
        let usages = h.usages as u32;
        let label = label(h.label);
        let a = match &label {
            None => SlabAllocator::new(Wrap(rt.clone()), R::usages(usages)),
            Some(l) => SlabAllocator::new_with_label(Wrap(rt.clone()), R::usages(usages), Some(l)),
        };
        Exec {
            rt,
            tys: types(),
            allocators: vec![a],
            turn: 0,
            gone: false,
            slots: vec![],
            all: vec![],
            state: vec![],
            free: 0,
            dirty: vec![],
            buf: None,
            created: 0,
            new_at_last: false,
            touched: Default::default(),
            locked: Default::default(),
            peeked: false,
            poked: Default::default(),
            held: vec![],
            facts: Default::default(),
            failures: vec![],
            queued: 0,
            huge: false,
            work: 0,
        }
    }

    fn fail(&mut self, tags: &[&'static str], sig: &str, msg: String) {
        let mut tags = tags.to_vec();
        if self.gone {
            tags.push("C22");
        }
        if self.failures.len() < 60 {
            self.failures.push((tags, Failure::new(sig, msg)));
        }
    }

    fn log(&self) -> Option<&Inner> {
        self.rt.log()
    }

    fn allocator(&mut self) -> Option<SlabAllocator<R>> {
        if self.gone {
            return None;
        }
        self.turn += 1;
        Some(self.allocators[self.turn % self.allocators.len()].clone())
    }

    fn range(&self, a: usize) -> std::ops::Range<usize> {
        let a = &self.all[a];
        a.at as usize..a.at as usize + a.n
    }

    /// A handle to a new allocation was made.
    fn born(&mut self, h: Box<dyn H>, ty: usize, n: Option<usize>, values: Vec<Vec<Word>>) {
        let t = &self.tys[ty];
        let (name, item, tracked) = (t.name, t.size, t.tracked);
        let items = n.unwrap_or(1);
        let words = items * item;
        let empty = items == 0;
        let at = h.at();
        let uid = h.uid();
        let what = match n {
            None => format!("a new {name}"),
            Some(n) => format!("a new array of {n} {name}"),
        };
        if n.is_some() {
            self.facts.arrays += 1;
        } else {
            self.facts.values += 1;
        }
        if h.kind() == K::Gpu || h.kind() == K::GpuArray {
            self.facts.gpu_only += 1;
        }
        if let Some(n) = n {
            if h.len() != Some(n as u32) {
                self.fail(&["C12", "C15"], "length", format!("{what} has length {:?}", h.len()));
            }
            if empty && at != u32::MAX {
                self.fail(&["C12"], "empty-not-null", format!("{what} is at {at}"));
            }
        }
        // Identity
        if let Some(o) = self.all.iter().find(|o| !o.released && o.uid == uid) {
            let m = format!("{what} has the identifier {uid} of another {}", o.name);
            self.fail(&["C16", "C15"], "identifier-reused", m);
        }
        let mut good = true;
        if words > 0 && !empty {
            let (s, e) = (at as usize, at as usize + words);
            if e > (1 << 24) {
                self.fail(&["C12"], "position", format!("{what} is at {at}"));
                good = false;
            } else {
                // Is there a run of reclaimed words that it fits in?
                let mut best = (0, 0);
                if self.free > 0 {
                    let mut start = 0;
                    for i in 0..=self.state.len() {
                        if i == self.state.len() || self.state[i] != S::Free {
                            if i - start > best.1 {
                                best = (start, i - start);
                            }
                            start = i + 1;
                        }
                    }
                }
                if self.state.len() < e {
                    self.state.resize(e, S::Never);
                    self.dirty.resize(e, None);
                }
                if let Some(i) = (s..e).find(|i| self.state[*i] == S::Live) {
                    self.fail(
                        &["C12", "C13"],
                        "overlap",
                        format!("{what} takes words {s}..{e}, but word {i} is that of a live value"),
                    );
                } else if let Some(i) = (s..e).find(|i| self.state[*i] == S::Limbo) {
                    self.fail(
                        &["C13"],
                        "reused-early",
                        format!("{what} takes words {s}..{e}, but word {i} was dropped and no commit followed"),
                    );
                } else if best.1 >= words && !spread(&self.state[s..e], S::Free) {
                    self.fail(
                        &["C13"],
                        "not-reused",
                        format!(
                            "{what} takes words {s}..{e}, but words {}..{} are reclaimed and large enough",
                            best.0,
                            best.0 + best.1
                        ),
                    );
                }
                if best.1 >= words {
                    self.facts.reuses += 1;
                    // did no single allocation leave that much behind?
                    let dead = self.all.iter().filter(|a| a.released && a.n >= words).count();
                    if dead == 0 {
                        self.facts.merged += 1;
                    }
                }
                for i in s..e {
                    if self.state[i] == S::Free {
                        self.free -= 1;
                    }
                    self.state[i] = S::Live;
                }
                self.facts.max_words = self.facts.max_words.max(self.state.len());
            }
        } else if at != u32::MAX {
            // no words, but it must lie in the slab
            if at as usize > self.state.len() {
                self.fail(&["C12"], "position", format!("{what} is at {at}, the slab has {} words", self.state.len()));
            }
        }
        let has_cpu = h.kind().has_cpu();
        self.touched.insert(uid);
        self.queued += 1;
        if good {
            for (k, w) in values.iter().flatten().enumerate() {
                self.dirty[at as usize + k] = Some(*w);
            }
        }
        self.all.push(A {
            name,
            at,
            n: if good { words } else { 0 },
            item,
            tracked,
            cpu: Rc::new(values),
            owners: 1,
            cpu_owners: usize::from(has_cpu),
            uid,
            pending: !empty,
            released: false,
            poisoned: false,
        });
        self.slots.push((Some(h), self.all.len() - 1));
    }

    fn create(&mut self, ty: u8, how: u8, n: Option<usize>, words: &[u32]) {
        let most = if self.huge { 220_000 } else { 40_000 };
        if self.slots.len() > 900 || self.state.len() > most {
            return;
        }
        let Some(a) = self.allocator() else { return };
        let ty = ty as usize % self.tys.len();
        let t = &self.tys[ty];
        let values = (t.values)(words, n.unwrap_or(1));
        let h = match n {
            None => (t.new)(&a, how, words),
            Some(n) => (t.new_array)(&a, how, words, n),
        };
        self.born(h, ty, n, values);
    }

    fn slot(&self, h: u16) -> Option<usize> {
        (!self.slots.is_empty()).then(|| h as usize * 7 % self.slots.len())
    }

    fn died(&mut self, a: usize) {
        self.facts.deaths += 1;
        self.facts.poisoned_reclaimed += usize::from(self.all[a].poisoned);
        for i in self.range(a) {
            self.state[i] = S::Limbo;
            if self.dirty[i].is_some() {
                // unknown whether it is still written
                self.dirty[i] = Some(None);
            }
        }
        if self.all[a].pending {
            self.facts.gone_pending |= self.gone;
        }
        self.all[a].pending = false;
    }

    fn lost_owner(&mut self, a: usize, kind: K) {
        let x = &mut self.all[a];
        self.touched.insert(x.uid);
        if kind.has_cpu() {
            x.cpu_owners -= 1;
            if x.cpu_owners == 0 {
                self.facts.released_cpu += 1;
            }
        }
        x.owners -= 1;
        if x.owners == 0 {
            self.died(a);
        }
    }

    fn drop_slot(&mut self, i: usize) {
        let (h, a) = self.slots.swap_remove(i);
        let h = h.expect("not in use");
        let kind = h.kind();
        drop(h);
        if kind.owns() {
            self.lost_owner(a, kind);
        }
    }

    /// A handle agrees with the model about its identity.
    fn same(&mut self, i: usize) {
        let (h, a) = &self.slots[i];
        let (h, a) = (h.as_ref().expect("not in use"), &self.all[*a]);
        let kind = h.kind();
        let mut bad = vec![];
        if kind != K::WeakGpu && h.at() != a.at {
            bad.push(format!("a {kind:?} of {} at {} says it is at {}", a.name, a.at, h.at()));
        }
        if h.uid() != a.uid {
            bad.push(format!("a {kind:?} of {} has the identifier {}, not {}", a.name, h.uid(), a.uid));
        }
        if let Some(l) = h.len() {
            if l as usize != a.cpu.len() {
                bad.push(format!("a {kind:?} of {} {} has length {l}", a.cpu.len(), a.name));
            }
        }
        if let Some(r) = h.refs() {
            if r != a.owners {
                bad.push(format!("a {kind:?} of {} counts {r} owners, there are {}", a.name, a.owners));
            }
        }
        if a.poisoned {
        } else if let Some(v) = h.values() {
            if v != *a.cpu {
                let k = (0..).find(|k| v.get(*k) != a.cpu.get(*k)).unwrap_or(0);
                let (v, latest) = (v.get(k), a.cpu.get(k));
                bad.push(format!("a {kind:?} of {} at {} sees {v:x?} as its item {k}, the latest is {latest:x?}", a.name, a.at));
            }
        }
        for b in bad {
            self.fail(&["C15"], "handle", b);
        }
    }

    /// What user code does while a value is locked.
    fn inside(&mut self, how: u8, words: &[u32]) {
        if self.gone {
            return;
        }
        match how >> 4 {
            0..=6 => self.commit(false, false),
            7..=9 => {
                self.create(how, how, None, words);
                self.commit(false, false);
            }
            10..=12 => self.create(how, how, Some(words.len()), words),
            _ => self.peek(),
        }
    }

    /// User code panics while it changes a value.
    fn user_panics(&mut self, i: usize, how: u8, item: usize, words: &[u32]) {
        if self.all[self.slots[i].1].poisoned {
            return;
        }
        let (h, ai) = {
            let s = &mut self.slots[i];
            (s.0.take().expect("not in use"), s.1)
        };
        let (called, errors) = h.panic(how, item, words, &mut || self.inside(how, words));
        self.slots[i].0 = Some(h);
        for m in errors {
            self.fail(&["C27"], "panic", m);
        }
        if called {
            self.facts.panics += 1;
            let range = self.range(ai);
            let x = &mut self.all[ai];
            x.poisoned = true;
            // whether what was left behind gets to the GPU is open
            self.touched.insert(x.uid);
            self.queued += 1;
            for i in range {
                self.dirty[i] = Some(None);
            }
        }
    }

    fn set(&mut self, i: usize, mode: u8, item: usize, words: &[u32]) {
        {
            let (h, a) = &self.slots[i];
            if self.all[*a].poisoned {
                if h.as_ref().unwrap().kind().has_cpu() {
                    return;
                }
                self.facts.poisoned_set += 1;
            }
        }
        let (h, ai) = {
            let s = &mut self.slots[i];
            (s.0.take().expect("not in use"), s.1)
        };
        let model = self.all[ai].cpu.clone();
        let before = self.facts.commits;
        let o = h.set(mode, item, words, &model, &mut || self.inside(mode, words));
        if self.facts.commits > before {
            self.facts.commits_in_lock += 1;
        }
        self.slots[i].0 = Some(h);
        drop(model);
        for m in o.errors {
            self.fail(&["C15"], "result", m);
        }
        let kind = self.slots[i].0.as_ref().unwrap().kind();
        let x = &mut self.all[ai];
        if o.queued {
            self.touched.insert(x.uid);
            self.queued += 1;
            x.pending = true;
            if self.gone {
                self.facts.gone_sets += 1;
            }
        } else if kind == K::Hybrid {
            self.locked.insert(x.uid);
            self.facts.lock_only += 1;
        } else if kind == K::Array || kind == K::GpuArray {
            self.facts.out_of_range += 1;
        }
        if let Some((k, w)) = o.changed {
            if x.owners > 1 {
                self.facts.shared_sets += 1;
            }
            let at = x.at as usize + k * x.item;
            if x.n > 0 {
                if self.buf.as_ref().is_some_and(|b| b.1.len() > at) && self.dirty[at].is_none() {
                    self.facts.updates += 1;
                }
                for (j, w) in w.iter().enumerate() {
                    self.dirty[at + j] = Some(*w);
                }
            }
            if o.cpu {
                Rc::make_mut(&mut x.cpu)[k] = w;
            }
        }
    }

    /// The buffer holds what it should, and has not changed since the last commit.
    fn unchanged(&mut self) {
        let Some(a) = self.allocator() else {
            self.stale();
            return;
        };
        let got = a.get_buffer();
        match (&self.buf, got) {
            (None, None) => (),
            (None, Some(_)) => self.fail(&["C11"], "early-buffer", "there is a buffer before the first commit".into()),
            (Some(_), None) => self.fail(&["C11", "C14"], "lost-buffer", "there is no buffer after a commit".into()),
            (Some((ident, words)), Some(b)) => {
                if R::ident(&b) != *ident {
                    self.fail(&["C14", "C11"], "other-buffer", "the buffer was replaced without a commit".into());
                } else {
                    let now = R::words(&b);
                    if let Some(i) = (0..words.len().max(now.len())).find(|i| words.get(*i) != now.get(*i)) {
                        let m = format!(
                            "word {i} of the buffer changed without a commit from {:x?} to {:x?}",
                            words.get(i),
                            now.get(i)
                        );
                        self.fail(&["C11"], "changed-without-commit", m);
                        self.buf.as_mut().unwrap().1 = now;
                    }
                }
            }
        }
        self.stale();
    }

    /// Held buffers are as valid as they should be and keep their contents.
    fn stale(&mut self) {
        let mut bad = vec![];
        for h in &self.held {
            let current = h.last.is_none();
            let b = &h.buf;
            if R::ident(b) != h.ident {
                bad.push(format!("buffer {} became another", h.ident));
            }
            if b.is_valid() != current || b.is_invalid() == current {
                bad.push(format!(
                    "a buffer with creation time {} says valid={}, although current={current}",
                    h.created,
                    b.is_valid()
                ));
            }
            if b.creation_time() != h.created {
                bad.push(format!("the creation time of a buffer changed from {} to {}", h.created, b.creation_time()));
            }
            #[allow(deprecated)]
            let new = [b.is_new_this_commit(), b.is_new_this_upkeep()];
            if new != [current && self.new_at_last; 2] {
                bad.push(format!(
                    "a buffer with current={current} says is_new={}, but the latest commit created one: {}",
                    b.is_new_this_commit(),
                    self.new_at_last
                ));
            }
            if let Some(l) = &h.last {
                if R::words(b) != *l {
                    bad.push("the contents of a replaced buffer changed".into());
                }
            }
        }
        for b in bad {
            self.fail(&["C14"], "buffer", b);
        }
        if self.gone {
            // nothing changes any more
            let bad = self.held.iter().filter(|h| h.last.is_none()).any(|h| {
                Some(R::words(&h.buf)) != self.buf.as_ref().map(|b| b.1.clone())
            });
            if bad {
                self.fail(&["C11"], "changed-without-commit", "a buffer changed without its allocator".into());
            }
        }
    }

    fn buffers_alive(&mut self) {
        let Some(log) = self.log() else { return };
        let live = log.live.load(Ordering::SeqCst);
        let mut ids: BTreeSet<usize> = self.held.iter().map(|h| h.ident).collect();
        if !self.gone {
            ids.extend(self.buf.as_ref().map(|b| b.0));
        }
        if live != ids.len() as i64 {
            self.fail(
                &["C23"],
                "buffers",
                format!("{live} buffers exist, but the allocator and holders only have {ids:?}"),
            );
        }
    }

    fn tracked_alive(&mut self) {
        let want: usize = self
            .all
            .iter()
            .filter(|a| a.tracked && a.cpu_owners > 0)
            .map(|a| a.cpu.len())
            .sum();
        let got = TRACKED.with(|t| t.get());
        if got != want as i64 {
            self.fail(
                &["C23"],
                "values",
                format!("{got} CPU values exist, {want} have a handle"),
            );
            // from here on, complain about further ones
            TRACKED.with(|t| t.set(want as i64));
        }
    }

    pub fn commit(&mut self, keep: bool, old: bool) {
        self.unchanged();
        let Some(a) = self.allocator() else { return };
        // keeps identities apart
        let prev = a.get_buffer();
        let prev_ident = prev.as_ref().map(|b| R::ident(b));
        let (calls, writes) = match self.log() {
            Some(l) => {
                l.in_commit.store(true, Ordering::SeqCst);
                (l.calls.load(Ordering::SeqCst), l.writes.load(Ordering::SeqCst))
            }
            None => (0, 0),
        };
        #[allow(deprecated)]
        let b = if old { a.upkeep() } else { a.commit() };
        self.facts.commits += 1;
        self.facts.commits_after_panic += usize::from(self.facts.panics > 0);
        let ident = R::ident(&b);
        let now = R::words(&b);
        let new = prev_ident != Some(ident);
        let mut errors = vec![];
        if let Some(l) = self.log() {
            l.in_commit.store(false, Ordering::SeqCst);
            l.expect.lock().unwrap().latest = Some((ident, now.len()));
            errors = std::mem::take(&mut *l.errors.lock().unwrap());
            if !l.expect.lock().unwrap().copied {
                errors.push("a new buffer was not filled from the previous one".into());
                l.expect.lock().unwrap().copied = true;
            }
            let (calls, writes) = (
                l.calls.load(Ordering::SeqCst) - calls,
                l.writes.load(Ordering::SeqCst) - writes,
            );
            if !R::agrees(&b) {
                errors.push("the CPU runtime has other contents after the same calls".into());
            }
            if self.queued == 0 && writes > 0 {
                errors.push(format!("{writes} writes were made though nothing was updated"));
            }
            if self.queued == 0 && !new && calls > 0 {
                errors.push(format!("the runtime was called {calls} times though there was nothing to do"));
            }
        }
        for e in errors {
            self.fail(&["C21"], "runtime", e);
        }
        if self.queued == 0 {
            self.facts.idle_commits += 1;
        }
        self.facts.queue = self.facts.queue.max(self.queued);
        self.queued = 0;
        // the same buffer for everybody
        match a.get_buffer() {
            Some(g) if R::ident(&g) == ident => (),
            _ => self.fail(&["C14"], "other-buffer", "commit did not return the buffer of the allocator".into()),
        }
        let old_len = self.buf.as_ref().map(|b| b.1.len());
        let high = self.state.len();
        if let Some(old_len) = old_len {
            if new {
                self.facts.grows += 1;
                if high <= old_len {
                    self.fail(
                        &["C14"],
                        "replaced-needlessly",
                        format!("the buffer of {old_len} words was replaced, but only {high} were ever allocated"),
                    );
                }
                if now.len() <= old_len {
                    self.fail(
                        &["C14"],
                        "shrunk",
                        format!("the buffer of {old_len} words was replaced by one of {}", now.len()),
                    );
                }
            }
        }
        let created = b.creation_time();
        if new && old_len.is_some() && created <= self.created {
            self.fail(
                &["C14"],
                "creation-time",
                format!("a buffer has creation time {created}, an earlier one {}", self.created),
            );
        }
        if !new && created != self.created {
            self.fail(&["C14"], "creation-time", format!("the creation time changed from {} to {created}", self.created));
        }
        self.created = created;
        if !b.is_valid() {
            self.fail(&["C14"], "invalid", "commit returned an invalid buffer".into());
        }
        if b.is_new_this_commit() != new {
            self.fail(&["C14"], "new", format!("is_new_this_commit of a buffer with new={new} is {}", !new));
        }
        self.new_at_last = new;
        for i in 0..self.all.len() {
            if self.all[i].owners > 0 && self.all[i].n > 0 && self.range(i).end > now.len() {
                let m = format!(
                    "{} at words {:?} is outside of the committed buffer of {} words",
                    self.all[i].name,
                    self.range(i),
                    now.len()
                );
                self.fail(&["C12"], "outside", m);
            }
        }
        // Contents
        let empty = vec![];
        let before = self.buf.as_ref().map(|b| &b.1).unwrap_or(&empty);
        let mut bad: Vec<(Vec<&'static str>, &str, String)> = vec![];
        for i in 0..now.len().max(before.len()) {
            if bad.len() > 3 {
                break;
            }
            let live = self.state.get(i) == Some(&S::Live);
            let got = now.get(i).copied();
            match self.dirty.get(i).copied().flatten() {
                Some(Some(want)) if live => {
                    if got != Some(want) {
                        let mut tags = vec!["C10"];
                        if self.peeked {
                            tags.push("C16");
                        }
                        if new {
                            tags.push("C14");
                        }
                        bad.push((
                            tags,
                            "not-committed",
                            format!("word {i} is {got:x?} after a commit, the latest value has {want:x}"),
                        ));
                    }
                }
                // unknown, or somebody else's problem
                Some(_) => (),
                None => {
                    if let Some(want) = before.get(i) {
                        if got != Some(*want) {
                            let mut tags = vec!["C11"];
                            if live {
                                tags.push("C10");
                            }
                            if new {
                                tags.push("C14");
                            }
                            bad.push((
                                tags,
                                "changed-by-commit",
                                format!(
                                    "word {i} was not updated, but changed from {want:x} to {got:x?} in a commit that replaced the buffer: {new}"
                                ),
                            ));
                        } else if self.poked.contains(&i) {
                            self.facts.kept_pokes += 1;
                            if new {
                                self.facts.kept_grown += 1;
                            }
                        }
                    }
                }
            }
        }
        for (t, s, m) in bad {
            self.fail(&t, s, m);
        }
        // held buffers
        let last = self.buf.take().map(|b| b.1);
        if new {
            for h in &mut self.held {
                if h.last.is_none() {
                    h.last = last.clone();
                    self.facts.stale += 1;
                }
            }
            if last.is_some() && self.held.iter().all(|h| Some(h.ident) != prev_ident) {
                self.facts.released_bufs += 1;
            }
        }
        self.buf = Some((ident, now));
        drop(prev);
        self.dirty.iter_mut().for_each(|d| *d = None);
        for s in &mut self.state {
            if *s == S::Limbo {
                *s = S::Free;
                self.free += 1;
            }
        }
        for x in &mut self.all {
            x.pending = false;
            if x.owners == 0 {
                x.released = true;
            }
        }
        self.touched.clear();
        self.locked.clear();
        self.peeked = false;
        if a.has_queued_updates() {
            self.fail(&["C16"], "queued-after-commit", "updates are queued right after a commit".into());
        }
        if keep && self.held.len() < 12 {
            self.held.push(Held {
                buf: b,
                ident,
                created,
                last: None,
            });
        } else {
            drop(b);
        }
        drop(a);
        self.stale();
        self.buffers_alive();
    }

    fn peek(&mut self) {
        let Some(a) = self.allocator() else { return };
        let q1 = a.has_queued_updates();
        let ids: BTreeSet<usize> = a.get_updated_source_ids().into_iter().collect();
        let q2 = a.has_queued_updates();
        let again: BTreeSet<usize> = a.get_updated_source_ids().into_iter().collect();
        if ids != again || q1 != q2 {
            self.fail(
                &["C16"],
                "lost-by-looking",
                format!("looking again at the pending updates {ids:?} gives {again:?} ({q1}, {q2})"),
            );
        }
        let mut bad = vec![];
        let mut pending = false;
        for x in &self.all {
            if x.pending && x.owners > 0 {
                pending = true;
                if !ids.contains(&x.uid) {
                    bad.push((vec!["C16"], format!("{} {} has a pending update, but only {ids:?} are reported", x.name, x.uid)));
                }
            }
        }
        if pending && !q1 {
            bad.push((vec!["C16"], "has_queued_updates is false, but there are some".into()));
        }
        if self.touched.is_empty() && q1 {
            let mut tags = vec!["C16"];
            if !self.locked.is_empty() {
                tags.push("C15");
            }
            bad.push((tags, "has_queued_updates is true, but nothing was done".into()));
        }
        for id in &ids {
            if !self.touched.contains(id) {
                let mut tags = vec!["C16"];
                if self.locked.contains(id) {
                    tags.push("C15");
                }
                bad.push((tags, format!("{id} is reported, but was not created, changed or dropped since the last commit")));
            }
        }
        for (t, m) in bad {
            self.fail(&t, "pending", m);
        }
        self.peeked |= pending;
        if pending {
            self.facts.peeks_pending += 1;
        } else {
            self.facts.peeks_clean += 1;
        }
    }

    fn item(item: u8, n: usize) -> usize {
        match item {
            255 => usize::MAX,
            254 => u32::MAX as usize,
            253 => n,
            // anywhere in a large one
            i if n > 1000 => i as usize * (n / 249 + 1) % (n + 2),
            i => i as usize % (n + 2),
        }
    }

    pub fn step(&mut self, op: &Op) {
        match op {
            Op::New { ty, how, words } => self.create(*ty, *how, None, words),
            Op::NewArray { ty, how, n, words } => {
                self.create(*ty, *how, Some(*n as usize), words)
            }
            Op::NewHuge { ty, how, more, words } => {
                self.huge = true;
                let size = self.tys[*ty as usize % self.tys.len()].size.max(1);
                self.create(*ty, *how, Some((64_000 + *more as usize).div_ceil(size)), words)
            }
            Op::NewMany { ty, n } => {
                for k in 0..*n {
                    let t = if k % 3 == 0 { *ty } else { (k % 6) as u8 };
                    self.create(t, 0, None, &[k as u32, 0x1000 + k as u32]);
                }
            }
            Op::Set { h, mode, item, words } => {
                if let Some(i) = self.slot(*h) {
                    let item = Self::item(*item, self.all[self.slots[i].1].cpu.len());
                    self.set(i, *mode, item, words);
                    self.same(i);
                }
            }
            Op::Burst { h, n, word } => {
                // prefer arrays
                let from = self.slot(*h).unwrap_or(0);
                let m = self.slots.len();
                let Some(i) = (0..m)
                    .map(|k| (from + k) % m)
                    .find(|i| self.all[self.slots[*i].1].cpu.len() > 1)
                    .or(self.slot(*h))
                else {
                    return;
                };
                let len = self.all[self.slots[i].1].cpu.len().max(1);
                for k in 0..*n as u32 {
                    let r = engine::mix(*word as u64 + k as u64);
                    self.set(i, 0, r as usize % len, &[*word ^ k, k, (r >> 32) as u32]);
                }
                self.same(i);
            }
            Op::Unwind { .. } => {}
            Op::Panic { h, how, item, words } => {
                if how % 7 == 6 {
                    let Some(a) = self.allocator() else { return };
                    let t = &self.tys[*how as usize / 7 % self.tys.len()];
                    match (t.panic_array)(&a, words, *item as usize) {
                        Err(m) if m.starts_with("by the user") => self.facts.panics += 1,
                        r => self.fail(&["C27"], "panic", format!("the values of a new array panic, this comes out: {r:?}")),
                    }
                } else if let Some(i) = self.slot(*h) {
                    let item = Self::item(*item, self.all[self.slots[i].1].cpu.len());
                    self.user_panics(i, *how, item, words);
                    self.same(i);
                }
            }
            Op::Clone { h } => {
                if let Some(i) = self.slot(*h) {
                    let (h, a) = &self.slots[i];
                    let a = *a;
                    let d = h.as_ref().unwrap().duplicate();
                    let kind = d.kind();
                    if kind.owns() {
                        self.all[a].owners += 1;
                    }
                    if kind.has_cpu() {
                        self.all[a].cpu_owners += 1;
                    }
                    self.slots.push((Some(d), a));
                    self.same(i);
                    self.same(self.slots.len() - 1);
                }
            }
            Op::Drop { h } => {
                if let Some(i) = self.slot(*h) {
                    self.same(i);
                    self.drop_slot(i);
                }
            }
            Op::DropMany { from, n, step } => {
                let mut i = *from as usize % self.slots.len().max(1);
                for _ in 0..*n {
                    if i >= self.slots.len() {
                        break;
                    }
                    self.drop_slot(i);
                    i += *step as usize - 1;
                }
            }
            Op::IntoGpu { h } => {
                if let Some(i) = self.slot(*h) {
                    let (h, a) = &mut self.slots[i];
                    let a = *a;
                    let old = h.take().unwrap();
                    if old.kind().has_cpu() {
                        self.all[a].cpu_owners -= 1;
                        // this may count as a drop of a handle
                        self.touched.insert(self.all[a].uid);
                        if self.all[a].cpu_owners == 0 {
                            self.facts.released_cpu += 1;
                        }
                        self.facts.gpu_only += 1;
                    }
                    self.slots[i].0 = Some(old.into_gpu());
                    self.same(i);
                }
            }
            Op::Weak { h, gpu } => {
                if let Some(i) = self.slot(*h) {
                    let (h, a) = &self.slots[i];
                    let a = *a;
                    if let Some(w) = h.as_ref().unwrap().weak(*gpu) {
                        self.slots.push((Some(w), a));
                        self.same(self.slots.len() - 1);
                    }
                }
            }
            Op::Upgrade { h, gpu } => {
                // look for a weak one
                let from = self.slot(*h).unwrap_or(0);
                let m = self.slots.len();
                let Some(i) = (0..m)
                    .map(|k| (from + k) % m)
                    .find(|i| !self.slots[*i].0.as_ref().unwrap().kind().owns())
                else {
                    return;
                };
                let (h, a) = &self.slots[i];
                let a = *a;
                let h = h.as_ref().unwrap();
                let to_gpu = *gpu || h.kind() == K::WeakGpu;
                let can = if to_gpu {
                    self.all[a].owners > 0
                } else {
                    self.all[a].cpu_owners > 0
                };
                match h.upgrade(*gpu) {
                    Some(u) => {
                        if !can {
                            let m = format!("a weak handle to a dropped {} was upgraded", self.all[a].name);
                            self.fail(&["C15", "C13"], "upgrade-dead", m);
                            // don't keep it
                            drop(u);
                            self.touched.insert(self.all[a].uid);
                            return;
                        }
                        self.facts.upgrades += 1;
                        self.all[a].owners += 1;
                        if !to_gpu {
                            self.all[a].cpu_owners += 1;
                        }
                        self.slots.push((Some(u), a));
                        self.same(self.slots.len() - 1);
                    }
                    None => {
                        // a failed upgrade may have made and dropped a handle
                        self.touched.insert(self.all[a].uid);
                        if can {
                            let m = format!("a weak handle to a live {} was not upgraded", self.all[a].name);
                            self.fail(&["C15"], "upgrade", m);
                        }
                        self.facts.failed_upgrades += 1;
                    }
                }
            }
            Op::Inspect { h, item } => {
                if let Some(i) = self.slot(*h) {
                    let (h, a) = &self.slots[i];
                    let a = &self.all[*a];
                    if a.poisoned {
                        return;
                    }
                    let item = Self::item(*item, a.cpu.len());
                    let errors = h.as_ref().unwrap().inspect(item, &a.cpu);
                    for e in errors {
                        self.fail(&["C15"], "handle", e);
                    }
                    self.same(i);
                }
            }
            Op::Commit { keep, old } => {
                if !self.gone {
                    self.commit(*keep, *old)
                }
            }
            Op::CommitMany { n } => {
                for k in 0..*n {
                    // each looks at all words, and at those of all buffers that are held
                    let words: usize = self.held.iter().filter_map(|h| h.last.as_ref()).map(Vec::len).sum();
                    self.work += 60 + self.state.len() * 4 + words + self.all.len();
                    if self.gone || self.work > 60_000_000 {
                        break;
                    }
                    if let Some(i) = self.slot(k) {
                        if k % 2 == 0 {
                            self.set(i, 0, 0, &[k as u32]);
                        }
                    }
                    self.commit(false, false);
                }
            }
            Op::Ids { n } => {
                let Some(a) = self.allocator() else { return };
                let live: HashSet<usize> = self.all.iter().filter(|a| !a.released).map(|a| a.uid).collect();
                let mut before = None;
                let mut again = None;
                for _ in 0..*n {
                    let uid = a.new_array::<u32>([]).notifier_index();
                    self.touched.insert(uid);
                    if live.contains(&uid) || before == Some(uid) {
                        again = Some(uid);
                    }
                    before = Some(uid);
                }
                self.queued += *n as usize;
                if let Some(uid) = again {
                    self.fail(&["C16", "C15"], "identifier-reused", format!("an empty array has the identifier {uid} of another value"));
                }
            }
            Op::Peek => self.peek(),
            Op::Poke { at, word } => {
                let Some(a) = self.allocator() else { return };
                if let (Some(b), Some((_, words))) = (a.get_buffer(), &mut self.buf) {
                    let at = *at as usize * 5 % words.len();
                    self.rt.poke(&b, at as u32, *word);
                    words[at] = *word;
                    self.poked.insert(at);
                }
            }
            Op::Defrag => {
                if let Some(a) = self.allocator() {
                    a.defrag();
                }
            }
            Op::CloneAllocator => {
                if !self.gone && self.allocators.len() < 4 {
                    let c = self.allocators[self.turn % self.allocators.len()].clone();
                    self.allocators.push(c);
                }
            }
            Op::DropClone => {
                if self.allocators.len() > 1 {
                    let i = self.turn % self.allocators.len();
                    self.allocators.remove(i);
                }
            }
            Op::GetBuffer => {
                self.unchanged();
                let Some(a) = self.allocator() else { return };
                if let Some(b) = a.get_buffer() {
                    if self.held.len() < 12 && self.buf.is_some() {
                        self.held.push(Held {
                            ident: R::ident(&b),
                            created: b.creation_time(),
                            buf: b,
                            last: None,
                        });
                    }
                }
                self.stale();
            }
            Op::CloneBuffer { b } => {
                if !self.held.is_empty() && self.held.len() < 12 {
                    let h = &self.held[*b as usize % self.held.len()];
                    let c = Held {
                        buf: h.buf.clone(),
                        ident: h.ident,
                        created: h.created,
                        last: h.last.clone(),
                    };
                    self.held.push(c);
                    self.stale();
                }
            }
            Op::UpdateBuffer { b, old } => {
                if self.held.is_empty() {
                    return;
                }
                let k = *b as usize % self.held.len();
                let gone = self.gone;
                let (current, created) = (self.buf.as_ref().map(|b| b.0), self.created);
                let h = &mut self.held[k];
                let outdated = h.last.is_some();
                let want = outdated && !gone;
                #[allow(deprecated)]
                let got = if *old { h.buf.synchronize() } else { h.buf.update_if_invalid() };
                let ident = R::ident(&h.buf);
                let mut bad = vec![];
                if got != want {
                    bad.push(format!("updating a buffer that is outdated={outdated} gave {got}"));
                }
                let expect = if want { current } else { Some(h.ident) };
                if Some(ident) != expect {
                    bad.push(format!("after updating a buffer that was outdated={outdated} it is {ident}, expected {expect:?}"));
                }
                if want {
                    self.facts.refreshed += 1;
                    h.last = None;
                    h.ident = ident;
                    h.created = created;
                } else if gone && outdated {
                    self.facts.gone_stale += 1;
                }
                for b in bad {
                    self.fail(&["C14"], "update", b);
                }
                self.stale();
                self.buffers_alive();
            }
            Op::DropBuffer { b } => {
                if !self.held.is_empty() {
                    let k = *b as usize % self.held.len();
                    self.held.remove(k);
                    self.buffers_alive();
                }
            }
            Op::DropAllocator => self.drop_allocator(),
        }
    }

    fn read_back(&mut self) {
        if !R::READS {
            return;
        }
        let Some(a) = self.allocator() else { return };
        let words = self.buf.as_ref().map(|b| b.1.clone());
        let there = words.as_ref().map_or(0, |w| w.len());
        let values: Vec<_> = self
            .all
            .iter()
            .filter(|a| a.owners > 0 && a.at as usize + a.n <= there)
            .map(|a| (a.name, a.at, a.n.checked_div(a.item).unwrap_or(a.cpu.len())))
            .collect();
        let known = Known {
            words: words.as_deref(),
            len: self.state.len(),
            values: &values,
            turn: self.turn,
        };
        for e in self.rt.read_back(&a, &known) {
            self.fail(&["C24"], "read", e);
        }
    }

    pub fn drop_allocator(&mut self) {
        if self.gone {
            return;
        }
        self.unchanged();
        self.allocators.clear();
        self.gone = true;
        self.stale();
        self.buffers_alive();
    }

    fn checked_step(&mut self, op: &Op) {
        self.step(op);
        self.tracked_alive();
        self.read_back();
    }

    /// Do this while the stack unwinds.
    fn unwind(&mut self, ops: &[Op]) {
        struct OnDrop<F: FnMut()>(F);
        impl<F: FnMut()> Drop for OnDrop<F> {
            fn drop(&mut self) {
                (self.0)()
            }
        }
        let mut result = Ok(());
        self.facts.unwound += usize::from(!ops.is_empty());
        self.facts.panics += usize::from(!ops.is_empty());
        let _ = engine::catch(|| {
            let _on_drop = OnDrop(|| {
                result = engine::catch(|| ops.iter().for_each(|op| self.checked_step(op)));
            });
            panic!("by the user")
        });
        if let Err(m) = result {
            panic!("while user code panicked: {m}");
        }
    }

    /// Run to the end, and release everything.
    pub fn run(mut self, h: &History) -> (Facts, Vec<(Vec<&'static str>, Failure)>) {
        let mut ops = &h.ops[..];
        while let Some((op, rest)) = ops.split_first() {
            ops = rest;
            if let Op::Unwind { n } = op {
                let (inner, rest) = ops.split_at(ops.len().min(*n as usize));
                ops = rest;
                self.unwind(inner);
            } else {
                self.checked_step(op);
            }
        }
        for i in 0..self.slots.len() {
            self.same(i);
        }
        self.unchanged();
        if !self.gone {
            if h.order & 1 == 0 {
                self.peek();
            }
            self.commit(h.order & 2 == 0, false);
            self.tracked_alive();
        }
        if let Some(l) = self.log() {
            let e = std::mem::take(&mut *l.errors.lock().unwrap());
            for e in e {
                self.fail(&["C21"], "runtime", e);
            }
        }
        // every other one, so that neighbours must be merged later
        let allocator_first = h.order & 4 != 0;
        if allocator_first {
            self.drop_allocator();
        }
        let mut i = 0;
        while i < self.slots.len() {
            self.drop_slot(i);
            if h.order & 8 == 0 {
                i += 1;
            }
        }
        self.tracked_alive();
        if !self.gone {
            self.commit(false, false);
        }
        while !self.slots.is_empty() {
            self.drop_slot(0);
        }
        self.tracked_alive();
        if !self.gone {
            self.commit(false, false);
            // All that was ever allocated is available again, as one piece if it has no gaps
            if self.free > 0 {
                self.step(&Op::NewArray {
                    ty: 0,
                    how: 0,
                    n: 0,
                    words: vec![],
                });
                let mut longest = 0;
                let mut run = 0;
                for s in &self.state {
                    run = if *s == S::Free { run + 1 } else { 0 };
                    longest = longest.max(run);
                }
                self.create(0, 0, Some(longest), &[1]);
                self.commit(false, false);
                while !self.slots.is_empty() {
                    self.drop_slot(0);
                }
            }
        }
        let buffers_first = h.order & 16 != 0;
        if buffers_first {
            self.held.clear();
            self.buffers_alive();
            self.drop_allocator();
        } else {
            self.drop_allocator();
            while let Some(b) = self.held.pop() {
                drop(b);
                self.buffers_alive();
            }
        }
        (self.facts, self.failures)
    }
}

/// To create allocators with something that only derefs to a runtime.
struct Wrap<R>(R);
impl<R> AsRef<R> for Wrap<R> {
    fn as_ref(&self) -> &R {
        &self.0
    }
}

pub fn label(n: u8) -> Option<String> {
    match n % 4 {
        0 => None,
        1 => Some("label".into()),
        2 => Some("".into()),
        _ => Some("a longer label, with ünicode".into()),
    }
}

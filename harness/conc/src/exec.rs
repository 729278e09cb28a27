//! Runs a generated program under a schedule, and checks what every thread observes.
use crate::reg::{Inner, Reg};
use crate::rt::Backend;
use crate::val::{make, tag, Turn, Val, WeakVal};
use craballoc::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, Mutex};
use vstd::point;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    New { kind: u8, words: u8, len: u8 },
    Set { h: u8, i: u8 },
    Modify { h: u8, i: u8, guard: bool },
    Get { h: u8, i: u8 },
    Dup { h: u8 },
    Drop { h: u8 },
    IntoGpu { h: u8 },
    Weak { h: u8 },
    Upgrade { w: u8 },
    DropWeak { w: u8 },
    /// leave a handle to whichever thread takes it
    Give { h: u8 },
    Take,
    Commit { keep: bool },
    /// commit while an item is locked
    CommitInside { h: u8 },
    Pending,
    Defrag,
    GetBuffer,
    Refresh { b: u8 },
    DupBuffer { b: u8 },
    DropBuffer { b: u8 },
    DropSlab,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    /// done by one thread before the others start
    pub setup: Vec<Op>,
    /// which threads get a clone of what the setup leaves (and whether the main thread keeps it)
    pub share: Vec<u8>,
    pub threads: Vec<Vec<Op>>,
    pub slow: bool,
    pub seed: u64,
}

struct Handle {
    val: Box<dyn Val>,
    aid: usize,
}
struct Weak {
    val: Box<dyn WeakVal>,
    aid: usize,
}

pub struct Shared<R: Backend>
where
    R::Buffer: Send + Sync,
{
    reg: Reg,
    mail: Mutex<Vec<Handle>>,
    left: Mutex<Vec<SlabBuffer<R::Buffer>>>,
}

struct Thread<R: Backend>
where
    R::Buffer: Send + Sync,
{
    slab: Option<SlabAllocator<R>>,
    shared: Arc<Shared<R>>,
    reg: Reg,
    vals: Vec<Handle>,
    weaks: Vec<Weak>,
    bufs: Vec<SlabBuffer<R::Buffer>>,
    /// highest creation time seen
    seen: usize,
}

/// Follows a write under the lock of an item.
struct Section {
    reg: Reg,
    aid: usize,
    item: usize,
    start: u64,
    guard: bool,
}

impl Turn for Section {
    fn old(&mut self, tag: Option<u32>) {
        let mut r = self.reg.lock();
        let what = if self.guard { "locking" } else { "modifying" };
        let Some(tag) = tag else {
            return r.fail("C17", "torn", format!("{what} an item finds a mix of several values"));
        };
        if !r.allocs[self.aid].writes[self.item].contains(&tag) {
            return r.fail("C17", "foreign-value", format!("{what} an item finds a value that was never set"));
        }
        if !r.allocs[self.aid].split && r.outdated(self.aid, self.item, tag, self.start).is_some() {
            r.fail("C17", "outdated", format!("{what} an item finds a value that had been replaced before"));
        }
        let a = &mut r.allocs[self.aid];
        let twice = a.overwritten[self.item].contains(&tag);
        let inside = std::mem::replace(&mut a.inside[self.item], true);
        a.overwritten[self.item].push(tag);
        if twice || inside {
            r.fail("C17", "lost-modification", format!("{what} an item finds the same value as somebody else did"));
        }
    }
    fn done(&mut self) {
        self.reg.lock().allocs[self.aid].inside[self.item] = false;
    }
}

fn pick<T>(v: &[T], i: u8) -> Option<usize> {
    (!v.is_empty()).then(|| i as usize % v.len())
}

impl<R: Backend> Thread<R>
where
    R::Buffer: Send + Sync,
{
    fn new(slab: SlabAllocator<R>, shared: &Arc<Shared<R>>) -> Self {
        Thread {
            slab: Some(slab),
            reg: shared.reg.clone(),
            shared: shared.clone(),
            vals: vec![],
            weaks: vec![],
            bufs: vec![],
            seen: 0,
        }
    }

    fn drop_val(&mut self, h: Handle) {
        self.reg.lock().begin_drop(h.aid);
        drop(h.val);
        self.reg.lock().end_drop(h.aid);
    }

    fn dup(&self, h: &Handle) -> Handle {
        let val = h.val.dup();
        self.reg.lock().cloned(h.aid);
        Handle { val, aid: h.aid }
    }

    fn write(&mut self, k: usize, i: u8, how: Option<bool>) {
        let Handle { val, aid } = &self.vals[k];
        if val.items() == 0 {
            return;
        }
        let item = i as usize % val.items();
        let (tag, start) = {
            let mut r = self.reg.lock();
            let tag = r.begin_write();
            r.allocs[*aid].writes[item].push(tag);
            (tag, r.writes[&tag].start)
        };
        match how {
            None => val.set(item, tag),
            Some(guard) => val.modify(
                item,
                tag,
                guard,
                &mut Section {
                    reg: self.reg.clone(),
                    aid: *aid,
                    item,
                    start,
                    guard,
                },
            ),
        }
        self.reg.lock().end_write(tag);
    }

    /// The buffer was returned, `before` is the creation time of the latest before.
    fn observe(&mut self, b: &SlabBuffer<R::Buffer>, before: usize, how: &str) {
        let t = b.creation_time();
        let mut r = self.reg.lock();
        if t < before {
            r.fail(
                "C19",
                "older-buffer",
                format!("{how} gives a buffer of time {t} when a commit had returned one of time {before}"),
            );
        }
        if t < self.seen {
            r.fail(
                "C19",
                "backwards",
                format!("{how} gives a buffer of time {t} to a thread that has seen one of time {}", self.seen),
            );
        }
        self.seen = self.seen.max(t);
    }

    fn commit(&mut self) -> SlabBuffer<R::Buffer> {
        let (start, before, known) = {
            let mut r = self.reg.lock();
            let start = r.now();
            let known: Vec<(usize, usize)> = (0..r.allocs.len())
                .filter(|i| r.allocs[*i].owners > 0)
                .map(|i| (i, r.allocs[i].ends))
                .collect();
            r.committing += 1;
            r.commits += 1;
            (start, r.latest, known)
        };
        let b = self.slab.as_ref().expect("it is there").commit();
        self.observe(&b, before, "a commit");
        {
            let mut r = self.reg.lock();
            r.committing -= 1;
            r.latest = r.latest.max(b.creation_time());
        }
        let words = R::words(&b);
        let mut r = self.reg.lock();
        let quiet = r.committing == 0;
        for (aid, ends) in known {
            let a = &r.allocs[aid];
            if a.owners > 0 && a.ends == ends && a.created < start {
                check_alloc(&mut r, aid, &words, start, quiet);
            }
        }
        drop(r);
        b
    }

    fn refresh(&mut self, k: usize) {
        let before = self.reg.lock().latest;
        let b = &mut self.bufs[k];
        let (id, t) = (R::ident(b), b.creation_time());
        // a copy keeps the buffer, and so its identity
        let keep = b.clone();
        let replaced = b.update_if_invalid();
        let (id2, t2) = (R::ident(b), b.creation_time());
        drop(keep);
        let mut r = self.reg.lock();
        if replaced != (id != id2) {
            r.fail("C19", "refresh-result", format!("refreshing returns {replaced}, the buffer was replaced: {}", id != id2));
        }
        if t2 < t || replaced && t2 <= t {
            r.fail("C19", "refresh-backwards", format!("refreshing goes from time {t} to {t2}"));
        }
        if t2 < before {
            r.fail(
                "C19",
                "refresh-older",
                format!("after refreshing the time is {t2} when a commit had returned a buffer of time {before}"),
            );
        }
    }

    fn step(&mut self, op: &Op) {
        match *op {
            Op::New { kind, words, len } => {
                let Some(slab) = &self.slab else { return };
                let n = if kind % 4 < 2 { 1 } else { len as usize };
                let w = words as usize % 3 + 1;
                let tags: Vec<u32> = (0..n).map(|_| self.reg.lock().begin_write()).collect();
                let val = make(slab, kind, w, &tags);
                let mut r = self.reg.lock();
                let (at, len) = val.extent();
                if len != n * w && len > 0 {
                    r.fail("C18", "extent", format!("{n} items of {w} words take {len}"));
                }
                let aid = r.created(at, len, w, tags);
                self.vals.push(Handle { val, aid });
            }
            Op::Set { h, i } => {
                if let Some(k) = pick(&self.vals, h) {
                    self.write(k, i, None)
                }
            }
            Op::Modify { h, i, guard } => {
                if let Some(k) = pick(&self.vals, h) {
                    let how = self.vals[k].val.hybrid().then_some(guard);
                    self.write(k, i, how)
                }
            }
            Op::Get { h, i } => {
                let Some(k) = pick(&self.vals, h) else { return };
                let Handle { val, aid } = &self.vals[k];
                if val.items() == 0 {
                    return;
                }
                let item = i as usize % val.items();
                let start = self.reg.lock().now();
                let Some(got) = val.get(item) else { return };
                let mut r = self.reg.lock();
                match got {
                    None => r.fail("C17", "torn", "getting an item gives a mix of several values".into()),
                    Some(t) => {
                        if !r.allocs[*aid].writes[item].contains(&t) {
                            r.fail("C17", "foreign-value", "getting an item gives a value that was never set".into())
                        } else if !r.allocs[*aid].split && r.outdated(*aid, item, t, start).is_some() {
                            r.fail("C17", "outdated", "getting an item gives a value that had been replaced before".into())
                        }
                    }
                }
            }
            Op::Dup { h } => {
                if let Some(k) = pick(&self.vals, h) {
                    let d = self.dup(&self.vals[k]);
                    self.vals.push(d);
                }
            }
            Op::Drop { h } => {
                if let Some(k) = pick(&self.vals, h) {
                    let h = self.vals.remove(k);
                    self.drop_val(h);
                }
            }
            Op::IntoGpu { h } => {
                if let Some(k) = pick(&self.vals, h) {
                    let Handle { val, aid } = self.vals.remove(k);
                    self.reg.lock().allocs[aid].split = true;
                    let val = val.into_gpu();
                    self.vals.push(Handle { val, aid });
                }
            }
            Op::Weak { h } => {
                if let Some(k) = pick(&self.vals, h) {
                    let Handle { val, aid } = &self.vals[k];
                    if let Some(w) = val.weak() {
                        self.weaks.push(Weak { val: w, aid: *aid });
                    }
                }
            }
            Op::Upgrade { w } => {
                let Some(k) = pick(&self.weaks, w) else { return };
                let Weak { val, aid } = &self.weaks[k];
                let aid = *aid;
                let (gone, ends) = {
                    let r = self.reg.lock();
                    let a = &r.allocs[aid];
                    // a commit that is reading the value's updates keeps it for that moment
                    (a.owners == 0 && a.dropping == 0 && r.committing == 0, a.ends)
                };
                let commits = self.reg.lock().commits;
                let got = val.upgrade();
                let hybrid = val.hybrid();
                let mut r = self.reg.lock();
                let a = &mut r.allocs[aid];
                match got {
                    Some(val) => {
                        a.owners += 1;
                        let (at, len) = (a.at, a.len);
                        if val.extent() != (at, len) {
                            r.fail("C18", "upgrade-extent", format!("{:?} was upgraded to {:?}", (at, len), val.extent()));
                        }
                        if gone && r.committing == 0 && r.commits == commits {
                            r.fail("C18", "upgrade-dead", "a value without owners was upgraded".into());
                        }
                        r.check_disjoint(at, len, aid);
                        self.vals.push(Handle { val, aid });
                    }
                    None => {
                        let alive = a.owners > 0 && a.ends == ends && !gone && !(hybrid && a.split);
                        if alive {
                            r.fail("C18", "upgrade-live", "a value with owners was not upgraded".into());
                        }
                    }
                }
            }
            Op::DropWeak { w } => {
                if let Some(k) = pick(&self.weaks, w) {
                    self.weaks.remove(k);
                }
            }
            Op::Give { h } => {
                if let Some(k) = pick(&self.vals, h) {
                    let h = self.vals.remove(k);
                    self.shared.mail.lock().unwrap().push(h);
                    point();
                }
            }
            Op::Take => {
                point();
                let h = self.shared.mail.lock().unwrap().pop();
                self.vals.extend(h);
            }
            Op::Commit { keep } => {
                if self.slab.is_some() {
                    let b = self.commit();
                    if keep {
                        self.bufs.push(b);
                    }
                }
            }
            Op::CommitInside { h } => {
                let Some(k) = pick(&self.vals, h) else { return };
                let Some(slab) = self.slab.clone() else { return };
                let val = self.vals[k].val.dup();
                struct Quiet<F: FnMut()>(F);
                impl<F: FnMut()> Turn for Quiet<F> {
                    fn old(&mut self, _: Option<u32>) {
                        (self.0)()
                    }
                    fn done(&mut self) {}
                }
                // the handle's own section is not followed, it only writes back what it finds
                let aid = self.vals[k].aid;
                if !val.hybrid() || val.items() == 0 {
                    self.reg.lock().cloned(aid);
                    self.drop_val(Handle { val, aid });
                    return;
                }
                self.reg.lock().cloned(aid);
                let tag = {
                    let mut r = self.reg.lock();
                    let tag = r.begin_write();
                    r.allocs[aid].writes[0].push(tag);
                    tag
                };
                let reg = self.reg.clone();
                val.modify(
                    0,
                    tag,
                    true,
                    &mut Quiet(|| {
                        {
                            let mut r = reg.lock();
                            r.committing += 1;
                            r.commits += 1;
                        }
                        let _ = slab.commit();
                        reg.lock().committing -= 1;
                    }),
                );
                self.reg.lock().end_write(tag);
                self.drop_val(Handle { val, aid });
            }
            Op::Pending => {
                if let Some(slab) = &self.slab {
                    let _ = slab.get_updated_source_ids();
                    let _ = slab.has_queued_updates();
                }
            }
            Op::Defrag => {
                if let Some(slab) = &self.slab {
                    slab.defrag()
                }
            }
            Op::GetBuffer => {
                let Some(slab) = &self.slab else { return };
                let before = self.reg.lock().latest;
                match slab.get_buffer() {
                    Some(b) => {
                        self.observe(&b, before, "get_buffer");
                        self.bufs.push(b);
                    }
                    None => {
                        if before > 0 {
                            self.reg.lock().fail("C19", "no-buffer", "there is no buffer after a commit".into());
                        }
                    }
                }
            }
            Op::Refresh { b } => {
                if let Some(k) = pick(&self.bufs, b) {
                    self.refresh(k)
                }
            }
            Op::DupBuffer { b } => {
                if let Some(k) = pick(&self.bufs, b) {
                    self.bufs.push(self.bufs[k].clone());
                }
            }
            Op::DropBuffer { b } => {
                if let Some(k) = pick(&self.bufs, b) {
                    self.bufs.remove(k);
                }
            }
            Op::DropSlab => self.slab = None,
        }
    }

    /// Leave everything to the main thread.
    fn leave(&mut self) {
        self.shared.mail.lock().unwrap().append(&mut self.vals);
        self.shared.left.lock().unwrap().append(&mut self.bufs);
    }
}

/// A live allocation must be inside of the buffer, with values that were not outdated at a time.
fn check_alloc(r: &mut Inner, aid: usize, words: &[u32], time: u64, quiet: bool) {
    let a = r.allocs[aid].clone();
    if a.len == 0 {
        return;
    }
    if a.at + a.len > words.len() {
        r.fail(
            "C18",
            "outside",
            format!("words {}..{} are live, the buffer has {}", a.at, a.at + a.len, words.len()),
        );
        return;
    }
    for (i, item) in words[a.at..a.at + a.len].chunks(a.item_words).enumerate() {
        let Some(t) = tag(item) else {
            if quiet {
                r.fail("C17", "buffer-torn", format!("an item is {item:x?} in the buffer, a mix of several values"));
            }
            continue;
        };
        if !a.writes[i].contains(&t) {
            r.fail(
                "C17",
                "buffer-foreign",
                format!("item {i} at {} is {t} in the buffer, which it was never set to (but to {:?})", a.at, a.writes[i]),
            );
        } else if let Some(n) = r.outdated(aid, i, t, time) {
            r.fail(
                "C17",
                "buffer-outdated",
                format!("item {i} at {} is {t} in the buffer after a commit, but was {n} before it", a.at),
            );
        }
    }
}

/// One execution, inside of shuttle.
pub fn run<R: Backend>(p: &Program, reg: &Reg)
where
    R::Buffer: Send + Sync,
{
    let slab = SlabAllocator::<R>::new(R::make(reg), ());
    let shared = Arc::new(Shared {
        reg: reg.clone(),
        mail: Default::default(),
        left: Default::default(),
    });
    let mut main = Thread::new(slab.clone(), &shared);
    for op in &p.setup {
        if *op != Op::DropSlab {
            main.step(op);
        }
    }
    let mut threads: Vec<Thread<R>> = p.threads.iter().map(|_| Thread::new(slab.clone(), &shared)).collect();
    let keeper = p.threads.len();
    for (k, h) in std::mem::take(&mut main.vals).into_iter().enumerate() {
        let mask = p.share.get(k).copied().unwrap_or(0xff);
        for (t, thread) in threads.iter_mut().enumerate() {
            if mask & (1 << t) != 0 {
                let d = main.dup(&h);
                thread.vals.push(d);
            }
        }
        if mask & (1 << keeper) != 0 || mask % (1 << keeper) == 0 {
            main.vals.push(h);
        } else {
            main.drop_val(h);
        }
    }
    for b in &main.bufs {
        threads.iter_mut().for_each(|t| t.bufs.push(b.clone()));
    }
    for w in &main.weaks {
        threads.iter_mut().for_each(|t| {
            t.weaks.push(Weak {
                val: w.val.dup(),
                aid: w.aid,
            })
        });
    }
    let mut joins = vec![];
    for (mut t, ops) in threads.into_iter().zip(p.threads.clone()) {
        joins.push(shuttle::thread::spawn(move || {
            for op in &ops {
                t.step(op);
            }
            t.leave();
        }));
    }
    for j in joins {
        j.join().expect("a thread panicked");
    }

    // all is quiet
    main.vals.append(&mut shared.mail.lock().unwrap());
    main.bufs.append(&mut shared.left.lock().unwrap());
    check_buffers(&mut main);
    let b = main.commit();
    let words = R::words(&b);
    {
        let mut r = reg.lock();
        for h in &main.vals {
            check_alloc(&mut r, h.aid, &words, u64::MAX, true);
        }
        drop(r);
        for h in &main.vals {
            for i in 0..h.val.items() {
                let Some(got) = h.val.get(i) else { continue };
                let mut r = reg.lock();
                let a = &r.allocs[h.aid];
                if a.split {
                    continue;
                }
                let at = a.at + i * a.item_words;
                let in_buffer = words.get(at).map(|w| w >> 2);
                if got != in_buffer {
                    r.fail(
                        "C17",
                        "buffer-differs",
                        format!("after all is done an item is {got:?}, and {in_buffer:?} in the buffer"),
                    );
                }
            }
        }
    }
    main.bufs.push(b);
    check_buffers(&mut main);

    // all of the space is available again
    for h in std::mem::take(&mut main.vals) {
        main.drop_val(h);
    }
    main.weaks.clear();
    main.commit();
    let high = reg.lock().high;
    let fill: Vec<_> = (0..high).map(|_| make(&slab, 1, 1, &[0])).collect();
    let mut at: Vec<usize> = fill.iter().map(|v| v.extent().0).collect();
    at.sort_unstable();
    if let Some((i, at)) = at.iter().enumerate().find(|(i, at)| i != *at) {
        reg.lock().fail(
            "C18",
            "leak",
            format!("of {high} words, word {i} is not available after all handles were dropped (but {at})"),
        );
    }
}

/// No other thread is running: every buffer can be made the current one.
fn check_buffers<R: Backend>(main: &mut Thread<R>)
where
    R::Buffer: Send + Sync,
{
    let reg = main.reg.clone();
    let Some(current) = main.slab.as_ref().expect("it is there").get_buffer() else {
        return;
    };
    let id = R::ident(&current);
    let fail = |sig, msg: String| reg.lock().fail("C19", sig, msg);
    for b in &mut main.bufs {
        let is = R::ident(b) == id;
        if b.is_valid() != is || b.is_invalid() == is {
            fail(
                "validity",
                format!("all is done, is_valid is {} for a buffer that is the current one: {is}", b.is_valid()),
            );
        }
        let replaced = b.update_if_invalid();
        if R::ident(b) != id {
            fail("refresh-not-current", "all is done, and refreshing does not give the current buffer".into());
        } else if replaced == is {
            fail("refresh-result", format!("refreshing returns {replaced} for a buffer that was current: {is}"));
        }
        if b.update_if_invalid() || b.is_invalid() {
            fail("refresh-again", "a buffer is invalid right after refreshing it".into());
        }
    }
}

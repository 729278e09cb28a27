//! What is known about an execution: allocations, writes and buffers, with the times of all calls.
//! It is never locked across a point where threads may be switched.
use std::collections::HashMap;
use std::sync::{Arc, Mutex, MutexGuard};

pub struct Failure {
    pub property: &'static str,
    pub sig: &'static str,
    pub msg: String,
}

#[derive(Clone)]
pub struct Alloc {
    pub at: usize,
    pub len: usize,
    pub item_words: usize,
    /// handles that are held by a thread
    pub owners: usize,
    /// handles in the middle of being dropped
    pub dropping: usize,
    /// how often the last handle was given up
    pub ends: usize,
    pub created: u64,
    /// a part on the CPU has been given up
    pub split: bool,
    /// all writes to each of the items
    pub writes: Vec<Vec<u32>>,
    /// somebody is inside of the item's critical section
    pub inside: Vec<bool>,
    /// what was overwritten under the lock
    pub overwritten: Vec<Vec<u32>>,
}

#[derive(Clone, Copy)]
pub struct Write {
    pub start: u64,
    pub end: u64,
}

#[derive(Default)]
pub struct Inner {
    time: u64,
    pub allocs: Vec<Alloc>,
    pub writes: HashMap<u32, Write>,
    next_tag: u32,
    /// highest creation time of a buffer whose commit has returned
    pub latest: usize,
    /// end of the last allocation
    pub high: usize,
    /// commits in progress, and ever started
    pub committing: usize,
    pub commits: usize,
    pub failures: Vec<Failure>,
}

#[derive(Clone, Default)]
pub struct Reg(Arc<Mutex<Inner>>);

impl Reg {
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}

impl Inner {
    pub fn now(&mut self) -> u64 {
        self.time += 1;
        self.time
    }

    pub fn fail(&mut self, property: &'static str, sig: &'static str, msg: String) {
        if self.failures.len() < 16 {
            self.failures.push(Failure { property, sig, msg });
        }
    }

    pub fn begin_write(&mut self) -> u32 {
        self.next_tag += 1;
        let start = self.now();
        self.writes.insert(self.next_tag, Write { start, end: u64::MAX });
        self.next_tag
    }

    pub fn end_write(&mut self, tag: u32) {
        let now = self.now();
        self.writes.get_mut(&tag).expect("begun").end = now;
    }

    /// Whether something that was written after `tag` had been written completely before `time`.
    pub fn outdated(&self, aid: usize, item: usize, tag: u32, time: u64) -> Option<u32> {
        let w = self.writes[&tag];
        self.allocs[aid].writes[item].iter().copied().find(|n| {
            let n = self.writes[n];
            n.start > w.end && n.end < time
        })
    }

    /// A new handle to a new allocation.
    pub fn created(&mut self, at: usize, len: usize, item_words: usize, tags: Vec<u32>) -> usize {
        for t in &tags {
            self.end_write(*t);
        }
        self.check_disjoint(at, len, usize::MAX);
        if len > 0 {
            self.high = self.high.max(at + len);
        }
        let created = self.now();
        self.allocs.push(Alloc {
            at,
            len,
            item_words,
            owners: 1,
            dropping: 0,
            ends: 0,
            created,
            split: false,
            inside: vec![false; tags.len()],
            overwritten: vec![vec![]; tags.len()],
            writes: tags.into_iter().map(|t| vec![t]).collect(),
        });
        self.allocs.len() - 1
    }

    pub fn check_disjoint(&mut self, at: usize, len: usize, not: usize) {
        let found = self
            .allocs
            .iter()
            .enumerate()
            .find(|(i, a)| *i != not && a.owners > 0 && a.at < at + len && at < a.at + a.len)
            .map(|(_, a)| (a.at, a.len));
        if let Some((a, l)) = found {
            self.fail(
                "C18",
                "overlap",
                format!("words {at}..{} belong to a live handle, which {a}..{} already belong to", at + len, a + l),
            );
        }
    }

    pub fn cloned(&mut self, aid: usize) {
        self.allocs[aid].owners += 1;
    }

    pub fn begin_drop(&mut self, aid: usize) {
        let a = &mut self.allocs[aid];
        a.owners -= 1;
        a.dropping += 1;
        if a.owners == 0 {
            a.ends += 1;
        }
    }

    pub fn end_drop(&mut self, aid: usize) {
        self.allocs[aid].dropping -= 1;
    }
}

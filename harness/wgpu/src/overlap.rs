//! Reads that overlap with other calls, are given up, or fail.
use crate::{failed, sims, Sim};
use craballoc::prelude::*;
use craballoc::runtime::{IsRuntime, SlabUpdate};
use crabslab::Array;
use engine::{ensure, DynFamily, Family, Stats, Verdict};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll, Waker},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Write { at: u16, words: Vec<u32> },
    /// by a shader
    Poke { at: u16, word: u32 },
    /// replace the buffer by a larger one
    Grow { more: u8 },
    Start { a: u16, n: u16, kind: u8, poll: bool },
    Poll { i: u8 },
    Drop { i: u8 },
    Time,
    /// what is done about reads by those who wait for them
    DevicePoll { wait: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    len: u16,
    sim: Sim,
    ops: Vec<Op>,
}

struct Read {
    fut: Pin<Box<dyn Future<Output = Result<Vec<u32>, SlabAllocatorError>>>>,
    range: std::ops::Range<usize>,
    /// index into the versions
    start: usize,
    since: u64,
}

fn check(c: &Case, st: &mut Stats) -> Verdict {
    let (gpu, rt) = c.sim.new();
    let mut versions = vec![vec![0u32; c.len as usize]];
    let mut buf = rt.buffer_create(c.len as usize, None, crate::usages(0));
    let mut reads: Vec<Read> = vec![];
    let mut cx = Context::from_waker(Waker::noop());
    let mut poll = |r: &mut Read, versions: &[Vec<u32>], st: &mut Stats| -> Result<bool, engine::Failure> {
        let Poll::Ready(got) = r.fut.as_mut().poll(&mut cx) else { return Ok(false) };
        match got {
            Ok(v) => {
                let seen = versions[r.start..].iter().any(|w| w.get(r.range.clone()) == Some(&v[..]));
                ensure!(
                    seen,
                    "overlapping-read",
                    "reading {:?} gave {v:x?}, which were never the words from its start on: {:x?}",
                    r.range,
                    versions[r.start..].iter().map(|w| &w[r.range.clone()]).collect::<Vec<_>>()
                );
                if versions.len() > r.start + 1 && !v.is_empty() {
                    st.nontrivial();
                    st.label("a read ended after a later write");
                }
            }
            Err(e) => {
                ensure!(failed(&gpu, r.since), "read-failed", "reading {:?} failed though nothing else did: {e}", r.range);
                st.label("a read failed");
            }
        }
        Ok(true)
    };
    for op in &c.ops {
        let now = versions.last().unwrap().clone();
        match op {
            Op::Write { at, words } => {
                let at = *at as usize % now.len();
                let n = words.len().min(now.len() - at);
                let mut w = now;
                w[at..at + n].copy_from_slice(&words[..n]);
                let u = SlabUpdate {
                    array: Array::new(at as u32, n as u32),
                    elements: words[..n].to_vec(),
                };
                rt.buffer_write(std::iter::once(u), &buf);
                versions.push(w);
            }
            Op::Poke { at, word } => {
                let at = *at as usize % now.len();
                let mut w = now;
                w[at] = *word;
                buf.fake_poke(at, *word);
                versions.push(w);
            }
            Op::Grow { more } => {
                let new = rt.buffer_create(now.len() + *more as usize, None, crate::usages(0));
                rt.buffer_copy(&buf, &new, None);
                // those that are being read keep their buffer, and so what is read from it
                buf = new;
                let mut w = now;
                w.resize(w.len() + *more as usize, 0);
                versions.push(w);
                st.label("buffer replaced");
            }
            Op::Start { a, n, kind, poll: now_too } => {
                if reads.len() > 8 {
                    continue;
                }
                let len = now.len();
                let s = *a as usize % (len + 1);
                let e = s + *n as usize % (len - s + 1);
                let (rt, buf) = (rt.clone(), buf.clone());
                let k = kind % 3;
                let range = match k {
                    0 => s..e,
                    1 => s..len,
                    _ => 0..e,
                };
                let mut r = Read {
                    range,
                    start: versions.len() - 1,
                    since: gpu.mappings(),
                    fut: Box::pin(async move {
                        match k {
                            0 => rt.buffer_read(&buf, len, s..e).await,
                            1 => rt.buffer_read(&buf, len, s..).await,
                            _ => rt.buffer_read(&buf, len, ..e).await,
                        }
                    }),
                };
                if !(*now_too && poll(&mut r, &versions, st)?) {
                    reads.push(r);
                    st.label("a read was left waiting");
                }
            }
            Op::Poll { i } => {
                if !reads.is_empty() {
                    let i = *i as usize % reads.len();
                    if poll(&mut reads[i], &versions, st)? {
                        reads.remove(i);
                    }
                }
            }
            Op::Drop { i } => {
                if !reads.is_empty() {
                    reads.remove(*i as usize % reads.len());
                    st.label("a read was given up");
                }
            }
            Op::Time => gpu.tick(),
            Op::DevicePoll { wait } => {
                rt.device.poll(if *wait { wgpu::Maintain::Wait } else { wgpu::Maintain::Poll });
            }
        }
        let now = versions.last().unwrap();
        let words = buf.fake_words();
        ensure!(words == *now, "contents", "after {op:?} the buffer is {words:x?}, expected {now:x?}");
    }
    for mut r in reads {
        let mut left = 100;
        while !poll(&mut r, &versions, st)? {
            left -= 1;
            ensure!(left > 0, "never", "reading {:?} does not end, though nothing is left to be done", r.range);
            gpu.rest();
        }
    }
    drop(buf);
    crate::leftovers(&gpu, &None, 0)
}

fn cases() -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        5 => (any::<u16>(), prop::collection::vec(any::<u32>(), 0..6)).prop_map(|(at, words)| Op::Write { at, words }),
        2 => (any::<u16>(), any::<u32>()).prop_map(|(at, word)| Op::Poke { at, word }),
        1 => (0u8..20).prop_map(|more| Op::Grow { more }),
        6 => (any::<u16>(), any::<u16>(), any::<u8>(), prop::bool::weighted(0.7))
            .prop_map(|(a, n, kind, poll)| Op::Start { a, n, kind, poll }),
        4 => any::<u8>().prop_map(|i| Op::Poll { i }),
        2 => any::<u8>().prop_map(|i| Op::Drop { i }),
        2 => Just(Op::Time),
        1 => any::<bool>().prop_map(|wait| Op::DevicePoll { wait }),
    ];
    (1u16..24, sims(), prop::collection::vec(op, 1..24)).prop_map(|(len, sim, ops)| Case { len, sim, ops })
}

pub fn family() -> Box<dyn DynFamily> {
    Box::new(Family::new("overlapping reads", 200_000, 4_000_000, cases, check))
}

//! C21 and C24: runtimes called directly.
use crate::rt::Backend;
use craballoc::runtime::{CpuRuntime, SlabUpdate};
use crabslab::Array;
use engine::{ensure, DynFamily, Family, Stats, Verdict};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::ops::Bound;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// disjoint updates, in any order
    Write { parts: Vec<(u8, u8)>, seed: u32, rotate: u8 },
    Read { a: u16, n: u16, kind: u8 },
    /// to a new buffer
    Grow { more: u8 },
    /// over an existing one of the same size or larger
    Copy { more: u8, seed: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub len: u16,
    pub label: bool,
    ops: Vec<Op>,
}

/// Through a reference to any runtime.
fn read<R: Backend>(r: &R, b: &R::Buffer, len: usize, x: (Bound<usize>, Bound<usize>)) -> Result<Vec<u32>, String> {
    r.wait(r.buffer_read(b, len, x)).map_err(|e| e.to_string())
}

pub fn check<R: Backend>(rt: R, c: &Case, st: &mut Stats) -> Verdict {
    let label = c.label.then_some("label");
    let usages = || R::usages(c.len as u32);
    let mut model = vec![0u32; c.len as usize];
    let mut buf = rt.buffer_create(model.len(), label, usages());
    for op in &c.ops {
        match op {
            Op::Write { parts, seed, rotate } => {
                let mut at = 0;
                let mut updates = vec![];
                for (gap, n) in parts {
                    let s = at + *gap as usize;
                    let e = s + *n as usize;
                    if e > model.len() {
                        break;
                    }
                    let elements = engine::words::noise(seed.wrapping_add(s as u32), e - s);
                    model[s..e].copy_from_slice(&elements);
                    updates.push(SlabUpdate {
                        array: Array::new(s as u32, (e - s) as u32),
                        elements,
                    });
                    at = e;
                }
                if !updates.is_empty() {
                    let k = *rotate as usize % updates.len();
                    updates.rotate_left(k);
                }
                rt.buffer_write(updates.into_iter(), &buf);
            }
            Op::Read { a, n, kind } => {
                let len = model.len();
                let s = *a as usize % (len + 1);
                let e = s + *n as usize % (len - s + 1);
                let (lo, hi) = match kind % 9 {
                    0 => (Bound::Included(s), Bound::Excluded(e)),
                    1 if e > s => (Bound::Included(s), Bound::Included(e - 1)),
                    2 if s > 0 => (Bound::Excluded(s - 1), Bound::Excluded(e)),
                    3 if s > 0 && e > s => (Bound::Excluded(s - 1), Bound::Included(e - 1)),
                    4 => (Bound::Unbounded, Bound::Excluded(e)),
                    5 if e > 0 => (Bound::Unbounded, Bound::Included(e - 1)),
                    6 => (Bound::Included(s), Bound::Unbounded),
                    7 if s > 0 => (Bound::Excluded(s - 1), Bound::Unbounded),
                    _ => (Bound::Unbounded, Bound::Unbounded),
                };
                let s = if matches!(lo, Bound::Unbounded) { 0 } else { s };
                let e = if matches!(hi, Bound::Unbounded) { len } else { e };
                let got = read(&rt, &buf, len, (lo, hi));
                ensure!(
                    got.as_deref() == Ok(&model[s..e]),
                    "read",
                    "reading {lo:?}, {hi:?} of {len} words gave {got:x?}, expected {:x?}",
                    &model[s..e]
                );
                // the same with real range types
                let got = match kind % 3 {
                    0 => rt.wait(rt.buffer_read(&buf, len, s..e)),
                    1 if e > s => rt.wait(rt.buffer_read(&buf, len, s..=e - 1)),
                    1 => rt.wait(rt.buffer_read(&buf, len, s..e)),
                    _ => rt.wait(rt.buffer_read(&buf, len, ..e)).map(|v| v[s..].to_vec()),
                };
                let got = got.map_err(|e| e.to_string());
                ensure!(
                    got.as_deref() == Ok(&model[s..e]),
                    "read",
                    "reading {s}..{e} of {len} words gave {got:x?}"
                );
                if e > s && e - s < len {
                    st.nontrivial();
                    st.label("part read");
                }
                if e == s {
                    st.label("nothing read");
                }
            }
            Op::Grow { more } => {
                let len = model.len() + *more as usize;
                if len > 3000 {
                    continue;
                }
                let new = rt.buffer_create(len, label, usages());
                let words = R::words(&new);
                ensure!(
                    words.iter().all(|w| *w == 0) && words.len() == len,
                    "create",
                    "a new buffer of {len} words is {words:x?}"
                );
                rt.buffer_copy(&buf, &new, label);
                model.resize(len, 0);
                let words = R::words(&buf);
                ensure!(
                    words == model[..words.len()],
                    "copy-source",
                    "copying a buffer changed it"
                );
                buf = new;
                st.label("copied to a new buffer");
            }
            Op::Copy { more, seed } => {
                let len = model.len() + *more as usize % 9;
                if len > 3000 {
                    continue;
                }
                let mut old = engine::words::noise(*seed, len);
                let new = rt.buffer_create(len, label, usages());
                let u = SlabUpdate {
                    array: Array::new(0, len as u32),
                    elements: old.clone(),
                };
                rt.buffer_write([u].into_iter(), &new);
                rt.buffer_copy(&buf, &new, label);
                old[..model.len()].copy_from_slice(&model);
                model = old;
                buf = new;
                st.label("copied over a buffer");
            }
        }
        let words = R::words(&buf);
        ensure!(
            words == model,
            "contents",
            "after {op:?} the buffer is {words:x?}, expected {model:x?}"
        );
    }
    Ok(())
}

pub fn cases() -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        4 => (prop::collection::vec((0u8..5, 0u8..6), 0..8), any::<u32>(), any::<u8>())
            .prop_map(|(parts, seed, rotate)| Op::Write { parts, seed, rotate }),
        6 => (any::<u16>(), any::<u16>(), any::<u8>()).prop_map(|(a, n, kind)| Op::Read { a, n, kind }),
        1 => any::<u8>().prop_map(|more| Op::Grow { more }),
        1 => (any::<u8>(), any::<u32>()).prop_map(|(more, seed)| Op::Copy { more, seed }),
    ];
    (
        prop_oneof![3 => 1u16..20, 1 => 1u16..600],
        any::<bool>(),
        prop::collection::vec(op, 1..14),
    )
        .prop_map(|(len, label, ops)| Case { len, label, ops })
}

pub fn family() -> Box<dyn DynFamily> {
    Box::new(Family::new("CPU runtime", 60_000, 2_000_000, cases, |c: &Case, st: &mut Stats| check(CpuRuntime, c, st)))
}

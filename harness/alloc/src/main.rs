//! C10 to C16 and C20 to C23: histories of allocators against a model.
mod exec;
mod handle;
mod managers;
mod memory;
mod rt;
mod runtimes;

#[global_allocator]
static HEAP: memory::Counting = memory::Counting;

use craballoc::runtime::CpuRuntime;
use engine::{Check, DynFamily, Family, Stats, Verdict};
use exec::{histories, label, Exec, Facts, History, Profile};
use rt::{Backend, Rec};

type Rule = fn(&Facts) -> bool;

fn judge<R: Backend>(id: &'static str, rule: Rule, h: &History, rt: R, st: &mut Stats) -> Verdict {
    let (f, failures) = Exec::new(rt, h).run(h);
    if rule(&f) {
        st.nontrivial();
    }
    for (on, l) in [
        (f.grows > 0, "buffer replaced by a larger one"),
        (f.grows > 2, "buffer replaced three times or more"),
        (f.reuses > 0, "reclaimed words reused"),
        (f.merged > 0, "merged neighbours reused"),
        (f.kept_pokes > 0, "GPU writes kept over a commit"),
        (f.kept_grown > 0, "GPU writes kept over a replaced buffer"),
        (f.shared_sets > 0, "set through one of several handles"),
        (f.upgrades > 0, "weak handle upgraded"),
        (f.failed_upgrades > 0, "weak handle outlived its value"),
        (f.gpu_only > 0, "GPU only handles"),
        (f.out_of_range > 0, "set out of range"),
        (f.lock_only > 0, "locked without change"),
        (f.commits_in_lock > 0, "committed under a lock"),
        (f.peeks_pending > 0, "looked at pending updates"),
        (f.peeks_clean > 0, "looked when nothing was pending"),
        (f.refreshed > 0, "refreshed an outdated buffer"),
        (f.gone_sets > 0, "set after the allocator is gone"),
        (f.gone_stale > 0, "outdated buffer after the allocator is gone"),
        (f.queue > 100, "over 100 updates queued"),
        (f.idle_commits > 0, "commit without updates"),
        (f.max_words > 1000, "over 1000 words"),
        (f.max_words > 1 << 16, "over 65536 words"),
        (f.values + f.arrays > 100, "over 100 allocations"),
    ] {
        if on {
            st.label(l);
        }
    }
    st.note(format!("{f:?}"));
    if f.panics > 0 {
        st.label("user code panicked");
        if f.unwound > 0 {
            st.label("used while unwinding");
        }
    }
    // whatever fails counts
    let all = id == "C28" || id == "C27" && f.panics > 0;
    match failures.into_iter().find(|(tags, _)| all || tags.contains(&id)) {
        Some((_, f)) => Err(f),
        None => Ok(()),
    }
}

fn on_cpu(
    name: &'static str,
    id: &'static str,
    quick: u64,
    p: Profile,
    rule: Rule,
) -> Box<dyn DynFamily> {
    Box::new(Family::new(
        name,
        quick,
        quick * 25,
        move || histories(p.clone()),
        move |h: &History, st: &mut Stats| judge(id, rule, h, CpuRuntime, st),
    ))
}

fn on_rec(
    name: &'static str,
    id: &'static str,
    quick: u64,
    p: Profile,
    rule: Rule,
) -> Box<dyn DynFamily> {
    Box::new(Family::new(
        name,
        quick,
        quick * 25,
        move || histories(p.clone()),
        move |h: &History, st: &mut Stats| {
            let rt = Rec::new(h.fill, label(h.label), h.usages as u32);
            judge(id, rule, h, rt, st)
        },
    ))
}

const HISTORY: &str = "histories run on one thread; the order in which free runs are reused is left open";

fn check(id: &'static str, rule: &'static str, families: Vec<Box<dyn DynFamily>>) -> Check {
    Check {
        id,
        rule,
        assumptions: vec![
            HISTORY,
            "a GPU write is modelled as a write to the buffer between two operations",
            "words beyond the content of an option or enum, and updates of values dropped before the commit, may be anything",
        ],
        families,
    }
}

/// Few small types, many allocations and drops.
fn churn() -> Profile {
    Profile {
        types: 6,
        max_ops: 110,
        new: 22,
        array: 14,
        set: 8,
        drop: 24,
        drop_many: 3,
        inspect: 0,
        poke: 2,
        clone: 5,
        weak: 3,
        into_gpu: 2,
        commit: 16,
        buffers: 1,
        peek: 1,
        ..Default::default()
    }
}

fn big() -> Profile {
    Profile {
        max_ops: 50,
        many: 6,
        burst: 8,
        drop_many: 4,
        commit: 6,
        commit_many: 0,
        ..Default::default()
    }
}

/// More words than fit in 16 bits.
fn huge() -> Profile {
    Profile {
        max_ops: 24,
        huge: 10,
        many: 1,
        burst: 3,
        drop_many: 1,
        ..Default::default()
    }
}

/// More commits and identifiers than fit in 16 bits.
fn ages(p: Profile) -> Profile {
    Profile {
        max_ops: 24,
        ages: 4,
        many: 0,
        types: 6,
        ..p
    }
}

fn sharing() -> Profile {
    Profile {
        max_ops: 60,
        new: 7,
        array: 6,
        set: 30,
        clone: 12,
        drop: 12,
        into_gpu: 6,
        weak: 14,
        inspect: 10,
        commit: 7,
        poke: 1,
        buffers: 1,
        gone: 0,
        peek: 6,
        ..Default::default()
    }
}

fn main() {
    engine::hangs_after(45);
    let d = Profile::default;
    let sharing = sharing();
    let buffers = Profile {
        max_ops: 90,
        buffers: 16,
        new: 14,
        array: 10,
        set: 8,
        commit: 20,
        peek: 1,
        inspect: 0,
        commit_many: 1,
        ..d()
    };
    let gone = Profile {
        gone: 4,
        buffers: 9,
        weak: 8,
        clone: 8,
        inspect: 6,
        ..d()
    };
    let checks = vec![
        check(
            "C10",
            "the history commits updates of values that were already committed, and its buffer is replaced by a larger one at least once",
            {
                let r: Rule = |f| f.updates > 0 && f.grows > 0;
                vec![
                    on_cpu("history", "C10", 48_000, d(), r),
                    on_rec("history, other runtime", "C10", 24_000, d(), r),
                    on_cpu("churn", "C10", 20_000, churn(), r),
                    on_cpu("sharing", "C10", 20_000, sharing.clone(), |f| f.updates > 0 && f.shared_sets > 0),
                    on_cpu("large", "C10", 3_000, big(), r),
                    on_cpu("huge", "C10", 2_000, huge(), |f| f.max_words > 1 << 16),
                ]
            },
        ),
        check(
            "C11",
            "words written by the GPU are kept over a later commit",
            {
                let p = Profile { poke: 24, ..d() };
                let r: Rule = |f| f.kept_pokes > 0;
                vec![
                    on_cpu("history", "C11", 48_000, p.clone(), r),
                    on_rec("history, other runtime", "C11", 24_000, p.clone(), r),
                    on_cpu("churn", "C11", 20_000, Profile { poke: 20, ..churn() }, r),
                    on_cpu("large", "C11", 3_000, Profile { poke: 20, ..big() }, r),
                    on_cpu("huge", "C11", 2_000, Profile { poke: 16, ..huge() }, |f| f.max_words > 1 << 16),
                ]
            },
        ),
        check(
            "C12",
            "the buffer was replaced by a larger one, and allocations died in between",
            {
                let r: Rule = |f| f.grows > 0 && f.deaths > 0;
                vec![
                    on_cpu("history", "C12", 40_000, d(), r),
                    on_cpu("churn", "C12", 48_000, churn(), r),
                    on_rec("churn, other runtime", "C12", 16_000, churn(), r),
                    on_cpu("large", "C12", 3_000, big(), r),
                    on_cpu("huge", "C12", 2_000, huge(), |f| f.max_words > 1 << 16 && f.deaths > 0),
                ]
            },
        ),
        check("C13", "an allocation was served from reclaimed words", {
            let r: Rule = |f| f.reuses > 0;
            vec![
                on_cpu("churn", "C13", 64_000, churn(), r),
                on_cpu("churn of shared values", "C13", 28_000, Profile { weak: 12, clone: 14, into_gpu: 8, ..churn() }, r),
                on_cpu("all types", "C13", 24_000, d(), r),
                on_cpu("large", "C13", 3_000, big(), r),
                on_cpu("huge", "C13", 2_000, huge(), |f| f.max_words > 1 << 16 && f.reuses > 0),
            ]
        }),
        check("C14", "an outdated buffer was refreshed", {
            let r: Rule = |f| f.refreshed > 0;
            vec![
                on_cpu("buffers", "C14", 48_000, buffers.clone(), r),
                on_rec("buffers, other runtime", "C14", 24_000, buffers.clone(), r),
                on_cpu("ages", "C14", 300, ages(Profile { new: 20, array: 20, set: 2, drop: 2, buffers: 10, ..buffers.clone() }), r),
            ]
        }),
        check(
            "C15",
            "a value was set through one of several owning handles, and a weak handle was upgraded or outlived its value",
            {
                let r: Rule = |f| f.shared_sets > 0 && f.upgrades + f.failed_upgrades > 0;
                vec![
                    on_cpu("sharing", "C15", 80_000, sharing.clone(), r),
                    on_rec("sharing, other runtime", "C15", 20_000, sharing.clone(), r),
                    on_cpu("history", "C15", 20_000, d(), r),
                    on_cpu("huge", "C15", 1_000, Profile { inspect: 8, clone: 6, ..huge() }, |f| f.max_words > 1 << 16),
                ]
            },
        ),
        check(
            "C16",
            "pending updates were looked at while there were some, and committed later",
            {
                let p = Profile {
                    peek: 20,
                    ..d()
                };
                let s = Profile {
                    peek: 24,
                    ..sharing.clone()
                };
                let r: Rule = |f| f.peeks_pending > 0;
                vec![
                    on_cpu("history", "C16", 48_000, p.clone(), r),
                    on_cpu("sharing", "C16", 32_000, s, r),
                    on_rec("history, other runtime", "C16", 16_000, p, r),
                    on_cpu("large", "C16", 2_000, Profile { peek: 10, ..big() }, r),
                    on_cpu("ages", "C16", 160, ages(Profile { peek: 10, ..d() }), r),
                ]
            },
        ),
        managers::check(),
        {
            let r: Rule = |f| f.grows > 0 && f.updates > 0 && f.idle_commits > 0;
            let mut c = check(
                "C21",
                "the recorded calls include replacing the buffer, updating committed values and commits without updates; for direct calls of the CPU runtime, the range that is read is not empty and not everything",
                vec![
                    on_rec("history", "C21", 40_000, Profile { inspect: 0, commit: 22, ..d() }, r),
                    on_rec("churn", "C21", 20_000, churn(), r),
                    on_rec("large", "C21", 2_000, big(), r),
                    on_rec("huge", "C21", 1_000, huge(), |f| f.max_words > 1 << 16),
                ],
            );
            c.families.push(runtimes::family());
            c.assumptions.push("only the CPU runtime is compared to the recording runtime (there is no GPU)");
            c
        },
        check(
            "C22",
            "values were set, or an outdated buffer was held, after the allocator was gone",
            {
                let r: Rule = |f| f.gone_sets > 0 || f.gone_stale > 0;
                vec![
                    on_cpu("history", "C22", 48_000, gone.clone(), r),
                    on_rec("history, other runtime", "C22", 24_000, gone.clone(), r),
                    on_cpu("sharing", "C22", 20_000, Profile { gone: 3, ..sharing.clone() }, r),
                ]
            },
        ),
        check(
            "C23",
            "a replaced buffer that nobody held was released, and a value lost its last handle with a CPU side",
            {
                let p = Profile { gone: 1, ..buffers.clone() };
                let r: Rule = |f| f.released_bufs > 0 && f.released_cpu > 0;
                vec![
                    on_rec("buffers", "C23", 40_000, p, r),
                    on_rec("values", "C23", 32_000, Profile { gone: 1, types: 6, ..sharing.clone() }, |f| f.released_cpu > 0),
                    on_rec("history", "C23", 20_000, Profile { gone: 1, ..d() }, r),
                ]
            },
        ),
        memory::check(),
        check(
            "C27",
            "user code panicked, later a commit was made and a value it was changing was dropped; failures of C10 to C16, C21 to C23 count here in histories with such a panic",
            {
                let p = Profile { panic: 8, ..d() };
                let r: Rule = |f| f.panics > 0 && f.commits_after_panic > 1 && f.poisoned_reclaimed > 0;
                vec![
                    on_cpu("history", "C27", 40_000, p.clone(), r),
                    on_rec("history, other runtime", "C27", 24_000, p.clone(), r),
                    on_cpu("sharing", "C27", 24_000, Profile { panic: 8, gone: 1, ..sharing.clone() }, r),
                    on_cpu("churn", "C27", 16_000, Profile { panic: 8, ..churn() }, r),
                ]
            },
        ),
    ];
    engine::main(checks)
}

/// The histories for a configuration of the allocator.
pub fn plain_families() -> Vec<Box<dyn DynFamily>> {
    let r: Rule = |f| f.updates > 0 && f.grows > 0;
    let d = Profile { gone: 1, ..Default::default() };
    vec![
        on_cpu("history", "C28", 16_000, d.clone(), r),
        on_rec("history, other runtime", "C28", 8_000, d, r),
        on_cpu("churn", "C28", 8_000, churn(), r),
        on_cpu("sharing", "C28", 8_000, sharing(), |f| f.updates > 0 && f.shared_sets > 0),
    ]
}

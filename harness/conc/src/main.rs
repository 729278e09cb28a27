//! C17, C18 and C19: generated programs of several threads, under controlled schedules.
mod exec;
mod reg;
mod rt;
mod val;

use craballoc::runtime::CpuRuntime;
use engine::{Check, Failure, Family, Stats, Verdict};
use exec::{Op, Program};
use proptest::prelude::*;
use shuttle::scheduler::{PctScheduler, RandomScheduler, Scheduler};
use std::sync::{Arc, Mutex};

const RANDOM: usize = 12;
const PCT: usize = 12;

/// Run a program under some schedules, until something fails.
fn schedules(p: &Program, scheduler: impl Scheduler + 'static) -> Vec<reg::Failure> {
    let mut config = shuttle::Config::new();
    config.failure_persistence = shuttle::FailurePersistence::None;
    config.max_steps = shuttle::MaxSteps::FailAfter(200_000);
    config.silence_warnings = true;
    let found: Arc<Mutex<Vec<reg::Failure>>> = Default::default();
    let out = found.clone();
    let p = p.clone();
    let runner = shuttle::Runner::new(scheduler, config);
    let r = engine::catch(move || {
        runner.run(move || {
            if !found.lock().unwrap().is_empty() {
                return;
            }
            let reg = reg::Reg::default();
            {
                let _running = vstd::Running::new();
                if p.slow {
                    exec::run::<rt::Slow>(&p, &reg);
                } else {
                    exec::run::<CpuRuntime>(&p, &reg);
                }
            }
            let mut r = reg.lock();
            found.lock().unwrap().append(&mut r.failures);
        })
    });
    let mut f = out.lock().unwrap_or_else(|e| e.into_inner());
    let mut all = std::mem::take(&mut *f);
    if let Err(m) = r {
        let sig = if m.starts_with("deadlock") {
            "deadlock"
        } else if m.starts_with("exceeded max_steps") {
            "livelock"
        } else {
            "panic"
        };
        all.insert(
            0,
            reg::Failure {
                property: "",
                sig,
                msg: m,
            },
        );
    }
    all
}

fn check(id: &'static str, p: &Program, st: &mut Stats) -> Verdict {
    let mut failures = schedules(p, RandomScheduler::new_from_seed(p.seed, RANDOM));
    for depth in 1..=3 {
        if failures.is_empty() {
            let s = PctScheduler::new_from_seed(p.seed ^ depth, depth as usize, PCT / 3);
            failures = schedules(p, s);
        }
    }
    let commits = |t: &Vec<Op>| t.iter().any(|o| matches!(o, Op::Commit { .. } | Op::CommitInside { .. }));
    let changes = |t: &Vec<Op>| {
        t.iter().any(|o| {
            matches!(
                o,
                Op::New { .. } | Op::Set { .. } | Op::Modify { .. } | Op::Drop { .. } | Op::Upgrade { .. }
            )
        })
    };
    let refreshes = |t: &Vec<Op>| t.iter().any(|o| matches!(o, Op::Refresh { .. } | Op::GetBuffer));
    let n = p.threads.len();
    let pairs = (0..n).flat_map(|a| (0..n).map(move |b| (a, b))).filter(|(a, b)| a != b);
    let mut interesting = false;
    for (a, b) in pairs {
        let (a, b) = (&p.threads[a], &p.threads[b]);
        interesting |= match id {
            "C19" => commits(a) && changes(a) && refreshes(b),
            _ => commits(a) && changes(b),
        };
    }
    if interesting {
        st.nontrivial();
    }
    match n {
        2 => st.label("2 threads"),
        3 => st.label("3 threads"),
        _ => st.label("4 threads"),
    }
    st.note(format!("{} schedules of {}", RANDOM + PCT, serde_json(p)));
    match failures.into_iter().find(|f| f.property.is_empty() || f.property == id) {
        Some(f) => Err(Failure::new(f.sig, f.msg)),
        None => Ok(()),
    }
}

fn serde_json(p: &Program) -> String {
    engine::serde_json::to_string(p).unwrap_or_default()
}

fn op(id: &'static str, focused: bool) -> BoxedStrategy<Op> {
    // how often: values, arrays, writes, drops, weak, mail, commits, pending, buffers
    let w: [u32; 9] = match (id, focused) {
        ("C17", false) => [3, 2, 10, 2, 1, 2, 6, 2, 1],
        ("C17", true) => [0, 0, 10, 1, 0, 0, 5, 1, 0],
        ("C18", false) => [6, 5, 2, 8, 4, 3, 6, 1, 1],
        ("C18", true) => [2, 1, 1, 8, 8, 0, 4, 0, 0],
        (_, false) => [5, 3, 1, 2, 0, 1, 6, 1, 12],
        (_, true) => [4, 2, 0, 1, 0, 0, 6, 0, 8],
    };
    let h = if focused { 0u8..2 } else { 0u8..6 };
    let grow = if id == "C19" { 6u8 } else { 4 };
    prop_oneof![
        w[0] => (0u8..2, 0u8..3).prop_map(|(kind, words)| Op::New { kind, words, len: 1 }),
        w[1] => (2u8..4, 0u8..3, prop_oneof![1 => Just(0u8), 12 => 1..grow]).prop_map(|(kind, words, len)| Op::New { kind, words, len }),
        w[2] => prop_oneof![
            4 => (h.clone(), 0u8..3).prop_map(|(h, i)| Op::Set { h, i }),
            3 => (h.clone(), 0u8..3, any::<bool>()).prop_map(|(h, i, guard)| Op::Modify { h, i, guard }),
            1 => (h.clone(), 0u8..3).prop_map(|(h, i)| Op::Get { h, i }),
        ],
        w[3] => prop_oneof![
            6 => h.clone().prop_map(|h| Op::Drop { h }),
            2 => h.clone().prop_map(|h| Op::Dup { h }),
            1 => h.clone().prop_map(|h| Op::IntoGpu { h }),
        ],
        w[4] => prop_oneof![
            3 => h.clone().prop_map(|h| Op::Weak { h }),
            4 => h.clone().prop_map(|w| Op::Upgrade { w }),
            1 => h.clone().prop_map(|w| Op::DropWeak { w }),
        ],
        w[5] => prop_oneof![h.clone().prop_map(|h| Op::Give { h }), Just(Op::Take)],
        w[6] => prop_oneof![
            9 => any::<bool>().prop_map(|keep| Op::Commit { keep }),
            1 => h.clone().prop_map(|h| Op::CommitInside { h }),
        ],
        w[7] => prop_oneof![5 => Just(Op::Pending), 3 => Just(Op::Defrag), 1 => Just(Op::DropSlab)],
        w[8] => prop_oneof![
            2 => Just(Op::GetBuffer),
            6 => h.clone().prop_map(|b| Op::Refresh { b }),
            1 => h.clone().prop_map(|b| Op::DupBuffer { b }),
            1 => h.prop_map(|b| Op::DropBuffer { b }),
        ],
    ]
    .boxed()
}

/// Most programs do anything, some have their threads contend for one or two values.
fn programs(id: &'static str) -> impl Strategy<Value = Program> {
    let setup = prop::collection::vec(op(id, false), 0..7);
    let value = (0u8..4, 0u8..3, 1u8..3).prop_map(|(kind, words, len)| Op::New { kind, words, len });
    let few = (prop::collection::vec(value, 1..3), any::<bool>()).prop_map(move |(mut ops, commit)| {
        if id == "C18" {
            ops.extend((0..ops.len() as u8).map(|h| Op::Weak { h }).collect::<Vec<_>>());
        }
        if commit || id == "C19" {
            ops.push(Op::Commit { keep: true });
        }
        ops
    });
    prop_oneof![
        3 => programs_of(id, setup.boxed(), any::<u8>().boxed(), false),
        1 => programs_of(id, few.boxed(), (1u8..4).boxed(), true),
    ]
}

/// Programs with some setup, and what is shared of it.
fn programs_of(
    id: &'static str,
    setup: BoxedStrategy<Vec<Op>>,
    share: BoxedStrategy<u8>,
    focused: bool,
) -> impl Strategy<Value = Program> {
    let thread = || prop::collection::vec(op(id, focused), 1..6);
    (
        setup,
        prop::collection::vec(share, 7),
        prop_oneof![
            6 => prop::collection::vec(thread(), 2),
            4 => prop::collection::vec(thread(), 3),
            1 => prop::collection::vec(thread(), 4),
        ],
        prop::bool::weighted(0.8),
        any::<u64>(),
    )
        .prop_map(|(setup, share, threads, slow, seed)| Program {
            setup,
            share,
            threads,
            slow,
            seed,
        })
}

fn main() {
    engine::hangs_after(45);
    let rules = [
        ("C17", "one thread commits, another one creates, sets, modifies or drops"),
        ("C18", "one thread commits, another one creates, sets, modifies, upgrades or drops"),
        ("C19", "one thread commits and changes something, another one refreshes or gets a buffer"),
    ];
    let mut assumptions = vec![
        "programs have two to four threads of up to five operations, after up to six operations of a single thread",
        "atomic operations are sequentially consistent",
        "threads are switched at locks, atomics, channel operations and calls of the runtime",
    ];
    if cfg!(feature = "arc") {
        assumptions.push("threads are also switched where a reference count is read or changed");
    }
    let checks = rules
        .into_iter()
        .map(|(id, rule)| Check {
            id,
            rule,
            assumptions: assumptions.clone(),
            families: vec![Box::new(Family::new(
                "programs",
                80_000,
                1_000_000,
                move || programs(id),
                move |p: &Program, st: &mut Stats| check(id, p, st),
            ))],
        })
        .collect();
    engine::main(checks)
}

//! C08 and C09: generated type definitions are compiled with the derive and run.
mod gen;
mod programs;

use engine::Check;

fn main() {
    let assumptions = vec![
        "generated definitions are made of the supported types, nested up to three levels, in editions 2018, 2021 and 2024",
        "definitions whose field names are the same in upper case do not ask for offsets",
        "the default of a generic enum has no fields of its parameters (or its bounds would have to be known to the derive)",
    ];
    let checks = vec![
        Check {
            id: "C08",
            rule: "the program defines types with more than one field or variant in total",
            assumptions: assumptions.clone(),
            families: vec![
                programs::definitions_family("definitions", 320, 9_000),
                programs::unions_family(16, 200),
            ],
        },
        Check {
            id: "C09",
            rule: "the program defines a type with offsets",
            assumptions,
            families: vec![
                programs::offsets_family("offsets", 320, 9_000),
                programs::enums_family(32, 400),
            ],
        },
    ];
    programs::tidy();
    engine::main(checks)
}

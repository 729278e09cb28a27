//! Generated type definitions are compiled with the derive and run.
use engine::{ensure, DynFamily, Failure, Family, Stats, Verdict};
use crate::gen::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

struct Libs {
    externs: Vec<(String, String)>,
    deps: String,
    tmp: PathBuf,
}

/// Something that says nothing about the property.
fn inconclusive(m: String) -> ! {
    eprintln!("inconclusive: {m}");
    std::process::exit(2)
}

fn libs() -> &'static Libs {
    static LIBS: OnceLock<Libs> = OnceLock::new();
    LIBS.get_or_init(|| {
        let target = std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/target".into());
        let of = env!("CARGO_PKG_NAME").trim_end_matches("-checks");
        let list = std::fs::read_to_string(format!("{target}/{of}-artifacts.json"))
            .unwrap_or_else(|e| inconclusive(format!("no list of libraries: {e}")));
        let mut externs = vec![];
        for l in list.lines() {
            let Ok(v) = engine::serde_json::from_str::<engine::serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or_default();
            if !["crabslab", "engine", "support", "glam"].contains(&name) {
                continue;
            }
            for f in v["filenames"].as_array().into_iter().flatten() {
                let f = f.as_str().unwrap_or_default();
                if f.ends_with(".rlib") {
                    externs.push((name.to_string(), f.to_string()));
                }
            }
        }
        if externs.len() != 4 {
            inconclusive(format!("libraries found: {externs:?}"));
        }
        let tmp = PathBuf::from(format!("{target}/derive-tmp/{}", std::process::id()));
        let _ = std::fs::create_dir_all(&tmp);
        Libs {
            externs,
            deps: format!("{target}/debug/deps"),
            tmp,
        }
    })
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch() -> Dir {
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = libs().tmp.join(N.fetch_add(1, Ordering::SeqCst).to_string());
    let _ = std::fs::create_dir_all(&d);
    Dir(d)
}

/// Compile a program. `Err` are the messages of the compiler.
fn compile(dir: &Path, src: &str, edition: &str, link: bool) -> Result<PathBuf, String> {
    let l = libs();
    let main = dir.join("main.rs");
    std::fs::write(&main, src).unwrap_or_else(|e| inconclusive(e.to_string()));
    let out = dir.join("main");
    let rustc = std::env::var("RUSTC").unwrap_or_else(|_| "rustc".into());
    let mut c = Command::new(rustc);
    c.current_dir(dir)
        .arg(&main)
        .args(["--edition", edition, "--crate-name", "generated", "--crate-type", "bin"])
        .args(["-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=1", "--cap-lints=allow"])
        .arg("-L")
        .arg(format!("dependency={}", l.deps));
    for (n, f) in &l.externs {
        c.arg("--extern").arg(format!("{n}={f}"));
    }
    if link {
        c.arg("-o").arg(&out);
    } else {
        c.args(["--emit=metadata", "-o"]).arg(dir.join("main.rmeta"));
    }
    c.stdin(Stdio::null());
    let o = c.output().unwrap_or_else(|e| inconclusive(format!("rustc: {e}")));
    if o.status.success() {
        return Ok(out);
    }
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    if o.status.code() != Some(1) || !err.contains("error") || err.contains("No space left") {
        inconclusive(format!("rustc ended with {:?}: {err}", o.status));
    }
    Err(err)
}

fn short(e: &str) -> String {
    e.lines().take(14).collect::<Vec<_>>().join("\n")
}

fn label(st: &mut Stats, p: &Program, e: &Emitter) {
    for f in &e.features {
        st.label(f);
    }
    st.label(match edition(p.edition) {
        "2018" => "edition 2018",
        "2024" => "edition 2024",
        _ => "edition 2021",
    });
}

fn check(p: &Program, st: &mut Stats, offsets: bool) -> Verdict {
    let mut e = Emitter::new(&p.defs);
    let src = e.program(p.seed, 200);
    label(st, p, &e);
    let fields: usize = p
        .defs
        .iter()
        .map(|d| match &d.kind {
            Kind::Struct(Shape::Tuple(f) | Shape::Named(f)) => f.len(),
            Kind::Enum { variants, .. } => variants.len(),
            _ => 0,
        })
        .sum();
    if if offsets { e.features.contains("offsets") } else { fields > 1 } {
        st.nontrivial();
    }
    let dir = scratch();
    let exe = match compile(&dir.0, &src, edition(p.edition), true) {
        Ok(exe) => exe,
        Err(m) => {
            return Err(Failure::new(
                "does-not-compile",
                format!("the definitions do not compile: {}\n{}", short(&m), definitions(p)),
            ))
        }
    };
    let o = Command::new(&exe)
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| inconclusive(format!("{}: {e}", exe.display())));
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    if let Some(l) = text.lines().find(|l| l.starts_with("FAIL\t")) {
        let mut it = l.split('\t').skip(1);
        let sig = it.next().unwrap_or_default().to_string();
        return Err(Failure::new(sig, format!("{}\n{}", it.next().unwrap_or_default(), definitions(p))));
    }
    if let Some(l) = text.lines().find(|l| l.starts_with("OK\t")) {
        if o.status.success() {
            let v: Vec<&str> = l.split('\t').collect();
            st.note(format!("{} types with {} fields that have offsets, {} values\n{}", v[2], v[3], v[1], definitions(p)));
            return Ok(());
        }
    }
    ensure!(
        o.status.code() == Some(101),
        "crash",
        "the program ended with {:?}\n{}",
        o.status,
        definitions(p)
    );
    Err(Failure::new(
        "panic",
        format!("panicked: {}\n{}", short(&String::from_utf8_lossy(&o.stderr)), definitions(p)),
    ))
}

/// Only the definitions, for messages.
fn definitions(p: &Program) -> String {
    let mut e = Emitter::new(&p.defs);
    let s = e.program(0, 0);
    let lines: Vec<&str> = s
        .lines()
        .filter(|l| l.trim_start().starts_with("#[derive("))
        .map(|l| l.trim())
        .collect();
    lines.join("\n")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Reject {
    program: Program,
    /// for unions: field names and primitive types
    union: Vec<(u8, u8)>,
    generic: bool,
}

fn reject_union(r: &Reject, st: &mut Stats) -> Verdict {
    let prims = ["u32", "f32", "u64", "[u32; 3]", "bool"];
    let names = ["a", "b", "r#type", "index", "slab", "c", "d"];
    let fields: Vec<String> = r
        .union
        .iter()
        .enumerate()
        .map(|(i, (n, t))| {
            format!("{}{i}: {}", names[*n as usize % names.len()].trim_start_matches("r#"), prims[*t as usize % prims.len()])
        })
        .collect();
    let (g, extra) = if r.generic { ("<T: Copy>", ", t: T") } else { ("", "") };
    let src = |derive: &str| {
        format!(
            "#![allow(unused)]\nuse crabslab::SlabItem;\n#[derive(Clone, Copy{derive})]\npub union Bits{g} {{ {}{extra} }}\nimpl{g} Default for Bits{} {{ fn default() -> Self {{ panic!() }} }}\nfn main() {{}}\n",
            fields.join(", "),
            if r.generic { "<T>" } else { "" }
        )
    };
    let dir = scratch();
    let ed = edition(r.program.edition);
    if let Err(m) = compile(&dir.0, &src(""), ed, false) {
        inconclusive(format!("a union without the derive does not compile: {m}"));
    }
    st.nontrivial();
    st.label(if r.generic { "generic union" } else { "union" });
    ensure!(
        compile(&dir.0, &src(", SlabItem"), ed, false).is_err(),
        "union-accepted",
        "deriving for a union compiled: {}",
        src(", SlabItem")
    );
    Ok(())
}

/// The last definition is an enum that asks for offsets.
fn reject_enum(r: &Reject, st: &mut Stats) -> Verdict {
    let mut defs = r.program.defs.clone();
    let last = defs.last_mut().expect("there is one");
    // a plain enum whose default is its first variant
    last.params = 0;
    last.konst = false;
    if let Kind::Struct(s) = last.kind.clone() {
        last.kind = Kind::Enum {
            variants: vec![(0, Shape::Unit), (1, s)],
            default: 1,
            repr: 7,
        };
    }
    let ed = edition(r.program.edition);
    let dir = scratch();
    last.offsets = false;
    let good = Emitter::new(&defs).bare(Some("SlabItem"));
    if let Err(m) = compile(&dir.0, &good, ed, false) {
        return Err(Failure::new(
            "does-not-compile",
            format!("an enum without #[offsets] does not compile: {}\n{good}", short(&m)),
        ));
    }
    defs.last_mut().expect("there is one").offsets = true;
    let bad = Emitter::new(&defs).bare(Some("SlabItem"));
    st.nontrivial();
    ensure!(
        compile(&dir.0, &bad, ed, false).is_err(),
        "enum-offsets-accepted",
        "offsets of an enum compiled: {bad}"
    );
    Ok(())
}

fn rejects() -> impl Strategy<Value = Reject> {
    (
        programs(Want::Any),
        prop::collection::vec((any::<u8>(), any::<u8>()), 1..4),
        any::<bool>(),
    )
        .prop_map(|(mut program, union, generic)| {
            program.defs.truncate(2);
            Reject { program, union, generic }
        })
}

/// Programs with any definitions.
pub fn definitions_family(name: &'static str, quick: u64, thorough: u64) -> Box<dyn DynFamily> {
    Box::new(Family::new(name, quick, thorough, || programs(Want::Any), |p: &Program, st: &mut Stats| check(p, st, false)))
}

/// Programs with offsets.
pub fn offsets_family(name: &'static str, quick: u64, thorough: u64) -> Box<dyn DynFamily> {
    Box::new(Family::new(name, quick, thorough, || programs(Want::Offsets), |p: &Program, st: &mut Stats| check(p, st, true)))
}

pub fn unions_family(quick: u64, thorough: u64) -> Box<dyn DynFamily> {
    Box::new(Family::new("rejected unions", quick, thorough, rejects, reject_union))
}

pub fn enums_family(quick: u64, thorough: u64) -> Box<dyn DynFamily> {
    Box::new(Family::new("rejected enums", quick, thorough, rejects, reject_enum))
}

/// Remove what runs that were stopped have left.
pub fn tidy() {
    let tmp = libs().tmp.clone();
    if let Some(all) = tmp.parent().and_then(|p| std::fs::read_dir(p).ok()) {
        for d in all.flatten() {
            let old = d
                .metadata()
                .and_then(|m| m.modified())
                .ok()
                .and_then(|m| m.elapsed().ok())
                .is_some_and(|e| e.as_secs() > 7200);
            if old {
                let _ = std::fs::remove_dir_all(d.path());
            }
        }
    }
}

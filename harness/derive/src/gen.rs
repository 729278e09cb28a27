//! Random type definitions, and the Rust source that checks them.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use std::fmt::Write;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ty {
    Prim(u8),
    Id(Box<Ty>),
    Array(Box<Ty>),
    Opt(Box<Ty>),
    /// fixed size array
    Arr(Box<Ty>, u8),
    Tup(Vec<Ty>),
    Phantom(Box<Ty>),
    /// a type made of ids or arrays of the defined type itself
    This(u8),
    /// an earlier definition
    Def(u8),
    /// a type parameter
    Param(u8),
    /// an array that is as long as the const parameter
    ParamArr(Box<Ty>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fld {
    pub name: u8,
    pub vis: u8,
    pub attr: u8,
    pub ty: Ty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Shape {
    Unit,
    Tuple(Vec<Fld>),
    Named(Vec<Fld>),
}

impl Shape {
    fn fields(&self) -> &[Fld] {
        match self {
            Shape::Unit => &[],
            Shape::Tuple(f) | Shape::Named(f) => f,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Struct(Shape),
    Enum {
        variants: Vec<(u8, Shape)>,
        default: u8,
        repr: u8,
    },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Def {
    pub name: u8,
    pub kind: Kind,
    /// number of type parameters
    pub params: u8,
    /// has a const parameter
    pub konst: bool,
    /// how the parameters are bounded
    pub bounds: u8,
    pub offsets: bool,
    /// whether SlabItem is imported
    pub import: bool,
    /// type arguments to check a generic type with
    pub args: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Program {
    pub edition: u8,
    pub defs: Vec<Def>,
    pub seed: u32,
}

const PRIMS: [&str; 20] = [
    "u32", "f32", "bool", "u8", "i8", "u16", "i16", "i32", "u64", "i64", "u128", "i128", "f64", "Vec2",
    "Vec3", "Vec4", "Quat", "UVec3", "Mat4", "UVec4",
];

/// Names that a derive might trip over.
const FIELDS: [&str; 56] = [
    "a", "b", "position", "r#type", "index", "slab", "self_", "original_index", "slab_size", "hash",
    "r#match", "r#fn", "__hash", "__0", "__field_a", "_x", "größe", "data", "len", "u32", "r#struct", "id",
    "inner", "i", "t", "f", "value", "size", "__size", "__field_size", "Default", "SLAB_SIZE", "r#gen",
    "r#async", "offset", "other", "name", "read_slab", "write_slab", "read", "write", "__index", "__slab",
    "crabslab", "core", "r#ref", "r#move", "out", "end", "variant", "output", "num_fields", "union", "auto",
    "__i", "r#await",
];

const VARIANTS: [&str; 24] = [
    "A", "B", "None_", "Some_", "Ok_", "Default", "SlabItem", "Index", "U32", "Point", "r#Type", "Hash", "__0",
    "snake_case", "SLAB_SIZE", "Été", "X1", "Id", "Array", "Slab", "Size", "Circle", "lower", "Z",
];

const NAMES: [&str; 12] = [
    "Foo", "Light", "__Hidden", "Ünit", "lower", "Index", "SlabItems", "V", "Item_", "r#Raw", "Id_", "Offsets",
];

fn shout(name: &str) -> String {
    name.trim_start_matches("r#").to_uppercase()
}

/// Fields with names that no two of share (also not as the name of a constant).
fn named(fields: &[Fld]) -> Vec<String> {
    let mut seen = HashSet::new();
    fields
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let n = FIELDS[f.name as usize % FIELDS.len()].to_string();
            if seen.insert(shout(&n)) {
                n
            } else {
                let n = format!("{}_{i}", n.trim_start_matches("r#"));
                seen.insert(shout(&n));
                n
            }
        })
        .collect()
}

fn members(s: &Shape) -> Vec<String> {
    match s {
        Shape::Unit => vec![],
        Shape::Tuple(f) => (0..f.len()).map(|i| i.to_string()).collect(),
        Shape::Named(f) => named(f),
    }
}

/// A definition as it is used by others.
#[derive(Clone)]
struct Known {
    module: String,
    name: String,
    params: u8,
    konst: bool,
    offsets: bool,
    /// nesting, to bound sizes
    depth: usize,
    words: usize,
}

pub struct Emitter<'a> {
    known: Vec<Known>,
    pub features: BTreeSet<&'static str>,
    defs: &'a [Def],
    /// the type itself is only referred to with ids
    ids_only: bool,
}

const PARAMS: [&str; 2] = ["T", "U"];
const ARGS: [[&str; 2]; 5] = [
    ["u32", "Vec3"],
    ["Option<u64>", "bool"],
    ["[f32; 2]", "u8"],
    ["PhantomData<u32>", "(u8, u64)"],
    ["Id<u32>", "i64"],
];

impl<'a> Emitter<'a> {
    pub fn new(defs: &'a [Def]) -> Self {
        Emitter {
            known: vec![],
            features: Default::default(),
            defs,
            ids_only: false,
        }
    }

    fn inst(&self, k: &Known, args: u8) -> String {
        let a = ARGS[args as usize % ARGS.len()];
        let mut v: Vec<String> = a[..k.params as usize].iter().map(|s| s.to_string()).collect();
        if k.konst {
            v.push("3".into());
        }
        if v.is_empty() {
            format!("{}::{}", k.module, k.name)
        } else {
            format!("{}::{}<{}>", k.module, k.name, v.join(", "))
        }
    }

    /// The source of a type, and its (approximate) size.
    fn ty(&mut self, t: &Ty, d: &Def, this: &str, deep: usize, elem: bool) -> (String, usize) {
        let generic = d.params > 0;
        match t {
            Ty::Prim(p) => {
                let n = PRIMS[*p as usize % PRIMS.len()];
                (n.into(), 4)
            }
            Ty::Id(t) => {
                let t = self.ty(t, d, this, deep + 1, false).0;
                (format!("Id<{t}>"), 1)
            }
            Ty::Array(t) => {
                let t = self.ty(t, d, this, deep + 1, false).0;
                (format!("Array<{t}>"), 2)
            }
            Ty::Opt(t) => {
                let (t, n) = self.ty(t, d, this, deep + 1, elem);
                (format!("Option<{t}>"), n + 1)
            }
            Ty::Arr(t, n) => {
                let (t, m) = self.ty(t, d, this, deep + 1, true);
                let n = *n as usize % 5;
                (format!("[{t}; {n}]"), n * m)
            }
            Ty::Tup(ts) => {
                let all: Vec<_> = ts.iter().map(|t| self.ty(t, d, this, deep + 1, elem)).collect();
                match all.len() {
                    0 => ("u32".into(), 1),
                    1 => (format!("({},)", all[0].0), all[0].1),
                    _ => (
                        format!("({})", all.iter().map(|a| a.0.clone()).collect::<Vec<_>>().join(", ")),
                        all.iter().map(|a| a.1).sum(),
                    ),
                }
            }
            Ty::Phantom(t) => {
                let t = self.ty(t, d, this, deep + 1, false).0;
                self.features.insert("no words");
                (format!("PhantomData<{t}>"), 0)
            }
            Ty::This(k) => {
                self.features.insert("refers to itself");
                // the bound that the parameters need would need itself
                let k = if self.ids_only { k % 4 * 2 } else { k % 8 };
                let s = match k {
                    0 => "Id<Self>".to_string(),
                    1 => "Array<Self>".to_string(),
                    2 => format!("Id<{this}>"),
                    3 => format!("Array<{this}>"),
                    4 => format!("Option<Id<{this}>>"),
                    5 => "(Id<Self>, Array<Self>)".to_string(),
                    6 => format!("Id<({this}, Self)>"),
                    _ => format!("Array<({this}, u32)>"),
                };
                (s, 3)
            }
            Ty::Def(i) => {
                if self.known.is_empty() {
                    return ("u32".into(), 1);
                }
                let k = self.known[*i as usize % self.known.len()].clone();
                if k.depth > 3 || k.words > 120 {
                    return ("Vec2".into(), 2);
                }
                self.features.insert("nested");
                (self.inst(&k, *i), k.words)
            }
            Ty::Param(i) => {
                if generic {
                    self.features.insert("generic");
                    (PARAMS[*i as usize % d.params as usize].into(), 4)
                } else {
                    ("UVec2".into(), 2)
                }
            }
            Ty::ParamArr(t) => {
                // not of parameters: nothing is known of arrays of them
                let plain = match &**t {
                    Ty::Prim(p) => PRIMS[*p as usize % PRIMS.len()],
                    _ => "u16",
                };
                if d.konst && deep == 0 {
                    self.features.insert("const generic");
                    (format!("[{plain}; N]"), 12)
                } else {
                    (format!("[{plain}; 3]"), 12)
                }
            }
        }
    }

    fn shape(&mut self, s: &Shape, d: &Def, this: &str, in_enum: bool) -> (String, Vec<String>, usize) {
        let mut tys = vec![];
        let mut words = 0;
        for f in s.fields() {
            self.ids_only = !uses(&f.ty, d).0.is_empty();
            let (t, n) = self.ty(&f.ty, d, this, 0, false);
            tys.push(t);
            words += n;
        }
        let names = members(s);
        if names.iter().any(|n| n.starts_with("r#")) {
            self.features.insert("raw names");
        }
        let vis = |f: &Fld| {
            if in_enum {
                ""
            } else if d.offsets {
                "pub "
            } else {
                ["pub ", "", "pub(crate) ", "pub(super) "][f.vis as usize % 4]
            }
        };
        let attr = |f: &Fld| match f.attr % 6 {
            0 => "#[allow(dead_code)] ",
            1 => "/** about a field */ ",
            2 => "#[cfg(all())] ",
            _ => "",
        };
        let src = match s {
            Shape::Unit => String::new(),
            Shape::Tuple(fs) => {
                if fs.is_empty() {
                    self.features.insert("empty parentheses or braces");
                }
                let v: Vec<_> = fs
                    .iter()
                    .zip(&tys)
                    .map(|(f, t)| format!("{}{}{t}", attr(f), vis(f)))
                    .collect();
                format!("({})", v.join(", "))
            }
            Shape::Named(fs) => {
                if fs.is_empty() {
                    self.features.insert("empty parentheses or braces");
                }
                let v: Vec<_> = fs
                    .iter()
                    .zip(&tys)
                    .zip(&names)
                    .map(|((f, t), n)| format!("{}{}{n}: {t}", attr(f), vis(f)))
                    .collect();
                format!(" {{ {} }}", v.join(", "))
            }
        };
        (src, tys, words)
    }

    /// The definition alone, with the given derives.
    fn definition(&mut self, i: usize, derive: Option<&str>) -> (String, Known, Vec<(Shape, Vec<String>)>) {
        let d = &self.defs[i];
        let mut d = d.clone();
        let name = format!("{}{i}", NAMES[d.name as usize % NAMES.len()]);
        // Parameters that nothing uses do not compile
        let uses = |t: &Ty| -> (BTreeSet<u8>, bool) { uses(t, &d) };
        let mut used = BTreeSet::new();
        let mut konst = false;
        let shapes: Vec<&Shape> = match &d.kind {
            Kind::Struct(s) => vec![s],
            Kind::Enum { variants, .. } => variants.iter().map(|v| &v.1).collect(),
        };
        for s in &shapes {
            for f in s.fields() {
                let u = uses(&f.ty);
                used.extend(u.0);
                konst |= u.1;
            }
        }
        let want = used.iter().max().map(|m| m + 1).unwrap_or(0);
        d.konst &= konst;
        // if the first one is unused, so is the second
        let params = if (0..want).all(|p| used.contains(&p)) { want } else { 1 };
        let generics_changed = params != d.params;
        d.params = params.min(2);
        let mut gs: Vec<String> = vec![];
        let mut where_ = String::new();
        for p in &PARAMS[..d.params as usize] {
            gs.push(match d.bounds % 3 {
                0 => p.to_string(),
                1 => format!("{p}: Copy + 'static"),
                _ => {
                    let _ = write!(where_, "{}{p}: 'static", if where_.is_empty() { " where " } else { ", " });
                    p.to_string()
                }
            });
        }
        let _ = generics_changed;
        if d.params > 0 && d.bounds % 5 == 4 && !d.konst {
            let l = gs.len() - 1;
            gs[l] = format!("{} = u32", gs[l]);
        }
        if d.konst {
            gs.push("const N: usize".into());
        }
        let generics = if gs.is_empty() { String::new() } else { format!("<{}>", gs.join(", ")) };
        let uses: Vec<&str> = PARAMS[..d.params as usize]
            .iter()
            .copied()
            .chain(d.konst.then_some("N"))
            .collect();
        let this = if uses.is_empty() { name.clone() } else { format!("{name}<{}>", uses.join(", ")) };

        let mut src = String::new();
        let derives = match (derive, d.import) {
            (None, _) => "Clone, Copy, Debug".to_string(),
            (Some(x), true) => format!("Clone, Copy, {x}, Debug"),
            (Some(x), false) => format!("Clone, Copy, Debug, crabslab::{x}"),
        };
        if d.import {
            let _ = writeln!(src, "    use crabslab::SlabItem;");
        }
        let _ = writeln!(src, "    /// A type.");
        let mut out = vec![];
        let words;
        let offsets = if d.offsets && derive.is_some() { "#[offsets] " } else { "" };
        match &d.kind {
            Kind::Struct(s) => {
                let (body, tys, n) = self.shape(s, &d, &this, false);
                words = n;
                let _ = match s {
                    Shape::Named(_) => writeln!(src, "    #[derive({derives})] {offsets}pub struct {name}{generics}{where_}{body}"),
                    _ => writeln!(src, "    #[derive({derives})] {offsets}pub struct {name}{generics}{body}{where_};"),
                };
                out.push((s.clone(), tys));
            }
            Kind::Enum { variants, default, repr } => {
                let mut vs = vec![];
                let mut seen = HashSet::new();
                let mut max = 0;
                let all: Vec<(u8, Shape)> = if variants.is_empty() {
                    vec![(0, Shape::Unit)]
                } else {
                    variants.clone()
                };
                let fieldless = all.iter().all(|v| matches!(v.1, Shape::Unit));
                let repr = match repr % 8 {
                    0 => "#[repr(u8)] ",
                    1 => "#[repr(C)] ",
                    2 => "#[repr(i32)] ",
                    _ => "",
                };
                // discriminants are not variant numbers
                let disc = default % 3 == 0 && (fieldless || repr.contains('8') || repr.contains('3'));
                if disc {
                    self.features.insert("discriminants");
                }
                for (k, (n, s)) in all.iter().enumerate() {
                    let mut n = VARIANTS[*n as usize % VARIANTS.len()].to_string();
                    if !seen.insert(n.clone()) {
                        n = format!("{}{k}", n.trim_start_matches("r#"));
                        seen.insert(n.clone());
                    }
                    let (body, tys, w) = self.shape(s, &d, &this, true);
                    max = max.max(w);
                    let disc = if disc { format!(" = {}", (all.len() - k) * 3) } else { String::new() };
                    vs.push(format!("{n}{body}{disc}"));
                    out.push((s.clone(), tys));
                }
                words = max + 1;
                if all.len() > 1 {
                    self.features.insert("enum");
                }
                if out.iter().any(|o| !o.1.is_empty()) {
                    self.features.insert("enum with fields");
                }
                let _ = writeln!(
                    src,
                    "    #[derive({derives})] {offsets}{repr}pub enum {name}{generics}{where_} {{ {} }}",
                    vs.join(", ")
                );
            }
        }
        let depth = 1 + self.known.iter().map(|k| k.depth).max().unwrap_or(0).min(3);
        (
            src,
            Known {
                module: format!("m{i}"),
                name,
                params: d.params,
                konst: d.konst,
                offsets: d.offsets && matches!(d.kind, Kind::Struct(_)),
                depth,
                words,
            },
            out,
        )
    }

    fn head(&self, i: usize) -> String {
        let mut s = format!("pub mod m{i} {{\n    #![allow(unused, nonstandard_style)]\n    use core::marker::PhantomData;\n    use crabslab::{{Array, Id}};\n    use glam::*;\n");
        for k in &self.known {
            let _ = writeln!(s, "    use super::{};", k.module);
        }
        s
    }

    /// Everything: the definition, its model, and its entries.
    fn emit(&mut self, i: usize, out: &mut String, entries: &mut Vec<String>) {
        let d = self.defs[i].clone();
        let (src, known, shapes) = self.definition(i, Some("SlabItem"));
        let src_head = self.head(i);
        let name = &known.name;
        let variants: Vec<String> = match &d.kind {
            Kind::Struct(_) => vec![name.clone()],
            Kind::Enum { variants, .. } => {
                let mut seen = HashSet::new();
                let mut v: Vec<String> = variants
                    .iter()
                    .enumerate()
                    .map(|(k, (n, _))| {
                        let mut n = VARIANTS[*n as usize % VARIANTS.len()].to_string();
                        if !seen.insert(n.clone()) {
                            n = format!("{}{k}", n.trim_start_matches("r#"));
                            seen.insert(n.clone());
                        }
                        format!("{name}::{n}")
                    })
                    .collect();
                if v.is_empty() {
                    v.push(format!("{name}::{}", VARIANTS[0]));
                }
                v
            }
        };
        let is_enum = matches!(d.kind, Kind::Enum { .. });
        let gs: Vec<String> = PARAMS[..known.params as usize]
            .iter()
            .map(|p| format!("{p}: Item + Copy + Default + 'static"))
            .chain(known.konst.then(|| "const N: usize".to_string()))
            .collect();
        let us: Vec<&str> = PARAMS[..known.params as usize]
            .iter()
            .copied()
            .chain(known.konst.then_some("N"))
            .collect();
        let (ig, tg) = if gs.is_empty() {
            (String::new(), String::new())
        } else {
            (format!("<{}>", gs.join(", ")), format!("<{}>", us.join(", ")))
        };
        // which variant is the default: without values of parameters if generic
        let dv = match &d.kind {
            Kind::Struct(_) => 0,
            Kind::Enum { default, .. } => {
                let k = *default as usize % shapes.len();
                if gs.is_empty() {
                    k
                } else {
                    (0..shapes.len()).find(|k| shapes[*k].1.is_empty()).unwrap_or(k)
                }
            }
        };
        let where_: String = if known.konst {
            let mut w = BTreeSet::new();
            for t in shapes.iter().flat_map(|s| &s.1) {
                if t.ends_with("; N]") {
                    w.insert(format!("{t}: Default"));
                }
            }
            format!(" where {}", w.into_iter().collect::<Vec<_>>().join(", "))
        } else {
            String::new()
        };
        // Default without bounds for generic enums, as the derive needs it
        let mut imp = String::new();
        let ctor = |k: usize, f: &dyn Fn(&str) -> String| {
            let m = members(&shapes[k].0);
            let fields: Vec<_> = m.iter().zip(&shapes[k].1).map(|(m, t)| format!("{m}: {}", f(t))).collect();
            format!("{} {{ {} }}", variants[k], fields.join(", "))
        };
        let dflt = ctor(dv, &|t| format!("<{t} as Item>::dflt()"));
        let unbounded = is_enum && !gs.is_empty() && shapes[dv].1.is_empty();
        if unbounded {
            let g: Vec<String> = PARAMS[..known.params as usize]
                .iter()
                .map(|p| if d.bounds % 3 == 0 { p.to_string() } else { format!("{p}: Copy + 'static") })
                .chain(known.konst.then(|| "const N: usize".to_string()))
                .collect();
            // bounds of the definition must be repeated
            let g = g
                .iter()
                .map(|x| if d.bounds % 3 == 2 { x.replace("Copy + ", "") } else { x.clone() })
                .collect::<Vec<_>>();
            let _ = writeln!(imp, "        impl<{}> Default for {name}{tg} {{ fn default() -> Self {{ {dflt} }} }}", g.join(", "));
        } else {
            let _ = writeln!(imp, "        impl{ig} Default for {name}{tg}{where_} {{ fn default() -> Self {{ {dflt} }} }}");
        }
        let sizes: Vec<String> = shapes
            .iter()
            .map(|s| {
                let v: Vec<_> = s.1.iter().map(|t| format!(" + <{t} as Item>::size()")).collect();
                format!("0usize{}", v.concat())
            })
            .collect();
        let mut build = String::new();
        let mut enc = String::new();
        let mut dec = String::new();
        for k in 0..shapes.len() {
            let m = members(&shapes[k].0);
            let made = ctor(k, &|t| format!("<{t} as Item>::build(s)"));
            let pat: Vec<_> = m.iter().enumerate().map(|(j, m)| format!("{m}: x{j}")).collect();
            let writes: Vec<_> = (0..m.len()).map(|j| format!("Item::enc(x{j}, out);")).collect();
            let mut reads = String::new();
            for (j, t) in shapes[k].1.iter().enumerate() {
                let _ = write!(reads, "let x{j} = <{t} as Item>::dec(w); w = &w[<{t} as Item>::size()..]; ");
            }
            let made_dec: Vec<_> = m.iter().enumerate().map(|(j, m)| format!("{m}: x{j}")).collect();
            let made_dec = format!("{reads} {} {{ {} }}", variants[k], made_dec.join(", "));
            if is_enum {
                let _ = write!(build, "{k} => {made}, ");
                let _ = write!(enc, "{} {{ {} }} => {{ out.push(Some({k})); {} }} ", variants[k], pat.join(", "), writes.concat());
                let _ = write!(dec, "{k} => {{ {made_dec} }} ");
            } else {
                build = made;
                let _ = write!(enc, "{} {{ {} }} => {{ {} }}", variants[k], pat.join(", "), writes.concat());
                dec = made_dec;
            }
        }
        let size = if is_enum {
            format!("1 + [{}].into_iter().max().unwrap()", sizes.join(", "))
        } else {
            sizes[0].clone()
        };
        if is_enum {
            build = format!("match s.below({}) {{ {build} _ => unreachable!() }}", shapes.len());
            dec = format!("let mut w = w; let v = w[0]; w = &w[1..]; match v {{ {dec} _ => {dflt} }}");
        } else {
            dec = format!("let mut w = w; {dec}");
        }
        let _ = writeln!(
            imp,
            "        impl{ig} Item for {name}{tg}{where_} {{
            fn build(s: &mut Src) -> Self {{ {build} }}
            fn size() -> usize {{ {size} }}
            fn enc(&self, out: &mut Vec<Word>) {{ let end = out.len() + <Self as Item>::size(); match self {{ {enc} }} out.resize(end, None); }}
            fn dec(w: &[u32]) -> Self {{ {dec} }}
            fn dflt() -> Self {{ {dflt} }}
        }}"
        );
        // Entries
        let inst = self.inst(&known, d.args);
        let count = if is_enum { format!("Some({})", shapes.len()) } else { "None".into() };
        entries.push(format!("support::entry::<{inst}>({inst:?}, {count})"));
        if known.params > 0 {
            let other = self.inst(&known, d.args.wrapping_add(1));
            entries.push(format!("support::entry::<{other}>({other:?}, {count})"));
        }
        // Offsets
        let mut fields = String::new();
        if known.offsets {
            self.features.insert("offsets");
            let here = |t: &str| subst(t, &known, d.args, &inst);
            let mut at = String::from("0");
            let m = members(&shapes[0].0);
            if known.params > 0 {
                self.features.insert("offsets of a generic type");
            }
            for (j, (m, t)) in m.iter().zip(&shapes[0].1).enumerate() {
                let t = here(t);
                let c = shout(m);
                let path = format!("<{inst}>::OFFSET_OF_{c}");
                let _ = writeln!(
                    fields,
                    "            v.push(support::field::<{inst}, {t}>({:?}, {at}, |id| {{ let a: Id<{t}> = id + {path}; let b: Id<{t}> = {path} + id; [a, b] }}, <{inst}>::SLAB_SIZE_OF_{c}, |s| s.{m}, |s, f| s.{m} = f));",
                    format!("{inst}.{m}")
                );
                for (l, r, want) in [
                    (format!("Id<{inst}>"), format!("Offset<{t}, {inst}>"), true),
                    (format!("Offset<{t}, {inst}>"), format!("Id<{inst}>"), true),
                    ("Id<support::Stranger>".into(), format!("Offset<{t}, {inst}>"), false),
                    (format!("Offset<{t}, {inst}>"), "Id<support::Stranger>".into(), false),
                    ("Id<u32>".into(), format!("Offset<{t}, {inst}>"), false),
                    (format!("Offset<{t}, {inst}>"), "Id<u32>".into(), false),
                ] {
                    if j == 0 {
                        let _ = writeln!(fields, "            v.push(support::probe({:?}, <support::CanAdd<{l}, {r}>>::YES, {want}));", format!("{l} + {r}"));
                    }
                }
                // chains
                let found = (0..self.known.len())
                    .flat_map(|k| (0..ARGS.len() as u8).map(move |a| (k, a)))
                    .find(|(k, a)| self.known[*k].offsets && t == self.inst(&self.known[*k], *a));
                if let Some((k, args)) = found {
                    let inner = &self.defs[k];
                    if let Kind::Struct(s) = &inner.kind {
                        let inner_t = t.clone();
                        let mut before = String::from("0");
                        let mut e = Emitter {
                            known: self.known[..k].to_vec(),
                            features: Default::default(),
                            defs: self.defs,
                            ids_only: false,
                        };
                        let (_, _, sh) = e.definition(k, Some("SlabItem"));
                        for (im, it) in members(s).iter().zip(&sh[0].1) {
                            let it = subst(it, &self.known[k], args, &inner_t);
                            let ip = format!("<{inner_t}>::OFFSET_OF_{}", shout(im));
                            self.features.insert("chained offsets");
                            let _ = writeln!(
                                fields,
                                "            v.push(support::field::<{inst}, {it}>({:?}, {at} + {before}, |id| [(id + {path}) + {ip}, {ip} + ({path} + id)], <{inner_t}>::SLAB_SIZE_OF_{}, |s| s.{m}.{im}, |s, f| s.{m}.{im} = f));",
                                format!("{inst}.{m}.{im}"),
                                shout(im),
                            );
                            let _ = write!(before, " + <{it} as Item>::size()");
                        }
                    }
                }
                let _ = write!(at, " + <{t} as Item>::size()");
            }
        }
        let host = if cfg!(feature = "gpu") { "        use host::{prelude::v1::*, vec};\n" } else { "" };
        let _ = write!(
            out,
            "{src_head}{src}    pub mod imp {{\n        use super::*;\n{host}        use support::{{CannotAdd as _, Item, Word}};\n        use crabslab::offset::Offset;\n        use engine::words::Src;\n        use super::super::*;\n{imp}        pub fn fields() -> Vec<support::FieldCheck> {{\n            let mut v = vec![];\n{fields}            v\n        }}\n    }}\n}}\n"
        );
        self.known.push(known);
    }

    /// A whole program.
    pub fn program(&mut self, seed: u32, rounds: u32) -> String {
        let mut s = String::from(
            "#![allow(unused, nonstandard_style, uncommon_codepoints, mixed_script_confusables, clippy::all)]\n",
        );
        // on a GPU there is only core, which what is derived must make do with
        if cfg!(feature = "gpu") {
            s.push_str("#![no_std]\nextern crate std as host;\n");
        }
        s.push_str("use glam::*;\nuse crabslab::{Array, Id};\nuse core::marker::PhantomData;\n");
        let mut entries = vec![];
        for i in 0..self.defs.len() {
            self.emit(i, &mut s, &mut entries);
        }
        let host = if cfg!(feature = "gpu") { "    use host::{prelude::v1::*, vec};\n" } else { "" };
        let _ = writeln!(s, "fn main() {{\n{host}    let entries = [");
        for e in &entries {
            let _ = writeln!(s, "        {e},");
        }
        let _ = writeln!(s, "    ];\n    let mut fields = vec![];");
        for i in 0..self.defs.len() {
            let _ = writeln!(s, "    fields.extend(m{i}::imp::fields());");
        }
        let _ = writeln!(s, "    support::run(&entries, fields, {seed}, {rounds});\n}}");
        s
    }

    /// Definitions without anything else, the last one with or without the derive.
    pub fn bare(&mut self, last: Option<&str>) -> String {
        let mut s = String::from("#![allow(unused, nonstandard_style, uncommon_codepoints, mixed_script_confusables)]\n");
        let mut entries = vec![];
        let n = self.defs.len() - 1;
        for i in 0..n {
            self.emit(i, &mut s, &mut entries);
        }
        let head = self.head(n);
        let (src, k, shapes) = self.definition(n, last);
        let _ = write!(s, "{head}{src}");
        // what the derive of an enum needs
        if let (Kind::Enum { .. }, 0, false) = (&self.defs[n].kind, k.params, k.konst) {
            let d = &self.defs[n];
            let Kind::Enum { variants, .. } = &d.kind else { unreachable!() };
            let first = variants.first().map(|v| v.0).unwrap_or(0);
            let m = members(&shapes[0].0);
            let fields: Vec<_> = m
                .iter()
                .zip(&shapes[0].1)
                .map(|(m, t)| format!("{m}: <{t} as support::Item>::dflt()"))
                .collect();
            let _ = writeln!(
                s,
                "    impl Default for {} {{ fn default() -> Self {{ Self::{} {{ {} }} }} }}",
                k.name,
                VARIANTS[first as usize % VARIANTS.len()],
                fields.join(", ")
            );
        }
        s.push_str("}\nfn main() {}\n");
        s
    }
}

/// Replace identifiers that are not part of a path.
fn replace_word(t: &str, word: &str, by: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    let ident = |c: char| c.is_alphanumeric() || c == '_' || c == '#';
    while let Some(c) = rest.chars().next() {
        if ident(c) {
            let end = rest.find(|c| !ident(c)).unwrap_or(rest.len());
            let w = &rest[..end];
            if w == word && !out.ends_with("::") {
                out.push_str(by);
            } else {
                out.push_str(w);
            }
            rest = &rest[end..];
        } else {
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    out
}

fn subst(t: &str, k: &Known, args: u8, inst: &str) -> String {
    // first the type itself, with its parameters as they are
    let us: Vec<&str> = PARAMS[..k.params as usize]
        .iter()
        .copied()
        .chain(k.konst.then_some("N"))
        .collect();
    let mut t = t.to_string();
    if !us.is_empty() {
        t = t.replace(&format!("{}<{}>", k.name, us.join(", ")), "Self");
    } else {
        t = replace_word(&t, &k.name, "Self");
    }
    let a = ARGS[args as usize % ARGS.len()];
    for (i, p) in PARAMS[..k.params as usize].iter().enumerate() {
        t = replace_word(&t, p, &format!("\u{1}{i}"));
    }
    if k.konst {
        t = replace_word(&t, "N", "3");
    }
    for (i, a) in a.iter().enumerate() {
        t = t.replace(&format!("\u{1}{i}"), a);
    }
    replace_word(&t, "Self", inst)
}

/// Which parameters a type uses.
fn uses(t: &Ty, d: &Def) -> (BTreeSet<u8>, bool) {
    let mut s = BTreeSet::new();
    let mut k = false;
    fn go(t: &Ty, d: &Def, deep: usize, s: &mut BTreeSet<u8>, k: &mut bool) {
        match t {
            Ty::Param(i) if d.params > 0 => {
                s.insert(i % d.params);
            }
            Ty::ParamArr(_) => *k |= d.konst && deep == 0,
            Ty::Id(t) | Ty::Array(t) | Ty::Opt(t) | Ty::Phantom(t) | Ty::Arr(t, _) => go(t, d, deep + 1, s, k),
            Ty::Tup(ts) => ts.iter().for_each(|t| go(t, d, deep + 1, s, k)),
            _ => (),
        }
    }
    go(t, d, 0, &mut s, &mut k);
    (s, k)
}

fn ty(generic: bool) -> BoxedStrategy<Ty> {
    let leaf = prop_oneof![
        6 => (0u8..PRIMS.len() as u8).prop_map(Ty::Prim),
        2 => any::<u8>().prop_map(Ty::Def),
        1 => any::<u8>().prop_map(Ty::This),
        if generic { 5 } else { 1 } => (0u8..2).prop_map(Ty::Param),
    ];
    leaf.prop_recursive(3, 10, 4, move |t| {
        prop_oneof![
            1 => t.clone().prop_map(|t| Ty::Id(Box::new(t))),
            1 => t.clone().prop_map(|t| Ty::Array(Box::new(t))),
            2 => t.clone().prop_map(|t| Ty::Opt(Box::new(t))),
            2 => (t.clone(), 0u8..5).prop_map(|(t, n)| Ty::Arr(Box::new(t), n)),
            2 => prop::collection::vec(t.clone(), 1..5).prop_map(Ty::Tup),
            1 => t.clone().prop_map(|t| Ty::Phantom(Box::new(t))),
            if generic { 2 } else { 0 } + 1 => t.prop_map(|t| Ty::ParamArr(Box::new(t))),
        ]
    })
    .boxed()
}

fn fields(generic: bool) -> BoxedStrategy<Vec<Fld>> {
    prop::collection::vec(
        (any::<u8>(), any::<u8>(), any::<u8>(), prop_oneof![5 => ty(generic), 1 => any::<u8>().prop_map(Ty::Def)]).prop_map(|(name, vis, attr, ty)| Fld { name, vis, attr, ty }),
        0..6,
    )
    .boxed()
}

fn shape(generic: bool) -> BoxedStrategy<Shape> {
    prop_oneof![
        1 => Just(Shape::Unit),
        3 => fields(generic).prop_map(Shape::Tuple),
        5 => fields(generic).prop_map(Shape::Named),
    ]
    .boxed()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Want {
    Any,
    Offsets,
}

pub fn def(want: Want) -> BoxedStrategy<Def> {
    prop_oneof![3 => Just(false), 2 => Just(true)]
        .prop_flat_map(move |generic| {
            let kind = {
                let st = shape(generic).prop_map(Kind::Struct);
                let en = (
                    prop_oneof![
                        4 => prop::collection::vec((any::<u8>(), shape(generic)), 1..6),
                        1 => prop::collection::vec((any::<u8>(), Just(Shape::Unit)), 1..24),
                    ],
                    any::<u8>(),
                    any::<u8>(),
                )
                    .prop_map(|(variants, default, repr)| Kind::Enum { variants, default, repr });
                match want {
                    Want::Any => prop_oneof![1 => st, 1 => en].boxed(),
                    Want::Offsets => prop_oneof![7 => st, 1 => en].boxed(),
                }
            };
            (
                any::<u8>(),
                kind,
                if generic { 1u8..3 } else { 0u8..1 },
                prop::bool::weighted(if generic { 0.4 } else { 0.1 }),
                any::<u8>(),
                prop::bool::weighted(if want == Want::Offsets { 0.9 } else { 0.25 }),
                any::<bool>(),
                any::<u8>(),
            )
        })
        .prop_map(|(name, kind, params, konst, bounds, offsets, import, args)| Def {
            name,
            offsets: offsets && matches!(kind, Kind::Struct(_)),
            kind,
            params,
            konst,
            bounds,
            import,
            args,
        })
        .prop_map(sound)
        .boxed()
}

/// Generic enums have a default without fields, or else it'd need bounds that the derive cannot know.
fn sound(mut d: Def) -> Def {
    if let Kind::Enum { variants, .. } = &mut d.kind {
        if (d.params > 0 || d.konst) && !variants.iter().any(|v| v.1.fields().is_empty()) {
            variants.insert(0, (0, Shape::Unit));
        }
    }
    d
}

pub fn programs(want: Want) -> BoxedStrategy<Program> {
    (any::<u8>(), prop::collection::vec(def(want), 1..7), any::<u32>())
        .prop_map(|(edition, defs, seed)| Program { edition, defs, seed })
        .boxed()
}

pub fn edition(e: u8) -> &'static str {
    match e % 5 {
        0 => "2018",
        1 => "2024",
        _ => "2021",
    }
}

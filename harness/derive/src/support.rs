//! What generated programs are linked to: the checks of one derived type.
pub use crabslab;
use crabslab::{Id, Slab, SlabItem};
use engine::words::{noise, Src};
pub use glam;
pub use items::{matches, Item, Word};
use std::ops::Add;

/// A type under test, with all that depends on the type behind function pointers.
pub struct Entry {
    pub name: &'static str,
    pub size: usize,
    pub slab_size: usize,
    /// number of variants
    pub variants: Option<u32>,
    /// build a value, write it, and give its reference encoding and the returned index
    pub write: fn(&[u32], usize, &mut [u32]) -> (Vec<Word>, usize),
    pub read: fn(usize, &[u32]) -> Vec<Word>,
    /// through an `Id`
    pub read_id: fn(usize, &[u32]) -> Vec<Word>,
    pub dec: fn(&[u32]) -> Vec<Word>,
    pub dflt: fn() -> Vec<Word>,
}

pub fn entry<T: Item + Default>(name: &'static str, variants: Option<u32>) -> Entry {
    Entry {
        name,
        size: T::size(),
        slab_size: T::SLAB_SIZE,
        variants,
        write: |words, at, slab| {
            let t = T::build(&mut Src::new(words));
            let n = SlabItem::write_slab(&t, at, slab);
            (t.words(), n)
        },
        read: |at, slab| <T as SlabItem>::read_slab(at, slab).words(),
        read_id: |at, slab| slab.read(Id::<T>::new(at as u32)).words(),
        dec: |w| T::dec(w).words(),
        dflt: || T::dflt().words(),
    }
}

fn fail(name: &str, sig: &str, msg: String) -> ! {
    println!("FAIL\t{sig}\t{name}: {}", msg.replace('\n', " "));
    std::process::exit(1)
}

/// Words for one value, with a bias to small ones.
fn words(seed: u64, n: usize) -> Vec<u32> {
    let mut s = seed;
    (0..n)
        .map(|_| {
            s = engine::mix(s);
            match s % 8 {
                0 => 0,
                1 => 1,
                2 => u32::MAX,
                3 | 4 => (s >> 32) as u32 % 8,
                _ => (s >> 32) as u32,
            }
        })
        .collect()
}

fn matches_or_free(enc: &[Word], got: &[Word]) -> bool {
    enc.len() == got.len() && enc.iter().zip(got).all(|(a, b)| a == b)
}

pub fn run(entries: &[Entry], fields: Vec<FieldCheck>, seed: u64, rounds: u64) {
    let mut cases = 0u64;
    for (k, e) in entries.iter().enumerate() {
        if e.size != e.slab_size {
            fail(e.name, "size", format!("SLAB_SIZE is {}, expected {}", e.slab_size, e.size));
        }
        for r in 0..rounds {
            cases += 1;
            let s = engine::mix(seed ^ ((k as u64) << 40) ^ r);
            let at = s as usize % 7;
            let total = at + e.size + s as usize / 7 % 5;
            let mut slab = noise(s as u32, total);
            let before = slab.clone();
            let (enc, end) = (e.write)(&words(s, 24), at, &mut slab);
            if end != at + e.size {
                fail(e.name, "returned-index", format!("writing at {at} returned {end}, expected {}", at + e.size));
            }
            if let Some(i) = (0..total).find(|i| !(at..at + e.size).contains(i) && slab[*i] != before[*i]) {
                fail(e.name, "neighbour", format!("writing at {at} changed word {i}"));
            }
            if !matches(&enc, &slab[at..at + e.size]) {
                fail(e.name, "layout", format!("the words are {:x?}, expected {enc:x?}", &slab[at..at + e.size]));
            }
            for (how, got) in [("read_slab", (e.read)(at, &slab)), ("read", (e.read_id)(at, &slab))] {
                if !matches_or_free(&enc, &got) {
                    fail(e.name, "round-trip", format!("wrote {enc:x?}, {how} gives {got:x?}"));
                }
            }
            // arbitrary words
            let mut slab = words(s ^ 0x5555, total);
            if let (Some(n), true) = (e.variants, s % 3 > 0) {
                // a variant, or one too many
                slab[at] = (s >> 20) as u32 % (n + 2);
            }
            let before = slab.clone();
            let want = (e.dec)(&slab[at..]);
            let got = (e.read)(at, &slab);
            if want != got {
                fail(e.name, "read-any", format!("the words {:x?} read as {got:x?}, expected {want:x?}", &slab[at..at + e.size]));
            }
            if let Some(n) = e.variants {
                if slab[at] >= n && got != (e.dflt)() {
                    fail(e.name, "unknown-variant", format!("variant {:x} of {n} reads as {got:x?}", slab[at]));
                }
            }
            if slab != before {
                fail(e.name, "read-changes", "reading changed the slab".into());
            }
            // out of bounds
            if total > 0 && e.size > 1 {
                let got = (e.read_id)(total - 1, &slab);
                if got != (e.dflt)() {
                    fail(e.name, "out-of-bounds", format!("reading out of bounds gives {got:x?}"));
                }
            }
        }
    }
    let n = fields.len();
    for f in fields {
        for r in 0..rounds.min(24) {
            cases += 1;
            if let Err(m) = (f.run)(engine::mix(seed ^ r)) {
                fail(&f.name, "offset", m);
            }
        }
    }
    println!("OK\t{cases}\t{}\t{n}", entries.len());
}

pub struct FieldCheck {
    pub name: String,
    pub run: Box<dyn Fn(u64) -> Result<(), String>>,
}

/// A field of `S`, or of something in it, of which the offsets lead to `id`.
#[allow(clippy::too_many_arguments)]
pub fn field<S: Item + Default + Copy + 'static, F: Item + Default + Copy + 'static>(
    name: &str,
    offset: usize,
    id: fn(Id<S>) -> [Id<F>; 2],
    declared: usize,
    get: fn(&S) -> F,
    set: fn(&mut S, F),
) -> FieldCheck {
    FieldCheck {
        name: name.to_string(),
        run: Box::new(move |seed| {
            if declared != F::size() {
                return Err(format!("the size of the field is {declared}, expected {}", F::size()));
            }
            let base = seed as u32 % 9;
            let sid = Id::<S>::new(base);
            let [a, b] = id(sid);
            if a != b {
                return Err(format!("{a:?} and {b:?} are not the same"));
            }
            if a.inner() != base + offset as u32 {
                return Err(format!("the field is at {a:?}, expected {}", base + offset as u32));
            }
            let mut slab = noise(seed as u32, base as usize + S::size() + 3);
            let mut s = S::build(&mut Src::new(&words(seed, 24)));
            slab.as_mut_slice().write(sid, &s);
            let got = slab.as_slice().read(a);
            if got.words() != get(&s).words() {
                return Err(format!("the field reads as {:x?}, expected {:x?}", got.words(), get(&s).words()));
            }
            let f = F::build(&mut Src::new(&words(seed ^ 0x33, 24)));
            let before = slab.clone();
            slab.as_mut_slice().write(a, &f);
            let (x, y) = (a.index(), a.index() + F::size());
            if let Some(i) = (0..slab.len()).find(|i| !(x..y).contains(i) && slab[*i] != before[*i]) {
                return Err(format!("writing the field changed word {i}, which is not its own"));
            }
            set(&mut s, f);
            let got = slab.as_slice().read(sid);
            if got.words() != s.words() {
                return Err(format!("after writing the field the value is {:x?}, expected {:x?}", got.words(), s.words()));
            }
            Ok(())
        }),
    }
}

/// A yes/no question about traits.
pub fn probe(name: &str, got: bool, want: bool) -> FieldCheck {
    let name = name.to_string();
    FieldCheck {
        name: name.clone(),
        run: Box::new(move |_| {
            if got == want {
                Ok(())
            } else {
                Err(format!("is implemented: {got}"))
            }
        }),
    }
}

pub struct CanAdd<L, R>(std::marker::PhantomData<(L, R)>);
pub trait CannotAdd {
    const YES: bool = false;
}
impl<L, R> CannotAdd for CanAdd<L, R> {}
impl<L: Add<R>, R> CanAdd<L, R> {
    pub const YES: bool = true;
}

/// Some type that has no offsets.
pub struct Stranger;

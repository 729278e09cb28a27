//! Values of many types, with a reference encoder and decoder that know nothing of `SlabItem`.
#![allow(unused, irrefutable_let_patterns)]
use crabslab::{Array, Id, SlabItem};
use engine::words::Src;
use glam::{Mat4, Quat, UVec2, UVec3, UVec4, Vec2, Vec3, Vec4};
use std::marker::PhantomData;

/// One word of the reference encoding. `None` is a word that doesn't belong to the value (the
/// unused rest of an `Option` or an enum).
pub type Word = Option<u32>;

/// The reference model of a type that can live in a slab.
pub trait Item: SlabItem + Clone + std::fmt::Debug {
    /// Build a value out of generated words.
    fn build(s: &mut Src) -> Self;
    /// Reference size.
    fn size() -> usize;
    /// Reference encoding, appended to `out`.
    fn enc(&self, out: &mut Vec<Word>);
    /// Reference decoding.
    fn dec(words: &[u32]) -> Self;
    /// The default that reading out of bounds gives.
    fn dflt() -> Self;

    fn words(&self) -> Vec<Word> {
        let mut v = vec![];
        self.enc(&mut v);
        v
    }
}

/// Whether a slice of slab words holds the encoding.
pub fn matches(enc: &[Word], words: &[u32]) -> bool {
    enc.len() == words.len()
        && enc
            .iter()
            .zip(words)
            .all(|(e, w)| e.map(|e| e == *w).unwrap_or(true))
}

macro_rules! small_int {
    ($($t:ty),*) => {$(
        impl Item for $t {
            fn build(s: &mut Src) -> Self { s.next() as $t }
            fn size() -> usize { 1 }
            // zero or sign extended to one word
            fn enc(&self, out: &mut Vec<Word>) { out.push(Some((*self as i64 & 0xffff_ffff) as u32)) }
            fn dec(w: &[u32]) -> Self { w[0] as $t }
            fn dflt() -> Self { 0 }
        }
    )*}
}
small_int!(u8, i8, u16, i16, u32, i32);

macro_rules! big_int {
    ($($t:ty, $u:ty, $n:expr);*) => {$(
        impl Item for $t {
            fn build(s: &mut Src) -> Self {
                let mut bytes = vec![];
                for _ in 0..$n { bytes.extend(s.next().to_le_bytes()); }
                <$t>::from_le_bytes(bytes.try_into().unwrap())
            }
            fn size() -> usize { $n }
            fn enc(&self, out: &mut Vec<Word>) {
                for c in self.to_le_bytes().chunks(4) {
                    out.push(Some(u32::from_le_bytes(c.try_into().unwrap())));
                }
            }
            fn dec(w: &[u32]) -> Self {
                let mut bytes = vec![];
                for w in &w[..$n] { bytes.extend(w.to_le_bytes()); }
                <$t>::from_le_bytes(bytes.try_into().unwrap())
            }
            fn dflt() -> Self { 0 }
        }
    )*}
}
big_int!(u64, u64, 2; i64, u64, 2; u128, u128, 4; i128, u128, 4);

impl Item for f32 {
    fn build(s: &mut Src) -> Self {
        f32::from_bits(s.next())
    }
    fn size() -> usize {
        1
    }
    fn enc(&self, out: &mut Vec<Word>) {
        out.push(Some(self.to_bits()))
    }
    fn dec(w: &[u32]) -> Self {
        f32::from_bits(w[0])
    }
    fn dflt() -> Self {
        0.0
    }
}

impl Item for f64 {
    fn build(s: &mut Src) -> Self {
        f64::from_bits(u64::build(s))
    }
    fn size() -> usize {
        2
    }
    fn enc(&self, out: &mut Vec<Word>) {
        self.to_bits().enc(out)
    }
    fn dec(w: &[u32]) -> Self {
        f64::from_bits(u64::dec(w))
    }
    fn dflt() -> Self {
        0.0
    }
}

impl Item for bool {
    fn build(s: &mut Src) -> Self {
        s.next() & 1 == 1
    }
    fn size() -> usize {
        1
    }
    fn enc(&self, out: &mut Vec<Word>) {
        out.push(Some(if *self { 1 } else { 0 }))
    }
    fn dec(w: &[u32]) -> Self {
        w[0] == 1
    }
    fn dflt() -> Self {
        false
    }
}

impl<T: std::any::Any> Item for Id<T> {
    fn build(s: &mut Src) -> Self {
        Id::new(s.next())
    }
    fn size() -> usize {
        1
    }
    fn enc(&self, out: &mut Vec<Word>) {
        out.push(Some(self.inner()))
    }
    fn dec(w: &[u32]) -> Self {
        Id::new(w[0])
    }
    fn dflt() -> Self {
        Id::new(u32::MAX)
    }
}

impl<T: SlabItem> Item for Array<T> {
    fn build(s: &mut Src) -> Self {
        Array::new(s.next(), s.next())
    }
    fn size() -> usize {
        2
    }
    fn enc(&self, out: &mut Vec<Word>) {
        out.push(Some(self.index));
        out.push(Some(self.len));
    }
    fn dec(w: &[u32]) -> Self {
        Array::new(w[0], w[1])
    }
    fn dflt() -> Self {
        Array::new(u32::MAX, 0)
    }
}

impl<T: std::any::Any + Clone> Item for PhantomData<T> {
    fn build(_: &mut Src) -> Self {
        PhantomData
    }
    fn size() -> usize {
        0
    }
    fn enc(&self, _: &mut Vec<Word>) {}
    fn dec(_: &[u32]) -> Self {
        PhantomData
    }
    fn dflt() -> Self {
        PhantomData
    }
}

impl<T: Item + Default> Item for Option<T> {
    fn build(s: &mut Src) -> Self {
        // mostly Some
        if s.below(4) == 0 {
            None
        } else {
            Some(T::build(s))
        }
    }
    fn size() -> usize {
        1 + T::size()
    }
    fn enc(&self, out: &mut Vec<Word>) {
        match self {
            Some(t) => {
                out.push(Some(1));
                t.enc(out);
            }
            None => {
                out.push(Some(0));
                out.extend(std::iter::repeat_n(None, T::size()));
            }
        }
    }
    fn dec(w: &[u32]) -> Self {
        (w[0] == 1).then(|| T::dec(&w[1..]))
    }
    fn dflt() -> Self {
        None
    }
}

impl<T: Item + Copy + Default, const N: usize> Item for [T; N]
where
    [T; N]: Default,
{
    fn build(s: &mut Src) -> Self {
        std::array::from_fn(|_| T::build(s))
    }
    fn size() -> usize {
        T::size() * N
    }
    fn enc(&self, out: &mut Vec<Word>) {
        for t in self {
            t.enc(out)
        }
    }
    fn dec(w: &[u32]) -> Self {
        std::array::from_fn(|i| T::dec(&w[i * T::size()..]))
    }
    fn dflt() -> Self {
        std::array::from_fn(|_| T::dflt())
    }
}

macro_rules! tuple_item {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Item),*> Item for ($($t,)*) {
            fn build(s: &mut Src) -> Self { ($($t::build(s),)*) }
            fn size() -> usize { 0 $(+ $t::size())* }
            fn enc(&self, out: &mut Vec<Word>) { $(self.$i.enc(out);)* }
            #[allow(unused_assignments)]
            fn dec(mut w: &[u32]) -> Self {
                ($({ let v = $t::dec(w); w = &w[$t::size()..]; v },)*)
            }
            fn dflt() -> Self { ($($t::dflt(),)*) }
        }
    }
}
tuple_item!(A 0);
tuple_item!(A 0, B 1);
tuple_item!(A 0, B 1, C 2);
tuple_item!(A 0, B 1, C 2, D 3);
tuple_item!(A 0, B 1, C 2, D 3, E 4);
tuple_item!(A 0, B 1, C 2, D 3, E 4, F 5);
tuple_item!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
tuple_item!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
tuple_item!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
tuple_item!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
tuple_item!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
tuple_item!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

macro_rules! vec_item {
    ($t:ty, $e:ty, $d:expr, $($f:ident),*) => {
        impl Item for $t {
            fn build(s: &mut Src) -> Self {
                $(let $f = <$e>::build(s);)*
                // built by field, as constructors may normalize
                let mut v = $d;
                $(v.$f = $f;)*
                v
            }
            fn size() -> usize { 0 $( + { let _ = stringify!($f); 1 } )* }
            fn enc(&self, out: &mut Vec<Word>) { $(self.$f.enc(out);)* }
            #[allow(unused_assignments)]
            fn dec(mut w: &[u32]) -> Self {
                let mut v = $d;
                $(v.$f = <$e>::dec(w); w = &w[1..];)*
                v
            }
            fn dflt() -> Self { $d }
        }
    }
}
vec_item!(Vec2, f32, Vec2::new(0.0, 0.0), x, y);
vec_item!(Vec3, f32, Vec3::new(0.0, 0.0, 0.0), x, y, z);
vec_item!(Vec4, f32, Vec4::new(0.0, 0.0, 0.0, 0.0), x, y, z, w);
vec_item!(Quat, f32, Quat::from_xyzw(0.0, 0.0, 0.0, 1.0), x, y, z, w);
vec_item!(UVec2, u32, UVec2::new(0, 0), x, y);
vec_item!(UVec3, u32, UVec3::new(0, 0, 0), x, y, z);
vec_item!(UVec4, u32, UVec4::new(0, 0, 0, 0), x, y, z, w);

impl Item for Mat4 {
    fn build(s: &mut Src) -> Self {
        let mut m = Mat4::ZERO;
        m.x_axis = Vec4::build(s);
        m.y_axis = Vec4::build(s);
        m.z_axis = Vec4::build(s);
        m.w_axis = Vec4::build(s);
        m
    }
    fn size() -> usize {
        16
    }
    fn enc(&self, out: &mut Vec<Word>) {
        self.x_axis.enc(out);
        self.y_axis.enc(out);
        self.z_axis.enc(out);
        self.w_axis.enc(out);
    }
    fn dec(w: &[u32]) -> Self {
        let mut m = Mat4::ZERO;
        m.x_axis = Vec4::dec(&w[0..]);
        m.y_axis = Vec4::dec(&w[4..]);
        m.z_axis = Vec4::dec(&w[8..]);
        m.w_axis = Vec4::dec(&w[12..]);
        m
    }
    fn dflt() -> Self {
        Mat4::IDENTITY
    }
}

#[cfg(feature = "derived")]
mod derived;
#[cfg(feature = "derived")]
pub use derived::*;

/// Calls a macro with every type of the registry.
#[macro_export]
macro_rules! for_all_types {
    ($m:ident) => {{
        use crabslab::{Array, Id};
        use glam::*;
        use std::marker::PhantomData;
        use $crate::*;
        $m!(
            u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64, bool,
            Vec2, Vec3, Vec4, Quat, UVec2, UVec3, UVec4, Mat4,
            Id<u32>, Id<Mat4>, Id<Id<Shape>>, Array<u32>, Array<Mat4>, Array<Array<u8>>, PhantomData<u32>,
            Option<u8>, Option<i16>, Option<u32>, Option<u64>, Option<i128>, Option<f64>, Option<bool>,
            Option<Option<u32>>, Option<Vec3>, Option<Mat4>, Option<Id<u8>>, Option<Array<f32>>, Option<PhantomData<u8>>,
            Option<Option<Option<bool>>>, Option<[u16; 3]>, Option<(u8, u64)>,
            [u8; 1], [i8; 2], [u16; 3], [i16; 4], [u32; 16], [f32; 5], [u64; 3], [i64; 7], [i128; 2], [f64; 4], [bool; 9],
            [Vec3; 4], [Mat4; 2], [Option<u32>; 3], [[u8; 3]; 4], [[[Vec2; 2]; 3]; 2], [Id<u32>; 3], [Array<u32>; 2],
            [u32; 32], [Mat4; 32], [(u8, u64); 5], [PhantomData<u8>; 4], [Shape; 6], [u32; 0],
            (u32,), (u8, u64), (Vec2, u32), (u32, Vec2), (i8, i16, i128), (bool, Option<bool>, [bool; 2]),
            (u8, u16, u32, u64), (u64, u32, u16, u8), (f32, f64, i64, Vec4, Quat), (u8, u8, u8, u8, u8, u64),
            (u32, (u64, (u8, Vec3)), Option<(u8, u8)>), (u8, u16, u32, u64, u128, f32, f64),
            (i8, i16, i32, i64, i128, Vec2, Vec3, Vec4), (u8, u16, u32, u64, u128, f32, f64, bool, Vec3),
            (u8, u16, u32, u64, u128, f32, f64, bool, Vec3, Id<u8>),
            (u8, u16, u32, u64, u128, f32, f64, bool, Vec3, Id<u8>, Array<u8>),
            (u8, u16, u32, u64, u128, f32, f64, bool, Vec3, Id<u8>, Array<u8>, Option<u64>),
            One, Mixed, Light, Nested, Gen<u8, u64>, Gen<Vec3, Option<f64>>, Gen<Shape, [Unit3; 3]>, Wide, Zst, Holes, Empty,
            Unit3, Shape, Deep, Lone, Many, Option<Many>, [Deep; 3], (Unit3, Shape, Deep), Option<Light>, Thirteen, Pair,
            (Many, Many), [Option<Shape>; 3], Gen<Deep, Deep>, Option<Wide>, (PhantomData<u8>, u8, PhantomData<u16>)
        )
    }};
}

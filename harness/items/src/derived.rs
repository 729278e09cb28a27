//! Types that derive `SlabItem`, and their models.
use crate::*;

/// A derived struct with named fields and its model.
#[macro_export]
macro_rules! item_struct {
    ($name:ident $(<$($g:ident),*>)? { $($f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, crabslab::SlabItem)]
        pub struct $name $(<$($g),*>)? { $(pub $f: $t),* }
        impl $(<$($g: $crate::Item + Copy + Default),*>)? $crate::Item for $name $(<$($g),*>)? {
            #[allow(unused_variables)]
            fn build(s: &mut engine::words::Src) -> Self { $(let $f = <$t as $crate::Item>::build(s);)* Self { $($f),* } }
            fn size() -> usize { 0 $(+ <$t as $crate::Item>::size())* }
            #[allow(unused_variables)]
            fn enc(&self, out: &mut Vec<$crate::Word>) { $($crate::Item::enc(&self.$f, out);)* }
            #[allow(unused_mut, unused_assignments, unused_variables)]
            fn dec(mut w: &[u32]) -> Self {
                $(let $f = <$t as $crate::Item>::dec(w); w = &w[<$t as $crate::Item>::size()..];)*
                Self { $($f),* }
            }
            fn dflt() -> Self { $(let $f = <$t as $crate::Item>::dflt();)* Self { $($f),* } }
        }
    }
}

/// A derived enum and its model. The first variant is the default.
#[macro_export]
macro_rules! item_enum {
    ($name:ident { $first:ident, $($v:ident $( { $($f:ident : $t:ty),* } )? $( ( $($tf:ident : $tt:ty),* ) )? ),* $(,)? }) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, crabslab::SlabItem)]
        pub enum $name { #[default] $first, $($v $( { $($f: $t),* } )? $( ( $($tt),* ) )?),* }
        impl $crate::Item for $name {
            fn build(s: &mut engine::words::Src) -> Self {
                let n = 1u32 $( + { let _ = stringify!($v); 1 } )*;
                let k = s.below(n);
                let mut i = 1;
                $(
                    if k == i {
                        return $name::$v $( { $($f: <$t as $crate::Item>::build(s)),* } )? $( ( $(<$tt as $crate::Item>::build(s)),* ) )?;
                    }
                    i += 1;
                )*
                let _ = i;
                $name::$first
            }
            fn size() -> usize {
                1 + [0usize, $( 0 $($( + <$t as $crate::Item>::size())*)? $($( + <$tt as $crate::Item>::size())*)? ),*].into_iter().max().unwrap()
            }
            fn enc(&self, out: &mut Vec<$crate::Word>) {
                let end = out.len() + <Self as $crate::Item>::size();
                let mut i = 0u32;
                if let $name::$first = self { out.push(Some(i)); }
                $(
                    i += 1;
                    if let $name::$v $( { $($f),* } )? $( ( $($tf),* ) )? = self {
                        out.push(Some(i));
                        $($($crate::Item::enc($f, out);)*)?
                        $($($crate::Item::enc($tf, out);)*)?
                    }
                )*
                let _ = i;
                out.resize(end, None);
            }
            #[allow(unused_mut, unused_assignments, unused_variables)]
            fn dec(words: &[u32]) -> Self {
                let mut i = 0u32;
                $(
                    i += 1;
                    if words[0] == i {
                        let mut w = &words[1..];
                        $($(let $f = <$t as $crate::Item>::dec(w); w = &w[<$t as $crate::Item>::size()..];)*)?
                        $($(let $tf = <$tt as $crate::Item>::dec(w); w = &w[<$tt as $crate::Item>::size()..];)*)?
                        return $name::$v $( { $($f),* } )? $( ( $($tf),* ) )?;
                    }
                )*
                $name::$first
            }
            fn dflt() -> Self { $name::$first }
        }
    }
}

item_struct!(One { a: u32 });
item_struct!(Mixed { id: Id<Mixed>, verts: Array<Vec3>, on: bool, b: i8, w: u64, m: Option<Vec2> });
item_struct!(Light { direction: Vec3, color: Vec4, inner: f32, outer: f32, is_on: bool });
item_struct!(Nested { a: One, b: Light, c: Option<One>, d: [u16; 3], e: (u8, f64) });
item_struct!(Gen<A, B> { first: A, second: B, both: (A, B) });
item_struct!(Wide { a: [Mat4; 3], b: u128, c: i128, d: [f64; 5], e: Shape });
item_struct!(Zst { p: PhantomData<u32> });
item_struct!(Holes { p: PhantomData<u64>, a: u32, q: PhantomData<f32>, b: Option<PhantomData<u8>>, c: u32 });
item_struct!(Empty {});

item_enum!(Unit3 { A, B, C });
item_enum!(Shape { Point, Circle { center: Vec2, radius: f32 }, Poly(verts: Array<Vec2>, closed: bool), Big { m: Mat4 }, Tiny(x: u8) });
item_enum!(Deep { Leaf, S(s: Shape), O { o: Option<Shape>, n: u64 }, P(p: PhantomData<u32>), U(u: Unit3, l: Light) });
item_enum!(Lone { Only, });
item_enum!(Many {
    V0, V1, V2(a: u32), V3, V4, V5, V6, V7 { a: u64 }, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19,
    V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39,
    V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59,
    V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79,
    V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99,
    V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119,
    V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139,
    V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159,
    V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179,
    V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199,
    V200, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219,
    V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239,
    V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255(x: u8), V256, V257, V258 { x: Vec2, y: bool }, V259,
    V260, V261(s: Option<u32>), V262, V263, V264, V265, V266, V267, V268, V269
});

/// A 13 element tuple has no `Default`.
#[derive(Clone, crabslab::SlabItem)]
pub struct Thirteen(
    #[allow(clippy::type_complexity)]
    (u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64, bool),
);
impl std::fmt::Debug for Thirteen {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "Thirteen({:?})", self.words())
    }
}
impl Default for Thirteen {
    fn default() -> Self {
        Self::dflt()
    }
}
impl Item for Thirteen {
    fn build(s: &mut Src) -> Self {
        Thirteen((
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
            Item::build(s),
        ))
    }
    fn size() -> usize {
        6 + 4 + 8 + 1 + 2 + 1
    }
    fn enc(&self, o: &mut Vec<Word>) {
        let t = &self.0;
        t.0.enc(o);
        t.1.enc(o);
        t.2.enc(o);
        t.3.enc(o);
        t.4.enc(o);
        t.5.enc(o);
        t.6.enc(o);
        t.7.enc(o);
        t.8.enc(o);
        t.9.enc(o);
        t.10.enc(o);
        t.11.enc(o);
        t.12.enc(o);
    }
    fn dec(w: &[u32]) -> Self {
        Thirteen((
            Item::dec(w),
            Item::dec(&w[1..]),
            Item::dec(&w[2..]),
            Item::dec(&w[3..]),
            Item::dec(&w[4..]),
            Item::dec(&w[5..]),
            Item::dec(&w[6..]),
            Item::dec(&w[8..]),
            Item::dec(&w[10..]),
            Item::dec(&w[14..]),
            Item::dec(&w[18..]),
            Item::dec(&w[19..]),
            Item::dec(&w[21..]),
        ))
    }
    fn dflt() -> Self {
        Thirteen((0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0.0, 0.0, false))
    }
}

/// Tuple structs
#[derive(Clone, Copy, Debug, Default, PartialEq, crabslab::SlabItem)]
pub struct Pair(pub Vec2, pub u8);
impl Item for Pair {
    fn build(s: &mut Src) -> Self {
        Pair(Vec2::build(s), u8::build(s))
    }
    fn size() -> usize {
        3
    }
    fn enc(&self, out: &mut Vec<Word>) {
        self.0.enc(out);
        self.1.enc(out);
    }
    fn dec(w: &[u32]) -> Self {
        Pair(Vec2::dec(w), u8::dec(&w[2..]))
    }
    fn dflt() -> Self {
        Pair(Vec2::dflt(), 0)
    }
}

//! Stands in for glam: a user's own math types, with the same words.
use crabslab::SlabItem;

macro_rules! vector {
    ($t:ident, $e:ty, $($f:ident),*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Default, SlabItem)]
        pub struct $t {
            $(pub $f: $e,)*
        }
        impl $t {
            pub const fn new($($f: $e),*) -> Self {
                $t { $($f),* }
            }
        }
    };
}
vector!(Vec2, f32, x, y);
vector!(Vec3, f32, x, y, z);
vector!(Vec4, f32, x, y, z, w);
vector!(UVec2, u32, x, y);
vector!(UVec3, u32, x, y, z);
vector!(UVec4, u32, x, y, z, w);

#[derive(Clone, Copy, Debug, PartialEq, SlabItem)]
pub struct Quat {
    pub x: f32,
    pub y: f32,
    pub z: f32,
    pub w: f32,
}
impl Quat {
    pub const fn from_xyzw(x: f32, y: f32, z: f32, w: f32) -> Self {
        Quat { x, y, z, w }
    }
}
impl Default for Quat {
    fn default() -> Self {
        Quat::from_xyzw(0.0, 0.0, 0.0, 1.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, SlabItem)]
pub struct Mat4 {
    pub x_axis: Vec4,
    pub y_axis: Vec4,
    pub z_axis: Vec4,
    pub w_axis: Vec4,
}
impl Mat4 {
    pub const ZERO: Self = Mat4 {
        x_axis: Vec4::new(0.0, 0.0, 0.0, 0.0),
        y_axis: Vec4::new(0.0, 0.0, 0.0, 0.0),
        z_axis: Vec4::new(0.0, 0.0, 0.0, 0.0),
        w_axis: Vec4::new(0.0, 0.0, 0.0, 0.0),
    };
    pub const IDENTITY: Self = Mat4 {
        x_axis: Vec4::new(1.0, 0.0, 0.0, 0.0),
        y_axis: Vec4::new(0.0, 1.0, 0.0, 0.0),
        z_axis: Vec4::new(0.0, 0.0, 1.0, 0.0),
        w_axis: Vec4::new(0.0, 0.0, 0.0, 1.0),
    };
}
impl Default for Mat4 {
    fn default() -> Self {
        Mat4::IDENTITY
    }
}

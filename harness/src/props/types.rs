//! Point types used by the typed checks. Their layouts come from the derive macro under test; the
//! agreement with the compiler is what L02 checks on generated programs.

use pasture_core::nalgebra::{Vector3, Vector4};
use pasture_derive::PointType;

macro_rules! pt {
    ($(#[$m:meta])* $name:ident { $($body:tt)* }) => {
        $(#[$m])*
        #[derive(PointType, Clone, Copy, Debug, PartialEq, bytemuck::Pod, bytemuck::Zeroable)]
        pub struct $name { $($body)* }
    };
}

pt! { #[repr(C)] PIntensity { #[pasture(BUILTIN_INTENSITY)] intensity: u16 } }
pt! { #[repr(C)] PPosition { #[pasture(BUILTIN_POSITION_3D)] position: Vector3<f64> } }
pt! { #[repr(C, packed)] PPacked {
    #[pasture(BUILTIN_CLASSIFICATION)] class: u8,
    #[pasture(BUILTIN_POSITION_3D)] position: Vector3<f64>,
    #[pasture(BUILTIN_INTENSITY)] intensity: u16,
} }
pt! { #[repr(C, packed)] PPackedSmall {
    #[pasture(attribute = "a")] a: u8,
    #[pasture(attribute = "b")] b: u32,
    #[pasture(attribute = "c")] c: i16,
} }
pt! { #[repr(C)] PColor {
    #[pasture(BUILTIN_COLOR_RGB)] color: Vector3<u16>,
    #[pasture(BUILTIN_INTENSITY)] intensity: u16,
} }
pt! { #[repr(C)] PBytes {
    #[pasture(attribute = "x")] x: u8,
    #[pasture(attribute = "y")] y: i8,
    #[pasture(attribute = "z")] z: Vector3<u8>,
    #[pasture(attribute = "w")] w: Vector4<u8>,
} }
pt! { #[repr(C)] PWide {
    #[pasture(BUILTIN_POSITION_3D)] position: Vector3<f64>,
    #[pasture(BUILTIN_GPS_TIME)] time: f64,
    #[pasture(attribute = "id")] id: u64,
    #[pasture(attribute = "sid")] sid: i64,
    #[pasture(BUILTIN_NORMAL)] normal: Vector3<f32>,
    #[pasture(attribute = "f")] f: f32,
} }
pt! { #[repr(C)] PInts {
    #[pasture(attribute = "p")] p: Vector3<i32>,
    #[pasture(attribute = "i")] i: i32,
} }
pt! { #[repr(C, packed(2))] PPacked2 {
    #[pasture(attribute = "k")] k: u16,
    #[pasture(attribute = "l")] l: u64,
} }

pub const COUNT: usize = 9;

/// Binds `$P` to the point type with number `$t`.
#[macro_export]
macro_rules! with_point {
    ($t:expr, $P:ident => $body:expr) => {{
        use $crate::props::types as pts;
        #[allow(unused_imports)]
        use pasture_core::layout::PointType as _;
        match $t {
            0 => { type $P = pts::PIntensity; $body }
            1 => { type $P = pts::PPosition; $body }
            2 => { type $P = pts::PPacked; $body }
            3 => { type $P = pts::PPackedSmall; $body }
            4 => { type $P = pts::PColor; $body }
            5 => { type $P = pts::PBytes; $body }
            6 => { type $P = pts::PWide; $body }
            7 => { type $P = pts::PInts; $body }
            _ => { type $P = pts::PPacked2; $body }
        }
    }};
}

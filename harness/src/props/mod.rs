#![allow(dead_code, unused_imports, unused_macros)]
use crate::runner::{Property, Section};

mod buffers;
#[cfg(feature = "algorithms")]
mod clouds;
mod conversion;
#[cfg(feature = "algorithms")]
mod hull;
#[cfg(feature = "io")]
mod io_ascii;
#[cfg(feature = "io")]
mod io_file;
#[cfg(feature = "io")]
mod io_las;
#[cfg(feature = "io")]
mod io_lasmeta;
#[cfg(feature = "io")]
mod io_pnts;
mod layout;
mod math;
#[cfg(feature = "algorithms")]
mod normals;
#[cfg(feature = "algorithms")]
mod ransac;
#[cfg(feature = "algorithms")]
mod reproj;
mod slices;
#[cfg(feature = "T01")]
mod tools;
pub mod types;
mod untyped;
mod views;

pub fn sec(name: &'static str, run: crate::runner::PropFn, quick: u64, thorough_factor: u64) -> Section {
    Section { name, run, quick, thorough: quick * thorough_factor }
}

pub fn all() -> Vec<Property> {
    vec![
        #[cfg(feature = "B01")]
        buffers::b01(),
        #[cfg(feature = "B02")]
        buffers::b02(),
        #[cfg(feature = "B03")]
        slices::b03(),
        #[cfg(feature = "B04")]
        views::b04(),
        #[cfg(feature = "B05")]
        views::b05(),
        #[cfg(feature = "B06")]
        buffers::b06(),
        #[cfg(feature = "B07")]
        buffers::b07(),
        #[cfg(feature = "B08")]
        slices::b08(),
        #[cfg(feature = "L01")]
        layout::l01(),
        #[cfg(feature = "L03")]
        layout::l03(),
        #[cfg(feature = "C01")]
        conversion::c01(),
        #[cfg(feature = "C02")]
        conversion::c02(),
        #[cfg(feature = "C03")]
        conversion::c03(),
        #[cfg(feature = "C04")]
        conversion::c04(),
        #[cfg(feature = "U01")]
        untyped::u01(),
        #[cfg(feature = "M01")]
        math::m01(),
        #[cfg(feature = "M02")]
        math::m02(),
        #[cfg(feature = "A01")]
        clouds::a01(),
        #[cfg(feature = "A02")]
        clouds::a02_prop(),
        #[cfg(feature = "A03")]
        hull::a03_prop(),
        #[cfg(feature = "A04")]
        ransac::a04_prop(),
        #[cfg(feature = "A05")]
        normals::a05_prop(),
        #[cfg(feature = "A06")]
        reproj::a06_prop(),
        #[cfg(feature = "I01")]
        io_ascii::i01(),
        #[cfg(feature = "I02")]
        io_pnts::i02(),
        #[cfg(feature = "I03")]
        io_las::i03(),
        #[cfg(feature = "I04")]
        io_lasmeta::i04(),
        #[cfg(feature = "T01")]
        tools::t01(),
    ]
}

//! Bounds and attribute ranges (A01), voxel-grid filtering (A02).

use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use crate::{ensure, on_buf};
use pasture_algorithms::bounds::calculate_bounds;
use pasture_algorithms::minmax::minmax_attribute;
use pasture_algorithms::voxel_grid::voxelgrid_filter;
use pasture_core::containers::*;
use pasture_core::layout::attributes::POSITION_3D;
use pasture_core::layout::*;
use pasture_core::math::MinMax;
use pasture_core::nalgebra::Vector3;

/// A layout that contains POSITION_3D (with the given type) at a random place among random other attributes.
pub fn gen_cloud_layout(g: &mut Gen, pos: DT, max_other: usize) -> PointLayout {
    let mut attrs: Vec<Def> = gen_attrs(g, 0, max_other, true).into_iter().filter(|d| d.name() != POSITION_3D.name()).collect();
    let at = g.range(0, attrs.len());
    attrs.insert(at, def(POSITION_3D.name().to_string(), pos));
    let l = gen_arrangement(g, &attrs);
    g.note(|| format!("layout {}", show_layout(&l)));
    l
}

pub fn attr_index(m: &Model, name: &str) -> usize {
    m.defs.iter().position(|d| d.name() == name).unwrap()
}

pub fn vec3_bytes(v: [f64; 3]) -> Vec<u8> {
    v.iter().flat_map(|c| c.to_ne_bytes()).collect()
}

pub fn read_vec3(b: &[u8]) -> [f64; 3] {
    [0, 1, 2].map(|i| f64::from_ne_bytes(b[i * 8..i * 8 + 8].try_into().unwrap()))
}

/// A cloud with the given f64 positions and random other attributes.
pub fn cloud_with(g: &mut Gen, layout: &PointLayout, pos: &[[f64; 3]]) -> Model {
    let mut m = Model::new(layout);
    m.pts = m.gen_pts(g, pos.len());
    let a = attr_index(&m, POSITION_3D.name());
    for (p, v) in m.pts.iter_mut().zip(pos) {
        p[a] = vec3_bytes(*v);
    }
    m
}

// ---------------------------------------------------------------- A01

fn finite_value(g: &mut Gen, dt: DT) -> Vec<u8> {
    for _ in 0..20 {
        let v = gen_value(g, dt);
        let Some((c, n)) = component(dt) else { return v };
        if !matches!(c, DT::F32 | DT::F64) {
            return v;
        }
        let s = ref_size(c) as usize;
        let finite = (0..n).all(|i| f64::from_ne_bytes(ref_cast(c, DT::F64, &v[i * s..(i + 1) * s]).unwrap().try_into().unwrap()).is_finite());
        if finite {
            return v;
        }
    }
    vec![0; ref_size(dt) as usize]
}

fn a01_bounds(g: &mut Gen) -> PResult {
    let n = g.len(20);
    let kind = gen_kind(g);
    let no_pos = g.chance(1, 8);
    let pos_type = if g.chance(1, 2) { DT::Vec3f64 } else { *g.choose(&VECS) };
    let layout = if no_pos {
        let attrs: Vec<Def> = gen_attrs(g, 1, 5, true).into_iter().filter(|d| d.name() != POSITION_3D.name()).collect();
        let attrs = if attrs.is_empty() { vec![def("x", DT::Vec3f64)] } else { attrs };
        gen_arrangement(g, &attrs)
    } else {
        gen_cloud_layout(g, pos_type, 4)
    };
    let mut m = Model::new(&layout);
    m.pts = m.gen_pts(g, n);
    g.note(|| format!("{n} points, {kind:?}, {}", show_layout(&layout)));
    if no_pos {
        let b = make_buf(kind, &m, 0x77);
        let r = on_buf!(&b, b => calculate_bounds(b));
        ensure!(r.is_none(), "bounds of a cloud without positions are {r:?}");
        g.class("no positions");
        return Ok(());
    }
    let a = attr_index(&m, POSITION_3D.name());
    let small = g.chance(1, 2);
    for i in 0..n {
        m.pts[i][a] = if small && pos_type == DT::Vec3f64 {
            vec3_bytes([0, 1, 2].map(|_| g.irange(-20, 20) as f64 / 4.0))
        } else {
            finite_value(g, pos_type)
        };
    }
    let pos: Vec<[f64; 3]> = m.pts.iter().map(|p| read_vec3(&ref_cast(pos_type, DT::Vec3f64, &p[a]).unwrap())).collect();
    g.note(|| format!("positions {pos:?}"));
    let b = make_buf(kind, &m, 0x77);
    let check = |r: Option<pasture_core::math::AABB<f64>>, ps: &[[f64; 3]], what: &str| -> PResult {
        let Some(r) = r else {
            ensure!(ps.is_empty(), "{what}: no bounds of {} points", ps.len());
            return Ok(());
        };
        ensure!(!ps.is_empty(), "{what}: bounds of no points are {r:?}");
        for i in 0..3 {
            let lo = ps.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min);
            let hi = ps.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max);
            ensure!(r.min()[i] == lo && r.max()[i] == hi, "{what}: bounds are {r:?}, expected {lo}..{hi} on axis {i}");
        }
        Ok(())
    };
    check(on_buf!(&b, b => calculate_bounds(b)), &pos, "whole cloud")?;
    let (lo, hi) = gen_subrange(g, n);
    on_buf!(&b, b => { let s = b.slice(lo..hi); check(calculate_bounds(&s), &pos[lo..hi], &format!("slice {lo}..{hi}")) })?;
    if n >= 2 {
        g.mark();
    }
    if n > 0 && (0..3).any(|i| pos.iter().all(|p| p[i] < 0.0)) {
        g.class("an axis with only negative coordinates");
    }
    if pos_type != DT::Vec3f64 {
        g.class("positions that are not f64");
    }
    Ok(())
}

trait Comps: Copy + std::fmt::Debug {
    fn comps(&self) -> Vec<f64>;
    /// exact order for 64-bit integers
    fn ints(&self) -> Vec<i128>;
}
macro_rules! comps { ($($t:ty),*) => { $(
    impl Comps for $t { fn comps(&self) -> Vec<f64> { vec![*self as f64] } fn ints(&self) -> Vec<i128> { vec![*self as i128] } }
    impl Comps for Vector3<$t> { fn comps(&self) -> Vec<f64> { self.iter().map(|c| *c as f64).collect() } fn ints(&self) -> Vec<i128> { self.iter().map(|c| *c as i128).collect() } }
)* } }
comps!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);

fn is_float(dt: DT) -> bool {
    matches!(component(dt), Some((DT::F32 | DT::F64, _)))
}

fn check_minmax<T: PrimitiveType + MinMax + Copy + Comps + PartialEq>(got: Option<(T, T)>, vals: &[Vec<u8>], what: &str) -> PResult {
    let vals: Vec<T> = vals.iter().map(|v| bytemuck::pod_read_unaligned::<T>(v)).collect();
    let Some((lo, hi)) = got else {
        ensure!(vals.is_empty(), "{what}: no minimum and maximum of {} values", vals.len());
        return Ok(());
    };
    ensure!(!vals.is_empty(), "{what}: minimum and maximum of no values are {lo:?}, {hi:?}");
    let k = vals[0].comps().len();
    for i in 0..k {
        if is_float(T::data_type()) {
            let a = vals.iter().map(|v| v.comps()[i]).fold(f64::INFINITY, f64::min);
            let b = vals.iter().map(|v| v.comps()[i]).fold(f64::NEG_INFINITY, f64::max);
            ensure!(lo.comps()[i] == a && hi.comps()[i] == b, "{what}: minimum {lo:?} and maximum {hi:?}, expected {a} and {b} for component {i} of {vals:?}");
        } else {
            let a = vals.iter().map(|v| v.ints()[i]).min().unwrap();
            let b = vals.iter().map(|v| v.ints()[i]).max().unwrap();
            ensure!(lo.ints()[i] == a && hi.ints()[i] == b, "{what}: minimum {lo:?} and maximum {hi:?}, expected {a} and {b} for component {i} of {vals:?}");
        }
    }
    Ok(())
}

fn a01_minmax(g: &mut Gen) -> PResult {
    let n = g.len(16);
    let kind = gen_kind(g);
    let mut all = SCALARS.to_vec();
    all.extend(VECS);
    let dt = *g.choose(&all);
    let mut attrs = gen_attrs(g, 0, 4, true);
    let name = if g.chance(1, 2) { "target".to_string() } else { g.choose(&builtins()).name().to_string() };
    attrs.retain(|a| a.name() != name);
    let at = g.range(0, attrs.len());
    attrs.insert(at, def(name.clone(), dt));
    let layout = gen_arrangement(g, &attrs);
    let mut m = Model::new(&layout);
    m.pts = m.gen_pts(g, n);
    for i in 0..n {
        m.pts[i][at] = finite_value(g, dt);
    }
    let vals: Vec<Vec<u8>> = m.pts.iter().map(|p| p[at].clone()).collect();
    g.note(|| format!("{n} points, {kind:?}, {}, attribute {name}", show_layout(&layout)));
    let b = make_buf(kind, &m, 0x77);
    let a = def(name, dt);
    let (lo, hi) = gen_subrange(g, n);
    macro_rules! go { ($($t:ty => $d:pat),*) => {
        match dt { $($d => {
            on_buf!(&b, b => {
                check_minmax::<$t>(minmax_attribute::<$t, _>(b, &a), &vals, "whole cloud")?;
                let s = b.slice(lo..hi);
                check_minmax::<$t>(minmax_attribute::<$t, _>(&s, &a), &vals[lo..hi], "slice")?;
            })
        })* _ => unreachable!() }
    } }
    go!(u8 => DT::U8, i8 => DT::I8, u16 => DT::U16, i16 => DT::I16, u32 => DT::U32, i32 => DT::I32, u64 => DT::U64, i64 => DT::I64, f32 => DT::F32, f64 => DT::F64,
        Vector3<u8> => DT::Vec3u8, Vector3<u16> => DT::Vec3u16, Vector3<i32> => DT::Vec3i32, Vector3<f32> => DT::Vec3f32, Vector3<f64> => DT::Vec3f64);
    // another type than the attribute has: refused, none, or the range of the converted values
    let to = *g.choose(&all);
    if to != dt {
        let conv: Option<Vec<Vec<u8>>> = vals.iter().map(|v| ref_cast(dt, to, v)).collect();
        macro_rules! other { ($($t:ty => $d:pat),*) => {
            match to { $($d => {
                if let Ok(Some(got)) = catching(|| on_buf!(&b, b => minmax_attribute::<$t, _>(b, &a))) {
                    match &conv {
                        Some(c) if castable(dt, to) => check_minmax::<$t>(Some(got), c, &format!("as {to:?}"))?,
                        _ => return fail(format!("the range of {dt:?} values as {to:?}, which is no conversion, is {got:?}")),
                    }
                    g.class("range in another type");
                }
            })* _ => unreachable!() }
        } }
        other!(u8 => DT::U8, i8 => DT::I8, u16 => DT::U16, i16 => DT::I16, u32 => DT::U32, i32 => DT::I32, u64 => DT::U64, i64 => DT::I64, f32 => DT::F32, f64 => DT::F64,
            Vector3<u8> => DT::Vec3u8, Vector3<u16> => DT::Vec3u16, Vector3<i32> => DT::Vec3i32, Vector3<f32> => DT::Vec3f32, Vector3<f64> => DT::Vec3f64);
    }
    // an attribute that is not there
    let absent = def("absent", DT::U8);
    ensure!(catching(|| on_buf!(&b, b => minmax_attribute::<u8, _>(b, &absent))).is_err(), "the range of an absent attribute was computed");
    if n >= 2 {
        g.mark();
    }
    if (0..n).any(|i| vals[i] != vals[0]) {
        g.class("different values");
    }
    Ok(())
}

pub fn a01() -> Property {
    Property {
        id: "A01",
        rule: "a case is one cloud (and attribute); non-trivial: at least two points and the attribute present",
        sections: vec![sec("bounds", a01_bounds, 800_000, 40), sec("minmax", a01_minmax, 800_000, 40)],
    }
}

// ---------------------------------------------------------------- A02

/// The grid lines of one axis: one voxel size above the minimum, up to the first line at or above the maximum.
fn grid_line(min: f64, max: f64, leaf: f64, x: f64) -> usize {
    let mut lines = vec![];
    let mut k = 1.0;
    while lines.last().copied().unwrap_or(min) < max {
        lines.push(min + k * leaf);
        k += 1.0;
    }
    // nearest line; a point half-way between two lines belongs to the upper one
    let mut best = 0;
    for i in 1..lines.len() {
        if (lines[i] - x).abs() <= (lines[best] - x).abs() {
            best = i;
        }
    }
    best
}

fn close(a: f64, b: f64, rel: f64) -> bool {
    a == b || (a - b).abs() <= rel * (1.0 + a.abs().max(b.abs()))
}

fn a02(g: &mut Gen) -> PResult {
    let n = if g.chance(1, 50) { g.range(60, 1100) } else { g.small(60) };
    let kind = gen_kind(g);
    let mut attrs: Vec<Def> = vec![];
    for d in builtins() {
        let wave = d.name().starts_with("Wave") || d.name() == attributes::RETURN_POINT_WAVEFORM_LOCATION.name();
        if d.name() == POSITION_3D.name() || (!wave && g.chance(1, 3)) {
            attrs.push(d);
        }
    }
    for i in (1..attrs.len()).rev() {
        attrs.swap(i, g.range(0, i));
    }
    let layout = gen_arrangement(g, &attrs);
    let mut m = Model::new(&layout);
    m.pts = m.gen_pts(g, n);
    let leaf = [0, 1, 2].map(|_| g.range(1, 24) as f64 / 8.0);
    let span = *g.choose(&[1i64, 8, 40]);
    let origin = [0, 1, 2].map(|_| if g.chance(1, 3) { g.irange(-4000, 4000) as f64 } else { 0.0 });
    let flat = g.range(0, 5);
    let few = g.chance(1, 2);
    for i in 0..n {
        for (a, d) in attrs.iter().enumerate() {
            m.pts[i][a] = if d.name() == POSITION_3D.name() {
                let v = [0, 1, 2].map(|k| if flat == k { origin[k] } else { origin[k] + g.irange(-span, span) as f64 / 8.0 });
                vec3_bytes(v)
            } else if *d == attributes::SCAN_DIRECTION_FLAG || *d == attributes::EDGE_OF_FLIGHT_LINE {
                vec![g.range(0, 1) as u8] // one-bit flags
            } else if *d == attributes::NORMAL {
                [0, 1, 2].iter().flat_map(|_| (g.irange(-16, 16) as f32 / 16.0).to_ne_bytes()).collect()
            } else if *d == attributes::GPS_TIME {
                (g.irange(-1_000_000, 1_000_000) as f64 / 16.0).to_ne_bytes().to_vec()
            } else if few {
                // few different values, so that most common values are unique more often
                let mut v = vec![0u8; ref_size(d.datatype()) as usize];
                v[0] = g.range(0, 2) as u8;
                let k = v.len() - 1;
                if g.chance(1, 4) {
                    v[k] = 0x80 | v[k];
                }
                v
            } else {
                gen_value(g, d.datatype())
            };
        }
    }
    // the target has a random selection of the attributes, in another order, and some points already
    let mut tattrs: Vec<Def> = attrs.iter().filter(|_| !g.chance(1, 5)).cloned().collect();
    if !tattrs.iter().any(|d| d.name() == POSITION_3D.name()) {
        tattrs.push(POSITION_3D);
    }
    for i in (1..tattrs.len()).rev() {
        tattrs.swap(i, g.range(0, i));
    }
    let tlayout = gen_arrangement(g, &tattrs);
    let mut tm = Model::new(&tlayout);
    let before = g.small(3);
    tm.pts = tm.gen_pts(g, before);
    let tkind = *g.choose(&[Kind::Vector, Kind::HashMap]);
    let pa = attr_index(&m, POSITION_3D.name());
    let pos: Vec<[f64; 3]> = m.pts.iter().map(|p| read_vec3(&p[pa])).collect();
    g.note(|| format!("{n} points {kind:?} {}, voxel {leaf:?}, into {tkind:?} with {before} points {}", show_layout(&layout), show_layout(&tlayout)));
    g.note(|| format!("positions {pos:?}"));
    let src = make_buf(kind, &m, 0x55);
    let mut tgt = make_buf(tkind, &tm, 0x66);
    on_buf!(&src, s => match &mut tgt {
        Buf::V(t) => voxelgrid_filter(s, leaf[0], leaf[1], leaf[2], t),
        Buf::H(t) => voxelgrid_filter(s, leaf[0], leaf[1], leaf[2], t),
        _ => unreachable!(),
    });
    on_buf!(&src, s => check_reads(g, s, &m, "source after filtering"))?;
    // reference
    let lo = [0, 1, 2].map(|i| pos.iter().map(|p| p[i]).fold(f64::INFINITY, f64::min));
    let hi = [0, 1, 2].map(|i| pos.iter().map(|p| p[i]).fold(f64::NEG_INFINITY, f64::max));
    let mut voxels: std::collections::BTreeMap<[usize; 3], Vec<usize>> = Default::default();
    for (i, p) in pos.iter().enumerate() {
        voxels.entry([0, 1, 2].map(|k| grid_line(lo[k], hi[k], leaf[k], p[k]))).or_default().push(i);
    }
    let got = on_buf!(&tgt, t => super::conversion::read_all(t, &tm));
    ensure!(got.len() == before + voxels.len(), "{} points were output, expected one for each of {} voxels", got.len() as i64 - before as i64, voxels.len());
    for i in 0..before {
        ensure!(got[i] == tm.pts[i], "filtering changed a point that was in the target before");
    }
    let tp = attr_index(&tm, POSITION_3D.name());
    let mut free: Vec<usize> = (before..got.len()).collect();
    let mean = |ids: &[usize], f: &dyn Fn(usize) -> f64| ids.iter().map(|i| f(*i)).sum::<f64>() / ids.len() as f64;
    for (v, ids) in &voxels {
        let c = [0, 1, 2].map(|k| mean(ids, &|i| pos[i][k]));
        let Some(at) = free.iter().position(|o| { let q = read_vec3(&got[*o][tp]); (0..3).all(|k| close(q[k], c[k], 1e-12)) }) else {
            return fail(format!("no output point at {c:?}, the mean position of the points {ids:?} of voxel {v:?}; outputs are at {:?}", free.iter().map(|o| read_vec3(&got[*o][tp])).collect::<Vec<_>>()));
        };
        let o = free.remove(at);
        for (ta, d) in tattrs.iter().enumerate() {
            if ta == tp {
                continue;
            }
            let sa = attr_index(&m, d.name());
            let out = &got[o][ta];
            let vals: Vec<&Vec<u8>> = ids.iter().map(|i| &m.pts[*i][sa]).collect();
            let what = || format!("{d} of the output for voxel {v:?} is {out:?}, its points {ids:?} have {vals:?}");
            let int = |b: &[u8]| i128::from_ne_bytes(ref_i128(d.datatype(), b));
            if *d == attributes::COLOR_RGB || *d == attributes::NORMAL {
                let (cdt, _) = component(d.datatype()).unwrap();
                let s = ref_size(cdt) as usize;
                for k in 0..3 {
                    let num = |b: &[u8]| f64::from_ne_bytes(ref_cast(cdt, DT::F64, &b[k * s..(k + 1) * s]).unwrap().try_into().unwrap());
                    let e = vals.iter().map(|b| num(b)).sum::<f64>() / vals.len() as f64;
                    let ok = if cdt == DT::U16 { num(out) == e.floor() } else { close(num(out), e, 1e-6) };
                    ensure!(ok, "component {k} of {}, the mean is {e}", what());
                }
                g.class("mean of a vector attribute");
            } else if *d == attributes::INTENSITY || *d == attributes::NIR {
                let sum: i128 = vals.iter().map(|b| int(b)).sum();
                ensure!(int(out) == sum / vals.len() as i128, "{}, the mean is {}", what(), sum as f64 / vals.len() as f64);
                g.class("mean of a number");
            } else if *d == attributes::GPS_TIME {
                let e = vals.iter().map(|b| f64::from_ne_bytes(b.as_slice().try_into().unwrap())).fold(f64::NEG_INFINITY, f64::max);
                ensure!(f64::from_ne_bytes(out.as_slice().try_into().unwrap()) == e, "{}, the maximum is {e}", what());
                g.class("maximum");
            } else if *d == attributes::CLASSIFICATION_FLAGS || *d == attributes::POINT_ID {
                let e = vals.iter().map(|b| int(b)).max().unwrap();
                ensure!(int(out) == e, "{}, the maximum is {e}", what());
                g.class("maximum");
            } else {
                let count = |x: &Vec<u8>| vals.iter().filter(|v| **v == x).count();
                let top = vals.iter().map(|v| count(v)).max().unwrap();
                ensure!(count(out) == top, "{}, a most common value occurs {top} times", what());
                g.class("most common value");
            }
        }
    }
    if voxels.len() >= 2 && voxels.len() < n {
        g.mark();
    }
    if voxels.values().any(|v| v.len() > 1) {
        g.class("a voxel with several points");
    }
    Ok(())
}

/// Sign- or zero-extended to 128 bits (native byte order).
fn ref_i128(dt: DT, b: &[u8]) -> [u8; 16] {
    let signed = matches!(dt, DT::I8 | DT::I16 | DT::I32 | DT::I64);
    let neg = signed && b[b.len() - 1] & 0x80 != 0; // little endian
    let mut out = [if neg { 0xFF } else { 0 }; 16];
    out[..b.len()].copy_from_slice(b);
    out
}

pub fn a02_prop() -> Property {
    Property {
        id: "A02",
        rule: "a case is one cloud, voxel size and target; non-trivial: at least two occupied voxels and fewer voxels than points",
        sections: vec![sec("filter", a02, 480_000, 40)],
    }
}

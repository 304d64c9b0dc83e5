//! Reprojection (A06) against direct PROJ calls and round trips.

use super::clouds::*;
use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use crate::{ensure, on_buf};
use pasture_algorithms::reprojection::*;
use pasture_core::containers::*;
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Point3, Vector3};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::CString;

type V = [f64; 3];

/// Projections between the first four are cheap to create.
const CRS: [&str; 8] = ["EPSG:4326", "EPSG:32633", "EPSG:3857", "EPSG:4978", "EPSG:25832", "EPSG:3035", "EPSG:3309", "+proj=utm +zone=32 +datum=WGS84 +type=crs"];

struct Direct {
    ctx: *mut proj_sys::pj_ctx,
    pj: *mut proj_sys::PJconsts,
}
impl Direct {
    fn new(a: &str, b: &str) -> Option<Direct> {
        let (a, b) = (CString::new(a).unwrap(), CString::new(b).unwrap());
        unsafe {
            let ctx = proj_sys::proj_context_create();
            let pj = proj_sys::proj_create_crs_to_crs(ctx, a.as_ptr(), b.as_ptr(), std::ptr::null_mut());
            if pj.is_null() {
                proj_sys::proj_context_destroy(ctx);
                return None;
            }
            Some(Direct { ctx, pj })
        }
    }
    fn map(&self, p: V) -> V {
        unsafe {
            let c = proj_sys::proj_trans(self.pj, proj_sys::PJ_DIRECTION_PJ_FWD, proj_sys::proj_coord(p[0], p[1], p[2], 0.0));
            [c.v[0], c.v[1], c.v[2]]
        }
    }
}
impl Drop for Direct {
    fn drop(&mut self) {
        unsafe {
            proj_sys::proj_destroy(self.pj);
            proj_sys::proj_context_destroy(self.ctx);
        }
    }
}

thread_local! {
    static DIRECT: RefCell<HashMap<(String, String), Direct>> = RefCell::new(HashMap::new());
    static CODE: RefCell<HashMap<(String, String), Projection>> = RefCell::new(HashMap::new());
}

fn direct(a: &str, b: &str, p: V) -> V {
    DIRECT.with(|d| d.borrow_mut().entry((a.into(), b.into())).or_insert_with(|| Direct::new(a, b).expect("supported reference systems")).map(p))
}

/// The code's own projection, kept per thread because creating one takes milliseconds.
fn with_code<T>(a: &str, b: &str, f: impl FnOnce(&Projection) -> T) -> T {
    CODE.with(|d| f(d.borrow_mut().entry((a.into(), b.into())).or_insert_with(|| Projection::new(a, b).expect("supported reference systems"))))
}

fn gen_pair(g: &mut Gen, rare: u64) -> (&'static str, &'static str) {
    let n = if !g.chance(1, rare) { 4 } else { CRS.len() };
    let a = g.range(0, n - 1);
    if g.chance(1, 12) {
        return (CRS[a], CRS[a]);
    }
    let b = (a + g.range(1, n - 1)) % n;
    (CRS[a], CRS[b])
}

/// A position in `crs` near central Europe (where all reference systems but 3309 are meant to be used; PROJ extends
/// that one, too).
fn gen_pos(g: &mut Gen, crs: &str) -> V {
    let lat = 44.0 + g.irange(0, 1000) as f64 / 100.0;
    let lon = 7.0 + g.irange(0, 600) as f64 / 100.0;
    let h = g.irange(-100, 3000) as f64 / 4.0;
    if crs == "EPSG:4326" { [lat, lon, h] } else { direct("EPSG:4326", crs, [lat, lon, h]) }
}

fn close(a: V, b: V) -> bool {
    (0..3).all(|i| a[i] == b[i] || a[i].is_nan() && b[i].is_nan() || (a[i] - b[i]).abs() <= 1e-9 * a[i].abs().max(1.0))
}

fn gen_positions(g: &mut Gen, n: usize, crs: &str) -> Vec<V> {
    let wild = g.chance(1, 5);
    let repeats = g.chance(1, 3);
    let mut ps: Vec<V> = vec![];
    for _ in 0..n {
        let mut p = if wild { [0, 1, 2].map(|_| g.irange(-20_000, 20_000) as f64 / 8.0) } else { gen_pos(g, crs) };
        if repeats && !ps.is_empty() && g.chance(1, 2) {
            // the same position as an earlier point, or some of its coordinates
            let q = if g.chance(2, 3) { *ps.last().unwrap() } else { *g.choose(&ps) };
            let keep = *g.choose(&[3usize, 7, 1, 2, 4, 5, 6]);
            for i in 0..3 {
                if keep >> i & 1 == 1 {
                    p[i] = q[i];
                }
            }
        }
        ps.push(p);
    }
    ps
}

/// Compares everything but the position attribute with the model, and the positions with `want`.
fn check_cloud(b: &Buf, m: &Model, want: &[V], what: &str) -> PResult {
    let n = on_buf!(b, b => b.len());
    ensure!(n == m.pts.len(), "{what}: {n} points instead of {}", m.pts.len());
    let got = on_buf!(b, b => super::conversion::read_all(b, m));
    let a = attr_index(m, "Position3D");
    for i in 0..n {
        for (k, d) in m.defs.iter().enumerate() {
            if k == a {
                let p = read_vec3(&got[i][k]);
                ensure!(close(p, want[i]), "{what}: position {i} is {p:?}, expected {:?}", want[i]);
            } else {
                ensure!(got[i][k] == m.pts[i][k], "{what}: attribute {} of point {i} is {:02x?}, expected {:02x?}", d.name(), got[i][k], m.pts[i][k]);
            }
        }
    }
    Ok(())
}

fn a06_within(g: &mut Gen) -> PResult {
    let (src, dst) = gen_pair(g, 50);
    let n = g.len(30);
    let ps = gen_positions(g, n, src);
    let kind = gen_kind(g);
    let layout = gen_cloud_layout(g, DT::Vec3f64, 4);
    let m = cloud_with(g, &layout, &ps);
    let mut b = make_buf(kind, &m, 0x42);
    // only part of the cloud may be reprojected through a slice
    let (lo, hi) = if g.chance(1, 3) { gen_subrange(g, n) } else { (0, n) };
    let whole = (lo, hi) == (0, n);
    g.note(|| format!("{kind:?} {src} -> {dst}, points {lo}..{hi} of {ps:?}"));
    if whole {
        on_buf!(&mut b, b => reproject_point_cloud_within(b, src, dst));
    } else {
        match &mut b {
            Buf::V(b) => { let mut s = b.slice_mut(lo..hi); reproject_point_cloud_within(&mut s, src, dst) }
            Buf::H(b) => { let mut s = b.slice_mut(lo..hi); reproject_point_cloud_within(&mut s, src, dst) }
            Buf::E(b) => { let mut s = b.slice_mut(lo..hi); reproject_point_cloud_within(&mut s, src, dst) }
        }
    }
    let want: Vec<V> = ps.iter().enumerate().map(|(i, p)| if (lo..hi).contains(&i) { direct(src, dst, *p) } else { *p }).collect();
    check_cloud(&b, &m, &want, "within")?;
    if hi > lo && n >= 2 {
        g.mark();
    }
    Ok(())
}

fn a06_between(g: &mut Gen) -> PResult {
    let (src, dst) = gen_pair(g, 50);
    let n = g.len(30);
    let ps = gen_positions(g, n, src);
    let (k1, k2) = (gen_kind(g), gen_kind(g));
    let l1 = gen_cloud_layout(g, DT::Vec3f64, 3);
    let l2 = gen_cloud_layout(g, DT::Vec3f64, 3);
    let m1 = cloud_with(g, &l1, &ps);
    let n2 = if g.chance(1, 8) { g.small(30) } else { n };
    let old: Vec<V> = (0..n2).map(|i| [i as f64, -1.0, 0.5]).collect();
    let m2 = cloud_with(g, &l2, &old);
    let mut b1 = make_buf(k1, &m1, 0x42);
    let mut b2 = make_buf(k2, &m2, 0x24);
    g.note(|| format!("{k1:?} -> {k2:?}, {src} -> {dst}, {n2} target points, points {ps:?}"));
    let r = catching(|| on_buf!(&mut b1, x => on_buf!(&mut b2, y => reproject_point_cloud_between(x, y, src, dst))));
    check_cloud(&b1, &m1, &ps, "source")?;
    if n2 != n {
        ensure!(r.is_err(), "clouds with {n} and {n2} points are not refused");
        g.class("refused");
        return check_cloud(&b2, &m2, &old, "target after the refusal");
    }
    if let Err(e) = r {
        return fail(format!("unexpected {e}"));
    }
    let want: Vec<V> = ps.iter().map(|p| direct(src, dst, *p)).collect();
    check_cloud(&b2, &m2, &want, "target")?;
    if n >= 2 {
        g.mark();
    }
    Ok(())
}

fn v3(v: V) -> Vector3<f64> {
    Vector3::new(v[0], v[1], v[2])
}

fn a06_projection(g: &mut Gen) -> PResult {
    let (src, dst) = gen_pair(g, 300);
    let (p, q) = (gen_pos(g, src), gen_pos(g, src));
    g.note(|| format!("{src} -> {dst}: {p:?} {q:?}"));
    let arr = |v: Vector3<f64>| [v.x, v.y, v.z];
    let t = with_code(src, dst, |c| arr(c.transform(v3(p))));
    ensure!(close(t, direct(src, dst, p)), "{p:?} is transformed to {t:?}, expected {:?}", direct(src, dst, p));
    // forth and back
    let back = with_code(dst, src, |c| arr(c.transform(v3(t))));
    for i in 0..3 {
        let tol = if src == "EPSG:4326" && i < 2 { 1e-6 } else { 1e-2 };
        ensure!((back[i] - p[i]).abs() <= tol, "forth and back changes {p:?} to {back:?}");
    }
    // bounds
    let (lo, hi) = ([0, 1, 2].map(|i| p[i].min(q[i])), [0, 1, 2].map(|i| p[i].max(q[i])));
    let b = with_code(src, dst, |c| c.transform_bounds(&AABB::from_min_max(Point3::new(lo[0], lo[1], lo[2]), Point3::new(hi[0], hi[1], hi[2]))));
    let corners: Vec<V> = (0..8).map(|k| direct(src, dst, [0, 1, 2].map(|i| if k >> i & 1 == 0 { lo[i] } else { hi[i] }))).collect();
    for i in 0..3 {
        let w = (corners.iter().map(|c| c[i]).fold(f64::INFINITY, f64::min), corners.iter().map(|c| c[i]).fold(f64::NEG_INFINITY, f64::max));
        let tol = 1e-9 * w.0.abs().max(w.1.abs()).max(1.0);
        ensure!((b.min()[i] - w.0).abs() <= tol && (b.max()[i] - w.1).abs() <= tol, "the bounds {lo:?}..{hi:?} are transformed to {b:?}, the transformed corners are {corners:?}");
    }
    if (0..3).all(|i| lo[i] < hi[i]) {
        g.mark();
    }
    Ok(())
}

fn a06_refused(g: &mut Gen) -> PResult {
    let bad = *g.choose(&["EPSG:999999", "", "no such system", "+proj=nothing", "EPSG:4326\0"]);
    let good = *g.choose(&CRS);
    let (a, b) = match g.range(0, 2) { 0 => (bad, good), 1 => (good, bad), _ => (bad, bad) };
    g.note(|| format!("{a:?} -> {b:?}"));
    ensure!(Projection::new(a, b).is_err(), "{a:?} -> {b:?} is not refused");
    g.mark();
    Ok(())
}

pub fn a06_prop() -> Property {
    Property {
        id: "A06",
        rule: "a case is one reprojection; non-trivial: at least two points are transformed, or bounds with extent in all axes, or an unknown reference system",
        sections: vec![sec("projection", a06_projection, 60_000, 15), sec("within", a06_within, 1_000, 15), sec("between", a06_between, 1_000, 15), sec("refused", a06_refused, 40, 15)],
    }
}

//! Centroids, normals and curvature (A05) against an independent neighbour search and eigen solver.

use super::clouds::*;
use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use crate::{ensure, on_buf};
use pasture_algorithms::normal_estimation::*;
use pasture_core::containers::*;
use pasture_core::nalgebra::Vector3;
use pasture_derive::PointType;

#[repr(C)]
#[derive(PointType, Debug, Clone, Copy, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
struct KdPos {
    #[pasture(BUILTIN_POSITION_3D)]
    position: Vector3<f64>,
}
impl kd_tree::KdPoint for KdPos {
    type Scalar = f64;
    type Dim = typenum::U3;
    fn at(&self, k: usize) -> f64 {
        let p = self.position;
        p[k]
    }
}

type V = [f64; 3];
fn vsub(a: V, b: V) -> V {
    [0, 1, 2].map(|i| a[i] - b[i])
}
fn vdot(a: V, b: V) -> f64 {
    (0..3).map(|i| a[i] * b[i]).sum()
}
fn vcross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn vnorm(a: V) -> f64 {
    vdot(a, a).sqrt()
}

fn mean(ps: &[V]) -> V {
    [0, 1, 2].map(|i| ps.iter().map(|p| p[i]).sum::<f64>() / ps.len() as f64)
}

/// Eigenvalues (ascending) and eigenvectors of the covariance matrix, by cyclic Jacobi rotations.
fn eigen(ps: &[V]) -> ([f64; 3], [V; 3]) {
    let m = mean(ps);
    let mut a = [[0.0f64; 3]; 3];
    for p in ps {
        let d = vsub(*p, m);
        for i in 0..3 {
            for j in 0..3 {
                a[i][j] += d[i] * d[j];
            }
        }
    }
    let mut v = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    for _ in 0..60 {
        for (p, q) in [(0usize, 1usize), (0, 2), (1, 2)] {
            if a[p][q] == 0.0 {
                continue;
            }
            let th = (a[q][q] - a[p][p]) / (2.0 * a[p][q]);
            let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
            let t = if th == 0.0 { 1.0 } else { t };
            let c = 1.0 / (t * t + 1.0).sqrt();
            let s = t * c;
            for k in 0..3 {
                let (x, y) = (a[k][p], a[k][q]);
                a[k][p] = c * x - s * y;
                a[k][q] = s * x + c * y;
            }
            for k in 0..3 {
                let (x, y) = (a[p][k], a[q][k]);
                a[p][k] = c * x - s * y;
                a[q][k] = s * x + c * y;
            }
            for k in 0..3 {
                let (x, y) = (v[k][p], v[k][q]);
                v[k][p] = c * x - s * y;
                v[k][q] = s * x + c * y;
            }
        }
    }
    let mut idx = [0usize, 1, 2];
    idx.sort_by(|i, j| a[*i][*i].partial_cmp(&a[*j][*j]).unwrap());
    (idx.map(|i| a[i][i].max(0.0)), idx.map(|i| [v[0][i], v[1][i], v[2][i]]))
}

/// The k nearest points of q; None if the k-th and the next are too close to tell which one it is.
fn nearest(ps: &[V], q: V, k: usize) -> Option<Vec<V>> {
    let mut o: Vec<(f64, V)> = ps.iter().map(|p| { let d = vsub(*p, q); (vdot(d, d), *p) }).collect();
    o.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    if k < o.len() && o[k].0 - o[k - 1].0 <= 1e-9 * o[k].0 {
        // points at the same place are interchangeable
        let tied: Vec<V> = o.iter().filter(|x| (x.0 - o[k].0).abs() <= 1e-9 * o[k].0).map(|x| x.1).collect();
        if tied.iter().any(|p| *p != tied[0]) {
            return None;
        }
    }
    o.truncate(k);
    Some(o.into_iter().map(|x| x.1).collect())
}

fn rot(g: &mut Gen) -> [V; 3] {
    // an orthonormal frame from two integer vectors
    let mut r = || [g.irange(-9, 9) as f64 + 0.25, g.irange(-9, 9) as f64 + 0.5, g.irange(-9, 9) as f64];
    let a = r();
    let mut b = r();
    let mut n = vcross(a, b);
    if vnorm(n) < 1e-9 {
        b = [a[1], -a[0], a[2] + 1.0];
        n = vcross(a, b);
    }
    let u = a.map(|x| x / vnorm(a));
    let w = n.map(|x| x / vnorm(n));
    [u, vcross(w, u), w]
}

fn gen_cloud(g: &mut Gen, n: usize) -> (Vec<V>, &'static str) {
    let shape = g.range(0, 5);
    let scale = *g.choose(&[1.0f64, 0.01, 100.0, 1e4, 1e-4]);
    let off = if g.chance(1, 3) { [500_000.0 * scale, 4_000_000.0 * scale, 120.0 * scale] } else { [0, 1, 2].map(|_| g.irange(-20, 20) as f64 * scale) };
    let f = if g.chance(1, 3) { [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]] } else { rot(g) };
    let thick = *g.choose(&[0.02f64, 0.1, 0.3, 0.6]);
    let hi = *g.choose(&[3i64, 10, 1000]);
    let unit = 10.0 / hi as f64;
    let ps = (0..n).map(|_| {
        let (s, t, w) = (g.irange(-hi, hi) as f64 * unit, g.irange(-hi, hi) as f64 * unit, g.irange(-hi, hi) as f64 * unit);
        let c = match shape {
            0 | 1 => [s, t, 0.0],
            2 => [s, t, w * thick],
            3 => [s, t * 0.5, w * thick],
            4 => [s, t, 0.03 * (s * s + t * t)],
            _ => [s, t, w],
        };
        [0, 1, 2].map(|i| off[i] + scale * (0..3).map(|j| c[j] * f[j][i]).sum::<f64>())
    }).collect();
    (ps, ["plane", "plane", "slab", "slab", "bowl", "box"][shape])
}

fn to_buf(g: &mut Gen, ps: &[V]) -> Buf {
    let kind = gen_kind(g);
    let layout = gen_cloud_layout(g, DT::Vec3f64, 3);
    let m = cloud_with(g, &layout, ps);
    make_buf(kind, &m, 0x5C)
}

fn a05_normals(g: &mut Gen) -> PResult {
    let n = g.range(0, 3) + if g.chance(1, 200) { g.range(40, 600) } else { g.small(40) };
    let k = if g.chance(1, 15) { g.range(0, 3) } else { g.range(3, 12) };
    let (ps, shape) = gen_cloud(g, n);
    normals_case(g, ps, k, shape)
}

/// Points without a finite position are not part of any neighbourhood.
fn a05_holes(g: &mut Gen) -> PResult {
    let n = g.range(3, 6) + g.small(9);
    let (mut ps, shape) = gen_cloud(g, n);
    for _ in 0..g.range(1, 3) {
        let i = g.range(0, ps.len());
        let mut p = *g.choose(&ps);
        for _ in 0..g.range(1, 3) {
            p[g.range(0, 2)] = *g.choose(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        }
        ps.insert(i, p);
    }
    // all points are neighbours: the neighbourhood of a point without a position is not defined otherwise
    let k = ps.len() + g.range(0, 3);
    normals_case(g, ps, k, shape)
}

fn normals_case(g: &mut Gen, all: Vec<V>, k: usize, shape: &str) -> PResult {
    let n = all.len();
    let ps: Vec<V> = all.iter().copied().filter(|p| p.iter().all(|c| c.is_finite())).collect();
    let b = to_buf(g, &all);
    g.note(|| format!("{shape}, k {k}, points {all:?}"));
    let r = catching(|| match &b {
        Buf::V(b) => compute_normals::<VectorBuffer, KdPos>(b, k),
        Buf::H(b) => compute_normals::<HashMapBuffer, KdPos>(b, k),
        Buf::E(b) => compute_normals::<_, KdPos>(b, k),
    });
    if n < 3 || k < 3 {
        ensure!(r.is_err(), "{n} points with {k} neighbours are not refused");
        g.class("refused");
        return Ok(());
    }
    let r = match r {
        Ok(r) => r,
        Err(e) => return fail(format!("unexpected {e}")),
    };
    ensure!(r.len() == n, "{} results for {n} points", r.len());
    let mut checked = 0;
    for (i, (nn, curv)) in r.iter().enumerate() {
        if !all[i].iter().all(|c| c.is_finite()) {
            continue;
        }
        let Some(nb) = nearest(&ps, all[i], k) else {
            g.class("ambiguous neighbours");
            continue;
        };
        let (l, v) = eigen(&nb);
        // rounding of the coordinates themselves, relative to the neighbourhood's extent
        let size = ps.iter().flatten().fold(0.0f64, |a, c| a.max(c.abs()));
        if l[2] <= (size * 1e-6).powi(2) {
            g.class("no extent");
            continue;
        }
        let want = l[0] / (l[0] + l[1] + l[2]);
        if (l[1] - l[0]) / l[2] < 0.02 {
            g.class("no distinct least direction");
            continue;
        }
        let tol = 1e-6 + 1e-8;
        ensure!((curv - want).abs() <= tol, "curvature of point {i} {:?} is {curv}, expected {want} (variances {l:?}, neighbours {nb:?})", all[i]);
        let nn = [nn.x, nn.y, nn.z];
        let len = vnorm(nn);
        ensure!(len > 0.0 && len.is_finite(), "the normal of point {i} is {nn:?}");
        let sin = vnorm(vcross(nn.map(|c| c / len), v[0]));
        ensure!(sin <= 1e-4, "the normal of point {i} {:?} is {nn:?}, the direction of least variance is {:?} (variances {l:?}, neighbours {nb:?})", all[i], v[0]);
        checked += 1;
        g.class(if want < 1e-9 { "planar neighbourhood" } else { "thick neighbourhood" });
    }
    if checked >= 3 {
        g.mark();
    }
    Ok(())
}

fn a05_centroid(g: &mut Gen) -> PResult {
    let n = g.len(40);
    let (mut ps, _) = gen_cloud(g, n);
    if g.chance(1, 10) {
        // as large as the sums over all points allow
        let top = (0..3).map(|i| ps.iter().map(|p| p[i].abs()).sum::<f64>()).fold(1e-300, f64::max);
        let f = f64::MAX * 0.99 / top;
        for c in ps.iter_mut().flatten() {
            *c *= f;
        }
    }
    let with_bad = g.chance(1, 2);
    if with_bad {
        for p in ps.iter_mut() {
            if g.chance(1, 4) {
                p[g.range(0, 2)] = *g.choose(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            }
        }
    }
    let fin: Vec<V> = ps.iter().copied().filter(|p| p.iter().all(|c| c.is_finite())).collect();
    let b = to_buf(g, &ps);
    g.note(|| format!("points {ps:?}"));
    let r = catching(|| on_buf!(&b, b => compute_centroid(b)));
    if n == 0 {
        ensure!(r.is_err(), "the centroid of no points is {r:?}");
        return Ok(());
    }
    let r = match r {
        Ok(r) => [r.x, r.y, r.z],
        Err(e) => return fail(format!("unexpected {e}")),
    };
    if fin.is_empty() {
        g.class("no finite points");
        return Ok(());
    }
    let want = mean(&fin);
    let size = fin.iter().flatten().fold(0.0f64, |a, c| a.max(c.abs()));
    for i in 0..3 {
        ensure!((r[i] - want[i]).abs() <= 1e-12 * size * n as f64, "the centroid is {r:?}, the mean of the finite points is {want:?}");
    }
    if n >= 2 {
        g.mark();
    }
    Ok(())
}

pub fn a05_prop() -> Property {
    Property {
        id: "A05",
        rule: "a case is one cloud; non-trivial: at least three normals (with a distinct least direction and unambiguous neighbours) or a centroid of several points were compared",
        sections: vec![sec("centroid", a05_centroid, 300_000, 40), sec("normals", a05_normals, 300_000, 40), sec("holes", a05_holes, 60_000, 40)],
    }
}

//! Convex hulls (A03), checked with exact integer geometry.

use super::clouds::*;
use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::Property;
use crate::{ensure, on_buf};
use pasture_algorithms::convexhull::*;
use std::collections::{BTreeMap, BTreeSet};

type P = [i64; 3];

fn sub(a: P, b: P) -> [i128; 3] {
    [0, 1, 2].map(|i| a[i] as i128 - b[i] as i128)
}
fn cross(a: [i128; 3], b: [i128; 3]) -> [i128; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: [i128; 3], b: [i128; 3]) -> i128 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn normal(a: P, b: P, c: P) -> [i128; 3] {
    cross(sub(b, a), sub(c, a))
}
const Z: [i128; 3] = [0, 0, 0];

/// 0: empty, 1: one position, 2: collinear, 3: coplanar, 4: spans space
fn dimension(ps: &[P]) -> usize {
    if ps.is_empty() {
        return 0;
    }
    let a = ps[0];
    let Some(b) = ps.iter().copied().find(|p| *p != a) else { return 1 };
    let Some(c) = ps.iter().copied().find(|p| normal(a, b, *p) != Z) else { return 2 };
    let n = normal(a, b, c);
    if ps.iter().any(|p| dot(n, sub(*p, a)) != 0) { 4 } else { 3 }
}

/// Is some weighted mean of the other positions equal to p? (p is not extreme.)  By Caratheodory within segments,
/// triangles and tetrahedra of the other positions.
fn extreme(ps: &[P]) -> BTreeSet<P> {
    let set: Vec<P> = ps.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
    let n = set.len();
    let in_tri2 = |p: P, a: P, b: P, c: P| -> bool {
        // coplanar, possibly degenerate triangle
        let nn = normal(a, b, c);
        if nn == Z {
            return false;
        }
        if dot(nn, sub(p, a)) != 0 {
            return false;
        }
        let s = |u: P, v: P| dot(cross(sub(v, u), sub(p, u)), nn).signum();
        let (x, y, z) = (s(a, b), s(b, c), s(c, a));
        x >= 0 && y >= 0 && z >= 0
    };
    let on_seg = |p: P, a: P, b: P| normal(a, b, p) == Z && dot(sub(a, p), sub(b, p)) <= 0;
    let in_tet = |p: P, a: P, b: P, c: P, d: P| -> bool {
        let o = |a: P, b: P, c: P, d: P| dot(normal(a, b, c), sub(d, a)).signum();
        let v = o(a, b, c, d);
        if v == 0 {
            return false;
        }
        o(p, b, c, d) * v >= 0 && o(a, p, c, d) * v >= 0 && o(a, b, p, d) * v >= 0 && o(a, b, c, p) * v >= 0
    };
    set.iter().copied().filter(|p| {
        let o: Vec<P> = set.iter().copied().filter(|q| q != p).collect();
        let m = n - 1;
        for i in 0..m {
            for j in 0..i {
                if on_seg(*p, o[i], o[j]) {
                    return false;
                }
                for k in 0..j {
                    if in_tri2(*p, o[i], o[j], o[k]) {
                        return false;
                    }
                    for l in 0..k {
                        if in_tet(*p, o[i], o[j], o[k], o[l]) {
                            return false;
                        }
                    }
                }
            }
        }
        true
    }).collect()
}

fn check_mesh(ps: &[P], mesh: &[[usize; 3]]) -> PResult {
    let mut edges: BTreeMap<(usize, usize), i64> = BTreeMap::new();
    for t in mesh {
        ensure!(t.iter().all(|i| *i < ps.len()), "triangle {t:?} refers to a point that does not exist");
        let n = normal(ps[t[0]], ps[t[1]], ps[t[2]]);
        ensure!(n != Z, "triangle {t:?} has no area");
        for (i, p) in ps.iter().enumerate() {
            ensure!(dot(n, sub(*p, ps[t[0]])) <= 0, "point {i} lies outside of the plane of triangle {t:?}");
        }
        for k in 0..3 {
            *edges.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
        }
    }
    for ((a, b), n) in &edges {
        ensure!(*n == 1 && edges.get(&(*b, *a)) == Some(&1), "the mesh is not closed: edge {a}-{b} is used {n} times, the reverse {:?} times", edges.get(&(*b, *a)));
    }
    Ok(())
}

/// The flat mesh of a planar polygon has two sides: each is a triangulation of the polygon without overlaps, so that its
/// area is that of the points' hull.
fn check_flat(ps: &[P], mesh: &[[usize; 3]]) -> PResult {
    let n0 = {
        ensure!(!mesh.is_empty() && mesh[0].iter().all(|i| *i < ps.len()), "bad mesh");
        normal(ps[mesh[0][0]], ps[mesh[0][1]], ps[mesh[0][2]])
    };
    ensure!(n0 != Z, "triangle {:?} has no area", mesh[0]);
    // areas relative to n0: dot(normal, n0) is proportional to the signed area in the common plane
    let area = hull_area(ps, n0);
    for side in [1i128, -1] {
        let mut edges: BTreeMap<(usize, usize), i64> = BTreeMap::new();
        let mut sum = 0;
        for t in mesh {
            ensure!(t.iter().all(|i| *i < ps.len()), "triangle {t:?} refers to a point that does not exist");
            let d = dot(normal(ps[t[0]], ps[t[1]], ps[t[2]]), n0) * side;
            ensure!(d != 0, "triangle {t:?} has no area");
            if d > 0 {
                sum += d;
                for k in 0..3 {
                    *edges.entry((t[k], t[(k + 1) % 3])).or_insert(0) += 1;
                }
            }
        }
        ensure!(sum == area, "the triangles of one side of the flat mesh cover an area of {sum}, the hull has {area}");
        for ((a, b), n) in &edges {
            ensure!(*n == 1, "edge {a}-{b} is used {n} times on one side of the flat mesh");
            if !edges.contains_key(&(*b, *a)) {
                for (i, p) in ps.iter().enumerate() {
                    let d = dot(cross(sub(ps[*b], ps[*a]), sub(*p, ps[*a])), n0) * side;
                    ensure!(d >= 0, "point {i} lies outside of the border edge {a}-{b} of the flat mesh");
                }
            }
        }
    }
    Ok(())
}

/// Area of the convex hull of coplanar points, in units of dot(normal, n0) (twice the area times |n0|): Jarvis march.
fn hull_area(ps: &[P], n0: [i128; 3]) -> i128 {
    let pts: Vec<P> = ps.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
    let start = pts[0]; // lexicographic minimum: extreme
    let turn = |a: P, b: P, c: P| dot(normal(a, b, c), n0);
    let mut poly = vec![start];
    loop {
        let cur = *poly.last().unwrap();
        let mut next = *pts.iter().find(|p| **p != cur).unwrap();
        for p in &pts {
            let t = turn(cur, next, *p);
            let far = |q: P| dot(sub(q, cur), sub(q, cur));
            if *p != cur && (t < 0 || t == 0 && far(*p) > far(next)) {
                next = *p;
            }
        }
        if next == start {
            break;
        }
        poly.push(next);
        assert!(poly.len() <= pts.len());
    }
    (1..poly.len() - 1).map(|i| turn(poly[0], poly[i], poly[i + 1])).sum()
}

fn gen_points(g: &mut Gen) -> Vec<P> {
    let mode = g.range(0, 7);
    let n = if mode < 4 { g.range(0, 12) } else if mode < 7 { g.small(40) } else if g.chance(1, 100) { g.range(150, 1100) } else { g.small(150) };
    let hi = match mode {
        0 => 1,
        1 => 2,
        2 | 3 => 5,
        _ => *g.choose(&[6i64, 30, 1000, 30000]),
    };
    let (o, u, v) = (gp(g, 5), gp(g, 3), gp(g, 3));
    let dim = g.range(0, 9);
    let near = g.chance(1, 4);
    let mut ps: Vec<P> = vec![];
    for _ in 0..n {
        let p = if near && !ps.is_empty() && g.chance(1, 3) {
            // right beside an earlier point, which the other points may be far from
            let q = *g.choose(&ps);
            let d = gp(g, 1);
            [0, 1, 2].map(|i| q[i] + d[i])
        } else {
            gen_point(g, dim, hi, o, u, v)
        };
        ps.push(p);
    }
    ps
}

fn gen_point(g: &mut Gen, dim: usize, hi: i64, o: P, u: P, v: P) -> P {
    match dim {
        0 => { let s = g.irange(-6, 6); [0, 1, 2].map(|i| o[i] + s * u[i]) }
        1 | 2 => { let (s, t) = (g.irange(-4, 4), g.irange(-4, 4)); [0, 1, 2].map(|i| o[i] + s * u[i] + t * v[i]) }
        _ => gp(g, hi),
    }
}

fn gp(g: &mut Gen, hi: i64) -> P {
    [0, 1, 2].map(|_| g.irange(-hi, hi))
}

fn a03(g: &mut Gen) -> PResult {
    let ps = gen_points(g);
    let kind = gen_kind(g);
    let pos_type = if g.chance(1, 6) { *g.choose(&[DT::Vec3i32, DT::Vec3f32]) } else { DT::Vec3f64 };
    let layout = gen_cloud_layout(g, pos_type, 2);
    let scale = if pos_type == DT::Vec3f64 { (2.0f64).powi(*g.choose(&[0, -2, 10, -10, -20, 20, -60, 60])) } else { 1.0 };
    let mut m = Model::new(&layout);
    m.pts = m.gen_pts(g, ps.len());
    let a = attr_index(&m, "Position3D");
    for (p, v) in m.pts.iter_mut().zip(&ps) {
        p[a] = ref_cast(DT::Vec3f64, pos_type, &vec3_bytes(v.map(|c| c as f64 * scale))).unwrap();
    }
    g.note(|| format!("{kind:?} {pos_type:?}, scale {scale:e}, points {ps:?}"));
    let dim = dimension(&ps);
    let b = make_buf(kind, &m, 0x33);
    let mesh = on_buf!(&b, b => convex_hull_as_triangle_mesh(b)).map(|v| v.iter().map(|t| [t.x, t.y, t.z]).collect::<Vec<_>>());
    let points = on_buf!(&b, b => convex_hull_as_points(b));
    match (dim, &mesh) {
        (0..=2, Ok(t)) => return fail(format!("points that do not span a plane have the mesh {t:?}")),
        (0..=2, Err(_)) => {}
        (_, Err(e)) => return fail(format!("no mesh: {e}")),
        (4, Ok(t)) => {
            check_mesh(&ps, t)?;
            ensure!(!t.is_empty(), "the mesh is empty");
        }
        (_, Ok(t)) => check_flat(&ps, t)?,
    }
    let mut uniq = points.clone();
    uniq.sort_unstable();
    uniq.dedup();
    ensure!(uniq.len() == points.len() && points.iter().all(|i| *i < ps.len()), "the hull's points {points:?} are not distinct input points");
    if let Ok(t) = &mesh {
        let corners: BTreeSet<usize> = t.iter().flatten().copied().collect();
        ensure!(corners == points.iter().copied().collect(), "the hull's points {points:?} are not the corners of its triangles {t:?}");
    }
    if ps.len() <= 16 || dim == 4 && ps.len() <= 20 {
        let hull: BTreeSet<P> = points.iter().map(|i| ps[*i]).collect();
        for e in extreme(&ps) {
            ensure!(hull.contains(&e), "extreme point {e:?} is not among the hull's points {hull:?}");
        }
    }
    g.class(["no points", "one position", "collinear", "coplanar", "spans space"][dim]);
    if dim == 4 {
        g.mark();
    }
    Ok(())
}

pub fn a03_prop() -> Property {
    Property { id: "A03", rule: "a case is one point set; non-trivial: it spans space", sections: vec![sec("hull", a03, 450_000, 40)] }
}

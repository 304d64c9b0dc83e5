//! Alignment and bit utilities (M01), bounding boxes and component-wise minimum/maximum (M02).

use super::sec;
use super::slices::refused;
use crate::ensure;
use crate::gen::*;
use crate::runner::Property;
use pasture_core::math::*;
use pasture_core::nalgebra::{Point3, Vector3};

/// An integer of the given width, biased towards 0, the maximum, powers of two and multiples of `near`.
fn gen_int(g: &mut Gen, bits: u32, near: u128) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let raw = |g: &mut Gen| ((g.draw(u64::MAX) as u128) << 64 | g.draw(u64::MAX) as u128) & max;
    let off = g.draw(4) as u128;
    let base = match g.range(0, 6) {
        0 => off,
        1 => raw(g) & 0xFF,
        2 => max - off,
        3 => (1u128 << g.range(0, bits as usize - 1)).wrapping_add(off).wrapping_sub(2),
        4 => raw(g),
        5 => raw(g) >> g.range(0, bits as usize - 1),
        _ => {
            // around a multiple of near, possibly the last one that fits
            let near = near.max(1);
            let k = if g.chance(1, 2) { max / near } else { (raw(g) % (max / near)).max(1) };
            (k * near).wrapping_add(off).wrapping_sub(2)
        }
    };
    base & max
}

macro_rules! check_align {
    ($g:expr, $t:ty, $bits:expr) => {{
        let g: &mut Gen = $g;
        let a = if g.chance(2, 3) { 1u128 << g.range(0, $bits as usize - 1) } else { gen_int(g, $bits, 1) };
        let v = gen_int(g, $bits, a);
        g.note(|| format!("{v}_{}.align_to({a})", stringify!($t)));
        let max = <$t>::MAX as u128;
        if a == 0 {
            let r = (v as $t).align_to(0);
            ensure!(r as u128 == v, "{v}_{}.align_to(0) is {r}", stringify!($t));
            return Ok(());
        }
        let expected = if v % a == 0 { Some(v) } else { v.checked_add(a - v % a).filter(|e| *e <= max) };
        match expected {
            Some(e) => {
                let r = (v as $t).align_to(a as $t);
                ensure!(r as u128 == e, "{v}_{}.align_to({a}) is {r}, expected {e}", stringify!($t));
                if v % a != 0 {
                    g.mark();
                    g.class("rounded up");
                } else {
                    g.class("already a multiple");
                }
                if v > max / 2 {
                    g.class("upper half of the range");
                }
            }
            None => g.class("result does not fit"),
        }
        Ok(())
    }};
}

fn m01_align(g: &mut Gen) -> PResult {
    match g.range(0, 5) {
        0 => check_align!(g, u8, 8),
        1 => check_align!(g, u16, 16),
        2 => check_align!(g, u32, 32),
        3 => check_align!(g, u64, 64),
        4 => check_align!(g, usize, usize::BITS),
        _ => check_align!(g, u128, 128),
    }
}

fn m01_bits(g: &mut Gen) -> PResult {
    let v = gen_int(g, 64, 1) as u64;
    g.note(|| format!("{v:#x}"));
    let e = expand_bits_by_3(v);
    let r = reverse_bits(v);
    let mut ee = 0u64;
    for i in 0..21 {
        ee |= ((v >> i) & 1) << (3 * i);
    }
    let mut rr = 0u64;
    for i in 0..64 {
        rr |= ((v >> i) & 1) << (63 - i);
    }
    ensure!(e == ee, "expand_bits_by_3({v:#x}) is {e:#x}, expected {ee:#x}");
    ensure!(r == rr, "reverse_bits({v:#x}) is {r:#x}, expected {rr:#x}");
    if v != 0 {
        g.mark();
    }
    Ok(())
}

pub fn m01() -> Property {
    Property {
        id: "M01",
        rule: "a case is one value (and alignment); non-trivial: the value is not 0 and, for alignments, is not a multiple already",
        sections: vec![sec("align", m01_align, 3_000_000, 40), sec("bits", m01_bits, 600_000, 40)],
    }
}

/// The component types boxes are used with.
trait Comp: pasture_core::nalgebra::Scalar + pasture_core::nalgebra::ClosedSub + PartialOrd + Copy + std::fmt::Debug {
    fn from_grid(i: i64, scale: u32) -> Self;
}
macro_rules! comp_int { ($($t:ty),*) => { $(impl Comp for $t { fn from_grid(i: i64, scale: u32) -> Self { (i as $t) * (1 << scale) as $t } })* } }
comp_int!(i16, i32, i64);
impl Comp for f32 {
    fn from_grid(i: i64, scale: u32) -> Self {
        i as f32 / (1u32 << scale) as f32
    }
}
impl Comp for f64 {
    fn from_grid(i: i64, scale: u32) -> Self {
        i as f64 / (1u64 << scale) as f64
    }
}

type P3 = [i64; 3];

fn pt<T: Comp>(p: P3, s: u32) -> Point3<T> {
    Point3::new(T::from_grid(p[0], s), T::from_grid(p[1], s), T::from_grid(p[2], s))
}

fn gen_p3(g: &mut Gen, hi: i64) -> P3 {
    [g.irange(-hi, hi), g.irange(-hi, hi), g.irange(-hi, hi)]
}

/// A box on a small grid; degenerate boxes are common.
fn gen_box(g: &mut Gen, hi: i64) -> (P3, P3) {
    let (a, b) = (gen_p3(g, hi), gen_p3(g, hi));
    let lo = [a[0].min(b[0]), a[1].min(b[1]), a[2].min(b[2])];
    let up = [a[0].max(b[0]), a[1].max(b[1]), a[2].max(b[2])];
    (lo, up)
}

fn inside(b: &(P3, P3), p: &P3) -> bool {
    (0..3).all(|i| b.0[i] <= p[i] && p[i] <= b.1[i])
}

fn boxes<T: Comp>(g: &mut Gen) -> PResult {
    let s = g.range(0, 3) as u32;
    let hi = *g.choose(&[2i64, 3, 40]);
    let (a, b) = (gen_box(g, hi), gen_box(g, hi));
    let p = gen_p3(g, hi + 1);
    g.note(|| format!("{} scale {s}: boxes {a:?} {b:?} point {p:?}", std::any::type_name::<T>()));
    let mk = |x: &(P3, P3)| AABB::<T>::from_min_max(pt(x.0, s), pt(x.1, s));
    let (ba, bb) = (mk(&a), mk(&b));
    ensure!(*ba.min() == pt::<T>(a.0, s) && *ba.max() == pt::<T>(a.1, s), "from_min_max does not keep its corners: {ba:?}");
    ensure!(AABB::from_min_max_unchecked(pt::<T>(a.0, s), pt(a.1, s)) == ba, "from_min_max_unchecked differs from from_min_max");
    let e = ba.extent();
    for i in 0..3 {
        ensure!(e[i] == T::from_grid(a.1[i] - a.0[i], s), "extent of {ba:?} is {e:?}");
    }
    ensure!(ba.contains(&pt(p, s)) == inside(&a, &p), "{ba:?} contains {p:?} is {}", ba.contains(&pt(p, s)));
    // corners and their neighbours
    for i in 0..3 {
        for (c, d) in [(a.0, -1), (a.1, 1)] {
            let mut q = c;
            ensure!(ba.contains(&pt(q, s)), "{ba:?} does not contain its corner");
            q[i] += d;
            ensure!(!ba.contains(&pt(q, s)), "{ba:?} contains {q:?}");
        }
    }
    let meets = (0..3).all(|i| a.0[i].max(b.0[i]) <= a.1[i].min(b.1[i]));
    ensure!(ba.intersects(&bb) == meets && bb.intersects(&ba) == meets, "{ba:?} intersects {bb:?}: {}, {} in reverse, expected {meets}", ba.intersects(&bb), bb.intersects(&ba));
    let lo = [0, 1, 2].map(|i| a.0[i].min(b.0[i]));
    let up = [0, 1, 2].map(|i| a.1[i].max(b.1[i]));
    ensure!(AABB::union(&ba, &bb) == mk(&(lo, up)) && AABB::union(&bb, &ba) == mk(&(lo, up)), "union of {ba:?} and {bb:?} is {:?}", AABB::union(&ba, &bb));
    let lo = [0, 1, 2].map(|i| a.0[i].min(p[i]));
    let up = [0, 1, 2].map(|i| a.1[i].max(p[i]));
    let ext = AABB::extend_with_point(&ba, &pt(p, s));
    ensure!(ext == mk(&(lo, up)), "{ba:?} extended with {p:?} is {ext:?}");
    // inverted on some axes: refused
    let mut inv = a;
    let axis = g.range(0, 2);
    inv.0[axis] = inv.1[axis] + 1 + g.draw(3) as i64;
    refused("from_min_max with minimum above maximum", || {
        AABB::<T>::from_min_max(pt(inv.0, s), pt(inv.1, s));
    })?;
    g.class(if meets { "boxes meet" } else { "boxes apart" });
    if a != b {
        g.mark();
    }
    Ok(())
}

fn m02_boxes(g: &mut Gen) -> PResult {
    match g.range(0, 4) {
        0 => boxes::<f64>(g),
        1 => boxes::<f32>(g),
        2 => boxes::<i32>(g),
        3 => boxes::<i64>(g),
        _ => boxes::<i16>(g),
    }
}

fn m02_float(g: &mut Gen) -> PResult {
    let s = g.range(0, 4) as u32;
    let hi = *g.choose(&[3i64, 100, 5000]);
    let off = if g.chance(1, 2) { g.irange(-100000, 100000) } else { 0 };
    let (mut lo, mut up) = gen_box(g, hi);
    for i in 0..3 {
        lo[i] += off;
        up[i] += off;
    }
    g.note(|| format!("box {lo:?} {up:?} scale {s}"));
    let half = |i: i64| i as f64 / 2.0 / (1u64 << s) as f64;
    let b = AABB::<f64>::from_min_max(pt(lo, s), pt(up, s));
    let b32 = AABB::<f32>::from_min_max(pt(lo, s), pt(up, s));
    let c = Point3::new(half(lo[0] + up[0]), half(lo[1] + up[1]), half(lo[2] + up[2]));
    ensure!(b.center() == c, "center of {b:?} is {:?}", b.center());
    ensure!(b32.center() == Point3::new(c.x as f32, c.y as f32, c.z as f32), "center of {b32:?} is {:?}", b32.center());
    let side = (0..3).map(|i| up[i] - lo[i]).max().unwrap();
    let h = Vector3::new(half(side), half(side), half(side));
    let cube = AABB::from_min_max(c - h, c + h);
    ensure!(b.as_cubic() == cube, "cubic form of {b:?} is {:?}", b.as_cubic());
    let q = b32.as_cubic();
    for i in 0..3 {
        ensure!(q.min()[i] as f64 == cube.min()[i] && q.max()[i] as f64 == cube.max()[i], "cubic form of {b32:?} is {q:?}");
    }
    // approximate containment
    let eps = g.range(0, 6) as i64;
    let p = [0, 1, 2].map(|i| match g.range(0, 4) {
        0 => lo[i] - eps,
        1 => lo[i] - eps - 1,
        2 => up[i] + eps,
        3 => up[i] + eps + 1,
        _ => (lo[i] + up[i]) / 2,
    });
    let want = (0..3).all(|i| lo[i] - eps <= p[i] && p[i] <= up[i] + eps);
    let got = b.contains_approx(&pt(p, s), f64::from_grid(eps, s));
    ensure!(got == want, "{b:?} contains {p:?} up to {eps}: {got}");
    g.class(if want { "approximately inside" } else { "approximately outside" });
    // box of a point collection
    let n = g.small(12);
    let pts: Vec<P3> = (0..n).map(|_| gen_p3(g, hi).map(|c| c + off)).collect();
    g.note(|| format!("points {pts:?}"));
    if n == 0 {
        refused("the box of no points", || {
            let _: AABB<f64> = Vec::<Point3<f64>>::new().into_iter().collect();
        })?;
    } else {
        let l = [0, 1, 2].map(|i| pts.iter().map(|p| p[i]).min().unwrap());
        let u = [0, 1, 2].map(|i| pts.iter().map(|p| p[i]).max().unwrap());
        let bb: AABB<f64> = pts.iter().map(|p| pt::<f64>(*p, s)).collect();
        ensure!(bb == AABB::from_min_max(pt(l, s), pt(u, s)), "box of {pts:?} is {bb:?}");
        let bv: AABB<f64> = pts.iter().map(|p| pt::<f64>(*p, s).coords).collect();
        ensure!(bv == bb, "box of vectors is {bv:?}, of points {bb:?}");
        if n >= 2 {
            g.mark();
        }
        if (0..3).all(|i| u[i] < 0) {
            g.class("all coordinates negative");
        }
    }
    let json = serde_json::to_string(&b).expect("serialize");
    let back: AABB<f64> = serde_json::from_str(&json).expect("deserialize");
    ensure!(back == b, "{b:?} serialized and back is {back:?}");
    Ok(())
}

fn mm<T: MinMax + PartialOrd + Copy + std::fmt::Debug>(a: T, b: T) -> PResult {
    let (lo, hi) = if a < b { (a, b) } else { (b, a) };
    ensure!(a.infimum(&b) == lo && b.infimum(&a) == lo, "infimum of {a:?} and {b:?} is {:?} / {:?}", a.infimum(&b), b.infimum(&a));
    ensure!(a.supremum(&b) == hi && b.supremum(&a) == hi, "supremum of {a:?} and {b:?} is {:?} / {:?}", a.supremum(&b), b.supremum(&a));
    Ok(())
}

fn mm_vec<T: MinMax + PartialOrd + Copy + std::fmt::Debug + pasture_core::nalgebra::Scalar>(a: [T; 3], b: [T; 3]) -> PResult {
    for i in 0..3 {
        mm(a[i], b[i])?;
    }
    let (va, vb) = (Vector3::new(a[0], a[1], a[2]), Vector3::new(b[0], b[1], b[2]));
    let (inf, sup) = (va.infimum(&vb), va.supremum(&vb));
    for i in 0..3 {
        ensure!(inf[i] == a[i].infimum(&b[i]) && sup[i] == a[i].supremum(&b[i]), "infimum {inf:?} and supremum {sup:?} of {a:?} and {b:?}");
    }
    Ok(())
}

fn m02_minmax(g: &mut Gen) -> PResult {
    macro_rules! ints {
        ($t:ty, $bits:expr) => {{
            let v: Vec<$t> = (0..6).map(|_| gen_int(g, $bits, 1) as $t).collect();
            g.note(|| format!("{} {v:?}", stringify!($t)));
            if v[0] != v[3] { g.mark(); }
            mm_vec([v[0], v[1], v[2]], [v[3], v[4], v[5]])
        }};
    }
    macro_rules! floats {
        ($t:ty) => {{
            let v: Vec<$t> = (0..6).map(|_| match g.range(0, 4) {
                0 => g.irange(-3, 3) as $t,
                1 => <$t>::MAX,
                2 => <$t>::MIN,
                3 => *g.choose(&[<$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::MIN_POSITIVE, <$t>::EPSILON]),
                _ => g.irange(-1000000, 1000000) as $t / 1024.0,
            }).collect();
            g.note(|| format!("{} {v:?}", stringify!($t)));
            if v[0] != v[3] { g.mark(); }
            mm_vec([v[0], v[1], v[2]], [v[3], v[4], v[5]])
        }};
    }
    match g.range(0, 10) {
        0 => ints!(u8, 8),
        1 => ints!(u16, 16),
        2 => ints!(u32, 32),
        3 => ints!(u64, 64),
        4 => ints!(i8, 8),
        5 => ints!(i16, 16),
        6 => ints!(i32, 32),
        7 => ints!(i64, 64),
        8 => floats!(f32),
        9 => floats!(f64),
        _ => {
            let v: Vec<bool> = (0..6).map(|_| g.chance(1, 2)).collect();
            mm_vec([v[0], v[1], v[2]], [v[3], v[4], v[5]])
        }
    }
}

pub fn m02() -> Property {
    Property {
        id: "M02",
        rule: "a case is one pair of boxes and a point, one box with a point collection, or one pair of values/vectors; non-trivial: the two boxes/values differ, or the collection has at least two points",
        sections: vec![sec("boxes", m02_boxes, 1_500_000, 40), sec("float boxes", m02_float, 200_000, 40), sec("minmax", m02_minmax, 200_000, 40)],
    }
}

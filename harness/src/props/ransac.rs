//! RANSAC segmentation (A04). Positions are small integers, so every inlier decision is checked with exact integer
//! arithmetic; the choice of samples is the code's own random choice.

use super::clouds::*;
use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use crate::{ensure, on_buf};
use pasture_algorithms::segmentation::*;
use std::sync::OnceLock;

type P = [i64; 3];
type V = [i128; 3];

fn sub(a: P, b: P) -> V {
    [0, 1, 2].map(|i| (a[i] - b[i]) as i128)
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: V, b: V) -> i128 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
const Z: V = [0, 0, 0];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Side {
    In,
    Out,
    /// exactly at the threshold, where only models along an axis are free of rounding
    Tie,
}

/// Twice the threshold as an integer keeps everything exact: thresholds are multiples of 1/2.
fn side(num: i128, den: i128, thr2: i128, exact: bool) -> Side {
    // distance^2 = num / den, threshold = thr2 / 2
    let (l, r) = (4 * num, thr2 * thr2 * den);
    if l == r && !exact {
        Side::Tie
    } else if l < r {
        Side::In
    } else {
        Side::Out
    }
}

fn line_sides(ps: &[P], a: P, b: P, thr2: i128) -> Vec<Side> {
    let d = sub(b, a);
    let axis = d.iter().filter(|c| **c != 0).count() == 1;
    ps.iter().map(|p| { let c = cross(d, sub(*p, a)); side(dot(c, c), dot(d, d), thr2, axis || thr2 == 0) }).collect()
}

fn plane_sides(ps: &[P], a: P, b: P, c: P, thr2: i128) -> Vec<Side> {
    let n = cross(sub(b, a), sub(c, a));
    let axis = n.iter().filter(|c| **c != 0).count() == 1;
    ps.iter().map(|p| { let e = dot(n, sub(*p, a)); side(e * e, dot(n, n), thr2, axis || thr2 == 0) }).collect()
}

/// Does the inlier list agree with the exact classification?
fn agrees(sides: &[Side], inl: &[usize]) -> bool {
    let mut k = 0;
    for (i, s) in sides.iter().enumerate() {
        let listed = k < inl.len() && inl[k] == i;
        k += listed as usize;
        if *s == Side::In && !listed || *s == Side::Out && listed {
            return false;
        }
    }
    k == inl.len()
}

/// All numbers in the text between `field:` and the next field.
fn numbers(text: &str, field: &str) -> Option<Vec<f64>> {
    let at = text.find(&format!("{field}: "))? + field.len() + 2;
    let rest = &text[at..];
    let end = rest.find(|c: char| c.is_ascii_alphabetic() && c != 'e' && c != 'N' && c != 'a').unwrap_or(rest.len());
    let v: Vec<f64> = rest[..end].split(|c: char| !(c.is_ascii_digit() || "+-.eNa".contains(c))).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect();
    Some(v)
}

fn pools() -> &'static [rayon::ThreadPool] {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    P.get_or_init(|| [1, 2, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect())
}

/// Runs one of the four algorithms; returns the model's Debug text and the inliers.
fn run(b: &Buf, plane: bool, pool: Option<usize>, thr: f64, iters: usize) -> Result<(String, Vec<usize>), String> {
    catching(|| {
        on_buf!(b, b => match (plane, pool) {
            (true, Some(p)) => pools()[p].install(|| { let (m, i) = ransac_plane_par(b, thr, iters); (format!("{m:?}"), i) }),
            (true, None) => { let (m, i) = ransac_plane_serial(b, thr, iters); (format!("{m:?}"), i) }
            (false, Some(p)) => pools()[p].install(|| { let (m, i) = ransac_line_par(b, thr, iters); (format!("{m:?}"), i) }),
            (false, None) => { let (m, i) = ransac_line_serial(b, thr, iters); (format!("{m:?}"), i) }
        })
    })
}

/// The returned model, read from its Debug text, as cloud points that determine it. Ok(None): a model without extent.
fn model_points(ps: &[P], plane: bool, text: &str) -> Result<Option<Vec<P>>, Failure> {
    if !plane {
        let (Some(f), Some(s)) = (numbers(text, "first"), numbers(text, "second")) else { return Ok(None) };
        let find = |v: &[f64]| ps.iter().copied().find(|p| v.len() == 3 && (0..3).all(|i| v[i] == p[i] as f64));
        let (Some(a), Some(b)) = (find(&f), find(&s)) else { return fail(format!("the line does not join two points of the cloud: {text}")) };
        return Ok(if a == b { None } else { Some(vec![a, b]) });
    }
    let c: Vec<f64> = ["a", "b", "c", "d"].iter().filter_map(|k| numbers(text, k)).filter_map(|v| v.first().copied()).collect();
    if c.len() != 4 {
        return fail(format!("the plane has no numbers: {text}"));
    }
    let norm = (c[0] * c[0] + c[1] * c[1] + c[2] * c[2]).sqrt();
    if norm == 0.0 || norm.is_nan() {
        return Ok(None);
    }
    let on: Vec<P> = ps.iter().copied().filter(|p| ((0..3).map(|i| c[i] * p[i] as f64).sum::<f64>() + c[3]).abs() / norm < 1e-9).collect();
    let a = on.first().copied();
    let b = a.and_then(|a| on.iter().copied().find(|p| *p != a));
    let d = b.and_then(|b| on.iter().copied().find(|p| cross(sub(b, a.unwrap()), sub(*p, a.unwrap())) != Z));
    match (a, b, d) {
        (Some(a), Some(b), Some(d)) => Ok(Some(vec![a, b, d])),
        _ => fail(format!("the plane does not pass through three points of the cloud: {text}")),
    }
}

/// The least and greatest possible number of inliers of the best sample (they differ only by ties), and whether a sample
/// without extent exists.
fn best_sample(ps: &[P], plane: bool, thr2: i128) -> (usize, usize, bool) {
    let (mut lo, mut hi, mut degenerate) = (0, 0, false);
    let mut add = |s: Vec<Side>| {
        lo = lo.max(s.iter().filter(|x| **x == Side::In).count());
        hi = hi.max(s.iter().filter(|x| **x != Side::Out).count());
    };
    for i in 0..ps.len() {
        for j in 0..i {
            if !plane {
                if ps[i] == ps[j] { degenerate = true } else { add(line_sides(ps, ps[i], ps[j], thr2)) }
                continue;
            }
            for k in 0..j {
                if cross(sub(ps[j], ps[i]), sub(ps[k], ps[i])) == Z { degenerate = true } else { add(plane_sides(ps, ps[i], ps[j], ps[k], thr2)) }
            }
        }
    }
    (lo, hi, degenerate)
}

fn check_result(ps: &[P], plane: bool, thr2: i128, text: &str, inl: &[usize], what: &str) -> Result<bool, Failure> {
    ensure!(inl.windows(2).all(|w| w[0] < w[1]) && inl.iter().all(|i| *i < ps.len()), "{what}: the inliers {inl:?} are not ascending point indices");
    let rank = numbers(text, "ranking").and_then(|v| v.first().copied());
    ensure!(rank == Some(inl.len() as f64), "{what}: the ranking of {text} is not the number of inliers {}", inl.len());
    let Some(m) = model_points(ps, plane, text)? else {
        // three points on a line or two identical points: there is no distance to such a model
        ensure!(inl.is_empty(), "{what}: {text} has no extent but inliers {inl:?}");
        return Ok(false);
    };
    let sides = if plane { plane_sides(ps, m[0], m[1], m[2], thr2) } else { line_sides(ps, m[0], m[1], thr2) };
    ensure!(agrees(&sides, inl), "{what}: the inliers of {text} are {inl:?}, by exact distances {:?}", sides.iter().enumerate().filter(|(_, s)| **s != Side::Out).map(|(i, s)| (i, *s)).collect::<Vec<_>>());
    Ok(true)
}

fn gen_thr2(g: &mut Gen) -> i128 {
    *g.choose(&[2i128, 1, 3, 4, 6, 10, 0, 20, 400, 2_000_000])
}

fn gp(g: &mut Gen, hi: i64) -> P {
    [0, 1, 2].map(|_| g.irange(-hi, hi))
}

fn gen_points(g: &mut Gen, n: usize) -> Vec<P> {
    let hi = *g.choose(&[1i64, 2, 4, 20, 100]);
    let (o, u, v) = (gp(g, 5), gp(g, 3), gp(g, 3));
    let dim = g.range(0, 5);
    (0..n).map(|_| {
        let noise = g.chance(1, 4);
        match dim {
            _ if noise => gp(g, hi),
            0 => { let s = g.irange(-6, 6); [0, 1, 2].map(|i| o[i] + s * u[i]) }
            1 | 2 => { let (s, t) = (g.irange(-4, 4), g.irange(-4, 4)); [0, 1, 2].map(|i| o[i] + s * u[i] + t * v[i]) }
            _ => gp(g, hi),
        }
    }).collect()
}

fn to_buf(g: &mut Gen, ps: &[P]) -> Buf {
    let kind = gen_kind(g);
    let layout = gen_cloud_layout(g, DT::Vec3f64, 2);
    let m = cloud_with(g, &layout, &ps.iter().map(|p| p.map(|c| c as f64)).collect::<Vec<_>>());
    make_buf(kind, &m, 0x11)
}

fn gen_algo(g: &mut Gen) -> (bool, Option<usize>) {
    let plane = g.chance(1, 2);
    let pool = if g.chance(1, 2) { Some(g.range(0, 2)) } else { None };
    (plane, pool)
}

fn name(plane: bool, pool: Option<usize>) -> String {
    format!("ransac_{}_{}", if plane { "plane" } else { "line" }, if pool.is_some() { "par" } else { "serial" })
}

/// Any cloud, threshold, number of iterations: the result is a model of the cloud and exactly its inliers.
fn a04_valid(g: &mut Gen) -> PResult {
    let (plane, pool) = gen_algo(g);
    let n = if g.chance(1, 10) { g.range(0, 3) } else { g.range(2, 3) + if g.chance(1, 40) { g.range(90, 1100) } else { g.small(80) } };
    let ps = gen_points(g, n);
    let (thr2, iters) = (gen_thr2(g), 1 + g.small(40));
    let b = to_buf(g, &ps);
    let what = name(plane, pool);
    g.note(|| format!("{what} threshold {} iterations {iters} points {ps:?}", thr2 as f64 / 2.0));
    let r = run(&b, plane, pool, thr2 as f64 / 2.0, iters);
    if n < 2 + plane as usize {
        ensure!(r.is_err(), "{what}: {n} points are not refused");
        g.class("too few points");
        return Ok(());
    }
    let (text, inl) = match r {
        Ok(v) => v,
        Err(e) => return fail(format!("{what}: unexpected {e}")),
    };
    if check_result(&ps, plane, thr2, &text, &inl, &what)? {
        if inl.len() < n && thr2 > 0 {
            g.mark();
        }
    } else {
        ensure!(n > 20 || best_sample(&ps, plane, thr2).2, "{what}: {text} is not a sample of the cloud");
        g.class("sample without extent");
    }
    Ok(())
}

/// Few points and so many iterations that every sample is drawn: the best sample's score is returned.
fn a04_best(g: &mut Gen) -> PResult {
    let (plane, pool) = gen_algo(g);
    let n = g.range(2 + plane as usize, 5);
    let ps = gen_points(g, n);
    let thr2 = gen_thr2(g);
    let b = to_buf(g, &ps);
    let what = name(plane, pool);
    g.note(|| format!("{what} threshold {} points {ps:?}", thr2 as f64 / 2.0));
    // at most 10 samples: one of them is never drawn with probability below 1e-17
    let (text, inl) = match run(&b, plane, pool, thr2 as f64 / 2.0, 400) {
        Ok(v) => v,
        Err(e) => return fail(format!("{what}: unexpected {e}")),
    };
    check_result(&ps, plane, thr2, &text, &inl, &what)?;
    let (lo, hi, _) = best_sample(&ps, plane, thr2);
    ensure!((lo..=hi).contains(&inl.len()), "{what}: {text} has {} inliers, the best sample of the cloud has {lo}", inl.len());
    if lo > 2 + plane as usize && lo < n {
        g.mark();
    }
    Ok(())
}

/// The same, called again and again from pools of several threads, so that threads meet in the selection of the best model.
fn a04_meeting(g: &mut Gen) -> PResult {
    let (plane, pool) = (g.chance(1, 2), Some(g.range(1, 2)));
    let n = g.range(3 + plane as usize, 5);
    let ps = gen_points(g, n);
    let thr2 = gen_thr2(g);
    let (lo, hi, _) = best_sample(&ps, plane, thr2);
    let b = to_buf(g, &ps);
    let what = name(plane, pool);
    g.note(|| format!("{what} threshold {} points {ps:?}", thr2 as f64 / 2.0));
    for call in 0..20 {
        let (text, inl) = match run(&b, plane, pool, thr2 as f64 / 2.0, 400) {
            Ok(v) => v,
            Err(e) => return fail(format!("{what}: unexpected {e}")),
        };
        check_result(&ps, plane, thr2, &text, &inl, &what)?;
        ensure!((lo..=hi).contains(&inl.len()), "{what}, call {call}: {text} has {} inliers, the best sample of the cloud has {lo}", inl.len());
    }
    if lo > 2 + plane as usize && lo < n {
        g.mark();
    }
    Ok(())
}

/// Every sample gives the same model: all its points are returned, even by a single iteration.
fn a04_forced(g: &mut Gen) -> PResult {
    let (plane, pool) = gen_algo(g);
    let n = 3 + g.small(60);
    let (o, mut u, mut v) = (gp(g, 50), gp(g, 4), gp(g, 4));
    if u == [0, 0, 0] {
        u = [1, 0, 0];
    }
    if cross(sub(u, [0; 3]), sub(v, [0; 3])) == Z {
        v = if u[0] != 0 { [u[1], u[0], 1 + u[2]] } else { [1, u[1], u[2]] };
    }
    if cross(sub(u, [0; 3]), sub(v, [0; 3])) == Z {
        v = [u[0], u[1] + 1, u[2] + 2];
    }
    // no three points (i, i^2) are on one line
    let mut order: Vec<i64> = (0..n as i64).map(|i| i - n as i64 / 2).collect();
    for i in (1..n).rev() {
        let j = g.range(0, i);
        order.swap(i, j);
    }
    let ps: Vec<P> = order.iter().map(|i| [0, 1, 2].map(|k| o[k] + i * u[k] + if plane { i * i * v[k] } else { 0 })).collect();
    let degenerate = plane && cross(sub(u, [0; 3]), sub(v, [0; 3])) == Z;
    let thr2 = *g.choose(&[1i128, 2, 20]);
    let b = to_buf(g, &ps);
    let what = name(plane, pool);
    g.note(|| format!("{what} threshold {} points {ps:?}", thr2 as f64 / 2.0));
    let iters = 1 + g.small(5);
    let (text, inl) = match run(&b, plane, pool, thr2 as f64 / 2.0, iters) {
        Ok(v) => v,
        Err(e) => return fail(format!("{what}: unexpected {e}")),
    };
    check_result(&ps, plane, thr2, &text, &inl, &what)?;
    if !degenerate {
        ensure!(inl.len() == n, "{what}: all {n} points are on one {}, the inliers are {inl:?}", if plane { "plane" } else { "line" });
        g.mark();
    }
    Ok(())
}

pub fn a04_prop() -> Property {
    Property {
        id: "A04",
        rule: "a case is one cloud, threshold and call; non-trivial: the model has inliers and outliers (or, in 'forced', all points fit one model)",
        sections: vec![sec("valid", a04_valid, 225_000, 40), sec("best", a04_best, 45_000, 40), sec("meeting", a04_meeting, 15_000, 15), sec("forced", a04_forced, 75_000, 40)],
    }
}

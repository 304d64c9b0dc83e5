//! Slices (B03) and refused accesses (B08).

use super::buffers::*;
use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use crate::{ensure, on_buf, with_prim};
use pasture_core::containers::*;
use pasture_core::layout::*;

pub fn refused<T>(what: &str, f: impl FnOnce() -> T) -> PResult {
    match catching(|| { f(); }) {
        Err(_) => Ok(()),
        Ok(()) => fail(format!("{what} was accepted")),
    }
}

/// A range that ends before it starts is refused or empty.
fn empty_or_refused(what: &str, f: impl FnOnce() -> usize) -> PResult {
    match catching(f) {
        Err(_) | Ok(0) => Ok(()),
        Ok(n) => fail(format!("{what} has {n} elements")),
    }
}

/// An index outside 0..n: just past the end, somewhat further, or far out (`wide` allows indices whose
/// byte offset does not fit an address).
pub fn bad_index(g: &mut Gen, n: usize) -> usize {
    match g.range(0, 7) {
        0..=3 => n + g.range(0, 2),
        4 | 5 => n + g.range(0, 40),
        6 => n + (1usize << g.range(20, 40)),
        _ => usize::MAX - g.range(0, 3),
    }
}

/// An index that wraps to a valid one when multiplied by a small size in machine arithmetic.
fn wrapping_index(g: &mut Gen, n: usize) -> usize {
    (1usize << g.range(58, 63)) + g.range(0, n)
}

/// Reading past the end must be refused by every accessor.
pub fn refuse_reads<'a, B: BorrowedBuffer<'a>>(g: &mut Gen, b: &B, m: &Model, what: &str) -> PResult {
    let n = m.len();
    let i = if g.chance(1, 8) { wrapping_index(g, n) } else { bad_index(g, n) };
    let lo = g.range(0, n);
    let hi = (n + 1 + g.small(20)).max(if g.chance(1, 8) { wrapping_index(g, n) } else { 0 });
    let a = g.range(0, m.defs.len() - 1);
    let d = &m.defs[a];
    let member = m.layout.at(a).clone();
    g.note(|| format!("{what} ({n} points): index {i}, range {lo}..{hi}, attribute {d}"));
    let mut pt = vec![0xEEu8; m.psize];
    let mut at = vec![0xEEu8; m.sizes[a]];
    refused(&format!("{what}: get_point({i}) on {n} points"), || b.get_point(i, &mut pt))?;
    refused(&format!("{what}: get_attribute({d}, {i}) on {n} points"), || b.get_attribute(d, i, &mut at))?;
    let few = (hi - lo).min(64);
    let mut pts = vec![0xEEu8; m.psize * few];
    let mut ats = vec![0xEEu8; m.sizes[a] * few];
    refused(&format!("{what}: get_point_range({lo}..{hi}) on {n} points"), || b.get_point_range(lo..hi, &mut pts))?;
    refused(&format!("{what}: get_attribute_range({d}, {lo}..{hi}) on {n} points"), || b.get_attribute_range(d, lo..hi, &mut ats))?;
    if n > 0 {
        // ends before it starts
        let hi = g.range(0, n - 1);
        let lo = g.range(hi + 1, n);
        let mut pts = vec![0xEEu8; m.psize * (lo - hi)];
        let mut ats = vec![0xEEu8; m.sizes[a] * (lo - hi)];
        empty_or_refused(&format!("{what}: get_point_range({lo}..{hi})"), || { b.get_point_range(lo..hi, &mut pts); pts.iter().filter(|x| **x != 0xEE).count() })?;
        empty_or_refused(&format!("{what}: get_attribute_range({d}, {lo}..{hi})"), || { b.get_attribute_range(d, lo..hi, &mut ats); ats.iter().filter(|x| **x != 0xEE).count() })?;
        if let Some(b) = b.as_interleaved() {
            empty_or_refused(&format!("{what}: get_point_range_ref({lo}..{hi})"), || b.get_point_range_ref(lo..hi).len())?;
        }
        if let Some(b) = b.as_columnar() {
            empty_or_refused(&format!("{what}: get_attribute_range_ref({d}, {lo}..{hi})"), || b.get_attribute_range_ref(d, lo..hi).len())?;
        }
    }
    with_prim!(d.datatype(), T => {
        refused(&format!("{what}: view_attribute({d}).at({i}) on {n} points"), || b.view_attribute::<T>(d).at(i))?;
        refused(&format!("{what}: view_attribute_with_conversion({d}).at({i}) on {n} points"), || b.view_attribute_with_conversion::<T>(d).unwrap().at(i))?;
    }, ());
    if let Some(b) = b.as_interleaved() {
        refused(&format!("{what}: get_point_ref({i}) on {n} points"), || b.get_point_ref(i).len())?;
        refused(&format!("{what}: get_point_range_ref({lo}..{hi}) on {n} points"), || b.get_point_range_ref(lo..hi).len())?;
        if n > 0 {
            refused(&format!("{what}: raw view [{i}] on {n} points"), || b.view_raw_attribute(&member)[i].len())?;
        }
    }
    if let Some(b) = b.as_columnar() {
        refused(&format!("{what}: get_attribute_ref({d}, {i}) on {n} points"), || b.get_attribute_ref(d, i).len())?;
        refused(&format!("{what}: get_attribute_range_ref({d}, {lo}..{hi}) on {n} points"), || b.get_attribute_range_ref(d, lo..hi).len())?;
        if n > 0 {
            refused(&format!("{what}: raw view [{i}] on {n} points"), || b.view_raw_attribute(&member)[i].len())?;
        }
    }
    Ok(())
}

/// Writing past the end must be refused by every accessor. The caller checks that nothing else changed.
pub fn refuse_writes<'a, B: BorrowedMutBuffer<'a>>(g: &mut Gen, b: &mut B, m: &Model, what: &str) -> PResult {
    let n = m.len();
    let i = if g.chance(1, 8) { wrapping_index(g, n) } else { bad_index(g, n) };
    let lo = g.range(n, n + 2);
    let hi = (lo + 1 + g.small(20)).max(if g.chance(1, 8) { wrapping_index(g, n) } else { 0 });
    let a = g.range(0, m.defs.len() - 1);
    let d = m.defs[a].clone();
    let member = m.layout.at(a).clone();
    g.note(|| format!("{what} ({n} points): write index {i}, range {lo}..{hi}, attribute {d}"));
    let pt = vec![0xEEu8; m.psize];
    let at = vec![0xEEu8; m.sizes[a]];
    let few = (hi - lo).min(64);
    let pts = vec![0xEEu8; m.psize * few];
    let ats = vec![0xEEu8; m.sizes[a] * few];
    refused(&format!("{what}: set_point({i}) on {n} points"), || unsafe { b.set_point(i, &pt) })?;
    refused(&format!("{what}: set_attribute({d}, {i}) on {n} points"), || unsafe { b.set_attribute(&d, i, &at) })?;
    refused(&format!("{what}: set_point_range({lo}..{hi}) on {n} points"), || unsafe { b.set_point_range(lo..hi, &pts) })?;
    refused(&format!("{what}: set_attribute_range({d}, {lo}..{hi}) on {n} points"), || unsafe { b.set_attribute_range(&d, lo..hi, &ats) })?;
    if n > 0 {
        let hi = g.range(0, n - 1);
        let lo = g.range(hi + 1, n);
        let pts = vec![0xEEu8; m.psize * (lo - hi)];
        let ats = vec![0xEEu8; m.sizes[a] * (lo - hi)];
        // (the caller checks that nothing changed)
        let _ = catching(|| unsafe { b.set_point_range(lo..hi, &pts) });
        let _ = catching(|| unsafe { b.set_attribute_range(&d, lo..hi, &ats) });
        if let Some(b) = b.as_interleaved_mut() {
            empty_or_refused(&format!("{what}: get_point_range_mut({lo}..{hi})"), || b.get_point_range_mut(lo..hi).len())?;
        } else if let Some(b) = b.as_columnar_mut() {
            empty_or_refused(&format!("{what}: get_attribute_range_mut({d}, {lo}..{hi})"), || b.get_attribute_range_mut(&d, lo..hi).len())?;
        }
        let j = g.range(0, n - 1);
        refused(&format!("{what}: swap({i}, {j}) on {n} points"), || b.swap(i, j))?;
        refused(&format!("{what}: swap({j}, {i}) on {n} points"), || b.swap(j, i))?;
    }
    refused(&format!("{what}: swap({i}, {i}) on {n} points"), || b.swap(i, i))?;
    with_prim!(d.datatype(), T => {
        refused(&format!("{what}: view_attribute_mut({d}).at({i}) on {n} points"), || b.view_attribute_mut::<T>(&d).at(i))?;
        refused(&format!("{what}: view_attribute_mut({d}).set_at({i}) on {n} points"), || b.view_attribute_mut::<T>(&d).set_at(i, bytemuck::Zeroable::zeroed()))?;
    }, ());
    if let Some(b) = b.as_interleaved_mut() {
        refused(&format!("{what}: get_point_mut({i}) on {n} points"), || b.get_point_mut(i).len())?;
        refused(&format!("{what}: get_point_range_mut({lo}..{hi}) on {n} points"), || b.get_point_range_mut(lo..hi).len())?;
        if n > 0 {
            refused(&format!("{what}: raw mutable view [{i}] on {n} points"), || b.view_raw_attribute_mut(&member)[i].len())?;
        }
    } else if let Some(b) = b.as_columnar_mut() {
        refused(&format!("{what}: get_attribute_mut({d}, {i}) on {n} points"), || b.get_attribute_mut(&d, i).len())?;
        refused(&format!("{what}: get_attribute_range_mut({d}, {lo}..{hi}) on {n} points"), || b.get_attribute_range_mut(&d, lo..hi).len())?;
        if n > 0 {
            refused(&format!("{what}: raw mutable view [{i}] on {n} points"), || b.view_raw_attribute_mut(&member)[i].len())?;
        }
    }
    Ok(())
}

fn gen_range_biased(g: &mut Gen, n: usize) -> (usize, usize) {
    match g.range(0, 5) {
        0 => (0, n),
        1 => { let a = g.range(0, n); (a, n) }
        2 => { let a = g.range(0, n); (a, a) }
        _ => gen_subrange(g, n),
    }
}

fn sub(m: &Model, lo: usize, hi: usize) -> Model {
    let mut s = m.clone();
    s.pts = m.pts[lo..hi].to_vec();
    s
}

/// `check_reads` on a slice and, one level down, on a slice of the slice.
fn b03_read(g: &mut Gen) -> PResult {
    let layout = gen_layout(g, 4, true);
    let mut m = Model::new(&layout);
    let n = g.len(25);
    m.pts = m.gen_pts(g, n);
    let kind = gen_kind(g);
    let buf = make_buf(kind, &m, 0x11);
    let (a, b) = gen_range_biased(g, n);
    let (c, d) = gen_range_biased(g, b - a);
    let (e, f) = gen_range_biased(g, d - c);
    g.note(|| format!("{kind:?} with {n} points, slice {a}..{b}, of it {c}..{d}, of it {e}..{f}"));
    let (m1, m2, m3) = (sub(&m, a, b), sub(&m, a + c, a + d), sub(&m, a + c + e, a + c + f));
    on_buf!(&buf, x => {
        let s = x.slice(a..b);
        check_reads(g, &s, &m1, "slice")?;
        refuse_reads(g, &s, &m1, "slice")?;
        let s = BufferSlice::new(x, a..b);
        check_reads(g, &s, &m1, "plain slice")?;
        refuse_reads(g, &s, &m1, "plain slice")?;
        let s2 = s.slice(c..d);
        check_reads(g, &s2, &m2, "slice of a plain slice")?;
        refuse_reads(g, &s2, &m2, "slice of a plain slice")?;
        let s3 = s2.slice(e..f);
        check_reads(g, &s3, &m3, "slice of a slice of a plain slice")?;
        let out = g.range(b - a + 1, b - a + 3);
        refused(&format!("slicing {c}..{out} of {} points", b - a), || s.slice(c..out).len())?;
        let over = g.range(n + 1, n + 3);
        refused(&format!("slicing {a}..{over} of {n} points"), || x.slice(a..over).len())?;
        if b > a {
            empty_or_refused(&format!("slicing {b}..{a} of {n} points"), || x.slice(b..a).len())?;
            empty_or_refused(&format!("a plain slice {b}..{a} of {n} points"), || BufferSlice::new(x, b..a).len())?;
        }
        if d > c {
            empty_or_refused(&format!("slicing {d}..{c} of {} points", b - a), || s.slice(d..c).len())?;
            if let Ok(s) = catching(|| s.slice(d..c)) {
                refuse_reads(g, &s, &sub(&m, a, a), "slice that ends before it starts")?;
            }
        }
    });
    macro_rules! nested { ($x:expr) => {{
        let s = $x.slice(a..b);
        let s2 = s.slice(c..d);
        check_reads(g, &s2, &m2, "slice of a slice")?;
        refuse_reads(g, &s2, &m2, "slice of a slice")?;
        let s3 = s2.slice(e..f);
        check_reads(g, &s3, &m3, "slice of a slice of a slice")?;
    }} }
    match &buf {
        Buf::V(x) => nested!(x),
        Buf::E(x) => nested!(x),
        Buf::H(_) => {}
    }
    if b > a && (a > 0 || b < n) {
        g.mark();
    }
    if b == a {
        g.class("empty slice");
    }
    Ok(())
}

fn b03_write(g: &mut Gen) -> PResult {
    let layout = gen_layout(g, 4, true);
    let mut m = Model::new(&layout);
    let n = g.len(25);
    m.pts = m.gen_pts(g, n);
    let kind = gen_kind(g);
    let mut buf = make_buf(kind, &m, 0x11);
    let before = m.pts.clone();
    for _ in 0..g.range(1, 3) {
        let (a, b) = gen_range_biased(g, n);
        let (c, d) = gen_range_biased(g, b - a);
        let depth = g.range(0, 1);
        let plain = g.chance(1, 4);
        g.note(|| format!("{kind:?} with {n} points, mutable slice {a}..{b} plain {plain} depth {depth} {c}..{d}"));
        let mut m1 = sub(&m, a, b);
        let mut m2 = sub(&m, a + c, a + d);
        let steps = g.range(1, 4);
        macro_rules! go { ($s:expr, $m:expr) => {{
            let s = $s;
            for k in 0..steps {
                mut_step(g, s, $m)?;
                check_reads(g, &*s, $m, &format!("mutable slice after step {k}"))?;
            }
            refuse_reads(g, &*s, $m, "mutable slice")?;
            refuse_writes(g, s, $m, "mutable slice")?;
            check_reads(g, &*s, $m, "mutable slice after refused writes")?;
        }} }
        macro_rules! deep { ($s:expr) => {{
            let mut s = $s;
            if depth == 0 {
                go!(&mut s, &mut m1);
            } else {
                {
                    let mut s2 = s.slice_mut(c..d);
                    go!(&mut s2, &mut m2);
                    m1.pts[c..d].clone_from_slice(&m2.pts);
                }
            }
        }} }
        if plain {
            on_buf!(&mut buf, x => deep!(BufferSliceMut::new(x, a..b)));
        } else {
            match &mut buf {
                Buf::V(x) => deep!(x.slice_mut(a..b)),
                Buf::E(x) => deep!(x.slice_mut(a..b)),
                Buf::H(x) => {
                    let mut s = x.slice_mut(a..b);
                    go!(&mut s, &mut m1);
                }
            }
        }
        m.pts[a..b].clone_from_slice(&m1.pts);
        on_buf!(&buf, x => check_reads(g, x, &m, "underlying buffer after writing through the slice"))?;
        // immutable slices of mutable slices
        let (m1, m2) = (sub(&m, a, b), sub(&m, a + c, a + d));
        on_buf!(&mut buf, x => {
            let s = BufferSliceMut::new(x, a..b);
            check_reads(g, &s, &m1, "mutable slice")?;
            let s2 = s.slice(c..d);
            check_reads(g, &s2, &m2, "slice of a mutable slice")?;
            refuse_reads(g, &s2, &m2, "slice of a mutable slice")?;
            let out = g.range(b - a + 1, b - a + 3);
            refused(&format!("slicing {c}..{out} of a mutable slice of {} points", b - a), || s.slice(c..out).len())?;
        });
        macro_rules! mixed { ($x:expr) => {{
            let s = $x.slice_mut(a..b);
            check_reads(g, &s, &m1, "mutable slice of a kind")?;
            let s2 = s.slice(c..d);
            check_reads(g, &s2, &m2, "slice of a mutable slice of a kind")?;
            refuse_reads(g, &s2, &m2, "slice of a mutable slice of a kind")?;
            let out = g.range(b - a + 1, b - a + 3);
            refused(&format!("slicing {c}..{out} of a mutable slice of {} points", b - a), || s.slice(c..out).len())?;
            if d > c {
                empty_or_refused(&format!("slicing {d}..{c} of a mutable slice of {} points", b - a), || s.slice(d..c).len())?;
            }
        }} }
        match &mut buf {
            Buf::V(x) => mixed!(x),
            Buf::E(x) => mixed!(x),
            Buf::H(_) => {}
        }
        if b > a {
            on_buf!(&mut buf, x => empty_or_refused(&format!("mutably slicing {b}..{a} of {n} points"), || x.slice_mut(b..a).len()))?;
            let (p, q) = (g.range(0, b - a), g.range(0, b - a));
            on_buf!(&mut buf, x => {
                let mut s = BufferSliceMut::new(x, a..b);
                let (p, q) = (p.max(q), p.min(q));
                if p > q {
                    empty_or_refused(&format!("slicing {p}..{q} of a mutable slice of {} points", b - a), || s.slice(p..q).len())?;
                    if let Ok(mut s) = catching(|| s.slice_mut(p..q)) {
                        ensure!(s.len() == 0, "slicing {p}..{q} mutably gives {} points", s.len());
                        refuse_writes(g, &mut s, &sub(&m, a, a), "mutable slice that ends before it starts")?;
                    }
                }
            });
            on_buf!(&buf, x => check_reads(g, x, &m, "underlying buffer after reversed ranges"))?;
        }
        let over = g.range(n + 1, n + 3);
        on_buf!(&mut buf, x => refused(&format!("mutably slicing {a}..{over} of {n} points"), || x.slice_mut(a..over).len()))?;
        if b > a && (a > 0 || b < n) && before != m.pts {
            g.mark();
        }
    }
    Ok(())
}

pub fn b03() -> Property {
    Property {
        id: "B03",
        rule: "the slice is not empty and not the whole buffer (and, when writing, contents were changed through it)",
        sections: vec![sec("read", b03_read, 60_000, 40), sec("write", b03_write, 60_000, 40)],
    }
}

// ---------------------------------------------------------------- B08

/// A definition that is not in the layout but close to one that is.
fn near_miss(g: &mut Gen, m: &Model) -> Def {
    let a = g.range(0, m.defs.len() - 1);
    let d = loop {
        let d = match g.range(0, 3) {
            0 => { let t = gen_type(g, true); def(m.defs[a].name().to_string(), t) }
            1 => def(format!("{}2", m.defs[a].name()), m.defs[a].datatype()),
            2 => def(m.defs[a].name().to_lowercase(), m.defs[a].datatype()),
            _ => def("", m.defs[a].datatype()),
        };
        if !m.defs.contains(&d) {
            break d;
        }
        if m.defs.iter().any(|x| x.name() == d.name()) {
            break def("absent attribute", d.datatype());
        }
    };
    d
}

fn b08_bounds(g: &mut Gen) -> PResult {
    let layout = gen_layout(g, 4, true);
    let mut m = Model::new(&layout);
    let n = g.len(12);
    m.pts = m.gen_pts(g, n);
    let kind = gen_kind(g);
    let mut buf = make_buf(kind, &m, 0x11);
    on_buf!(&mut buf, b => {
        refuse_reads(g, &*b, &m, "buffer")?;
        refuse_writes(g, b, &m, "buffer")?;
    });
    on_buf!(&buf, b => check_reads(g, b, &m, &format!("{kind:?} after refused accesses")))?;
    if n > 0 {
        g.mark();
    }
    Ok(())
}

fn b08_attributes(g: &mut Gen) -> PResult {
    let layout = gen_layout(g, 4, true);
    let mut m = Model::new(&layout);
    let n = g.small(6);
    m.pts = m.gen_pts(g, n);
    let kind = gen_kind(g);
    let mut buf = make_buf(kind, &m, 0x11);
    let d = near_miss(g, &m);
    let a = g.range(0, m.defs.len() - 1);
    let real = m.defs[a].clone();
    let other = *g.choose(&PRIMS);
    g.note(|| format!("{kind:?} with {n} points, absent {d}, present {real} asked as {other}"));
    let size = d.size() as usize;
    on_buf!(&mut buf, b => {
        let mut data = vec![0u8; size];
        let mut ndata = vec![0u8; size * n];
        refused(&format!("get_attribute({d})"), || b.get_attribute(&d, 0, &mut data))?;
        refused(&format!("set_attribute({d})"), || unsafe { b.set_attribute(&d, 0, &data.clone()) })?;
        refused(&format!("get_attribute_range({d})"), || b.get_attribute_range(&d, 0..n, &mut ndata))?;
        refused(&format!("set_attribute_range({d})"), || unsafe { b.set_attribute_range(&d, 0..n, &ndata.clone()) })?;
        with_prim!(d.datatype(), T => {
            refused(&format!("view_attribute({d})"), || b.view_attribute::<T>(&d).into_iter().count())?;
            refused(&format!("view_attribute_mut({d})"), || { b.view_attribute_mut::<T>(&d); })?;
            refused(&format!("transform_attribute({d})"), || b.transform_attribute::<T, _>(&d, |_, v| v))?;
        }, ());
        if other != real.datatype() {
            with_prim!(other, T => {
                refused(&format!("view_attribute::<{other}>({real})"), || b.view_attribute::<T>(&real).into_iter().count())?;
                refused(&format!("view_attribute_mut::<{other}>({real})"), || { b.view_attribute_mut::<T>(&real); })?;
                refused(&format!("transform_attribute::<{other}>({real})"), || b.transform_attribute::<T, _>(&real, |_, v| v))?;
                refused(&format!("view_attribute_with_conversion::<{other}>({real})"), || { b.view_attribute_with_conversion::<T>(&real).unwrap(); })?;
            }, ());
        }
        if let Some(b) = b.as_columnar_mut() {
            refused(&format!("get_attribute_ref({d})"), || b.get_attribute_ref(&d, 0).len())?;
            refused(&format!("get_attribute_range_ref({d})"), || b.get_attribute_range_ref(&d, 0..n).len())?;
            refused(&format!("get_attribute_mut({d})"), || b.get_attribute_mut(&d, 0).len())?;
            refused(&format!("get_attribute_range_mut({d})"), || b.get_attribute_range_mut(&d, 0..n).len())?;
        }
    });
    on_buf!(&buf, b => check_reads(g, b, &m, &format!("{kind:?} after refused accesses")))?;
    if n > 0 {
        g.mark();
    }
    Ok(())
}

/// A layout that differs from the given one in a single respect (which may still be an equal layout).
pub fn near_layout(g: &mut Gen, l: &PointLayout) -> PointLayout {
    let mut ds = defs_of(l);
    match g.range(0, 5) {
        0 => PointLayout::from_attributes(&ds),
        1 => PointLayout::from_attributes_packed(&ds, 1),
        2 => { ds.pop(); PointLayout::from_attributes(&ds) }
        3 => { ds.reverse(); PointLayout::from_attributes(&ds) }
        4 => { let k = g.range(0, ds.len() - 1); let t = gen_type(g, false); ds[k] = ds[k].with_custom_datatype(t); PointLayout::from_attributes(&ds) }
        _ => { let k = g.range(0, ds.len() - 1); let n = format!("{}x", ds[k].name()); let t = ds[k].datatype(); ds[k] = def(n, t); PointLayout::from_attributes(&ds) }
    }
}

fn b08_layouts(g: &mut Gen) -> PResult {
    let attrs = gen_attrs(g, 1, 4, false);
    let layout = gen_arrangement(g, &attrs);
    let other = near_layout(g, &layout);
    let t = g.range(0, super::types::COUNT - 1);
    let mut m = Model::new(&layout);
    let n = g.small(6);
    m.pts = m.gen_pts(g, n);
    let kind = *g.choose(&[Kind::Vector, Kind::HashMap]);
    let mut buf = make_buf(kind, &m, 0x11);
    let mut om = Model::new(&other);
    let k = g.small(5);
    om.pts = om.gen_pts(g, k);
    let okind = if other.size_of_point_entry() == 0 { Kind::Vector } else { gen_kind(g) };
    let src = make_buf(okind, &om, 0);
    let equal = same_layout(&layout, &other);
    g.note(|| format!("{kind:?} {} and {okind:?} {} with {k} points", show_layout(&layout), show_layout(&other)));
    macro_rules! appends { ($b:expr) => {{
        let b = $b;
        let mut outcomes = vec![];
        outcomes.push(("append", catching(|| on_buf!(&src, s => b.append(s)))));
        match &src {
            Buf::V(s) => outcomes.push(("append_interleaved", catching(|| b.append_interleaved(s)))),
            Buf::E(s) => outcomes.push(("append_interleaved", catching(|| b.append_interleaved(s)))),
            Buf::H(s) => outcomes.push(("append_columnar", catching(|| b.append_columnar(s)))),
        }
        for (name, r) in outcomes {
            verdict(&format!("{name} from {} into {}", show_layout(&other), show_layout(&layout)), r.is_ok(), &layout, &other)?;
            if r.is_ok() {
                m.pts.extend(om.pts.iter().cloned());
            }
        }
    }} }
    match &mut buf {
        Buf::V(b) => appends!(b),
        Buf::H(b) => appends!(b),
        Buf::E(_) => {}
    }
    // typed point views need exactly the point type's layout
    crate::with_point!(t, P => {
        let pl = P::layout();
        on_buf!(&mut buf, b => {
            let r = catching(|| { b.view::<P>(); });
            verdict("view", r.is_ok(), &pl, &layout)?;
            let r = catching(|| { b.view_mut::<P>(); });
            verdict("mutable view", r.is_ok(), &pl, &layout)?;
        });
        // near misses of the point type's own layout
        let near = near_layout(g, &pl);
        let mut nm = Model::new(&near);
        nm.pts = nm.gen_pts(g, 2);
        let nkind = if near.size_of_point_entry() == 0 { Kind::Vector } else { gen_kind(g) };
        if near.size_of_point_entry() == 0 { nm.pts.clear(); }
        let mut nb = make_buf(nkind, &nm, 0);
        let fits = same_layout(&pl, &near);
        on_buf!(&mut nb, b => {
            let r = catching(|| { b.view::<P>(); });
            verdict("view", r.is_ok(), &pl, &near)?;
            let r = catching(|| { b.view_mut::<P>(); });
            verdict("mutable view", r.is_ok(), &pl, &near)?;
        });
        if !fits { g.class("near miss of a point type"); }
    });
    on_buf!(&buf, b => check_reads(g, b, &m, "after refused accesses"))?;
    if !equal && (n > 0 || k > 0) {
        g.mark();
    }
    if equal {
        g.class("same layout built another way");
    }
    Ok(())
}

/// Different layouts must be refused; equal ones must be accepted. Layouts that agree in everything a
/// buffer's memory depends on but not in their alignment may be treated either way.
fn verdict(what: &str, accepted: bool, a: &PointLayout, b: &PointLayout) -> PResult {
    let same = same_layout(a, b);
    ensure!(!(accepted && !same), "{what} was accepted for {} and {}", show_layout(a), show_layout(b));
    ensure!(accepted || !(same && a == b), "{what} was refused for {} and {}", show_layout(a), show_layout(b));
    Ok(())
}

/// Layout equality stated independently of the library's `PartialEq`.
pub fn same_layout(a: &PointLayout, b: &PointLayout) -> bool {
    let f = |l: &PointLayout| l.attributes().map(|x| (x.name().to_string(), x.datatype(), x.offset())).collect::<Vec<_>>();
    f(a) == f(b) && a.size_of_point_entry() == b.size_of_point_entry()
}

pub fn b08() -> Property {
    Property {
        id: "B08",
        rule: "the buffer holds at least one point (bounds, attributes), or the layouts differ and points are involved (layouts)",
        sections: vec![sec("bounds", b08_bounds, 160_000, 40), sec("attributes", b08_attributes, 160_000, 40), sec("layouts", b08_layouts, 160_000, 40)],
    }
}

//! Buffer histories against the list-of-points model (B01), cross-kind behaviour (B02),
//! attribute-wise pushing (B06), filtering and collecting (B07), refusals (B08).

use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use crate::{ensure, on_buf, with_point, with_prim};
use pasture_core::containers::*;
use pasture_core::layout::*;

/// Applies one randomly chosen in-place operation to a mutable buffer and to the model.
pub fn mut_step<'a, B: BorrowedMutBuffer<'a>>(g: &mut Gen, buf: &mut B, m: &mut Model) -> PResult {
    let n = m.len();
    let op = g.range(0, 11);
    let pad = g.draw(255) as u8;
    if n == 0 && op < 5 {
        return Ok(());
    }
    match op {
        0 => {
            let i = g.range(0, n - 1);
            let p = m.gen_pt(g);
            g.note(|| format!("set_point({i})"));
            unsafe { buf.set_point(i, &m.encode(&p, pad)) };
            m.pts[i] = p;
        }
        1 => {
            let (i, a) = (g.range(0, n - 1), g.range(0, m.defs.len() - 1));
            let v = g.bytes(m.sizes[a]);
            g.note(|| format!("set_attribute({}, {i})", m.defs[a]));
            unsafe { buf.set_attribute(&m.defs[a], i, &v) };
            m.pts[i][a] = v;
        }
        2 => {
            let (i, j) = (g.range(0, n - 1), g.range(0, n - 1));
            g.note(|| format!("swap({i}, {j})"));
            buf.swap(i, j);
            m.pts.swap(i, j);
        }
        3 => {
            // typed single-attribute write through a view
            let (i, a) = (g.range(0, n - 1), g.range(0, m.defs.len() - 1));
            let v = g.bytes(m.sizes[a]);
            let d = m.defs[a].clone();
            g.note(|| format!("view_attribute_mut({d}).set_at({i})"));
            with_prim!(d.datatype(), T => {
                let x: T = bytemuck::pod_read_unaligned(&v);
                buf.view_attribute_mut::<T>(&d).set_at(i, x);
                m.pts[i][a] = v;
            }, ());
        }
        4 => {
            let a = g.range(0, m.defs.len() - 1);
            let d = m.defs[a].clone();
            let flip = g.draw(255) as u8;
            g.note(|| format!("transform_attribute({d}, xor index+{flip})"));
            let f = |i: usize, b: &mut [u8]| b.iter_mut().enumerate().for_each(|(k, x)| *x ^= (i as u8).wrapping_mul(31).wrapping_add(flip).wrapping_add(k as u8));
            with_prim!(d.datatype(), T => {
                buf.transform_attribute::<T, _>(&d, |i, mut v| { f(i, bytemuck::bytes_of_mut(&mut v)); v });
                for i in 0..n {
                    f(i, &mut m.pts[i][a]);
                }
            }, ());
        }
        5 | 6 => {
            let (lo, hi) = gen_subrange(g, n);
            let ps = m.gen_pts(g, hi - lo);
            g.note(|| format!("set_point_range({lo}..{hi})"));
            unsafe { buf.set_point_range(lo..hi, &m.encode_all(&ps, pad)) };
            m.pts[lo..hi].clone_from_slice(&ps);
        }
        7 | 8 => {
            let (lo, hi) = gen_subrange(g, n);
            let a = g.range(0, m.defs.len() - 1);
            let v = g.bytes(m.sizes[a] * (hi - lo));
            g.note(|| format!("set_attribute_range({}, {lo}..{hi})", m.defs[a]));
            unsafe { buf.set_attribute_range(&m.defs[a], lo..hi, &v) };
            for i in lo..hi {
                m.pts[i][a] = v[(i - lo) * m.sizes[a]..(i - lo + 1) * m.sizes[a]].to_vec();
            }
        }
        _ => {
            if let Some(b) = buf.as_interleaved_mut() {
                interleaved_step(g, b, m, pad)?;
            } else if let Some(b) = buf.as_columnar_mut() {
                columnar_step(g, b, m)?;
            }
        }
    }
    Ok(())
}

pub fn interleaved_step<'a, B: InterleavedBufferMut<'a> + ?Sized>(g: &mut Gen, buf: &mut B, m: &mut Model, pad: u8) -> PResult {
    let n = m.len();
    if n == 0 {
        return Ok(());
    }
    match g.range(0, 2) {
        0 => {
            let i = g.range(0, n - 1);
            let p = m.gen_pt(g);
            g.note(|| format!("get_point_mut({i})"));
            let b = buf.get_point_mut(i);
            ensure!(m.decode(b) == m.pts[i], "get_point_mut({i}) shows {:?}, expected {:?}", m.decode(b), m.pts[i]);
            b.copy_from_slice(&m.encode(&p, pad));
            m.pts[i] = p;
        }
        1 => {
            let (lo, hi) = gen_subrange(g, n);
            let ps = m.gen_pts(g, hi - lo);
            g.note(|| format!("get_point_range_mut({lo}..{hi})"));
            let b = buf.get_point_range_mut(lo..hi);
            ensure!(b.len() == m.psize * (hi - lo), "get_point_range_mut({lo}..{hi}) has {} bytes", b.len());
            b.copy_from_slice(&m.encode_all(&ps, pad));
            m.pts[lo..hi].clone_from_slice(&ps);
        }
        _ => {
            let a = g.range(0, m.defs.len() - 1);
            let i = g.range(0, n - 1);
            let v = g.bytes(m.sizes[a]);
            let member = m.layout.at(a).clone();
            g.note(|| format!("view_raw_attribute_mut({member})[{i}]"));
            let mut view = buf.view_raw_attribute_mut(&member);
            ensure!(view[i] == m.pts[i][a][..], "raw mutable view shows {:?}, expected {:?}", &view[i], m.pts[i][a]);
            view[i].copy_from_slice(&v);
            m.pts[i][a] = v;
        }
    }
    Ok(())
}

pub fn columnar_step<'a, B: ColumnarBufferMut<'a> + ?Sized>(g: &mut Gen, buf: &mut B, m: &mut Model) -> PResult {
    let n = m.len();
    if n == 0 {
        return Ok(());
    }
    let a = g.range(0, m.defs.len() - 1);
    let d = m.defs[a].clone();
    match g.range(0, 2) {
        0 => {
            let i = g.range(0, n - 1);
            let v = g.bytes(m.sizes[a]);
            g.note(|| format!("get_attribute_mut({d}, {i})"));
            let b = buf.get_attribute_mut(&d, i);
            ensure!(b == &m.pts[i][a][..], "get_attribute_mut({d}, {i}) shows {:?}, expected {:?}", b, m.pts[i][a]);
            b.copy_from_slice(&v);
            m.pts[i][a] = v;
        }
        1 => {
            let (lo, hi) = gen_subrange(g, n);
            let v = g.bytes(m.sizes[a] * (hi - lo));
            g.note(|| format!("get_attribute_range_mut({d}, {lo}..{hi})"));
            let b = buf.get_attribute_range_mut(&d, lo..hi);
            ensure!(b == &m.column(a, lo, hi)[..], "get_attribute_range_mut({d}, {lo}..{hi}) shows {:?}", b);
            b.copy_from_slice(&v);
            for i in lo..hi {
                m.pts[i][a] = v[(i - lo) * m.sizes[a]..(i - lo + 1) * m.sizes[a]].to_vec();
            }
        }
        _ => {
            let i = g.range(0, n - 1);
            let v = g.bytes(m.sizes[a]);
            let member = m.layout.at(a).clone();
            g.note(|| format!("view_raw_attribute_mut({member})[{i}]"));
            let mut view = buf.view_raw_attribute_mut(&member);
            ensure!(view[i] == m.pts[i][a][..], "raw mutable view shows {:?}, expected {:?}", &view[i], m.pts[i][a]);
            view[i].copy_from_slice(&v);
            m.pts[i][a] = v;
        }
    }
    Ok(())
}

/// Length-changing operations of owning buffers.
pub fn owning_step<'a, B: OwningBuffer<'a>>(g: &mut Gen, buf: &mut B, m: &mut Model) -> PResult {
    let pad = g.draw(255) as u8;
    match g.range(0, 6) {
        0 | 1 => {
            let n = g.len(20);
            let ps = m.gen_pts(g, n);
            g.note(|| format!("push_points({n})"));
            unsafe { buf.push_points(&m.encode_all(&ps, pad)) };
            m.pts.extend(ps);
        }
        2 => {
            let n = g.len(30);
            g.note(|| format!("resize({n})"));
            buf.resize(n);
            let z = m.zero();
            m.pts.resize(n, z);
        }
        3 => {
            if g.chance(1, 3) {
                g.note(|| "clear()".into());
                buf.clear();
                m.pts.clear();
            }
        }
        4 => {
            let mut o = Model::new(&m.layout);
            let n = g.len(12);
            o.pts = m.gen_pts(g, n);
            let kind = gen_kind(g);
            let src = make_buf(kind, &o, pad);
            g.note(|| format!("append({kind:?} of {n})"));
            on_buf!(&src, s => buf.append(s));
            m.pts.extend(o.pts);
        }
        5 => {
            let mut o = Model::new(&m.layout);
            let n = g.len(12);
            o.pts = m.gen_pts(g, n);
            if g.chance(1, 2) {
                g.note(|| format!("append_interleaved({n})"));
                match make_buf(Kind::Vector, &o, pad) {
                    Buf::V(s) => buf.append_interleaved(&s),
                    _ => unreachable!(),
                }
            } else {
                g.note(|| format!("append_interleaved(external {n})"));
                match make_buf(Kind::External, &o, pad) {
                    Buf::E(s) => buf.append_interleaved(&s),
                    _ => unreachable!(),
                }
            }
            m.pts.extend(o.pts);
        }
        _ => {
            let mut o = Model::new(&m.layout);
            let n = g.len(12);
            o.pts = m.gen_pts(g, n);
            g.note(|| format!("append_columnar({n})"));
            match make_buf(Kind::HashMap, &o, pad) {
                Buf::H(s) => buf.append_columnar(&s),
                _ => unreachable!(),
            }
            m.pts.extend(o.pts);
        }
    }
    Ok(())
}

fn push_by_attributes(g: &mut Gen, buf: &mut HashMapBuffer, m: &mut Model) {
    if m.defs.iter().any(|d| !PRIMS.contains(&d.datatype())) {
        return;
    }
    let n = g.len(12);
    let ps = m.gen_pts(g, n);
    let mut order: Vec<usize> = (0..m.defs.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, g.range(0, i));
    }
    let commit = !g.chance(1, 5);
    g.note(|| format!("push attributes {order:?} x {n}, commit {commit}"));
    {
        let mut pusher = buf.begin_push_attributes();
        for a in order {
            push_column(&mut pusher, &m.defs[a], &ps.iter().map(|p| p[a].clone()).collect::<Vec<_>>());
        }
        if commit {
            pusher.done();
        }
    }
    if commit {
        m.pts.extend(ps);
    }
}

fn push_column(pusher: &mut HashMapBufferAttributePusher<'_>, d: &Def, vals: &[Vec<u8>]) {
    with_prim!(d.datatype(), T => {
        let v: Vec<T> = vals.iter().map(|b| bytemuck::pod_read_unaligned::<T>(b)).collect();
        pusher.push_attribute_range::<T>(d, &v);
    }, unreachable!())
}

fn history(g: &mut Gen, kind: Kind) -> PResult {
    let layout = gen_layout(g, 5, true);
    let mut m = Model::new(&layout);
    let n0 = g.len(30);
    m.pts = m.gen_pts(g, n0);
    g.note(|| format!("{kind:?} buffer with {n0} points"));
    let mut buf = if n0 == 0 && g.chance(1, 2) {
        let cap = g.range(0, 20);
        match kind {
            Kind::Vector => Buf::V(VectorBuffer::with_capacity(cap, layout.clone())),
            Kind::HashMap => Buf::H(HashMapBuffer::with_capacity(cap, layout.clone())),
            Kind::External => make_buf(kind, &m, 0),
        }
    } else {
        make_buf(kind, &m, g.draw(255) as u8)
    };
    on_buf!(&buf, b => check_reads(g, b, &m, "initially"))?;
    let steps = g.range(1, 10);
    let mut changed = 0;
    for s in 0..steps {
        let before = m.pts.clone();
        match &mut buf {
            Buf::V(b) => {
                if g.chance(1, 2) { owning_step(g, b, &mut m)? } else { mut_step(g, b, &mut m)? }
                if g.chance(1, 12) {
                    let c = b.clone();
                    ensure!(c == *b, "step {s}: a clone does not compare equal");
                    let mut old = std::mem::replace(b, c);
                    clone_is_independent(g, &mut old, b, &m)?;
                }
            }
            Buf::H(b) => {
                match g.range(0, 4) {
                    0 | 1 => owning_step(g, b, &mut m)?,
                    2 => push_by_attributes(g, b, &mut m),
                    _ => mut_step(g, b, &mut m)?,
                }
                if g.chance(1, 12) {
                    let c = b.clone();
                    ensure!(c == *b, "step {s}: a clone does not compare equal");
                    let mut old = std::mem::replace(b, c);
                    clone_is_independent(g, &mut old, b, &m)?;
                }
            }
            Buf::E(b) => mut_step(g, b, &mut m)?,
        }
        if before != m.pts {
            changed += 1;
        }
        on_buf!(&buf, b => check_reads(g, b, &m, &format!("after step {s}")))?;
    }
    if changed >= 2 && m.len() >= 1 {
        g.mark();
    }
    if layout.attributes().map(|a| a.size()).sum::<u64>() < layout.size_of_point_entry() {
        g.class("padded layout");
    }
    if m.len() >= 10 {
        g.class("10 or more points at the end");
    }
    Ok(())
}

fn b01_vector(g: &mut Gen) -> PResult {
    history(g, Kind::Vector)
}
fn b01_hashmap(g: &mut Gen) -> PResult {
    history(g, Kind::HashMap)
}
fn b01_external(g: &mut Gen) -> PResult {
    history(g, Kind::External)
}

/// Changes the original of a clone (the caller compares the clone with the model).
fn clone_is_independent<'a, B: OwningBuffer<'a> + PartialEq>(g: &mut Gen, old: &mut B, clone: &B, m: &Model) -> PResult {
    let n = m.len();
    if n > 0 && g.chance(1, 2) {
        let (i, a) = (g.range(0, n - 1), g.range(0, m.defs.len() - 1));
        let mut v = m.pts[i][a].clone();
        let k = g.range(0, v.len() - 1);
        v[k] ^= 1 << g.range(0, 7);
        unsafe { old.set_attribute(&m.defs[a], i, &v) };
        ensure!(*old != *clone, "buffers whose points differ in {} of point {i} compare equal", m.defs[a]);
    } else if n > 0 && g.chance(1, 2) {
        old.resize(n - 1);
        ensure!(*old != *clone, "buffers of {} and {n} points compare equal", n - 1);
    } else {
        old.resize(n + 1);
        ensure!(*old != *clone, "buffers of {} and {n} points compare equal", n + 1);
    }
    Ok(())
}

/// Buffers whose points have no attributes hold no data: pushing, appending and clearing nothing is fine.
fn b01_empty(g: &mut Gen) -> PResult {
    let layout = PointLayout::default();
    let mem = vec![0u8; g.small(5)];
    let r = catching(|| ExternalMemoryBuffer::new(mem.as_slice(), layout.clone()).len());
    ensure!(if mem.is_empty() { r == Ok(0) } else { r.is_err() }, "external memory of {} bytes as points without attributes has the length {r:?}", mem.len());
    let mut v = if g.chance(1, 2) { VectorBuffer::new_from_layout(layout.clone()) } else { VectorBuffer::with_capacity(g.small(9), layout.clone()) };
    let mut h = if g.chance(1, 2) { HashMapBuffer::new_from_layout(layout.clone()) } else { HashMapBuffer::with_capacity(g.small(9), layout.clone()) };
    for _ in 0..g.range(1, 6) {
        let op = g.range(0, 6);
        g.note(|| format!("operation {op}"));
        match op {
            0 => unsafe { v.push_points(&[]); h.push_points(&[]) },
            1 => { v.clear(); h.clear() }
            2 => { v.resize(0); h.resize(0) }
            3 => { let o = HashMapBuffer::new_from_layout(layout.clone()); v.append(&o); h.append(&o) }
            4 => { let o = VectorBuffer::new_from_layout(layout.clone()); v.append_interleaved(&o); h.append_interleaved(&o) }
            5 => unsafe {
                v.set_point_range(0..0, &[]);
                h.set_point_range(0..0, &[]);
                v.get_point_range(0..0, &mut []);
                h.get_point_range(0..0, &mut []);
            },
            _ => {
                let f: HashMapBuffer = h.filter(|_| true);
                ensure!(f.len() == 0, "filtering nothing gives {} points", f.len());
            }
        }
        ensure!(v.len() == 0 && h.len() == 0 && v.is_empty() && h.is_empty(), "buffers without data have {} and {} points", v.len(), h.len());
        ensure!(v.slice(0..0).len() == 0 && h.slice(0..0).len() == 0, "slices of nothing have points");
    }
    g.mark();
    Ok(())
}

pub fn b01() -> Property {
    Property {
        id: "B01",
        rule: "at least two operations of the history changed the contents and the final buffer is not empty; distinct = distinct choice sequences",
        sections: vec![sec("vector", b01_vector, 60_000, 40), sec("hashmap", b01_hashmap, 60_000, 40), sec("external", b01_external, 40_000, 40), sec("no attributes", b01_empty, 2_000, 40)],
    }
}

// ---------------------------------------------------------------- B02

fn b02_append(g: &mut Gen) -> PResult {
    let layout = gen_layout(g, 5, true);
    let (mut dm, mut sm) = (Model::new(&layout), Model::new(&layout));
    let (dn, sn) = (g.len(15), g.len(20));
    dm.pts = dm.gen_pts(g, dn);
    sm.pts = sm.gen_pts(g, sn);
    let (dk, sk) = (*g.choose(&[Kind::Vector, Kind::HashMap]), gen_kind(g));
    let mut dst = make_buf(dk, &dm, g.draw(255) as u8);
    let mut src = make_buf(sk, &sm, g.draw(255) as u8);
    let (lo, hi) = gen_subrange(g, sn);
    let slice_mode = g.range(0, 2);
    let specific = g.chance(1, 2);
    let again = g.range(1, 2);
    g.note(|| format!("append to {dk:?}[{dn}] from {sk:?}[{sn}] slice mode {slice_mode} {lo}..{hi}, specific route {specific}, {again}x"));
    fn route<'d, D: OwningBuffer<'d>>(dst: &mut D, src: &mut Buf, slice_mode: usize, lo: usize, hi: usize, specific: bool) {
        match src {
            Buf::V(s) => match (slice_mode, specific) {
                (0, false) => dst.append(&*s),
                (0, true) => dst.append_interleaved(&*s),
                (1, false) => dst.append(&s.slice(lo..hi)),
                (1, true) => dst.append_interleaved(&s.slice(lo..hi)),
                (_, false) => dst.append(&s.slice_mut(lo..hi)),
                (_, true) => dst.append_interleaved(&s.slice_mut(lo..hi)),
            },
            Buf::H(s) => match (slice_mode, specific) {
                (0, false) => dst.append(&*s),
                (0, true) => dst.append_columnar(&*s),
                (1, false) => dst.append(&s.slice(lo..hi)),
                (1, true) => dst.append_columnar(&s.slice(lo..hi)),
                (_, false) => dst.append(&s.slice_mut(lo..hi)),
                (_, true) => dst.append_columnar(&s.slice_mut(lo..hi)),
            },
            Buf::E(s) => match (slice_mode, specific) {
                (0, false) => dst.append(&*s),
                (0, true) => dst.append_interleaved(&*s),
                (1, false) => dst.append(&s.slice(lo..hi)),
                (1, true) => dst.append_interleaved(&s.slice(lo..hi)),
                (_, false) => dst.append(&s.slice_mut(lo..hi)),
                (_, true) => dst.append_interleaved(&s.slice_mut(lo..hi)),
            },
        }
    }
    let (lo, hi) = if slice_mode == 0 { (0, sn) } else { (lo, hi) };
    for _ in 0..again {
        match &mut dst {
            Buf::V(d) => route(d, &mut src, slice_mode, lo, hi, specific),
            Buf::H(d) => route(d, &mut src, slice_mode, lo, hi, specific),
            Buf::E(_) => unreachable!(),
        }
        dm.pts.extend_from_slice(&sm.pts[lo..hi]);
    }
    on_buf!(&dst, d => check_reads(g, d, &dm, "destination after appending"))?;
    on_buf!(&src, s => check_reads(g, s, &sm, "source after appending"))?;
    if hi > lo && dn > 0 {
        g.mark();
    }
    if layout.attributes().map(|a| a.size()).sum::<u64>() < layout.size_of_point_entry() {
        g.class("padded layout");
    }
    if slice_mode > 0 && lo > 0 && hi > lo {
        g.class("slice not starting at zero");
    }
    Ok(())
}

/// The same operations on a vector and a columnar buffer leave indistinguishable buffers.
fn b02_lockstep(g: &mut Gen) -> PResult {
    let layout = gen_layout(g, 5, true);
    let base = Model::new(&layout);
    let mut v = VectorBuffer::new_from_layout(layout.clone());
    let mut h = HashMapBuffer::new_from_layout(layout.clone());
    let (mut mv, mut mh) = (base.clone(), base.clone());
    let steps = g.range(1, 8);
    for _ in 0..steps {
        // run one random operation on each buffer from the same choices
        let own = g.chance(2, 3);
        let start: u64 = g.draw(u64::MAX);
        let mut g1 = Gen::random(start);
        let mut g2 = Gen::random(start);
        g1.logging = g.logging;
        if own {
            owning_step(&mut g1, &mut v, &mut mv)?;
            owning_step(&mut g2, &mut h, &mut mh)?;
        } else {
            // restrict to operations that do not depend on the storage order
            let (op, i, j, s) = (g.range(0, 3), g.draw(1000) as usize, g.draw(1000) as usize, g.draw(u32::MAX as u64));
            if mv.len() > 0 {
                let (i, j) = (i % mv.len(), j % mv.len());
                let a = s as usize % mv.defs.len();
                let (lo, hi) = (i.min(j), i.max(j) + 1);
                g.note(|| format!("op {op} i {i} j {j} attribute {a}"));
                let pt = expand_bytes(s, mv.psize);
                let pts = expand_bytes(s, mv.psize * (hi - lo));
                let col = expand_bytes(s, mv.sizes[a] * (hi - lo));
                unsafe {
                    match op {
                        0 => { v.swap(i, j); h.swap(i, j) }
                        1 => { v.set_point(i, &pt); h.set_point(i, &pt) }
                        2 => { v.set_point_range(lo..hi, &pts); h.set_point_range(lo..hi, &pts) }
                        _ => { v.set_attribute_range(&mv.defs[a], lo..hi, &col); h.set_attribute_range(&mv.defs[a], lo..hi, &col) }
                    }
                }
            }
        }
        g.log.append(&mut g1.log);
        mv.pts.resize(v.len(), vec![]);
        mh.pts.resize(h.len(), vec![]);
    }
    ensure!(v.len() == h.len(), "lengths differ: {} and {}", v.len(), h.len());
    for i in 0..v.len() {
        let (mut a, mut b) = (vec![0u8; base.psize], vec![0u8; base.psize]);
        v.get_point(i, &mut a);
        h.get_point(i, &mut b);
        ensure!(base.decode(&a) == base.decode(&b), "point {i} differs: {:?} and {:?}", base.decode(&a), base.decode(&b));
    }
    for (k, d) in base.defs.iter().enumerate() {
        let (mut a, mut b) = (vec![0u8; base.sizes[k] * v.len()], vec![1u8; base.sizes[k] * v.len()]);
        v.get_attribute_range(d, 0..v.len(), &mut a);
        h.get_attribute_range(d, 0..v.len(), &mut b);
        ensure!(a == b, "attribute {d} differs: {a:?} and {b:?}");
        let r: PResult = with_prim!(d.datatype(), T => {
            let (x, y) = (v.view_attribute::<T>(d), h.view_attribute::<T>(d));
            let same_bits = (0..v.len()).all(|i| bytemuck::bytes_of(&x.at(i)) == bytemuck::bytes_of(&y.at(i)));
            ensure!(same_bits, "typed views of {d} differ");
            // view equality is the value equality of T (NaN differs from itself)
            let equal_values = (0..v.len()).all(|i| x.at(i) == y.at(i));
            ensure!((x == y) == equal_values, "view equality of {d} is {}, but the values are {}equal", x == y, if equal_values { "" } else { "un" });
            Ok(())
        }, Ok(()));
        r?;
    }
    if v.len() >= 2 {
        g.mark();
    }
    Ok(())
}

/// Views of two buffers of any storage kind are equal exactly if the buffers hold equal points.
fn b02_equality_of<P: PointType + PartialEq>(g: &mut Gen) -> PResult {
    let mut m = Model::new(&P::layout());
    let n = g.len(12);
    m.pts = m.gen_pts(g, n);
    let mut om = m.clone();
    let how = g.range(0, 5);
    match how {
        0 => {
            let k = g.range(0, n);
            om.pts.truncate(k);
        }
        1 => {
            let k = g.range(1, 3);
            om.pts.extend(m.gen_pts(g, k));
        }
        2 if n > 0 => {
            let (i, a) = (g.range(0, n - 1), g.range(0, m.defs.len() - 1));
            let b = g.range(0, m.sizes[a] - 1);
            om.pts[i][a][b] ^= 1 << g.range(0, 7);
        }
        3 if n > 1 => {
            let (i, j) = (g.range(0, n - 1), g.range(0, n - 1));
            om.pts.swap(i, j);
        }
        _ => {}
    }
    let (ka, kb) = (gen_kind(g), gen_kind(g));
    g.note(|| format!("{ka:?} of {n} points, {kb:?} of {} points, change {how}, layout {}", om.len(), show_layout(&m.layout)));
    let mut x = make_buf(ka, &m, g.draw(255) as u8);
    let mut y = make_buf(kb, &om, g.draw(255) as u8);
    let typed = |m: &Model| -> Vec<P> { m.pts.iter().map(|p| bytemuck::pod_read_unaligned(&m.encode(p, 0))).collect() };
    let want = typed(&m) == typed(&om);
    let slices = g.chance(1, 4);
    on_buf!(&x, a => on_buf!(&y, b => {
        let (e, f) = if slices { (a.slice(0..n).view::<P>() == b.slice(0..om.len()).view::<P>(), b.view::<P>() == a.view::<P>()) } else { (a.view::<P>() == b.view::<P>(), b.view::<P>() == a.view::<P>()) };
        ensure!(e == want && f == want, "the views of {n} and {} points compare as {e} and {f}, the points as {want}", om.len());
    }));
    on_buf!(&mut x, a => on_buf!(&mut y, b => {
        let e = a.view_mut::<P>() == b.view_mut::<P>();
        let f = b.view_mut::<P>() == a.view_mut::<P>();
        ensure!(e == want && f == want, "the mutable views of {n} and {} points compare as {e} and {f}, the points as {want}", om.len());
    }));
    let a = g.range(0, m.defs.len() - 1);
    let d = m.defs[a].clone();
    let r: PResult = with_prim!(d.datatype(), T => {
        let col = |m: &Model| -> Vec<T> { m.pts.iter().map(|p| bytemuck::pod_read_unaligned(&p[a])).collect() };
        let want = col(&m) == col(&om);
        on_buf!(&x, p => on_buf!(&y, q => {
            let e = p.view_attribute::<T>(&d) == q.view_attribute::<T>(&d);
            let f = q.view_attribute::<T>(&d) == p.view_attribute::<T>(&d);
            let h = q.view_attribute_with_conversion::<T>(&d).unwrap() == p.view_attribute_with_conversion::<T>(&d).unwrap();
            ensure!(e == want && f == want && h == want, "the views of {d} over {n} and {} points compare as {e}, {f}, converting {h}, the values as {want}", om.len());
        }));
        on_buf!(&mut x, p => on_buf!(&mut y, q => {
            let e = p.view_attribute_mut::<T>(&d) == q.view_attribute_mut::<T>(&d);
            let f = q.view_attribute_mut::<T>(&d) == p.view_attribute_mut::<T>(&d);
            ensure!(e == want && f == want, "the mutable views of {d} over {n} and {} points compare as {e} and {f}, the values as {want}", om.len());
        }));
        Ok(())
    }, Ok(()));
    r?;
    if n > 0 {
        g.mark();
    }
    if !want {
        g.class("different buffers");
    }
    Ok(())
}

fn b02_equality(g: &mut Gen) -> PResult {
    let t = g.range(0, super::types::COUNT - 1);
    with_point!(t, P => b02_equality_of::<P>(g))
}

pub fn b02() -> Property {
    Property {
        id: "B02",
        rule: "append: points were appended to a non-empty destination; lockstep: both buffers end with at least two points; equality: the buffers compared are not empty",
        sections: vec![sec("append", b02_append, 400_000, 40), sec("lockstep", b02_lockstep, 240_000, 40), sec("equality", b02_equality, 160_000, 40)],
    }
}

// ---------------------------------------------------------------- B06

/// Attribute-wise pushing with missing, surplus, repeated and foreign attributes.
fn b06_pusher(g: &mut Gen) -> PResult {
    let nattr = g.range(1, 5);
    let attrs = gen_attrs(g, nattr.min(4), nattr, false);
    let nattr = attrs.len();
    let layout = gen_arrangement(g, &attrs);
    g.note(|| format!("layout {}", show_layout(&layout)));
    let mut m = Model::new(&layout);
    let n0 = g.len(8);
    m.pts = m.gen_pts(g, n0);
    let mut buf = match make_buf(Kind::HashMap, &m, 0) {
        Buf::H(b) => b,
        _ => unreachable!(),
    };
    let rounds = g.range(1, 3);
    for _ in 0..rounds {
        let n = g.len(9);
        let mut order: Vec<usize> = (0..nattr).collect();
        for i in (1..order.len()).rev() {
            order.swap(i, g.range(0, i));
        }
        // the pushes of this round: (attribute, number of values)
        let mut pushes: Vec<(usize, usize)> = order.iter().map(|a| (*a, n)).collect();
        let flaw = g.range(0, 9);
        match flaw {
            0 => { pushes.pop(); }
            1 => { let k = g.range(0, nattr - 1); pushes[k].1 = n + g.range(1, 3); }
            2 => { let k = g.range(0, nattr - 1); pushes[k].1 = n.saturating_sub(g.range(1, 3)); }
            3 => { let k = g.range(0, nattr - 1); let at = g.range(0, nattr); let p = pushes[k]; pushes.insert(at, p); }
            _ => {}
        }
        let commit = !g.chance(1, 6);
        let ps = m.gen_pts(g, n + 4);
        g.note(|| format!("pushes {pushes:?} commit {commit}"));
        // expected: pushes whose total per attribute is the same for all attributes, one common count
        let mut cols: Vec<Vec<Vec<u8>>> = vec![vec![]; nattr];
        for (a, k) in &pushes {
            cols[*a].extend(ps[..*k].iter().map(|p| p[*a].clone()));
        }
        let common = cols.iter().all(|c| c.len() == cols[0].len());
        let r = catching(|| {
            let mut pusher = buf.begin_push_attributes();
            for (a, k) in &pushes {
                let vals: Vec<Vec<u8>> = ps[..*k].iter().map(|p| p[*a].clone()).collect();
                push_column(&mut pusher, &m.defs[*a], &vals);
            }
            if commit {
                pusher.done();
            }
        });
        match r {
            Ok(()) if commit => {
                ensure!(common, "a commit with {:?} values per attribute was accepted", cols.iter().map(|c| c.len()).collect::<Vec<_>>());
                for i in 0..cols[0].len() {
                    m.pts.push(cols.iter().map(|c| c[i].clone()).collect());
                }
                g.class("committed");
            }
            Ok(()) => g.class("abandoned"),
            Err(p) => {
                let even = pushes.iter().all(|p| p.1 == pushes[0].1) && pushes.len() == nattr && flaw > 3;
                ensure!(!even, "a complete push of {n} values per attribute was refused: {p}");
                g.class("refused");
            }
        }
        check_reads(g, &buf, &m, "after the push")?;
        if n > 0 {
            g.mark();
        }
    }
    Ok(())
}

/// Foreign attributes and wrong types are refused.
fn b06_foreign(g: &mut Gen) -> PResult {
    let attrs = gen_attrs(g, 1, 4, false);
    let layout = PointLayout::from_attributes(&attrs);
    let mut m = Model::new(&layout);
    let n0 = g.len(5);
    m.pts = m.gen_pts(g, n0);
    let mut buf = match make_buf(Kind::HashMap, &m, 0) {
        Buf::H(b) => b,
        _ => unreachable!(),
    };
    let a = g.range(0, attrs.len() - 1);
    let n = g.range(1, 4);
    let wrong = *g.choose(&PRIMS);
    let which = g.range(0, 2);
    let (d, t) = match which {
        0 => (attrs[a].clone(), wrong),                        // right attribute, values of another type
        1 => (def(attrs[a].name().to_string(), wrong), wrong), // right name, other type
        _ => (def("absent", wrong), wrong),
    };
    g.note(|| format!("layout {} push {d} with values of {t}", show_layout(&layout)));
    let legal = t == attrs[a].datatype() && which < 2;
    let r = catching(|| {
        let mut p = buf.begin_push_attributes();
        with_prim!(t, T => {
            let v = vec![bytemuck::Zeroable::zeroed(); n];
            p.push_attribute_range::<T>(&d, &v);
        }, unreachable!())
    });
    ensure!(r.is_ok() == legal, "pushing {d} with values of {t} was {}", if r.is_ok() { "accepted" } else { "refused" });
    if !legal {
        g.mark();
    }
    check_reads(g, &buf, &m, "after the push")
}

pub fn b06() -> Property {
    Property {
        id: "B06",
        rule: "pusher: at least one value per attribute was pushed in some round; foreign: the push does not fit the layout",
        sections: vec![sec("pusher", b06_pusher, 400_000, 40), sec("foreign", b06_foreign, 120_000, 40)],
    }
}

// ---------------------------------------------------------------- B07

fn b07_filter(g: &mut Gen) -> PResult {
    let layout = gen_layout(g, 5, true);
    let mut m = Model::new(&layout);
    let n = g.len(40);
    m.pts = m.gen_pts(g, n);
    let src = match make_buf(Kind::HashMap, &m, 0) {
        Buf::H(b) => b,
        _ => unreachable!(),
    };
    let mask = match g.range(0, 4) {
        0 => vec![true; n],
        1 => vec![false; n],
        2 => (0..n).map(|i| i % 2 == 0).collect::<Vec<_>>(),
        _ => {
            let bits = g.draw(u64::MAX);
            (0..n).map(|i| bits >> (i % 64) & 1 == 1).collect()
        }
    };
    let mut want = Model::new(&layout);
    want.pts = (0..n).filter(|i| mask[*i]).map(|i| m.pts[i].clone()).collect();
    g.note(|| format!("{n} points, predicate {}", mask.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>()));
    let fv: VectorBuffer = src.filter(|i| mask[i]);
    check_reads(g, &fv, &want, "filter into a vector buffer")?;
    let fh: HashMapBuffer = src.filter(|i| mask[i]);
    check_reads(g, &fh, &want, "filter into a columnar buffer")?;
    // filter_into an existing buffer
    let extra = g.small(6);
    let k = want.len();
    let mut dm = Model::new(&layout);
    dm.pts = dm.gen_pts(g, k + extra);
    let kind = gen_kind(g);
    let hint = if g.chance(1, 2) { Some(k) } else { None };
    let mut dst = make_buf(kind, &dm, 0);
    on_buf!(&mut dst, d => src.filter_into(d, |i| mask[i], hint));
    for i in 0..k {
        dm.pts[i] = want.pts[i].clone();
    }
    on_buf!(&dst, d => check_reads(g, d, &dm, &format!("filter_into {kind:?} with {extra} extra points")))?;
    check_reads(g, &src, &m, "source after filtering")?;
    if k >= 1 && k < n {
        g.mark();
    }
    if extra > 0 {
        g.class("destination larger than needed");
    }
    // a destination that is too small or has another layout is refused without being changed
    if k > 0 {
        let mut sm = Model::new(&layout);
        let small = g.range(0, k - 1);
        sm.pts = sm.gen_pts(g, small);
        let mut dst = make_buf(kind, &sm, 0);
        let r = catching(|| on_buf!(&mut dst, d => src.filter_into(d, |i| mask[i], hint)));
        ensure!(r.is_err(), "filter_into accepted a destination of {small} points for {k} matches");
        on_buf!(&dst, d => check_reads(g, d, &sm, "too small destination after the refusal"))?;
    }
    let other = if g.chance(1, 2) {
        // the same attributes at other places, or all but one of them
        let mut defs = m.defs.clone();
        if g.chance(1, 2) {
            let i = g.range(0, defs.len() - 1);
            defs.swap(0, i);
        } else if defs.len() > 1 {
            defs.pop();
        }
        if g.chance(1, 2) { PointLayout::from_attributes(&defs) } else { PointLayout::from_attributes_packed(&defs, 1) }
    } else {
        gen_layout(g, 5, true)
    };
    if other != layout {
        let mut om = Model::new(&other);
        om.pts = om.gen_pts(g, k + extra);
        let mut dst = make_buf(kind, &om, 0);
        let r = catching(|| on_buf!(&mut dst, d => src.filter_into(d, |i| mask[i], hint)));
        ensure!(r.is_err(), "filter_into accepted a destination with the layout {other}");
        on_buf!(&dst, d => check_reads(g, d, &om, "destination of another layout after the refusal"))?;
        g.class("destination of another layout");
    }
    Ok(())
}

/// An iterator over a list that announces an arbitrary (correct) size hint.
pub struct Hinted<I> {
    inner: I,
    lower_slack: usize,
    upper_slack: Option<usize>,
    left: usize,
}

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let x = self.inner.next();
        if x.is_some() {
            self.left -= 1;
        }
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left.saturating_sub(self.lower_slack), self.upper_slack.map(|s| self.left + s))
    }
}

fn b07_collect(g: &mut Gen) -> PResult {
    let n = g.len(25);
    let t = g.range(0, super::types::COUNT - 1);
    let seed = g.draw(u32::MAX as u64);
    let mode = g.range(0, 5);
    let bits = g.draw(u64::MAX);
    let (ls, us) = (g.range(0, 3), if g.chance(1, 3) { None } else { Some(g.range(0, 4)) });
    crate::with_point!(t, P => {
        let pts: Vec<P> = (0..n).map(|i| bytemuck::pod_read_unaligned(&expand_bytes(seed + i as u64, std::mem::size_of::<P>()))).collect();
        let keep = |i: usize| bits >> (i % 64) & 1 == 1;
        let want: Vec<P> = match mode {
            1 => (0..n).filter(|i| keep(*i)).map(|i| pts[i]).collect(),
            2 => pts.iter().copied().take_while(|p| bytemuck::bytes_of(p)[0] & 7 != 3).collect(),
            3 => pts.iter().chain(pts.iter()).copied().collect(),
            _ => pts.clone(),
        };
        let it = || -> Box<dyn Iterator<Item = P>> {
            let pts = pts.clone();
            match mode {
                1 => Box::new(pts.into_iter().enumerate().filter(move |(i, _)| bits >> (i % 64) & 1 == 1).map(|x| x.1)),
                2 => Box::new(pts.into_iter().take_while(|p| bytemuck::bytes_of(p)[0] & 7 != 3)),
                3 => Box::new(pts.clone().into_iter().chain(pts)),
                4 => { let mut k = 0; Box::new(std::iter::from_fn(move || { let r = pts.get(k).copied(); k += 1; r })) }
                5 => Box::new(Hinted { left: pts.len(), inner: pts.into_iter(), lower_slack: ls, upper_slack: us }),
                _ => Box::new(pts.into_iter()),
            }
        };
        g.note(|| format!("point type {t}, {} of {n} points, iterator mode {mode}, announced {:?}", want.len(), it().size_hint()));
        let mut m = Model::new(&P::layout());
        m.pts = want.iter().map(|p| m.decode(bytemuck::bytes_of(p))).collect();
        let v: VectorBuffer = it().collect();
        check_reads(g, &v, &m, "collected vector buffer")?;
        let h: HashMapBuffer = it().collect();
        check_reads(g, &h, &m, "collected columnar buffer")?;
        if want.len() >= 2 {
            g.mark();
        }
        if it().size_hint() != (want.len(), Some(want.len())) {
            g.class("inexact size hint");
        }
        Ok(())
    })
}

pub fn b07() -> Property {
    Property {
        id: "B07",
        rule: "filter: the predicate keeps some but not all points; collect: at least two points are collected",
        sections: vec![sec("filter", b07_filter, 240_000, 40), sec("collect", b07_collect, 240_000, 40)],
    }
}

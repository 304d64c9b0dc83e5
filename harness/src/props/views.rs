//! Typed point views (B04) and attribute views (B05), driven step by step against a plain list.

use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::Property;
use crate::{ensure, on_buf, with_point, with_prim};
use pasture_core::containers::*;
use pasture_core::layout::*;

/// Drives an iterator over `n` items with random steps. `on(i, item)` checks that the item is the one at
/// position `i` of the list. A plain list cursor is the reference for where each step lands.
pub fn drive<I: Iterator>(g: &mut Gen, mut it: I, n: usize, what: &str, on: &mut dyn FnMut(&mut Gen, usize, I::Item) -> PResult) -> PResult {
    let mut pos = 0usize; // index of the next item of the reference list
    let steps = g.range(1, 8);
    let step = |g: &mut Gen, got: Option<I::Item>, want: usize, pos: &mut usize, how: String, on: &mut dyn FnMut(&mut Gen, usize, I::Item) -> PResult| -> PResult {
        match got {
            Some(x) => {
                ensure!(want < n, "{what}: {how} yielded an item past the end of {n}");
                *pos = want + 1;
                on(g, want, x)
            }
            None => {
                ensure!(want >= n, "{what}: {how} ended at position {want} of {n}");
                *pos = n;
                Ok(())
            }
        }
    };
    for _ in 0..steps {
        match g.range(0, 8) {
            0 | 1 => {
                g.note(|| "next".into());
                let x = it.next();
                let w = pos;
                step(g, x, w, &mut pos, "next()".into(), on)?;
            }
            2 | 3 => {
                let k = if g.chance(1, 12) { usize::MAX - g.range(0, 2) } else { g.range(0, n + 3) };
                g.note(|| format!("nth({k})"));
                let x = it.nth(k);
                let w = pos.saturating_add(k);
                let how = format!("nth({k}) at {pos}");
                step(g, x, w, &mut pos, how, on)?;
            }
            4 => {
                let k = g.range(0, n + 2);
                g.note(|| format!("skip({k}).next"));
                let x = it.by_ref().skip(k).next();
                let w = pos + k;
                let how = format!("skip({k}).next() at {pos}");
                step(g, x, w, &mut pos, how, on)?;
            }
            5 => {
                let (s, m) = (g.range(1, 5), g.range(1, 4));
                g.note(|| format!("step_by({s}).take({m})"));
                let items: Vec<I::Item> = it.by_ref().step_by(s).take(m).collect();
                let p0 = pos;
                let mut k = 0;
                for x in items {
                    let w = p0 + k * s;
                    step(g, Some(x), w, &mut pos, format!("step_by({s}) at {p0}"), on)?;
                    k += 1;
                }
                if k < m {
                    ensure!(p0 + k * s >= n, "{what}: step_by({s}) from {p0} ended after {k} items of {n}");
                    pos = n;
                }
            }
            6 => {
                let (lo, hi) = it.size_hint();
                ensure!(lo <= n - pos && hi.map_or(true, |h| h >= n - pos), "{what}: size_hint ({lo}, {hi:?}) with {} items left", n - pos);
            }
            7 => {
                let m = g.range(0, n + 1);
                g.note(|| format!("take({m})"));
                let items: Vec<I::Item> = it.by_ref().take(m).collect();
                ensure!(items.len() == m.min(n - pos), "{what}: take({m}) with {} items left yielded {}", n - pos, items.len());
                for x in items {
                    let w = pos;
                    step(g, Some(x), w, &mut pos, "take".into(), on)?;
                }
            }
            _ => {
                let which = g.range(0, 3);
                g.note(|| format!("rest by {}", ["count", "last", "fold", "for"][which]));
                let bound = n + 16;
                match which {
                    0 => {
                        let c = it.by_ref().take(bound).count();
                        ensure!(c == n - pos, "{what}: count() is {c} with {} items left", n - pos);
                    }
                    1 => {
                        if let Some(x) = it.by_ref().take(bound).last() {
                            ensure!(pos < n, "{what}: last() yielded an item past the end");
                            on(g, n - 1, x)?;
                        } else {
                            ensure!(pos == n, "{what}: last() yielded nothing with {} items left", n - pos);
                        }
                    }
                    2 => {
                        let c = it.by_ref().take(bound).fold(0usize, |a, _| a + 1);
                        ensure!(c == n - pos, "{what}: fold saw {c} items of {}", n - pos);
                    }
                    _ => {
                        let items: Vec<I::Item> = it.by_ref().take(bound).collect();
                        ensure!(items.len() == n - pos, "{what}: {} items of {} in the rest", items.len(), n - pos);
                        for (k, x) in items.into_iter().enumerate() {
                            on(g, pos + k, x)?;
                        }
                    }
                }
                pos = n;
            }
        }
    }
    // the consuming methods, from wherever the steps have led
    let left = n - pos;
    match g.range(0, 9) {
        0 => {
            let c = it.count();
            ensure!(c == left, "{what}: count() is {c} with {left} items left");
            return Ok(());
        }
        1 => {
            return match it.last() {
                Some(x) => {
                    ensure!(left > 0, "{what}: last() yielded an item with none left");
                    on(g, n - 1, x)
                }
                None => {
                    ensure!(left == 0, "{what}: last() yielded nothing with {left} items left");
                    Ok(())
                }
            };
        }
        2 => {
            let mut items = vec![];
            it.for_each(|x| items.push(x));
            ensure!(items.len() == left, "{what}: for_each saw {} items with {left} left", items.len());
            for (k, x) in items.into_iter().enumerate() {
                on(g, pos + k, x)?;
            }
            return Ok(());
        }
        3 => {
            let mut items = vec![];
            for x in it {
                items.push(x);
            }
            ensure!(items.len() == left, "{what}: a for loop saw {} items with {left} left", items.len());
            for (k, x) in items.into_iter().enumerate() {
                on(g, pos + k, x)?;
            }
            return Ok(());
        }
        _ => {}
    }
    // what is left, then the end, repeatedly
    let rest: Vec<I::Item> = it.by_ref().take(n + 16).collect();
    ensure!(rest.len() == n - pos, "{what}: {} items left after the steps, expected {}", rest.len(), n - pos);
    for (k, x) in rest.into_iter().enumerate() {
        on(g, pos + k, x)?;
    }
    ensure!(it.next().is_none() && it.nth(0).is_none() && it.nth(2).is_none() && it.next().is_none(), "{what}: an item after the end");
    Ok(())
}

fn enc<P: bytemuck::NoUninit>(p: &P) -> Vec<u8> {
    bytemuck::bytes_of(p).to_vec()
}

/// Point views over a buffer that is not mutated.
fn read_views<'a, P: PointType + PartialEq, B: BorrowedBuffer<'a> + 'a>(g: &mut Gen, b: &B, m: &Model, what: &str) -> PResult {
    let v = b.view::<P>();
    for i in 0..m.len() {
        ensure!(m.decode(&enc(&v.at(i))) == m.pts[i], "{what}: view.at({i}) is {:?}, expected {:?}", m.decode(&enc(&v.at(i))), m.pts[i]);
    }
    drive(g, b.view::<P>().into_iter(), m.len(), &format!("{what}: iterator by value"), &mut |_, i, p: P| {
        ensure!(m.decode(&enc(&p)) == m.pts[i], "{what}: iterator by value yields {:?} at {i}, expected {:?}", m.decode(&enc(&p)), m.pts[i]);
        Ok(())
    })
}

fn read_views_interleaved<'a, P: PointType + PartialEq, B: InterleavedBuffer<'a> + 'a>(g: &mut Gen, b: &B, m: &Model, what: &str) -> PResult {
    let v = b.view::<P>();
    for i in 0..m.len() {
        ensure!(m.decode(&enc(v.at_ref(i))) == m.pts[i], "{what}: view.at_ref({i}) is {:?}, expected {:?}", m.decode(&enc(v.at_ref(i))), m.pts[i]);
    }
    drive(g, v.iter(), m.len(), &format!("{what}: iterator by reference"), &mut |_, i, p: &P| {
        ensure!(m.decode(&enc(p)) == m.pts[i], "{what}: iterator by reference yields {:?} at {i}, expected {:?}", m.decode(&enc(p)), m.pts[i]);
        Ok(())
    })
}

fn gen_p<P: PointType>(g: &mut Gen) -> P {
    bytemuck::pod_read_unaligned(&g.bytes(std::mem::size_of::<P>()))
}

fn write_views<'a, P: PointType + PartialEq, B: BorrowedMutBuffer<'a> + 'a>(g: &mut Gen, b: &mut B, m: &mut Model, what: &str) -> PResult {
    let mut v = b.view_mut::<P>();
    for _ in 0..g.range(0, 3) {
        if m.len() == 0 {
            break;
        }
        let i = g.range(0, m.len() - 1);
        let p: P = gen_p(g);
        g.note(|| format!("view_mut.set_at({i})"));
        ensure!(m.decode(&enc(&v.at(i))) == m.pts[i], "{what}: view_mut.at({i}) is {:?}, expected {:?}", m.decode(&enc(&v.at(i))), m.pts[i]);
        v.set_at(i, p);
        m.pts[i] = m.decode(&enc(&p));
    }
    Ok(())
}

fn write_views_interleaved<'a, P: PointType + PartialEq, B: InterleavedBufferMut<'a> + 'a>(g: &mut Gen, b: &mut B, m: &mut Model, what: &str) -> PResult {
    let n = m.len();
    for _ in 0..g.range(1, 3) {
        let op = g.range(0, 3);
        let mut v = b.view_mut::<P>();
        match op {
            0 if n > 0 => {
                let i = g.range(0, n - 1);
                let p: P = gen_p(g);
                g.note(|| format!("*view_mut.at_mut({i})"));
                ensure!(m.decode(&enc(v.at_ref(i))) == m.pts[i], "{what}: view_mut.at_ref({i}) is wrong");
                let r = v.at_mut(i);
                ensure!(m.decode(&enc(r)) == m.pts[i], "{what}: view_mut.at_mut({i}) shows {:?}, expected {:?}", m.decode(&enc(r)), m.pts[i]);
                *r = p;
                m.pts[i] = m.decode(&enc(&p));
            }
            1 => {
                g.note(|| "view_mut.iter_mut()".into());
                let mc = m.clone();
                let mut pts = m.pts.clone();
                drive(g, v.iter_mut(), n, &format!("{what}: iterator by mutable reference"), &mut |g, i, p: &mut P| {
                    ensure!(mc.decode(&enc(p)) == mc.pts[i], "{what}: iterator by mutable reference yields {:?} at {i}, expected {:?}", mc.decode(&enc(p)), mc.pts[i]);
                    if g.chance(1, 2) {
                        *p = gen_p(g);
                        pts[i] = mc.decode(&enc(p));
                    }
                    Ok(())
                })?;
                m.pts = pts;
            }
            2 => {
                let key = g.range(0, std::mem::size_of::<P>() - 1); // a byte of the point; masking it makes ties
                let rev = g.chance(1, 2);
                g.note(|| format!("sort_by(byte {key}, reversed {rev})"));
                let mask = *g.choose(&[0xffu8, 0, 1, 3, 0x40]);
                let cmp = |a: &P, b: &P| {
                    let o = (bytemuck::bytes_of(a)[key] & mask).cmp(&(bytemuck::bytes_of(b)[key] & mask));
                    if rev { o.reverse() } else { o }
                };
                let mut want: Vec<P> = (0..n).map(|i| v.at(i)).collect();
                want.sort_by(cmp);
                v.sort_by(cmp);
                let after: Vec<P> = (0..n).map(|i| v.at(i)).collect();
                ensure!(after.windows(2).all(|w| cmp(&w[0], &w[1]) != std::cmp::Ordering::Greater), "{what}: sort_by did not establish the order");
                let after_pts: Vec<Pt> = after.iter().map(|p| m.decode(&enc(p))).collect();
                let (mut x, mut y) = (after_pts.clone(), m.pts.clone());
                x.sort();
                y.sort();
                ensure!(x == y, "{what}: sort_by changed the points");
                let want_pts: Vec<Pt> = want.iter().map(|p| m.decode(&enc(p))).collect();
                ensure!(after_pts == want_pts, "{what}: sort_by moved points that compare equal: {after_pts:?}, a stable sort gives {want_pts:?}");
                m.pts = after_pts;
            }
            _ => {
                g.note(|| "view_mut.iter()".into());
                drive(g, v.iter(), n, &format!("{what}: iterator by reference of a mutable view"), &mut |_, i, p: &P| {
                    ensure!(m.decode(&enc(p)) == m.pts[i], "{what}: iterator by reference yields {:?} at {i}, expected {:?}", m.decode(&enc(p)), m.pts[i]);
                    Ok(())
                })?;
            }
        }
    }
    Ok(())
}

fn push_view<'a, P: PointType, B: OwningBuffer<'a> + 'a>(g: &mut Gen, b: &mut B, m: &mut Model) {
    let mut v = b.view_mut::<P>();
    for _ in 0..g.range(0, 3) {
        let p: P = gen_p(g);
        g.note(|| "view_mut.push_point".into());
        v.push_point(p);
        m.pts.push(m.decode(&enc(&p)));
    }
}

fn b04_for<P: PointType + PartialEq>(g: &mut Gen) -> PResult {
    let mut m = Model::new(&P::layout());
    let n = g.len(20);
    let pts: Vec<P> = { let s = g.draw(u32::MAX as u64); (0..n).map(|i| bytemuck::pod_read_unaligned(&expand_bytes(s + i as u64, std::mem::size_of::<P>()))).collect() };
    m.pts = pts.iter().map(|p| m.decode(&enc(p))).collect();
    let kind = gen_kind(g);
    let fresh = g.chance(1, 2);
    g.note(|| format!("{kind:?} with {n} points of layout {}", show_layout(&m.layout)));
    let mut buf = if n == 0 && fresh && kind != Kind::External {
        if kind == Kind::Vector { Buf::V(VectorBuffer::new_from_layout(m.layout.clone())) } else { Buf::H(HashMapBuffer::new_from_layout(m.layout.clone())) }
    } else {
        make_buf(kind, &m, 0)
    };
    let (lo, hi) = gen_subrange(g, n);
    let mut sm = m.clone();
    sm.pts = m.pts[lo..hi].to_vec();
    let aligned = |b: &[u8]| b.is_empty() || b.as_ptr() as usize % std::mem::align_of::<P>() == 0;
    match &buf {
        Buf::V(b) => {
            read_views::<P, _>(g, b, &m, "vector")?;
            read_views_interleaved::<P, _>(g, b, &m, "vector")?;
            read_views::<P, _>(g, &b.slice(lo..hi), &sm, "slice")?;
            read_views_interleaved::<P, _>(g, &b.slice(lo..hi), &sm, "slice")?;
        }
        Buf::H(b) => {
            read_views::<P, _>(g, b, &m, "columnar")?;
            read_views::<P, _>(g, &b.slice(lo..hi), &sm, "slice")?;
        }
        Buf::E(b) => {
            read_views::<P, _>(g, b, &m, "external")?;
            if aligned(b.get_point_range_ref(0..n)) {
                read_views_interleaved::<P, _>(g, b, &m, "external")?;
            }
        }
    }
    let before = m.pts.clone();
    on_buf!(&mut buf, b => write_views::<P, _>(g, b, &mut m, "mutable view"))?;
    on_buf!(&buf, b => check_reads(g, b, &m, "after writing through a view"))?;
    match &mut buf {
        Buf::V(b) => {
            write_views_interleaved::<P, _>(g, b, &mut m, "vector")?;
            check_reads(g, b, &m, "after mutable interleaved views")?;
            push_view::<P, _>(g, b, &mut m);
        }
        Buf::H(b) => push_view::<P, _>(g, b, &mut m),
        Buf::E(b) => {
            if aligned(b.get_point_range_ref(0..n)) {
                write_views_interleaved::<P, _>(g, b, &mut m, "external")?;
            }
        }
    }
    on_buf!(&buf, b => check_reads(g, b, &m, "at the end"))?;
    if n > 0 {
        // through a mutable slice
        let mut sm = m.clone();
        sm.pts = m.pts[lo..hi].to_vec();
        match &mut buf {
            Buf::V(b) => {
                let mut s = b.slice_mut(lo..hi);
                write_views::<P, _>(g, &mut s, &mut sm, "view of a mutable slice")?;
                write_views_interleaved::<P, _>(g, &mut s, &mut sm, "mutable slice")?;
            }
            Buf::H(b) => write_views::<P, _>(g, &mut b.slice_mut(lo..hi), &mut sm, "view of a mutable slice")?,
            Buf::E(b) => write_views::<P, _>(g, &mut b.slice_mut(lo..hi), &mut sm, "view of a mutable slice")?,
        }
        m.pts[lo..hi].clone_from_slice(&sm.pts);
        on_buf!(&buf, b => check_reads(g, b, &m, "after writing through views of a slice"))?;
    }
    // equality of views
    let mut om = m.clone();
    match g.range(0, 3) {
        0 if om.len() > 0 => { om.pts.pop(); }
        1 if om.len() > 0 => { let i = g.range(0, om.len() - 1); om.pts[i] = m.decode(&enc(&gen_p::<P>(g))); }
        2 => { let p = m.decode(&enc(&gen_p::<P>(g))); om.pts.push(p); }
        _ => {}
    }
    let okind = gen_kind(g);
    let mut other = make_buf(okind, &om, 0);
    let typed = |m: &Model| -> Vec<P> { m.pts.iter().map(|p| bytemuck::pod_read_unaligned(&m.encode(p, 0))).collect() };
    let want = typed(&m) == typed(&om);
    on_buf!(&buf, a => on_buf!(&other, b => {
        ensure!((a.view::<P>() == b.view::<P>()) == want, "view equality of {} and {} points is {}", m.len(), om.len(), !want);
    }));
    on_buf!(&mut buf, a => on_buf!(&mut other, b => {
        ensure!((a.view_mut::<P>() == b.view_mut::<P>()) == want, "mutable view equality of {} and {} points is {}", m.len(), om.len(), !want);
    }));
    if n >= 2 && before != m.pts {
        g.mark();
    }
    if n == 0 {
        g.class("empty buffer");
    }
    Ok(())
}

fn b04_views(g: &mut Gen) -> PResult {
    let t = g.range(0, super::types::COUNT - 1);
    with_point!(t, P => b04_for::<P>(g))
}

pub fn b04() -> Property {
    Property { id: "B04", rule: "at least two points and the contents were changed through a view", sections: vec![sec("views", b04_views, 400_000, 40)] }
}

// ---------------------------------------------------------------- B05

fn attr_by_value<'a, B: BorrowedBuffer<'a> + 'a>(g: &mut Gen, b: &B, m: &Model, a: usize, what: &str) -> PResult {
    let d = &m.defs[a];
    with_prim!(d.datatype(), T => {
        let v = b.view_attribute::<T>(d);
        for i in 0..m.len() {
            ensure!(enc(&v.at(i)) == m.pts[i][a], "{what}: view_attribute({d}).at({i}) is {:?}, expected {:?}", enc(&v.at(i)), m.pts[i][a]);
        }
        drive(g, v.into_iter(), m.len(), &format!("{what}: iterator by value over {d}"), &mut |_, i, x: T| {
            ensure!(enc(&x) == m.pts[i][a], "{what}: iterator over {d} yields {:?} at {i}, expected {:?}", enc(&x), m.pts[i][a]);
            Ok(())
        })?;
    }, ());
    Ok(())
}

fn attr_converting<'a, B: BorrowedBuffer<'a> + 'a>(g: &mut Gen, b: &B, m: &Model, a: usize, to: DT, what: &str) -> PResult {
    let d = &m.defs[a];
    let from = d.datatype();
    let q = def(d.name().to_string(), to);
    with_prim!(to, U => {
        let v = b.view_attribute_with_conversion::<U>(&q);
        if !castable(from, to) {
            ensure!(v.is_err(), "{what}: a view of {d} as {to} was created");
            g.class("inconvertible");
            return Ok(());
        }
        let v = match v { Ok(v) => v, Err(e) => return fail(format!("{what}: no view of {d} as {to}: {e}")) };
        for _ in 0..2 {
            for i in 0..m.len() {
                let want = ref_cast(from, to, &m.pts[i][a]).unwrap();
                ensure!(same_value(to, &enc(&v.at(i)), &want), "{what}: {d} as {to} at({i}) is {:?}, expected {:?} (stored {:?})", enc(&v.at(i)), want, m.pts[i][a]);
            }
        }
        drive(g, v.into_iter(), m.len(), &format!("{what}: iterator over {d} as {to}"), &mut |_, i, x: U| {
            let want = ref_cast(from, to, &m.pts[i][a]).unwrap();
            ensure!(same_value(to, &enc(&x), &want), "{what}: iterator over {d} as {to} yields {:?} at {i}, expected {:?}", enc(&x), want);
            Ok(())
        })?;
    }, ());
    Ok(())
}

fn attr_columnar<'a, B: ColumnarBuffer<'a> + 'a>(g: &mut Gen, b: &B, m: &Model, a: usize, what: &str) -> PResult {
    let d = &m.defs[a];
    with_prim!(d.datatype(), T => {
        let v = b.view_attribute::<T>(d);
        for i in 0..m.len() {
            ensure!(enc(v.at_ref(i)) == m.pts[i][a], "{what}: view_attribute({d}).at_ref({i}) is {:?}, expected {:?}", enc(v.at_ref(i)), m.pts[i][a]);
        }
        drive(g, v.iter(), m.len(), &format!("{what}: iterator by reference over {d}"), &mut |_, i, x: &T| {
            ensure!(enc(x) == m.pts[i][a], "{what}: iterator by reference over {d} yields {:?} at {i}, expected {:?}", enc(x), m.pts[i][a]);
            Ok(())
        })?;
    }, ());
    Ok(())
}

fn attr_write<'a, B: BorrowedMutBuffer<'a> + 'a>(g: &mut Gen, b: &mut B, m: &mut Model, a: usize, what: &str) -> PResult {
    let d = m.defs[a].clone();
    let n = m.len();
    with_prim!(d.datatype(), T => {
        let mut v = b.view_attribute_mut::<T>(&d);
        for _ in 0..g.range(0, 3) {
            if n == 0 { break; }
            let i = g.range(0, n - 1);
            let x: T = bytemuck::pod_read_unaligned(&g.bytes(m.sizes[a]));
            g.note(|| format!("view_attribute_mut({d}).set_at({i})"));
            ensure!(enc(&v.at(i)) == m.pts[i][a], "{what}: view_attribute_mut({d}).at({i}) is {:?}, expected {:?}", enc(&v.at(i)), m.pts[i][a]);
            v.set_at(i, x);
            m.pts[i][a] = enc(&x);
        }
        if g.chance(1, 2) {
            g.note(|| format!("transform_attribute({d})"));
            let k = g.draw(255) as u8;
            let seen = std::cell::RefCell::new(vec![]);
            b.transform_attribute::<T, _>(&d, |i, mut x| {
                seen.borrow_mut().push((i, enc(&x)));
                bytemuck::bytes_of_mut(&mut x).iter_mut().for_each(|b| *b = b.wrapping_add(k).wrapping_add(i as u8));
                x
            });
            let mut seen = seen.into_inner();
            seen.sort();
            let want: Vec<(usize, Vec<u8>)> = (0..n).map(|i| (i, m.pts[i][a].clone())).collect();
            ensure!(seen == want, "{what}: transform_attribute({d}) called its function with {:?}, expected {:?}", seen, want);
            for i in 0..n {
                m.pts[i][a].iter_mut().for_each(|b| *b = b.wrapping_add(k).wrapping_add(i as u8));
            }
        }
    }, ());
    Ok(())
}

fn attr_write_columnar<'a, B: ColumnarBufferMut<'a> + 'a>(g: &mut Gen, b: &mut B, m: &mut Model, a: usize, what: &str) -> PResult {
    let d = m.defs[a].clone();
    let n = m.len();
    with_prim!(d.datatype(), T => {
        if n > 0 && g.chance(1, 2) {
            let i = g.range(0, n - 1);
            let x: T = bytemuck::pod_read_unaligned(&g.bytes(m.sizes[a]));
            g.note(|| format!("*view_attribute_mut({d}).at_mut({i})"));
            let mut v = b.view_attribute_mut::<T>(&d);
            ensure!(enc(v.at_ref(i)) == m.pts[i][a], "{what}: view_attribute_mut({d}).at_ref({i}) is wrong");
            let r = v.at_mut(i);
            ensure!(enc(r) == m.pts[i][a], "{what}: view_attribute_mut({d}).at_mut({i}) shows {:?}, expected {:?}", enc(r), m.pts[i][a]);
            *r = x;
            m.pts[i][a] = enc(&x);
        }
        {
            let v = b.view_attribute_mut::<T>(&d);
            drive(g, v.iter(), n, &format!("{what}: iterator of a mutable view over {d}"), &mut |_, i, x: &T| {
                ensure!(enc(x) == m.pts[i][a], "{what}: iterator over {d} yields {:?} at {i}, expected {:?}", enc(x), m.pts[i][a]);
                Ok(())
            })?;
        }
        g.note(|| format!("view_attribute_mut({d}).iter_mut()"));
        let mut v = b.view_attribute_mut::<T>(&d);
        let before: Vec<Vec<u8>> = m.pts.iter().map(|p| p[a].clone()).collect();
        let size = m.sizes[a];
        let pts = &mut m.pts;
        drive(g, v.iter_mut(), n, &format!("{what}: iterator by mutable reference over {d}"), &mut |g, i, x: &mut T| {
            ensure!(enc(x) == before[i], "{what}: iterator by mutable reference over {d} yields {:?} at {i}, expected {:?}", enc(x), before[i]);
            if g.chance(1, 2) {
                *x = bytemuck::pod_read_unaligned(&g.bytes(size));
                pts[i][a] = enc(x);
            }
            Ok(())
        })?;
    }, ());
    Ok(())
}

fn b05_views(g: &mut Gen) -> PResult {
    let nattr = g.range(1, 5);
    let attrs = gen_attrs(g, nattr, nattr, false);
    let layout = gen_arrangement(g, &attrs);
    g.note(|| format!("layout {}", show_layout(&layout)));
    let mut m = Model::new(&layout);
    let n = g.len(16);
    let a = g.range(0, nattr - 1);
    m.pts = m.gen_pts(g, n);
    for p in m.pts.iter_mut() {
        if g.chance(1, 2) {
            p[a] = gen_value(g, m.defs[a].datatype());
        }
    }
    let kind = gen_kind(g);
    let fresh = g.chance(1, 2);
    let to = *g.choose(&PRIMS);
    g.note(|| format!("{kind:?} with {n} points, attribute {}, requested as {to}", m.defs[a]));
    let mut buf = if n == 0 && fresh && kind != Kind::External {
        if kind == Kind::Vector { Buf::V(VectorBuffer::new_from_layout(m.layout.clone())) } else { Buf::H(HashMapBuffer::new_from_layout(m.layout.clone())) }
    } else {
        make_buf(kind, &m, 0x77)
    };
    let (lo, hi) = gen_subrange(g, n);
    let mut sm = m.clone();
    sm.pts = m.pts[lo..hi].to_vec();
    let own = m.defs[a].datatype();
    on_buf!(&buf, b => {
        attr_by_value(g, b, &m, a, "buffer")?;
        attr_by_value(g, &b.slice(lo..hi), &sm, a, "slice")?;
        attr_converting(g, b, &m, a, to, "buffer")?;
        attr_converting(g, b, &m, a, own, "buffer, own type")?;
        attr_converting(g, &b.slice(lo..hi), &sm, a, to, "slice")?;
    });
    if let Buf::H(b) = &buf {
        attr_columnar(g, b, &m, a, "columnar")?;
        attr_columnar(g, &b.slice(lo..hi), &sm, a, "columnar slice")?;
    }
    let before = m.pts.clone();
    on_buf!(&mut buf, b => attr_write(g, b, &mut m, a, "buffer"))?;
    on_buf!(&buf, b => check_reads(g, b, &m, "after writing through attribute views"))?;
    if let Buf::H(b) = &mut buf {
        attr_write_columnar(g, b, &mut m, a, "columnar")?;
        check_reads(g, b, &m, "after columnar attribute writes")?;
    }
    let mut sm = m.clone();
    sm.pts = m.pts[lo..hi].to_vec();
    on_buf!(&mut buf, b => attr_write(g, &mut b.slice_mut(lo..hi), &mut sm, a, "mutable slice"))?;
    if let Buf::H(b) = &mut buf {
        attr_write_columnar(g, &mut b.slice_mut(lo..hi), &mut sm, a, "mutable columnar slice")?;
    }
    m.pts[lo..hi].clone_from_slice(&sm.pts);
    on_buf!(&buf, b => check_reads(g, b, &m, "after writing through attribute views of a slice"))?;
    // equality of attribute views
    let mut om = m.clone();
    match g.range(0, 2) {
        0 if om.len() > 0 => { om.pts.pop(); }
        1 if om.len() > 0 => { let i = g.range(0, om.len() - 1); om.pts[i][a] = gen_value(g, own); }
        _ => {}
    }
    let okind = gen_kind(g);
    let mut other = make_buf(okind, &om, 0);
    let d = m.defs[a].clone();
    let r: PResult = with_prim!(own, T => {
        let typed = |m: &Model| -> Vec<T> { m.pts.iter().map(|p| bytemuck::pod_read_unaligned(&p[a])).collect() };
        let want = typed(&m) == typed(&om);
        on_buf!(&buf, x => on_buf!(&other, y => {
            ensure!((x.view_attribute::<T>(&d) == y.view_attribute::<T>(&d)) == want, "equality of views of {d} is {}", !want);
            let (cx, cy) = (x.view_attribute_with_conversion::<T>(&d).unwrap(), y.view_attribute_with_conversion::<T>(&d).unwrap());
            ensure!((cx == cy) == want, "equality of converting views of {d} is {}", !want);
        }));
        on_buf!(&mut buf, x => on_buf!(&mut other, y => {
            ensure!((x.view_attribute_mut::<T>(&d) == y.view_attribute_mut::<T>(&d)) == want, "equality of mutable views of {d} is {}", !want);
        }));
        Ok(())
    }, Ok(()));
    r?;
    if n >= 2 && before != m.pts {
        g.mark();
    }
    if castable(own, to) && own != to {
        g.class("converting view");
    }
    Ok(())
}

pub fn b05() -> Property {
    Property { id: "B05", rule: "at least two points and the attribute was changed through a view", sections: vec![sec("views", b05_views, 400_000, 40)] }
}

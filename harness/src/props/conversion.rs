//! Attribute conversion (C01), layout conversion (C02, C03), raw point conversion (C04).

use super::sec;
use super::slices::refused;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use crate::{ensure, on_buf, with_prim};
use pasture_core::containers::*;
use pasture_core::layout::conversion::*;
use pasture_core::layout::*;

// ---------------------------------------------------------------- C01

fn exotic_or_prim(g: &mut Gen) -> DT {
    if g.chance(1, 10) { gen_type(g, true) } else { *g.choose(&PRIMS) }
}

/// Converts `v` in memory at the given misalignments with canaries all around.
fn convert_at(f: AttributeConversionFn, v: &[u8], tsize: usize, so: usize, to: usize, junk: u8) -> Result<Vec<u8>, String> {
    let mut src = vec![0xC3u8; so + v.len() + 24];
    src[so..so + v.len()].copy_from_slice(v);
    let src_before = src.clone();
    let mut dst = vec![0x3Cu8; to + tsize + 24];
    dst[to..to + tsize].fill(junk);
    unsafe { f(&src[so..so + v.len()], &mut dst[to..to + tsize]) };
    if src != src_before {
        return Err("the source memory was changed".into());
    }
    if dst[..to].iter().chain(dst[to + tsize..].iter()).any(|b| *b != 0x3C) {
        return Err(format!("memory outside of the target value was changed: {:?}", dst));
    }
    Ok(dst[to..to + tsize].to_vec())
}

fn check_one(g: &mut Gen, f: AttributeConversionFn, from: DT, to: DT, v: &[u8]) -> PResult {
    let (so, toff, junk) = (g.range(0, 8), g.range(0, 8), g.range(0, 255) as u8);
    let want = ref_cast(from, to, v).unwrap();
    match convert_at(f, v, ref_size(to) as usize, so, toff, junk) {
        Err(e) => fail(format!("{from} -> {to} of {v:?}: {e}")),
        Ok(got) => {
            ensure!(same_value(to, &got, &want), "{from} -> {to} of bytes {v:?} is {got:?}, the numeric cast is {want:?}");
            Ok(())
        }
    }
}

fn c01_values(g: &mut Gen) -> PResult {
    let (from, to) = (exotic_or_prim(g), exotic_or_prim(g));
    g.note(|| format!("{from} -> {to}"));
    let conv = get_generic_converter(from, to);
    let n = g.range(1, 20);
    let (a, b) = (def("x", from), def("x", to));
    let by_attr = catching(|| get_converter_for_attributes(&a, &b));
    if from == to {
        ensure!(matches!(by_attr, Ok(None)), "get_converter_for_attributes of equal attributes is {:?}", by_attr.map(|o| o.is_some()));
        for _ in 0..n {
            let v = gen_value(g, from);
            check_one(g, convert_unit, from, to, &v)?;
            if let Some(f) = conv {
                check_one(g, f, from, to, &v)?;
            }
        }
        g.class("equal types");
        return Ok(());
    }
    if !castable(from, to) {
        ensure!(conv.is_none(), "there is a converter {from} -> {to}");
        ensure!(!matches!(by_attr, Ok(Some(_))), "there is an attribute converter {from} -> {to}");
        g.class("inconvertible types");
        return Ok(());
    }
    let Some(f) = conv else { return fail(format!("no converter {from} -> {to}")) };
    let Ok(Some(f2)) = by_attr else { return fail(format!("no attribute converter {from} -> {to}")) };
    for _ in 0..n {
        let v = gen_value(g, from);
        g.note(|| format!("value {v:?}"));
        check_one(g, f, from, to, &v)?;
        check_one(g, f2, from, to, &v)?;
    }
    // attributes of different names have no attribute converter
    let other = def("y", to);
    ensure!(!matches!(catching(|| get_converter_for_attributes(&a, &other)), Ok(Some(_))), "get_converter_for_attributes of differently named attributes returned a converter");
    g.class("convertible types");
    g.mark();
    Ok(())
}

/// Runs of consecutive integers (all boundaries of 8 and 16 bit types are covered this way) and of neighbouring floats.
fn c01_runs(g: &mut Gen) -> PResult {
    let from = *g.choose(&SCALARS);
    let to = loop {
        let t = *g.choose(&SCALARS);
        if t != from {
            break t;
        }
        if g.tape.len() > 1000 {
            return Ok(());
        }
    };
    let Some(f) = get_generic_converter(from, to) else { return fail(format!("no converter {from} -> {to}")) };
    let s = ref_size(from) as usize;
    let start = gen_value(g, from);
    let mut w = [0u8; 8];
    w[..s].copy_from_slice(&start);
    let start = u64::from_ne_bytes(w).wrapping_sub(64);
    g.note(|| format!("{from} -> {to}, 128 bit patterns from {start:#x}"));
    for k in 0..128u64 {
        let v = start.wrapping_add(k).to_ne_bytes()[..s].to_vec();
        let want = ref_cast(from, to, &v).unwrap();
        let mut got = vec![0x99u8; ref_size(to) as usize];
        unsafe { f(&v, &mut got) };
        ensure!(same_value(to, &got, &want), "{from} -> {to} of bytes {v:?} is {got:?}, the numeric cast is {want:?}");
    }
    g.mark();
    Ok(())
}

pub fn c01() -> Property {
    Property { id: "C01", rule: "the two types are convertible and at least one value was converted",
        sections: vec![sec("values", c01_values, 2_400_000, 40), sec("runs", c01_runs, 480_000, 40)] }
}

// ---------------------------------------------------------------- layout pairs

fn castable_to(g: &mut Gen, from: DT) -> DT {
    match component(from) {
        Some((_, 1)) => *g.choose(&SCALARS),
        Some((_, _)) => *g.choose(&VECS),
        None => from,
    }
}

/// A source and a target layout. `missing`: the target may have attributes that the source does not have.
fn gen_layout_pair(g: &mut Gen, missing: bool) -> (PointLayout, PointLayout) {
    let src = gen_attrs(g, 1, 6, true);
    let src_layout = gen_arrangement(g, &src);
    let mut tgt: Vec<Def> = vec![];
    let identical = g.chance(1, 10);
    for d in &src {
        if identical || g.chance(3, 4) {
            let t = if identical || g.chance(1, 2) { d.datatype() } else { castable_to(g, d.datatype()) };
            tgt.push(def(d.name().to_string(), t));
        }
    }
    if missing {
        for k in 0..g.range(0, 2) {
            let t = gen_type(g, true);
            tgt.push(def(format!("extra{k}"), t));
        }
    }
    if tgt.is_empty() {
        tgt.push(src[0].clone());
    }
    if !identical {
        for i in (1..tgt.len()).rev() {
            tgt.swap(i, g.range(0, i));
        }
    }
    let tgt_layout = if identical && g.chance(1, 2) { src_layout.clone() } else { gen_arrangement(g, &tgt) };
    g.note(|| format!("from {} to {}", show_layout(&src_layout), show_layout(&tgt_layout)));
    (src_layout, tgt_layout)
}

fn fill_values(g: &mut Gen, m: &mut Model, n: usize) {
    m.pts = m.gen_pts(g, n);
    for p in m.pts.iter_mut() {
        if g.chance(1, 3) {
            let a = g.range(0, m.defs.len() - 1);
            p[a] = gen_value(g, m.defs[a].datatype());
        }
    }
}

#[derive(Clone)]
struct Map {
    src: usize,
    tgt: usize,
    /// transformation constant and whether it applies to the source value
    transform: Option<(u8, bool)>,
}

fn default_maps(s: &PointLayout, t: &PointLayout) -> Vec<Map> {
    let names: Vec<String> = s.attributes().map(|a| a.name().to_string()).collect();
    t.attributes()
        .enumerate()
        .filter_map(|(ti, a)| names.iter().position(|n| n == a.name()).map(|si| Map { src: si, tgt: ti, transform: None }))
        .collect()
}

/// A transformation that is not idempotent and does not commute with casts.
fn transform_bytes(dt: DT, v: &[u8], k: u8) -> Vec<u8> {
    match component(dt) {
        Some((DT::F32, _)) => v.chunks(4).flat_map(|c| (f32::from_ne_bytes(c.try_into().unwrap()) * 0.5 + k as f32).to_ne_bytes()).collect(),
        Some((DT::F64, _)) => v.chunks(8).flat_map(|c| (f64::from_ne_bytes(c.try_into().unwrap()) * 0.5 + k as f64).to_ne_bytes()).collect(),
        _ => v.iter().map(|b| b.wrapping_mul(3).wrapping_add(k)).collect(),
    }
}

fn ref_convert(sm: &Model, tm: &Model, maps: &[Map], src: &Pt, old: &Pt) -> Pt {
    let mut out = old.clone();
    for mp in maps {
        let (fd, td) = (sm.defs[mp.src].datatype(), tm.defs[mp.tgt].datatype());
        let mut v = src[mp.src].clone();
        if let Some((k, true)) = mp.transform {
            v = transform_bytes(fd, &v, k);
        }
        v = ref_cast(fd, td, &v).expect("castable");
        if let Some((k, false)) = mp.transform {
            v = transform_bytes(td, &v, k);
        }
        out[mp.tgt] = v;
    }
    out
}

fn same_points(tm: &Model, got: &[Pt], want: &[Pt], what: &str) -> PResult {
    ensure!(got.len() == want.len(), "{what}: {} points, expected {}", got.len(), want.len());
    for i in 0..want.len() {
        for a in 0..tm.defs.len() {
            ensure!(same_value(tm.defs[a].datatype(), &got[i][a], &want[i][a]),
                "{what}: {} of point {i} is {:?}, expected {:?}", tm.defs[a], got[i][a], want[i][a]);
        }
    }
    Ok(())
}

pub fn read_all<'a, B: BorrowedBuffer<'a>>(b: &B, m: &Model) -> Vec<Pt> {
    let mut d = vec![0u8; m.psize];
    (0..b.len())
        .map(|i| {
            b.get_point(i, &mut d);
            m.decode(&d)
        })
        .collect()
}

fn c02_convert(g: &mut Gen) -> PResult {
    let with_default = g.chance(1, 2);
    let (sl, tl) = gen_layout_pair(g, with_default);
    let (mut sm, mut tm) = (Model::new(&sl), Model::new(&tl));
    let n = g.len(12);
    fill_values(g, &mut sm, n);
    fill_values(g, &mut tm, n);
    let kind = gen_kind(g);
    let src = make_buf(kind, &sm, 0x11);
    let maps = default_maps(&sl, &tl);
    let complete = maps.len() == tl.attributes().count();
    g.note(|| format!("{kind:?} source with {n} points"));
    let conv = if with_default {
        BufferLayoutConverter::for_layouts_with_default(&sl, &tl)
    } else {
        BufferLayoutConverter::for_layouts(&sl, &tl)
    };
    if with_default && !complete {
        refused("for_layouts with a target attribute missing from the source", || { BufferLayoutConverter::for_layouts(&sl, &tl); })?;
        g.class("defaulted attributes");
    }
    let fresh: Vec<Pt> = sm.pts.iter().map(|p| ref_convert(&sm, &tm, &maps, p, &tm.zero())).collect();
    let over: Vec<Pt> = (0..n).map(|i| ref_convert(&sm, &tm, &maps, &sm.pts[i], &tm.pts[i])).collect();
    // into new buffers
    on_buf!(&src, s => {
        let v: VectorBuffer = conv.convert(s);
        let h: HashMapBuffer = conv.convert(s);
        ensure!(v.point_layout() == &tl && h.point_layout() == &tl, "the converted buffer does not have the target layout");
        same_points(&tm, &read_all(&v, &tm), &fresh, "convert to an interleaved buffer")?;
        same_points(&tm, &read_all(&h, &tm), &fresh, "convert to a columnar buffer")?;
    });
    // the same converter again, and a new one, over existing buffers of every kind
    let conv2 = if with_default {
        BufferLayoutConverter::for_layouts_with_default(&sl, &tl)
    } else {
        BufferLayoutConverter::for_layouts(&sl, &tl)
    };
    let tkind = gen_kind(g);
    for c in [&conv, &conv2] {
        let mut tgt = make_buf(tkind, &tm, 0x22);
        on_buf!(&src, s => on_buf!(&mut tgt, t => c.convert_into(s, t)));
        on_buf!(&tgt, t => same_points(&tm, &read_all(t, &tm), &over, &format!("convert_into a {tkind:?} buffer")))?;
    }
    // slices as source and target
    let (lo, hi) = gen_subrange(g, n);
    let at = g.range(0, n - (hi - lo));
    let mut want = tm.pts.clone();
    for k in 0..hi - lo {
        want[at + k] = ref_convert(&sm, &tm, &maps, &sm.pts[lo + k], &tm.pts[at + k]);
    }
    let mut tgt = make_buf(tkind, &tm, 0x22);
    g.note(|| format!("slice {lo}..{hi} of the source into slice {at}..{} of a {tkind:?} target", at + hi - lo));
    on_buf!(&src, s => on_buf!(&mut tgt, t => conv.convert_into(&s.slice(lo..hi), &mut t.slice_mut(at..at + hi - lo))));
    on_buf!(&tgt, t => same_points(&tm, &read_all(t, &tm), &want, "convert_into between slices"))?;
    on_buf!(&src, s => {
        let v: HashMapBuffer = conv.convert(&s.slice(lo..hi));
        same_points(&tm, &read_all(&v, &tm), &fresh[lo..hi], "convert a slice")?;
    });
    // the source is unchanged
    on_buf!(&src, s => check_reads(g, s, &sm, "source after conversion"))?;
    // a target of another length or another layout is refused
    if g.chance(1, 4) {
        let mut short = tm.clone();
        if n > 0 && g.chance(1, 2) { short.pts.pop(); } else { let z = tm.zero(); short.pts.push(z); }
        if short.len() < n {
            let mut t = make_buf(tkind, &short, 0x22);
            on_buf!(&src, s => on_buf!(&mut t, t => refused("convert_into a shorter buffer", || conv.convert_into(s, t))))?;
            on_buf!(&t, t => same_points(&tm, &read_all(t, &tm), &short.pts, "target after a refused conversion"))?;
        }
        if sl != tl {
            let mut t = make_buf(Kind::Vector, &sm, 0);
            on_buf!(&src, s => on_buf!(&mut t, t => refused("convert_into a buffer that does not have the target layout", || conv.convert_into(s, t))))?;
            let s2 = make_buf(Kind::HashMap, &tm, 0);
            on_buf!(&s2, s => refused("converting a buffer that does not have the source layout", || { let _: VectorBuffer = conv.convert(s); }))?;
        }
    }
    if n > 0 && sl != tl {
        g.mark();
    }
    Ok(())
}

fn c02_refused(g: &mut Gen) -> PResult {
    // a shared attribute whose types cannot be converted
    let mut src = gen_attrs(g, 1, 4, true);
    let a = g.range(0, src.len() - 1);
    let other = gen_type(g, true);
    let tgt = vec![def(src[a].name().to_string(), other)];
    let conv_ok = castable(src[a].datatype(), other);
    let sl = gen_arrangement(g, &src);
    let tl = gen_arrangement(g, &tgt);
    g.note(|| format!("from {} to {}", show_layout(&sl), show_layout(&tl)));
    for with_default in [false, true] {
        let r = catching(|| {
            if with_default { BufferLayoutConverter::for_layouts_with_default(&sl, &tl); } else { BufferLayoutConverter::for_layouts(&sl, &tl); }
        });
        ensure!(r.is_ok() == conv_ok, "a converter for {} -> {other}: {:?}", src[a].datatype(), r);
    }
    let d = src.remove(a);
    if !src.is_empty() {
        let sl2 = gen_arrangement(g, &src);
        refused(&format!("for_layouts without {d} in the source"), || { BufferLayoutConverter::for_layouts(&sl2, &tl); })?;
    }
    if !conv_ok {
        g.mark();
    }
    Ok(())
}

pub fn c02() -> Property {
    Property { id: "C02", rule: "at least one point and different layouts, or a refused conversion",
        sections: vec![sec("convert", c02_convert, 360_000, 40), sec("refused", c02_refused, 240_000, 40)] }
}

// ---------------------------------------------------------------- C03

fn c03_mappings(g: &mut Gen) -> PResult {
    let (sl, tl) = gen_layout_pair(g, true);
    let (mut sm, mut tm) = (Model::new(&sl), Model::new(&tl));
    let (ns, nt) = (g.len(10), g.len(10));
    fill_values(g, &mut sm, ns);
    fill_values(g, &mut tm, nt);
    let kind = gen_kind(g);
    let tkind = gen_kind(g);
    let src = make_buf(kind, &sm, 0x11);
    let mut conv = BufferLayoutConverter::for_layouts_with_default(&sl, &tl);
    let mut maps = default_maps(&sl, &tl);
    let steps = g.range(0, 5);
    for _ in 0..steps {
        let (si, ti) = (g.range(0, sm.defs.len() - 1), g.range(0, tm.defs.len() - 1));
        let (sd, td) = (sm.defs[si].clone(), tm.defs[ti].clone());
        let (fd, tdt) = (sd.datatype(), td.datatype());
        let ok = castable(fd, tdt);
        let put = |maps: &mut Vec<Map>, m: Map| {
            maps.retain(|x| x.tgt != m.tgt);
            maps.push(m);
        };
        match g.range(0, 7) {
            0..=2 => {
                g.note(|| format!("set_custom_mapping({sd}, {td})"));
                if ok {
                    conv.set_custom_mapping(&sd, &td);
                    put(&mut maps, Map { src: si, tgt: ti, transform: None });
                } else {
                    refused(&format!("a mapping {sd} -> {td}"), || conv.set_custom_mapping(&sd, &td))?;
                    g.class("refused mapping");
                }
            }
            3..=6 => {
                let to_source = g.chance(1, 2);
                let k = g.range(1, 99) as u8;
                let tdt2 = if to_source { fd } else { tdt };
                // sometimes a function of the wrong type, which must be refused
                let wrong = g.chance(1, 8);
                let fn_type = if wrong { *g.choose(&PRIMS) } else { tdt2 };
                g.note(|| format!("set_custom_mapping_with_transformation({sd}, {td}, {fn_type} x*a+{k}, source: {to_source})"));
                with_prim!(fn_type, T => {
                    let f = move |x: T| -> T {
                        bytemuck::pod_read_unaligned(&transform_bytes(fn_type, bytemuck::bytes_of(&x), k))
                    };
                    if ok && fn_type == tdt2 {
                        conv.set_custom_mapping_with_transformation::<T, _>(&sd, &td, f, to_source);
                        put(&mut maps, Map { src: si, tgt: ti, transform: Some((k, to_source)) });
                        g.class("transformation");
                    } else {
                        refused(&format!("a {fn_type} transformation of {sd} -> {td} (source side: {to_source})"),
                            || conv.set_custom_mapping_with_transformation::<T, _>(&sd, &td, f, to_source))?;
                        g.class("refused mapping");
                    }
                }, ());
            }
            _ => {
                let ghost = def("no such attribute", fd);
                g.note(|| "mapping of an attribute that is in neither layout".into());
                refused("a mapping from an attribute that is not in the source layout", || conv.set_custom_mapping(&ghost, &td))?;
                refused("a mapping to an attribute that is not in the target layout", || conv.set_custom_mapping(&sd, &ghost))?;
                let near = def(td.name().to_string(), *g.choose(&PRIMS));
                if near != td {
                    refused("a mapping to an attribute of another type than in the target layout", || conv.set_custom_mapping(&sd, &near))?;
                }
            }
        }
    }
    let mut tgt = make_buf(tkind, &tm, 0x22);
    for _ in 0..g.range(1, 3) {
        let len = g.range(0, ns.min(nt));
        let (s0, t0) = (g.range(0, ns - len), g.range(0, nt - len));
        g.note(|| format!("convert_into_range {kind:?} {s0}..{} of {ns} -> {tkind:?} {t0}..{} of {nt}", s0 + len, t0 + len));
        if g.chance(1, 5) {
            // ranges that do not fit
            let (sr, tr) = match g.range(0, 3) {
                0 => (s0..s0 + len, t0..t0 + len + 1),
                1 => (s0..s0 + len + 1, t0..t0 + len),
                2 => (ns - len..ns + 1, t0..t0 + len + 1),
                _ => (s0..s0 + len + 1, nt - len..nt + 1),
            };
            on_buf!(&src, s => on_buf!(&mut tgt, t => refused(&format!("convert_into_range({sr:?} of {ns}, {tr:?} of {nt})"), || conv.convert_into_range(s, sr.clone(), t, tr.clone()))))?;
            g.class("refused range");
        } else {
            if g.chance(1, 4) && nt > 0 {
                // target is a mutable slice
                let (lo, hi) = (t0, g.range(t0 + len, nt));
                on_buf!(&src, s => on_buf!(&mut tgt, t => conv.convert_into_range(&s.slice(0..ns), s0..s0 + len, &mut t.slice_mut(lo..hi), 0..len)));
            } else {
                on_buf!(&src, s => on_buf!(&mut tgt, t => conv.convert_into_range(s, s0..s0 + len, t, t0..t0 + len)));
            }
            for k in 0..len {
                tm.pts[t0 + k] = ref_convert(&sm, &tm, &maps, &sm.pts[s0 + k], &tm.pts[t0 + k]);
            }
            if len > 0 && (len < nt || steps > 0) {
                g.mark();
            }
        }
        let got = on_buf!(&tgt, t => read_all(t, &tm));
        same_points(&tm, &got, &tm.pts, "target after convert_into_range")?;
        tm.pts = got; // NaN payloads as stored
    }
    // convert with the same mappings into a new buffer
    let fresh: Vec<Pt> = sm.pts.iter().map(|p| ref_convert(&sm, &tm, &maps, p, &tm.zero())).collect();
    on_buf!(&src, s => {
        if g.chance(1, 2) {
            let b: VectorBuffer = conv.convert(s);
            same_points(&tm, &read_all(&b, &tm), &fresh, "convert with mappings to an interleaved buffer")?;
        } else {
            let b: HashMapBuffer = conv.convert(s);
            same_points(&tm, &read_all(&b, &tm), &fresh, "convert with mappings to a columnar buffer")?;
        }
    });
    on_buf!(&src, s => check_reads(g, s, &sm, "source after conversion"))
}

pub fn c03() -> Property {
    Property { id: "C03", rule: "points were converted in a proper sub-range or with custom mappings",
        sections: vec![sec("mappings", c03_mappings, 500_000, 40)] }
}

// ---------------------------------------------------------------- C04

fn c04_points(g: &mut Gen) -> PResult {
    let (sl, mut tl) = gen_layout_pair(g, true);
    if g.chance(1, 5) {
        // some shared attributes may be inconvertible: those are left alone
        let defs: Vec<Def> = defs_of(&tl).into_iter().map(|d| if g.chance(1, 2) { let t = gen_type(g, true); def(d.name().to_string(), t) } else { d }).collect();
        tl = gen_arrangement(g, &defs);
        g.note(|| format!("target layout {}", show_layout(&tl)));
    }
    let (mut sm, mut tm) = (Model::new(&sl), Model::new(&tl));
    fill_values(g, &mut sm, 1);
    fill_values(g, &mut tm, 1);
    let conv = RawPointConverter::from_to(&sl, &tl);
    let maps: Vec<Map> = default_maps(&sl, &tl).into_iter().filter(|m| castable(sm.defs[m.src].datatype(), tm.defs[m.tgt].datatype())).collect();
    for round in 0..2 {
        let (so, to) = (g.range(0, 7), g.range(0, 7));
        let pad = g.range(0, 255) as u8;
        let mut sbuf = vec![0xC3u8; so];
        sbuf.extend(sm.encode(&sm.pts[0], 0x77));
        let mut tbuf = vec![pad; to];
        tbuf.extend(tm.encode(&tm.pts[0], pad));
        tbuf.extend([pad; 16]);
        let sbefore = sbuf.clone();
        unsafe { conv.convert(&sbuf[so..], &mut tbuf[to..to + tm.psize]) };
        ensure!(sbuf == sbefore, "RawPointConverter changed the source point");
        let want = ref_convert(&sm, &tm, &maps, &sm.pts[0], &tm.pts[0]);
        let got = tm.decode(&tbuf[to..to + tm.psize]);
        same_points(&tm, &[got.clone()], &[want], "RawPointConverter")?;
        let mut expect = vec![pad; to];
        expect.extend(tm.encode(&got, pad));
        expect.extend([pad; 16]);
        ensure!(tbuf == expect, "RawPointConverter changed bytes that belong to no attribute");
        if round == 0 {
            // agreement with the buffer converter
            if maps.len() == default_maps(&sl, &tl).len() {
                let src = make_buf(Kind::Vector, &sm, 0);
                let mut tgt = make_buf(Kind::Vector, &tm, 0);
                let bc = BufferLayoutConverter::for_layouts_with_default(&sl, &tl);
                on_buf!(&src, s => on_buf!(&mut tgt, t => bc.convert_into(s, t)));
                on_buf!(&tgt, t => same_points(&tm, &read_all(t, &tm), &[got], "buffer conversion of the same point"))?;
            } else {
                g.class("inconvertible shared attribute");
            }
            fill_values(g, &mut sm, 1);
        }
    }
    if !maps.is_empty() {
        g.mark();
    }
    Ok(())
}

pub fn c04() -> Property {
    Property { id: "C04", rule: "the layouts share a convertible attribute", sections: vec![sec("points", c04_points, 1_500_000, 40)] }
}

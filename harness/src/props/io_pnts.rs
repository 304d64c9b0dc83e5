//! 3D Tiles point files (I02).

use super::io_ascii::points_of;
use super::io_file::MemFile;
use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use crate::{ensure, on_buf};
use pasture_core::containers::*;
use pasture_core::layout::{attributes as at, PointLayout};
use pasture_core::math::AABB;
use pasture_core::nalgebra::{Matrix4, Point3, Vector3, Vector4};
use pasture_io::base::{PointReader, PointWriter, SeekToPoint};
use pasture_io::tiles3d::*;
use serde_json::{json, Map, Value};
use std::io::{BufReader, BufWriter, Seek, SeekFrom};

pub fn i02() -> Property {
    Property {
        id: "I02",
        rule: "a file with at least two points, or a refused one; a table or tile set with at least one entry",
        sections: vec![
            sec("write", write_case, 30000, 15),
            sec("read", read_case, 50000, 15),
            sec("bad-files", bad_files, 20000, 15),
            sec("full-disk", full_disk, 8000, 15),
            sec("tables", tables, 20000, 15),
            sec("tileset", tileset, 8000, 15),
        ],
    }
}

/// The attributes the format can hold, with the data type and the name they have in the file.
fn supported() -> [(Def, &'static str); 4] {
    [
        (def("Position3D", DT::Vec3f32), "POSITION"),
        (attributes::COLOR_RGBA, "RGBA"),
        (def("ColorRGB", DT::Vec3u8), "RGB"),
        (at::NORMAL, "NORMAL"),
    ]
}

fn in_file(d: &Def) -> Option<(Def, &'static str)> {
    supported().into_iter().find(|(s, _)| s.name() == d.name())
}

/// A finite number that survives a JSON round trip exactly.
fn num(g: &mut Gen) -> f64 {
    match g.range(0, 3) {
        0 => g.irange(-100, 100) as f64,
        1 => g.irange(-1_000_000, 1_000_000) as f64 / 8.0,
        2 => g.irange(-40_000, 40_000) as f64 / 16.0,
        _ => *g.choose(&[0.0, 0.5, 1e10, -0.125, 1e12]),
    }
}

fn vec3(g: &mut Gen) -> Vector3<f64> {
    let (x, y, z) = (num(g), num(g), num(g));
    Vector3::new(x, y, z)
}

fn gen_max(g: &mut Gen) -> usize {
    if g.chance(1, 2) { 0 } else { g.range(1, 9) }
}

fn shuffle<T>(g: &mut Gen, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = g.range(0, i);
        v.swap(i, j);
    }
}

/// A layout with at least one supported attribute, in file or other (convertible) types, and others besides.
fn gen_target(g: &mut Gen, at_least: bool) -> Vec<Def> {
    let mut attrs: Vec<Def> = vec![];
    for (d, _) in supported() {
        if g.chance(2, 5) {
            continue;
        }
        let t = if d.datatype() != DT::Vec4u8 && g.chance(1, 3) { *g.choose(&[DT::Vec3u8, DT::Vec3u16, DT::Vec3i32, DT::Vec3f32, DT::Vec3f64]) } else { d.datatype() };
        attrs.push(def(d.name().to_string(), t));
    }
    if attrs.is_empty() && at_least {
        attrs.push(at::POSITION_3D);
    }
    for d in builtins() {
        if in_file(&d).is_none() && g.chance(1, 8) {
            attrs.push(d);
        }
    }
    if attrs.is_empty() || g.chance(1, 6) {
        attrs.push(def("custom", gen_type(g, true)));
    }
    shuffle(g, &mut attrs);
    attrs
}

/// Values of all attributes: interesting numbers for the supported ones.
fn gen_vals(g: &mut Gen, m: &Model, n: usize) -> Vec<Pt> {
    if n > 64 {
        return m.gen_pts(g, n);
    }
    (0..n).map(|_| m.defs.iter().map(|d| gen_value(g, d.datatype())).collect()).collect()
}

struct File {
    json: Map<String, Value>,
    body: Vec<u8>,
}

/// An independent reading of the container.
fn parse(data: &[u8]) -> Result<File, String> {
    if data.len() < 28 {
        return Err(format!("the file has {} bytes", data.len()));
    }
    let u = |i: usize| u32::from_le_bytes(data[4 + 4 * i..8 + 4 * i].try_into().unwrap()) as usize;
    if &data[..4] != b"pnts" || u(0) != 1 {
        return Err(format!("magic {:?}, version {}", &data[..4], u(0)));
    }
    let (total, fj, fb, bj, bb) = (u(1), u(2), u(3), u(4), u(5));
    if total != data.len() || 28 + fj + fb + bj + bb != total {
        return Err(format!("header lengths {fj}+{fb}+{bj}+{bb}+28, byteLength {total}, file length {}", data.len()));
    }
    for (what, end) in [("feature table JSON", 28 + fj), ("feature table binary", 28 + fj + fb), ("batch table JSON", 28 + fj + fb + bj), ("file", total)] {
        if end % 8 != 0 {
            return Err(format!("the {what} ends at byte {end}, which is no multiple of 8"));
        }
    }
    let json: Value = serde_json::from_slice(&data[28..28 + fj]).map_err(|e| format!("feature table: {e}: {:?}", String::from_utf8_lossy(&data[28..28 + fj])))?;
    if bj > 0 {
        serde_json::from_slice::<Value>(&data[28 + fj + fb..28 + fj + fb + bj]).map_err(|e| format!("batch table: {e}"))?;
    }
    Ok(File { json: json.as_object().cloned().ok_or("feature table is no object")?, body: data[28 + fj..28 + fj + fb].to_vec() })
}

/// The file holds these points: one value of `defs` in file types per point.
fn check_file(data: &[u8], defs: &[Def], pts: &[Pt], rtc: Option<Vector3<f64>>) -> PResult {
    let f = match parse(data) {
        Ok(f) => f,
        Err(e) => return fail(format!("not a valid file: {e}")),
    };
    ensure!(f.json.get("POINTS_LENGTH") == Some(&json!(pts.len())), "POINTS_LENGTH is {:?} for {} points", f.json.get("POINTS_LENGTH"), pts.len());
    let have = f.json.get("RTC_CENTER").map(|v| v.clone());
    ensure!(have == rtc.map(|c| json!([c.x, c.y, c.z])), "RTC_CENTER is {have:?}, set was {rtc:?}");
    let mut ranges = vec![];
    for (d, name) in supported() {
        let Some(a) = defs.iter().position(|x| x.name() == d.name()) else {
            ensure!(!f.json.contains_key(name), "{name} is in the file, but not in the layout");
            continue;
        };
        let Some(off) = f.json.get(name).and_then(|v| v.get("byteOffset")).and_then(|v| v.as_u64()) else {
            return fail(format!("no byte offset for {name}: {:?}", f.json));
        };
        let off = off as usize;
        let size = ref_size(d.datatype()) as usize;
        ensure!(off % ref_align(d.datatype()).min(4) as usize == 0, "{name} is at byte {off}, not aligned");
        ensure!(off + size * pts.len() <= f.body.len(), "{name} at {off} for {} points is beyond the {} bytes of the body", pts.len(), f.body.len());
        ranges.push((off, off + size * pts.len()));
        for (i, p) in pts.iter().enumerate() {
            let got = &f.body[off + i * size..off + (i + 1) * size];
            ensure!(same_value(d.datatype(), got, &p[a]), "{name} of point {i} is {:?} in the file, expected {:?}", got, p[a]);
        }
    }
    ranges.sort();
    for w in ranges.windows(2) {
        ensure!(w[0].1 <= w[1].0, "attributes overlap in the file: {ranges:?}");
    }
    Ok(())
}

fn write_case(g: &mut Gen) -> PResult {
    let attrs = gen_target(g, true);
    let mut m = Model::new(&gen_arrangement(g, &attrs));
    let file_defs: Vec<Def> = m.defs.iter().filter_map(|d| in_file(d).map(|x| x.0)).collect();
    let file = MemFile::new(vec![], gen_max(g));
    let buffered = g.chance(1, 3);
    g.note(|| format!("layout {}, buffered {buffered}", show_layout(&m.layout)));
    let mut all: Vec<Pt> = vec![];
    let mut rtc = None;
    macro_rules! history { ($w:expr) => {{
        let mut w = PntsWriter::from_write_and_layout($w, m.layout.clone());
        {
            let mut have: Vec<String> = defs_of(w.get_default_point_layout()).iter().map(|d| d.to_string()).collect();
            let mut want: Vec<String> = file_defs.iter().map(|d| d.to_string()).collect();
            have.sort();
            want.sort();
            ensure!(have == want, "default layout {} for {}", show_layout(w.get_default_point_layout()), show_layout(&m.layout));
        }
        for _ in 0..g.range(1, 5) {
            match g.range(0, 5) {
                0 => {
                    let c = vec3(g);
                    g.note(|| format!("set_rtc_center({c:?})"));
                    w.set_rtc_center(c);
                    rtc = Some(c);
                }
                1 => {
                    g.note(|| "flush".into());
                    ensure!(w.flush().is_ok(), "flush failed");
                    g.class("flush");
                    check_file(&file.data(), &file_defs, &all, rtc)?;
                }
                2 if g.chance(1, 3) => {
                    // points of another layout are refused
                    let other = Model::new(&gen_layout(g, 4, false));
                    if other.layout == m.layout { continue; }
                    let mut other = other;
                    other.pts = other.gen_pts(g, 2);
                    let b = make_buf(Kind::Vector, &other, 0);
                    let r = catching(|| on_buf!(&b, b => w.write(b)));
                    ensure!(!matches!(r, Ok(Ok(()))), "points of the layout {} were accepted by a writer for {}", show_layout(&other.layout), show_layout(&m.layout));
                    g.class("other layout refused");
                }
                _ => {
                    let n = g.len(40);
                    m.pts = gen_vals(g, &m, n);
                    let kind = gen_kind(g);
                    g.note(|| format!("write of {n} points, {kind:?}"));
                    let b = make_buf(kind, &m, 0xC3);
                    let r = on_buf!(&b, b => w.write(b).map_err(|e| format!("{e:#}")));
                    ensure!(r.is_ok(), "write failed: {r:?}");
                    for p in &m.pts {
                        all.push(file_defs.iter().map(|f| {
                            let a = m.defs.iter().position(|d| d.name() == f.name()).unwrap();
                            ref_cast(m.defs[a].datatype(), f.datatype(), &p[a]).unwrap()
                        }).collect());
                    }
                }
            }
        }
        if g.chance(1, 2) {
            ensure!(w.flush().is_ok(), "flush failed");
            check_file(&file.data(), &file_defs, &all, rtc)?;
        }
        drop(w);
    }} }
    if buffered {
        let cap = g.range(1, 200);
        history!(BufWriter::with_capacity(cap, file.clone()));
    } else {
        history!(file.clone());
    }
    if all.len() > 1 {
        g.mark();
    }
    check_file(&file.data(), &file_defs, &all, rtc)?;
    // and the reader agrees
    let mut r = match PntsReader::from_read(BufReader::new(MemFile::new(file.data(), 0))) {
        Ok(r) => r,
        Err(e) => return fail(format!("the reader refuses the file: {e:#}")),
    };
    r.set_read_positions_mode(PntsReadPositionsMode::RelativeToCenter);
    if all.is_empty() {
        return Ok(());
    }
    match r.read::<VectorBuffer>(all.len() + 3) {
        Ok(b) => {
            let rm = Model::new(b.point_layout());
            let pts = points_of(&b, &rm);
            ensure!(pts.len() == all.len(), "{} points written, {} read", all.len(), pts.len());
            for (i, (p, q)) in all.iter().zip(&pts).enumerate() {
                for (a, d) in file_defs.iter().enumerate() {
                    let Some(x) = rm.defs.iter().position(|x| x == d) else { return fail(format!("{d} was not read back")) };
                    ensure!(same_value(d.datatype(), &p[a], &q[x]), "{d} of point {i}: {:?} written, {:?} read", p[a], q[x]);
                }
            }
        }
        Err(e) => return fail(format!("reading back failed: {e:#}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- reading

pub struct Built {
    pub data: Vec<u8>,
    /// file attributes and their points
    pub m: Model,
    pub rtc: Option<Vector3<f64>>,
    pub json: Map<String, Value>,
    /// where the values of the last attribute in the file end
    pub data_end: usize,
}

/// An independent writer: any order of the attributes, gaps, further entries, any batch table.
pub fn build(g: &mut Gen) -> Built {
    let mut defs: Vec<(Def, &'static str)> = supported().into_iter().filter(|_| g.chance(3, 5)).collect();
    if defs.is_empty() {
        defs.push(supported()[0].clone());
    }
    let n = g.len(40);
    let m0 = Model::new(&PointLayout::from_attributes_packed(&defs.iter().map(|d| d.0.clone()).collect::<Vec<_>>(), 1));
    let mut m = m0.clone();
    m.pts = gen_vals(g, &m0, n);
    let mut order: Vec<usize> = (0..defs.len()).collect();
    shuffle(g, &mut order);
    let mut json = Map::new();
    let mut body = vec![];
    let mut data_end = 0;
    for a in order {
        while body.len() % 4 != 0 {
            body.push(0xEE);
        }
        for _ in 0..4 * g.small(3) {
            body.push(0xDD);
        }
        json.insert(defs[a].1.into(), json!({ "byteOffset": body.len() }));
        body.extend(m.column(a, 0, n));
        data_end = body.len();
    }
    while body.len() % 8 != 0 {
        body.push(0);
    }
    json.insert("POINTS_LENGTH".into(), json!(n));
    let rtc = if g.chance(1, 2) { Some(vec3(g)) } else { None };
    if let Some(c) = rtc {
        json.insert("RTC_CENTER".into(), json!([c.x, c.y, c.z]));
    }
    if g.chance(1, 4) {
        json.insert("QUANTIZED_VOLUME_OFFSET".into(), json!([g.irange(-50, 50), 2.5, -1]));
    }
    if g.chance(1, 4) {
        json.insert("QUANTIZED_VOLUME_SCALE".into(), json!([1, 0.5, g.irange(1, 9)]));
    }
    if g.chance(1, 4) {
        json.insert("CONSTANT_RGBA".into(), json!([g.range(0, 255), g.range(0, 255), 255, 0]));
    }
    if g.chance(1, 4) {
        json.insert("BATCH_LENGTH".into(), json!(g.range(0, 1000)));
    }
    if g.chance(1, 4) {
        json.insert("BATCH_ID".into(), json!({ "byteOffset": 0, "componentType": "UNSIGNED_BYTE" }));
    }
    if g.chance(1, 6) {
        json.insert("something else".into(), json!("text"));
    }
    let mut fj = serde_json::to_vec(&Value::Object(json.clone())).unwrap();
    while (28 + fj.len()) % 8 != 0 {
        fj.push(b' ');
    }
    let mut bj = if g.chance(1, 3) { b"{\"id\":[1,2,3]}".to_vec() } else { vec![] };
    while (28 + fj.len() + body.len() + bj.len()) % 8 != 0 {
        bj.push(b' ');
    }
    let bb = vec![7u8; if bj.is_empty() { 0 } else { 8 * g.small(2) }];
    let total = 28 + fj.len() + body.len() + bj.len() + bb.len();
    let mut data = b"pnts".to_vec();
    for v in [1, total, fj.len(), body.len(), bj.len(), bb.len()] {
        data.extend((v as u32).to_le_bytes());
    }
    data_end += 28 + fj.len();
    for part in [&fj, &body, &bj, &bb] {
        data.extend(part.iter());
    }
    Built { data, m, rtc, json, data_end }
}

fn open(g: &mut Gen, data: Vec<u8>) -> anyhow::Result<PntsReader<BufReader<MemFile>>> {
    let max = gen_max(g);
    let cap = if g.chance(1, 2) { 8192 } else { g.range(1, 64) };
    PntsReader::from_read(BufReader::with_capacity(cap, MemFile::new(data, max)))
}

fn v64(t: DT, b: &[u8]) -> Vec<u8> {
    ref_cast(t, DT::Vec3f64, b).unwrap()
}

/// The value an attribute of a read point must have, None if that cannot be read at all.
fn expected(d: &Def, file: &Def, v: &[u8], center: Option<Vector3<f64>>) -> Option<Vec<u8>> {
    let c = ref_cast(file.datatype(), d.datatype(), v)?;
    let Some(o) = (if file.name() == "Position3D" { center } else { None }) else { return Some(c) };
    let full = v64(d.datatype(), &c);
    let moved: Vec<f64> = full.chunks(8).zip([o.x, o.y, o.z]).map(|(b, o)| f64::from_ne_bytes(b.try_into().unwrap()) + o).collect();
    match d.datatype() {
        DT::Vec3f32 => Some(moved.iter().flat_map(|x| (*x as f32).to_ne_bytes()).collect()),
        DT::Vec3f64 => Some(moved.iter().flat_map(|x| x.to_ne_bytes()).collect()),
        _ => None,
    }
}

fn read_case(g: &mut Gen) -> PResult {
    let f = build(g);
    let total = f.m.len();
    let mut r = match open(g, f.data.clone()) {
        Ok(r) => r,
        Err(e) => return fail(format!("a valid file was refused: {e:#}: {:?}", f.json)),
    };
    g.note(|| format!("{total} points, {:?}", f.json));
    if total > 1 {
        g.mark();
    }
    let dl = r.get_default_point_layout().clone();
    let mut have: Vec<String> = defs_of(&dl).iter().map(|d| d.to_string()).collect();
    let mut want: Vec<String> = f.m.defs.iter().map(|d| d.to_string()).collect();
    have.sort();
    want.sort();
    ensure!(have == want, "default layout {} for {:?}", show_layout(&dl), f.json);
    check_metadata(&r, &f, total)?;
    let mut at = 0usize;
    let mut absolute = true;
    for _ in 0..g.range(1, 8) {
        match g.range(0, 9) {
            0 => {
                absolute = g.chance(1, 2);
                g.note(|| format!("absolute positions: {absolute}"));
                r.set_read_positions_mode(if absolute { PntsReadPositionsMode::Absolute } else { PntsReadPositionsMode::RelativeToCenter });
                ensure!(matches!(r.read_positions_mode(), PntsReadPositionsMode::Absolute) == absolute, "read_positions_mode()");
            }
            1..=3 => {
                let k = g.irange(-3 - total as i64, 3 + total as i64);
                let (to, want) = match g.range(0, 2) {
                    0 => (SeekFrom::Start(k.max(0) as u64), k.max(0)),
                    1 => (SeekFrom::Current(k), at as i64 + k),
                    _ => (SeekFrom::End(k), total as i64 + k),
                };
                g.note(|| format!("seek {to:?} at {at}"));
                let res = r.seek_point(to);
                if want < 0 {
                    ensure!(res.is_err(), "seeking to point {want} gave {res:?}");
                    g.class("seek before the start refused");
                } else {
                    at = (want as usize).min(total);
                    ensure!(matches!(res, Ok(p) if p == at), "seek {to:?} gave {res:?}, expected {at}");
                }
                ensure!(matches!(r.point_index(), Ok(p) if p == at), "point_index() is {:?}, expected {at}", r.point_index());
            }
            4 => {
                let c = SeekToPoint::point_count(&mut r);
                ensure!(matches!(c, Ok(c) if c == total), "point_count() is {c:?} of {total}");
                ensure!(matches!(r.point_index(), Ok(p) if p == at), "point_count() moved to {:?}", r.point_index());
            }
            _ => {
                let left = total - at;
                let k = match g.range(0, 3) {
                    0 => left,
                    1 => left + g.range(1, 4),
                    _ => g.range(0, left),
                };
                let exp = k.min(left);
                let own = g.chance(1, 2);
                let m = if own { let a = gen_target(g, false); Model::new(&gen_arrangement(g, &a)) } else { Model::new(&dl) };
                let len = if own { k + g.small(3) } else { k };
                let mut m0 = m.clone();
                m0.pts = if own { gen_vals(g, &m, len) } else { vec![m.zero(); len] };
                g.note(|| format!("{} {k} of {left} into {len} points of {}", if own { "read_into" } else { "read" }, show_layout(&m.layout)));
                let center = if absolute { f.rtc } else { None };
                let possible = m.defs.iter().all(|d| match f.m.defs.iter().find(|x| x.name() == d.name()) {
                    Some(x) => expected(d, x, &vec![0; ref_size(x.datatype()) as usize], center).is_some(),
                    None => true,
                });
                let res: Result<(usize, Vec<Pt>), String> = if own {
                    let mut b = make_buf(gen_kind(g), &m0, 0x5A);
                    let res = catching(|| on_buf!(&mut b, b => r.read_into(b, k).map_err(|e| format!("{e:#}"))));
                    let after = on_buf!(&b, b => points_of(b, &m));
                    match res {
                        Ok(Ok(n)) => Ok((n, after)),
                        Ok(Err(e)) => Err(e),
                        Err(p) => if possible { return fail(format!("read_into: {p}")) } else { Err(p) },
                    }
                } else if g.chance(1, 2) {
                    r.read::<HashMapBuffer>(k).map(|b| (b.len(), points_of(&b, &m))).map_err(|e| format!("{e:#}"))
                } else {
                    r.read::<VectorBuffer>(k).map(|b| (b.len(), points_of(&b, &m))).map_err(|e| format!("{e:#}"))
                };
                if !possible && exp > 0 {
                    ensure!(res.is_err(), "positions with RTC_CENTER were read into {} as {:?}", show_layout(&m.layout), res);
                    g.class("unsupported positions refused");
                    return Ok(());
                }
                let (n, after) = match res {
                    Ok(x) => x,
                    // the reader reports the end of the file as an error
                    Err(_) if exp == 0 => { g.class("read at the end"); continue; }
                    Err(e) => return fail(format!("reading {k} points failed: {e}")),
                };
                ensure!(n == exp, "{k} of {left} points read: {n}");
                ensure!(!own || after.len() == len, "the length of the buffer changed");
                for i in 0..after.len() {
                    for (a, d) in m.defs.iter().enumerate() {
                        let src = f.m.defs.iter().position(|x| x.name() == d.name());
                        let want = match src {
                            Some(s) if i < exp => expected(d, &f.m.defs[s], &f.m.pts[at + i][s], center).unwrap(),
                            _ => m0.pts[i][a].clone(),
                        };
                        ensure!(same_value(d.datatype(), &after[i][a], &want), "{d} of point {i} ({} in the file, {exp} read) is {:?}, expected {:?}", at + i, after[i][a], want);
                    }
                }
                at += exp;
                ensure!(matches!(r.point_index(), Ok(p) if p == at), "after reading, point_index() is {:?}, expected {at}", r.point_index());
            }
        }
    }
    Ok(())
}

fn check_metadata(r: &PntsReader<BufReader<MemFile>>, f: &Built, total: usize) -> PResult {
    let md = r.get_metadata();
    ensure!(md.number_of_points() == Some(total), "number_of_points() is {:?} of {total}", md.number_of_points());
    ensure!(md.bounds().is_none(), "a pnts file has no bounds");
    let vec = |v: &Value| { let a: Vec<f64> = v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect(); Vector3::new(a[0], a[1], a[2]) };
    for name in ["RTC_CENTER", "QUANTIZED_VOLUME_OFFSET", "QUANTIZED_VOLUME_SCALE", "CONSTANT_RGBA", "BATCH_LENGTH", "no such field"] {
        let got = md.get_named_field(name);
        let want = f.json.get(name);
        ensure!(got.is_some() == want.is_some(), "get_named_field({name:?}) is {}, the file says {want:?}", if got.is_some() { "there" } else { "absent" });
        let (Some(got), Some(want)) = (got, want) else { continue };
        let ok = match name {
            "RTC_CENTER" => got.downcast_ref::<Vector3<f64>>() == Some(&vec(want)),
            "CONSTANT_RGBA" => {
                let c: Vec<u8> = want.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                got.downcast_ref::<Vector4<u8>>() == Some(&Vector4::new(c[0], c[1], c[2], c[3]))
            }
            "BATCH_LENGTH" => got.downcast_ref::<usize>().map(|x| *x as u64) == want.as_u64(),
            _ => got.downcast_ref::<Vector3<f32>>() == Some(&vec(want).map(|x| x as f32)),
        };
        ensure!(ok, "get_named_field({name:?}) differs from the file, which says {want:?}");
    }
    let copy = md.clone_into_box();
    ensure!(copy.number_of_points() == md.number_of_points() && copy.to_string() == md.to_string(), "the copy of the metadata differs");
    Ok(())
}

fn bad_files(g: &mut Gen) -> PResult {
    let f = build(g);
    let mut data = f.data.clone();
    let fj = u32::from_le_bytes(data[12..16].try_into().unwrap()) as usize;
    g.mark();
    let edit = |key: &str, v: Option<Value>| -> Vec<u8> {
        let mut json = f.json.clone();
        match v {
            Some(v) => { json.insert(key.into(), v); }
            None => { json.remove(key); }
        }
        let mut text = serde_json::to_vec(&Value::Object(json)).unwrap();
        while (28 + text.len()) % 8 != 0 {
            text.push(b' ');
        }
        let mut out = f.data[..28].to_vec();
        out[12..16].copy_from_slice(&(text.len() as u32).to_le_bytes());
        out.extend(text);
        out.extend(&f.data[28 + fj..]);
        out
    };
    let what: String;
    match g.range(0, 7) {
        0 => {
            let k = g.range(0, 3);
            data[k] ^= 1 << g.range(0, 7);
            what = format!("byte {k} of the magic number changed");
        }
        1 => {
            let n = g.range(0, 27 + fj);
            data.truncate(n);
            what = format!("cut after {n} bytes, within the header");
        }
        2 => {
            data = edit("POINTS_LENGTH", None);
            what = "no POINTS_LENGTH".into();
        }
        3 => {
            let v = g.choose(&[json!("3"), json!(-1), json!([3]), json!(1.5), json!(null), json!({"byteOffset": 0})]).clone();
            what = format!("POINTS_LENGTH {v}");
            data = edit("POINTS_LENGTH", Some(v));
        }
        4 => {
            let name = *g.choose(&["POSITION", "RGB", "RGBA", "NORMAL"]);
            let v = g.choose(&[json!(0), json!([0, 1, 2]), json!({"offset": 0}), json!({"byteOffset": -1}), json!({"byteOffset": "0"}), json!("x")]).clone();
            what = format!("{name} {v}");
            data = edit(name, Some(v));
        }
        5 => {
            let name = *g.choose(&["RTC_CENTER", "QUANTIZED_VOLUME_OFFSET", "QUANTIZED_VOLUME_SCALE", "CONSTANT_RGBA"]);
            let v = g.choose(&[json!(0), json!([0, 1]), json!([1, 2, 3, 4, 5]), json!([0, "1", 2, 3]), json!(["a", "b", "c"]), json!("x")]).clone();
            what = format!("{name} {v}");
            data = edit(name, Some(v));
        }
        6 => {
            let v = g.choose(&[json!("3"), json!(-1), json!([3]), json!(1.5)]).clone();
            what = format!("BATCH_LENGTH {v}");
            data = edit("BATCH_LENGTH", Some(v));
        }
        _ => {
            // the points themselves are cut off
            if f.m.len() == 0 {
                return Ok(());
            }
            let body = 28 + fj;
            let n = g.range(body, f.data_end - 1);
            data.truncate(n);
            g.note(|| format!("{} of {} bytes, body at {body}", n, f.data.len()));
            let res = open(g, data).and_then(|mut r| { r.set_read_positions_mode(PntsReadPositionsMode::RelativeToCenter); r.read::<VectorBuffer>(f.m.len()).map(|b| b.len()) });
            ensure!(res.is_err(), "reading all points of a file cut at byte {n} gave {res:?}");
            g.class("points cut off");
            return Ok(());
        }
    }
    g.note(|| format!("{what}, {:?}", f.json));
    let r = catching(|| open(g, data).map(|_| ()));
    ensure!(!matches!(r, Ok(Ok(()))), "a file was accepted: {what}");
    if let Err(p) = r {
        return fail(format!("{what}: {p}"));
    }
    g.class("refused");
    Ok(())
}

fn full_disk(g: &mut Gen) -> PResult {
    let attrs = gen_target(g, true);
    let mut m = Model::new(&gen_arrangement(g, &attrs));
    let n = g.range(1, 20);
    m.pts = gen_vals(g, &m, n);
    let b = make_buf(gen_kind(g), &m, 0);
    let run = |f: MemFile| -> Result<(), String> {
        let r = catching(|| {
            let mut w = PntsWriter::from_write_and_layout(f, m.layout.clone());
            let r = on_buf!(&b, b => w.write(b)).and_then(|_| w.flush()).map_err(|e| format!("{e:#}"));
            // the destructor tries again and cannot report an error otherwise than by a panic
            let _ = catching(move || drop(w));
            r
        });
        r.and_then(|r| r)
    };
    let full = MemFile::new(vec![], 0);
    let r = run(full.clone());
    ensure!(r.is_ok(), "{r:?}");
    let want = full.data();
    let room = g.range(0, want.len());
    g.note(|| format!("{n} points of {}, room for {room} of {} bytes", show_layout(&m.layout), want.len()));
    let r = run(MemFile::failing(room as u64));
    ensure!(r.is_ok() == (room == want.len()), "room for {room} of {} bytes: {r:?}", want.len());
    g.mark();
    Ok(())
}

// ---------------------------------------------------------------- JSON

fn gen_json(g: &mut Gen, depth: usize) -> Value {
    match g.range(0, if depth > 0 { 6 } else { 4 }) {
        0 => json!(g.irange(-1000, 1000)),
        1 => json!(num(g)),
        2 => json!(*g.choose(&["", "x", "a b", "ä\"\\\n", "byteOffset"])),
        3 => json!(g.chance(1, 2)),
        4 => Value::Null,
        5 => Value::Array((0..g.small(3)).map(|_| gen_json(g, depth - 1)).collect()),
        _ => Value::Object((0..g.small(3)).map(|i| (format!("k{i}"), gen_json(g, depth - 1))).collect()),
    }
}

fn gen_key(g: &mut Gen, i: usize) -> String {
    format!("{}{i}", g.choose(&["A", "POSITION", "", "ü", "long name with spaces "]))
}

fn tables(g: &mut Gen) -> PResult {
    let n = g.small(6);
    let start = g.range(0, 40);
    let file = MemFile::new(vec![], gen_max(g));
    if n > 0 {
        g.mark();
    }
    let max = gen_max(g);
    let refs = |g: &mut Gen| g.range(0, 100_000);
    if g.chance(1, 2) {
        let mut h = FeatureTableHeader::new();
        for i in 0..n {
            let v = match g.range(0, 2) {
                0 => FeatureTableValue::DataReference(FeatureTableDataReference { byte_offset: refs(g), component_type: if g.chance(1, 2) { Some("FLOAT".into()) } else { None } }),
                1 => FeatureTableValue::Array((0..g.small(4)).map(|_| gen_json(g, 1)).collect()),
                _ => FeatureTableValue::SingleValue(loop { let v = gen_json(g, 2); if !v.is_array() { break v; } if g.tape.len() > 3000 { break json!(1); } }),
            };
            h.insert(gen_key(g, i), v);
        }
        g.note(|| format!("{h:?} at {start}"));
        ensure!(ser_feature_table_header(file.clone(), &h, start).is_ok(), "serializing failed");
        let data = file.data();
        ensure!((start + data.len()) % 8 == 0 && data.len() < serde_json::to_vec(&plain_f(&h)).unwrap().len() + 8, "{} bytes from {start} on: not padded to the next multiple of 8", data.len());
        let v: Value = match serde_json::from_slice(&data) { Ok(v) => v, Err(e) => return fail(format!("{e}: {:?}", String::from_utf8_lossy(&data))) };
        ensure!(v == plain_f(&h), "{v} was written for {h:?}");
        let mut file2 = data.clone();
        file2.extend([1, 2, 3]);
        let mut r = BufReader::with_capacity(16, MemFile::new(file2, max));
        match deser_feature_table_header(&mut r, data.len(), start) {
            Ok(back) => ensure!(back == h, "{h:?} came back as {back:?}"),
            Err(e) => return fail(format!("{e:#}")),
        }
        ensure!(r.stream_position().ok() == Some(data.len() as u64), "the reader is at {:?}, not at the body", r.stream_position());
    } else {
        let mut h = BatchTableHeader::new();
        for i in 0..n {
            let v = if g.chance(1, 2) {
                BatchTableEntry::DataReference(BatchTableDataReference { byte_offset: refs(g), component_type: "FLOAT".into(), scalar_or_vector_type: "VEC3".into() })
            } else {
                BatchTableEntry::ArrayData((0..g.small(4)).map(|_| gen_json(g, 2)).collect())
            };
            h.insert(gen_key(g, i), v);
        }
        g.note(|| format!("{h:?} at {start}"));
        ensure!(ser_batch_table_header(file.clone(), &h, start).is_ok(), "serializing failed");
        let data = file.data();
        ensure!((start + data.len()) % 8 == 0 && data.len() < serde_json::to_vec(&plain_b(&h)).unwrap().len() + 8, "{} bytes from {start} on: not padded to the next multiple of 8", data.len());
        let v: Value = match serde_json::from_slice(&data) { Ok(v) => v, Err(e) => return fail(format!("{e}: {:?}", String::from_utf8_lossy(&data))) };
        ensure!(v == plain_b(&h), "{v} was written for {h:?}");
        // read with the padding counted or not
        let text = serde_json::to_vec(&plain_b(&h)).unwrap().len();
        let size = if g.chance(1, 2) { data.len() } else { text };
        let mut file2 = data.clone();
        file2.extend([1, 2, 3]);
        let mut r = BufReader::with_capacity(16, MemFile::new(file2, max));
        match deser_batch_table_header(&mut r, size, start) {
            Ok(back) => ensure!(back == h, "{h:?} came back as {back:?}"),
            Err(e) => return fail(format!("{e:#}")),
        }
        ensure!(r.stream_position().ok() == Some(data.len() as u64), "the reader is at {:?}, not at the body", r.stream_position());
    }
    Ok(())
}

fn plain_f(h: &FeatureTableHeader) -> Value {
    Value::Object(h.iter().map(|(k, v)| (k.clone(), match v {
        FeatureTableValue::SingleValue(v) => v.clone(),
        FeatureTableValue::Array(a) => Value::Array(a.clone()),
        FeatureTableValue::DataReference(r) => match &r.component_type {
            Some(t) => json!({ "byteOffset": r.byte_offset, "componentType": t }),
            None => json!({ "byteOffset": r.byte_offset }),
        },
    })).collect())
}

fn plain_b(h: &BatchTableHeader) -> Value {
    Value::Object(h.iter().map(|(k, v)| (k.clone(), match v {
        BatchTableEntry::ArrayData(a) => Value::Array(a.clone()),
        BatchTableEntry::DataReference(r) => json!({ "byteOffset": r.byte_offset, "componentType": r.component_type, "type": r.scalar_or_vector_type }),
    })).collect())
}

fn arr(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| json!(x)).collect())
}

fn gen_volume(g: &mut Gen) -> (BoundingVolume, Value) {
    match g.range(0, 2) {
        0 => {
            let v: Vec<f64> = (0..6).map(|_| num(g)).collect();
            let r = BoundingRegion::new(v[0], v[1], v[2], v[3], v[4], v[5]);
            assert!([r.west(), r.south(), r.east(), r.north(), r.min_height(), r.max_height()] == v[..], "region accessors: {r:?}, {v:?}");
            (BoundingVolume::Region(r), json!({ "region": arr(&v) }))
        }
        1 if g.chance(1, 2) => {
            let (a, b) = (vec3(g), vec3(g));
            let (lo, hi) = (a.inf(&b), a.sup(&b));
            let bb = AABB::from_min_max(Point3::from(lo), Point3::from(hi));
            let bx: BoundingBox = bb.into();
            let (c, h) = ((lo + hi) * 0.5, (hi - lo) * 0.5);
            let close = |x: Vector3<f64>, y: Vector3<f64>| (x - y).abs().max() <= 1e-9 * (1.0 + lo.abs().max().max(hi.abs().max()));
            assert!(close(bx.center(), c) && close(bx.x(), Vector3::new(h.x, 0.0, 0.0)) && close(bx.y(), Vector3::new(0.0, h.y, 0.0)) && close(bx.z(), Vector3::new(0.0, 0.0, h.z)), "{bb:?} became {bx:?}");
            let v: Vec<f64> = [bx.center(), bx.x(), bx.y(), bx.z()].iter().flat_map(|v| [v.x, v.y, v.z]).collect();
            (BoundingVolume::Box(bx), json!({ "box": arr(&v) }))
        }
        1 => {
            let v: Vec<Vector3<f64>> = (0..4).map(|_| vec3(g)).collect();
            let b = BoundingBox::new(v[0], v[1], v[2], v[3]);
            assert!([b.center(), b.x(), b.y(), b.z()] == v[..], "box accessors: {b:?}, {v:?}");
            let flat: Vec<f64> = v.iter().flat_map(|v| [v.x, v.y, v.z]).collect();
            (BoundingVolume::Box(b), json!({ "box": arr(&flat) }))
        }
        _ => {
            let (c, r) = (vec3(g), num(g));
            let s = BoundingSphere::new(c, r);
            assert!(s.center() == c && s.radius() == r, "sphere accessors: {s:?}");
            (BoundingVolume::Sphere(s), json!({ "sphere": arr(&[c.x, c.y, c.z, r]) }))
        }
    }
}

fn gen_tile(g: &mut Gen, depth: usize, count: &mut usize) -> (Tileset, Value) {
    *count += 1;
    let mut b = TilesetBuilder::default();
    let mut v = Map::new();
    let e = num(g).abs();
    b = b.geometric_error(e);
    v.insert("geometricError".into(), json!(e));
    let (vol, j) = gen_volume(g);
    b = b.bounding_volume(vol);
    v.insert("boundingVolume".into(), j);
    if g.chance(1, 2) {
        let add = g.chance(1, 2);
        b = b.refinement(if add { Refinement::Add } else { Refinement::Replace });
        v.insert("refine".into(), json!(if add { "ADD" } else { "REPLACE" }));
    }
    if g.chance(1, 4) {
        let (vol, j) = gen_volume(g);
        b = b.viewer_request_volume(vol);
        v.insert("viewerRequestVolume".into(), j);
    }
    if g.chance(1, 2) {
        let uri = format!("tile{}.pnts", g.range(0, 99));
        let mut c = Map::new();
        c.insert("uri".into(), json!(uri));
        let mut cv = None;
        if g.chance(1, 2) {
            let (vol, j) = gen_volume(g);
            cv = Some(vol);
            c.insert("boundingVolume".into(), j);
        }
        b = b.content(uri, cv);
        v.insert("content".into(), Value::Object(c));
    }
    if g.chance(1, 3) {
        let m: Vec<f64> = (0..16).map(|_| num(g)).collect();
        b = b.transform(Matrix4::from_column_slice(&m));
        // 16 numbers in column-major order
        v.insert("transform".into(), arr(&m));
    }
    let mut children = vec![];
    if depth > 0 && *count < 20 {
        let n = g.small(3);
        let mut rest = vec![];
        for i in 0..n {
            let (t, j) = gen_tile(g, depth - 1, count);
            children.push(j);
            if i % 2 == 0 && rest.is_empty() { b = b.add_child(t) } else { rest.push(t) }
        }
        b = b.add_children(rest);
    }
    if !children.is_empty() {
        v.insert("children".into(), Value::Array(children));
    }
    (b.into(), Value::Object(v))
}

/// Numbers compare by value, whatever their spelling.
fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => x.as_f64() == y.as_f64(),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_json(a, b)),
        (Value::Object(x), Value::Object(y)) => {
            let keys: std::collections::BTreeSet<&String> = x.keys().chain(y.keys()).collect();
            keys.iter().all(|k| same_json(x.get(*k).unwrap_or(&Value::Null), y.get(*k).unwrap_or(&Value::Null)))
        }
        _ => a == b,
    }
}

fn tileset(g: &mut Gen) -> PResult {
    let mut count = 0;
    let (root, jroot) = gen_tile(g, 2, &mut count);
    g.mark();
    let mut v = json!({ "asset": { "version": "1.0" }, "geometricError": num(g), "root": jroot });
    let mut t = RootTileset { geometric_error: v["geometricError"].as_f64().unwrap(), root, ..Default::default() };
    if g.chance(1, 2) {
        t.asset.tileset_version = Some("v7".into());
        v["asset"]["tilesetVersion"] = json!("v7");
    }
    if g.chance(1, 2) {
        let mut ps = std::collections::HashMap::new();
        let mut js = Map::new();
        for i in 0..g.small(3) {
            let (a, b) = (num(g), num(g));
            ps.insert(format!("p{i}"), TilesetProperty { minimum: a, maximum: b });
            js.insert(format!("p{i}"), json!({ "minimum": a, "maximum": b }));
        }
        t.properties = Some(ps);
        v["properties"] = Value::Object(js);
    }
    g.note(|| format!("{v}"));
    let text = match serde_json::to_string(&t) { Ok(s) => s, Err(e) => return fail(format!("{e}")) };
    let written: Value = serde_json::from_str(&text).unwrap();
    ensure!(same_json(&written, &v), "written as {written}, expected {v}");
    match serde_json::from_str::<RootTileset>(&text) {
        Ok(b) => ensure!(b == t, "{t:?} came back as {b:?}"),
        Err(e) => return fail(format!("reading back: {e}: {text}")),
    }
    match serde_json::from_value::<RootTileset>(v.clone()) {
        Ok(b) => ensure!(b == t, "{v} was read as {b:?}"),
        Err(e) => return fail(format!("reading {v}: {e}")),
    }
    if g.chance(1, 8) {
        let e = -1.0 - num(g).abs();
        ensure!(catching(|| TilesetBuilder::default().geometric_error(e)).is_err(), "geometric error {e} accepted");
    }
    Ok(())
}

//! LAS and LAZ files (I03). The oracle knows the binary format from the LAS 1.4 specification: it writes and takes apart
//! whole files on its own and compares attribute by attribute.

use super::io_ascii::points_of;
use super::io_file::MemFile;
use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use crate::{ensure, on_buf};
use pasture_core::containers::*;
use pasture_core::layout::{attributes as at, PointLayout};
use pasture_core::nalgebra::Point3;
use pasture_io::base::*;
use pasture_io::las::*;
use pasture_io::las_rs;
use std::io::{BufReader, BufWriter, SeekFrom};

pub fn i03() -> Property {
    Property {
        id: "I03",
        rule: "a file with at least two points, or a refused one",
        sections: vec![
            sec("write", write_case, 24000, 15),
            sec("read", read_case, 30000, 15),
            sec("chunks", chunks, 24, 15),
            sec("full-disk", full_disk, 6000, 15),
            sec("bad-files", bad_files, 16000, 15),
            sec("on-disk", on_disk, 1500, 15),
        ],
    }
}

// ---------------------------------------------------------------- the format

/// A point record format: the number and the extra bytes behind each record.
#[derive(Clone, Debug)]
pub struct Fmt {
    pub n: u8,
    pub extra: usize,
    /// the described ones of the extra bytes
    pub described: Vec<(String, DT)>,
}

impl Fmt {
    pub fn new(n: u8) -> Self {
        Fmt { n, extra: 0, described: vec![] }
    }
    pub fn ext(&self) -> bool {
        self.n >= 6
    }
    fn gps(&self) -> bool {
        self.ext() || [1, 3, 4, 5].contains(&self.n)
    }
    fn color(&self) -> bool {
        [2, 3, 5, 7, 8, 10].contains(&self.n)
    }
    fn nir(&self) -> bool {
        [8, 10].contains(&self.n)
    }
    fn wave(&self) -> bool {
        [4, 5, 9, 10].contains(&self.n)
    }
    /// The fields of a record as they are stored, in order.
    pub fn exact(&self) -> Vec<Def> {
        let mut d = vec![def("LASLocalPosition", DT::Vec3i32), at::INTENSITY];
        d.push(if self.ext() { def("LASExtendedFlags", DT::U16) } else { def("LASBasicFlags", DT::U8) });
        d.push(at::CLASSIFICATION);
        d.extend(if self.ext() { [at::USER_DATA, at::SCAN_ANGLE] } else { [at::SCAN_ANGLE_RANK, at::USER_DATA] });
        d.push(at::POINT_SOURCE_ID);
        self.rest(&mut d);
        d
    }
    /// The attributes a reader hands out by default, in order.
    pub fn default(&self) -> Vec<Def> {
        let mut d = vec![at::POSITION_3D, at::INTENSITY, at::RETURN_NUMBER, at::NUMBER_OF_RETURNS];
        if self.ext() {
            d.extend([at::CLASSIFICATION_FLAGS, at::SCANNER_CHANNEL]);
        }
        d.extend([at::SCAN_DIRECTION_FLAG, at::EDGE_OF_FLIGHT_LINE, at::CLASSIFICATION]);
        d.extend(if self.ext() { [at::USER_DATA, at::SCAN_ANGLE] } else { [at::SCAN_ANGLE_RANK, at::USER_DATA] });
        d.push(at::POINT_SOURCE_ID);
        self.rest(&mut d);
        d
    }
    fn rest(&self, d: &mut Vec<Def>) {
        if self.gps() {
            d.push(at::GPS_TIME);
        }
        if self.color() {
            d.push(at::COLOR_RGB);
        }
        if self.nir() {
            d.push(at::NIR);
        }
        if self.wave() {
            d.extend([at::WAVE_PACKET_DESCRIPTOR_INDEX, at::WAVEFORM_DATA_OFFSET, at::WAVEFORM_PACKET_SIZE, at::RETURN_POINT_WAVEFORM_LOCATION, at::WAVEFORM_PARAMETERS]);
        }
        let mut left = self.extra;
        for (n, t) in &self.described {
            d.push(def(n.clone(), *t));
            left -= ref_size(*t) as usize;
        }
        if left > 0 {
            d.push(def("UndescribedExtraBytes", DT::ByteArray(left as u64)));
        }
    }
    pub fn len(&self) -> usize {
        self.exact().iter().map(|d| ref_size(d.datatype()) as usize).sum()
    }
    /// The bits of a packed flag: first bit and number of bits.
    fn bits(&self, name: &str) -> Option<(u32, u32)> {
        let table: &[(&str, u32, u32)] = if self.ext() {
            &[("ReturnNumber", 0, 4), ("NumberOfReturns", 4, 4), ("ClassificationFlags", 8, 4), ("ScannerChannel", 12, 2), ("ScanDirectionFlag", 14, 1), ("EdgeOfFlightLine", 15, 1)]
        } else {
            &[("ReturnNumber", 0, 3), ("NumberOfReturns", 3, 3), ("ScanDirectionFlag", 6, 1), ("EdgeOfFlightLine", 7, 1)]
        };
        table.iter().find(|t| t.0 == name).map(|t| (t.1, t.2))
    }
    fn place(&self, name: &str) -> Option<(DT, usize)> {
        let mut off = 0;
        for d in self.exact() {
            if d.name() == name {
                return Some((d.datatype(), off));
            }
            off += ref_size(d.datatype()) as usize;
        }
        None
    }
    /// Any field of a record, packed or not, except the position.
    pub fn field(&self, rec: &[u8], name: &str) -> Option<(DT, Vec<u8>)> {
        if let Some((first, count)) = self.bits(name) {
            let flags = if self.ext() { u16::from_le_bytes([rec[14], rec[15]]) } else { rec[14] as u16 };
            return Some((DT::U8, vec![((flags >> first) & ((1 << count) - 1)) as u8]));
        }
        let (t, off) = self.place(name)?;
        Some((t, rec[off..off + ref_size(t) as usize].to_vec()))
    }
    fn set_field(&self, rec: &mut [u8], name: &str, v: &[u8]) {
        if let Some((first, _)) = self.bits(name) {
            let v = (v[0] as u16) << first;
            rec[14] |= v as u8;
            if self.ext() {
                rec[15] |= (v >> 8) as u8;
            }
        } else if let Some((_, off)) = self.place(name) {
            rec[off..off + v.len()].copy_from_slice(v);
        }
    }
    pub fn format(&self) -> las_rs::point::Format {
        let mut f = las_rs::point::Format::new(self.n).unwrap();
        f.extra_bytes = self.extra as u16;
        f
    }
}

pub fn gen_fmt(g: &mut Gen, extra: bool) -> Fmt {
    let mut f = Fmt::new(g.range(0, 10) as u8);
    if extra {
        f.extra = g.range(1, 20);
        let mut left = f.extra;
        if g.chance(3, 4) {
            for i in 0..g.range(1, 4) {
                let t = *g.choose(&[DT::U8, DT::I8, DT::U16, DT::I16, DT::U32, DT::I32, DT::U64, DT::I64, DT::F32, DT::F64]);
                if ref_size(t) as usize <= left {
                    left -= ref_size(t) as usize;
                    f.described.push((format!("extra {i}"), t));
                }
            }
        }
        if g.chance(1, 2) {
            f.extra -= left;
            if f.extra == 0 {
                f.extra = 1;
            }
        }
    }
    f
}

type Vlr = las_rs::Vlr;

/// The VLR describing extra bytes, as the specification has it.
pub fn extra_vlr(entries: &[(String, DT)]) -> Vlr {
    let mut data = vec![];
    for (name, t) in entries {
        let mut e = vec![0u8; 192];
        e[2] = 1 + [DT::U8, DT::I8, DT::U16, DT::I16, DT::U32, DT::I32, DT::U64, DT::I64, DT::F32, DT::F64].iter().position(|x| x == t).unwrap() as u8;
        e[4..4 + name.len()].copy_from_slice(name.as_bytes());
        data.extend(e);
    }
    Vlr { user_id: "LASF_Spec".into(), record_id: 4, description: "extra".into(), data }
}

fn gen_vlr(g: &mut Gen, i: usize) -> Vlr {
    let n = g.small(40);
    Vlr {
        user_id: g.choose(&["me", "a user of 16 char", "LASF_Projection", ""])[..].chars().take(16).collect(),
        record_id: 100 + i as u16 + g.range(0, 60000) as u16,
        description: g.choose(&["", "some text", "exactly thirty-two characters..."]).to_string(),
        data: g.bytes(n),
    }
}

fn raw_vlr(v: &Vlr, extended: bool) -> Vec<u8> {
    let mut out = vec![0u8; 2];
    let mut text = |s: &str, n: usize, out: &mut Vec<u8>| {
        let mut b = s.as_bytes().to_vec();
        b.resize(n, 0);
        out.extend(b);
    };
    text(&v.user_id, 16, &mut out);
    out.extend(v.record_id.to_le_bytes());
    if extended {
        out.extend((v.data.len() as u64).to_le_bytes());
    } else {
        out.extend((v.data.len() as u16).to_le_bytes());
    }
    text(&v.description, 32, &mut out);
    out.extend(&v.data);
    out
}

/// Scale and offset of the three axes.
#[derive(Clone, Copy, Debug)]
pub struct Grid {
    pub scale: [f64; 3],
    pub off: [f64; 3],
}

impl Grid {
    pub fn world(&self, local: [i32; 3]) -> [f64; 3] {
        [0, 1, 2].map(|i| local[i] as f64 * self.scale[i] + self.off[i])
    }
}

fn gen_grid(g: &mut Gen) -> Grid {
    let mut axis = || (*g.choose(&[0.001, 0.01, 1.0, 0.5, 0.125, 0.1, 3.0]), *g.choose(&[0.0, 100.5, -1000.0, 250000.125, -0.0005]));
    let a = [axis(), axis(), axis()];
    Grid { scale: a.map(|a| a.0), off: a.map(|a| a.1) }
}

fn transforms(q: &Grid) -> las_rs::Vector<las_rs::Transform> {
    let t = |i: usize| las_rs::Transform { scale: q.scale[i], offset: q.off[i] };
    las_rs::Vector { x: t(0), y: t(1), z: t(2) }
}

pub fn local_of(rec: &[u8]) -> [i32; 3] {
    [0, 4, 8].map(|o| i32::from_le_bytes(rec[o..o + 4].try_into().unwrap()))
}

fn f64s(b: &[u8]) -> [f64; 3] {
    [0, 8, 16].map(|o| f64::from_ne_bytes(b[o..o + 8].try_into().unwrap()))
}

fn shuffle<T>(g: &mut Gen, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = g.range(0, i);
        v.swap(i, j);
    }
}

fn gen_max(g: &mut Gen) -> usize {
    if g.chance(1, 2) { 0 } else { g.range(1, 9) }
}

// ---------------------------------------------------------------- writing

/// A point as it has to be in the file: the record without the position, and the position.
struct Want {
    rec: Vec<u8>,
    pos: [f64; 3],
}

fn is_flag(name: &str) -> Option<u8> {
    Some(match name {
        "ReturnNumber" | "NumberOfReturns" => 15,
        "ClassificationFlags" => 15,
        "ScannerChannel" => 3,
        "ScanDirectionFlag" | "EdgeOfFlightLine" => 1,
        _ => return None,
    })
}

/// A layout for points to be written or read: attributes of LAS files in their or other types, and others besides.
fn gen_target(g: &mut Gen, f: &Fmt, exact_too: bool) -> Vec<Def> {
    let mut cand: Vec<Def> = builtins();
    cand.extend(f.default().into_iter().filter(|d| d.name().contains("xtra")));
    if exact_too {
        cand.extend(f.exact().into_iter().filter(|d| d.name().starts_with("LAS")));
    }
    let mut out: Vec<Def> = vec![];
    let (num, den) = *g.choose(&[(1, 2), (1, 4), (9, 10)]);
    for d in cand {
        let t = d.datatype();
        if d.name() == "Position3D" {
            if g.chance(5, 6) {
                let t = if g.chance(2, 3) { t } else if exact_too { DT::Vec3f32 } else { *g.choose(&[DT::Vec3f32, DT::Vec3i32, DT::Vec3u16]) };
                out.push(def("Position3D", t));
            }
            continue;
        }
        if !g.chance(num, den) {
            continue;
        }
        let t = match component(t) {
            Some((_, 1)) if g.chance(1, 4) => *g.choose(&[DT::U8, DT::I8, DT::U16, DT::I16, DT::U32, DT::I32, DT::U64, DT::I64, DT::F32, DT::F64]),
            Some((_, 3)) if g.chance(1, 4) => *g.choose(&[DT::Vec3u8, DT::Vec3u16, DT::Vec3i32, DT::Vec3f32, DT::Vec3f64]),
            _ => t,
        };
        out.push(def(d.name().to_string(), t));
    }
    if out.is_empty() || g.chance(1, 6) {
        out.push(def("custom", gen_type(g, true)));
    }
    shuffle(g, &mut out);
    out
}

/// A point of a model and what a file of the format has to hold for it.
fn gen_point(g: &mut Gen, f: &Fmt, q: &Grid, m: &Model) -> (Pt, Want) {
    let mut rec = vec![0u8; f.len()];
    let mut pos = [0.0; 3];
    let mut pt = vec![];
    for d in &m.defs {
        let t = d.datatype();
        let v = if d.name() == "Position3D" {
            let mut w = [0.0; 3];
            for i in 0..3 {
                let l: f64 = match g.range(0, 5) {
                    0 => g.irange(-3, 3) as f64,
                    1 if t == DT::Vec3f64 => *g.choose(&[i32::MAX as f64, i32::MIN as f64, i32::MAX as f64 - 1.0]),
                    _ => g.irange(-1_000_000, 1_000_000) as f64,
                };
                let frac = match g.range(0, 3) {
                    0 => g.irange(-45, 45) as f64 / 100.0,
                    _ => 0.0,
                };
                w[i] = (l + frac) * q.scale[i] + q.off[i];
            }
            let b: Vec<u8> = w.iter().flat_map(|x| x.to_ne_bytes()).collect();
            let v = ref_cast(DT::Vec3f64, t, &b).unwrap();
            pos = f64s(&ref_cast(t, DT::Vec3f64, &v).unwrap());
            v
        } else if let Some(max) = is_flag(d.name()) {
            let max = match d.name() {
                "ReturnNumber" | "NumberOfReturns" if !f.ext() => 7,
                _ => max,
            };
            ref_cast(DT::U8, t, &[g.range(0, max as usize) as u8]).unwrap()
        } else {
            gen_value(g, t)
        };
        if d.name() != "Position3D" {
            let target = if is_flag(d.name()).is_some() { f.bits(d.name()).map(|_| DT::U8) } else { f.place(d.name()).map(|p| p.0) };
            if let Some(tt) = target {
                f.set_field(&mut rec, d.name(), &ref_cast(t, tt, &v).unwrap());
            }
        }
        pt.push(v);
    }
    (pt, Want { rec, pos })
}

struct Expect {
    f: Fmt,
    q: Grid,
    compressed: bool,
    vlrs: Vec<Vlr>,
    evlrs: Vec<Vlr>,
    padding: usize,
    vlr_padding: Vec<u8>,
    file_source_id: u16,
    software: String,
    pts: Vec<Want>,
}

/// The parts of a file.
pub struct Parsed {
    pub fmt: u8,
    pub rec_len: usize,
    pub count: u64,
    pub legacy: u32,
    pub by_return: Vec<u64>,
    pub legacy_by_return: Vec<u32>,
    pub grid: Grid,
    pub min: [f64; 3],
    pub max: [f64; 3],
    pub vlrs: Vec<(String, u16, String, Vec<u8>)>,
    pub evlrs: Vec<(String, u16, String, Vec<u8>)>,
    pub evlr_start: u64,
    pub between: Vec<u8>,
    pub points: usize,
}

fn text(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

/// An independent reading of a LAS 1.4 file.
fn parse(d: &[u8]) -> Result<Parsed, String> {
    if d.len() < 375 || &d[..4] != b"LASF" {
        return Err(format!("no LAS file: {} bytes", d.len()));
    }
    let u16a = |i: usize| u16::from_le_bytes(d[i..i + 2].try_into().unwrap());
    let u32a = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
    let u64a = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    let f = |i: usize| f64::from_le_bytes(d[i..i + 8].try_into().unwrap());
    if (d[24], d[25]) != (1, 4) {
        return Err(format!("version {}.{}", d[24], d[25]));
    }
    let header = u16a(94) as usize;
    let points = u32a(96) as usize;
    if points > d.len() {
        return Err(format!("the points start at byte {points} of {}", d.len()));
    }
    let read_vlr = |at: usize, ext: bool| -> Result<((String, u16, String, Vec<u8>), usize), String> {
        let head = if ext { 60 } else { 54 };
        if at + head > d.len() {
            return Err(format!("VLR header at {at} of {} bytes", d.len()));
        }
        let len = if ext { u64a(at + 20) as usize } else { u16a(at + 20) as usize };
        if at + head + len > d.len() {
            return Err(format!("VLR data of {len} bytes at {} of {}", at + head, d.len()));
        }
        Ok(((text(&d[at + 2..at + 18]), u16a(at + 18), text(&d[at + head - 32..at + head]), d[at + head..at + head + len].to_vec()), at + head + len))
    };
    let mut p = header;
    let mut vlrs = vec![];
    for _ in 0..u32a(100) {
        let (v, next) = read_vlr(p, false)?;
        vlrs.push(v);
        p = next;
    }
    if p > points {
        return Err(format!("the VLRs end at byte {p}, the points start at byte {points}"));
    }
    let evlr_start = u64a(235);
    let mut evlrs = vec![];
    let mut e = evlr_start as usize;
    for _ in 0..u32a(243) {
        let (v, next) = read_vlr(e, true)?;
        evlrs.push(v);
        e = next;
    }
    Ok(Parsed {
        fmt: d[104],
        rec_len: u16a(105) as usize,
        legacy: u32a(107),
        legacy_by_return: (0..5).map(|i| u32a(111 + 4 * i)).collect(),
        grid: Grid { scale: [f(131), f(139), f(147)], off: [f(155), f(163), f(171)] },
        max: [f(179), f(195), f(211)],
        min: [f(187), f(203), f(219)],
        count: u64a(247),
        by_return: (0..15).map(|i| u64a(255 + 8 * i)).collect(),
        vlrs,
        evlrs,
        evlr_start,
        between: d[p..points].to_vec(),
        points,
    })
}

fn tup(v: &Vlr) -> (String, u16, String, Vec<u8>) {
    (v.user_id.clone(), v.record_id, v.description.clone(), v.data.clone())
}

/// The file is a valid one and holds exactly what was written.
fn check_file(d: &[u8], w: &Expect) -> PResult {
    let p = match parse(d) {
        Ok(p) => p,
        Err(e) => return fail(format!("not a valid file: {e}")),
    };
    let n = w.pts.len() as u64;
    ensure!(p.fmt & 0x3f == w.f.n && (p.fmt & 0xc0 == 0 || w.compressed), "point format {:#x} in the file, written was {}", p.fmt, w.f.n);
    ensure!(p.rec_len == w.f.len(), "record length {} in the file, of format {:?} {}", p.rec_len, w.f, w.f.len());
    ensure!(p.count == n, "{n} points written, the header says {}", p.count);
    for i in 0..3 {
        ensure!(p.grid.scale[i] == w.q.scale[i] && p.grid.off[i] == w.q.off[i], "scale and offset {:?} in the file, set were {:?}", p.grid, w.q);
    }
    let mut by_return = vec![0u64; 16];
    for x in &w.pts {
        by_return[w.f.field(&x.rec, "ReturnNumber").unwrap().1[0] as usize] += 1;
    }
    ensure!(p.by_return[..] == by_return[1..], "points by return {:?} in the file, {:?} expected", p.by_return, &by_return[1..]);
    if w.f.ext() {
        ensure!(p.legacy == 0 && p.legacy_by_return.iter().all(|x| *x == 0), "legacy counts {} {:?} in a file of format {}", p.legacy, p.legacy_by_return, w.f.n);
    } else {
        ensure!(p.legacy as u64 == n, "{n} points written, the legacy count is {}", p.legacy);
        for i in 0..5 {
            ensure!(p.legacy_by_return[i] as u64 == by_return[i + 1], "legacy points by return {:?}, {:?} expected", p.legacy_by_return, &by_return[1..]);
        }
    }
    // VLRs
    let (laz, vlrs): (Vec<_>, Vec<_>) = p.vlrs.iter().cloned().partition(|v| v.0 == "laszip encoded");
    ensure!(laz.len() == w.compressed as usize, "{} LASzip VLRs", laz.len());
    let want: Vec<_> = w.vlrs.iter().map(tup).collect();
    ensure!(vlrs == want, "VLRs {vlrs:?} in the file, set were {want:?}");
    ensure!(p.between == w.vlr_padding, "{:?} between VLRs and points, set was {:?}", p.between, w.vlr_padding);
    ensure!(d[94] as usize + 256 * d[95] as usize == 375 + w.padding, "header size");
    let want: Vec<_> = w.evlrs.iter().map(tup).collect();
    ensure!(p.evlrs == want, "EVLRs {:?} in the file, starting at {}, set were {want:?}", p.evlrs, p.evlr_start);
    ensure!(u16::from_le_bytes([d[4], d[5]]) == w.file_source_id, "file source ID");
    ensure!(text(&d[58..90]) == w.software, "generating software {:?}", text(&d[58..90]));
    // the points
    let start = p.points + if w.compressed { 8 } else { 0 };
    let end = start + w.pts.len() * p.rec_len;
    ensure!(end <= d.len(), "{n} points end at byte {end} of {}", d.len());
    let mut after = end;
    if w.compressed {
        let table = u64::from_le_bytes(d[p.points..p.points + 8].try_into().unwrap()) as usize;
        ensure!(table == end, "the points of the compressed file end at byte {table}, expected {end}");
        ensure!(d.len() >= end + 8 && &d[end..end + 8] == b"CHUNKTBL", "no chunk table at byte {end} of {}", d.len());
        after += 8;
    }
    ensure!(w.evlrs.is_empty() || p.evlr_start as usize >= after, "the EVLRs start at byte {}, the points end at {after}", p.evlr_start);
    let (mut lo, mut hi) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
    for (i, x) in w.pts.iter().enumerate() {
        let rec = &d[start + i * p.rec_len..start + (i + 1) * p.rec_len];
        let got = w.q.world(local_of(rec));
        for a in 0..3 {
            let tol = 0.5 * w.q.scale[a] * (1.0 + 1e-6) + (x.pos[a].abs() + w.q.off[a].abs()) * 1e-15;
            ensure!((got[a] - x.pos[a]).abs() <= tol, "position {:?} of point {i} was stored as {got:?} on the grid {:?}: not the nearest", x.pos, w.q);
            lo[a] = lo[a].min(x.pos[a]);
            hi[a] = hi[a].max(x.pos[a]);
        }
        for fd in w.f.exact().iter().skip(1) {
            let (t, a) = w.f.field(rec, fd.name()).unwrap();
            let (_, b) = w.f.field(&x.rec, fd.name()).unwrap();
            ensure!(same_value(t, &a, &b), "{} of point {i} is {a:?} in the file, expected {b:?}", fd.name());
        }
    }
    if n > 0 {
        for a in 0..3 {
            let tol = 0.51 * w.q.scale[a] + (lo[a].abs() + hi[a].abs()) * 1e-15;
            ensure!((p.min[a] - lo[a]).abs() <= tol && (p.max[a] - hi[a]).abs() <= tol, "bounds {:?} to {:?} in the file, of the points {lo:?} to {hi:?}", p.min, p.max);
        }
    }
    Ok(())
}

fn write_case(g: &mut Gen) -> PResult {
    let compressed = g.chance(1, 3);
    let from_layout = g.chance(1, 4);
    let has_extra = !compressed && !from_layout && g.chance(1, 3);
    let mut f = gen_fmt(g, has_extra);
    let mut q = gen_grid(g);
    if from_layout {
        q = Grid { scale: [0.001; 3], off: [0.0; 3] };
    }
    let mut w = Expect {
        f: f.clone(),
        q,
        compressed,
        vlrs: vec![],
        evlrs: vec![],
        padding: 0,
        vlr_padding: vec![],
        file_source_id: 0,
        software: "stand-in".into(),
        pts: vec![],
    };
    let file = MemFile::new(vec![], gen_max(g));
    let cap = g.range(1, 300);
    let sink = BufWriter::with_capacity(cap, file.clone());
    let mut writer = if from_layout {
        let l = if g.chance(1, 2) {
            PointLayout::from_attributes_packed(&f.default(), 1)
        } else {
            let a = gen_target(g, &f, false);
            f = Fmt::new(smallest(&a));
            PointLayout::from_attributes(&a)
        };
        w.f = f.clone();
        g.note(|| format!("writer for {}, compressed {compressed}: format {}", show_layout(&l), f.n));
        match LASWriter::from_writer_and_point_layout(sink, &l, compressed) {
            Ok(x) => x,
            Err(e) => return fail(format!("no writer for {}: {e:#}", show_layout(&l))),
        }
    } else {
        let mut b = las_rs::Builder::from((1, 4));
        b.point_format = f.format();
        b.transforms = transforms(&q);
        for i in 0..g.small(3) {
            w.vlrs.push(gen_vlr(g, i));
        }
        if !f.described.is_empty() {
            let i = g.range(0, w.vlrs.len());
            w.vlrs.insert(i, extra_vlr(&f.described));
        }
        for i in 0..g.small(3) {
            w.evlrs.push(gen_vlr(g, i));
        }
        if g.chance(1, 4) {
            let n = g.range(1, 9);
            w.vlr_padding = g.bytes(n);
        }
        if g.chance(1, 4) {
            w.padding = g.range(1, 9);
        }
        w.file_source_id = g.range(0, 65535) as u16;
        w.software = g.choose(&["", "generated", "software with a name of 32 chars"]).to_string();
        b.vlrs = w.vlrs.clone();
        b.evlrs = w.evlrs.clone();
        b.vlr_padding = w.vlr_padding.clone();
        b.padding = vec![0; w.padding];
        b.file_source_id = w.file_source_id;
        b.generating_software = w.software.clone();
        g.note(|| format!("{f:?}, compressed {compressed}, {q:?}, {} VLRs, {} EVLRs, padding {} {}", w.vlrs.len(), w.evlrs.len(), w.padding, w.vlr_padding.len()));
        match LASWriter::from_writer_and_header(sink, b.into_header().unwrap(), compressed) {
            Ok(x) => x,
            Err(e) => return fail(format!("no writer: {e:#}")),
        }
    };
    let dl = writer.get_default_point_layout().clone();
    ensure!(defs_of(&dl) == f.default(), "default layout {} of {f:?}", show_layout(&dl));
    for _ in 0..g.range(1, 4) {
        if !compressed && g.chance(1, 4) {
            let r = writer.flush();
            ensure!(r.is_ok(), "flush: {r:?}");
            g.class("flush in between");
            check_file(&file.data(), &w)?;
        }
        let custom = g.chance(1, 2);
        let layout = if custom { let a = gen_target(g, &f, false); gen_arrangement(g, &a) } else { dl.clone() };
        if custom {
            g.class("custom layout");
        }
        let mut m = Model::new(&layout);
        let n = g.len(30);
        let mut new = vec![];
        for _ in 0..n {
            let (p, x) = gen_point(g, &f, &q, &m);
            m.pts.push(p);
            new.push(x);
        }
        let out_of_range = n > 0 && g.chance(1, 40) && m.defs.iter().any(|d| d.name() == "Position3D" && d.datatype() == DT::Vec3f64);
        if out_of_range {
            let a = m.defs.iter().position(|d| d.name() == "Position3D").unwrap();
            let i = g.range(0, n - 1);
            let axis = g.range(0, 2);
            let far = *g.choose(&[2147483649.0, -2147483650.0, 1e12, -1e300, f64::INFINITY]);
            m.pts[i][a][axis * 8..axis * 8 + 8].copy_from_slice(&(far * q.scale[axis] + q.off[axis]).to_ne_bytes());
        }
        let kind = gen_kind(g);
        g.note(|| format!("write of {n} points of {}, {kind:?}, out of range {out_of_range}", show_layout(&layout)));
        let b = make_buf(kind, &m, 0xC3);
        let r = catching(|| on_buf!(&b, b => writer.write(b).map_err(|e| format!("{e:#}"))));
        if out_of_range {
            ensure!(!matches!(r, Ok(Ok(()))), "a position that cannot be stored on the grid {q:?} was accepted");
            g.class("position out of range refused");
            g.mark();
            std::mem::forget(writer);
            return Ok(());
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return fail(format!("write failed: {e}")),
            Err(e) => return fail(format!("write: {e}")),
        }
        w.pts.extend(new);
    }
    if w.pts.len() > 1 {
        g.mark();
    }
    let mode = g.range(0, 2);
    g.note(|| format!("finish: {}", ["flush", "into_inner", "flush and into_inner"][mode]));
    let r = catching(|| -> anyhow::Result<()> {
        if mode != 1 {
            writer.flush()?;
        }
        if mode != 0 {
            writer.into_inner()?.into_inner().map_err(|e| anyhow::anyhow!("{e}"))?;
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return fail(format!("finishing failed: {e:#}")),
        Err(e) => return fail(format!("finishing: {e}")),
    }
    let data = file.data();
    check_file(&data, &w)?;
    // and the reader agrees
    if compressed && matches!(f.n, 9 | 10) {
        return Ok(());
    }
    let mut r = match LASReader::from_read(BufReader::new(MemFile::new(data, 0)), compressed, false) {
        Ok(r) => r,
        Err(e) => return fail(format!("the reader refuses the file: {e:#}")),
    };
    ensure!(r.remaining_points() == w.pts.len(), "remaining_points() is {} of {}", r.remaining_points(), w.pts.len());
    let b = match r.read::<VectorBuffer>(w.pts.len() + 3) {
        Ok(b) => b,
        Err(e) => return fail(format!("reading back failed: {e:#}")),
    };
    ensure!(b.len() == w.pts.len(), "{} points written, {} read", w.pts.len(), b.len());
    let rm = Model::new(b.point_layout());
    for (i, (p, x)) in points_of(&b, &rm).iter().zip(&w.pts).enumerate() {
        for (a, d) in rm.defs.iter().enumerate() {
            if d.name() == "Position3D" {
                let got = f64s(&p[a]);
                for k in 0..3 {
                    let tol = 0.5 * q.scale[k] * (1.0 + 1e-6) + (x.pos[k].abs() + q.off[k].abs()) * 1e-15;
                    ensure!((got[k] - x.pos[k]).abs() <= tol, "position {:?} of point {i} was read back as {got:?}", x.pos);
                }
            } else {
                let (t, v) = f.field(&x.rec, d.name()).unwrap();
                ensure!(d.datatype() == t && same_value(t, &v, &p[a]), "{d} of point {i}: {v:?} written, {:?} read", p[a]);
            }
        }
    }
    Ok(())
}

/// The smallest point record format that has all LAS attributes of a layout.
pub fn smallest(attrs: &[Def]) -> u8 {
    let has = |n: &str| attrs.iter().any(|d| d.name() == n);
    let wave = ["WavePacketDescriptorIndex", "WaveformDataOffset", "WaveformPacketSize", "ReturnPointWaveformLocation", "WaveformParameters"].iter().any(|n| has(n));
    let ext = ["NIR", "ScanAngle", "ScannerChannel", "ClassificationFlags"].iter().any(|n| has(n));
    (0..=10u8)
        .find(|n| {
            let f = Fmt::new(*n);
            f.ext() == ext && (f.gps() || !has("GpsTime")) && (f.color() || !has("ColorRGB")) && (f.nir() || !has("NIR")) && (f.wave() || !wave)
        })
        .unwrap()
}

// ---------------------------------------------------------------- reading

pub struct Built {
    pub f: Fmt,
    pub q: Grid,
    pub compressed: bool,
    pub version: u8,
    pub data: Vec<u8>,
    pub recs: Vec<Vec<u8>>,
    pub vlrs: Vec<Vlr>,
    pub bounds: [[f64; 3]; 2],
    pub by_return: Vec<u64>,
    pub points_at: usize,
    pub source_id: u16,
    pub system: String,
    pub software: String,
    pub day: u16,
    pub year: u16,
}

fn num(g: &mut Gen) -> f64 {
    g.irange(-1_000_000, 1_000_000) as f64 / 8.0
}

/// An independent writer of LAS 1.0 to 1.4.
pub fn build(g: &mut Gen, n: Option<usize>) -> Built {
    let has_extra = g.chance(1, 3);
    let f = gen_fmt(g, has_extra);
    let compressed = g.chance(1, 3);
    let lowest = match f.n {
        0..=1 => 0,
        2..=3 => 2,
        4..=5 => 3,
        _ => 4,
    };
    let version = g.range(lowest, 4) as u8;
    let q = gen_grid(g);
    let n = n.unwrap_or_else(|| g.len(40));
    let rl = f.len();
    let seed = g.draw(u32::MAX as u64);
    let recs: Vec<Vec<u8>> = (0..n).map(|i| if seed == 0 { vec![(i as u8).wrapping_add(1); rl] } else { expand_bytes(seed.wrapping_mul(31).wrapping_add(i as u64), rl) }).collect();
    let mut vlrs: Vec<Vlr> = (0..g.small(3)).map(|i| gen_vlr(g, i)).collect();
    if !f.described.is_empty() {
        let i = g.range(0, vlrs.len());
        vlrs.insert(i, extra_vlr(&f.described));
    }
    if compressed {
        // LASzip: the items of a record
        let mut items: Vec<(u16, u16)> = if f.ext() { vec![(10, 30)] } else { vec![(6, 20)] };
        if !f.ext() && f.gps() {
            items.push((7, 8));
        }
        if f.nir() {
            items.push((12, 8));
        } else if f.color() {
            items.push((if f.ext() { 11 } else { 8 }, 6));
        }
        if f.wave() {
            items.push((if f.ext() { 13 } else { 9 }, 29));
        }
        if f.extra > 0 {
            items.push((if f.ext() { 14 } else { 0 }, f.extra as u16));
        }
        let mut data = (items.len() as u16).to_le_bytes().to_vec();
        for (t, s) in items {
            data.extend(t.to_le_bytes());
            data.extend(s.to_le_bytes());
        }
        let i = g.range(0, vlrs.len());
        vlrs.insert(i, Vlr { user_id: "laszip encoded".into(), record_id: 22204, description: "https://laszip.org".into(), data });
    }
    let gap = if g.chance(1, 4) { g.range(1, 30) } else { 0 };
    let base = [227, 227, 227, 235, 375][version as usize];
    let header = base + if g.chance(1, 5) { g.range(1, 10) } else { 0 };
    let vlr_bytes: Vec<u8> = vlrs.iter().flat_map(|v| raw_vlr(v, false)).collect();
    let points_at = header + vlr_bytes.len() + gap;
    let bounds = [[0; 3].map(|_| num(g)), [0; 3].map(|_| num(g))];
    let mut by_return = vec![0u64; 16];
    for r in &recs {
        by_return[f.field(r, "ReturnNumber").unwrap().1[0] as usize] += 1;
    }
    let source_id = g.range(0, 65535) as u16;
    let system = g.choose(&["", "a system", "a system with a name of 32 chars"]).to_string();
    let software = g.choose(&["", "someone's software"]).to_string();
    let (day, year) = if g.chance(1, 5) { (0, 0) } else { (g.range(1, 365) as u16, g.range(1990, 2030) as u16) };
    let mut d = vec![0u8; header];
    d[..4].copy_from_slice(b"LASF");
    d[4..6].copy_from_slice(&source_id.to_le_bytes());
    let id = g.bytes(16);
    d[8..24].copy_from_slice(&id);
    d[24] = 1;
    d[25] = version;
    d[26..26 + system.len()].copy_from_slice(system.as_bytes());
    d[58..58 + software.len()].copy_from_slice(software.as_bytes());
    d[90..92].copy_from_slice(&day.to_le_bytes());
    d[92..94].copy_from_slice(&year.to_le_bytes());
    d[94..96].copy_from_slice(&(header as u16).to_le_bytes());
    d[96..100].copy_from_slice(&(points_at as u32).to_le_bytes());
    d[100..104].copy_from_slice(&(vlrs.len() as u32).to_le_bytes());
    d[104] = f.n | if compressed && g.chance(1, 2) { 0x80 } else { 0 };
    d[105..107].copy_from_slice(&(rl as u16).to_le_bytes());
    if !f.ext() {
        d[107..111].copy_from_slice(&(n as u32).to_le_bytes());
        for i in 0..5 {
            d[111 + 4 * i..115 + 4 * i].copy_from_slice(&(by_return[i + 1] as u32).to_le_bytes());
        }
    }
    let mut put = |at: usize, v: f64| d[at..at + 8].copy_from_slice(&v.to_le_bytes());
    for i in 0..3 {
        put(131 + 8 * i, q.scale[i]);
        put(155 + 8 * i, q.off[i]);
        put(179 + 16 * i, bounds[1][i]);
        put(187 + 16 * i, bounds[0][i]);
    }
    if version == 4 {
        d[247..255].copy_from_slice(&(n as u64).to_le_bytes());
        for i in 0..15 {
            d[255 + 8 * i..263 + 8 * i].copy_from_slice(&by_return[i + 1].to_le_bytes());
        }
    }
    d.extend(vlr_bytes);
    d.extend(vec![0xAB; gap]);
    if compressed {
        d.extend(((points_at + 8 + n * rl) as u64).to_le_bytes());
    }
    for r in &recs {
        d.extend(r);
    }
    if compressed {
        d.extend(b"CHUNKTBL");
    }
    if version == 4 && g.chance(1, 3) {
        let start = d.len() as u64;
        let k = g.range(1, 3);
        for i in 0..k {
            d.extend(raw_vlr(&gen_vlr(g, i), true));
        }
        d[235..243].copy_from_slice(&start.to_le_bytes());
        d[243..247].copy_from_slice(&(k as u32).to_le_bytes());
    } else if g.chance(1, 4) {
        d.extend([1, 2, 3]);
    }
    Built { f, q, compressed, version, data: d, recs, vlrs, bounds, by_return, points_at, source_id, system, software, day, year }
}

type Reader = LASReader<'static, BufReader<MemFile>>;

fn open(g: &mut Gen, data: Vec<u8>, compressed: bool, exact: bool) -> anyhow::Result<Reader> {
    let max = gen_max(g);
    let cap = if g.chance(1, 2) { 8192 } else { g.range(1, 64) };
    LASReader::from_read(BufReader::with_capacity(cap, MemFile::new(data, max)), compressed, exact)
}

/// The value of an attribute of a point that was read from a record; None if nothing is promised about it.
fn check_value(f: &Fmt, q: &Grid, rec: &[u8], d: &Def, got: &[u8], i: usize) -> PResult {
    if d.name() == "Position3D" {
        let local = local_of(rec);
        let want = q.world(local);
        let v = ref_cast(d.datatype(), DT::Vec3f64, got).unwrap();
        let got = f64s(&v);
        for a in 0..3 {
            let (m, o) = ((local[a] as f64 * q.scale[a]).abs(), q.off[a].abs());
            let eps = if d.datatype() == DT::Vec3f32 { 2f64.powi(-23) } else { 2f64.powi(-51) };
            ensure!((got[a] - want[a]).abs() <= (m + o) * eps, "{d} of point {i} is {got:?}, the file has {local:?} on {q:?}: {want:?}");
        }
        return Ok(());
    }
    if let Some((t, v)) = f.field(rec, d.name()) {
        let Some(want) = ref_cast(t, d.datatype(), &v) else { return Ok(()) };
        ensure!(same_value(d.datatype(), got, &want), "{d} of point {i} is {got:?}, the file has {v:?} ({t}): expected {want:?}");
    }
    Ok(())
}

fn check_header(r: &Reader, f: &Built) -> PResult {
    let n = f.recs.len();
    let md = r.get_metadata();
    ensure!(md.number_of_points() == Some(n), "number_of_points() is {:?} of {n}", md.number_of_points());
    let b = md.bounds().unwrap();
    let (lo, hi) = (Point3::from(f.bounds[0]), Point3::from(f.bounds[1]));
    ensure!(*b.min() == lo && *b.max() == hi, "bounds {b:?}, the file has {:?}", f.bounds);
    let lm = r.las_metadata();
    ensure!(lm.point_count() == n, "point_count() is {} of {n}", lm.point_count());
    let pf = lm.point_format();
    ensure!(pf.to_u8().ok() == Some(f.f.n) && pf.extra_bytes as usize == f.f.extra, "point format {pf:?} of {:?}", f.f);
    let h = r.header();
    let vlrs: Vec<_> = h.vlrs().iter().map(tup).collect();
    let want: Vec<_> = f.vlrs.iter().map(tup).collect();
    ensure!(vlrs == want, "VLRs {vlrs:?}, the file has {want:?}");
    for i in 1..=5u8 {
        ensure!(h.number_of_points_by_return(i).unwrap_or(0) == f.by_return[i as usize], "points by return {i}");
    }
    ensure!((h.version().major, h.version().minor) == (1, f.version), "version");
    macro_rules! named { ($name:ident, $t:ty, $want:expr) => {{
        let got = md.get_named_field(named_fields::$name).and_then(|v| v.downcast_ref::<$t>().cloned());
        let want: Option<$t> = $want;
        ensure!(got == want, "{} is {got:?}, the file has {want:?}", stringify!($name));
    }} }
    let dated = f.day > 0;
    named!(FILE_SOURCE_I_D, u16, Some(f.source_id));
    named!(VERSION, String, Some(format!("1.{}", f.version)));
    named!(SYSTEM_IDENTIFIER, String, Some(f.system.clone()));
    named!(GENERATING_SOFTWARE, String, Some(f.software.clone()));
    named!(FILE_CREATION_DAY_OF_YEAR, u16, dated.then_some(f.day));
    named!(FILE_CREATION_YEAR, u16, dated.then_some(f.year));
    ensure!(md.get_named_field("LASFIELD_Other").is_none(), "a field that does not exist was found");
    let c = md.clone_into_box();
    ensure!(c.number_of_points() == md.number_of_points() && c.bounds() == md.bounds() && c.to_string() == md.to_string(), "the copy of the metadata differs");
    Ok(())
}

fn read_case(g: &mut Gen) -> PResult {
    let f = build(g, None);
    let total = f.recs.len();
    let exact = g.chance(1, 2);
    let opened = open(g, f.data.clone(), f.compressed, exact);
    g.note(|| format!("{total} points of {:?}, LAS 1.{}, compressed {}, exact {exact}, {:?}", f.f, f.version, f.compressed, f.q));
    if f.compressed && matches!(f.f.n, 9 | 10) {
        ensure!(opened.is_err(), "compressed files of format {} are documented as unsupported", f.f.n);
        g.class("compressed format 9 or 10 refused");
        return Ok(());
    }
    let mut r = match opened {
        Ok(r) => r,
        Err(e) => return fail(format!("a valid file was refused: {e:#}")),
    };
    if total > 1 {
        g.mark();
    }
    let dl = r.get_default_point_layout().clone();
    let want = if exact { f.f.exact() } else { f.f.default() };
    ensure!(defs_of(&dl) == want, "default layout {} of {:?}, exact {exact}", show_layout(&dl), f.f);
    check_header(&r, &f)?;
    let mut at = 0usize;
    for _ in 0..g.range(1, 7) {
        match g.range(0, 9) {
            0..=2 => {
                let k = g.irange(-3 - total as i64, 3 + total as i64);
                let (to, want) = match g.range(0, 2) {
                    0 => (SeekFrom::Start(k.max(0) as u64), k.max(0)),
                    1 => (SeekFrom::Current(k), at as i64 + k),
                    _ => (SeekFrom::End(k), total as i64 + k),
                };
                g.note(|| format!("seek {to:?} at {at}"));
                let res = catching(|| r.seek_point(to));
                if want < 0 {
                    ensure!(!matches!(res, Ok(Ok(_))), "seeking to point {want} gave {res:?}");
                    g.class("seek before the start refused");
                } else {
                    at = (want as usize).min(total);
                    ensure!(matches!(res, Ok(Ok(p)) if p == at), "seek {to:?} gave {res:?}, expected {at}");
                }
                ensure!(matches!(r.point_index(), Ok(p) if p == at), "point_index() is {:?}, expected {at}", r.point_index());
            }
            3 => {
                let c = SeekToPoint::point_count(&mut r);
                ensure!(matches!(c, Ok(c) if c == total), "point_count() is {c:?} of {total}");
                ensure!(matches!(r.point_index(), Ok(p) if p == at), "point_count() moved to {:?}", r.point_index());
            }
            _ => {
                let left = total - at;
                let k = match g.range(0, 3) {
                    0 => left,
                    1 => left + g.range(1, 4),
                    _ => g.range(0, left),
                };
                let exp = k.min(left);
                let own = g.range(0, 3);
                let layout = match own {
                    0 => { let a = gen_target(g, &f.f, true); gen_arrangement(g, &a) }
                    // the layout of the other mode
                    1 => PointLayout::from_attributes_packed(&if exact { f.f.default() } else { f.f.exact() }, 1),
                    2 => { let a = if g.chance(1, 2) { f.f.default() } else { f.f.exact() }; gen_arrangement(g, &a) }
                    _ => dl.clone(),
                };
                let own = own < 3 || g.chance(1, 2);
                let m = Model::new(&layout);
                let len = if own { k + g.small(3) } else { k };
                let mut m0 = m.clone();
                m0.pts = if own { m.gen_pts(g, len) } else { vec![m.zero(); len] };
                g.note(|| format!("{} {k} of {left} into {len} points of {}", if own { "read_into" } else { "read" }, show_layout(&m.layout)));
                let res: Result<(usize, Vec<Pt>), String> = if own {
                    let mut b = make_buf(gen_kind(g), &m0, 0x5A);
                    let res = catching(|| on_buf!(&mut b, b => r.read_into(b, k).map_err(|e| format!("{e:#}"))));
                    let after = on_buf!(&b, b => points_of(b, &m));
                    match res {
                        Ok(Ok(n)) => Ok((n, after)),
                        Ok(Err(e)) => Err(e),
                        Err(p) => Err(p),
                    }
                } else if g.chance(1, 2) {
                    r.read::<HashMapBuffer>(k).map(|b| (b.len(), points_of(&b, &m))).map_err(|e| format!("{e:#}"))
                } else {
                    r.read::<VectorBuffer>(k).map(|b| (b.len(), points_of(&b, &m))).map_err(|e| format!("{e:#}"))
                };
                let (n, after) = match res {
                    Ok(x) => x,
                    Err(e) => return fail(format!("reading {k} points failed: {e}")),
                };
                ensure!(n == exp, "{k} of {left} points read: {n}");
                ensure!(!own || after.len() == len, "the length of the buffer changed");
                for i in 0..after.len() {
                    for (a, d) in m.defs.iter().enumerate() {
                        if i < exp {
                            check_value(&f.f, &f.q, &f.recs[at + i], d, &after[i][a], at + i)?;
                            if own && !f.f.exact().iter().chain(&f.f.default()).any(|x| x.name() == d.name()) {
                                let v = &after[i][a];
                                ensure!(*v == m0.pts[i][a] || v.iter().all(|x| *x == 0), "{d} of point {i}, which the file does not have, is {v:?}, it was {:?}", m0.pts[i][a]);
                            }
                        } else {
                            ensure!(after[i][a] == m0.pts[i][a], "{d} of point {i}, {exp} were read, is {:?}, it was {:?}", after[i][a], m0.pts[i][a]);
                        }
                    }
                }
                at += exp;
                ensure!(matches!(r.point_index(), Ok(p) if p == at), "after reading, point_index() is {:?}, expected {at}", r.point_index());
            }
        }
        ensure!(r.remaining_points() == total - at, "remaining_points() is {} at {at} of {total}", r.remaining_points());
    }
    Ok(())
}

// ---------------------------------------------------------------- many points

fn chunks(g: &mut Gen) -> PResult {
    let n = *g.choose(&[49_999usize, 50_000, 50_001, 60_000, 100_001, 130_000]);
    g.mark();
    if g.chance(1, 2) {
        // reading, in pieces around the sizes in which the reader works
        let f = build(g, Some(n));
        if f.compressed && matches!(f.f.n, 9 | 10) {
            return Ok(());
        }
        let chunk = (1usize << 20) / f.f.len();
        let exact = g.chance(1, 2);
        let mut r = match open(g, f.data.clone(), f.compressed, exact) {
            Ok(r) => r,
            Err(e) => return fail(format!("a valid file was refused: {e:#}")),
        };
        let from = if g.chance(1, 2) { 0 } else { g.range(0, n - 1) };
        let k = (*g.choose(&[n, chunk, chunk + 1, chunk - 1, 2 * chunk, 2 * chunk + 1, 3 * chunk])).min(n - from);
        let layout = match g.range(0, 3) {
            0 => PointLayout::from_attributes_packed(&f.f.exact(), 1),
            1 => PointLayout::from_attributes_packed(&f.f.default(), 1),
            _ => { let a = gen_target(g, &f.f, true); gen_arrangement(g, &a) }
        };
        let m = Model::new(&layout);
        let kind = gen_kind(g);
        let len = k + g.small(2);
        g.note(|| format!("{n} points of {:?} compressed {}, {k} from {from} into {len} {kind:?} {}", f.f, f.compressed, show_layout(&layout)));
        let mut z = m.clone();
        z.pts = vec![m.zero(); len];
        let mut b = make_buf(kind, &z, 0);
        ensure!(matches!(r.seek_point(SeekFrom::Start(from as u64)), Ok(p) if p == from), "seek");
        let res = catching(|| on_buf!(&mut b, b => r.read_into(b, k).map_err(|e| format!("{e:#}"))));
        ensure!(matches!(res, Ok(Ok(c)) if c == k), "reading {k} points gave {res:?}");
        let after = on_buf!(&b, b => points_of(b, &m));
        for i in 0..len {
            for (a, d) in m.defs.iter().enumerate() {
                if i < k {
                    check_value(&f.f, &f.q, &f.recs[from + i], d, &after[i][a], from + i)?;
                } else {
                    ensure!(after[i][a].iter().all(|x| *x == 0), "a point that was not read changed");
                }
            }
        }
        return Ok(());
    }
    // writing
    let f = Fmt::new(g.range(0, 10) as u8);
    let q = gen_grid(g);
    let compressed = g.chance(1, 2);
    let custom = g.chance(1, 2);
    let layout = if custom { let a = gen_target(g, &f, false); gen_arrangement(g, &a) } else { PointLayout::from_attributes_packed(&f.default(), 1) };
    let mut m = Model::new(&layout);
    let mut w = Expect { f: f.clone(), q, compressed, vlrs: vec![], evlrs: vec![], padding: 0, vlr_padding: vec![], file_source_id: 0, software: "stand-in".into(), pts: vec![] };
    // a few different points, repeated
    let base: Vec<(Pt, Want)> = (0..g.range(20, 97)).map(|_| gen_point(g, &f, &q, &m)).collect();
    for i in 0..n {
        let (p, x) = &base[i % base.len()];
        m.pts.push(p.clone());
        w.pts.push(Want { rec: x.rec.clone(), pos: x.pos });
    }
    let kind = gen_kind(g);
    g.note(|| format!("write of {n} points, {kind:?}, compressed {compressed}, format {} from {}", f.n, show_layout(&layout)));
    let b = make_buf(kind, &m, 0);
    let file = MemFile::new(vec![], 0);
    let mut hb = las_rs::Builder::from((1, 4));
    hb.point_format = f.format();
    hb.transforms = transforms(&q);
    let r = catching(|| -> anyhow::Result<()> {
        let mut writer = LASWriter::from_writer_and_header(file.clone(), hb.into_header()?, compressed)?;
        on_buf!(&b, b => writer.write(b))?;
        writer.flush()
    });
    ensure!(matches!(r, Ok(Ok(()))), "writing {n} points gave {r:?}");
    let data = file.data();
    check_file(&data, &w)
}

// ---------------------------------------------------------------- faults

fn full_disk(g: &mut Gen) -> PResult {
    let f = Fmt::new(g.range(0, 10) as u8);
    let q = gen_grid(g);
    let compressed = g.chance(1, 3);
    let mut m = Model::new(&PointLayout::from_attributes_packed(&f.default(), 1));
    let n = g.range(1, 12);
    m.pts = (0..n).map(|_| gen_point(g, &f, &q, &m).0).collect();
    let b = make_buf(gen_kind(g), &m, 0);
    let vlrs: Vec<Vlr> = (0..g.small(2)).map(|i| gen_vlr(g, i)).collect();
    let evlrs: Vec<Vlr> = (0..g.small(2)).map(|i| gen_vlr(g, i)).collect();
    let inner = g.chance(1, 2);
    let run = |file: MemFile| -> Result<(), String> {
        let r = catching(|| -> anyhow::Result<()> {
            let mut hb = las_rs::Builder::from((1, 4));
            hb.point_format = f.format();
            hb.transforms = transforms(&q);
            hb.vlrs = vlrs.clone();
            hb.evlrs = evlrs.clone();
            let mut w = LASWriter::from_writer_and_header(file, hb.into_header()?, compressed)?;
            on_buf!(&b, b => w.write(b))?;
            if inner { w.into_inner().map(|_| ()) } else { w.flush() }
        });
        r.and_then(|r| r.map_err(|e| format!("{e:#}")))
    };
    let full = MemFile::new(vec![], 0);
    let r = run(full.clone());
    ensure!(r.is_ok(), "{r:?}");
    let want = full.st().written;
    let room = g.range(0, want as usize) as u64;
    g.note(|| format!("{n} points of format {}, compressed {compressed}, room for {room} of {want} bytes", f.n));
    let file = MemFile::failing(room);
    let r = run(file.clone());
    let failed = file.st().failed;
    ensure!(failed == (room < want) || r.is_err(), "room for {room} of {want} bytes, but no write failed");
    ensure!(r.is_ok() != failed, "room for {room} of {want} bytes: {r:?}");
    g.mark();
    Ok(())
}

fn bad_files(g: &mut Gen) -> PResult {
    let mut f = build(g, None);
    if f.compressed && matches!(f.f.n, 9 | 10) {
        f.compressed = false;
    }
    let mut d = f.data.clone();
    let rl = f.f.len();
    let n = f.recs.len();
    g.mark();
    let header = u16::from_le_bytes([d[94], d[95]]) as usize;
    let what: String;
    match g.range(0, 6) {
        0 => {
            let k = g.range(0, 3);
            d[k] ^= 1 << g.range(0, 7);
            what = format!("byte {k} of the signature changed");
        }
        1 => {
            let cut = g.range(0, header - 1);
            d.truncate(cut);
            what = format!("cut after {cut} bytes, in the header");
        }
        2 => {
            let vl: usize = f.vlrs.iter().map(|v| 54 + v.data.len()).sum();
            if vl == 0 {
                return Ok(());
            }
            let cut = header + g.range(0, vl - 1);
            d.truncate(cut);
            what = format!("cut after {cut} bytes, in a VLR");
        }
        3 => {
            d[104] = g.range(11, 63) as u8;
            what = format!("point format {}", d[104]);
        }
        4 => {
            let plain = rl - f.f.extra;
            let short = g.range(0, plain + f.f.described.iter().map(|x| ref_size(x.1) as usize).sum::<usize>() - 1);
            d[105..107].copy_from_slice(&(short as u16).to_le_bytes());
            // without any extra bytes the description of extra bytes has no effect
            if short == plain {
                return Ok(());
            }
            // a length between the plain record and the described extra bytes: the file contradicts itself
            what = format!("record length {short}, format {:?}", f.f);
        }
        5 => {
            // VLRs with contents their kind cannot have, or describing more than there is
            let (id, data) = match g.range(0, 3) {
                0 => (0u16, { let k = g.range(0, 300); g.bytes(k) }),
                1 => (4, { let k = g.range(1, 191); g.bytes(k) }),
                2 => (3, vec![0x80, 0xff, 0xc0]),
                _ => {
                    let k = g.range(1, 3);
                    let names: Vec<(String, DT)> = (0..k).map(|i| (if g.chance(1, 2) { "Intensity".to_string() } else { format!("n{i}") }, DT::F64)).collect();
                    if f.f.extra == 0 || (f.f.extra >= 8 * k && names.iter().all(|n| n.0 != "Intensity")) {
                        return Ok(());
                    }
                    (4, extra_vlr(&names).data)
                }
            };
            what = format!("VLR {id} with {} bytes", data.len());
            let v = raw_vlr(&Vlr { user_id: "LASF_Spec".into(), record_id: id, description: String::new(), data }, false);
            let len = v.len();
            let mut out = d[..header].to_vec();
            out.extend(v);
            out.extend(&d[header..]);
            d = out;
            let k = u32::from_le_bytes(d[100..104].try_into().unwrap()) + 1;
            d[100..104].copy_from_slice(&k.to_le_bytes());
            d[96..100].copy_from_slice(&((f.points_at + len) as u32).to_le_bytes());
        }
        _ => {
            // fewer points than the header says: an error, and no points made up
            if n == 0 {
                return Ok(());
            }
            let start = f.points_at + if f.compressed { 8 } else { 0 };
            let keep = g.range(0, n * rl - 1);
            d.truncate(start + keep);
            let whole = keep / rl;
            g.note(|| format!("{whole} of {n} points there, compressed {}", f.compressed));
            let mut r = match catching(|| open(g, d, f.compressed, false)) {
                Ok(Ok(r)) => r,
                Ok(Err(_)) => return Ok(()),
                Err(e) => return fail(format!("opening a cut file: {e}")),
            };
            let k = g.range(0, n);
            let res = catching(|| r.read::<VectorBuffer>(k).map(|b| b.len()).map_err(|e| format!("{e:#}")));
            match res {
                Ok(Ok(c)) => ensure!(c == k && k <= whole, "{whole} whole points in the file, reading {k} gave {c}"),
                Ok(Err(_)) => { ensure!(k > whole, "{whole} whole points in the file, reading {k} failed"); g.class("cut file: error") }
                Err(e) => return fail(format!("reading a cut file: {e}")),
            }
            return Ok(());
        }
    }
    let exact = g.chance(1, 2);
    g.note(|| format!("{what}, compressed {}", f.compressed));
    let r = catching(|| open(g, d, f.compressed, exact).map(|_| ()).map_err(|e| format!("{e:#}")));
    match r {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => fail(format!("accepted: {what}")),
        Err(e) => fail(format!("{what}: {e}")),
    }
}

// ---------------------------------------------------------------- files by path

fn on_disk(g: &mut Gen) -> PResult {
    let dir = std::env::temp_dir().join(format!("pasture-verif-las-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        return fail(format!("harness: {}: {e}", dir.display()));
    }
    let r = on_disk_in(g, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn on_disk_in(g: &mut Gen, dir: &std::path::Path) -> PResult {
    let ext = *g.choose(&["las", "laz", "LAS", "LAZ", "Laz"]);
    let compressed = ext.eq_ignore_ascii_case("laz");
    let f = Fmt::new(if compressed { g.range(0, 8) } else { g.range(0, 10) } as u8);
    let q = Grid { scale: [0.001; 3], off: [0.0; 3] };
    let path = dir.join(format!("points.{ext}"));
    let attrs = if g.chance(1, 2) { f.default() } else { gen_target(g, &f, false) };
    let f = Fmt::new(smallest(&attrs));
    if compressed && matches!(f.n, 9 | 10) {
        return Ok(());
    }
    let mut m = Model::new(&gen_arrangement(g, &attrs));
    let n = g.len(20);
    let mut w = Expect { f: f.clone(), q, compressed, vlrs: vec![], evlrs: vec![], padding: 0, vlr_padding: vec![], file_source_id: 0, software: "stand-in".into(), pts: vec![] };
    for _ in 0..n {
        let (p, x) = gen_point(g, &f, &q, &m);
        m.pts.push(p);
        w.pts.push(x);
    }
    let b = make_buf(gen_kind(g), &m, 0);
    let how = g.range(0, 2);
    g.note(|| format!("{n} points of {} to {ext}, {how}", show_layout(&m.layout)));
    if n > 1 {
        g.mark();
    }
    let r = catching(|| -> anyhow::Result<()> {
        match how {
            0 => on_buf!(&b, b => write_all(b, &path)),
            1 => {
                let mut wr = GenericPointWriter::open_file(&path, &m.layout)?;
                on_buf!(&b, b => wr.write(b))?;
                wr.flush()
            }
            _ => {
                let mut hb = las_rs::Builder::from((1, 4));
                hb.point_format = f.format();
                hb.transforms = transforms(&q);
                let mut wr = LASWriter::from_path_and_header(&path, hb.into_header()?)?;
                on_buf!(&b, b => wr.write(b))?;
                wr.flush()
            }
        }
    });
    ensure!(matches!(r, Ok(Ok(()))), "writing gave {r:?}");
    let data = std::fs::read(&path).unwrap();
    check_file(&data, &w)?;
    let p = parse(&data).unwrap();
    let rl = f.len();
    let start = p.points + if compressed { 8 } else { 0 };
    let recs: Vec<&[u8]> = (0..n).map(|i| &data[start + i * rl..start + (i + 1) * rl]).collect();
    let check = |pts: &[Pt], m: &Model, from: usize| -> PResult {
        for (i, p) in pts.iter().enumerate() {
            for (a, d) in m.defs.iter().enumerate() {
                check_value(&f, &q, recs[from + i], d, &p[a], from + i)?;
            }
        }
        Ok(())
    };
    match g.range(0, 2) {
        0 => {
            let r = catching(|| read_all::<VectorBuffer, _>(&path));
            let Ok(Ok(b)) = r else { return fail(format!("read_all: {:?}", r.map(|r| r.map(|_| ())))) };
            ensure!(b.len() == n && defs_of(b.point_layout()) == f.default(), "read_all gave {} points of {}", b.len(), show_layout(b.point_layout()));
            let rm = Model::new(b.point_layout());
            check(&points_of(&b, &rm), &rm, 0)?;
        }
        1 => {
            // appended to what the buffer holds
            let a = gen_target(g, &f, true);
            let rm = Model::new(&gen_arrangement(g, &a));
            let mut before = rm.clone();
            let k = g.small(5);
            before.pts = rm.gen_pts(g, k);
            let mut b = VectorBuffer::new_from_layout(rm.layout.clone());
            unsafe { b.push_points(&before.encode_all(&before.pts, 0)) };
            let r = catching(|| read_all_into(&mut b, &path).map_err(|e| format!("{e:#}")));
            let Ok(Ok(c)) = r else { return fail(format!("read_all_into: {r:?}")) };
            ensure!(c == n, "read_all_into says {c} of {n} points");
            ensure!(b.len() == k + n, "read_all_into a buffer of {k} points: {} now, {n} in the file", b.len());
            let pts = points_of(&b, &rm);
            ensure!(pts[..k] == before.pts[..], "read_all_into changed the points that were there");
            check(&pts[k..], &rm, 0)?;
        }
        _ => {
            let r = catching(|| GenericPointReader::open_file(&path));
            let Ok(Ok(mut r)) = r else { return fail("GenericPointReader::open_file failed") };
            ensure!(r.point_count() == Some(n), "point_count() is {:?} of {n}", r.point_count());
            let from = g.range(0, n);
            ensure!(matches!(r.seek_point(SeekFrom::Start(from as u64)), Ok(p) if p == from), "seek");
            let k = g.range(0, n + 2);
            match r.read::<HashMapBuffer>(k) {
                Ok(b) => {
                    ensure!(b.len() == k.min(n - from), "{k} points read from {from} of {n}: {}", b.len());
                    let rm = Model::new(b.point_layout());
                    check(&points_of(&b, &rm), &rm, from)?;
                }
                Err(e) => return fail(format!("reading failed: {e:#}")),
            }
        }
    }
    Ok(())
}

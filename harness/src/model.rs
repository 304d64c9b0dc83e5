//! Generators for layouts and point data, and the reference model: a plain list of points, each a
//! list of attribute values (bytes).

use crate::gen::*;
use crate::ensure;
use pasture_core::containers::*;
use pasture_core::layout::*;
use std::borrow::Cow;

pub type DT = PointAttributeDataType;
pub type Def = PointAttributeDefinition;

pub const PRIMS: [DT; 16] = [
    DT::U8, DT::I8, DT::U16, DT::I16, DT::U32, DT::I32, DT::U64, DT::I64, DT::F32, DT::F64,
    DT::Vec3u8, DT::Vec3u16, DT::Vec3i32, DT::Vec3f32, DT::Vec3f64, DT::Vec4u8,
];
pub const SCALARS: [DT; 10] = [DT::U8, DT::I8, DT::U16, DT::I16, DT::U32, DT::I32, DT::U64, DT::I64, DT::F32, DT::F64];
pub const VECS: [DT; 5] = [DT::Vec3u8, DT::Vec3u16, DT::Vec3i32, DT::Vec3f32, DT::Vec3f64];

/// Binds `$T` to the Rust type of a primitive data type; `$other` for byte arrays and custom types.
#[macro_export]
macro_rules! with_prim {
    ($dt:expr, $T:ident => $body:expr, $other:expr) => {{
        use pasture_core::layout::PointAttributeDataType as D;
        use pasture_core::nalgebra::{Vector3, Vector4};
        match $dt {
            D::U8 => { type $T = u8; $body }
            D::I8 => { type $T = i8; $body }
            D::U16 => { type $T = u16; $body }
            D::I16 => { type $T = i16; $body }
            D::U32 => { type $T = u32; $body }
            D::I32 => { type $T = i32; $body }
            D::U64 => { type $T = u64; $body }
            D::I64 => { type $T = i64; $body }
            D::F32 => { type $T = f32; $body }
            D::F64 => { type $T = f64; $body }
            D::Vec3u8 => { type $T = Vector3<u8>; $body }
            D::Vec3u16 => { type $T = Vector3<u16>; $body }
            D::Vec3i32 => { type $T = Vector3<i32>; $body }
            D::Vec3f32 => { type $T = Vector3<f32>; $body }
            D::Vec3f64 => { type $T = Vector3<f64>; $body }
            D::Vec4u8 => { type $T = Vector4<u8>; $body }
            _ => { $other }
        }
    }};
}

/// Independent statement of size and alignment of each data type (from the language reference).
pub fn ref_size(dt: DT) -> u64 {
    match dt {
        DT::U8 | DT::I8 => 1,
        DT::U16 | DT::I16 => 2,
        DT::U32 | DT::I32 | DT::F32 | DT::Vec4u8 => 4,
        DT::U64 | DT::I64 | DT::F64 => 8,
        DT::Vec3u8 => 3,
        DT::Vec3u16 => 6,
        DT::Vec3i32 | DT::Vec3f32 => 12,
        DT::Vec3f64 => 24,
        DT::ByteArray(n) => n,
        DT::Custom { size, .. } => size,
    }
}
pub fn ref_align(dt: DT) -> u64 {
    match dt {
        DT::U8 | DT::I8 | DT::Vec3u8 | DT::Vec4u8 | DT::ByteArray(_) => 1,
        DT::U16 | DT::I16 | DT::Vec3u16 => 2,
        DT::U32 | DT::I32 | DT::F32 | DT::Vec3i32 | DT::Vec3f32 => 4,
        DT::U64 | DT::I64 | DT::F64 | DT::Vec3f64 => 8,
        DT::Custom { min_alignment, .. } => min_alignment,
    }
}

pub fn builtins() -> Vec<Def> {
    use pasture_core::layout::attributes::*;
    vec![
        POSITION_3D, INTENSITY, RETURN_NUMBER, NUMBER_OF_RETURNS, CLASSIFICATION_FLAGS, SCANNER_CHANNEL, SCAN_DIRECTION_FLAG,
        EDGE_OF_FLIGHT_LINE, CLASSIFICATION, SCAN_ANGLE_RANK, SCAN_ANGLE, USER_DATA, POINT_SOURCE_ID, COLOR_RGB, GPS_TIME, NIR,
        WAVE_PACKET_DESCRIPTOR_INDEX, WAVEFORM_DATA_OFFSET, WAVEFORM_PACKET_SIZE, RETURN_POINT_WAVEFORM_LOCATION,
        WAVEFORM_PARAMETERS, POINT_ID, NORMAL,
    ]
}

pub fn def(name: impl Into<String>, dt: DT) -> Def {
    Def::custom(Cow::Owned(name.into()), dt)
}

pub fn gen_type(g: &mut Gen, exotic: bool) -> DT {
    if exotic && g.chance(1, 6) && !g.huge {
        if g.chance(1, 2) {
            // now and then more than one byte can count
            DT::ByteArray(if g.chance(1, 6) { g.range(200, 700) } else { g.range(1, 9) } as u64)
        } else {
            let align = 1u64 << if g.chance(1, 8) { g.range(5, 9) } else { g.range(0, 4) };
            let size = align * g.range(1, 3) as u64;
            DT::Custom { size, min_alignment: align, name: uuid::Uuid::from_u128(7 + size as u128 * 100 + align as u128) }
        }
    } else {
        *g.choose(&PRIMS)
    }
}

pub fn gen_attrs(g: &mut Gen, min: usize, max: usize, exotic: bool) -> Vec<Def> {
    // now and then far more attributes than usual
    let n = if max >= 5 && min < max && !g.huge && g.chance(1, 24) { g.range(max, 4 * max) } else { g.range(min, max) };
    let b = builtins();
    let mut out: Vec<Def> = vec![];
    for i in 0..n {
        let mode = g.range(0, 2);
        let d = match mode {
            0 => def(format!("attr{i}"), gen_type(g, exotic)),
            1 => g.choose(&b).clone(),
            _ => { let n = g.choose(&b).name().to_string(); def(n, gen_type(g, exotic)) }
        };
        if out.iter().any(|o| o.name() == d.name()) {
            out.push(def(format!("attr{i}"), d.datatype()));
        } else {
            out.push(d);
        }
    }
    g.point_size = g.point_size.max(out.iter().map(|d| ref_size(d.datatype()) as usize).sum());
    out
}

/// Arranges attributes in memory in one of the ways the library offers.
pub fn gen_arrangement(g: &mut Gen, attrs: &[Def]) -> PointLayout {
    let l = arrange(g, attrs);
    g.point_size = g.point_size.max(l.size_of_point_entry() as usize);
    l
}

fn arrange(g: &mut Gen, attrs: &[Def]) -> PointLayout {
    match g.range(0, 4) {
        0 => PointLayout::from_attributes(attrs),
        1 => PointLayout::from_attributes_packed(attrs, 1),
        2 => PointLayout::from_attributes_packed(attrs, 1 << g.range(1, 4)),
        3 => attrs.iter().cloned().collect(),
        _ => {
            // explicit members: any order in memory, gaps allowed (the caller of this constructor picks offsets)
            let mut order: Vec<usize> = (0..attrs.len()).collect();
            for i in (1..order.len()).rev() {
                order.swap(i, g.range(0, i));
            }
            let mut off = 0u64;
            let mut offs = vec![0u64; attrs.len()];
            for &i in &order {
                off += g.range(0, 3) as u64;
                offs[i] = off;
                off += ref_size(attrs[i].datatype());
            }
            let members: Vec<PointAttributeMember> = attrs.iter().enumerate().map(|(i, a)| a.at_offset_in_type(offs[i])).collect();
            PointLayout::from_members_and_alignment(&members, 1 << g.range(0, 3))
        }
    }
}

pub fn gen_layout(g: &mut Gen, max_attrs: usize, exotic: bool) -> PointLayout {
    let attrs = gen_attrs(g, 1, max_attrs, exotic);
    let l = gen_arrangement(g, &attrs);
    g.note(|| format!("layout {}", show_layout(&l)));
    l
}

pub fn show_layout(l: &PointLayout) -> String {
    let a: Vec<String> = l.attributes().map(|a| format!("{}:{}@{}", a.name(), a.datatype(), a.offset())).collect();
    format!("{{{} size {}}}", a.join(" "), l.size_of_point_entry())
}

pub fn defs_of(l: &PointLayout) -> Vec<Def> {
    l.attributes().map(|a| a.attribute_definition().clone()).collect()
}

/// One point: the bytes of each attribute in layout order.
pub type Pt = Vec<Vec<u8>>;

#[derive(Clone)]
pub struct Model {
    pub layout: PointLayout,
    pub defs: Vec<Def>,
    pub offs: Vec<usize>,
    pub sizes: Vec<usize>,
    pub psize: usize,
    pub pts: Vec<Pt>,
}

impl Model {
    pub fn new(layout: &PointLayout) -> Self {
        Model {
            layout: layout.clone(),
            defs: defs_of(layout),
            offs: layout.attributes().map(|a| a.offset() as usize).collect(),
            sizes: layout.attributes().map(|a| ref_size(a.datatype()) as usize).collect(),
            psize: layout.size_of_point_entry() as usize,
            pts: vec![],
        }
    }
    pub fn len(&self) -> usize {
        self.pts.len()
    }
    pub fn zero(&self) -> Pt {
        self.sizes.iter().map(|s| vec![0; *s]).collect()
    }
    pub fn gen_pt(&self, g: &mut Gen) -> Pt {
        let total: usize = self.sizes.iter().sum();
        let b = g.bytes(total);
        let mut o = 0;
        self.sizes.iter().map(|s| { let v = b[o..o + s].to_vec(); o += s; v }).collect()
    }
    pub fn gen_pts(&self, g: &mut Gen, n: usize) -> Vec<Pt> {
        let seed = g.draw(u32::MAX as u64);
        (0..n)
            .map(|i| {
                let total: usize = self.sizes.iter().sum();
                let b = expand_bytes(if seed == 0 { i as u64 + 1 } else { seed.wrapping_add(i as u64 * 7919) }, total);
                let mut o = 0;
                self.sizes.iter().map(|s| { let v = b[o..o + s].to_vec(); o += s; v }).collect()
            })
            .collect()
    }
    /// Raw memory of a point; padding bytes are filled with `pad`.
    pub fn encode(&self, p: &Pt, pad: u8) -> Vec<u8> {
        let mut out = vec![pad; self.psize];
        for (i, v) in p.iter().enumerate() {
            out[self.offs[i]..self.offs[i] + self.sizes[i]].copy_from_slice(v);
        }
        out
    }
    pub fn encode_all(&self, ps: &[Pt], pad: u8) -> Vec<u8> {
        ps.iter().flat_map(|p| self.encode(p, pad)).collect()
    }
    pub fn decode(&self, bytes: &[u8]) -> Pt {
        (0..self.defs.len()).map(|i| bytes[self.offs[i]..self.offs[i] + self.sizes[i]].to_vec()).collect()
    }
    pub fn column(&self, a: usize, lo: usize, hi: usize) -> Vec<u8> {
        self.pts[lo..hi].iter().flat_map(|p| p[a].clone()).collect()
    }
}

pub fn gen_subrange(g: &mut Gen, len: usize) -> (usize, usize) {
    let a = g.range(0, len);
    let b = g.range(a, len);
    (a, b)
}

/// Compares everything a borrowed buffer can be asked with the model.
pub fn check_reads<'a, B: BorrowedBuffer<'a>>(g: &mut Gen, buf: &B, m: &Model, what: &str) -> PResult {
    ensure!(buf.len() == m.len(), "{what}: len() is {}, expected {}", buf.len(), m.len());
    ensure!(buf.is_empty() == (m.len() == 0), "{what}: is_empty() wrong for length {}", m.len());
    ensure!(buf.point_layout() == &m.layout, "{what}: point_layout() changed");
    let mut data = vec![0u8; m.psize];
    for i in 0..m.len() {
        data.iter_mut().for_each(|b| *b = 0xA5);
        buf.get_point(i, &mut data);
        let got = m.decode(&data);
        ensure!(got == m.pts[i], "{what}: get_point({i}) is {:?}, expected {:?}", got, m.pts[i]);
    }
    let (lo, hi) = gen_subrange(g, m.len());
    for (lo, hi) in [(lo, hi), (0, m.len())] {
        let mut data = vec![0xA5u8; m.psize * (hi - lo)];
        buf.get_point_range(lo..hi, &mut data);
        for i in lo..hi {
            let got = m.decode(&data[(i - lo) * m.psize..(i - lo + 1) * m.psize]);
            ensure!(got == m.pts[i], "{what}: get_point_range({lo}..{hi}) has {:?} for point {i}, expected {:?}", got, m.pts[i]);
        }
        for (a, d) in m.defs.iter().enumerate() {
            let mut data = vec![0xA5u8; m.sizes[a] * (hi - lo)];
            buf.get_attribute_range(d, lo..hi, &mut data);
            ensure!(data == m.column(a, lo, hi), "{what}: get_attribute_range({d}, {lo}..{hi}) is {:?}, expected {:?}", data, m.column(a, lo, hi));
        }
    }
    for (a, d) in m.defs.iter().enumerate() {
        let member = buf.point_layout().get_attribute(d).cloned();
        let Some(member) = member else { return fail(format!("{what}: attribute {d} not found in layout")) };
        let mut data = vec![0u8; m.sizes[a]];
        for i in 0..m.len() {
            data.iter_mut().for_each(|b| *b = 0xA5);
            buf.get_attribute(d, i, &mut data);
            ensure!(data == m.pts[i][a], "{what}: get_attribute({d}, {i}) is {:?}, expected {:?}", data, m.pts[i][a]);
            data.iter_mut().for_each(|b| *b = 0x5A);
            unsafe { buf.get_attribute_unchecked(&member, i, &mut data) };
            ensure!(data == m.pts[i][a], "{what}: get_attribute_unchecked({d}, {i}) is {:?}, expected {:?}", data, m.pts[i][a]);
        }
        let r: PResult = with_prim!(d.datatype(), T => {
            let v = buf.view_attribute::<T>(d);
            for i in 0..m.len() {
                let x: T = v.at(i);
                ensure!(bytemuck::bytes_of(&x) == &m.pts[i][a][..], "{what}: view_attribute({d}).at({i}) is {:?}, expected bytes {:?}", x, m.pts[i][a]);
            }
            Ok(())
        }, Ok(()));
        r?;
    }
    if let Some(ib) = buf.as_interleaved() {
        check_interleaved(g, ib, m, what)?;
    }
    if let Some(cb) = buf.as_columnar() {
        check_columnar(g, cb, m, what)?;
    }
    Ok(())
}

pub fn check_interleaved<'a, B: InterleavedBuffer<'a> + ?Sized>(g: &mut Gen, buf: &B, m: &Model, what: &str) -> PResult {
    ensure!(buf.len() == m.len(), "{what}: interleaved len() is {}, expected {}", buf.len(), m.len());
    for i in 0..m.len() {
        let b = buf.get_point_ref(i);
        ensure!(b.len() == m.psize, "{what}: get_point_ref({i}) has {} bytes, point size is {}", b.len(), m.psize);
        ensure!(m.decode(b) == m.pts[i], "{what}: get_point_ref({i}) is {:?}, expected {:?}", m.decode(b), m.pts[i]);
    }
    let (lo, hi) = gen_subrange(g, m.len());
    for (lo, hi) in [(lo, hi), (0, m.len())] {
        let b = buf.get_point_range_ref(lo..hi);
        ensure!(b.len() == m.psize * (hi - lo), "{what}: get_point_range_ref({lo}..{hi}) has {} bytes", b.len());
        for i in lo..hi {
            let got = m.decode(&b[(i - lo) * m.psize..(i - lo + 1) * m.psize]);
            ensure!(got == m.pts[i], "{what}: get_point_range_ref({lo}..{hi}) has {:?} for point {i}, expected {:?}", got, m.pts[i]);
        }
    }
    for a in 0..m.defs.len() {
        let member = m.layout.at(a).clone();
        if m.len() > 0 {
            let v = buf.view_raw_attribute(&member);
            ensure!(v.is_empty() == (v.len() == 0), "{what}: a raw view of {} entries says is_empty() is {}", v.len(), v.is_empty());
            ensure!(v.len() == m.len(), "{what}: raw view of {} has length {}, expected {}", member, v.len(), m.len());
            for i in 0..m.len() {
                ensure!(v[i] == m.pts[i][a][..], "{what}: raw view of {} at {i} is {:?}, expected {:?}", member, &v[i], m.pts[i][a]);
            }
        }
    }
    Ok(())
}

pub fn check_columnar<'a, B: ColumnarBuffer<'a> + ?Sized>(g: &mut Gen, buf: &B, m: &Model, what: &str) -> PResult {
    ensure!(buf.len() == m.len(), "{what}: columnar len() is {}, expected {}", buf.len(), m.len());
    let (lo, hi) = gen_subrange(g, m.len());
    for (a, d) in m.defs.iter().enumerate() {
        for i in 0..m.len() {
            let b = buf.get_attribute_ref(d, i);
            ensure!(b == &m.pts[i][a][..], "{what}: get_attribute_ref({d}, {i}) is {:?}, expected {:?}", b, m.pts[i][a]);
        }
        for (lo, hi) in [(lo, hi), (0, m.len())] {
            let b = buf.get_attribute_range_ref(d, lo..hi);
            ensure!(b == &m.column(a, lo, hi)[..], "{what}: get_attribute_range_ref({d}, {lo}..{hi}) is {:?}, expected {:?}", b, m.column(a, lo, hi));
        }
        let member = m.layout.at(a).clone();
        if m.len() > 0 {
            let v = buf.view_raw_attribute(&member);
            ensure!(v.is_empty() == (v.len() == 0), "{what}: a raw view of {} entries says is_empty() is {}", v.len(), v.is_empty());
            ensure!(v.len() == m.len(), "{what}: raw view of {d} has length {}, expected {}", v.len(), m.len());
            for i in 0..m.len() {
                ensure!(v[i] == m.pts[i][a][..], "{what}: raw view of {d} at {i} is {:?}, expected {:?}", &v[i], m.pts[i][a]);
            }
        }
    }
    Ok(())
}

/// The buffer kinds the library ships.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Vector,
    HashMap,
    External,
}

pub enum Buf {
    V(VectorBuffer),
    H(HashMapBuffer),
    E(ExternalMemoryBuffer<Vec<u8>>),
}

#[macro_export]
macro_rules! on_buf {
    ($b:expr, $x:ident => $body:expr) => {
        match $b {
            $crate::model::Buf::V($x) => $body,
            $crate::model::Buf::H($x) => $body,
            $crate::model::Buf::E($x) => $body,
        }
    };
}

pub fn gen_kind(g: &mut Gen) -> Kind {
    *g.choose(&[Kind::Vector, Kind::HashMap, Kind::External])
}

/// Builds a buffer of the given kind holding exactly the model's points.
pub fn make_buf(kind: Kind, m: &Model, pad: u8) -> Buf {
    let bytes = m.encode_all(&m.pts, pad);
    match kind {
        Kind::Vector => {
            let mut b = VectorBuffer::new_from_layout(m.layout.clone());
            unsafe { b.push_points(&bytes) };
            Buf::V(b)
        }
        Kind::HashMap => {
            let mut b = HashMapBuffer::new_from_layout(m.layout.clone());
            unsafe { b.push_points(&bytes) };
            Buf::H(b)
        }
        Kind::External => Buf::E(ExternalMemoryBuffer::new(bytes, m.layout.clone())),
    }
}

// ---------------------------------------------------------------- reference conversion

#[derive(Clone, Copy, Debug)]
enum Num {
    I(i128),
    F(f64),
}

pub fn component(dt: DT) -> Option<(DT, usize)> {
    Some(match dt {
        DT::Vec3u8 => (DT::U8, 3),
        DT::Vec3u16 => (DT::U16, 3),
        DT::Vec3i32 => (DT::I32, 3),
        DT::Vec3f32 => (DT::F32, 3),
        DT::Vec3f64 => (DT::F64, 3),
        d if SCALARS.contains(&d) => (d, 1),
        _ => return None,
    })
}

fn read_num(dt: DT, b: &[u8]) -> Num {
    match dt {
        DT::U8 => Num::I(b[0] as i128),
        DT::I8 => Num::I(b[0] as i8 as i128),
        DT::U16 => Num::I(u16::from_ne_bytes(b.try_into().unwrap()) as i128),
        DT::I16 => Num::I(i16::from_ne_bytes(b.try_into().unwrap()) as i128),
        DT::U32 => Num::I(u32::from_ne_bytes(b.try_into().unwrap()) as i128),
        DT::I32 => Num::I(i32::from_ne_bytes(b.try_into().unwrap()) as i128),
        DT::U64 => Num::I(u64::from_ne_bytes(b.try_into().unwrap()) as i128),
        DT::I64 => Num::I(i64::from_ne_bytes(b.try_into().unwrap()) as i128),
        DT::F32 => Num::F(f32::from_ne_bytes(b.try_into().unwrap()) as f64),
        DT::F64 => Num::F(f64::from_ne_bytes(b.try_into().unwrap())),
        _ => unreachable!(),
    }
}

fn write_num(dt: DT, n: Num) -> Vec<u8> {
    macro_rules! w { ($t:ty) => { match n { Num::I(i) => (i as $t).to_ne_bytes().to_vec(), Num::F(f) => (f as $t).to_ne_bytes().to_vec() } } }
    match dt {
        DT::U8 => w!(u8),
        DT::I8 => w!(i8),
        DT::U16 => w!(u16),
        DT::I16 => w!(i16),
        DT::U32 => w!(u32),
        DT::I32 => w!(i32),
        DT::U64 => w!(u64),
        DT::I64 => w!(i64),
        DT::F32 => w!(f32),
        DT::F64 => w!(f64),
        _ => unreachable!(),
    }
}

/// The component-wise numeric cast of one attribute value; None if the two data types are not convertible.
pub fn ref_cast(from: DT, to: DT, v: &[u8]) -> Option<Vec<u8>> {
    if from == to {
        return Some(v.to_vec());
    }
    let ((fc, fnum), (tc, tnum)) = (component(from)?, component(to)?);
    if fnum != tnum {
        return None;
    }
    let fs = ref_size(fc) as usize;
    Some((0..fnum).flat_map(|i| write_num(tc, read_num(fc, &v[i * fs..(i + 1) * fs]))).collect())
}

pub fn castable(from: DT, to: DT) -> bool {
    from == to || matches!((component(from), component(to)), (Some((_, a)), Some((_, b))) if a == b)
}

/// Equality of attribute values in memory, except that any NaN equals any NaN.
pub fn same_value(dt: DT, a: &[u8], b: &[u8]) -> bool {
    if a == b {
        return true;
    }
    let Some((c, _)) = component(dt) else { return false };
    if a.len() != b.len() || !matches!(c, DT::F32 | DT::F64) {
        return false;
    }
    let s = ref_size(c) as usize;
    a.chunks(s).zip(b.chunks(s)).all(|(x, y)| {
        x == y
            || match (read_num(c, x), read_num(c, y)) {
                (Num::F(p), Num::F(q)) => p.is_nan() && q.is_nan(),
                _ => false,
            }
    })
}

/// Bytes of a value of the given type, biased towards extremes of the type.
pub fn gen_value(g: &mut Gen, dt: DT) -> Vec<u8> {
    let Some((c, n)) = component(dt) else { return g.bytes(ref_size(dt) as usize) };
    (0..n).flat_map(|_| gen_scalar(g, c)).collect()
}

fn gen_scalar(g: &mut Gen, c: DT) -> Vec<u8> {
    let s = ref_size(c) as usize;
    match c {
        DT::F32 | DT::F64 => {
            let specials = [
                0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.9999999, 127.0, 128.0, 255.0, 256.0, -128.0, -129.0, 32767.5, 65535.0, 65536.0, -32769.0,
                2147483647.0, 2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0, 9.007199254740993e15, 9.223372036854775e18, 9.3e18,
                1.8446744073709552e19, -9.3e18, 3.4028234e38, 1e39, -1e39, 1e300, 1e-45, 5e-324, 1e-310, f64::INFINITY, f64::NEG_INFINITY, f64::NAN,
                16777217.0, 0.1, 1.0 / 3.0,
            ];
            let f = match g.range(0, 4) {
                4 => {
                    // few mantissa bits and one far below them: next to a value or a halfway point of a narrower type
                    let e = g.range(0, 70) as i32;
                    let far = g.range(20, 52) as i32;
                    let m = 1.0 + g.range(0, 3) as f64 / 4.0 + 2f64.powi(-(g.range(20, 26) as i32)) * g.range(0, 3) as f64;
                    let v = (m + 2f64.powi(-far)) * 2f64.powi(e - 5);
                    if g.chance(1, 2) { -v } else { v }
                }
                0 => *g.choose(&specials),
                1 => g.irange(-1000, 1000) as f64 / 8.0,
                2 => {
                    let e = g.range(0, 40) as i32;
                    let m = g.irange(-1000, 1000) as f64;
                    m * 10f64.powi(e - 20)
                }
                _ => return g.bytes(s),
            };
            if c == DT::F32 { (f as f32).to_ne_bytes().to_vec() } else { f.to_ne_bytes().to_vec() }
        }
        _ => {
            let bits = s * 8;
            let v: u64 = match g.range(0, 7) {
                7 => {
                    // a leading bit, the halfway bit of a float mantissa below it, and one bit further down
                    let k = g.range(bits / 2, bits - 1);
                    let half = k.saturating_sub(*g.choose(&[24usize, 53, 25, 54]));
                    let mut v = (1u64 << k) | (1u64 << half);
                    if half + 1 < k && g.chance(1, 2) { v |= 1u64 << (half + 1) }
                    let t = 1u64 << g.range(0, half);
                    v = if g.chance(1, 2) { v.wrapping_add(t) } else { v.wrapping_sub(t) };
                    if g.chance(1, 2) { v.wrapping_neg() } else { v }
                }
                5 | 6 => {
                    // signed sums of a few powers of two: rounding cases of integer to float casts
                    let mut v = 1u64 << g.range(0, bits - 1);
                    for _ in 0..g.range(1, 3) {
                        let t = 1u64 << g.range(0, bits - 1);
                        v = if g.chance(1, 4) { v.wrapping_sub(t) } else { v.wrapping_add(t) };
                    }
                    if g.chance(1, 4) { v.wrapping_neg() } else { v }
                }
                0 => g.range(0, 3) as u64,
                1 => (0u64).wrapping_sub(g.range(1, 3) as u64),
                2 => (1u64 << g.range(0, bits - 1)).wrapping_sub(g.range(0, 2) as u64),
                3 => (1u64 << g.range(0, bits - 1)).wrapping_add(g.range(0, 2) as u64),
                _ => g.draw(u64::MAX),
            };
            v.to_ne_bytes()[..s].to_vec()
        }
    }
}

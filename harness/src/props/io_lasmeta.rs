//! What LAS headers and VLRs say about a file (I04), checked against the LAS 1.4 specification.

use super::io_las::{smallest, Fmt};
use super::sec;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::runner::{catching, Property};
use pasture_core::containers::*;
use pasture_core::layout::{attributes as at, FieldAlignment, PointLayout, PointType};
use pasture_core::math::AABB;
use pasture_core::meta::Metadata;
use pasture_core::nalgebra::Point3;
use pasture_io::base::*;
use pasture_io::las::*;
use pasture_io::las_rs;
use std::convert::{TryFrom, TryInto};

pub fn i04() -> Property {
    Property {
        id: "I04",
        rule: "an input with something in it: entries, VLRs, attributes or points",
        sections: vec![
            sec("extra-bytes", extra_bytes, 20000, 15),
            sec("lookup", lookup, 4000, 15),
            sec("text", text, 6000, 15),
            sec("metadata", metadata, 16000, 15),
            sec("formats", formats, 40000, 15),
            sec("layouts", layouts, 30000, 15),
            sec("las-points", las_points, 20000, 15),
            sec("bits", bits, 20000, 15),
            sec("paths", paths, 6000, 15),
        ],
    }
}

type Vlr = las_rs::Vlr;

fn gen_word(g: &mut Gen, max: usize) -> String {
    let n = match g.range(0, 5) {
        0 => 0,
        1 => max,
        2 => max + 1,
        _ => g.range(1, max + 8),
    };
    let mut s = String::new();
    while s.chars().count() < n {
        s.push(*g.choose(&['a', 'Z', '0', ' ', '_', 'ä', '€', '😀', '%', '{']));
    }
    s
}

fn gen_ascii(g: &mut Gen, max: usize) -> String {
    let n = g.range(0, max);
    (0..n).map(|_| *g.choose(&['a', 'Z', '0', ' ', '_', '%', '{', '.'])).collect()
}

/// The part of a text that fits into a field of so many bytes.
fn fitting(s: &str, n: usize) -> &str {
    let mut end = 0;
    for (i, c) in s.char_indices() {
        if i + c.len_utf8() <= n {
            end = i + c.len_utf8();
        }
    }
    &s[..end]
}

// ---------------------------------------------------------------- extra bytes

#[derive(Clone, Debug)]
struct Entry {
    code: u8,
    options: u8,
    name: String,
    description: String,
    no_data: [u8; 8],
    min: [u8; 8],
    max: [u8; 8],
    scale: f64,
    offset: f64,
}

const CODES: [(u8, DT); 10] =
    [(1, DT::U8), (2, DT::I8), (3, DT::U16), (4, DT::I16), (5, DT::U32), (6, DT::I32), (7, DT::U64), (8, DT::I64), (9, DT::F32), (10, DT::F64)];

impl Entry {
    fn class(&self) -> char {
        match self.code {
            1 | 3 | 5 | 7 => 'u',
            2 | 4 | 6 | 8 => 'i',
            9 | 10 => 'f',
            _ => '-',
        }
    }
    fn bit(&self, i: u32) -> bool {
        self.options >> i & 1 == 1
    }
    /// The 192 bytes of the entry in the VLR.
    fn encode(&self, g: Option<&mut Gen>) -> Vec<u8> {
        let mut e = vec![0u8; 192];
        if let Some(g) = g {
            // what is reserved, unused or deprecated may hold anything
            let junk = g.bytes(192);
            for r in [0..2, 36..40, 48..64, 72..88, 96..112, 120..136, 144..160] {
                e[r.clone()].copy_from_slice(&junk[r]);
            }
            // and so may the bytes behind the end of a text
            let n = fitting(&self.name, 32).len();
            if n < 31 {
                e[4 + n + 1..36].copy_from_slice(&junk[4 + n + 1..36]);
            }
        }
        e[2] = self.code;
        e[3] = self.options;
        let put = |e: &mut [u8], s: &str| e[..fitting(s, 32).len()].copy_from_slice(fitting(s, 32).as_bytes());
        put(&mut e[4..36], &self.name);
        e[40..48].copy_from_slice(&self.no_data);
        e[64..72].copy_from_slice(&self.min);
        e[88..96].copy_from_slice(&self.max);
        e[112..120].copy_from_slice(&self.scale.to_le_bytes());
        e[136..144].copy_from_slice(&self.offset.to_le_bytes());
        put(&mut e[160..192], &self.description);
        e
    }
    fn build(&self) -> ExtraBytesEntry {
        let mut b = ExtraBytesEntryBuilder::new(self.code.into(), self.name.clone(), self.description.clone());
        if self.bit(0) {
            b = b.no_data_value(self.no_data);
        }
        if self.bit(1) {
            b = b.min_data_value(self.min);
        }
        if self.bit(2) {
            b = b.max_data_value(self.max);
        }
        if self.bit(3) {
            b = b.with_scale(self.scale);
        }
        if self.bit(4) {
            b = b.with_offset(self.offset);
        }
        b.build()
    }
    fn check(&self, e: &ExtraBytesEntry, cut: bool, whole: bool) -> PResult {
        let short = |s: &str| if cut { fitting(s, 32).to_string() } else { s.to_string() };
        let t = e.data_type();
        ensure!(u8::from(t) == self.code, "data type {} instead of {}", u8::from(t), self.code);
        ensure!(t.is_unsigned() == (self.class() == 'u') && t.is_signed() == (self.class() == 'i') && t.is_floating_point() == (self.class() == 'f'), "kind of type {t:?}");
        let dt = CODES.iter().find(|c| c.0 == self.code).map(|c| c.1);
        ensure!(t.size() == dt.map(|d| ref_size(d) as usize), "size {:?} of type {t:?}", t.size());
        ensure!(e.name() == short(&self.name), "name {:?} instead of {:?}", e.name(), short(&self.name));
        ensure!(e.description() == short(&self.description), "description {:?} instead of {:?}", e.description(), short(&self.description));
        let o = e.options();
        ensure!(o.0 == self.options, "options {:#b} instead of {:#b}", o.0, self.options);
        ensure!(
            [o.no_data_is_relevant(), o.min_is_relevant(), o.max_is_relevant(), o.use_scale(), o.use_offset()] == [0, 1, 2, 3, 4].map(|i| self.bit(i)),
            "options {o:?} of {:#b}",
            self.options
        );
        let f = |on: bool, v: f64| on.then_some(v.to_bits());
        ensure!(e.scale().map(f64::to_bits) == f(self.bit(3), self.scale), "scale {:?} instead of {} ({})", e.scale(), self.scale, self.bit(3));
        ensure!(e.offset().map(f64::to_bits) == f(self.bit(4), self.offset), "offset {:?} instead of {} ({})", e.offset(), self.offset, self.bit(4));
        type Get<T> = fn(&ExtraBytesEntry) -> anyhow::Result<T>;
        let rows: [(&str, [u8; 8], [u8; 8], u32, Get<u64>, Get<i64>, Get<f64>); 3] = [
            ("no data", self.no_data, e.no_data_value_raw(), 0, |e| e.no_data_value_as_unsigned(), |e| e.no_data_value_as_signed(), |e| e.no_data_value_as_float()),
            ("minimum", self.min, e.min_value_raw(), 1, |e| e.min_as_unsigned(), |e| e.min_as_signed(), |e| e.min_as_float()),
            ("maximum", self.max, e.max_value_raw(), 2, |e| e.max_as_unsigned(), |e| e.max_as_signed(), |e| e.max_as_float()),
        ];
        for (what, v, raw, i, u, s, d) in rows {
            // a builder sets a value and its flag together
            let v = if whole || self.bit(i) { v } else { [0; 8] };
            ensure!(raw == v, "raw {what} {raw:?} instead of {v:?}");
            match (u(e), self.class() == 'u') {
                (Ok(x), true) => ensure!(x == u64::from_le_bytes(v), "{what} {x} of {v:?}"),
                (Err(_), false) => {}
                (r, _) => return fail(format!("{what} as unsigned of type {}: {r:?}", self.code)),
            }
            match (s(e), self.class() == 'i') {
                (Ok(x), true) => ensure!(x == i64::from_le_bytes(v), "{what} {x} of {v:?}"),
                (Err(_), false) => {}
                (r, _) => return fail(format!("{what} as signed of type {}: {r:?}", self.code)),
            }
            match (d(e), self.class() == 'f') {
                (Ok(x), true) => ensure!(x.to_bits() == u64::from_le_bytes(v), "{what} {x} of {v:?}"),
                (Err(_), false) => {}
                (r, _) => return fail(format!("{what} as float of type {}: {r:?}", self.code)),
            }
        }
        match (e.get_point_attribute(), dt) {
            (Ok(a), Some(d)) => ensure!(a.name() == e.name() && a.datatype() == d, "attribute {a} for {} of type {d}", e.name()),
            (Err(_), None) => {}
            (r, _) => return fail(format!("attribute of type {}: {r:?}", self.code)),
        }
        // displayed is what is relevant, with its value
        let text = match catching(|| format!("{e}")) {
            Ok(t) => t,
            Err(p) => return fail(format!("displaying an entry of type {} with options {:#b}: {p}", self.code, self.options)),
        };
        ensure!(text.contains(e.name()), "name not in {text:?}");
        let rest = &text[e.name().len()..];
        if !self.name.contains(|c| c == '{' || c == '%') {
            let num = |v: [u8; 8]| match self.class() {
                'u' => u64::from_le_bytes(v).to_string(),
                'i' => i64::from_le_bytes(v).to_string(),
                'f' => f64::from_le_bytes(v).to_string(),
                _ => format!("{v:#?}"),
            };
            for (label, i, v) in [("No-data value", 0, self.no_data), ("Min", 1, self.min), ("Max", 2, self.max)] {
                let l = if self.class() == '-' { format!("{label} (raw bytes): {}", num(v)) } else { format!("{label}: {}", num(v)) };
                ensure!(rest.contains(&l) == self.bit(i) && rest.contains(label) == self.bit(i), "{l:?} ({}) in {rest:?}", self.bit(i));
            }
            for (label, i, v) in [("Scale", 3, self.scale), ("Offset", 4, self.offset)] {
                ensure!(rest.contains(&format!("{label}: {v}")) == self.bit(i), "{label}: {v} ({}) in {rest:?}", self.bit(i));
            }
        }
        Ok(())
    }
}

fn gen_entry(g: &mut Gen, built: bool) -> Entry {
    let a8 = |g: &mut Gen| -> [u8; 8] { g.bytes(8).try_into().unwrap() };
    let f = |g: &mut Gen| match g.range(0, 4) {
        0 => 0.0,
        1 => 0.001,
        2 => -12.5,
        3 => f64::INFINITY,
        _ => g.irange(-1000, 1000) as f64,
    };
    Entry {
        code: match g.range(0, 9) {
            0 => 0,
            1 => g.range(11, 255) as u8,
            _ => g.range(1, 10) as u8,
        },
        options: if built { g.range(0, 31) as u8 } else { g.range(0, 255) as u8 },
        name: gen_word(g, 32),
        description: gen_word(g, 32),
        no_data: a8(g),
        min: a8(g),
        max: a8(g),
        scale: f(g),
        offset: f(g),
    }
}

fn extra_bytes(g: &mut Gen) -> PResult {
    let built = g.chance(1, 2);
    let n = if g.chance(1, 60) { g.range(340, 344) } else { g.small(6) };
    let entries: Vec<Entry> = (0..n).map(|_| gen_entry(g, built)).collect();
    if n > 0 {
        g.mark();
    }
    g.note(|| format!("{n} entries, built {built}: {:?}", entries.iter().take(4).map(|e| (e.code, e.options, &e.name)).collect::<Vec<_>>()));
    let vlr: Vlr = if built {
        let made: Vec<ExtraBytesEntry> = entries.iter().map(Entry::build).collect();
        for (e, b) in entries.iter().zip(&made) {
            e.check(b, false, false)?;
        }
        let v: ExtraBytesVlr = made.into_iter().collect();
        ensure!(v.entries().len() == n, "{} entries of {n}", v.entries().len());
        let r: anyhow::Result<Vlr> = match catching(|| (&v).try_into()) {
            Ok(r) => r,
            Err(p) => return fail(format!("VLR of {n} entries: {p}")),
        };
        match r {
            Ok(v) => {
                ensure!(n <= 341, "a VLR for {n} entries");
                v
            }
            Err(e) => {
                ensure!(n > 341, "no VLR for {n} entries: {e:#}");
                g.class("too many entries refused");
                return Ok(());
            }
        }
    } else {
        if n > 341 {
            return Ok(());
        }
        let data: Vec<u8> = entries.iter().flat_map(|e| e.encode(Some(g))).collect();
        Vlr { user_id: "LASF_Spec".into(), record_id: 4, description: "extra".into(), data }
    };
    ensure!(vlr.user_id == "LASF_Spec" && vlr.record_id == 4, "VLR of {} {}", vlr.user_id, vlr.record_id);
    if built {
        let want: Vec<u8> = entries
            .iter()
            .flat_map(|e| {
                let mut e = e.clone();
                // a value that is not set is zero
                let zero = [0, 1, 2, 3, 4].map(|i| !e.bit(i));
                if zero[0] { e.no_data = [0; 8] }
                if zero[1] { e.min = [0; 8] }
                if zero[2] { e.max = [0; 8] }
                if zero[3] { e.scale = 0.0 }
                if zero[4] { e.offset = 0.0 }
                e.encode(None)
            })
            .collect();
        ensure!(vlr.data.len() == want.len(), "{} bytes for {n} entries", vlr.data.len());
        if let Some(i) = (0..want.len()).find(|i| vlr.data[*i] != want[*i]) {
            return fail(format!("byte {} of entry {} is {}, not {}", i % 192, i / 192, vlr.data[i], want[i]));
        }
    }
    let back = match catching(|| ExtraBytesVlr::try_from(&vlr)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return fail(format!("reading the VLR: {e:#}")),
        Err(p) => return fail(format!("reading the VLR: {p}")),
    };
    ensure!(back.entries().len() == n, "{} entries of {n} read", back.entries().len());
    for (e, b) in entries.iter().zip(back.entries()) {
        e.check(b, true, !built)?;
    }
    let text = match catching(|| format!("{back}")) {
        Ok(t) => t,
        Err(p) => return fail(format!("displaying the VLR: {p}")),
    };
    for b in back.entries() {
        ensure!(text.contains(&format!("{b}")), "entry {b} not in {text:?}");
    }
    // the way through the VLR once more changes nothing
    let again: anyhow::Result<Vlr> = (&back).try_into();
    match again {
        Ok(v) if built => ensure!(v.data == vlr.data, "the VLR changed on the second way"),
        Ok(_) => {}
        Err(e) => return fail(format!("writing what was read: {e:#}")),
    }
    // other VLRs and damaged ones are refused
    let mut bad = vlr.clone();
    let what = match g.range(0, 4) {
        0 => {
            bad.user_id = g.choose(&["", "LASF_Projection", "LASF_spec", "LASF_Spec "]).to_string();
            "user id"
        }
        1 => {
            bad.record_id = *g.choose(&[0, 3, 5, 260, 65535]);
            "record id"
        }
        2 if n > 0 => {
            let cut = g.range(1, 191);
            bad.data.truncate(bad.data.len() - cut);
            "cut"
        }
        3 => {
            let more = g.range(1, 191);
            bad.data.extend(vec![0; more]);
            "longer"
        }
        _ if n > 0 => {
            // no text
            let at = *g.choose(&[4, 160]);
            bad.data[at] = 0xff;
            "no UTF-8"
        }
        _ => return Ok(()),
    };
    match catching(|| ExtraBytesVlr::try_from(&bad).map(|_| ())) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => fail(format!("accepted: {what}")),
        Err(p) => fail(format!("refusing a VLR ({what}): {p}")),
    }
}

// ---------------------------------------------------------------- other VLRs

fn lookup_bytes(g: &mut Gen) -> (Vec<u8>, Vec<(u8, String)>) {
    let mut data = vec![];
    let mut want = vec![];
    let (inorder, junk) = (g.chance(1, 2), g.chance(1, 2));
    for i in 0..256usize {
        let class = if inorder { i as u8 } else { g.range(0, 255) as u8 };
        let mut e = vec![class];
        let s = if g.chance(1, 3) { String::new() } else { gen_word(g, 15) };
        let s = fitting(&s, 15).to_string();
        e.extend(s.as_bytes());
        if e.len() < 16 {
            e.push(0);
        }
        if junk {
            let more = g.bytes(16 - e.len());
            e.extend(more);
        }
        e.resize(16, 0);
        data.extend(e);
        want.push((class, s));
    }
    (data, want)
}

fn lookup(g: &mut Gen) -> PResult {
    let (data, want) = lookup_bytes(g);
    g.mark();
    let vlr = Vlr { user_id: "LASF_Spec".into(), record_id: 0, description: String::new(), data };
    let l = match catching(|| ClassificationLookup::try_from(&vlr)) {
        Ok(Ok(l)) => l,
        Ok(Err(e)) => return fail(format!("no lookup: {e:#}")),
        Err(p) => return fail(format!("reading a lookup: {p}")),
    };
    let got: Vec<(u8, String)> = l.entries().iter().map(|e| (e.classification, e.description.clone())).collect();
    if let Some(i) = (0..256).find(|i| got.get(*i) != want.get(*i)) {
        return fail(format!("entry {i} is {:?}, not {:?}", got.get(i), want[i]));
    }
    ensure!(got.len() == 256, "{} entries", got.len());
    let text = format!("{l}");
    for (c, s) in &want {
        ensure!(text.lines().any(|l| l.trim_start() == format!("{c}: {s}")), "{c} {s} not displayed");
    }
    let mut bad = vlr;
    match g.range(0, 2) {
        0 => bad.user_id = "other".into(),
        1 => bad.record_id = g.range(1, 65535) as u16,
        _ => {
            let n = *g.choose(&[0, 1, 16, 4080, 4095, 4097, 4112, 8192]);
            bad.data.resize(n, 0);
        }
    }
    match catching(|| ClassificationLookup::try_from(&bad).map(|_| ())) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => fail(format!("accepted: {} {} with {} bytes", bad.user_id, bad.record_id, bad.data.len())),
        Err(p) => fail(format!("refusing a lookup: {p}")),
    }
}

fn text(g: &mut Gen) -> PResult {
    let s = gen_word(g, 60);
    if s.len() > 1 {
        g.mark();
    }
    g.note(|| format!("{s:?}"));
    let mut vlr = Vlr { user_id: "LASF_Spec".into(), record_id: 3, description: "text".into(), data: s.clone().into_bytes() };
    match TextAreaDescription::try_from(&vlr) {
        Ok(t) => {
            ensure!(t.text() == s, "text {:?} of {s:?}", t.text());
            ensure!(format!("{t}").contains(&s), "{s:?} not displayed");
        }
        Err(e) => return fail(format!("text {s:?}: {e:#}")),
    }
    match g.range(0, 2) {
        0 => vlr.user_id = "other".into(),
        1 => vlr.record_id = *g.choose(&[0, 2, 4, 259]),
        _ => {
            let i = g.range(0, vlr.data.len());
            // in front of a character: anywhere else it might be the end of one cut short
            let i = (i..=s.len()).find(|i| s.is_char_boundary(*i)).unwrap();
            vlr.data.insert(i, 0xff);
        }
    }
    match catching(|| TextAreaDescription::try_from(&vlr).map(|_| ())) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => fail(format!("accepted: {vlr:?}")),
        Err(p) => fail(format!("refusing a text: {p}")),
    }
}

// ---------------------------------------------------------------- metadata

fn metadata(g: &mut Gen) -> PResult {
    let f = Fmt::new(g.range(0, 10) as u8);
    let minor = g.range(0, 4) as u8;
    let mut raw = las_rs::raw::Header { version: las_rs::Version::new(1, minor), ..Default::default() };
    raw.point_data_record_format = f.n;
    let extra = if g.chance(1, 4) { g.range(1, 20) } else { 0 };
    raw.point_data_record_length = (f.len() + extra) as u16;
    raw.file_source_id = g.range(0, 65535) as u16;
    let (sys, soft) = (gen_ascii(g, 32), gen_ascii(g, 32));
    raw.system_identifier[..sys.len()].copy_from_slice(sys.as_bytes());
    raw.generating_software[..soft.len()].copy_from_slice(soft.as_bytes());
    let day = match g.range(0, 5) {
        0 => 0,
        1 => 1,
        2 => 365,
        3 => 366,
        4 => 367,
        _ => g.range(1, 364),
    } as u16;
    let year = *g.choose(&[0u16, 1999, 2000, 2020, 2023, 1900, 65535]);
    raw.file_creation_day_of_year = day;
    raw.file_creation_year = year;
    let leap = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
    let dated = day >= 1 && (day <= 365 || day == 366 && leap);
    let scale = [0.001, 1.0, 0.25].map(|_| *g.choose(&[0.001, 1.0, 0.25]));
    (raw.x_scale_factor, raw.y_scale_factor, raw.z_scale_factor) = (scale[0], scale[1], scale[2]);
    let mut b = |lo: i64| [0, 1, 2].map(|_| (lo + g.irange(0, 1000)) as f64 / 8.0);
    let (min, max, off) = (b(-2000), b(0), b(-500));
    (raw.min_x, raw.min_y, raw.min_z) = (min[0], min[1], min[2]);
    (raw.max_x, raw.max_y, raw.max_z) = (max[0], max[1], max[2]);
    (raw.x_offset, raw.y_offset, raw.z_offset) = (off[0], off[1], off[2]);
    let count = *g.choose(&[0u64, 1, 77, 123_456, u32::MAX as u64, u32::MAX as u64 + 9]);
    let large = minor >= 4;
    let by_return: Vec<u64> = (0..5).map(|_| g.range(0, 90_000) as u64).collect();
    let mut big = 0;
    if !f.ext() && count <= u32::MAX as u64 {
        raw.number_of_point_records = count as u32;
        (0..5).for_each(|i| raw.number_of_points_by_return[i] = by_return[i] as u32);
        big = count;
    }
    if large {
        big = count;
        raw.large_file = Some(Default::default());
        let l = raw.large_file.as_mut().unwrap();
        l.number_of_point_records = count;
        (0..5).for_each(|i| l.number_of_points_by_return[i] = by_return[i]);
    }
    let mut b = match las_rs::Builder::new(raw) {
        Ok(b) => b,
        Err(e) => return fail(format!("the check made a header that is none: {e}")),
    };
    // VLRs: the first one of a kind counts
    let mut first_text = None;
    let mut first_lookup: Option<Vec<(u8, String)>> = None;
    let mut first_extra: Option<Vec<Entry>> = None;
    for _ in 0..g.range(0, 5) {
        let user: String = if g.chance(4, 5) { "LASF_Spec".into() } else { "LASF_Projection".into() };
        let ours = user == "LASF_Spec";
        let (record_id, data) = match g.range(0, 4) {
            0 => {
                let t = gen_word(g, 20);
                if ours && first_text.is_none() {
                    first_text = Some(t.clone());
                }
                (3, t.into_bytes())
            }
            1 if g.chance(1, 4) => {
                let (d, w) = lookup_bytes(g);
                if ours && first_lookup.is_none() {
                    first_lookup = Some(w);
                }
                (0, d)
            }
            2 | 3 => {
                let e: Vec<Entry> = (0..g.small(3)).map(|_| gen_entry(g, false)).collect();
                let d = e.iter().flat_map(|e| e.encode(None)).collect();
                if ours && first_extra.is_none() {
                    first_extra = Some(e);
                }
                (4, d)
            }
            _ => (g.range(5, 60000) as u16, g.bytes(9)),
        };
        b.vlrs.push(Vlr { user_id: user, record_id, description: gen_ascii(g, 32), data });
    }
    for _ in 0..g.small(2) {
        // extended VLRs of a kind do not count
        b.evlrs.push(Vlr { user_id: "LASF_Spec".into(), record_id: *g.choose(&[0, 3, 4, 99]), description: gen_ascii(g, 10), data: g.bytes(40) });
    }
    if !b.vlrs.is_empty() {
        g.mark();
    }
    let header = match b.into_header() {
        Ok(h) => h,
        Err(e) => return fail(format!("the check made a header that is none: {e}")),
    };
    g.note(|| format!("format {}, 1.{minor}, {} VLRs, day {day} of {year}", f.n, header.vlrs().len()));
    let made = if g.chance(1, 2) { catching(|| LASMetadata::try_from(&header)) } else { catching(|| LASMetadata::try_from(header.clone())) };
    let m = match made {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => return fail(format!("metadata of a header: {e:#}")),
        Err(p) => return fail(format!("metadata of a header: {p}")),
    };
    let boxed = m.clone_into_box();
    let copies: [&dyn Metadata; 2] = [&m, &*boxed];
    for m in copies {
        ensure!(m.number_of_points() == Some(big as usize), "{:?} points of {big}", m.number_of_points());
        let bounds = match m.bounds() {
            Some(b) => b,
            None => return fail("no bounds"),
        };
        ensure!([bounds.min().x, bounds.min().y, bounds.min().z] == min && [bounds.max().x, bounds.max().y, bounds.max().z] == max, "bounds {bounds:?} of {min:?} {max:?}");
        let num = |n: &str| m.get_named_field(n).and_then(|b| b.downcast::<u16>().ok()).map(|b| *b);
        let txt = |n: &str| m.get_named_field(n).and_then(|b| b.downcast::<String>().ok()).map(|b| *b);
        use named_fields::*;
        ensure!(num(FILE_SOURCE_I_D) == Some(header.file_source_id()), "file source id {:?}", num(FILE_SOURCE_I_D));
        ensure!(txt(VERSION) == Some(format!("1.{minor}")), "version {:?}", txt(VERSION));
        ensure!(txt(SYSTEM_IDENTIFIER) == Some(sys.clone()), "system {:?} of {sys:?}", txt(SYSTEM_IDENTIFIER));
        ensure!(txt(GENERATING_SOFTWARE) == Some(soft.clone()), "software {:?} of {soft:?}", txt(GENERATING_SOFTWARE));
        ensure!(num(FILE_CREATION_DAY_OF_YEAR) == dated.then_some(day), "day {:?} of {day}/{year}", num(FILE_CREATION_DAY_OF_YEAR));
        ensure!(num(FILE_CREATION_YEAR) == dated.then_some(year), "year {:?} of {day}/{year}", num(FILE_CREATION_YEAR));
        ensure!(m.get_named_field("LASFIELD_Nothing").is_none() && m.get_named_field("").is_none(), "a field that is none");
    }
    ensure!(m.point_count() == big as usize, "{} points", m.point_count());
    ensure!(m.point_format() == *header.point_format(), "format {}", m.point_format());
    ensure!(m.raw_las_header().map(|h| (h.vlrs().clone(), h.evlrs().clone(), h.file_source_id())) == Some((header.vlrs().clone(), header.evlrs().clone(), header.file_source_id())), "another header");
    ensure!(m.text_area_description_vlr().map(|t| t.text().to_string()) == first_text, "text {:?}", m.text_area_description_vlr());
    let got = m.classification_lookup_vlr().map(|l| l.entries().iter().map(|e| (e.classification, e.description.clone())).collect::<Vec<_>>());
    ensure!(got == first_lookup, "lookup {got:?}");
    match (m.extra_bytes_vlr(), &first_extra) {
        (None, None) => {}
        (Some(v), Some(w)) => {
            ensure!(v.entries().len() == w.len(), "{} of {} extra bytes", v.entries().len(), w.len());
            for (a, b) in w.iter().zip(v.entries()) {
                a.check(b, true, true)?;
            }
        }
        (v, _) => return fail(format!("extra bytes {v:?}")),
    }
    let shown = match catching(|| format!("{m}")) {
        Ok(s) => s,
        Err(p) => return fail(format!("displaying metadata: {p}")),
    };
    for line in [
        format!("Number of point records: {big}"),
        format!("File source ID: {}", header.file_source_id()),
        format!("System identifier: {sys}"),
        format!("Generating software: {soft}"),
        format!("Version: 1.{minor}"),
        format!("Point record size: {} ({} + {extra} extra bytes)", f.len() + extra, f.len()),
        format!("Scale (x y z): {} {} {}", scale[0], scale[1], scale[2]),
        format!("Offset (x y z): {} {} {}", off[0], off[1], off[2]),
        format!("Min (x y z): {} {} {}", min[0], min[1], min[2]),
        format!("Max (x y z): {} {} {}", max[0], max[1], max[2]),
    ] {
        let squeeze = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
        ensure!(shown.lines().any(|l| squeeze(l) == squeeze(&line)), "{line:?} is not in the text of the metadata");
    }
    for v in header.vlrs().iter().chain(header.evlrs()) {
        ensure!(shown.contains(&v.description) && shown.contains(&v.user_id) && shown.contains(&v.record_id.to_string()), "VLR {} {} is not in the text", v.user_id, v.record_id);
    }
    if let Some(t) = &first_text {
        ensure!(shown.contains(t), "the text is not in the text of the metadata");
    }
    // metadata without a header
    let (lo, hi) = (Point3::new(min[0], min[1], min[2]), Point3::new(max[0], max[1], max[2]));
    if lo.x <= hi.x && lo.y <= hi.y && lo.z <= hi.z {
        let bb = AABB::from_min_max(lo, hi);
        let n = LASMetadata::new(bb, big as usize, f.format());
        ensure!(n.bounds().map(|b| (*b.min(), *b.max())) == Some((lo, hi)) && n.number_of_points() == Some(big as usize) && n.point_format() == f.format(), "new metadata {n:?}");
        ensure!(n.raw_las_header().is_none() && n.extra_bytes_vlr().is_none() && n.classification_lookup_vlr().is_none() && n.text_area_description_vlr().is_none(), "new metadata with VLRs");
        use named_fields::*;
        for x in [FILE_SOURCE_I_D, VERSION, SYSTEM_IDENTIFIER, GENERATING_SOFTWARE, FILE_CREATION_DAY_OF_YEAR, FILE_CREATION_YEAR] {
            ensure!(n.get_named_field(x).is_none(), "{x} without a header");
        }
        let las = pasture_bounds_to_las_bounds(&bb);
        ensure!([las.min.x, las.min.y, las.min.z] == min && [las.max.x, las.max.y, las.max.z] == max, "LAS bounds {las:?}");
        let back = las_bounds_to_pasture_bounds(las);
        ensure!(*back.min() == lo && *back.max() == hi, "bounds {back:?} on the way back");
    }
    Ok(())
}

// ---------------------------------------------------------------- formats and layouts

fn formats(g: &mut Gen) -> PResult {
    // any layout: attributes of LAS in any type, and others
    let mut attrs: Vec<Def> = vec![];
    let (num, den) = *g.choose(&[(1, 8), (1, 3), (2, 3)]);
    for d in builtins() {
        if g.chance(num, den) {
            let t = if g.chance(1, 4) { gen_type(g, false) } else { d.datatype() };
            attrs.push(def(d.name().to_string(), t));
        }
    }
    if g.chance(1, 3) {
        attrs.push(def(*g.choose(&["gpstime", "NIR2", "Color", "custom"]), DT::U16));
    }
    for i in (1..attrs.len()).rev() {
        let j = g.range(0, i);
        attrs.swap(i, j);
    }
    if attrs.len() > 1 {
        g.mark();
    }
    let mut l = PointLayout::default();
    for d in &attrs {
        l.add_attribute(d.clone(), if g.chance(1, 2) { FieldAlignment::Default } else { FieldAlignment::Packed(1) });
    }
    g.note(|| show_layout(&l));
    let f = las_point_format_from_point_layout(&l);
    let want = Fmt::new(smallest(&attrs));
    ensure!(f == want.format(), "format {f} for {}, smallest is {}", show_layout(&l), want.n);
    ensure!(f.to_u8().ok() == Some(want.n), "format {f} is none");
    // which attributes of a layout LAS knows, and that the format has all of them
    let known: Vec<&Def> = attrs.iter().filter(|d| is_known_las_attribute(d)).collect();
    let names: Vec<String> = (0..=10).flat_map(|n| Fmt::new(n).default()).map(|d| d.name().to_string()).collect();
    for d in &attrs {
        ensure!(known.contains(&d) == names.contains(&d.name().to_string()), "{d} is a known attribute: {}", known.contains(&d));
    }
    let default = match point_layout_from_las_point_format(&f, false) {
        Ok(l) => l,
        Err(e) => return fail(format!("no layout for {f}: {e:#}")),
    };
    for d in known {
        // the ranks of the angle: one of them stands for the other
        if d.name() == at::SCAN_ANGLE_RANK.name() {
            continue;
        }
        ensure!(default.has_attribute_with_name(d.name()), "the format {f} for the layout {} has no {}", show_layout(&l), d.name());
    }
    Ok(())
}

fn same_defs(l: &PointLayout, want: &[Def]) -> bool {
    let mut off = 0;
    l.attributes().count() == want.len()
        && l.attributes().zip(want).all(|(a, b)| {
            let ok = a.name() == b.name() && a.datatype() == b.datatype() && a.offset() == off;
            off += ref_size(b.datatype());
            ok
        })
        && l.size_of_point_entry() == off
}

fn layouts(g: &mut Gen) -> PResult {
    let exact = g.chance(1, 2);
    let mut f = Fmt::new(g.range(0, 10) as u8);
    if g.chance(1, 8) {
        // combinations that are no format
        let mut x = f.format();
        let bits = g.range(1, 31);
        x.has_gps_time ^= bits & 1 > 0;
        x.has_color ^= bits & 2 > 0;
        x.has_nir ^= bits & 4 > 0;
        x.has_waveform ^= bits & 8 > 0;
        x.is_extended ^= bits & 16 > 0;
        let is = (0..=10).find(|n| Fmt::new(*n).format() == x);
        match (catching(|| point_layout_from_las_point_format(&x, exact)), is) {
            (Ok(Ok(l)), Some(n)) => {
                let f = Fmt::new(n);
                ensure!(same_defs(&l, &if exact { f.exact() } else { f.default() }), "layout {} of {x}", show_layout(&l));
            }
            (Ok(Err(_)), None) => g.class("no format"),
            (r, _) => return fail(format!("layout of {x:?}: {r:?}")),
        }
        return Ok(());
    }
    // extra bytes and their descriptions, which may not fit
    let mut b = las_rs::Builder::from((1, 4));
    if g.chance(5, 6) {
        f.extra = g.range(0, 24);
    }
    let mut entries: Vec<Entry> = vec![];
    if g.chance(3, 4) {
        for i in 0..g.small(5) {
            let mut e = gen_entry(g, false);
            if g.chance(19, 20) {
                e.code = g.range(1, 10) as u8;
            }
            if g.chance(9, 10) {
                e.name = format!("extra {i}");
            } else {
                e.name = g.choose(&["Intensity", "Position3D", "extra 0", "UndescribedExtraBytes", "ScanAngle", "LASBasicFlags", ""]).to_string();
            }
            entries.push(e);
        }
    }
    if !entries.is_empty() || g.chance(1, 3) {
        let data: Vec<u8> = entries.iter().flat_map(|e| e.encode(None)).collect();
        b.vlrs.push(Vlr { user_id: "LASF_Spec".into(), record_id: 4, description: String::new(), data });
    }
    b.point_format = f.format();
    g.note(|| format!("{f:?} exact {exact}, described {:?}", entries.iter().map(|e| (&e.name, e.code)).collect::<Vec<_>>()));
    let off = offset_to_extra_bytes(f.format());
    ensure!(off == (f.extra > 0).then_some(f.len() - f.extra), "offset {off:?} to the extra bytes of {f:?}");
    // what has to come out
    let mut ok = true;
    let mut described = vec![];
    let mut left = f.extra;
    if f.extra > 0 {
        for e in &entries {
            match CODES.iter().find(|c| c.0 == e.code) {
                Some(c) if ref_size(c.1) as usize <= left => {
                    left -= ref_size(c.1) as usize;
                    described.push((e.name.clone(), c.1));
                }
                _ => ok = false,
            }
        }
    }
    let mut want = vec![];
    if ok {
        f.described = described;
        want = if exact { f.exact() } else { f.default() };
        let mut names: Vec<&str> = want.iter().map(|d| d.name()).collect();
        names.sort_unstable();
        ok = names.windows(2).all(|w| w[0] != w[1]);
    }
    if f.extra > 0 && !entries.is_empty() {
        g.mark();
    }
    let header = match b.into_header() {
        Ok(h) => h,
        Err(e) => return fail(format!("the check made a header that is none: {e}")),
    };
    let m = match LASMetadata::try_from(&header) {
        Ok(m) => m,
        Err(e) => return fail(format!("metadata: {e:#}")),
    };
    match catching(|| point_layout_from_las_metadata(&m, exact)) {
        Ok(Ok(l)) => {
            ensure!(ok, "accepted: layout {}", show_layout(&l));
            ensure!(same_defs(&l, &want), "layout {} of {f:?}, not {want:?}", show_layout(&l));
        }
        Ok(Err(e)) => {
            ensure!(!ok, "no layout: {e:#}");
            g.class("refused");
        }
        Err(p) => return fail(format!("layout of {f:?}: {p}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- points

fn las_points(g: &mut Gen) -> PResult {
    use las_rs::point::*;
    let mut float = || match g.range(0, 3) {
        0 => 0.0,
        1 => -0.125,
        _ => g.irange(-1_000_000, 1_000_000) as f64 / 16.0,
    };
    let (x, y, z, gps) = (float(), float(), float(), float());
    let n = g.range(0, 5) as u8;
    let f = Fmt::new(n);
    let d = f.default();
    let has = |s: &str| d.iter().any(|d| d.name() == s);
    let p = Point {
        x,
        y,
        z,
        intensity: g.range(0, 65535) as u16,
        return_number: g.range(0, 255) as u8,
        number_of_returns: g.range(0, 255) as u8,
        scan_direction: if g.chance(1, 2) { ScanDirection::LeftToRight } else { ScanDirection::RightToLeft },
        is_edge_of_flight_line: g.chance(1, 2),
        classification: Classification(g.range(0, 255) as u8),
        scan_angle: g.irange(-90, 90) as f32,
        user_data: g.range(0, 255) as u8,
        point_source_id: g.range(0, 65535) as u16,
        gps_time: (has("GpsTime") || g.chance(1, 2)).then_some(gps),
        color: (has("ColorRGB") || g.chance(1, 2)).then_some(Color { red: g.range(0, 65535) as u16, green: g.range(0, 65535) as u16, blue: g.range(0, 65535) as u16 }),
        waveform: (has("WaveformDataOffset") || g.chance(1, 2)).then_some(Waveform {
            wave_packet_descriptor_index: g.range(0, 255) as u8,
            byte_offset_to_waveform_data: g.draw(u64::MAX),
            waveform_packet_size_in_bytes: g.range(0, u32::MAX as usize) as u32,
            return_point_waveform_location: g.irange(-100, 100) as f32,
            x_t: g.irange(-100, 100) as f32,
            y_t: g.irange(-100, 100) as f32,
            z_t: g.irange(-100, 100) as f32,
        }),
        nir: g.chance(1, 2).then_some(7),
        extra_bytes: vec![],
    };
    g.mark();
    g.note(|| format!("format {n}: {p:?}"));
    let q = p.clone();
    let (l, bytes) = match catching(move || match n {
        0 => raw(LasPointFormat0::from(q)),
        1 => raw(LasPointFormat1::from(q)),
        2 => raw(LasPointFormat2::from(q)),
        3 => raw(LasPointFormat3::from(q)),
        4 => raw(LasPointFormat4::from(q)),
        _ => raw(LasPointFormat5::from(q)),
    }) {
        Ok(r) => r,
        Err(e) => return fail(format!("point of format {n}: {e}")),
    };
    ensure!(same_defs(&l, &d), "layout {} of format {n}", show_layout(&l));
    for a in l.attributes() {
        let got = &bytes[a.byte_range_within_point()];
        let mut want = vec![];
        let mut put = |b: &[u8]| want.extend_from_slice(b);
        let c = p.color.unwrap_or(Color { red: 0, green: 0, blue: 0 });
        match a.name() {
            "Position3D" => [x, y, z].iter().for_each(|v| put(&v.to_ne_bytes())),
            "Intensity" => put(&p.intensity.to_ne_bytes()),
            "ReturnNumber" => put(&[p.return_number]),
            "NumberOfReturns" => put(&[p.number_of_returns]),
            "ScanDirectionFlag" => put(&[(p.scan_direction == ScanDirection::LeftToRight) as u8]),
            "EdgeOfFlightLine" => put(&[p.is_edge_of_flight_line as u8]),
            "Classification" => put(&[p.classification.0]),
            "ScanAngleRank" => put(&[(p.scan_angle as i8) as u8]),
            "UserData" => put(&[p.user_data]),
            "PointSourceID" => put(&p.point_source_id.to_ne_bytes()),
            "GpsTime" => put(&gps.to_ne_bytes()),
            "ColorRGB" => [c.red, c.green, c.blue].iter().for_each(|v| put(&v.to_ne_bytes())),
            "WavePacketDescriptorIndex" => put(&[p.waveform.unwrap().wave_packet_descriptor_index]),
            "WaveformDataOffset" => put(&p.waveform.unwrap().byte_offset_to_waveform_data.to_ne_bytes()),
            "WaveformPacketSize" => put(&p.waveform.unwrap().waveform_packet_size_in_bytes.to_ne_bytes()),
            "ReturnPointWaveformLocation" => put(&p.waveform.unwrap().return_point_waveform_location.to_ne_bytes()),
            "WaveformParameters" => {
                let w = p.waveform.unwrap();
                [w.x_t, w.y_t, w.z_t].iter().for_each(|v| put(&v.to_ne_bytes()))
            }
            other => return fail(format!("format {n} has {other}")),
        }
        ensure!(got == &want[..], "{} of format {n} is {got:?}, not {want:?}", a.name());
    }
    Ok(())
}

fn raw<T: PointType>(t: T) -> (PointLayout, Vec<u8>) {
    (T::layout(), bytemuck::bytes_of(&t).to_vec())
}

fn bits(g: &mut Gen) -> PResult {
    let mut v = [0u8; 6];
    for x in &mut v {
        *x = if g.chance(1, 4) { g.range(0, 255) as u8 } else { g.range(0, 1) as u8 };
    }
    if v.iter().any(|x| *x > 0) {
        g.mark();
    }
    g.note(|| format!("{v:?}"));
    let [r, n, c, ch, d, e] = v;
    for ext in [false, true] {
        let b = if ext {
            BitAttributes::Extended(BitAttributesExtended { return_number: r, number_of_returns: n, classification_flags: c, scanner_channel: ch, scan_direction_flag: d, edge_of_flight_line: e })
        } else {
            BitAttributes::Regular(BitAttributesRegular { return_number: r, number_of_returns: n, scan_direction_flag: d, edge_of_flight_line: e })
        };
        let want = if ext {
            vec![(r % 16) + (n % 16) * 16, (c % 16) + (ch % 4) * 16 + (d % 2) * 64 + (e % 2) * 128]
        } else {
            vec![(r % 8) + (n % 8) * 8 + (d % 2) * 64 + (e % 2) * 128]
        };
        let mut out = vec![];
        if let Err(e) = write_las_bit_attributes(b, &mut out) {
            return fail(format!("writing bits: {e:#}"));
        }
        ensure!(out == want, "{b:?} is written as {out:?}, not {want:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- paths

fn paths(g: &mut Gen) -> PResult {
    let dir = std::env::temp_dir().join(format!("pasture-verif-meta-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        return fail(format!("harness: {}: {e}", dir.display()));
    }
    let r = paths_in(g, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn paths_in(g: &mut Gen, dir: &std::path::Path) -> PResult {
    let stem = *g.choose(&["a", "some file", "las", "x.laz", "laz.y", ".hidden"]);
    let ext = *g.choose(&["las", "laz", "LAS", "LAZ", "Laz", "lAs", "txt", "lazy", "pnts", "PNTS", "la", "", "none"]);
    let name = if ext == "none" { stem.replace('.', "_") } else { format!("{stem}.{ext}") };
    let e = std::path::Path::new(&name).extension().map(|e| e.to_string_lossy().to_lowercase());
    g.mark();
    g.note(|| name.clone());
    match (path_is_compressed_las_file(&name), &e) {
        (Ok(c), Some(e)) => ensure!(c == (e == "laz"), "{name} compressed: {c}"),
        (Err(_), None) => {}
        (r, _) => return fail(format!("{name} compressed: {r:?}")),
    }
    // a file that does not exist cannot be opened, and none of another kind can be made
    let p = dir.join(&name);
    let r = catching(|| GenericPointReader::open_file(&p).map(|_| ()));
    ensure!(matches!(r, Ok(Err(_))), "opening {name}, which is not there: {r:?}");
    let r = catching(|| read_all::<VectorBuffer, _>(&p).map(|_| ()));
    ensure!(matches!(r, Ok(Err(_))), "reading {name}, which is not there: {r:?}");
    let mut buf = VectorBuffer::new_from_layout(PointLayout::from_attributes(&[at::POSITION_3D]));
    buf.resize(2);
    let r = catching(|| read_all_into(&mut buf, &p));
    ensure!(matches!(r, Ok(Err(_))), "reading {name}, which is not there: {r:?}");
    let ours = matches!(e.as_deref(), Some("las" | "laz" | "pnts"));
    let mut buf = VectorBuffer::new_from_layout(PointLayout::from_attributes(&[at::POSITION_3D]));
    buf.resize(2);
    match (catching(|| write_all(&buf, &p)), ours) {
        (Ok(Ok(())), true) => {
            ensure!(p.is_file(), "{name} was not written");
            g.class("written");
        }
        (Ok(Err(_)), false) => ensure!(!p.exists(), "{name} was made"),
        (r, _) => return fail(format!("writing {name}: {r:?}")),
    }
    Ok(())
}

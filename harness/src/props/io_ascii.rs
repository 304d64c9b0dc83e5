//! Text files of points (I01).

use super::io_file::MemFile;
use super::sec;
use crate::gen::*;
use crate::model::*;
use crate::runner::Property;
use crate::{ensure, on_buf};
use pasture_core::containers::*;
use pasture_core::layout::{attributes as at, PointLayout};
use pasture_io::ascii::{AsciiReader, AsciiWriter};
use pasture_io::base::{PointReader, PointWriter};
use std::io::{BufReader, BufWriter};

pub fn i01() -> Property {
    Property {
        id: "I01",
        rule: "a file of at least two points, or a refused one",
        sections: vec![
            sec("write", write_case, 8000, 15),
            sec("write-many", write_many, 14, 8),
            sec("read", read_case, 10_000, 15),
            sec("read-errors", read_errors, 8000, 15),
            sec("round-trip", round_trip, 4000, 15),
            sec("full-disk", full_disk, 1500, 15),
        ],
    }
}

/// literal -> attribute, component
const LITERALS: [char; 17] = ['x', 'y', 'z', 'i', 'r', 'n', 'c', 't', 'u', 'p', 'R', 'G', 'B', 'e', 'd', 'a', 'I'];

fn column(c: char) -> (Def, usize) {
    match c {
        'x' => (at::POSITION_3D, 0),
        'y' => (at::POSITION_3D, 1),
        'z' => (at::POSITION_3D, 2),
        'i' => (at::INTENSITY, 0),
        'r' => (at::RETURN_NUMBER, 0),
        'n' => (at::NUMBER_OF_RETURNS, 0),
        'c' => (at::CLASSIFICATION, 0),
        't' => (at::GPS_TIME, 0),
        'u' => (at::USER_DATA, 0),
        'p' => (at::POINT_SOURCE_ID, 0),
        'R' => (at::COLOR_RGB, 0),
        'G' => (at::COLOR_RGB, 1),
        'B' => (at::COLOR_RGB, 2),
        'e' => (at::EDGE_OF_FLIGHT_LINE, 0),
        'd' => (at::SCAN_DIRECTION_FLAG, 0),
        'a' => (at::SCAN_ANGLE_RANK, 0),
        'I' => (at::NIR, 0),
        _ => unreachable!(),
    }
}

fn comp_type(d: &Def) -> DT {
    component(d.datatype()).unwrap().0
}

/// Component `k` of an attribute value, as its own bytes.
fn comp(d: &Def, v: &[u8], k: usize) -> Vec<u8> {
    let s = ref_size(comp_type(d)) as usize;
    v[k * s..(k + 1) * s].to_vec()
}

fn f64_of(b: &[u8]) -> f64 {
    f64::from_ne_bytes(b.try_into().unwrap())
}

/// The integer held by a component (u8, i8 or u16).
fn int_of(t: DT, b: &[u8]) -> i64 {
    match t {
        DT::U8 => b[0] as i64,
        DT::I8 => b[0] as i8 as i64,
        DT::U16 => u16::from_ne_bytes(b.try_into().unwrap()) as i64,
        _ => unreachable!(),
    }
}

/// A format of `1..=max` literals; `distinct`: no literal but 's' twice.
fn gen_format(g: &mut Gen, max: usize, distinct: bool, skips: bool) -> String {
    loop {
        let n = g.range(1, max);
        let mut f = String::new();
        for _ in 0..n {
            if skips && g.chance(1, 6) {
                f.push('s');
                continue;
            }
            let c = *g.choose(&LITERALS);
            if !distinct || !f.contains(c) {
                f.push(c);
            }
        }
        if f.chars().any(|c| c != 's') || g.tape.len() > 4000 {
            if !f.chars().any(|c| c != 's') {
                f.push('x');
            }
            return f;
        }
    }
}

/// The attributes a format names, each once.
fn attrs_of(format: &str) -> Vec<Def> {
    let mut out: Vec<Def> = vec![];
    for c in format.chars().filter(|c| *c != 's') {
        let d = column(c).0;
        if !out.contains(&d) {
            out.push(d);
        }
    }
    out
}

/// Values of the attributes of the model; flags are mostly 0 or 1 and reals mostly finite.
fn gen_points(g: &mut Gen, m: &Model, n: usize, flags01: bool) -> Vec<Pt> {
    (0..n)
        .map(|_| {
            m.defs
                .iter()
                .map(|d| {
                    let flag = *d == at::EDGE_OF_FLIGHT_LINE || *d == at::SCAN_DIRECTION_FLAG;
                    if flag && (flags01 || g.chance(1, 2)) { vec![g.range(0, 1) as u8] } else { gen_value(g, d.datatype()) }
                })
                .collect()
        })
        .collect()
}

/// What the field of a written line has to say about a value.
fn check_field(field: &str, d: &Def, k: usize, v: &[u8]) -> PResult {
    let t = comp_type(d);
    let b = comp(d, v, k);
    if t == DT::F64 {
        let want = f64_of(&b);
        let Ok(got) = field.parse::<f64>() else { return fail(format!("{field:?} written for {}, which is {want:?}", d.name())) };
        let same = if want.is_nan() { got.is_nan() } else if want.is_infinite() { got == want } else { (got - want).abs() <= 5.001e-6 + want.abs() * 1e-15 };
        ensure!(same, "{field:?} written for {}, which is {want:?}", d.name());
        return Ok(());
    }
    let want = int_of(t, &b);
    let flag = *d == at::EDGE_OF_FLIGHT_LINE || *d == at::SCAN_DIRECTION_FLAG;
    let want = if flag { (want != 0) as i64 } else { want };
    ensure!(field == want.to_string(), "{field:?} written for {}, which is {want}", d.name());
    Ok(())
}

fn check_lines(text: &str, format: &str, m: &Model, pts: &[Pt]) -> PResult {
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.len() == pts.len(), "{} lines were written for {} points", lines.len(), pts.len());
    ensure!(text.is_empty() || text.ends_with('\n'), "the last line is not ended");
    for (i, (line, p)) in lines.iter().zip(pts).enumerate() {
        let fields: Vec<&str> = line.split(", ").collect();
        ensure!(fields.len() == format.len(), "line {i} is {line:?}: {} columns for the format {format:?}", fields.len());
        for (c, f) in format.chars().zip(&fields) {
            if c == 's' {
                continue;
            }
            let (d, k) = column(c);
            let a = m.defs.iter().position(|x| *x == d).unwrap();
            if let Err(e) = check_field(f, &d, k, &p[a]) {
                return fail(format!("line {i}, column {c:?} of {format:?}: {} (line {line:?})", e.msg));
            }
        }
    }
    Ok(())
}

/// Attributes of a point with (at least) the given ones, and a memory arrangement of them.
fn gen_holder(g: &mut Gen, need: &[Def]) -> Model {
    let mut attrs: Vec<Def> = need.to_vec();
    for d in builtins() {
        if !attrs.iter().any(|a| a.name() == d.name()) && g.chance(1, 5) {
            attrs.push(d);
        }
    }
    for k in 0..g.small(2) {
        attrs.push(def(format!("custom{k}"), gen_type(g, true)));
    }
    for i in (1..attrs.len()).rev() {
        let j = g.range(0, i);
        attrs.swap(i, j);
    }
    Model::new(&gen_arrangement(g, &attrs))
}

fn gen_max(g: &mut Gen) -> usize {
    if g.chance(1, 2) { 0 } else { g.range(1, 9) }
}

fn write_case(g: &mut Gen) -> PResult {
    let format = gen_format(g, 12, false, true);
    let mut need = attrs_of(&format);
    // sometimes one of the attributes is missing, or there only with another data type
    let broken = if g.chance(1, 8) { Some(g.range(0, need.len() - 1)) } else { None };
    let mut attrs = need.clone();
    if let Some(b) = broken {
        let d = attrs.remove(b);
        if g.chance(1, 2) {
            let t = gen_type(g, false);
            if t != d.datatype() {
                attrs.insert(b.min(attrs.len()), def(d.name().to_string(), t));
            }
        }
        if attrs.is_empty() {
            attrs.push(at::NORMAL);
        }
        need = attrs.clone();
    }
    let mut m = if broken.is_some() { Model::new(&gen_arrangement(g, &need)) } else { gen_holder(g, &need) };
    let file = MemFile::new(vec![], gen_max(g));
    let writer = AsciiWriter::from_write(file.clone(), &format);
    let Ok(mut w) = writer else { return fail(format!("format {format:?} refused")) };
    let mut all: Vec<Pt> = vec![];
    g.note(|| format!("format {format:?}, layout {}, broken {broken:?}", show_layout(&m.layout)));
    let writes = g.range(1, 3);
    for _ in 0..writes {
        let n = g.len(60);
        if g.chance(1, 4) && broken.is_none() {
            // another buffer with another layout
            m = gen_holder(g, &need);
        }
        m.pts = gen_points(g, &m, n, false);
        let kind = gen_kind(g);
        let buf = make_buf(kind, &m, 0xA5);
        let r = on_buf!(&buf, b => w.write(b).map_err(|e| e.to_string()));
        if broken.is_some() {
            if n == 0 {
                ensure!(file.data().is_empty(), "something was written for no points");
                continue;
            }
            // either refused, or converted
            if r.is_err() {
                g.mark();
                g.class("refused: attribute missing or of another type");
                return Ok(());
            }
            return check_converted(g, &file, &format, &m);
        }
        ensure!(r.is_ok(), "write failed: {:?} (format {format:?})", r);
        if g.chance(1, 3) {
            ensure!(w.flush().is_ok(), "flush failed");
        }
        let names = &format;
        // keep in the order of the first model: re-express by name
        let lines_model = Model::new(&PointLayout::from_attributes(&attrs_of(names)));
        for p in &m.pts {
            all.push(lines_model.defs.iter().map(|d| p[m.defs.iter().position(|x| x == d).unwrap()].clone()).collect());
        }
    }
    ensure!(w.flush().is_ok(), "flush failed");
    let lm = Model::new(&PointLayout::from_attributes(&attrs_of(&format)));
    let data = file.data();
    let Ok(text) = String::from_utf8(data) else { return fail("the file is no text") };
    if broken.is_some() {
        return Ok(());
    }
    if all.len() > 1 {
        g.mark();
    }
    check_lines(&text, &format, &lm, &all)
}

/// The writer accepted points that do not have an attribute in its usual type: then the values must be there, converted.
fn check_converted(g: &mut Gen, file: &MemFile, format: &str, m: &Model) -> PResult {
    g.class("written from another type");
    let text = String::from_utf8(file.data()).unwrap_or_default();
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.len() == m.pts.len(), "{} lines were written for {} points", lines.len(), m.pts.len());
    for (line, p) in lines.iter().zip(&m.pts) {
        for (c, f) in format.chars().zip(line.split(", ")) {
            if c == 's' {
                continue;
            }
            let (d, k) = column(c);
            let Some(a) = m.defs.iter().position(|x| x.name() == d.name()) else { return fail(format!("{c:?} was written without such an attribute")) };
            if m.defs[a] == d {
                check_field(f, &d, k, &p[a])?;
            } else {
                // any faithful conversion: the number itself, or the cast to the usual type
                let Some(v) = ref_cast(m.defs[a].datatype(), d.datatype(), &p[a]) else { return fail(format!("{c:?} was written from {}", m.defs[a])) };
                let full = ref_cast(m.defs[a].datatype(), if component(d.datatype()).unwrap().1 == 3 { DT::Vec3f64 } else { DT::F64 }, &p[a]).unwrap();
                let full = f64_of(&full[k * 8..k * 8 + 8]);
                let ok = check_field(f, &d, k, &v).is_ok() || f.parse::<f64>().map_or(false, |x| (x - full).abs() <= 5.001e-6 + full.abs() * 1e-15);
                ensure!(ok, "{f:?} was written for {c:?} from {} {:?}", m.defs[a], p[a]);
            }
        }
    }
    Ok(())
}

/// More points than the writer handles at once.
fn write_many(g: &mut Gen) -> PResult {
    let format = *g.choose(&["i", "cr", "ni", "pu"]);
    let need = attrs_of(format);
    let mut m = Model::new(&gen_arrangement(g, &need));
    let n = *g.choose(&[50_001usize, 49_999, 50_000, 99_999, 100_000, 100_001, 120_000]);
    m.pts = m.gen_pts(g, n);
    let kind = gen_kind(g);
    g.note(|| format!("{n} points, format {format:?}, {kind:?}"));
    let buf = make_buf(kind, &m, 0);
    let file = MemFile::new(vec![], 0);
    let Ok(mut w) = AsciiWriter::from_write(BufWriter::new(file.clone()), format) else { return fail("refused") };
    let r = on_buf!(&buf, b => w.write(b).map_err(|e| e.to_string()));
    ensure!(r.is_ok(), "write failed: {:?}", r);
    ensure!(w.flush().is_ok(), "flush failed");
    g.mark();
    let text = String::from_utf8(file.data()).unwrap_or_default();
    let pts: Vec<Pt> = m.pts.clone();
    check_lines(&text, format, &m, &pts)
}

// ---------------------------------------------------------------- reading

/// A text for one component of a value.
fn show_comp(g: &mut Gen, t: DT, b: &[u8]) -> String {
    if t == DT::F64 {
        let f = f64_of(b);
        return match g.range(0, 3) {
            0 => format!("{f:?}"),
            1 => format!("{f}"),
            2 => format!("{f:e}"),
            _ => if f.is_sign_positive() && f.is_finite() { format!("+{f}") } else { format!("{f:?}") },
        };
    }
    let i = int_of(t, b);
    match g.range(0, 5) {
        0 if i >= 0 => format!("+{i}"),
        1 if i >= 0 => format!("0{i}"),
        _ => i.to_string(),
    }
}

/// What stands in a column no one reads.
fn junk(g: &mut Gen) -> String {
    g.choose(&["", "abc", "-1", "9999999", "1.5e10", "NaN"]).to_string()
}

struct Text {
    text: String,
    format: String,
    delimiter: &'static str,
    /// one value per attribute of `m`
    m: Model,
}

fn gen_text(g: &mut Gen) -> Text {
    let format = gen_format(g, 18, true, true);
    let delimiter = *g.choose(&[", ", ",", ";", "\t", " ", "|", "::"]);
    let mut m = Model::new(&PointLayout::from_attributes(&attrs_of(&format)));
    let n = g.len(40);
    m.pts = gen_points(g, &m, n, true);
    let crlf = g.chance(1, 4);
    let mut text = String::new();
    for (i, p) in m.pts.iter().enumerate() {
        let mut fields: Vec<String> = format
            .chars()
            .map(|c| {
                if c == 's' {
                    return junk(g);
                }
                let (d, k) = column(c);
                let a = m.defs.iter().position(|x| *x == d).unwrap();
                let b = comp(&d, &p[a], k);
                show_comp(g, comp_type(&d), &b)
            })
            .collect();
        if g.chance(1, 6) {
            // columns the format does not mention
            for _ in 0..g.range(1, 2) {
                fields.push(junk(g));
            }
        }
        text += &fields.join(delimiter);
        if i + 1 < m.pts.len() || g.chance(3, 4) {
            text += if crlf { "\r\n" } else { "\n" };
        }
    }
    Text { text, format, delimiter, m }
}

/// Compares the components the format names; `pts[i][a]` are values in the attribute types of `target`.
fn check_values(format: &str, src: &Model, p: &Pt, target: &Model, got: &Pt, what: &str) -> PResult {
    for c in format.chars().filter(|c| *c != 's') {
        let (d, k) = column(c);
        let Some(a) = target.defs.iter().position(|x| x.name() == d.name()) else { continue };
        let s = src.defs.iter().position(|x| *x == d).unwrap();
        let td = &target.defs[a];
        let (ct, _) = component(td.datatype()).unwrap();
        let from = comp(&d, &p[s], k);
        let want = ref_cast(comp_type(&d), ct, &from).unwrap();
        let have = comp(td, &got[a], k);
        ensure!(same_value(ct, &have, &want), "{what}: column {c:?} is {:?} in {td}, expected {:?} (text value {:?} of {d})", have, want, from);
    }
    Ok(())
}

fn open(g: &mut Gen, t: &Text) -> Result<AsciiReader<BufReader<MemFile>>, String> {
    let max = gen_max(g);
    let cap = if g.chance(1, 2) { 8192 } else { g.range(1, 64) };
    AsciiReader::from_read(BufReader::with_capacity(cap, MemFile::new(t.text.clone().into_bytes(), max)), &t.format, t.delimiter).map_err(|e| format!("{e:#}"))
}

fn read_case(g: &mut Gen) -> PResult {
    let t = gen_text(g);
    g.note(|| format!("format {:?}, delimiter {:?}, text {:?}", t.format, t.delimiter, t.text));
    let mut r = match open(g, &t) {
        Ok(r) => r,
        Err(e) => return fail(format!("format {:?} refused: {e}", t.format)),
    };
    // the default layout: the attributes the format names, in their usual types
    let dl = r.get_default_point_layout().clone();
    let mut have: Vec<String> = defs_of(&dl).iter().map(|d| d.to_string()).collect();
    let mut want: Vec<String> = attrs_of(&t.format).iter().map(|d| d.to_string()).collect();
    have.sort();
    want.sort();
    ensure!(have == want, "default layout {} for the format {:?}", show_layout(&dl), t.format);
    match open(g, &t) {
        Ok(r2) => ensure!(*r2.get_default_point_layout() == dl, "two readers of one format have the layouts {} and {}", show_layout(&dl), show_layout(r2.get_default_point_layout())),
        Err(e) => return fail(e),
    }
    ensure!(r.get_metadata().number_of_points().is_none() && r.get_metadata().bounds().is_none(), "a text file has no header");
    let total = t.m.len();
    if total > 1 {
        g.mark();
    }
    let mut at = 0;
    for _ in 0..g.range(1, 5) {
        let left = total - at;
        let k = match g.range(0, 3) {
            0 => left,
            1 => left + g.range(1, 5),
            _ => g.range(0, left),
        };
        let exp = k.min(left);
        if g.chance(1, 2) {
            g.note(|| format!("read {k}"));
            let m = Model::new(&dl);
            let pts: Vec<Pt>;
            match gen_kind(g) {
                Kind::HashMap => match r.read::<HashMapBuffer>(k) {
                    Ok(b) => pts = points_of(&b, &m),
                    Err(e) => return fail(format!("read({k}) failed: {e:#}")),
                },
                _ => match r.read::<VectorBuffer>(k) {
                    Ok(b) => pts = points_of(&b, &m),
                    Err(e) => return fail(format!("read({k}) failed: {e:#}")),
                },
            }
            ensure!(pts.len() == exp, "read({k}) returned {} points, {left} lines were left", pts.len());
            for i in 0..exp {
                check_values(&t.format, &t.m, &t.m.pts[at + i], &m, &pts[i], &format!("read, line {}", at + i))?;
            }
        } else {
            // an own buffer: some of the attributes, some of them in another type, others besides
            let mut attrs: Vec<Def> = vec![];
            let mut convertible = true;
            let mut changed = false;
            for d in attrs_of(&t.format) {
                if g.chance(1, 4) {
                    continue;
                }
                if g.chance(1, 5) {
                    let ty = gen_type(g, g.tape.len() % 2 == 0);
                    changed |= ty != d.datatype();
                    convertible &= castable(d.datatype(), ty);
                    attrs.push(def(d.name().to_string(), ty));
                } else {
                    attrs.push(d);
                }
            }
            let m = gen_holder_near(g, &attrs, &t.format);
            let len = k + g.small(3);
            let mut m0 = m.clone();
            m0.pts = m.gen_pts(g, len);
            let kind = gen_kind(g);
            let mut buf = make_buf(kind, &m0, 0x5A);
            g.note(|| format!("read_into({len} points of {}, {k})", show_layout(&m.layout)));
            let res = on_buf!(&mut buf, b => r.read_into(b, k).map_err(|e| format!("{e:#}")));
            if !convertible {
                // refused (always, or as soon as there is a point to convert)
                if exp > 0 {
                    ensure!(res.is_err(), "read_into a layout that cannot be converted to returned {:?}: {}", res, show_layout(&m.layout));
                    g.class("refused layout");
                }
                return Ok(());
            }
            ensure!(res == Ok(exp), "read_into(.., {k}) returned {:?}, {left} lines were left (layout {})", res, show_layout(&m.layout));
            if changed && exp > 0 {
                g.class("converted while reading");
            }
            let after = on_buf!(&buf, b => points_of(b, &m));
            ensure!(after.len() == len, "read_into changed the length of the buffer");
            for i in 0..len {
                if i < exp {
                    check_values(&t.format, &t.m, &t.m.pts[at + i], &m, &after[i], &format!("read_into, line {}", at + i))?;
                } else {
                    ensure!(after[i] == m0.pts[i], "read_into {exp} points changed point {i}");
                }
            }
        }
        at += exp;
    }
    Ok(())
}

/// A layout with the given attributes and others that the format does not name.
fn gen_holder_near(g: &mut Gen, need: &[Def], format: &str) -> Model {
    let named = attrs_of(format);
    let mut attrs: Vec<Def> = need.to_vec();
    for d in builtins() {
        if !named.iter().any(|a| a.name() == d.name()) && g.chance(1, 6) {
            attrs.push(d);
        }
    }
    if attrs.is_empty() || g.chance(1, 4) {
        attrs.push(def("custom", gen_type(g, true)));
    }
    for i in (1..attrs.len()).rev() {
        let j = g.range(0, i);
        attrs.swap(i, j);
    }
    Model::new(&gen_arrangement(g, &attrs))
}

pub fn points_of<'a, B: BorrowedBuffer<'a>>(b: &B, m: &Model) -> Vec<Pt> {
    let mut raw = vec![0u8; m.psize];
    (0..b.len())
        .map(|i| {
            b.get_point(i, &mut raw);
            m.decode(&raw)
        })
        .collect()
}

/// One thing about the file or the format is wrong: opening or reading the line has to fail.
fn read_errors(g: &mut Gen) -> PResult {
    let mut t = gen_text(g);
    if g.chance(1, 5) {
        let bad = *g.choose(&['q', 'X', ' ', ',', 'é', 'g', 'b', '1']);
        let chars: Vec<char> = t.format.chars().collect();
        let k = g.range(0, chars.len());
        t.format = chars[..k].iter().chain([bad].iter()).chain(chars[k..].iter()).collect();
        g.note(|| format!("format {:?}", t.format));
        ensure!(open(g, &t).is_err(), "a reader accepted the format {:?}", t.format);
        ensure!(AsciiWriter::from_write(MemFile::new(vec![], 0), &t.format).is_err(), "a writer accepted the format {:?}", t.format);
        g.mark();
        g.class("format refused");
        return Ok(());
    }
    if t.m.len() == 0 {
        return Ok(());
    }
    // make one line wrong
    let line = g.range(0, t.m.len() - 1);
    let mut lines: Vec<String> = t.text.lines().map(|s| s.to_string()).collect();
    let mut fields: Vec<String> = lines[line].split(t.delimiter).map(|s| s.to_string()).collect();
    let fmt: Vec<char> = t.format.chars().collect();
    if g.chance(1, 3) && fmt.len() > 1 {
        let keep = g.range(1, fmt.len() - 1);
        fields.truncate(keep);
        g.class("missing column");
    } else {
        let cols: Vec<usize> = (0..fmt.len()).filter(|i| fmt[*i] != 's').collect();
        let c = *g.choose(&cols);
        let (d, _) = column(fmt[c]);
        let flag = d == at::EDGE_OF_FLIGHT_LINE || d == at::SCAN_DIRECTION_FLAG;
        fields[c] = match comp_type(&d) {
            DT::F64 => g.choose(&["", "abc", "1.0.0", "0x10", "1,5", "--1", "1e"]).to_string(),
            DT::U8 if flag => g.choose(&["", "x", "2", "-1", "256", "true", "1.0"]).to_string(),
            DT::U8 => g.choose(&["", "x", "256", "-1", "1.0", "300", "1e1", "4294967296"]).to_string(),
            DT::I8 => g.choose(&["", "x", "128", "-129", "1.0", "200", "65536"]).to_string(),
            _ => g.choose(&["", "x", "65536", "-1", "1.0", "70000", "4294967296"]).to_string(),
        };
        if fields[c].contains(t.delimiter) || (t.delimiter == " " && fields[c].is_empty()) {
            fields[c] = "x".into();
        }
        g.class("bad value");
    }
    lines[line] = fields.join(t.delimiter);
    t.text = lines.join("\n") + "\n";
    g.note(|| format!("format {:?}, delimiter {:?}, text {:?}", t.format, t.delimiter, t.text));
    let mut r = match open(g, &t) {
        Ok(r) => r,
        Err(e) => return fail(e),
    };
    // the lines before it can be read
    let before = g.range(0, line);
    let m = Model::new(r.get_default_point_layout());
    match r.read::<VectorBuffer>(before) {
        Ok(b) => {
            let pts = points_of(&b, &m);
            ensure!(pts.len() == before, "read({before}) returned {} points", pts.len());
            for i in 0..before {
                check_values(&t.format, &t.m, &t.m.pts[i], &m, &pts[i], &format!("line {i}"))?;
            }
        }
        Err(e) => return fail(format!("reading the {before} lines before the wrong one failed: {e:#}")),
    }
    let res = if g.chance(1, 2) {
        r.read::<VectorBuffer>(t.m.len() - before).map(|b| b.len())
    } else {
        // also when the buffer does not ask for that attribute
        let mut b = VectorBuffer::new_from_layout(PointLayout::from_attributes(&[g.choose(&[at::POSITION_3D, at::INTENSITY, at::NORMAL]).clone()]));
        b.resize(t.m.len() - before);
        r.read_into(&mut b, t.m.len() - before)
    };
    ensure!(res.is_err(), "line {line} is wrong ({:?} for {:?}), reading it returned {:?}", lines[line], t.format, res.ok());
    g.mark();
    Ok(())
}

/// What the writer writes, the reader reads.
fn round_trip(g: &mut Gen) -> PResult {
    let format = gen_format(g, 18, true, true);
    let need = attrs_of(&format);
    let mut m = gen_holder(g, &need);
    let n = g.len(60);
    m.pts = gen_points(g, &m, n, true);
    if n > 1 {
        g.mark();
    }
    let buf = make_buf(gen_kind(g), &m, 0);
    let file = MemFile::new(vec![], gen_max(g));
    g.note(|| format!("{n} points, format {format:?}"));
    {
        let Ok(mut w) = AsciiWriter::from_write(file.clone(), &format) else { return fail("refused") };
        let r = on_buf!(&buf, b => w.write(b).map_err(|e| e.to_string()));
        ensure!(r.is_ok(), "write failed: {:?}", r);
        ensure!(w.flush().is_ok(), "flush failed");
    }
    let text = String::from_utf8(file.data()).unwrap_or_default();
    let mut r = match AsciiReader::from_read(BufReader::new(MemFile::new(file.data(), 0)), &format, ", ") {
        Ok(r) => r,
        Err(e) => return fail(format!("{e:#}")),
    };
    let rm = Model::new(r.get_default_point_layout());
    let b = match r.read::<VectorBuffer>(n + 1) {
        Ok(b) => b,
        Err(e) => return fail(format!("reading back failed: {e:#} (text {text:?})")),
    };
    let pts = points_of(&b, &rm);
    ensure!(pts.len() == n, "{n} points written, {} read", pts.len());
    for (i, (p, q)) in m.pts.iter().zip(&pts).enumerate() {
        for c in format.chars().filter(|c| *c != 's') {
            let (d, k) = column(c);
            let x = comp(&d, &p[m.defs.iter().position(|x| *x == d).unwrap()], k);
            let y = comp(&d, &q[rm.defs.iter().position(|x| *x == d).unwrap()], k);
            let ok = if comp_type(&d) == DT::F64 {
                let (a, b) = (f64_of(&x), f64_of(&y));
                (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 5.001e-6 + a.abs() * 1e-15
            } else {
                x == y
            };
            ensure!(ok, "point {i}, column {c:?}: {:?} written, {:?} read", x, y);
        }
    }
    Ok(())
}

/// A destination that stops accepting bytes: some call has to say so, and no line but the last may be cut.
fn full_disk(g: &mut Gen) -> PResult {
    let format = gen_format(g, 8, false, true);
    let need = attrs_of(&format);
    let mut m = gen_holder(g, &need);
    let n = g.range(1, 20);
    m.pts = gen_points(g, &m, n, true);
    let buf = make_buf(gen_kind(g), &m, 0);
    let full = MemFile::new(vec![], 0);
    let run = |f: MemFile, buffered: Option<usize>| -> Result<(), String> {
        macro_rules! go { ($w:expr) => {{
            let mut w = AsciiWriter::from_write($w, &format).map_err(|e| e.to_string())?;
            on_buf!(&buf, b => w.write(b)).map_err(|e| e.to_string())?;
            w.flush().map_err(|e| e.to_string())
        }} }
        match buffered {
            Some(c) => go!(BufWriter::with_capacity(c, f)),
            None => go!(f),
        }
    };
    let r = run(full.clone(), None);
    ensure!(r.is_ok(), "write failed: {:?}", r);
    let want = full.data();
    let room = g.range(0, want.len());
    let buffered = if g.chance(1, 2) { Some(g.range(1, 64)) } else { None };
    g.note(|| format!("format {format:?}, {n} points, {} bytes, room for {room}, BufWriter {buffered:?}", want.len()));
    let f = MemFile::failing(room as u64);
    let r = run(f.clone(), buffered);
    ensure!(r.is_ok() == (room == want.len()), "room for {room} of {} bytes: {:?}", want.len(), r);
    let got = f.data();
    ensure!(want.starts_with(&got), "the file is no prefix of the complete file");
    g.mark();
    Ok(())
}

//! The command line tool `info` (T01): it is run as a process on files this harness writes on its own, and everything it
//! reports is compared with what the file contains.

use super::{io_las, io_pnts, sec};
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::runner::Property;
use pasture_core::layout::attributes as at;
use pasture_io::base::*;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn t01() -> Property {
    Property {
        id: "T01",
        rule: "a detailed report on at least two points, or a refused file",
        sections: vec![
            sec("las", las, 2500, 15),
            sec("pnts", pnts, 1500, 15),
            sec("refused", refused, 1200, 15),
            sec("large", large, 3, 8),
        ],
    }
}

struct Ran {
    code: Option<i32>,
    out: String,
    err: String,
}

/// Runs the tool in a directory of its own.
fn run(dir: &Path, args: &[&std::ffi::OsStr]) -> Result<Ran, Failure> {
    let exe = std::env::current_exe().unwrap().with_file_name("pasture-info");
    let (o, e) = (dir.join("stdout"), dir.join("stderr"));
    let file = |p: &PathBuf| std::fs::File::create(p).map(Stdio::from);
    let (Ok(so), Ok(se)) = (file(&o), file(&e)) else { return fail("harness: no room in the scratch directory") };
    let mut child = match Command::new(&exe).args(args).current_dir(dir).stdin(Stdio::null()).stdout(so).stderr(se).spawn() {
        Ok(c) => c,
        Err(e) => return fail(format!("harness: {}: {e}", exe.display())),
    };
    let start = Instant::now();
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            _ if start.elapsed() > Duration::from_secs(120) => {
                let _ = child.kill();
                let _ = child.wait();
                return fail("the tool did not end within 120 s");
            }
            _ => std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 20 { 200 } else { 5000 })),
        }
    };
    let text = |p: &PathBuf| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned();
    Ok(Ran { code: status.code(), out: text(&o), err: text(&e) })
}

fn in_scratch(g: &mut Gen, f: impl FnOnce(&mut Gen, &Path) -> PResult) -> PResult {
    let dir = std::env::temp_dir().join(format!("pasture-verif-info-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
    if let Err(e) = std::fs::create_dir_all(&dir) {
        return fail(format!("harness: {}: {e}", dir.display()));
    }
    let r = f(g, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

/// What the report on the points must say: the attributes of the file in order and, per line, a label with the smallest
/// and the largest value; None where nothing is promised about the value (NaN).
struct Want {
    attributes: Vec<String>,
    lines: Vec<(&'static str, Option<(f64, f64)>, f64)>,
}

const LABELS: [(&str, &[&str]); 13] = [
    ("Position3D", &["X", "Y", "Z"]),
    ("Intensity", &["Intensity"]),
    ("ReturnNumber", &["Return number"]),
    ("NumberOfReturns", &["Number of returns"]),
    ("ScanDirectionFlag", &["Scan direction flag"]),
    ("EdgeOfFlightLine", &["Edge of flight line"]),
    ("Classification", &["Classification"]),
    ("ScanAngleRank", &["Scan angle rank"]),
    ("UserData", &["User data"]),
    ("PointSourceID", &["Point source ID"]),
    ("ColorRGB", &["Color R", "Color G", "Color B"]),
    ("GpsTime", &["GPS time"]),
    ("NIR", &["NIR"]),
];

impl Want {
    fn new(attributes: Vec<String>) -> Self {
        Want { attributes, lines: vec![] }
    }
    /// Adds the lines of an attribute, given its value at every point, and how exact the report is.
    fn add(&mut self, name: &str, values: impl Iterator<Item = Vec<f64>>, eps: f64) {
        let Some((_, labels)) = LABELS.iter().find(|l| l.0 == name) else { return };
        let mut mm: Vec<Option<(f64, f64)>> = vec![None; labels.len()];
        let mut nan = vec![false; labels.len()];
        for v in values {
            for (i, x) in v.iter().enumerate() {
                nan[i] |= x.is_nan();
                mm[i] = Some(mm[i].map_or((*x, *x), |(lo, hi)| (lo.min(*x), hi.max(*x))));
            }
        }
        for (i, l) in labels.iter().enumerate() {
            self.lines.push((l, if nan[i] { None } else { mm[i] }, eps));
        }
    }
    fn sort(&mut self) {
        let all: Vec<&str> = LABELS.iter().flat_map(|l| l.1.iter().copied()).collect();
        self.lines.sort_by_key(|l| all.iter().position(|x| *x == l.0));
    }
    /// The part of the report that follows the metadata.
    fn check(&self, out: &str, points: usize) -> PResult {
        let lines: Vec<&str> = out.lines().collect();
        let Some(start) = lines.iter().position(|l| *l == "Attributes") else { return fail(format!("no list of attributes: {out:?}")) };
        let names: Vec<&str> = lines[start + 1..].iter().take_while(|l| l.starts_with('\t')).map(|l| l.trim()).collect();
        ensure!(names == self.attributes, "attributes {names:?}, the file has {:?}", self.attributes);
        let values: Vec<&str> = lines[start + 1 + names.len()..].iter().filter(|l| l.starts_with('\t')).copied().collect();
        if points == 0 {
            ensure!(values.is_empty(), "no points, but {values:?}");
            return Ok(());
        }
        let labels: Vec<&str> = values.iter().map(|l| l.split(':').next().unwrap().trim()).collect();
        let want: Vec<&str> = self.lines.iter().map(|l| l.0).collect();
        ensure!(labels == want, "values of {labels:?}, expected of {want:?}");
        for (l, (label, w, eps)) in values.iter().zip(&self.lines) {
            let got: Vec<f64> = l.split(':').nth(1).unwrap_or("").split_whitespace().map(|x| x.parse().unwrap_or(f64::NAN)).collect();
            ensure!(got.len() == 2, "{l:?} does not have two values");
            let Some((lo, hi)) = w else { continue };
            let close = |a: f64, b: f64| a == b || (a - b).abs() <= *eps;
            ensure!(close(got[0], *lo) && close(got[1], *hi), "{l:?}, but {label} of {points} points goes from {lo} to {hi}");
        }
        Ok(())
    }
}

/// Numbers in a text.
fn numbers(s: &str) -> Vec<f64> {
    s.split(|c: char| !(c.is_ascii_digit() || matches!(c, '.' | '-' | 'e'))).filter_map(|x| x.parse().ok()).collect()
}

fn value_of<'a>(out: &'a str, label: &str) -> Option<&'a str> {
    out.lines().find_map(|l| l.trim().strip_prefix(label)).map(|l| l.trim_start_matches(':').trim())
}

/// Runs the tool on a file and takes the general part of the report apart.
fn report(g: &mut Gen, dir: &Path, path: &Path, detailed: bool) -> Result<String, Failure> {
    // relative or absolute path, any order of the arguments
    let shown = if g.chance(1, 2) { path.to_path_buf() } else { PathBuf::from(path.file_name().unwrap()) };
    let d = *g.choose(&["-d", "--detailed"]);
    let mut args: Vec<&std::ffi::OsStr> = vec!["-i".as_ref(), shown.as_os_str()];
    if detailed {
        if g.chance(1, 2) {
            args.push(d.as_ref());
        } else {
            args.insert(0, d.as_ref());
        }
    }
    let r = run(dir, &args)?;
    ensure!(r.code == Some(0), "exit {:?}, stderr {:?}, stdout {:?}", r.code, r.err, r.out);
    let first = r.out.lines().next().unwrap_or("");
    ensure!(first == format!("pasture info report for {}", shown.display()), "the report starts with {first:?}");
    let md = match GenericPointReader::open_file(path) {
        Ok(rd) => rd.get_metadata().to_string(),
        Err(e) => return fail(format!("opening {}: {e:#}", path.display())),
    };
    let rest = &r.out[first.len() + 1..];
    ensure!(rest.starts_with(&md), "the report says {rest:?}, the metadata of the file are {md:?}");
    if !detailed {
        ensure!(rest[md.len()..].trim().is_empty(), "more than the metadata was reported: {rest:?}");
    }
    Ok(rest.to_string())
}

/// Labels that do not fit the text of a VLR by chance are looked up behind it.
fn las_general(f: &io_las::Built, out: &str) -> PResult {
    let n = f.recs.len();
    ensure!(value_of(out, "Number of point records") == Some(&n.to_string()), "{n} points: {out:?}");
    for (label, b) in [("Bounds (min)", f.bounds[0]), ("Bounds (max)", f.bounds[1])] {
        let got = value_of(out, label).map(numbers);
        ensure!(got.as_deref() == Some(&b[..]), "{label} are {got:?}, the file has {b:?}");
    }
    let fmt = value_of(out, "Point record format").unwrap_or("");
    ensure!(numbers(fmt).first() == Some(&(f.f.n as f64)), "point record format {fmt:?} of {:?}", f.f);
    let raw = &out[out.rfind("Raw LAS header entries").unwrap_or(0)..];
    for (label, w) in [
        ("File source ID", f.source_id.to_string()),
        ("Version", format!("1.{}", f.version)),
        ("System identifier", f.system.clone()),
        ("Generating software", f.software.clone()),
    ] {
        ensure!(value_of(raw, label) == Some(&w), "{label} is {:?}, the file has {w:?}", value_of(raw, label));
    }
    // by_return[0] counts the points whose return number is 0
    let returns: Vec<f64> = (1..=5).map(|i| f.by_return[i] as f64).collect();
    for (label, w) in [
        ("Number of point records", vec![n as f64]),
        ("Number of points by return", returns),
        ("Scale (x y z)", f.q.scale.to_vec()),
        ("Offset (x y z)", f.q.off.to_vec()),
        ("Min (x y z)", f.bounds[0].to_vec()),
        ("Max (x y z)", f.bounds[1].to_vec()),
    ] {
        let got = value_of(raw, label).map(numbers).unwrap_or_default();
        ensure!(got == w, "{label} is {got:?}, the file has {w:?}");
    }
    Ok(())
}

fn las_want(f: &io_las::Built) -> Want {
    let defs = f.f.default();
    let mut w = Want::new(defs.iter().map(|d| d.name().to_string()).collect());
    for d in &defs {
        if d.name() == "Position3D" {
            let world = |r: &Vec<u8>| f.q.world(io_las::local_of(r)).to_vec();
            let big = f.recs.iter().flat_map(world).map(f64::abs).fold(0.0, f64::max) + f.q.off.iter().map(|x| x.abs()).sum::<f64>();
            w.add(d.name(), f.recs.iter().map(world), big * 2f64.powi(-50));
        } else {
            let num = |r: &Vec<u8>| {
                let (t, v) = f.f.field(r, d.name()).unwrap();
                let (c, k) = component(t).unwrap_or((DT::U8, 0));
                let s = ref_size(c) as usize;
                (0..k).map(|i| f64::from_ne_bytes(ref_cast(c, DT::F64, &v[i * s..(i + 1) * s]).unwrap().try_into().unwrap())).collect()
            };
            if LABELS.iter().any(|l| l.0 == d.name()) {
                w.add(d.name(), f.recs.iter().map(num), 0.0);
            }
        }
    }
    w.sort();
    w
}

fn write(path: &Path, data: &[u8]) -> PResult {
    std::fs::write(path, data).or_else(|e| fail(format!("harness: {}: {e}", path.display())))
}

fn las_named(g: &mut Gen, f: &io_las::Built, dir: &Path) -> Result<PathBuf, Failure> {
    let ext = if f.compressed { *g.choose(&["laz", "LAZ", "Laz"]) } else { *g.choose(&["las", "LAS", "lAs"]) };
    let stem = *g.choose(&["points", "a file", "ünïcode", "x.y.pnts"]);
    let path = dir.join(format!("{stem}.{ext}"));
    write(&path, &f.data)?;
    Ok(path)
}

fn usable_las(g: &mut Gen, n: Option<usize>) -> Option<io_las::Built> {
    let f = io_las::build(g, n);
    // waveforms cannot be compressed
    (!(f.compressed && matches!(f.f.n, 9 | 10))).then_some(f)
}

fn las(g: &mut Gen) -> PResult {
    let Some(f) = usable_las(g, None) else { return Ok(()) };
    let detailed = g.chance(4, 5);
    g.note(|| format!("{} points of {:?}, compressed {}, detailed {detailed}", f.recs.len(), f.f, f.compressed));
    in_scratch(g, |g, dir| {
        let path = las_named(g, &f, dir)?;
        let out = report(g, dir, &path, detailed)?;
        las_general(&f, &out)?;
        if detailed {
            las_want(&f).check(&out, f.recs.len())?;
            if f.recs.len() > 1 {
                g.mark();
            }
        }
        Ok(())
    })
}

fn pnts(g: &mut Gen) -> PResult {
    let f = io_pnts::build(g);
    let n = f.m.len();
    let detailed = g.chance(4, 5);
    g.note(|| format!("{n} points, {:?}, detailed {detailed}", f.json));
    in_scratch(g, |g, dir| {
        let path = dir.join(format!("{}.{}", g.choose(&["points", "a file", "x.las"]), g.choose(&["pnts", "PNTS", "Pnts"])));
        write(&path, &f.data)?;
        let out = report(g, dir, &path, detailed)?;
        for (label, key) in [("\"points_length\"", "POINTS_LENGTH"), ("\"batch_length\"", "BATCH_LENGTH")] {
            let want = f.json.get(key).map(|v| v.to_string());
            ensure!(value_of(&out, label) == want.as_deref(), "{label} is {:?}, the file says {want:?}", value_of(&out, label));
        }
        for (label, key) in [("\"rtc_center\"", "RTC_CENTER"), ("\"constant_rgba\"", "CONSTANT_RGBA")] {
            ensure!(value_of(&out, label).is_some() == f.json.contains_key(key), "{label}: {out:?}, the file says {:?}", f.json.get(key));
        }
        if detailed {
            let mut names: Vec<String> = f.m.defs.iter().map(|d| d.name().to_string()).collect();
            let lines: Vec<&str> = out.lines().collect();
            let start = lines.iter().position(|l| *l == "Attributes").unwrap_or(0);
            // the order is the reader's choice
            let got: Vec<String> = lines[start + 1..].iter().take_while(|l| l.starts_with('\t')).map(|l| l.trim().to_string()).collect();
            names.sort_by_key(|n| got.iter().position(|x| x == n));
            let mut w = Want::new(names);
            for (a, d) in f.m.defs.iter().enumerate().filter(|x| LABELS.iter().any(|l| l.0 == x.1.name())) {
                let c = if d.name() == "Position3D" { f.rtc } else { None };
                let off = c.map_or([0.0; 3], |c| [c.x, c.y, c.z]);
                let vals = || {
                    f.m.pts.iter().map(|p| {
                        let v = ref_cast(d.datatype(), DT::Vec3f64, &p[a]).unwrap();
                        v.chunks(8).zip(off).map(|(b, o)| f64::from_ne_bytes(b.try_into().unwrap()) + o).collect::<Vec<f64>>()
                    })
                };
                // a report of the values in their own type rounds the position to f32
                let big = vals().flatten().map(f64::abs).filter(|x| x.is_finite()).fold(0.0, f64::max);
                w.add(d.name(), vals(), if d.name() == "Position3D" { big * 2f64.powi(-22) } else { 0.0 });
            }
            w.sort();
            w.check(&out, n)?;
            if n > 1 {
                g.mark();
            }
        }
        Ok(())
    })
}

/// More points than are examined at a time.
fn large(g: &mut Gen) -> PResult {
    let n = 1_000_000 + *g.choose(&[0, 1, 300_000, 1_000_000, 1_000_001]);
    let Some(f) = usable_las(g, Some(n)) else { return Ok(()) };
    g.note(|| format!("{n} points of {:?}, compressed {}", f.f, f.compressed));
    g.mark();
    in_scratch(g, |g, dir| {
        let path = dir.join(if f.compressed { "points.laz" } else { "points.las" });
        write(&path, &f.data)?;
        let out = report(g, dir, &path, true)?;
        las_general(&f, &out)?;
        las_want(&f).check(&out, n)
    })
}

/// Files and arguments the tool cannot work with: it says so and fails, without panicking.
fn refused(g: &mut Gen) -> PResult {
    in_scratch(g, |g, dir| {
        let mut detailed = g.chance(1, 2);
        let what;
        let mut path = dir.join("points.las");
        match g.range(0, 6) {
            0 => what = "there is no such file".to_string(),
            1 => {
                let f = io_las::build(g, None);
                let ext = *g.choose(&["txt", "la", "las1", "pnt", "", "json", "xyz"]);
                path = dir.join(if ext.is_empty() { "points".to_string() } else { format!("points.{ext}") });
                write(&path, &f.data)?;
                what = format!("extension {ext:?}");
            }
            2 => {
                let mut f = io_las::build(g, None);
                let k = g.range(0, 3);
                f.data[k] ^= 1 << g.range(0, 7);
                write(&path, &f.data)?;
                what = "no LAS signature".into();
            }
            3 => {
                let f = io_las::build(g, None);
                let cut = g.range(0, 226);
                write(&path, &f.data[..cut])?;
                what = format!("{cut} bytes of a LAS file");
            }
            4 => {
                let f = io_pnts::build(g);
                path = dir.join("points.pnts");
                let fj = u32::from_le_bytes(f.data[12..16].try_into().unwrap()) as usize;
                let cut = g.range(0, 27 + fj);
                write(&path, &f.data[..cut])?;
                what = format!("{cut} bytes of a pnts file");
            }
            5 => {
                let Some(f) = usable_las(g, None) else { return Ok(()) };
                let (n, rl) = (f.recs.len(), f.f.len());
                if n == 0 {
                    return Ok(());
                }
                if f.compressed {
                    path = dir.join("points.laz");
                }
                let start = f.points_at + if f.compressed { 8 } else { 0 };
                let keep = g.range(0, n * rl - 1);
                write(&path, &f.data[..start + keep])?;
                detailed = true;
                what = format!("{keep} of {} bytes of points", n * rl);
            }
            _ => {
                let args: &[&[&str]] = &[&[], &["-d"], &["-i"], &["points.las"], &["-i", "points.las", "--nonsense"], &["-i", "points.las", "points.las"]];
                let f = io_las::build(g, Some(2));
                write(&path, &f.data)?;
                let a = *g.choose(args);
                g.note(|| format!("arguments {a:?}"));
                g.mark();
                let a: Vec<&std::ffi::OsStr> = a.iter().map(|x| x.as_ref()).collect();
                let r = run(dir, &a)?;
                ensure!(matches!(r.code, Some(c) if c != 0 && c != 101), "exit {:?}: {:?}, {:?}", r.code, r.out, r.err);
                ensure!(!r.err.trim().is_empty(), "no message");
                return Ok(());
            }
        }
        g.note(|| format!("{what}, detailed {detailed}"));
        g.mark();
        let mut args: Vec<&std::ffi::OsStr> = vec!["-i".as_ref(), path.as_os_str()];
        if detailed {
            args.push("-d".as_ref());
        }
        let r = run(dir, &args)?;
        ensure!(matches!(r.code, Some(c) if c != 0 && c != 101), "{what}: exit {:?}, stdout {:?}, stderr {:?}", r.code, r.out, r.err);
        ensure!(!r.err.trim().is_empty() && !r.err.contains("panicked"), "{what}: stderr {:?}", r.err);
        Ok(())
    })
}

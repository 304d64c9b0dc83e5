//! L02: generated programs. A case is a struct definition decoded from a tape. All cases of a batch are
//! written into one Rust program, one line each, compiled with the derive macro under test, and the derived
//! layout of each accepted struct is compared with the compiler's own offsets, size and alignment. Definitions
//! whose memory cannot be described must fail to compile (or refuse to give a layout).
//!
//! This is a program of its own so that it still answers when the derive macro rejects the point types that
//! the main harness is built from.
//!
//!   pasture-l02 run ARTIFACTS      ARTIFACTS: output of cargo build --message-format=json
//!   pasture-l02 replay ARTIFACTS FILE
//!   pasture-l02 validate ARTIFACTS  (development) the rejected definitions compile once the derive is taken away

#![allow(dead_code)]
mod gen;
mod runner;

use gen::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::process::Command;

const TYPES: [(&str, &str); 16] = [
    ("u8", "U8"), ("i8", "I8"), ("u16", "U16"), ("i16", "I16"), ("u32", "U32"), ("i32", "I32"), ("u64", "U64"), ("i64", "I64"),
    ("f32", "F32"), ("f64", "F64"), ("Vector3<u8>", "Vec3u8"), ("Vector3<u16>", "Vec3u16"), ("Vector3<f32>", "Vec3f32"),
    ("Vector3<f64>", "Vec3f64"), ("Vector3<i32>", "Vec3i32"), ("Vector4<u8>", "Vec4u8"),
];

const BUILTINS: [&str; 23] = [
    "POSITION_3D", "INTENSITY", "RETURN_NUMBER", "NUMBER_OF_RETURNS", "CLASSIFICATION_FLAGS", "SCANNER_CHANNEL", "SCAN_DIRECTION_FLAG",
    "EDGE_OF_FLIGHT_LINE", "CLASSIFICATION", "SCAN_ANGLE_RANK", "SCAN_ANGLE", "USER_DATA", "POINT_SOURCE_ID", "COLOR_RGB", "GPS_TIME", "NIR",
    "WAVE_PACKET_DESCRIPTOR_INDEX", "WAVEFORM_DATA_OFFSET", "WAVEFORM_PACKET_SIZE", "RETURN_POINT_WAVEFORM_LOCATION", "WAVEFORM_PARAMETERS",
    "POINT_ID", "NORMAL",
];

const UNSUPPORTED: [&str; 20] = [
    "bool", "char", "usize", "isize", "i128", "u128", "[u8; 4]", "(u8, u8)", "Vector3<i8>", "Vector3<u32>", "Vector3<i16>", "Vector3<u64>",
    "Vector3<i64>", "Vector4<u16>", "Vector4<f32>", "Vector4<i8>", "Vector2<u8>", "Vector3<bool>", "Point3<f64>", "&'static u8",
];

#[derive(Clone)]
struct Name {
    /// tokens inside of #[pasture(...)]
    annotation: String,
    /// Rust expression of the expected attribute name
    expected: String,
}

fn gen_name(g: &mut Gen, taken: &mut BTreeSet<String>) -> Name {
    loop {
        let n = if g.chance(1, 3) {
            let b = BUILTINS[g.range(0, BUILTINS.len() - 1)];
            Name { annotation: format!("BUILTIN_{b}"), expected: format!("attributes::{b}.name()") }
        } else {
            // short names, so that several fields get names that differ in case or surrounding blanks only
            let base = *g.choose(&["a", "b", "A", "Position", "position3d", "x y", "é", "q\\\"q", "b\\\\s", "", "Position3d", "\\u{e8}", "a.b", "BUILTIN_NIR", "0"]);
            let i = if g.chance(1, 2) { String::new() } else { taken.len().to_string() };
            let (l, r) = if g.chance(1, 3) { *g.choose(&[(" ", ""), ("", " "), ("\\t", ""), ("", "\\n"), (" ", " "), ("", "\\0"), ("_", "_")]) } else { ("", "") };
            let n = format!("{l}{base}{i}{r}");
            Name { annotation: format!("attribute = \"{n}\""), expected: format!("\"{n}\"") }
        };
        if taken.insert(n.annotation.clone()) {
            return n;
        }
        // builtin used already: fall through to a custom name
        let i = taken.len();
        let n = Name { annotation: format!("attribute = \"other{i}\""), expected: format!("\"other{i}\"") };
        if taken.insert(n.annotation.clone()) {
            return n;
        }
    }
}

#[derive(Clone)]
struct Field {
    ty: String,
    dtype: String,
    /// everything in front of the field
    attr: String,
    expected: String,
}

#[derive(Clone)]
struct Spec {
    /// None: must be accepted. Some(reason): must be rejected.
    reject: Option<&'static str>,
    head: String,  // #[repr(...)]
    intro: String, // struct / enum / union and generics
    tuple: bool,
    fields: Vec<Field>,
    /// complete item instead of the above (enum, union, ...)
    raw: Option<String>,
    class: &'static str,
    nontrivial: bool,
}

impl Spec {
    fn item(&self, derive: bool) -> String {
        let d = if derive { "#[derive(PointType)] " } else { "" };
        let copy = "#[derive(Clone, Copy)] ";
        if let Some(r) = &self.raw {
            return format!("{d}{copy}{} {r}", self.head);
        }
        let strip = |a: &str| if derive { a.to_string() } else { a.split('#').filter(|p| !p.starts_with("[pasture")).map(|p| if p.starts_with('[') { format!("#{p}") } else { p.to_string() }).collect() };
        let body: Vec<String> = self.fields.iter().enumerate()
            .map(|(i, f)| if self.tuple { format!("{}{}", strip(&f.attr), f.ty) } else { format!("{}f{i}: {}", strip(&f.attr), f.ty) })
            .collect();
        if self.tuple {
            format!("{d}{copy}{} {}S({});", self.head, self.intro, body.join(", "))
        } else {
            format!("{d}{copy}{} {}S {{ {} }}", self.head, self.intro, body.join(", "))
        }
    }
    /// The whole case on one line.
    fn line(&self, idx: usize, derive: bool) -> String {
        let mut s = format!("mod s{idx} {{ use super::*; {} ", self.item(derive));
        // Generic definitions only occur among the rejected ones and are instantiated with u8.
        let inst = if self.intro.contains('<') || self.raw.as_deref().unwrap_or("").contains("S<") { "S<u8>" } else { "S" };
        s.push_str(&format!("unsafe impl bytemuck::NoUninit for {inst} where {inst}: 'static {{}} unsafe impl bytemuck::Zeroable for {inst} {{}} unsafe impl bytemuck::AnyBitPattern for {inst} {{}} "));
        if !derive {
            s.push_str(&format!("impl pasture_core::layout::PointType for {inst} {{ fn layout() -> PointLayout {{ PointLayout::default() }} }} "));
        }
        let members = self.fields.iter().enumerate().filter(|_| self.reject.is_none()).map(|(i, f)| {
            let m = if self.tuple { format!("{i}") } else { format!("f{i}") };
            format!("({}, PointAttributeDataType::{}, std::mem::offset_of!(S, {m}) as u64)", f.expected, f.dtype)
        }).collect::<Vec<_>>().join(", ");
        s.push_str(&format!("pub fn go() {{ report::<{inst}>({idx}, &[{members}]); }} }}"));
        s
    }
}

const PRELUDE: &str = r#"#![allow(dead_code, unused_imports, non_snake_case)]
use pasture_core::layout::{attributes, PointAttributeDataType, PointAttributeDefinition, PointAttributeMember, PointLayout, PointType};
use pasture_core::nalgebra::{Point3, Vector2, Vector3, Vector4};
use pasture_derive::PointType;
fn show(l: &PointLayout) -> String { format!("size {}: {}", l.size_of_point_entry(), l.attributes().map(|a| format!("{}", a)).collect::<Vec<_>>().join(" ")) }
fn report<T: PointType>(idx: usize, expected: &[(&str, PointAttributeDataType, u64)]) {
    let l = match std::panic::catch_unwind(|| T::layout()) { Ok(l) => l, Err(_) => { println!("{} refused", idx); return; } };
    let mut why = vec![];
    if l.size_of_point_entry() != std::mem::size_of::<T>() as u64 { why.push(format!("the size of the struct is {}", std::mem::size_of::<T>())); }
    let got: Vec<_> = l.attributes().map(|a| (a.name().to_string(), a.datatype(), a.offset())).collect();
    let exp: Vec<_> = expected.iter().map(|(n, t, o)| (n.to_string(), *t, *o)).collect();
    if got != exp { why.push(format!("the struct's attributes are {:?}", exp)); }
    let members: Vec<PointAttributeMember> = expected.iter().map(|(n, t, o)| PointAttributeDefinition::custom(std::borrow::Cow::Owned(n.to_string()), *t).at_offset_in_type(*o)).collect();
    if why.is_empty() && l != PointLayout::from_members_and_alignment(&members, std::mem::align_of::<T>() as u64) { why.push(format!("the struct's alignment is {}", std::mem::align_of::<T>())); }
    println!("{} layout {} {}", idx, if why.is_empty() { "same" } else { "differs" }, format!("derived layout is {} but {}", show(&l), why.join(", ")).replace('\n', " "));
}
"#;

fn gen_repr(g: &mut Gen) -> (String, bool) {
    let n = *g.choose(&[1u32, 2, 4, 8, 16, 32]);
    match g.range(0, 13) {
        0..=2 => ("#[repr(C)]".into(), false),
        3 => ("#[repr(C, packed)]".into(), false),
        4 => ("#[repr(packed)]".into(), false),
        5 => ("#[repr(packed, C)]".into(), false),
        6 => (format!("#[repr(C, packed({n}))]"), true),
        7 => (format!("#[repr(packed({n}), C)]"), true),
        8 => (format!("#[repr(packed({n}))]"), true),
        9 => (format!("#[repr(C, align({n}))]"), true),
        10 => (format!("#[repr(align({n}), C)]"), true),
        11 => (format!("#[repr(C)] #[repr(packed({n}))]"), true),
        12 => (format!("#[repr(C)] #[repr(align({n}))]"), true),
        _ => (format!("#[doc = \"text\"] #[repr(packed({n}))] #[repr(C)]"), true),
    }
}

fn vis(g: &mut Gen) -> &'static str {
    g.choose(&["", "pub ", "pub(crate) "])
}

fn gen_fields(g: &mut Gen, lo: usize, hi: usize) -> Vec<Field> {
    let n = g.range(lo, hi);
    let mut taken = BTreeSet::new();
    (0..n).map(|_| {
        let (ty, dtype) = TYPES[g.range(0, TYPES.len() - 1)];
        let name = gen_name(g, &mut taken);
        Field { ty: ty.into(), dtype: dtype.into(), attr: format!("#[pasture({})] {}", name.annotation, vis(g)), expected: name.expected }
    }).collect()
}

fn gen_accept(g: &mut Gen) -> Spec {
    let (head, special) = gen_repr(g);
    let tuple = g.chance(1, 5);
    let fields = gen_fields(g, 0, 9);
    let intro = format!("{}struct ", vis(g));
    let nontrivial = fields.len() >= 2;
    Spec { reject: None, head, intro, tuple, fields, raw: None, class: if special { "packed(N), align(N) or several repr" } else { "C or packed" }, nontrivial }
}

fn gen_reject(g: &mut Gen) -> Spec {
    let (head, _) = gen_repr(g);
    let fields = gen_fields(g, 1, 6);
    let at = g.range(0, fields.len() - 1);
    let mut s = Spec { reject: None, head, intro: "pub struct ".into(), tuple: g.chance(1, 5), fields, raw: None, class: "", nontrivial: true };
    match g.range(0, 10) {
        0 => {
            s.reject = Some("no guaranteed field order");
            s.head = g.choose(&["", "#[repr(align(8))]", "#[repr(Rust)]", "#[doc = \"repr(C)\"]", "#[allow(dead_code)]"]).to_string();
        }
        1 | 2 => {
            s.reject = Some("unsupported field type");
            s.fields[at].ty = g.choose(&UNSUPPORTED).to_string();
            s.head = "#[repr(C)]".into();
        }
        3 => {
            s.reject = Some("field without attribute");
            s.fields[at].attr = g.choose(&["", "pub ", "#[doc = \"pasture(BUILTIN_INTENSITY)\"] ", "#[allow(dead_code)] "]).to_string();
        }
        4 | 5 => {
            s.reject = Some("malformed annotation");
            s.fields[at].attr = g.choose(&["#[pasture] ", "#[pasture()] ", "#[pasture = \"x\"] ", "#[pasture(\"x\")] ", "#[pasture(BUILTIN_UNKNOWN)] ", "#[pasture(INTENSITY)] ",
                "#[pasture(builtin_intensity)] ", "#[pasture(name = \"x\")] ", "#[pasture(attribute = 5)] ", "#[pasture(attribute)] ", "#[pasture(attribute(x))] ", "#[pasture(BUILTIN_INTENSITY(x))] "]).to_string();
        }
        6 | 7 => {
            s.reject = Some("duplicate attribute");
            let mut f = s.fields[at].clone();
            if g.chance(1, 2) {
                let (ty, dtype) = TYPES[g.range(0, TYPES.len() - 1)];
                f.ty = ty.into();
                f.dtype = dtype.into();
            }
            if g.chance(1, 3) {
                // a custom name that is the name of a builtin attribute
                s.fields[at].attr = "#[pasture(BUILTIN_INTENSITY)] ".into();
                f.attr = "#[pasture(attribute = \"Intensity\")] ".into();
            }
            let to = g.range(0, s.fields.len());
            s.fields.insert(to, f);
        }
        8 => {
            s.reject = Some("generic field");
            s.fields[at].ty = "T".into();
            s.tuple = false;
            s.head = "#[repr(C)]".into();
            s.intro = "pub struct ".into();
            let body: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| format!("{}f{i}: {}", f.attr, f.ty)).collect();
            s.raw = Some(format!("pub struct S<T> {{ {} }}", body.join(", ")));
        }
        9 => {
            s.reject = Some("contradictory annotations");
            let other = g.choose(&["#[pasture(attribute = \"another name\")] ", "#[pasture(BUILTIN_GPS_TIME)] "]).to_string();
            let own = if s.fields[at].attr.contains("GPS_TIME") { "#[pasture(BUILTIN_NIR)] ".to_string() } else { s.fields[at].attr.clone() };
            s.fields[at].attr = if g.chance(1, 2) { format!("{own}{other}") } else { format!("{other}{own}") };
        }
        _ => {
            s.reject = Some("enum or union");
            s.head = "#[repr(C)]".into();
            s.raw = Some(if g.chance(1, 2) {
                g.choose(&["pub enum S { A, B }", "pub enum S { A(u8), B(u8) }", "pub enum S { A }"]).to_string()
            } else {
                let body: Vec<String> = s.fields.iter().enumerate().map(|(i, f)| format!("{}f{i}: {}", f.attr, f.ty)).collect();
                format!("pub union S {{ {} }}", body.join(", "))
            });
        }
    }
    s.class = s.reject.unwrap();
    s
}

fn decode(section: &str, g: &mut Gen) -> Spec {
    if section == "accepted" { gen_accept(g) } else { gen_reject(g) }
}

#[derive(Clone, Debug)]
enum Verdict {
    Rejected(String),
    Refused,
    Same,
    Differs(String),
}

struct Toolchain {
    externs: Vec<(String, String)>,
    deps: String,
    dir: String,
}

impl Toolchain {
    fn new(artifacts: &str) -> Self {
        let mut externs = vec![];
        let mut deps = String::new();
        for l in std::fs::read_to_string(artifacts).expect("artifacts").lines() {
            let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            if !["pasture_core", "pasture_derive", "bytemuck"].contains(&name.as_str()) {
                continue;
            }
            let kinds = v["target"]["kind"].to_string();
            for f in v["filenames"].as_array().unwrap() {
                let f = f.as_str().unwrap();
                if f.ends_with(".rlib") && kinds.contains("lib") || f.ends_with(".so") && kinds.contains("proc-macro") {
                    if name == "pasture_core" {
                        deps = std::path::Path::new(f).parent().unwrap().join("deps").to_string_lossy().to_string();
                    }
                    externs.push((name.clone(), f.to_string()));
                }
            }
        }
        if externs.len() != 3 {
            error(&format!("expected three artifacts, found {externs:?}"));
        }
        if !std::path::Path::new(&deps).exists() {
            deps = std::path::Path::new(&externs[0].1).parent().unwrap().to_string_lossy().to_string();
        }
        let dir = std::env::temp_dir().join(format!("pbt-L02-{}", std::process::id())).to_string_lossy().to_string();
        std::fs::create_dir_all(&dir).unwrap();
        Toolchain { externs, deps, dir }
    }

    /// Compiles and runs the cases. A case with a compile error is set aside and the rest compiled again.
    fn judge(&self, specs: &[Spec], derive: bool) -> Vec<Verdict> {
        let mut verdicts: Vec<Option<Verdict>> = vec![None; specs.len()];
        let (src, bin) = (format!("{}/p.rs", self.dir), format!("{}/p", self.dir));
        for _round in 0..8 {
            let alive: Vec<usize> = (0..specs.len()).filter(|i| verdicts[*i].is_none()).collect();
            if alive.is_empty() {
                break;
            }
            let mut text = String::from(PRELUDE);
            let first = text.lines().count() + 1;
            for i in &alive {
                text.push_str(&specs[*i].line(*i, derive));
                text.push('\n');
            }
            text.push_str("fn main() { std::panic::set_hook(Box::new(|_| {})); ");
            for i in &alive {
                text.push_str(&format!("s{i}::go(); "));
            }
            text.push_str("}\n");
            std::fs::write(&src, &text).unwrap();
            let mut c = Command::new("rustc");
            c.args(["--edition", "2021", "--error-format=json", "--cap-lints", "allow", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "codegen-units=8"]);
            c.args(["-L", &format!("dependency={}", self.deps), "-o", &bin, &src]);
            for (n, f) in &self.externs {
                c.args(["--extern", &format!("{n}={f}")]);
            }
            let out = c.output().unwrap_or_else(|e| error(&format!("rustc: {e}")));
            if out.status.success() {
                let out = Command::new(&bin).output().unwrap_or_else(|e| error(&format!("running the generated program: {e}")));
                for l in String::from_utf8_lossy(&out.stdout).lines() {
                    let mut p = l.splitn(4, ' ');
                    let i: usize = p.next().unwrap().parse().unwrap();
                    verdicts[i] = Some(match (p.next(), p.next(), p.next()) {
                        (Some("refused"), _, _) => Verdict::Refused,
                        (Some("layout"), Some("same"), _) => Verdict::Same,
                        (_, _, rest) => Verdict::Differs(rest.unwrap_or("").to_string()),
                    });
                }
                if verdicts.iter().any(|v| v.is_none()) {
                    error(&format!("the generated program did not report every case ({})", out.status));
                }
                break;
            }
            let mut hit = false;
            for l in String::from_utf8_lossy(&out.stderr).lines() {
                let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
                if v["level"] != "error" {
                    continue;
                }
                for s in v["spans"].as_array().into_iter().flatten().filter(|s| s["is_primary"] == true) {
                    // errors inside of the expansion point to the macro's call site, which is on the case's line
                    let mut s = s.clone();
                    while !s["file_name"].as_str().unwrap_or("").ends_with("p.rs") && !s["expansion"]["span"].is_null() {
                        s = s["expansion"]["span"].clone();
                    }
                    let line = s["line_start"].as_u64().unwrap_or(0) as usize;
                    if line >= first && line < first + alive.len() && s["file_name"].as_str().unwrap_or("").ends_with("p.rs") {
                        let i = alive[line - first];
                        if verdicts[i].is_none() {
                            hit = true;
                            verdicts[i] = Some(Verdict::Rejected(v["message"].as_str().unwrap_or("").to_string()));
                        }
                    }
                }
            }
            if !hit {
                error(&format!("the generated program does not compile for a reason outside of the cases:\n{}", String::from_utf8_lossy(&out.stderr).chars().take(3000).collect::<String>()));
            }
        }
        verdicts.into_iter().map(|v| v.unwrap_or_else(|| error("the generated program does not settle"))).collect()
    }
}

fn error(msg: &str) -> ! {
    eprintln!("L02: check error: {msg}");
    std::process::exit(2)
}

fn failure(s: &Spec, v: &Verdict) -> Option<String> {
    match (s.reject, v) {
        (None, Verdict::Same) => None,
        (None, Verdict::Differs(d)) => Some(d.clone()),
        (None, Verdict::Rejected(m)) => Some(format!("a describable struct was rejected: {m}")),
        (None, Verdict::Refused) => Some("layout() of a describable struct panicked".into()),
        (Some(_), Verdict::Rejected(_) | Verdict::Refused) => None,
        (Some(r), _) => Some(format!("a struct that must be rejected ({r}) got a layout")),
    }
}

fn seed_of(seed: u64, section: &str, idx: u64) -> u64 {
    let mut h = mix(seed ^ 0x102);
    for b in section.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ idx)
}

fn shrink(tc: &Toolchain, section: &str, tape: Vec<u64>, msg: String) -> (Vec<u64>, String) {
    let (mut best, mut best_msg) = (tape, msg);
    for _ in 0..12 {
        let mut cands: Vec<Vec<u64>> = vec![];
        let mut push = |c: Vec<u64>| {
            let mut g = Gen::replay(&c);
            decode(section, &mut g);
            cands.push(g.tape);
        };
        for size in [8usize, 4, 3, 2, 1] {
            for i in 0..best.len() {
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[(i + size).min(best.len())..]);
                push(c.clone());
                for j in 0..i {
                    if best[j] > 0 && size >= 2 {
                        let mut d = c.clone();
                        d[j] -= 1;
                        push(d);
                    }
                }
            }
        }
        for i in 0..best.len() {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                let mut c = best.clone();
                c[i] = v;
                push(c);
            }
        }
        cands.retain(|c| (c.len(), c) < (best.len(), &best));
        cands.sort_by(|a, b| (a.len(), a).cmp(&(b.len(), b)));
        cands.dedup();
        let step = (cands.len() / 400).max(1);
        let cands: Vec<Vec<u64>> = cands.into_iter().step_by(step).collect();
        if cands.is_empty() {
            break;
        }
        let specs: Vec<Spec> = cands.iter().map(|c| decode(section, &mut Gen::replay(c))).collect();
        let v = tc.judge(&specs, true);
        match (0..specs.len()).find_map(|i| failure(&specs[i], &v[i]).map(|m| (i, m))) {
            Some((i, m)) => {
                best = cands[i].clone();
                best_msg = m;
            }
            None => break,
        }
    }
    (best, best_msg)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 2 {
        error("usage: pasture-l02 run|replay|validate ARTIFACTS [FILE]");
    }
    let tc = Toolchain::new(&args[1]);
    let code = match args[0].as_str() {
        "run" => run(&tc),
        "validate" => {
            let specs: Vec<Spec> = (0..1500).map(|i| gen_reject(&mut Gen::random(i))).collect();
            let mut bad = 0;
            for (s, v) in specs.iter().zip(tc.judge(&specs, false)) {
                if let Verdict::Rejected(m) = v {
                    bad += 1;
                    println!("{}: {m}: {}", s.class, s.item(false));
                }
            }
            println!("{bad} rejected definitions do not compile without the derive");
            (bad > 0) as i32
        }
        _ => {
            let f: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let tape: Vec<u64> = serde_json::from_value(f["tape"].clone()).unwrap();
            let s = decode(f["section"].as_str().unwrap(), &mut Gen::replay(&tape));
            println!("  {}", s.item(true));
            match failure(&s, &tc.judge(&[s.clone()], true)[0]) {
                Some(m) => {
                    println!("FAILED: {m}\nVIOLATION property=L02 replay={}", args[2]);
                    1
                }
                None => {
                    println!("replay passes: L02 holds on this case");
                    0
                }
            }
        }
    };
    let _ = std::fs::remove_dir_all(&tc.dir);
    std::process::exit(code);
}

fn run(tc: &Toolchain) -> i32 {
    let t0 = std::time::Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").ok().filter(|t| !t.is_empty()).unwrap_or_else(|| "quick".into());
    let batches: u64 = if tier == "thorough" { 40 } else { 2 };
    let per_batch = [("accepted", 500u64), ("rejected", 250)];
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<Vec<u64>> = HashSet::new();
    let (mut evaluations, mut nontrivial) = (0u64, 0u64);
    let mut samples = vec![];
    let mut found = None;
    'all: for b in 0..batches {
        for (section, n) in per_batch {
            let mut tapes = vec![];
            let mut specs = vec![];
            for i in 0..n {
                let mut g = Gen::random(seed_of(seed, section, b * n + i));
                specs.push(decode(section, &mut g));
                tapes.push(g.tape);
            }
            let verdicts = tc.judge(&specs, true);
            for i in 0..specs.len() {
                let s = &specs[i];
                evaluations += 1;
                *classes.entry(format!("{section}: {}", s.class)).or_insert(0) += 1;
                if s.nontrivial {
                    nontrivial += 1;
                    distinct.insert(tapes[i].clone());
                    if b == 0 && i < 5 {
                        samples.push(json!({"section": section, "index": i, "case": s.item(true), "verdict": format!("{:?}", verdicts[i])}));
                    }
                }
                if let Some(m) = failure(s, &verdicts[i]) {
                    found = Some((section, b * n + i as u64, tapes[i].clone(), m));
                    break 'all;
                }
            }
        }
    }
    let ev = json!({"property": "L02", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": distinct.len(), "nontrivial": nontrivial,
            "rule": "a case is one generated definition; non-trivial: a struct of at least two fields, or a definition that must be rejected", "samples": samples, "classes": classes},
        "assumptions": ["size_of, align_of and offset_of of the installed compiler are the truth"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": found.is_some() as u64});
    let _ = std::fs::create_dir_all("evidence/replay");
    std::fs::write("evidence/L02.json", serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    match found {
        Some((section, idx, tape, msg)) => {
            let (tape, msg) = shrink(tc, section, tape, msg);
            let s = decode(section, &mut Gen::replay(&tape));
            let path = "evidence/replay/L02.json";
            std::fs::write(path, serde_json::to_string_pretty(&json!({"property": "L02", "section": section, "index": idx, "seed": seed, "tape": tape, "message": msg,
                "case": s.item(true), "how_to_replay": format!("./check.sh --replay {path}")})).unwrap()).expect("write replay");
            println!("L02: section {section}: {msg}\n    {}", s.item(true));
            println!("VIOLATION property=L02 replay={path}");
            1
        }
        None => {
            println!("L02: held on {evaluations} cases ({} distinct non-trivial) in {:.1}s [{tier}, seed {seed}]", distinct.len(), t0.elapsed().as_secs_f64());
            0
        }
    }
}

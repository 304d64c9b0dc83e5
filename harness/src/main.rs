mod gen;
mod model;
mod props;
mod runner;

use gen::Failure;
use runner::{Property, RunOpts};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::time::{Duration, Instant};

fn env(k: &str, d: &str) -> String {
    std::env::var(k).ok().filter(|v| !v.is_empty()).unwrap_or_else(|| d.to_string())
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8)
}

/// known_findings.txt: `known: property=<id> sig=<signature> <description>`; other lines are records only.
fn load_known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string("known_findings.txt").unwrap_or_default();
    let mut out = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&format!("known: property={id} sig=")) {
            let (sig, desc) = rest.split_once(' ').unwrap_or((rest, ""));
            out.push((sig.to_string(), desc.to_string()));
        }
    }
    out
}

fn find_prop(id: &str) -> Property {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn opts(args: &[String], id: &str) -> RunOpts {
    RunOpts {
        seed: env("VERIF_SEED", "1").parse().unwrap_or(1),
        tier: env("VERIF_TIER", "quick"),
        profile: arg(args, "--profile").unwrap_or_else(|| "checked".into()),
        threads: threads(),
        slot_file: arg(args, "--slots"),
        only_section: arg(args, "--section"),
        cases_override: arg(args, "--cases").and_then(|c| c.parse().ok()),
        known: load_known(id),
        prelim: arg(args, "--out").map(|o| format!("{o}.prelim")),
        survey: args.iter().any(|a| a == "--survey"),
    }
}

/// A case that allocates without bound aborts this process instead of exhausting the machine.
fn limit_memory() {
    let lim = libc::rlimit { rlim_cur: 10 << 30, rlim_max: 10 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
}

fn child(args: &[String]) -> i32 {
    let id = &args[0];
    let p = find_prop(id);
    let o = opts(args, id);
    runner::install_panic_hook();
    limit_memory();
    let out = runner::run_property(&p, &o);
    let found = out.found.as_ref().map(|f| {
        json!({"property": id, "profile": o.profile, "section": f.section, "index": f.idx, "seed": o.seed,
               "tape": f.tape, "drawn_before_shrinking": f.original_len, "shrink_steps": f.shrink_steps,
               "message": f.failure.msg, "signature": f.failure.sig, "case": f.log})
    });
    let v = json!({"sections": out.stats, "found": found, "known_hits": out.known_hits});
    if let Some(path) = arg(args, "--out") {
        std::fs::write(path, v.to_string()).expect("write child result");
    } else {
        println!("{}", serde_json::to_string_pretty(&v).unwrap());
    }
    if out.found.is_some() { 10 } else { 0 }
}

fn single(args: &[String]) -> i32 {
    let p = find_prop(&args[0]);
    let o = opts(args, &args[0]);
    runner::install_panic_hook();
    limit_memory();
    let section: usize = arg(args, "--sidx").unwrap().parse().unwrap();
    let idx: u64 = arg(args, "--idx").unwrap().parse().unwrap();
    match runner::run_single(&p, &o, section, idx, &arg(args, "--spill").unwrap()) {
        Ok(()) => 0,
        Err(_) => 10,
    }
}

fn tape_cmd(args: &[String]) -> i32 {
    let p = find_prop(&args[0]);
    runner::install_panic_hook();
    let tape: Vec<u64> = serde_json::from_str(&std::fs::read_to_string(arg(args, "--tape").unwrap()).unwrap()).unwrap();
    limit_memory();
    let spill = arg(args, "--spill");
    let (mut r, mut log) = runner::run_tape(&p, &arg(args, "--section").unwrap(), &tape, spill.as_deref());
    // code that makes random choices or runs in parallel may need several attempts
    for _ in 0..30 {
        if r.is_err() || spill.is_some() {
            break;
        }
        (r, log) = runner::run_tape(&p, &arg(args, "--section").unwrap(), &tape, None);
    }
    for l in log {
        println!("  {l}");
    }
    match r {
        Ok(()) => {
            println!("PASSED");
            0
        }
        Err(e) => {
            println!("FAILED: {}", e.msg);
            10
        }
    }
}

fn read_spill(path: &str) -> Vec<u64> {
    std::fs::read(path).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}

fn bins() -> Vec<(String, String)> {
    env("PBT_BINS", "")
        .split(',')
        .filter_map(|s| s.split_once('=').map(|(a, b)| (a.to_string(), b.to_string())))
        .collect()
}

/// Waits for a child; None if it had to be stopped at the time limit.
fn wait_limited(mut c: std::process::Child, limit: Duration) -> Option<std::process::ExitStatus> {
    let t0 = Instant::now();
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            return Some(s);
        }
        if t0.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// A case normally takes milliseconds; one that runs this long does not terminate.
const STUCK: Duration = Duration::from_secs(60);

enum Ended {
    Exit(std::process::ExitStatus),
    Stuck,
    TimeUp,
    ShrinkStuck,
}

/// Waits for the child, watching the case each of its threads is working on.
fn watch(mut c: std::process::Child, limit: Duration, slots: &str, prelim: &str) -> Ended {
    let t0 = Instant::now();
    let mut seen: BTreeMap<usize, (Vec<u8>, Instant)> = BTreeMap::new();
    let mut shrinking: Option<Instant> = None;
    loop {
        if let Some(s) = c.try_wait().expect("wait") {
            return Ended::Exit(s);
        }
        let mut end = None;
        if t0.elapsed() > limit {
            end = Some(Ended::TimeUp);
        }
        if shrinking.is_none() && std::path::Path::new(prelim).exists() {
            shrinking = Some(Instant::now());
        }
        if shrinking.map_or(false, |t| t.elapsed() > 2 * STUCK) {
            end = Some(Ended::ShrinkStuck);
        }
        if shrinking.is_none() && t0.elapsed() > STUCK {
            for (i, b) in std::fs::read(slots).unwrap_or_default().chunks_exact(24).enumerate() {
                let e = seen.entry(i).or_insert_with(|| (b.to_vec(), Instant::now()));
                if e.0 != b {
                    *e = (b.to_vec(), Instant::now());
                }
                if b[16] == 1 && e.1.elapsed() > STUCK {
                    end = Some(Ended::Stuck);
                }
            }
        }
        if let Some(e) = end {
            let _ = c.kill();
            let _ = c.wait();
            return e;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Some case did not end: finds it by running each thread's last case alone.
fn isolate_hang(id: &str, profile: &str, bin: &str, slots: &str, dir: &str) -> Option<Value> {
    let b = std::fs::read(slots).unwrap_or_default();
    let p = find_prop(id);
    for (n, c) in b.chunks_exact(24).enumerate() {
        if c[16] != 1 {
            continue;
        }
        let si = u64::from_le_bytes(c[0..8].try_into().unwrap());
        let idx = u64::from_le_bytes(c[8..16].try_into().unwrap());
        let spill = format!("{dir}/hang{n}");
        let ch = Command::new(bin)
            .args(["single", id, "--profile", profile, "--sidx", &si.to_string(), "--idx", &idx.to_string(), "--spill", &spill])
            .stderr(std::process::Stdio::null())
            .spawn()
            .ok()?;
        if wait_limited(ch, STUCK).is_some() {
            continue;
        }
        let tape = read_spill(&spill);
        let section = p.sections[si as usize].name;
        return Some(json!({"property": id, "profile": profile, "section": section, "index": idx, "seed": env("VERIF_SEED", "1"),
            "tape": tape, "drawn_before_shrinking": tape.len(), "shrink_steps": 0, "message": format!("this case does not terminate (stopped after {} s, twice)", STUCK.as_secs()),
            "signature": "", "case": []}));
    }
    None
}

fn crash_signal(s: &std::process::ExitStatus) -> Option<i32> {
    // SIGKILL is how the sandbox or an operator ends a process: not an outcome of the code under test.
    s.signal().filter(|s| [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP].contains(s))
}

/// The child died. Finds the case that kills the process, and shrinks it in subprocesses.
fn isolate_crash(id: &str, profile: &str, bin: &str, slots: &str, dir: &str) -> Option<Value> {
    let b = std::fs::read(slots).unwrap_or_default();
    let spill = format!("{dir}/spill");
    let tape_file = format!("{dir}/tape.json");
    let p = find_prop(id);
    for c in b.chunks_exact(24) {
        if c[16] != 1 {
            continue;
        }
        let si = u64::from_le_bytes(c[0..8].try_into().unwrap());
        let idx = u64::from_le_bytes(c[8..16].try_into().unwrap());
        let ch = Command::new(bin)
            .args(["single", id, "--profile", profile, "--sidx", &si.to_string(), "--idx", &idx.to_string(), "--spill", &spill])
            .stderr(std::process::Stdio::null())
            .spawn()
            .ok()?;
        let Some(st) = wait_limited(ch, Duration::from_secs(120)) else { continue };
        let Some(sig) = crash_signal(&st) else { continue };
        let tape = read_spill(&spill);
        let section = p.sections[si as usize].name;
        let original_len = tape.len();
        let fail = Failure { msg: format!("the process died with signal {sig} while running this case"), sig: String::new() };
        let run = |t: &[u64], quiet: bool| -> Option<(Vec<u64>, Failure, String)> {
            std::fs::write(&tape_file, serde_json::to_string(t).unwrap()).ok()?;
            let _ = std::fs::remove_file(&spill);
            let err = format!("{dir}/stderr");
            let ch = Command::new(bin)
                .args(["tape", id, "--section", section, "--tape", &tape_file, "--spill", &spill])
                .stdout(std::process::Stdio::null())
                .stderr(if quiet { std::process::Stdio::null() } else { std::process::Stdio::from(std::fs::File::create(&err).unwrap()) })
                .spawn()
                .ok()?;
            let st = wait_limited(ch, Duration::from_secs(60))?;
            let sig = crash_signal(&st)?;
            Some((read_spill(&spill), Failure { msg: format!("the process died with signal {sig} while running this case (memory-safety or abort)"), sig: String::new() },
                  if quiet { String::new() } else { std::fs::read_to_string(&err).unwrap_or_default() }))
        };
        let (tape, failure, steps) = runner::shrink_with(tape, fail, 300, |t| run(t, true).map(|(a, b, _)| (a, b)));
        let log = run(&tape, false).map(|x| x.2).unwrap_or_default();
        return Some(json!({"property": id, "profile": profile, "section": section, "index": idx, "seed": env("VERIF_SEED", "1"),
            "tape": tape, "drawn_before_shrinking": original_len, "shrink_steps": steps, "message": failure.msg, "signature": "", "case": log.lines().collect::<Vec<_>>()}));
    }
    None
}

fn run(args: &[String]) -> i32 {
    let id = args[0].clone();
    let p = find_prop(&id);
    let t0 = Instant::now();
    let tier = env("VERIF_TIER", "quick");
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    let limit = Duration::from_secs(if tier == "thorough" { 6 * 3600 } else { 840 });
    let dir = std::env::temp_dir().join(format!("pbt-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let dir_s = dir.to_string_lossy().to_string();
    let mut all_sections: Vec<Value> = vec![];
    let mut found: Option<Value> = None;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut error: Option<String> = None;
    for (profile, bin) in bins() {
        let out = format!("{dir_s}/{profile}.json");
        let slots = format!("{dir_s}/{profile}.slots");
        let mut cmd = Command::new(&bin);
        cmd.args(["child", &id, "--profile", &profile, "--slots", &slots, "--out", &out]);
        cmd.args(&args[1..]);
        cmd.stderr(std::process::Stdio::inherit());
        let c = cmd.spawn().expect("spawn child");
        let prelim = format!("{out}.prelim");
        let st = match watch(c, limit.saturating_sub(t0.elapsed()), &slots, &prelim) {
            Ended::Exit(st) => st,
            Ended::TimeUp => {
                error = Some("time limit reached (the machine is too slow)".into());
                break;
            }
            Ended::Stuck => {
                match isolate_hang(&id, &profile, &bin, &slots, &dir_s) {
                    Some(f) => found = Some(f),
                    None => error = Some("a case did not end, but each ends when run alone".into()),
                }
                break;
            }
            Ended::ShrinkStuck => {
                found = serde_json::from_str(&std::fs::read_to_string(&prelim).unwrap_or_default()).ok();
                if found.is_none() {
                    error = Some("shrinking did not end".into());
                }
                break;
            }
        };
        if crash_signal(&st).is_some() {
            match isolate_crash(&id, &profile, &bin, &slots, &dir_s) {
                Some(f) => found = Some(f),
                None => error = Some(format!("child died ({st}) but no single case reproduces it")),
            }
            break;
        }
        let code = st.code().unwrap_or(-1);
        if code != 0 && code != 10 {
            error = Some(format!("child ended with {st}"));
            break;
        }
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&out).unwrap_or_default()).unwrap_or(Value::Null);
        if let Some(a) = v["sections"].as_array() {
            all_sections.extend(a.iter().cloned());
        }
        if let Some(m) = v["known_hits"].as_object() {
            for (k, n) in m {
                *known.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
            }
        }
        if !v["found"].is_null() {
            found = Some(v["found"].clone());
            break;
        }
    }
    // evidence
    let sum = |k: &str| all_sections.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let mut samples: Vec<Value> = all_sections.iter().flat_map(|s| s["samples"].as_array().cloned().unwrap_or_default()).collect();
    samples.truncate(12);
    let sections: Vec<Value> = all_sections
        .iter()
        .map(|s| {
            let mut s = s.clone();
            s.as_object_mut().unwrap().remove("samples");
            s
        })
        .collect();
    if let Some(f) = &found {
        samples.push(json!({"violation": f["message"], "case": f["case"]}));
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum("evaluations"), "distinct_nontrivial": sum("distinct_nontrivial"),
            "rule": p.rule, "samples": samples, "nontrivial": sum("nontrivial"), "sections": sections,
            "known_finding_cases": known,
        },
        "assumptions": ["a case is a pure function of VERIF_SEED, build profile, section and index; floating-point oracles use exactly representable inputs or stated tolerances"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": if found.is_some() { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all("evidence");
    if error.is_none() {
        std::fs::write(format!("evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    let code = if let Some(mut f) = found {
        let _ = std::fs::create_dir_all("evidence/replay");
        let path = format!("evidence/replay/{id}.json");
        f["how_to_replay"] = json!(format!("./check.sh --replay {path}"));
        std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap()).expect("write replay");
        println!("{}: section {} profile {}: {}", id, f["section"].as_str().unwrap_or(""), f["profile"].as_str().unwrap_or(""), f["message"].as_str().unwrap_or(""));
        if let Some(a) = f["case"].as_array() {
            for l in a.iter().take(40) {
                println!("    {}", l.as_str().unwrap_or(""));
            }
        }
        println!("VIOLATION property={id} replay={path}");
        1
    } else if let Some(e) = error {
        eprintln!("{id}: check error: {e}");
        2
    } else {
        for (sig, desc) in load_known(&id) {
            if known.contains_key(&sig) {
                println!("KNOWN-FINDING: property={id} {sig} {desc}");
            }
        }
        println!("{id}: held on {} cases ({} distinct non-trivial) in {:.1}s [{tier}, seed {seed}]", ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], t0.elapsed().as_secs_f64());
        0
    };
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn replay(args: &[String]) -> i32 {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(&args[0]).expect("replay file")).expect("json");
    let id = f["property"].as_str().unwrap();
    let profile = f["profile"].as_str().unwrap_or("checked");
    let bin = bins().into_iter().find(|(p, _)| p == profile).map(|b| b.1).unwrap_or_else(|| std::env::current_exe().unwrap().to_string_lossy().to_string());
    let tape_file = std::env::temp_dir().join(format!("pbt-replay-{}.json", std::process::id()));
    std::fs::write(&tape_file, f["tape"].to_string()).unwrap();
    let ch = Command::new(bin).args(["tape", id, "--section", f["section"].as_str().unwrap(), "--tape", tape_file.to_str().unwrap()]).spawn().unwrap();
    let st = wait_limited(ch, 5 * STUCK);
    let _ = std::fs::remove_file(&tape_file);
    if st.map_or(false, |s| s.code() == Some(0)) {
        println!("replay passes: {id} holds on this case");
        0
    } else {
        println!("VIOLATION property={id} replay={}", args[0]);
        1
    }
}

fn main() {
    // no log output of the PROJ library, no network access
    std::env::set_var("PROJ_DEBUG", "0");
    std::env::set_var("PROJ_NETWORK", "OFF");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rest = &args[1.min(args.len())..];
    let code = match args.first().map(|s| s.as_str()) {
        Some("run") => run(rest),
        Some("child") => child(rest),
        Some("single") => single(rest),
        Some("tape") => tape_cmd(rest),
        Some("replay") => replay(rest),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: pasture-pbt run|child|replay|list");
            2
        }
    };
    std::process::exit(code);
}

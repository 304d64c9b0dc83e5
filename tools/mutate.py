#!/usr/bin/env python3
"""tools/mutate.py [-j N] [-n COUNT] [-s SEED] [-l] FILE:PROP,PROP... : development helper (used by no check). Makes small
syntactic changes to non-test code of /repo's FILEs, one at a time, each in a private mount namespace with copies of /repo, /verif
and /opt/vp. Changes that compile and pass the stable tests are given to the checks of the listed properties (one build profile);
one result line per change in /tmp/mut/results.txt, those no check reported marked SURVIVED. -l only lists the changes."""
import argparse, os, random, re, shutil, subprocess, threading, queue
ap = argparse.ArgumentParser()
ap.add_argument("-j", type=int, default=3); ap.add_argument("-n", type=int, default=0); ap.add_argument("-s", type=int, default=1)
ap.add_argument("-l", action="store_true"); ap.add_argument("-g", default=""); ap.add_argument("-x", default=""); ap.add_argument("files", nargs="+")
a = ap.parse_args()
RULES = [
 (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
 (r" \+ ", [" - ", " * "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
 (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"(?<=if )!", [""]), (r"(?<=\()!(?=\w)", [""]),
 (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \| (?=[\w(])", [" & "]),
 (r"(?<![\w.#])0(?![\w.x])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])([2-9]|[1-9]\d+)(?![\w.])", ["+1", "-1"]),
 (r"(?<![\w.])\d+\.\d+", ["*2"]),
 (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"infimum", ["supremum"]), (r"supremum", ["infimum"]),
 (r"\.x\b(?!\()", [".y"]), (r"\.y\b(?!\()", [".z"]), (r"\.z\b(?!\()", [".x"]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.\.(?=[\w(])(?!=)", ["..="]), (r"\.\.=", [".."]),
 (r"\.start\b", [".end"]), (r"\.end\b", [".start"]), (r"\bis_some\(\)", ["is_none()"]), (r"\bis_none\(\)", ["is_some()"]),
 (r"\.all\(", [".any("]), (r"\.any\(", [".all("]), (r"\.offset\(\)", [".size()"]), (r"\bas usize\b", ["as u8 as usize"]),
 (r"\bas f64\b", ["as f32 as f64"]), (r"\.saturating_add\(", [".wrapping_add("]), (r"\.take\(", [".skip("]), (r"\.skip\(", [".take("]), (r"\bbreak;", ["continue;"]), (r"\bcontinue;", ["break;"]),
 (r"\breturn;", [""]), (r"min_by", ["max_by"]), (r"max_by", ["min_by"]), (r"\.len\(\)", [".len().saturating_sub(1)"]), (r"\.rev\(\)", [""]), (r"\.abs\(\)", [""]), (r"\.sqrt\(\)", [""]),
 (r"\bmin\b(?=[.,;)])", ["max"]), (r"\bmax\b(?=[.,;)])", ["min"]), (r"\bu16\b", ["u8"]), (r"\bi16\b", ["u16"]), (r"\bi8\b", ["u8"]), (r"\bf64\b", ["f32"]),
]
def mutants(f):
    lines = open("/repo/" + f).read().split("\n")
    out, test = [], False
    for i, l in enumerate(lines):
        if re.match(r"\s*#\[cfg\(test\)\]", l): test = True
        if test: continue
        s = l.strip()
        if s.startswith("//") or s.startswith("#[") or s.startswith("use ") or not s: continue
        code = re.sub(r"//.*", "", l)
        strs = [m.span() for m in re.finditer(r'"[^"]*"', code)]
        for rx, reps in RULES:
            for m in re.finditer(rx, code):
                if any(x <= m.start() < y for x, y in strs): continue
                for r in reps:
                    n = r
                    if r in ("+1", "-1"): n = str(int(m[0]) + int(r))
                    elif r == "*2": n = m[0] + " * 2.0"
                    out.append((i, code[:m.start()] + n + code[m.end():]))
        # statements in one line
        if s.endswith(";") and not re.match(r"(let|use|type|const|static|return|pub|fn|mod|impl|\}|\)|\.|break|continue)", s) and (s.count("(") == s.count(")")) and (i == 0 or lines[i-1].strip().endswith((";", "{", "}")) or lines[i-1].strip().startswith("//")):
            out.append((i, re.match(r"\s*", l)[0] + "{}"))
        if re.match(r"\s*(\} else )?if .*\{$", l) and " let " not in l:
            c = re.sub(r"if .*\{$", "if true {", l); out.append((i, c)); out.append((i, c.replace("true", "false")))
    return [(f, i, lines[i], n) for i, n in out if n != lines[i]]
todo = []
for spec in a.files:
    f, props = spec.split(":")
    ms = [m + (props,) for m in mutants(f) if (not a.g or re.search(a.g, m[2])) and not (a.x and re.search(a.x, m[2]))]
    random.Random(a.s).shuffle(ms)
    todo += ms[:a.n] if a.n else ms
done = set()
if os.path.exists("/tmp/mut/results.txt"):
    for l in open("/tmp/mut/results.txt"): done.add(tuple(l.rstrip("\n").split("\t")[1:4]))
todo = [m for m in todo if (f"{m[0]}:{m[1]+1}", m[2].strip(), m[3].strip()) not in done]
random.Random(a.s).shuffle(todo)
if a.l:
    for f, i, o, n, p in todo: print(f"{f}:{i+1}\t{o.strip()}\t{n.strip()}")
    print(len(todo)); raise SystemExit
SC = r'''
S=$1; PROPS=$2
mount --bind $S/repo /repo; mount --bind $S/verif /verif; mount --bind $S/vp /opt/vp
export CARGO_BUILD_JOBS=4
cd /repo
timeout 300 bash /opt/vp/build.sh >$S/build.log 2>&1 || { echo nocompile; exit; }
timeout 300 bash /opt/vp/test.sh $S/t.json >$S/test.log 2>&1
python3 -c "
import json,sys;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$S/t.json'))
sys.exit(any(x not in t['passed'] for x in b['stable']))" || { echo tests; exit; }
cd /verif
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= PROJ_NETWORK=OFF CARGO_TARGET_DIR=/verif/target RUSTFLAGS= CARGO_INCREMENTAL=0
unset RUST_BACKTRACE
for P in $PROPS; do [ $P = L02 ] && { timeout 900 ./check.sh L02 >$S/check.log 2>&1; rc=$?; [ $rc = 1 ] && { echo "caught L02"; exit; }; [ $rc = 0 ] || { echo "RC$rc L02"; exit; }; }; done
PROPS=$(echo $PROPS | sed 's/L02//')
[ -z "${PROPS// /}" ] && { echo SURVIVED; exit; }
timeout 400 cargo build --offline --locked --manifest-path harness/Cargo.toml --bin pasture-pbt --no-default-features --features "$(echo $PROPS | tr ' ' ,)" --profile checked >$S/hb.log 2>&1 || { echo "HARNESS-BUILD"; exit; }
export PBT_BINS="checked=/verif/target/checked/pasture-pbt"
for P in $PROPS; do
timeout 600 target/checked/pasture-pbt run $P >$S/check.log 2>&1; rc=$?
[ $rc = 1 ] && { echo "caught $P"; exit; }
[ $rc = 0 ] || { echo "RC$rc $P"; exit; }
done
echo SURVIVED
'''
open("/tmp/mut/slot.sh", "w").write(SC)
q = queue.Queue(); lock = threading.Lock()
for m in todo: q.put(m)
def worker(k):
    S = f"/tmp/mut/slot{k}"; os.makedirs(S, exist_ok=True)
    first, prev = True, None
    while not os.path.exists("/tmp/mut/stop"):
        try: f, i, old, new, props = q.get_nowait()
        except queue.Empty: return
        subprocess.run(["rsync", "-a", "--delete", "/repo/", f"{S}/repo/"], check=True)
        if first:
            subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", "target", "/verif/", f"{S}/verif/"], check=True)
            subprocess.run(["rsync", "-a", "--delete"] + (["--exclude", "ws"] if os.path.isdir(f"{S}/vp/ws") else []) + ["/opt/vp/", f"{S}/vp/"], check=True)
            first = False
        p = f"{S}/repo/{f}"; lines = open(p).read().split("\n")
        assert lines[i] == old
        if prev: os.utime(prev)  # restored with its old time: cargo would not notice
        prev = p
        lines[i] = new; open(p, "w").write("\n".join(lines))
        r = subprocess.run(["unshare", "-m", "bash", "/tmp/mut/slot.sh", S, props.replace(",", " ")], capture_output=True, text=True)
        res = (r.stdout.strip() or "NOTHING " + r.stderr[-200:]).replace("\n", " ")
        with lock: open("/tmp/mut/results.txt", "a").write(f"{res}\t{f}:{i+1}\t{old.strip()}\t{new.strip()}\n")
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]

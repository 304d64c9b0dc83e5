#!/usr/bin/env python3
"""tools/pseed.py [-j N] [-p PROPS] ID... : development helper (used by no check). Tries planted changes in parallel, each in a
private mount namespace with copies of /repo, /verif and /opt/vp, so the real trees stay untouched: demo on the unchanged tree,
stable tests, demo with the change, the property's quick check. One result line per change in /tmp/seeds.log.
With --refactor: the patches are expected to leave all given checks quiet."""
import json, os, subprocess, sys, time, shutil, threading, queue, argparse
ap = argparse.ArgumentParser(); ap.add_argument("-j", type=int, default=3); ap.add_argument("-p"); ap.add_argument("--nodemo", action="store_true"); ap.add_argument("--keep", action="store_true"); ap.add_argument("ids", nargs="+")
a = ap.parse_args()
SC = r'''
set -u
S=$1; ID=$2; PROPS=$3; NODEMO=$4
mount --bind $S/repo /repo; mount --bind $S/verif /verif; mount --bind $S/vp /opt/vp
D=$S/seed
cd /repo
out=""
if [ $NODEMO = 0 ]; then bash $D/demo.sh >$S/demo0.log 2>&1 && out="base=ok" || out="base=FAILS"; fi
find . -name '*.rs' -path '*/src/*' -exec touch {} +
git apply $D/patch.diff || { echo "does not apply"; exit; }
if [ $NODEMO = 0 ]; then
bash /opt/vp/build.sh >$S/build.log 2>&1 || out="$out BUILD-FAILS"
bash /opt/vp/test.sh $S/t.json >$S/test.log 2>&1
out="$out $(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('$S/t.json'))
print('tests', len(t['passed']), 'missing', [x for x in b['stable'] if x not in t['passed']])")"
bash $D/demo.sh >$S/demo.log 2>&1; out="$out demo=$?"
grep -q '^error' $S/demo.log && out="$out DEMO-COMPILE-ERROR"
fi
cd /verif
for p in $PROPS; do
s=$(date +%s); timeout 900 ./check.sh $p >$S/check_$p.log 2>&1; rc=$?; e=$(date +%s)
out="$out | $p rc=$rc $((e-s))s $(grep -m1 -a '^VIOLATION' $S/check_$p.log | cut -c1-60)"
done
echo "$out"
'''
open("/tmp/pseed_slot.sh", "w").write(SC)
q = queue.Queue()
for i in a.ids: q.put(i)
lock = threading.Lock()
def worker(k):
    S = f"/tmp/slot{k}"
    os.makedirs(S, exist_ok=True)
    while True:
        try: id = q.get_nowait()
        except queue.Empty: break
        d = id if os.path.isdir(id) else f"/verif/seeded/{id}"
        meta = json.load(open(f"{d}/meta.json"))
        props = a.p.replace(",", " ") if a.p else meta["property"]
        subprocess.run(["rsync", "-a", "--delete", "/repo/", f"{S}/repo/"], check=True)
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "seeded", "--exclude", "target" if os.path.isdir(f"{S}/verif/target") else "nothing", "/verif/", f"{S}/verif/"], check=True)
        subprocess.run(["rsync", "-a", "--delete"] + (["--exclude", "ws"] if os.path.isdir(f"{S}/vp/ws") else []) + ["/opt/vp/", f"{S}/vp/"], check=True)
        shutil.rmtree(f"{S}/seed", ignore_errors=True); shutil.copytree(d, f"{S}/seed")
        r = subprocess.run(["unshare", "-m", "bash", "/tmp/pseed_slot.sh", S, id, props, "1" if a.nodemo else "0"], capture_output=True, text=True)
        line = f"{os.path.basename(id.rstrip('/'))} [{props}] {r.stdout.strip()} {r.stderr.strip()[-300:]}"
        with lock:
            print(line, flush=True); open("/tmp/seeds.log", "a").write(line + "\n")
        for p in props.split(): shutil.copy(f"{S}/check_{p}.log", f"/tmp/seed_check_{os.path.basename(id)}_{p}.log") if os.path.exists(f"{S}/check_{p}.log") else None
    if not a.keep and a.j > 0: pass
ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.j)]
[t.start() for t in ts]; [t.join() for t in ts]

#!/usr/bin/env python3
"""Plants the bugs defined in tools/seeds_def.py, one at a time, in scratch
copies of /repo and /verif (bind mounted in a private namespace), confirms that
each builds, passes the stable tests and is shown by its demonstration, writes
/verif/seeded/<id>/ and reports whether the property's check catches it.

usage: seedtool.py [-j N] [-c] [ID...]      -c: only run checks of kept seeds
"""
import json, os, subprocess, sys, shutil, re
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
BASE = "9208ac8"
DEMO = """#!/bin/bash
# exit 0 when the behaviour demonstrated by demo_test.go is as it should be
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-buildvcs=false GOTOOLCHAIN=local GOPROXY=off
overlay=$(mktemp)
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$overlay"
go test -vet=off -count=1 %(flags)s -overlay "$overlay" -run 'TestSeedDemo' ./%(pkg)s
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)

INNER = r"""
set -e
mount --bind $W/repo /repo
mount --bind $W/verif /verif
cd /repo
if [ -n "$DIFF" ]; then
  git apply $DIFF
else
  chmod +x $W/seed/demo.sh
  bash /opt/vp/build.sh > $W/build0.log 2>&1
  (bash $W/seed/demo.sh > $W/demo0.log 2>&1) || { echo "DEMO-FAILS-CLEAN"; tail -c 600 $W/demo0.log; exit 3; }
  python3 $W/edit.py
  gofmt -l $(git diff --name-only) | sed 's/^/GOFMT /'
  git diff > $W/seed/patch.diff
  bash /opt/vp/build.sh > $W/build1.log 2>&1 || { echo BUILD-FAILS; tail -c 600 $W/build1.log; exit 3; }
  bash /opt/vp/test.sh $W/o.json > $W/test.log 2>&1 || true
  python3 - <<P || { echo TESTS-FAIL; exit 3; }
import json,sys
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$W/o.json'))
p=set(o.get('passed_ids',o.get('passed',[])))
m=sorted(s-p)
if m: print(len(m), m[:6])
sys.exit(1 if m else 0)
P
  if bash $W/seed/demo.sh > $W/demo1.log 2>&1; then echo DEMO-PASSES-PATCHED; exit 3; fi
  if grep -q 'build failed\|setup failed' $W/demo1.log; then echo DEMO-DOES-NOT-BUILD; tail -c 600 $W/demo1.log; exit 3; fi
fi
cd /verif
rc=0
VERIF_SEED=$SEED VERIF_TIER=quick timeout 900 ./check.py $PROP > $W/check.log 2>&1 || rc=$?
echo "CHECK $PROP rc=$rc"
grep -aE '^VIOLATION|^facet' $W/check.log | cut -c1-230 | head -4
"""

def run(s, checkonly=False, seed="1", prop=None):
    id = s["id"]; w = f"/tmp/sw/{id}.{prop or s['property']}.{seed}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(f"{w}/seed")
    sh(f"cp -a /repo {w}/repo; rsync -a --exclude .git --exclude seeded --exclude replays --exclude evidence /verif/ {w}/verif/ 2>/dev/null || (mkdir -p {w}/verif && cd /verif && tar cf - --exclude=./.git --exclude=./seeded --exclude=./replays --exclude=./evidence . | tar xf - -C {w}/verif)")
    os.makedirs(f"{w}/verif/evidence", exist_ok=True); os.makedirs(f"{w}/verif/replays", exist_ok=True)
    env = dict(os.environ, W=w, PROP=prop or s["property"], SEED=seed, DIFF="")
    if checkonly:
        env["DIFF"] = f"/tmp/sw/{id}.diff"
        shutil.copy(f"/verif/seeded/{id}/patch.diff", env["DIFF"])
    else:
        for f, old, new in s["edits"]:
            p = f"/repo/{f}"; t = open(p).read()
            if t.count(old) != 1:
                return id, False, f"EDIT {f}: old text found {t.count(old)} times"
            bl = sh(f"git -C /repo blame -s {f}").stdout.split("\n")
            # lines of the original repository that the edit removes or changes
        with open(f"{w}/edit.py", "w") as fh:
            fh.write("edits=%r\nfor f,o,n in edits:\n t=open('/repo/'+f).read(); assert t.count(o)==1; open('/repo/'+f,'w').write(t.replace(o,n))\n" % (s["edits"],))
        open(f"{w}/seed/demo.sh", "w").write(DEMO % {"pkg": s["pkg"], "flags": s.get("flags", "")})
        open(f"{w}/seed/demo_test.go", "w").write(s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{w}/seed/meta.json", "w"), indent=1)
    r = sh(f"unshare -Urm bash -c '{'. ' + w + '/inner.sh'}'", env=env) if not open(f"{w}/inner.sh", "w").write(INNER) is None else None
    out = (r.stdout + r.stderr).strip()
    ok = r.returncode == 0
    note = ""
    if ok and not checkonly:
        # which lines does the patch remove: are they all from the base?
        d = open(f"{w}/seed/patch.diff").read()
        f = None; own = 0; base = 0
        for line in d.split("\n"):
            if line.startswith("--- a/"): f = line[6:]
            m = re.match(r"@@ -(\d+)", line)
            if m: n = int(m.group(1)); continue
            if line.startswith("-") and not line.startswith("---"):
                b = sh(f"git -C /repo blame -s -L{n},{n} {f}").stdout
                if BASE in b.split(" ")[0]: base += 1
                else: own += 1
                n += 1
            elif line.startswith(" "): n += 1
        note = f"[removes {base} base, {own} own lines]"
        if base == 0: ok = False; note += " NO BASE LINE"
        if ok:
            dst = f"/verif/seeded/{id}"
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(f"{w}/seed", dst)
    shutil.rmtree(f"{w}/repo", ignore_errors=True); shutil.rmtree(f"{w}/verif", ignore_errors=True)
    return id, ok, note + " " + out

if __name__ == "__main__":
    from seeds_def import SEEDS
    args = sys.argv[1:]; j = 4; co = False; seed = "1"; prop = None
    while args and args[0].startswith("-"):
        a = args.pop(0)
        if a == "-j": j = int(args.pop(0))
        if a == "-c": co = True
        if a == "-s": seed = args.pop(0)
        if a == "-p": prop = args.pop(0)
    ids = [s["id"] for s in SEEDS]
    assert len(set(ids)) == len(ids)
    todo = [s for s in SEEDS if not args or s["id"] in args]
    if co: todo = [s for s in todo if os.path.isdir(f"/verif/seeded/{s['id']}")]
    with ThreadPoolExecutor(j) as ex:
        for id, ok, out in ex.map(lambda s: run(s, co, seed, prop), todo):
            caught = "CAUGHT" if "rc=1" in out and "VIOLATION" in out else ("missed" if "CHECK" in out else "-")
            print(f"== {id} {'KEPT' if ok else 'REJECTED'} {caught} {out}", flush=True)

#!/usr/bin/env python3
"""Runs the check of one property against the working tree of /repo.

usage: check.py ID [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.
Exit 1: it does not; a line `VIOLATION property=<id> replay=<path>` is printed.
Exit 2: the check could not decide (build or harness error).
"""
import argparse
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
SHARDS = 8
RACE = {"C09", "C10"}
JOURNAL = {"C07", "C08", "C09", "C10"}
TOOLS = {"C24"}
QUICK_LIMIT, THOROUGH_LIMIT = 780, 3600
QUICK_SCALE, QUICK_SCALE_SLOW = 8, 3
THOROUGH_SCALE = 100
FUZZ_SECONDS = 240  # for all facets of a property together, thorough tier only


class Infra(Exception):
    pass


def environment():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("VERIF_") and k not in ("VERIF_SEED", "VERIF_TIER"):
            del env[k]
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOWORK="off",
               GOFLAGS="-mod=mod -buildvcs=false", TZ="UTC", GOTRACEBACK="all")
    env.pop("GORACE", None)
    env.pop("GODEBUG", None)
    return env


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.start = time.time()
        self.env = environment()
        self.known = load_known(prop)
        self.env["VERIF_KNOWN"] = ",".join(sorted(self.known))
        self.env["VERIF_PROP"] = prop
        self.env["VERIF_SEED"] = str(seed)
        self.scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
        self.env["VERIF_SCRATCH"] = self.scratch
        self.journal = prop in JOURNAL
        self.facets, self.hashes, self.knownseen = {}, set(), {}
        self.violations = 0
        self.notes = []

    # building

    def build(self, fuzz=False):
        mod = os.path.join(self.scratch, "go.mod")
        shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(self.scratch, "go.sum"))
        self.bin = os.path.join(self.scratch, "checks.test")
        args = ["go", "test", "-c", "-modfile", mod, "-vet=off", "-o", self.bin]
        if self.prop in RACE:
            args.append("-race")
        self.go(args + ["./checks"])
        if fuzz:
            self.fuzzbin = os.path.join(self.scratch, "fuzz.test")
            self.go(["go", "test", "-c", "-fuzz", "FuzzVerif", "-modfile", mod, "-vet=off", "-o", self.fuzzbin, "./checks"])
        if self.prop in TOOLS:
            d = os.path.join(self.scratch, "bin")
            os.mkdir(d)
            self.go(["go", "build", "-modfile", mod, "-o", d + "/", "github.com/warthog618/sms/cmd/..."])
            self.env["VERIF_BIN"] = d

    def go(self, args):
        p = subprocess.run(args, cwd=HARNESS, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise Infra("build failed: %s\n%s" % (" ".join(args), p.stdout[-4000:]))

    # running

    def spawn(self, name, **extra):
        env = dict(self.env)
        env.update({k: str(v) for k, v in extra.items()})
        out = os.path.join(self.scratch, name + ".json")
        env["VERIF_OUT"] = out
        jf = os.path.join(self.scratch, name + ".journal")
        if self.journal or extra.get("VERIF_JOURNAL"):
            env["VERIF_JOURNAL"] = jf
        race = os.path.join(self.scratch, name + ".race")
        env["GORACE"] = "halt_on_error=1 exitcode=67 log_path=" + race
        log = open(os.path.join(self.scratch, name + ".log"), "w+")
        wd = os.path.join(self.scratch, name + ".d")
        os.makedirs(wd, exist_ok=True)
        p = subprocess.Popen([self.bin, "-test.run", "^TestVerif$", "-test.timeout", "0"], cwd=wd, env=env,
                             stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        p.name_, p.out_, p.jf_, p.race_, p.log_, p.extra_ = name, out, jf, race, log, extra
        return p

    def wait(self, procs, limit):
        end = time.time() + limit
        for p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for q in procs:
                    if q.poll() is None:
                        try:
                            os.killpg(q.pid, 9)
                        except OSError:
                            pass
                        q.wait()
                raise Infra("time limit of %ds reached" % limit)

    def outcome(self, p):
        """(result, failure) of an ended process."""
        p.log_.flush()
        p.log_.seek(0)
        text = p.log_.read()
        p.log_.close()
        res = None
        if os.path.exists(p.out_):
            try:
                with open(p.out_) as f:
                    res = json.load(f)
            except ValueError:
                res = None
        if p.returncode == 67:
            races = "".join(open(f).read() for f in sorted(glob.glob(p.race_ + "*")))
            if not re.search(r"(/repo/|github\.com/warthog618/sms)", races):
                raise Infra("data race outside the code under test:\n" + races[:6000])
            fl = self.journaled(p)
            fl["kind"], fl["error"] = "race", "data race\n" + races[:6000]
            return None, fl
        if res is not None and p.returncode in (0, 1, 66):
            if res.get("error"):
                raise Infra(res["error"] + "\n" + text[-3000:])
            return res, res.get("failure")
        return None, {"kind": "crash", "property": self.prop, "error": crash_text(text), "exit": p.returncode,
                      "journal": self.journaled(p), "ours": "warthog618/sms" in text or "/repo/" in text}

    def journaled(self, p):
        try:
            with open(p.jf_) as f:
                return json.load(f)
        except (OSError, ValueError):
            return {"property": self.prop, "facet": "", "case": None}

    def single(self, failure, name, repeat=1, limit="60s", wall=400):
        """Runs one case in a fresh process and returns its failure, or None."""
        path = os.path.join(self.scratch, name + ".case.json")
        with open(path, "w") as f:
            json.dump(failure, f)
        p = self.spawn(name, VERIF_REPLAY=path, VERIF_REPEAT=repeat, VERIF_CASE_LIMIT=limit)
        self.wait([p], wall)
        _, fl = self.outcome(p)
        return fl

    def confirm(self, p, fl):
        """Decides whether a failure is to be believed. Returns it, or raises Infra."""
        kind = fl.get("kind", "")
        if kind == "race":
            return fl
        if kind in ("hang", "memory"):
            again = self.single(fl, "confirm-" + p.name_, limit="120s", wall=300)
            if again is None or again.get("kind") == "crash" and again.get("exit") in (-9, 137):
                raise Infra("%s of a case was not confirmed" % kind)
            fl["error"] = again.get("error", fl["error"])
            return fl
        if kind == "crash":
            if fl["exit"] in (-9, 137):
                raise Infra("a process was killed")
            j = fl["journal"]
            if not j.get("facet"):
                extra = dict(p.extra_)
                extra["VERIF_JOURNAL"] = 1
                q = self.spawn("again-" + p.name_, **extra)
                self.wait([q], QUICK_LIMIT if self.tier == "quick" else THOROUGH_LIMIT)
                _, f2 = self.outcome(q)
                if f2 is None:
                    raise Infra("a process ended unexpectedly, but not when repeated:\n" + fl["error"])
                if f2.get("kind") != "crash":
                    return self.confirm(q, f2)
                j, fl = f2["journal"], f2
            if not j.get("facet"):
                raise Infra("a process ended before any case:\n" + fl["error"])
            j["kind"], j["error"] = "crash", fl["error"]
            again = self.single(j, "confirm-" + p.name_, repeat=20)
            if again is None and not (self.journal and fl["ours"] and re.search(r"^(panic|fatal error):", fl["error"], re.M)):
                raise Infra("a process ended unexpectedly, but not when the case is repeated:\n" + fl["error"])
            return j
        # an ordinary failure: the case is deterministic, except under concurrency
        again = self.single(fl, "confirm-" + p.name_, repeat=3)
        if again is None and not self.journal:
            self.notes.append("the failing case did not fail again in a fresh process")
        return fl

    def merge(self, res, out):
        for name, f in (res.get("facets") or {}).items():
            t = self.facets.setdefault(name, {"rule": f["rule"], "exhaustive": f["enum"], "evaluations": 0,
                                              "nontrivial": 0, "classes": {}, "samples": [], "seconds": 0})
            t["evaluations"] += f["evaluations"]
            t["nontrivial"] += f["nontrivial"]
            t["seconds"] = max(t["seconds"], round(f["ms"] / 1000, 2))
            for c, n in f.get("classes", {}).items():
                t["classes"][c] = t["classes"].get(c, 0) + n
            t["samples"] += f.get("samples") or []
        for k, w in (res.get("known") or {}).items():
            self.knownseen[k] = w
        try:
            with open(out + ".hashes") as f:
                self.hashes.update(l.strip() for l in f)
        except OSError:
            pass

    def explore(self, scale, limit):
        procs = [self.spawn("shard%d" % i, VERIF_SHARD=i, VERIF_SHARDS=SHARDS, VERIF_SCALE=scale) for i in range(SHARDS)]
        try:
            self.wait(procs, limit)
        finally:
            for p in procs:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
        failures, infra = [], None
        for p in procs:
            try:
                res, fl = self.outcome(p)
            except Infra as e:
                infra = infra or e
                continue
            if res is not None:
                self.merge(res, p.out_)
            if fl:
                failures.append((p, fl))
        failures.sort(key=lambda x: (x[1].get("kind", "") != "", len(json.dumps(x[1].get("case", "")))))
        for p, fl in failures:
            try:
                return self.confirm(p, fl)
            except Infra as e:
                infra = infra or e
        if infra:
            raise infra
        return None

    def fuzz(self, seconds):
        p = subprocess.run([self.bin, "-test.run", "^TestList$"], env=self.env, stdout=subprocess.PIPE, text=True, cwd=self.scratch)
        names = []
        for line in p.stdout.splitlines():
            f = line.split()
            if len(f) == 5 and f[0] == "FACET" and f[1] == self.prop and f[3] == "random":
                names.append(f[2])
        for n in names:
            d = os.path.join(self.scratch, "fuzz-" + n)
            os.makedirs(os.path.join(d, "out"))
            env = dict(self.env, VERIF_FACET=n, VERIF_OUT=os.path.join(d, "out"))
            t = max(10, seconds // len(names))
            try:
                p = subprocess.run([self.fuzzbin, "-test.run", "^$", "-test.fuzz", "^FuzzVerif$", "-test.fuzztime", "%ds" % t,
                                    "-test.fuzzcachedir", os.path.join(d, "cache"), "-test.parallel", str(SHARDS)], cwd=d, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t + 300)
            except subprocess.TimeoutExpired:
                raise Infra("fuzzing of %s did not end" % n)
            m = re.findall(r"execs: (\d+)", p.stdout)
            self.notes.append("coverage guided fuzzing of %s: %ss, %s executions" % (n, t, m[-1] if m else "?"))
            t = self.facets.setdefault(n, {"rule": "", "exhaustive": False, "evaluations": 0, "nontrivial": 0, "classes": {}, "samples": [], "seconds": 0})
            t["fuzz_executions"] = int(m[-1]) if m else 0
            found = sorted(glob.glob(os.path.join(d, "out", "*.json")), key=lambda f: (os.path.getsize(f), f))
            for f in found:
                fl = json.load(open(f))
                fl = fl.get("failure", fl)
                again = self.single(fl, "fuzzed-" + n, limit="120s")
                if again:
                    fl["error"] = again.get("error", fl.get("error"))
                    return fl
            if p.returncode and not found and "context deadline exceeded" not in p.stdout:
                raise Infra("fuzzing of %s failed:\n%s" % (n, p.stdout[-3000:]))
        return None

    # reporting

    def report(self, fl):
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        fl = {k: fl[k] for k in ("property", "facet", "error", "case", "kind") if k in fl}
        h = hashlib.sha256(json.dumps([fl.get("facet"), fl.get("case")], sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(d, "%s-%s-%s.json" % (self.prop, fl.get("facet", ""), h))
        with open(path, "w") as f:
            json.dump(fl, f, indent=1)
            f.write("\n")
        self.violations = 1
        print("facet %s: %s" % (fl.get("facet"), fl.get("error")))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))

    def evidence(self):
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        order = sorted(self.facets)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": sum(self.facets[n]["evaluations"] for n in order),
                "distinct_nontrivial": len(self.hashes),
                "rule": " | ".join("%s: %s" % (n, self.facets[n]["rule"]) for n in order),
                "samples": [{"facet": n, "case": s} for n in order for s in self.facets[n]["samples"][:2]],
                "facets": {n: {k: v for k, v in self.facets[n].items() if k not in ("samples", "rule")} for n in order},
            },
            "assumptions": ["the reference models in harness/ref state 3GPP TS 23.038 and 23.040 correctly"],
            "wall_s": round(time.time() - self.start, 2),
            "violations": self.violations,
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        if self.knownseen:
            ev["coverage"]["known_findings"] = self.knownseen
        tmp = os.path.join(d, "." + self.prop + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        os.replace(tmp, os.path.join(d, self.prop + ".json"))

    def run(self):
        thorough = self.tier == "thorough"
        self.build(fuzz=thorough and self.prop not in RACE)
        scale = THOROUGH_SCALE if thorough else QUICK_SCALE_SLOW if self.prop in RACE | TOOLS else QUICK_SCALE
        fl = self.explore(scale, THOROUGH_LIMIT if thorough else QUICK_LIMIT)
        if fl is None and thorough and self.prop not in RACE:
            fl = self.fuzz(FUZZ_SECONDS)
        for k in sorted(self.knownseen):
            if k not in self.known:
                fl = fl or {"property": self.prop, "facet": "known", "error": self.knownseen[k], "case": k}
            else:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.knownseen[k]))
        if fl:
            self.report(fl)
        self.evidence()
        return 1 if fl else 0

    def replay(self, path):
        self.build()
        with open(path) as f:
            fl = json.load(f)
        again = self.single(fl, "replay", repeat=50 if self.journal else 1, limit="120s")
        if again is None:
            print("the case passes")
            return 0
        print("facet %s: %s" % (fl.get("facet"), again.get("error")))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        return 1


def crash_text(text):
    m = re.search(r"^(panic:|fatal error:|runtime: )", text, re.M)
    return text[m.start():m.start() + 4000] if m else text[-4000:]


def load_known(prop):
    """The known findings that are open for a property: id -> what."""
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        k = json.load(f)
    return {e["id"]: e["what"] for e in k["open"] if prop in e["properties"]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    c = Check(a.prop, a.tier, abs(seed))
    try:
        return c.replay(os.path.abspath(a.replay)) if a.replay else c.run()
    except Infra as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

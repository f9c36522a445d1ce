#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--scale X] [--check NAME] [--replay FILE] [--keep]

Builds the harness against /repo's working tree, runs the generated-input search of one
property on all cores and writes evidence/ID.json.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Other: error."""
import argparse, concurrent.futures, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B

WORKERS = 8


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def limits(race, limit_gb=16):
    def f():
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (limit_gb << 30, limit_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


class Worker:
    def __init__(self, exe, args, scratch, env, race, timeout):
        self.exe, self.args, self.scratch, self.env, self.race, self.timeout = exe, args, scratch, env, race, timeout
        os.makedirs(scratch, exist_ok=True)
        self.out = os.path.join(scratch, "result.out")

    def run(self):
        cmd = [self.exe] + self.args + ["-scratch", self.scratch, "-out", self.out]
        log = os.path.join(self.scratch, "stderr.txt")
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=self.env, cwd=self.scratch,
                                 preexec_fn=limits(self.race), start_new_session=True)
            try:
                self.rc = p.wait(timeout=self.timeout)
            except subprocess.TimeoutExpired:
                self.rc = "timeout"
            try:
                os.killpg(p.pid, signal.SIGKILL)  # also children left behind
            except ProcessLookupError:
                pass
            p.wait()
        with open(log, "rb") as lf:
            self.log = lf.read()[:20000].decode("utf-8", "replace")
        self.result = None
        if os.path.exists(self.out):
            try:
                with open(self.out) as f:
                    self.result = json.load(f)
            except ValueError:
                pass
        return self


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--scale", type=float)
    ap.add_argument("--check", default="")
    ap.add_argument("--fuzz", type=int, default=0, help="seconds of coverage-guided search per check (thorough: 120)")
    ap.add_argument("--replay", default="")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.id not in B.PROPS:
        print("unknown property", a.id, file=sys.stderr)
        return 2
    spec = B.PROPS[a.id]
    if a.scale is None:  # the counts stated with the checks, times "more" for the fast ones
        a.scale = spec.get("more", 1) if a.tier == "quick" else 1
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    try:
        return run(a, spec, scratch, t0)
    except B.BuildError as e:
        print("BUILD FAILED\n" + str(e), file=sys.stderr)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)


def run(a, spec, scratch, t0):
    env = B.go_env()
    env["GORACE"] = "halt_on_error=1 exitcode=66"
    env["GOTRACEBACK"] = "single"
    env["GOMAXPROCS"] = str(spec.get("procs", 2))
    env["TMPDIR"] = scratch
    env.update(B.prepare(spec, scratch))
    exe = os.path.join(scratch, "bin", spec["bin"])
    race = spec.get("race", False)
    tbuild = time.time() - t0
    known = B.known_findings(a.id)

    # the race detector makes everything several times as slow
    cpucap = ["-cpucap", "240" if race else "60"]

    def replay(f, i):
        w = Worker(exe, ["-replay", f] + cpucap, os.path.join(scratch, "replay%s" % i), env, race, 300)
        return w.run()

    if a.replay:
        w = replay(os.path.abspath(a.replay), 0)
        print(w.log)
        if w.rc == 1 or w.rc in (4, 66) or (w.rc not in (0, 2, "timeout")):
            print("VIOLATION property=%s replay=%s" % (a.id, os.path.abspath(a.replay)))
            return 1
        return w.rc if isinstance(w.rc, int) else 2

    # saved cases of repaired defects first
    cdir = os.path.join(HERE, "corpus", a.id)
    saved = sorted(os.path.join(cdir, f) for f in os.listdir(cdir)) if os.path.isdir(cdir) and not a.check else []
    bad = []
    with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
        for f, w in zip(saved, ex.map(lambda x: replay(x[1], "c%d" % x[0]), enumerate(saved))):
            if w.rc == 0:
                continue
            if w.rc in (2, "timeout"):
                w2 = replay(f, "again")
                if w2.rc == 0:
                    continue
                print(w2.log, file=sys.stderr)
                if w2.rc in (2, "timeout"):
                    return 2
            bad.append((f, w.log))
    results, failures, errors = [], [], []
    if not bad:
        jobs = []
        for i in range(WORKERS):
            args = ["-prop", a.id, "-seed", str(seed64(a.seed)), "-worker", str(i), "-workers", str(WORKERS),
                    "-tier", a.tier, "-scale", str(a.scale)] + cpucap
            if a.check:
                args += ["-check", a.check]
            jobs.append(Worker(exe, args, os.path.join(scratch, "w%d" % i), env, race, 840 if a.tier == "quick" else 7200))
        with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
            done = list(ex.map(lambda j: j.run(), jobs))
        for w in done:
            r = w.result
            if r:
                results.append(r)
            f = r and r.get("failure")
            if w.rc == 0:
                continue
            if w.rc == 1 and f:
                failures.append((f, w.log, False))
            elif w.rc == 4 and f:
                failures.append((f, w.log, True))
            elif w.rc == "timeout":
                errors.append("worker timed out")
            elif w.rc == 2 and r and r.get("infra"):
                errors.append(r["infra"])
            else:
                # crash: the case that was running is on disk
                cur = os.path.join(w.scratch, "current.json")
                if os.path.exists(cur):
                    with open(cur) as fh:
                        f = json.load(fh)
                    f["message"] = "worker died (%s): %s" % (w.rc, w.log[:3000])
                    race_report = w.rc == 66 and "DATA RACE" in w.log
                    failures.append((f, w.log, not race_report))
                else:
                    errors.append("worker died (%s): %s" % (w.rc, w.log[:2000]))

    guided = {}
    if not bad and not failures and not errors and (a.fuzz or (a.tier == "thorough" and B.guided(spec))):
        for name in sorted({n for r in results for n in r["subs"]}):
            g, fs, es = guided_search(a, spec, scratch, env, name, a.fuzz or 120)
            guided[name] = g
            failures += fs
            errors += es
            if fs or es:
                break

    rdir = os.path.join(HERE, "replays")
    violation = None
    knownhit = []
    for f, log, confirm in failures:
        os.makedirs(rdir, exist_ok=True)
        name = "%s-%s-%s.json" % (a.id, f["check"], hashlib.sha1(json.dumps(f["case"], sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(rdir, name)
        with open(path, "w") as fh:
            json.dump(f, fh, ensure_ascii=False, indent=1)
        k = B.match_known(known, f)
        if k:
            knownhit.append(k)
            continue
        if confirm:
            rcs = []
            for i in range(2):
                w = replay(path, "confirm%d" % i)
                rcs.append(w.rc)
                if w.rc not in (0, 2, "timeout"):
                    break
            if rcs[-1] in (0, 2, "timeout"):
                errors.append("not confirmed alone (%s): %s" % (rcs, f["message"][:2000]))
                continue
        if violation is None or len(json.dumps(f["case"])) < len(json.dumps(violation[1]["case"])):
            violation = (path, f)
    for f, log in bad:
        with open(f) as fh:
            violation = (f, json.load(fh))
            violation[1]["message"] = log

    if not a.no_evidence and not a.check:
        evidence(a, results, guided, saved, time.time() - t0, tbuild, 1 if violation else 0)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
    if violation:
        path, f = violation
        print("property %s, check %s (%s)\n%s" % (a.id, f.get("check"), f.get("kind"), f.get("message", "")[:4000]))
        print("case: %s" % json.dumps(f["case"], ensure_ascii=False)[:3000])
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        return 1
    if errors:
        for e in errors:
            print("ERROR", e, file=sys.stderr)
        return 2
    n = sum(s["evaluations"] for r in results for s in r["subs"].values())
    print("OK %s: %d cases (%s, seed %d), %d saved cases, %.1f s (build %.1f s)" % (a.id, n, a.tier, a.seed, len(saved), time.time() - t0, tbuild))
    return 0


def seed64(n):
    h = int.from_bytes(hashlib.sha256(b"verif%d" % n).digest()[:8], "big") >> 1
    return h or 1


def guided_search(a, spec, scratch, env, name, seconds):
    """Coverage-guided search (Go's fuzzer) over what one check's generator draws from."""
    exe = os.path.join(scratch, "bin", spec["bin"] + ".test")
    if not os.path.exists(exe):
        B.go_fuzz_build("./cmd/" + spec["bin"], exe, scratch)
    cwd = os.path.join(scratch, "guided-" + name)
    d, cache = os.path.join(cwd, "d"), os.path.join(cwd, "cache")
    os.makedirs(d)
    os.makedirs(cache)
    e = dict(env)
    e.update({"VERIF_FUZZ": a.id + "/" + name, "VERIF_FUZZ_DIR": d})
    cmd = [exe, "-test.run=^$", "-test.fuzz=^FuzzCheck$", "-test.fuzzcachedir=" + cache, "-test.fuzztime=%ds" % seconds,
           "-test.fuzzminimizetime=5x", "-test.parallel=%d" % WORKERS, "-test.timeout=0"]
    log = os.path.join(cwd, "log")
    with open(log, "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=cwd, preexec_fn=limits(True), start_new_session=True)
        try:
            rc = p.wait(timeout=seconds + 600)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    text = open(log, "rb").read().decode("utf-8", "replace")
    seen, fs, es = set(), [], []
    for w in sorted(os.listdir(d)):
        for f in os.listdir(os.path.join(d, w)):
            path = os.path.join(d, w, f)
            if f == "nontrivial":
                b = open(path, "rb").read()
                seen.update(b[i:i + 8] for i in range(0, len(b) - 7, 8))
            elif f.startswith("failure"):
                fs.append((json.load(open(path)), text[-3000:], True))
            elif f == "result.json":  # the watchdog
                r = json.load(open(path))
                if r.get("failure"):
                    fs.append((r["failure"], text[-3000:], True))
            elif f == "infra":
                es.append(open(path).read())
    if rc != 0 and not fs and not es:
        for w in sorted(os.listdir(d)):  # a worker died: the cases that were running
            path = os.path.join(d, w, "current.json")
            if rc != "timeout" and os.path.exists(path):
                f = json.load(open(path))
                f["message"] = text[-3000:]
                fs.append((f, text[-3000:], True))
        if not fs:
            es.append("guided search of %s ended with %s: %s" % (name, rc, text[-2000:]))
    fs.sort(key=lambda f: len(json.dumps(f[0]["case"])))
    execs = interesting = 0
    for m in re.finditer(r"execs: (\d+) .*?new interesting: (\d+)", text):
        execs, interesting = int(m.group(1)), int(m.group(2))
    return ({"executions": execs, "new_coverage_inputs": interesting, "distinct_nontrivial": len(seen), "seconds": seconds}, fs[:3], es)


def evidence(a, results, guided, saved, wall, tbuild, violations):
    ev, classes, rules, samples, seen = 0, {}, {}, [], set()
    per = {}
    for r in results:
        for name, s in r["subs"].items():
            ev += s["evaluations"]
            d = per.setdefault(name, {"evaluations": 0, "distinct_nontrivial": set(), "classes": {}})
            d["evaluations"] += s["evaluations"]
            d["max_cpu_s"] = max(d.get("max_cpu_s", 0), round(s["max_cpu"], 2))
            for h in s["nontrivial"] or []:
                seen.add((name, h))
                d["distinct_nontrivial"].add(h)
            for k, v in (s["classes"] or {}).items():
                d["classes"][k] = d["classes"].get(k, 0) + v
            rules[name] = s["rule"]
            if s["samples"] and sum(1 for x in samples if x["check"] == name) < 2:
                samples.append({"check": name, "case": s["samples"][0]})
    for name, g in guided.items():
        ev += g["executions"]
        per[name]["coverage_guided"] = g
    for d in per.values():
        d["distinct_nontrivial"] = len(d["distinct_nontrivial"])
    doc = {
        "property": a.id, "tier": a.tier, "seed": a.seed, "level": B.PROPS[a.id].get("level", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(seen),
            "rule": "; ".join("%s: %s" % kv for kv in sorted(rules.items())),
            "samples": samples, "checks": per, "saved_cases_replayed": len(saved),
        },
        "assumptions": B.PROPS[a.id].get("assumptions", []),
        "wall_s": round(wall, 2), "violations": violations,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % a.id)
    with open(tmp, "w") as f:
        json.dump(doc, f, ensure_ascii=False, indent=1)
    os.replace(tmp, os.path.join(d, a.id + ".json"))


if __name__ == "__main__":
    sys.exit(main())

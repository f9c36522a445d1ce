"""What each property needs built, and how."""
import json, os, shutil, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class BuildError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update({"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off", "GOSUMDB": "off",
              "GONOSUMDB": "*", "GONOSUMCHECK": "1"})
    return e


def _run(cmd, cwd, env=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s (in %s): exit %d\n%s" % (" ".join(cmd), cwd, p.returncode, p.stdout[-6000:]))
    return p.stdout


def go_build(pkg, out, scratch, race=False):
    """Builds a harness command; go.mod and go.sum are scratch copies so that nothing is rewritten."""
    mod = os.path.join(scratch, "gomod")
    os.makedirs(mod, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HERE, "harness", f), os.path.join(mod, f))
    cmd = ["go", "build", "-buildvcs=false", "-modfile", os.path.join(mod, "go.mod"), "-o", out]
    if race:
        cmd.append("-race")
    _run(cmd + [pkg], os.path.join(HERE, "harness"), go_env())


def go_fuzz_build(pkg, out, scratch):
    """Builds a harness command's fuzz target, everything instrumented for coverage."""
    _run(["go", "test", "-c", "-buildvcs=false", "-fuzz=FuzzCheck", "-modfile", os.path.join(scratch, "gomod", "go.mod"), "-o", out, pkg],
         os.path.join(HERE, "harness"), go_env())


def guided(spec):
    """Coverage-guided search runs where the code under test is in the process and not under the race detector."""
    return not (spec.get("race") or spec.get("drivers") or spec.get("repo_cmds"))


def repo_build(pkg, out, scratch):
    """Builds a command of /repo itself."""
    mod = os.path.join(scratch, "repomod")
    os.makedirs(mod, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(mod, f))
    _run(["go", "build", "-buildvcs=false", "-modfile", os.path.join(mod, "go.mod"), "-o", out, pkg], REPO, go_env())


def sources(d, ext):
    return sorted(os.path.join(p, f) for p, _, fs in os.walk(d) for f in fs if f.endswith(ext))


def java_driver(scratch):
    """Compiles the Java library with the driver and a stand-in for gson."""
    out = os.path.join(scratch, "java")
    export = ["--add-exports", "java.base/sun.net.util=ALL-UNNAMED"]
    _run(["javac", "-J-Xmx512m", "-nowarn", "-encoding", "UTF-8"] + export + ["-d", out] +
         sources(os.path.join(REPO, "java/src/main/java"), ".java") + sources(os.path.join(HERE, "java"), ".java"), scratch, go_env())
    return ["java", "-Xmx512m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Dfile.encoding=ISO-8859-1"] + export + ["-cp", out, "Driver"], {}


def rust_driver(scratch):
    """Compiles the Rust library with the driver."""
    e = go_env()
    out = os.path.join(scratch, "rust")
    e["CARGO_TARGET_DIR"] = out
    e["CARGO_NET_OFFLINE"] = "true"
    _run(["cargo", "build", "--offline", "--locked", "--release", "--quiet"], os.path.join(HERE, "rust"), e)
    return [os.path.join(out, "release", "driver")], {"VERIF_CMD_RUSTQUERY": os.path.join(out, "release", "query")}


def prepare(spec, scratch):
    """Builds everything the property needs; returns extra environment for the workers."""
    bindir = os.path.join(scratch, "bin")
    os.makedirs(bindir, exist_ok=True)
    env = {}
    go_build("./cmd/" + spec["bin"], os.path.join(bindir, spec["bin"]), scratch, spec.get("race", False))
    for c in spec.get("repo_cmds", []):
        out = os.path.join(bindir, "repo-" + c)
        repo_build("./cmd/" + c, out, scratch)
        env["VERIF_CMD_" + c.upper()] = out
    for d in spec.get("drivers", []):
        cmd, more = {"java": java_driver, "rust": rust_driver}[d](scratch)
        env["VERIF_DRIVER_" + d.upper()] = json.dumps(cmd)
        env.update(more)
    return env


CORE = {"bin": "core"}
IPNET = {"bin": "ipnet"}
PROPS = {
    "Q01": dict(CORE, more=1.5),
    "Q02": dict(CORE),
    "Q03": dict(CORE),
    "Q04": dict(CORE, race=True, procs=4),
    "Q05": dict(CORE, more=1.5),
    "Q06": dict(CORE),
    "Q07": dict(CORE),
    "M02": dict(CORE),
    "Q08": dict(CORE, more=4),
    "Q09": dict(CORE, more=3),
    "Q10": dict(CORE, more=4),
    "Q11": dict(CORE, more=4),
    "C01": dict(CORE, race=True, procs=4, technique="property-based testing (rapid) of concurrent conversions, differential against the same conversions alone, with the race detector"),
    "M01": dict(CORE),
    "V01": dict(CORE),
    "D01": dict(CORE),
    "M03": dict(CORE, more=2),
    "F01": dict(CORE, more=2),
    "F02": dict(CORE),
    "F03": dict(CORE),
    "F04": dict(CORE),
    "F05": dict(CORE, more=2),
    "F06": dict(CORE),
    "F07": dict(CORE, more=2),
    "F08": dict(CORE),
    "R01": dict(CORE, more=4),
    "O07": dict(CORE),
    "O01": dict(CORE, more=3),
    "O02": dict(CORE, more=3),
    "O03": dict(CORE, more=5),
    "O04": dict(CORE, more=3),
    "O05": dict(CORE),
    "O06": dict(CORE),
    "X01": dict(CORE, repo_cmds=["converter"], technique="property-based testing (rapid) of the built command against a reference model of the pipeline"),
    "X02": dict(CORE, repo_cmds=["server", "simple"], technique="property-based testing (rapid) of the built commands, sequences of requests against a reference model"),
    "X06": dict(CORE, repo_cmds=["converter", "server", "simple"], technique="property-based testing (rapid) of the built commands with unusable files, against the files and the library's errors"),
    "X03": dict(CORE, drivers=["java"], technique="property-based testing (rapid) of the Java library through a driver process, against a reference model"),
    "X04": dict(CORE, drivers=["rust"], technique="property-based testing (rapid) of the Rust library through a driver process, against a reference model"),
    "X05": dict(CORE, drivers=["java", "rust"], technique="structured fuzzing (rapid) of the Java and Rust libraries through driver processes"),
    "N01": dict(IPNET, more=4),
    "N02": dict(IPNET, more=3),
    "N03": dict(IPNET),
}


def known_findings(pid):
    """Recorded (unrepaired) defects: lines 'known: property=ID check=NAME case=SHA1 what=...'."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("known: property=%s " % pid):
                d = {}
                rest = line[len("known: "):].strip()
                head, _, what = rest.partition(" what=")
                for w in head.split():
                    k, _, v = w.partition("=")
                    d[k] = v
                d["what"] = what
                out.append(d)
    return out


def match_known(known, f):
    import hashlib
    h = hashlib.sha1(json.dumps(f["case"], sort_keys=True).encode()).hexdigest()
    for k in known:
        if k.get("check") == f["check"] and k.get("case") == h:
            return k
    return None

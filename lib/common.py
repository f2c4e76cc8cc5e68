"""Running tools: cargo/rustc, TLC, the helper that calls the library; reporting."""
import glob
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XDR_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)
T0 = time.time()


class ToolError(Exception):
    """The check could not be carried out: exit code 2."""


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def rng(*salt):
    return random.Random("%d|%s" % (seed(), "|".join(str(s) for s in salt)))


_scratch = None


def scratch():
    """A directory of this run's own, removed at exit."""
    global _scratch
    if _scratch is None:
        os.makedirs(BUILD, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="run.", dir=BUILD)
        import atexit
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def scratch_dir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


# ---------------------------------------------------------------------------
# cargo / rustc

def cargo_env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    return e


def cargo_build(crate, *args):
    """Builds a crate; returns (executables by target name, rlibs by crate name)."""
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(crate, "Cargo.toml"),
           "--message-format=json-render-diagnostics"] + list(args)
    p = subprocess.run(cmd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800)
    if p.returncode:
        raise ToolError("building %s failed:\n%s" % (crate, p.stderr.decode()[-3000:]))
    exes, libs = {}, {}
    for line in p.stdout.decode().splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            name = m["target"]["name"]
            if m.get("executable"):
                exes[name] = m["executable"]
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    libs[name.replace("-", "_")] = f
    return exes, libs


_gen = None


def build_gen():
    global _gen
    if _gen is None:
        log("building the library and its driver")
        exes, libs = cargo_build(os.path.join(VERIF, "harness", "gen"))
        _gen = (exes["xdrgen"], libs)
        log("built")
    return _gen


def rustc(src, out, extra=(), edition="2021", timeout=300):
    _, libs = build_gen()
    cmd = ["rustc", "--edition", edition, src, "-o", out, "-L", "dependency=" + os.path.join(TARGET, "debug", "deps"),
           "-Awarnings", "-Cdebuginfo=0"]
    for c in ("fastxdr", "bytes", "thiserror"):
        cmd += ["--extern", "%s=%s" % (c, libs[c])]
    p = subprocess.run(cmd + list(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       env=cargo_env(), cwd=scratch())
    return p.returncode, p.stdout.decode(errors="replace")


def pmap(f, xs, n=None):
    with ThreadPoolExecutor(n or CORES) as ex:
        return list(ex.map(f, xs))


def later(f, *args):
    """Starts f(*args); the result is a function that waits for its value."""
    ex = ThreadPoolExecutor(1)
    job = ex.submit(f, *args)
    ex.shutdown(wait=False)
    return job.result


# ---------------------------------------------------------------------------
# a line-in line-out child with a watchdog

def watched(cmd, stdin=None, quiet_s=30, env=None, cwd=None, total_s=None):
    """Runs cmd; returns (lines of stdout, stderr tail, "ok"|"crash"|"hang").
    hang: nothing came out for quiet_s seconds."""
    err = tempfile.TemporaryFile(dir=scratch())
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=err, env=env, cwd=cwd or scratch(),
                         start_new_session=True)
    last = [time.time()]
    lines = []

    def feed():
        try:
            p.stdin.write(stdin)
            p.stdin.close()
        except (BrokenPipeError, OSError):
            pass

    def read():
        for l in p.stdout:
            lines.append(l)
            last[0] = time.time()
    th = threading.Thread(target=read, daemon=True)
    th.start()
    if stdin is not None:
        threading.Thread(target=feed, daemon=True).start()
    state = "ok"
    while True:
        try:
            p.wait(timeout=0.2 if time.time() - last[0] > 1 else 0.02)
            break
        except subprocess.TimeoutExpired:
            if time.time() - last[0] > quiet_s:
                state = "hang"
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
    th.join()
    if state == "ok" and p.returncode != 0:
        state = "crash"
    err.seek(0)
    tail = err.read()[-4000:].decode(errors="replace")
    err.close()
    return [l.decode() for l in lines], tail, state


def run_gen(jobs, quiet_s=30):
    """Runs the library on jobs (dicts with id and text).  A job that takes the
    process down gets gen = ["crash"] or ["hang"]."""
    exe, _ = build_gen()
    recs = {}
    todo = list(jobs)

    def chunk(js):
        res = {}
        while js:
            data = "".join(json.dumps(j) + "\n" for j in js).encode()
            lines, tail, state = watched([exe], data, quiet_s)
            for l in lines:
                r = json.loads(l)
                res[r["id"]] = r
            rest = [j for j in js if j["id"] not in res]
            if not rest:
                break
            if state == "ok":
                raise ToolError("the driver stopped early: " + tail)
            bad = rest[0]
            res[bad["id"]] = {"id": bad["id"], "gen": [state, tail[-300:]], "ast": [state, tail[-300:]]}
            js = rest[1:]
        return res
    k = max(1, min(CORES, len(todo) // 8))
    for r in pmap(chunk, [todo[i::k] for i in range(k)]):
        recs.update(r)
    return recs


# ---------------------------------------------------------------------------
# TLC

class TlcResult:
    def __init__(self, lines, states, distinct, wall, out):
        self.lines, self.states, self.distinct, self.wall, self.out = lines, states, distinct, wall, out


def tlc(module, cfg=None, env=None, prefixes=("V|",), workers=None, timeout=800, xmx="6g", extra=(), expect_ok=True):
    """Runs TLC on spec/<module>.tla; returns the printed values with one of the
    given prefixes, decoded from JSON."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss512m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + meta, "-cp", TLAJARS,
           "tlc2.TLC", "-workers", str(workers or CORES), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *extra, os.path.join(SPEC, module + ".tla")]
    keep = os.environ.get("XDR_COVERAGE")      # a directory for TLC's coverage reports (bin/coverage.py)
    if keep:
        cmd[-1:-1] = ["-coverage", "1"]
    t = time.time()
    outp = os.path.join(meta, "out.txt")
    with open(outp, "wb") as f:
        try:
            p = subprocess.run(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=meta)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s took more than %d s" % (module, timeout))
    found = []
    states = distinct = 0
    other = []
    with open(outp, encoding="utf-8", errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                for pre in prefixes:
                    if line.startswith('"' + pre):
                        s = json.loads(line)          # a TLA+ string literal
                        found.append((pre, json.loads(s[len(pre):])))
                        break
                continue
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                states, distinct = int(m.group(1)), int(m.group(2))
            other.append(line)
    shutil.rmtree(meta, ignore_errors=True)
    text = "".join(other)
    if keep:
        with open(tempfile.mkstemp(prefix=module + "-", suffix=".txt", dir=keep)[1], "w") as f:
            f.write(text)
    if expect_ok and (p.returncode != 0 or "No error has been found" not in text):
        at = text.find("Error:")
        raise ToolError("TLC on %s (exit %d):\n%s\n...\n%s" % (module, p.returncode, text[max(0, at):at + 2500], text[-1500:]))
    r = TlcResult(found, states, distinct, time.time() - t, text)
    r.code = p.returncode
    return r


def ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    return path


# ---------------------------------------------------------------------------
# reporting

def known_findings():
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out[m.group(1), m.group(2)] = m.group(3)
    return out


class Report:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.violations = []
        self.known = []
        self.cov = {}
        self.assumptions = []

    def violation(self, what, data):
        """data: whatever reproduces it"""
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        blob = json.dumps({"property": self.prop, "what": what, "data": data}, indent=1, default=str)
        path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(blob.encode()).hexdigest()[:10]))
        if len(self.violations) < 20:
            with open(path, "w") as f:
                f.write(blob)
        self.violations.append((what, path))

    def known_finding(self, key, what="", data=None):
        """Something fails the way the finding called key describes: a
        violation unless the file of known findings lists it."""
        text = known_findings().get((self.prop, key))
        if text is None:
            self.violation("%s: %s" % (key, what), data)
        elif text not in self.known:
            self.known.append(text)

    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        ev = {"property": self.prop, "tier": tier(), "seed": seed(), "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, path in self.violations[:10]:
            print("# " + what.replace("\n", " ")[:400])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()
        return 1 if self.violations else 0

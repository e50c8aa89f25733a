"""Shared machinery of the checks: build the code under test, run TLC, run the
real code in worker processes, compare, and report."""
import ast
import concurrent.futures
import hashlib
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import threading
import time
import queue
from fractions import Fraction
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"
CACHE = ROOT / ".cache"
OUT = ROOT / "out"
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")


class HarnessError(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class BuildBroken(Exception):
    """The code under test does not build or import any more."""


# ---------------------------------------------------------------- building

def _extensions():
    tree = ast.parse((REPO / "setup.py").read_text())
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "Extension":
            args = dict(zip(("name", "sources"), node.args))
            args.update((k.arg, k.value) for k in node.keywords)
            yield ast.literal_eval(args["name"]), ast.literal_eval(args["sources"])


def _build_one(name, sources, dest):
    module = name.rpartition(".")[2]
    work = Path(tempfile.mkdtemp(prefix="vf2py-"))
    try:
        cmd = [PY, "-m", "numpy.f2py", "-c", "--backend", "meson", "--build-dir", str(work / "meson")]
        cmd += ["-I" + str((REPO / s).parent) for s in sources]
        cmd += ["-m", module] + [str(REPO / s) for s in sources]
        env = dict(os.environ, PATH="/opt/venv/bin:" + os.environ.get("PATH", "/usr/bin:/bin"), HOME=str(work))
        run = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors="replace", env=env)
        built = work / (module + SUFFIX)
        if run.returncode or not built.exists():
            raise BuildBroken("extension %s does not build:\n%s" % (name, run.stdout[-2000:]))
        shutil.copy(built, dest / (module + SUFFIX))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def build():
    """A private copy of the package as it is in the working tree of /repo, with its
    Fortran extensions compiled from the current sources.  Returns the directory to
    put on PYTHONPATH."""
    files = sorted(p for p in (REPO / "magpie").rglob("*")
                   if p.is_file() and not p.name.endswith(SUFFIX) and "__pycache__" not in p.parts)
    fort = hashlib.sha256(sys.version.encode())
    full = hashlib.sha256()
    for p in [REPO / "setup.py"] + files:
        data = p.read_bytes()
        tag = str(p.relative_to(REPO)).encode() + b"\0" + data
        full.update(tag)
        if p.suffix.lower() in (".f90", ".f", ".f95") or p.name == "setup.py":
            fort.update(tag)
    ext = CACHE / ("ext-" + fort.hexdigest()[:20])
    if not (ext / "done").exists():
        CACHE.mkdir(exist_ok=True)
        tmp = Path(tempfile.mkdtemp(prefix="ext-", dir=CACHE))
        with concurrent.futures.ThreadPoolExecutor(4) as pool:
            for f in [pool.submit(_build_one, n, s, tmp) for n, s in _extensions()]:
                f.result()
        (tmp / "done").write_text("")
        try:
            tmp.rename(ext)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    target = Path(tempfile.mkdtemp(prefix="vmagpie-"))
    for p in files:
        d = target / p.relative_to(REPO)
        d.parent.mkdir(parents=True, exist_ok=True)
        shutil.copy(p, d)
    for so in ext.glob("*" + SUFFIX):
        shutil.copy(so, target / "magpie" / "src" / so.name)
    return target


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.records, self.states, self.distinct, self.depth, self.text = [], 0, 0, 0, ""


def tlc(module, env=None, cfg=None, workers=4, timeout=800, heap="3g", extra=()):
    """Runs TLC on spec/<module>.tla.  Records printed with the '@@' prefix come back
    decoded.  Any error TLC reports is an error of the specification."""
    meta = Path(tempfile.mkdtemp(prefix="vtlc-"))
    try:
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -Djava.io.tmpdir=%s" % (heap, meta)
        for k, v in (env or {}).items():
            e[k] = str(v)
        cmd = ["tlc", "-config", cfg or (module + ".cfg"), "-workers", str(workers), "-deadlock",
               "-noGenerateSpecTE", "-metadir", str(meta / "m"), *extra, module + ".tla"]
        p = subprocess.Popen(cmd, cwd=ROOT / "spec", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             text=True, errors="replace", start_new_session=True)
        try:
            text, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise HarnessError("TLC on %s ran out of time" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    rest = []
    for line in text.splitlines():
        if line.startswith('"@@'):
            r.records.append(json.loads(json.loads(line)[2:]))
        elif not line.startswith(("Parsing file", "Semantic proc", "Linting")):
            rest.append(line)
    r.text = "\n".join(rest)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.text)
    if m:
        r.states, r.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r"depth of the complete state graph search is (\d+)", r.text)
    if m:
        r.depth = int(m.group(1))
    ok = "No error has been found" in r.text or ("-simulate" in extra and "Error:" not in r.text)
    if p.returncode != 0 or not ok:
        at = max(0, r.text.find("Error:"))
        raise HarnessError("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, r.text[at:at + 3000]))
    return r


# ---------------------------------------------------------------- workers

HANGS = 4       # calls that hang are waited for this often


def _worker(target, driver, cases, timeout, results, base, env, hung):
    """Runs cases in one worker process; restarts it after a crash or hang."""
    i = 0
    while i < len(cases):
        if len(hung) >= HANGS:
            results[base + i] = {"exc": "Crash", "msg": "not run: other calls gave no answer"}
            i += 1
            continue
        work = Path(tempfile.mkdtemp(prefix="vwork-"))
        try:
            src = work / "cases.json"
            src.write_text(json.dumps(cases[i:]))
            e = dict(os.environ, PYTHONPATH="%s:%s" % (target, ROOT / "drivers"), PYTHONDONTWRITEBYTECODE="1",
                     MPLBACKEND="Agg", HOME=str(work), MPLCONFIGDIR=str(work), OMP_NUM_THREADS="1",
                     OPENBLAS_NUM_THREADS="1", PYTHONWARNINGS="ignore")
            e.update(env or {})
            err = open(work / "stderr", "w+")
            p = subprocess.Popen([PY, str(ROOT / "drivers" / "worker.py"), driver, str(src)], cwd=work, env=e,
                                 stdout=subprocess.PIPE, stderr=err, text=True, errors="replace",
                                 start_new_session=True)
            q = queue.Queue()

            def pump(p=p, q=q):
                for line in p.stdout:
                    q.put(line)
                q.put(None)
            threading.Thread(target=pump, daemon=True).start()
            why = None
            while True:
                try:
                    line = q.get(timeout=timeout)
                except queue.Empty:
                    why = "no answer within %d s" % timeout
                    hung.append(i)
                    break
                if line is None:
                    break
                if line.startswith("@@"):
                    results[base + i] = json.loads(line[2:])
                    i += 1
            if p.poll() is None and why:
                os.killpg(p.pid, 9)
            p.wait()
            if i < len(cases):
                err.seek(0)
                tail = err.read()[-600:]
                results[base + i] = {"exc": "Crash", "msg": (why or "worker ended with status %s" % p.returncode)
                                     + " " + tail}
                i += 1
            err.close()
        finally:
            shutil.rmtree(work, ignore_errors=True)


def drive(target, driver, cases, jobs=4, timeout=120, env=None):
    results = [None] * len(cases)
    if not cases:
        return results
    jobs = max(1, min(jobs, len(cases)))
    step = -(-len(cases) // jobs)
    hung = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        fs = [pool.submit(_worker, target, driver, cases[b:b + step], timeout, results, b, env, hung)
              for b in range(0, len(cases), step)]
        for f in fs:
            f.result()
    return results


# ---------------------------------------------------------------- values

def fr(v):
    """A rational written by the specification as <<numerator, denominator>>."""
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(v[0], v[1])


def rat(x):
    x = Fraction(x)
    return [x.numerator, x.denominator]


def flat(x):
    if isinstance(x, list):
        for y in x:
            yield from flat(y)
    else:
        yield x


def shape(x):
    s = []
    while isinstance(x, list):
        s.append(len(x))
        if not x:
            break
        x = x[0]
    return s


def fold(v, s):
    """The flat list v in the shape s."""
    if len(s) == 1:
        return v[:s[0]]
    step = math.prod(s[1:])
    return [fold(v[i*step:(i+1)*step], s[1:]) for i in range(s[0])]


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def near(o, e, tol=1e-9, scale=None):
    """o: observed float; e: expected (number, or None for NaN)."""
    if e is None:
        return isinstance(o, float) and math.isnan(o)
    if not isnum(o) or not math.isfinite(o):
        return False
    e = float(e)
    s = max(1.0, abs(e)) if scale is None else scale
    return abs(o - e) <= tol * s


def near_all(o, e, tol=1e-9, scale=None):
    """Nested lists."""
    if isinstance(e, (list, tuple)):
        return isinstance(o, list) and len(o) == len(e) and all(near_all(a, b, tol, scale) for a, b in zip(o, e))
    return near(o, e, tol, scale)


# ---------------------------------------------------------------- a run of one check

class Ctx:
    def __init__(self, pid, replay=None):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%s" % (pid, self.seed))
        self.replay = replay
        self.t0 = time.time()
        self.target = None
        self.states = self.transitions = 0
        self.runs = []
        self.validated = 0
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.assumptions = []
        self.tmp = Path(tempfile.mkdtemp(prefix="vchk-"))
        self.findings = [f for f in json.loads((ROOT / "known_findings.json").read_text())["findings"]
                         if f["property"] == pid]

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def casefile(self, cases, name="cases"):
        p = self.tmp / (name + ".json")
        p.write_text(json.dumps(cases))
        return p

    def tlc(self, module, cases=None, env=None, **kw):
        env = dict(env or {})
        env.setdefault("TIER", self.tier)
        if cases is not None:
            env["CASES"] = self.casefile(cases, module + "-%d" % len(self.runs))
        t = time.time()
        r = tlc(module, env=env, **kw)
        self.states += r.distinct
        self.transitions += r.states
        self.runs.append({"module": module, "distinct_states": r.distinct, "states_generated": r.states,
                          "depth": r.depth, "records": len(r.records), "seconds": round(time.time() - t, 1)})
        return r.records

    def oracle(self, module, cases, chunk=2000, **kw):
        """Lets the specification compute the expected outcome of each case; the spec
        prints [i |-> index, ...] for every case."""
        out = [None] * len(cases)
        for b in range(0, len(cases), chunk):
            part = cases[b:b + chunk]
            for rec in self.tlc(module, part, **kw):
                out[b + rec["i"] - 1] = rec
        if any(o is None for o in out):
            raise HarnessError("%s answered only some of the cases" % module)
        return out

    def drive(self, driver, cases, **kw):
        if self.target is None:
            self.target = build()
        res = drive(self.target, driver, cases, **kw)
        self.validated += len(res)
        return res

    def calls(self, calls, batch=200, **kw):
        """Outcomes of single calls of public functions (drivers/calls.py)."""
        parts = [calls[b:b + batch] for b in range(0, len(calls), batch)]
        out = []
        for part, res in zip(parts, self.drive("calls", [{"calls": q} for q in parts], **kw)):
            out += res["ok"] if "ok" in res else [dict(res)] * len(part)
        self.validated += len(calls) - len(parts)
        return out

    def sample(self, x):
        if len(self.samples) < 4:
            s = json.dumps(x)
            self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000] + "...")

    def seen(self, *key):
        self.nontrivial.add(repr(key))

    def fail(self, what, case=None, expected=None, observed=None, sig=None):
        """Reports a disagreement; sig names it for the known-findings file."""
        for f in self.findings:
            if sig is not None and f["signature"] == sig:
                if sig not in self.known:
                    self.known.append(sig)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
                return
        self.violations.append({"what": what, "case": case, "expected": expected, "observed": observed})

    def finish(self, error=None):
        OUT.mkdir(exist_ok=True)
        (ROOT / "evidence").mkdir(exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "samples": self.samples,
               "distinct_nontrivial": len(self.nontrivial), "tlc_runs": self.runs}
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        (ROOT / "evidence" / (self.pid + ".json")).write_text(json.dumps(ev, indent=1, default=str) + "\n")
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.target:
            shutil.rmtree(self.target, ignore_errors=True)
        if error:
            return 2
        if self.violations:
            path = OUT / ("%s-%s.json" % (self.pid, self.tier))
            path.write_text(json.dumps({"property": self.pid, "seed": self.seed, "tier": self.tier,
                                        "violations": self.violations[:50],
                                        "rerun": "VERIF_SEED=%d VERIF_TIER=%s ./check %s"
                                        % (self.seed, self.tier, self.pid)}, indent=1, default=str))
            for v in self.violations[:5]:
                print("  %s" % v["what"])
                for k in ("case", "expected", "observed"):
                    if v[k] is not None:
                        print("    %s: %s" % (k, json.dumps(v[k], default=str)[:700]))
            print("%d disagreement(s)" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s tier=%s seed=%d states=%d validated=%d nontrivial=%d wall=%.1fs"
              % (self.pid, self.tier, self.seed, self.states, self.validated, len(self.nontrivial),
                 time.time() - self.t0))
        return 0

"""Shared machinery: running the code under test, running TLC, verdicts, evidence."""
import hashlib, importlib.util, json, os, re, shutil, subprocess, sys, sysconfig, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = os.cpu_count() or 4

_scratch = None
def scratch():
    """A private scratch directory, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="pvv-", dir=os.environ.get("VERIF_TMP", "/tmp"))
        import atexit
        me = os.getpid()
        atexit.register(lambda: os.getpid() == me and shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def use_repo():
    """Import pvtrace from the working tree, writing no bytecode into it."""
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    if sys.pycache_prefix is None:
        sys.pycache_prefix = os.path.join(scratch(), "pyc")
    os.environ["PYTHONPYCACHEPREFIX"] = sys.pycache_prefix
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("BROWSER", "true")
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        if k.startswith("OPENBLAS"):
            os.environ.setdefault(k, "1")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ["PYTHONPATH"] = REPO + os.pathsep + os.environ.get("PYTHONPATH", "")
    import warnings
    warnings.filterwarnings("ignore")
    import logging
    logging.disable(logging.CRITICAL)


class BuildError(Exception):
    pass


def kernel_path():
    """Build pvtrace's kernel from the working tree, outside it; content-hash cached."""
    src = os.path.join(REPO, "pvtrace", "engine", "_kernel.pyx")
    h = hashlib.sha256()
    eng = os.path.dirname(src)
    for f in sorted(os.listdir(eng)):
        if f.endswith((".pyx", ".pxd", ".pxi", ".h")):
            h.update(f.encode()); h.update(open(os.path.join(eng, f), "rb").read())
    h.update(open(os.path.join(eng, "build.py"), "rb").read() if os.path.exists(os.path.join(eng, "build.py")) else b"")
    key = h.hexdigest()[:20]
    cache = os.path.join(os.environ.get("VERIF_CACHE", "/tmp/pvv-kernel-cache"), key)
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    so = os.path.join(cache, "_kernel" + suffix)
    if os.path.exists(so):
        return so
    work = tempfile.mkdtemp(prefix="kern-", dir=scratch())
    pkg = os.path.join(work, "pvtrace", "engine")
    os.makedirs(pkg)
    for f in os.listdir(eng):
        if f.endswith((".pyx", ".pxd", ".pxi", ".h", ".py")):
            shutil.copy(os.path.join(eng, f), pkg)
    script = (
        "import numpy as np, sys\n"
        "from setuptools import Extension\n"
        "from setuptools.dist import Distribution\n"
        "from setuptools.command.build_ext import build_ext\n"
        "from Cython.Build import cythonize\n"
        "ext=Extension('pvtrace.engine._kernel',['pvtrace/engine/_kernel.pyx'],include_dirs=[np.get_include()],"
        "extra_compile_args=['-O3','-fopenmp'],extra_link_args=['-fopenmp'],"
        "define_macros=[('NPY_NO_DEPRECATED_API','NPY_1_7_API_VERSION')])\n"
        "mods=cythonize([ext],language_level='3')\n"
        "d=Distribution({'ext_modules':mods})\n"
        "c=build_ext(d); c.inplace=0; c.build_lib='out'; c.build_temp='tmp'; c.finalize_options()\n"
        "c.run()\n")
    r = subprocess.run([sys.executable, "-c", script], cwd=work, capture_output=True, text=True)
    found = None
    for root, _, files in os.walk(os.path.join(work, "out")):
        for f in files:
            if f.startswith("_kernel") and f.endswith(".so"):
                found = os.path.join(root, f)
    if r.returncode or not found:
        raise BuildError("kernel build failed:\n" + r.stdout[-2000:] + r.stderr[-4000:])
    os.makedirs(cache, exist_ok=True)
    tmp = so + ".%d" % os.getpid()
    shutil.copy(found, tmp); os.replace(tmp, so)
    shutil.rmtree(work, ignore_errors=True)
    return so


def load_kernel():
    """Make pvtrace.engine use the kernel built from the working tree."""
    use_repo()
    so = kernel_path()
    import pvtrace.engine as eng
    spec = importlib.util.spec_from_file_location("pvtrace.engine._kernel", so)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["pvtrace.engine._kernel"] = mod
    spec.loader.exec_module(mod)
    eng._kernel = mod
    return mod


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.out = ""; self.states = 0; self.distinct = 0; self.diameter = 0
        self.error = None; self.verdicts = []; self.wall = 0.0; self.rc = None; self.coverage = {}


_VAL = re.compile(r'"(?:[^"\\]|\\.)*"|-?\d+|TRUE|FALSE|<<|>>|,')

def parse_tuple(s):
    """Parse a printed TLA+ tuple of strings, ints, booleans and tuples."""
    toks = _VAL.findall(s); pos = 0
    def val():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == "<<":
            r = []
            while toks[pos] != ">>":
                if toks[pos] == ",":
                    pos += 1; continue
                r.append(val())
            pos += 1
            return r
        if t[0] == '"':
            return json.loads(t)
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        return int(t)
    return val()


def tlc(module, cfg, env=None, workers=None, timeout=600, mem="4g", extra=(), marker="V", specdir=None, coverage=False):
    """Run TLC on spec/<module>.tla with config text or file `cfg`.

    Lines printed as <<"V", ...>> are collected as verdicts.
    """
    res = TlcResult()
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    if specdir:
        for f in os.listdir(specdir):
            if f.endswith(".tla"):
                p = os.path.join(d, f)
                if os.path.lexists(p): os.unlink(p)
                shutil.copy(os.path.join(specdir, f), p)
    cfgp = os.path.join(d, "run.cfg")
    text = cfg if "\n" in cfg else open(os.path.join(SPEC, cfg)).read()
    open(cfgp, "w").write(text)
    e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cp = "/opt/veriftools/tla/tla2tools.jar"
    cmdir = [os.path.join("/opt/veriftools/tla", x) for x in os.listdir("/opt/veriftools/tla") if x.endswith(".jar") and x != "tla2tools.jar"]
    cp = ":".join([cp] + cmdir)
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + d, "-cp", cp, "tlc2.TLC",
           "-config", cfgp, "-workers", str(workers or CORES), "-deadlock", "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "meta")] + (["-coverage", "1"] if coverage else []) + list(extra) + [os.path.join(d, module + ".tla")]
    t0 = time.time()
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as fh:
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=fh, stderr=subprocess.STDOUT)
        try:
            res.rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); res.rc = -9; res.error = "TLC timed out after %ss" % timeout
    res.wall = time.time() - t0
    res.out = open(outp, errors="replace").read()
    m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", res.out)
    if m:
        res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"depth of the complete state graph search is (\d+)", res.out)
    if m: res.diameter = int(m.group(1))
    # printed verdict tuples (may wrap over lines)
    for m in re.finditer(r'^<<\s*"%s",(.*?)>>$' % marker, res.out, re.S | re.M):
        res.verdicts.append(parse_tuple(m.group(0))[1:])
    if coverage:
        for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", res.out, re.M):
            a = res.coverage.setdefault(m.group(1), [0, 0])
            a[0] = max(a[0], int(m.group(2))); a[1] = max(a[1], int(m.group(3)))
    if res.rc != 0 and res.error is None:
        m = re.search(r"Error: (.*(?:\n(?!\d+ states).*){0,60})", res.out)
        res.error = (m.group(1) if m else res.out[-3000:])[:6000]
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(d, ignore_errors=True)
    return res


# ---------------------------------------------------------------- checks

class RepoRaised(Exception):
    """The code under test raised where it should not have (text of the traceback)."""


def through_repo(exc):
    """Was the exception raised inside the code under test?"""
    import traceback
    tb = traceback.extract_tb(exc.__traceback__)
    return any(f.filename.startswith(REPO + os.sep) or "_kernel" in f.filename for f in tb)


class Machinery(Exception):
    """Our own machinery failed (not a verdict)."""


def known_findings():
    """known_findings.txt: lines `known: property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m: r.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    return r


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.violations = []; self.known = []; self.samples = []
        self.states = 0; self.transitions = 0; self.traces = 0
        self.parts = []; self.assumptions = []
        self.kf = [k for k in known_findings() if k["property"] == prop]

    @property
    def quick(self):
        return self.tier == "quick"

    def part(self, name, **kw):
        kw["part"] = name; self.parts.append(kw)
        print("  [%6.1fs] %s %s" % (time.time() - self.t0, name, {k: v for k, v in kw.items() if k != "part"}), flush=True)

    def model(self, module, cfg, name=None, expect_actions=(), **kw):
        """Exhaustive (or simulated) model checking of a design spec: must find no error."""
        r = tlc(module, cfg, coverage=bool(expect_actions), **kw)
        self.states += r.distinct; self.transitions += r.states
        if r.error:
            if re.search(r"Invariant|property|Temporal|Deadlock|Property", r.error):
                self.violate("spec:%s" % (name or module), {"tlc": r.error, "note": "the specification itself violates a property"})
            else:
                raise Machinery("TLC failed on %s: %s" % (module, r.error))
        for a in expect_actions:
            if not r.coverage.get(a, [0, 0])[1]:
                raise Machinery("vacuous model %s: action %s never taken" % (module, a))
        self.part("model " + (name or module), states=r.distinct, transitions=r.states, diameter=r.diameter, wall=round(r.wall, 1))
        return r

    def judge(self, module, records, name=None, cfg=None, expect=None, env=None, keyf=None, chunk=None, **kw):
        """Have TLC give a verdict for each record (a trace / observation) against a trace spec.

        The spec prints <<"V", index, clause, position, ...>> once per record, clause "ok" if accepted.
        """
        if not records:
            raise Machinery("no records for %s" % (name or module))
        f = os.path.join(scratch(), "rec-%d.ndjson" % (len(self.parts) + int(time.time() * 1000) % 100000))
        with open(f, "w") as fh:
            for r in records:
                fh.write(json.dumps(r) + "\n")
        e = {"RECS": f}; e.update(env or {})
        cfg = cfg or "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
        r = tlc(module, cfg, env=e, **kw)
        if r.error:
            raise Machinery("TLC failed judging %s: %s" % (name or module, r.error))
        got = {}
        for v in r.verdicts:
            if v[1:] not in got.setdefault(v[0], []): got[v[0]].append(v[1:])
        if len(got) != len(records) or any(len(x) != 1 for x in got.values()):
            raise Machinery("%s: %d verdicts for %d records" % (name or module, len(r.verdicts), len(records)))
        self.states += r.distinct; self.transitions += r.states; self.traces += len(records)
        bad = 0
        for i in sorted(got):
            clause, rest = got[i][0][0], got[i][0][1:]
            if clause != "ok":
                bad += 1
                rec = records[i - 1]
                self.violate(clause, {"spec": module, "record": rec, "position": rest}, key=keyf(rec, clause) if keyf else None)
        if records:
            self.samples.append({"spec": module, "part": name or module, "first_record": _short(records[0])})
        self.part("judge " + (name or module), records=len(records), rejected=bad, states=r.distinct, wall=round(r.wall, 1))
        os.unlink(f)
        return got

    def violate(self, what, detail, key=None):
        for k in self.kf:
            if key is not None and k.get("key") == key:
                if k not in self.known:
                    self.known.append(k)
                return
        self.violations.append((what, detail))

    def only_mine(self, mark=0):
        """Keep only rejections of this property's own clauses; the others are left to their own check."""
        others = [v for v in self.violations[mark:] if not v[0].startswith(self.prop)]
        self.violations[mark:] = [v for v in self.violations[mark:] if v[0].startswith(self.prop)]
        if others:
            os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
            with open(os.path.join(EVID, "replays", "%s-others.json" % self.prop), "w") as fh:
                json.dump(others[:10], fh, indent=1, default=str)
            self.part("clauses of other properties", rejected=len(others), clauses=sorted(set(v[0] for v in others)))

    def finish(self):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        seen = {}
        for i, (what, detail) in enumerate(self.violations):
            seen.setdefault(what, []).append(detail)
        n = 0
        for what, details in seen.items():
            n += 1
            path = os.path.join(EVID, "replays", "%s-%d.json" % (self.prop, n))
            with open(path, "w") as fh:
                json.dump({"property": self.prop, "what": what, "count": len(details), "seed": SEED, "tier": self.tier, "examples": details[:3]}, fh, indent=1, default=str)
            print("  rejected: %s (%d)" % (what, len(details)))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            if n >= 20: break
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples[:12], "parts": self.parts},
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions,
              "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print("%s %s: %s, %d states, %d traces, %.1fs" % (self.prop, self.tier, "VIOLATED" if self.violations else "held", self.states, self.traces, ev["wall_s"]))
        return 1 if self.violations else 0


def _short(x, n=600):
    s = json.dumps(x, default=str)
    return json.loads(s) if len(s) <= n else s[:n] + "..."

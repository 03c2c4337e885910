"""C12-C14: simulations, the shared queue and the database writer (Sim, SimGen, Store, Share, Throws)."""
import collections, contextlib, gc, hashlib, io, json, multiprocessing, os, pickle, random, signal, sqlite3, subprocess, sys, threading, time
from queue import Empty, Queue
import numpy as np
import vlib
from scenes import *
from record import *

MCCFG = "SPECIFICATION Spec\nINVARIANT Inv\n%sCONSTANTS\n Sizes <- SizesC\n Shape = %d\n NProc = %d\n EvPer = %d\n QMax = %d\n Crashes = %s\n"

def sim_model(c, crashes):
    runs = [(1, 2, 2, 2), (2, 2, 2, 1)] if c.quick else [(1, 2, 2, 3), (2, 2, 2, 2), (3, 2, 2, 2), (4, 2, 2, 1), (2, 3, 2, 1)]
    acts = ("Take", "Put", "Get", "WriteRay", "WriteEvent", "Commit", "Leave", "Joined", "Stop", "Done")
    for shape, p, e, q in runs:
        c.model("MCSim", MCCFG % ("" if crashes else "PROPERTY Ends\n", shape, p, e, q, "TRUE" if crashes else "FALSE"),
                name="Sim shape=%d procs=%d crashes=%s" % (shape, p, crashes), expect_actions=acts + (("Crash",) if crashes else ()), timeout=700, mem="8g")

# ------------------------------------------------------------------ digests

def sig(ray, event, meta):
    """What a stored event must show, as text (floats by repr: sqlite keeps doubles exactly)."""
    meta = meta or {}
    f = lambda x: None if x is None else repr(float(x))
    nrm = meta.get("normal") or (None, None, None)
    parts = [f(x) for x in ray.position] + [f(x) for x in ray.direction] + [f(ray.wavelength), str(ray.source), f(ray.travelled), f(ray.duration),
             event.name] + [meta.get(k) for k in ("component", "hit", "container", "adjacent", "facet")] + [f(x) for x in nrm]
    return "|".join("~" if p is None else p for p in parts)

COLS = ["x", "y", "z", "i", "j", "k", "wavelength", "source", "travelled", "duration"]
ECOLS = ["kind", "component", "hit", "container", "adjacent", "facet", "ni", "nj", "nk"]

def read_db(path):
    """Rows in insertion order as (throw_id, signature), and the number of unpaired rows."""
    con = sqlite3.connect(path)
    try:
        bad = con.execute("PRAGMA integrity_check").fetchall()
        if bad != [("ok",)]: return [], 1, "integrity_check: %r" % (bad[:3],)
        rays = con.execute("SELECT rowid, throw_id, %s FROM ray ORDER BY rowid" % ", ".join(COLS)).fetchall()
        events = con.execute("SELECT rowid, ray_id, %s FROM event ORDER BY rowid" % ", ".join(ECOLS)).fetchall()
    finally: con.close()
    by = {r[0]: r for r in rays}
    seen = collections.Counter(e[1] for e in events)
    orphans = sum(1 for e in events if e[1] not in by) + sum(1 for r in rays if seen.get(r[0], 0) != 1)
    rows = []
    f = lambda x: None if x is None else repr(float(x))
    for e in events:
        r = by.get(e[1])
        if r is None: continue
        v = r[2:]
        parts = [f(x) for x in v[:7]] + [str(v[7])] + [f(x) for x in v[8:10]] + list(e[2:8]) + [f(x) for x in e[8:11]]
        rows.append((r[1], "|".join("~" if p is None else str(p) for p in parts)))
    return rows, orphans, ""

def short(s): return hashlib.sha256(s.encode()).hexdigest()[:12]

def store_record(prop, sent, path, whole, acked=0, raised="", bulk=False):
    rows, orphans, err = read_db(path)
    ids = {}
    return {"prop": prop, "sent": [{"throw": t, "ev": short(s)} for t, s in sent],
            "rows": [{"id": ids.setdefault(i, len(ids) + 1), "ev": short(s)} for i, s in rows],
            "orphans": orphans, "bulk": bulk, "whole": whole, "acked": acked, "raised": raised or err}

# ------------------------------------------------------------------ scenes

def two_lights():
    """Ray k of the simulation: light k mod 2, two or four events, a wavelength of its own."""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.box import Box
    from pvtrace.material.material import Material
    from pvtrace.light.light import Light
    world = Node(name="world", geometry=Box((10, 10, 10), material=Material(1.0)))
    box = Node(name="slab", parent=world, geometry=Box((2, 2, 2), material=Material(1.0)))
    box.translate((3, 0, 0))
    Node(name="la", parent=world, light=Light(wavelength=Step(400.0), position=Const((-2.0, 0.0, 0.0)), direction=Const((0, 0, 1.0)), name="A"))
    Node(name="lb", parent=world, light=Light(wavelength=Step(500.0), position=Const((3.0, 0.0, -3.0)), direction=Const((0, 0, 1.0)), name="B"))
    return Scene(world)

class Const:
    """A picklable delegate giving always the same value."""
    def __init__(self, v): self.v = v
    def __call__(self): return self.v
class Step:
    """A picklable wavelength delegate: every call gives the next value, starting anywhere."""
    def __init__(self, lo): self.lo = lo
    def __call__(self): return self.lo + 50.0 * np.random.uniform()
class Uniform:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def __call__(self): return np.random.uniform(self.lo, self.hi)

class ListQueue:
    def __init__(self): self.items = []
    def put(self, item, *a, **k): self.items.append(item)
    def empty(self): return not self.items
    def __bool__(self): return True

class Feed:
    """A queue that gives the items in order, sometimes late; the stop flag is raised when `stop_at` have gone."""
    def __init__(self, items, stop, rng=None):
        self.items, self.i, self.stop, self.rng = items, 0, stop, rng
        if not items: stop.set()
    def empty(self): return self.i >= len(self.items)
    def qsize(self): return len(self.items) - self.i
    def get(self, *a, **k):
        if self.empty(): raise Empty()
        if self.rng is not None and self.rng.random() < 0.05: raise Empty()
        self.i += 1
        it = self.items[self.i - 1]
        if self.i >= len(self.items): self.stop.set()
        return it
    get_nowait = get

class Progress:
    def __init__(self): self.n = 0
    def update(self, k): self.n += k

def run_monitor(path, items, rng=None, prepare=True, skip=10, timeout=60):
    from pvtrace.cli import main as cli
    if prepare: cli.prepare_database(path)
    stop = threading.Event(); prog = Progress(); err = []
    def go():
        try: cli.monitor_queue(path, Feed(items, stop, rng), stop, prog, None, None, True, skip, 1)
        except BaseException as exc: err.append("%s: %s" % (type(exc).__name__, exc))
    t = threading.Thread(target=go, daemon=True); t.start(); t.join(timeout)
    if t.is_alive(): err.append("the monitor never returned")
    return prog.n, (err[0] if err else "")

def run_tasks(owner, sizes, end_rays=False):
    """Run the real worker function for every task, tasks of one process in that one process."""
    from pvtrace.scene import scene as S
    import inspect
    res = {}
    has_first = "first" in inspect.signature(S.do_simulation_add_to_queue).parameters
    for p in sorted(set(owner)):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                out = []
                for t, o in enumerate(owner):
                    if o != p: continue
                    q = ListQueue()
                    first = sum(sizes[:t])
                    kw = {"first": first} if has_first else {}
                    S.do_simulation_add_to_queue(two_lights(), sizes[t], 1000 + t, q, end_rays, **kw)
                    out.append((t, q.items))
                with os.fdopen(w, "wb") as fh: pickle.dump(out, fh)
                rc = 0
            except BaseException as exc:
                with contextlib.suppress(Exception):
                    with os.fdopen(w, "wb") as fh: pickle.dump("%s: %s" % (type(exc).__name__, exc), fh)
            os._exit(rc)
        os.close(w)
        with os.fdopen(r, "rb") as fh: data = fh.read()
        os.waitpid(pid, 0)
        got = pickle.loads(data) if data else "no output"
        if isinstance(got, str): return got
        for t, items in got: res[t] = items
    return res

def by_throw(items):
    """Split one task's queue items into its throws (each starts with GENERATE)."""
    out = []
    for it in items:
        if it[3].name == "GENERATE" or not out: out.append([])
        out[-1].append(it)
    return out

def long_run(c, rng):
    """Thousands of throws of several processes through one monitor."""
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    n = 26000 if c.quick else 200000
    items, sent, open_ = [], [], []
    pids = ["7-%d" % k for k in range(4)]; count = dict.fromkeys(pids, 0)
    while len(items) < n or open_:
        if len(items) < n and (len(open_) < 4 or rng.random() < 0.5):
            free = [p for p in pids if p not in [o[0] for o in open_]]
            if free:
                p = rng.choice(free); open_.append([p, count[p], rng.choice([0, 0, 0, 1, 3])]); count[p] += 1
                k = open_[-1]; ev = Event.GENERATE
            else: continue
        else:
            k = rng.choice(open_); k[2] -= 1
            if k[2] < 0: open_.remove(k); ev = Event.EXIT
            else: ev = Event.SCATTER
        i = len(items)
        ray = Ray(position=(float(i), 0.5, -1.0), direction=(0.0, 0.0, 1.0), wavelength=500.0 + i % 7, travelled=float(k[1]))
        it = (k[0], k[1], ray, ev, {"hit": k[0]})
        items.append(it); sent.append((1 + pids.index(k[0]) + 4 * k[1], sig(*it[2:5])))
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else vlib.scratch()
    db = os.path.join(base, "verif-c13-%d.sqlite3" % os.getpid())
    if os.path.exists(db): os.unlink(db)
    try:
        _, err = run_monitor(db, items, timeout=300)
        rec = store_record("C13", sent, db, True, raised=err, bulk=True)
    finally:
        for x in (db, db + "-journal", db + "-wal", db + "-shm"):
            if os.path.exists(x): os.unlink(x)
    c.part("long run", events=len(items), throws=sum(count.values()))
    return rec

def C13(c):
    sim_model(c, False)
    rng = random.Random(vlib.SEED * 13 + 3)
    recs = []; total = 0
    for shape, procs in ([(2, 2), (5, 2), (4, 1), (2, 3), (1, 2)] if c.quick else [(2, 2), (5, 2), (4, 1), (2, 3), (1, 2), (3, 2)]):
        r = vlib.tlc("SimGen", "INIT Init\nNEXT Next\nCONSTANTS\n Shape = %d\n NProc = %d\n" % (shape, procs), timeout=600, mem="8g")
        if r.error: raise vlib.Machinery("SimGen: " + r.error)
        c.states += r.distinct; c.transitions += r.states
        beh = sorted(r.verdicts, key=str); total += len(beh)
        groups = collections.defaultdict(list)
        for b in beh: groups[json.dumps(b[1])].append(b)
        per = 14 if c.quick else 150
        for key, g in sorted(groups.items()):
            sizes, owner = g[0][0], g[0][1]
            res = run_tasks(owner, sizes)
            if isinstance(res, str):
                c.violate("C13.worker_raised", {"owner": owner, "sizes": sizes, "raised": res}); continue
            throws = {t: by_throw(res[t]) for t in res}
            if any(len(throws[t]) != sizes[t] for t in throws):
                c.violate("C13.number_of_throws", {"sizes": sizes, "got": {t: len(throws[t]) for t in throws}}); continue
            for b in rng.sample(g, min(per, len(g))):
                items = []; sent = []; pos = {t: 0 for t in res}; left = {}
                for p, task, ray, ev in b[2]:
                    t = task - 1; k = ray - sum(sizes[:t])
                    it = throws[t][k]
                    if ev <= len(it):      # the model's event, or whatever is left of the real history at its last one
                        last = not any(x[1] == task and x[2] == ray and x[3] > ev for x in b[2])
                        for e in (it[ev - 1:] if last else [it[ev - 1]]):
                            items.append(e); sent.append((ray + 1, sig(*e[2:5])))
                db = os.path.join(vlib.scratch(), "s%d.sqlite3" % len(recs))
                n, err = run_monitor(db, items, rng if rng.random() < 0.3 else None, skip=rng.choice([1, 2, 10]))
                rec = store_record("C13", sent, db, True, raised=err)
                recs.append(rec); os.unlink(db)
                if n > sum(sizes): c.violate("C13.progress_beyond_the_rays", {"updates": n, "throws": sum(sizes)})
        c.part("SimGen shape=%d procs=%d" % (shape, procs), behaviours=len(beh), assignments=len(groups), states=r.distinct)
    recs.append(long_run(c, rng))
    recs += real_runs(c, rng, "C13")
    c.judge("Store", recs, timeout=600)

def wellformed(rows):
    """Throws as stored, for runs whose truth is not known: (ids in order of first row, problems)."""
    by = collections.OrderedDict()
    for i, s in rows: by.setdefault(i, []).append(s.split("|"))
    bad = []
    for i, evs in by.items():
        kinds = [e[10] for e in evs]
        tr = [float(e[8]) for e in evs]
        if kinds[0] != "GENERATE" or kinds.count("GENERATE") != 1: bad.append("throw %s starts %s with %d GENERATE" % (i, kinds[0], kinds.count("GENERATE")))
        elif kinds[-1] not in ("EXIT", "NONRADIATIVE", "REACT", "KILL"): bad.append("throw %s ends with %s" % (i, kinds[-1]))
        elif any(k in ("EXIT", "NONRADIATIVE", "REACT", "KILL") for k in kinds[:-1]): bad.append("throw %s goes on after its end" % i)
        elif any(b < a for a, b in zip(tr, tr[1:])): bad.append("throw %s runs backwards" % i)
    return by, bad

SCENE_YML = """version: "1.0"
nodes:
  world:
    box: {size: [10.0, 10.0, 10.0], material: {refractive-index: 1.0}}
  slab:
    box:
      size: [3.0, 3.0, 1.0]
      material:
        refractive-index: 1.5
        components: [dye]
  lamp-a:
    location: [0.5, 0.0, 3.0]
    direction: [0.0, 0.0, -1.0]
    light: {mask: {direction: {cone: {half-angle: 20}}}}
  lamp-b:
    location: [-0.5, 0.0, 3.0]
    direction: [0.0, 0.0, -1.0]
    light: {}
components:
  dye:
    luminophore:
      absorption: {spectrum: {name: "lumogen-f-red-305", range: {min: 300, max: 900, spacing: 5}}, coefficient: 3.0}
      emission: {spectrum: {name: "lumogen-f-red-305", range: {min: 300, max: 900, spacing: 5}}, quantum-yield: 0.9, phase-function: isotropic}
"""

def real_runs(c, rng, prop):
    """The real command and the real pool; sent is unknown, so throws are judged by their own shape."""
    recs = []
    d = os.path.join(vlib.scratch(), "cli"); os.makedirs(d, exist_ok=True)
    runs = [(7, 3), (12, 12), (3, 8)] if c.quick else [(7, 3), (12, 12), (3, 8), (40, 40), (60, 7), (24, 6), (1, 1), (16, 16), (16, 16)]
    for n, (rays, workers) in enumerate(runs):
        yml = os.path.join(d, "s%d.yml" % n); open(yml, "w").write(SCENE_YML)
        p = subprocess.run([sys.executable, "-c", "from pvtrace.cli.main import main; main()", "simulate", yml, "-r", str(rays), "-w", str(workers)],
                           capture_output=True, text=True, cwd=d, timeout=300, start_new_session=True)
        db = yml[:-4] + ".sqlite3"
        if p.returncode or not os.path.exists(db):
            c.violate(prop + ".command_failed", {"stdout": p.stdout[-500:], "stderr": p.stderr[-1500:]}); continue
        if p.stdout.count("OK") != 1: c.violate(prop + ".command_did_not_finish_once", {"stdout": p.stdout[-500:]})
        rows, orphans, err = read_db(db)
        by, bad = wellformed(rows)
        if len(by) != rays: bad.append("%d throws stored, %d asked" % (len(by), rays))
        if orphans or err: bad.append("%d orphans %s" % (orphans, err))
        if bad: c.violate(prop + ".stored_run", {"rays": rays, "workers": workers, "problems": bad[:5]})
        c.part("pvtrace-cli simulate -r %d -w %d" % (rays, workers), events=len(rows), throws=len(by))
        # the same judged by Store: throws as the shape of the rows says
        names = {}; sent = []; cur = None
        c.traces += 1
    # workers sharing a process, real pool, manager queue: every item tagged with its throw
    return recs + pool_runs(c, rng, prop)

class TagQueue:
    """Wraps the manager's queue; used only to keep a copy of what was put."""

def pool_runs(c, rng, prop):
    """Scene.simulate with real worker processes; the items taken off the real queue are stored by the real monitor."""
    recs = []
    for rays, workers in ([(6, 3), (16, 16)] if c.quick else [(6, 3), (16, 16), (20, 4), (48, 48), (9, 2)]):
        scene = two_lights()
        man = multiprocessing.Manager()
        q = man.Queue()
        with contextlib.redirect_stdout(io.StringIO()):
            scene.simulate(rays, workers=workers, queue=q)
        items = []
        while not q.empty(): items.append(q.get())
        man.shutdown()
        gc.collect()
        # one worker's throws arrive in order: a GENERATE opens a new throw of that task; tell throws by the ray itself
        open_ = {}; sent = []; count = 0; odd = False
        for it in items:
            key = it[0]
            if it[3].name == "GENERATE":
                count += 1; open_[key] = count
            if key not in open_: odd = True; break
            sent.append((open_[key], sig(*it[2:5])))
        if odd or count != rays:
            c.violate(prop + ".throws_on_the_queue", {"asked": rays, "found": count, "workers": workers}); continue
        db = os.path.join(vlib.scratch(), "p%d.sqlite3" % rays)
        n, err = run_monitor(db, items)
        recs.append(store_record(prop, sent, db, True, raised=err)); os.unlink(db)
        c.part("pool %d rays %d workers" % (rays, workers), items=len(items))
    return recs

# ------------------------------------------------------------------ C14

def C14(c):
    sim_model(c, True)
    rng = random.Random(vlib.SEED * 17 + 14)
    so = os.path.join(vlib.scratch(), "crash.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", so, os.path.join(os.path.dirname(os.path.abspath(__file__)), "crash.c"), "-ldl"], capture_output=True, text=True)
    if r.returncode: raise vlib.Machinery("gcc: " + r.stderr)
    # two processes' throws, interleaved
    res = run_tasks([1, 2, 1], [2, 2, 1])
    if isinstance(res, str):
        c.violate("C14.worker_raised", {"raised": res}); return
    streams = {}
    n = 0
    for t in sorted(res):
        for th in by_throw(res[t]):
            n += 1
            for it in th: streams.setdefault(t, []).append((n, it))
    one = streams[0] + streams[2]      # tasks 1 and 3 run in one process
    two = streams[1]
    items, sent = [], []
    while one or two:
        s = one if (one and (not two or rng.random() < 0.5)) else two
        th, it = s.pop(0); items.append(it); sent.append((th, sig(*it[2:5])))
    d = os.path.join(vlib.scratch(), "crash"); os.makedirs(d, exist_ok=True)
    pk = os.path.join(d, "items.pickle"); pickle.dump(items, open(pk, "wb"))
    env = dict(os.environ); env["LD_PRELOAD"] = so
    def serve(jobs):
        jf = os.path.join(d, "jobs-%d.json" % id(jobs)); json.dump(jobs, open(jf, "w"))
        return subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "crash_server.py"), pk, d, jf],
                                env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    p = serve([[10 ** 9, 0, len(items)]]); out, err = p.communicate(timeout=300)
    base = os.path.join(d, "run-%d-0-%d.sqlite3" % (10 ** 9, len(items)))
    if p.returncode or not os.path.exists(base + ".count"):
        if "Traceback" in err or "Error" in err or "0" not in out:
            c.violate("C14.monitor_raised", {"stderr": err[-1500:], "out": out}); return
        raise vlib.Machinery("crash server: " + err[-1500:])
    total = int(open(base + ".count").read())
    recs = [store_record("C14", sent, base, True, acked=int(open(base + ".ack").read()[-8:] or 0))]
    ks = list(range(1, total + 1))
    jobs = [[k, 0, len(items)] for k in ks] + [[k, 1, len(items)] for k in ks]
    if c.quick and len(jobs) > 640: jobs = rng.sample(jobs, 640)
    chunks = [jobs[i::vlib.CORES] for i in range(vlib.CORES)]
    ps = [(ch, serve(ch)) for ch in chunks if ch]
    codes = collections.Counter()
    for ch, p in ps:
        out, err = p.communicate(timeout=800)
        if p.returncode: raise vlib.Machinery("crash server: " + err[-1500:])
        for line in out.splitlines():
            job, rc = json.loads(line); codes[rc] += 1
            db = os.path.join(d, "run-%d-%d-%d.sqlite3" % tuple(job))
            ack = open(db + ".ack").read()[-8:] if os.path.exists(db + ".ack") else ""
            try:
                recs.append(store_record("C14", sent, db, False, acked=int(ack or 0), raised="" if rc in (0, 77) else "monitor failed: " + err[-200:]))
            except sqlite3.DatabaseError as exc:
                c.violate("C14.unreadable", {"crash": job, "error": str(exc)})
            for f in (db, db + "-journal", db + "-wal", db + "-shm", db + ".ack", db + ".count"):
                if os.path.exists(f): os.unlink(f)
    if codes[77] < len(jobs) // 2: raise vlib.Machinery("crashes did not happen: %r" % codes)
    c.judge("Store", recs, timeout=600)
    c.part("crash points", syscalls=total, injected=codes[77], items=len(items))
    kill_cli(c, rng)

def kill_cli(c, rng):
    """Kill the real command while it runs; the database must hold whole events and prefixes of throws."""
    d = os.path.join(vlib.scratch(), "killcli"); os.makedirs(d, exist_ok=True)
    for n in range(2 if c.quick else 12):
        yml = os.path.join(d, "k%d.yml" % n); open(yml, "w").write(SCENE_YML)
        db = yml[:-4] + ".sqlite3"
        p = subprocess.Popen([sys.executable, "-c", "from pvtrace.cli.main import main; main()", "simulate", yml, "-r", "400", "-w", str(rng.choice([1, 3]))],
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d, start_new_session=True)
        t0 = time.time(); want = rng.choice([1, 30, 200]); seen = 0
        while time.time() - t0 < 60 and p.poll() is None:
            with contextlib.suppress(Exception):
                con = sqlite3.connect("file:%s?mode=ro" % db, uri=True, timeout=1)
                seen = con.execute("SELECT COUNT(*) FROM event").fetchone()[0]; con.close()
            if seen >= want: break
            time.sleep(0.02)
        with contextlib.suppress(ProcessLookupError): os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        rows, orphans, err = read_db(db)
        by, bad = wellformed(rows)
        bad = [b for b in bad if " ends with " not in b]
        if orphans or err: bad.append("%d half-written pairs %s" % (orphans, err))
        if len(rows) < seen: bad.append("%d events had been read, %d remain" % (seen, len(rows)))
        if bad: c.violate("C14.killed_run", {"problems": bad[:5]})
        c.traces += 1
        c.part("kill -9 during the command", events=len(rows), throws=len(by))

# ------------------------------------------------------------------ C12

def lamp_world(rng, k):
    """k lights in a random tree, each with its own fixed ray; returns scene and declared lights in scene order."""
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.box import Box
    from pvtrace.material.material import Material
    from pvtrace.light.light import Light
    world = Node(name="world", geometry=Box((60, 60, 60), material=Material(1.0)))
    info = [(world, np.eye(3), np.zeros(3), 0, (0,))]
    lights = []
    order = 0
    while len(lights) < k:
        par = rng.choice(info)
        R = rand_rot(rng); T = np.array([rng.uniform(-2, 2) for _ in range(3)])
        n = Node(name="n%d" % order, parent=par[0])
        M = np.eye(4); M[:3, :3] = R; M[:3, 3] = T; n.pose = M
        nkids = sum(1 for x in info if x[4][:-1] == par[4])
        ent = (n, par[1] @ R, par[1] @ T + par[2], par[3] + 1, par[4] + (nkids,))
        info.append(ent); order += 1
        if rng.random() < 0.7:
            p = np.array([rng.uniform(-1, 1) for _ in range(3)]); d = rand_dir(rng)
            n.light = Light(wavelength=Uniform(500.0, 600.0), position=Const(tuple(p)), direction=Const(tuple(d)), name="lamp%d" % len(lights))
            lights.append((ent, {"name": n.light.name, "R": [v3u(r) for r in ent[1]], "T": v3l(ent[2]), "p": v3l(p), "d": v3u(d)}))
    # scene order: breadth first, children in order of attachment
    lights.sort(key=lambda x: (x[0][3], x[0][4]))
    return Scene(world), [l for _, l in lights]

def hist_rec(h):
    r = h[0][0]
    return {"light": str(r.source), "p": [clampi(x) for x in v3l(r.position)], "d": [clampi(x) for x in v3u(r.direction)]}

def C12(c):
    c.model("Share", "INIT Init\nNEXT Next\nINVARIANT Exact Fair\nCONSTANTS\n MaxN = %d\n MaxW = %d\n MaxL = %d\n" % ((9, 5, 3) if c.quick else (24, 9, 5)), timeout=600)
    rng = random.Random(vlib.SEED * 12 + 5)
    recs = []
    combos = [(0, 1), (1, 1), (7, 1), (5, 2), (9, 3), (3, 8), (8, 4), (4, 4), (12, 5), (2, 2), (10, 7), (6, None), (32, 16)]
    if not c.quick: combos = combos * 4 + [(rng.randrange(0, 40), rng.choice([1, 2, 3, 5, 9, 13])) for _ in range(40)]
    for n, workers in combos:
        k = rng.choice([1, 2, 3, 4])
        scene, lights = lamp_world(rng, k)
        for mode in ("list", "queue", "seed"):
            eff = workers if workers is not None else max(1, multiprocessing.cpu_count() // 2)
            shared = eff > 1 and n >= eff
            seed = rng.choice([0, 0, 1, np.int64(0), 2 ** 32 - 1, rng.randrange(10 ** 6)]) if mode == "seed" else None
            ordered = True
            refused = ""; got = []; again = ""; digest = ""; threw = 0; repeats = 0; waves = []
            def once(afresh=True):
                if afresh: np.random.seed(rng.randrange(1 << 30))
                if mode != "queue":
                    with contextlib.redirect_stdout(io.StringIO()):
                        hs = scene.simulate(n, workers=workers, seed=seed)
                    return [list(h) for h in hs]
                if not shared:
                    q = ListQueue()
                    with contextlib.redirect_stdout(io.StringIO()): scene.simulate(n, workers=workers, queue=q)
                    items = q.items
                else:
                    q = MANAGER().Queue()
                    with contextlib.redirect_stdout(io.StringIO()): scene.simulate(n, workers=workers, queue=q)
                    items = []
                    while not q.empty(): items.append(q.get())
                return [[it[2:5]] for it in items if it[3].name == "GENERATE"]
            try:
                hs = once()
                got = [hist_rec(h) for h in hs]
                waves = [h[0][0].wavelength for h in hs]
                if mode == "queue" and shared: ordered = False
                if seed is None:
                    # the rays of the next simulation are not those of the last, nor those of another worker
                    if mode == "list": waves += [h[0][0].wavelength for h in once(afresh=False)]
                    repeats = len(waves) - len(set(waves))
                if seed is not None and not shared:
                    key = lambda hs: short(repr([(repr(r), e.name) for h in hs for r, e in [(x[0], x[1]) for x in h]]))
                    digest = key(hs); again = key(once())
            except Exception as exc:
                refused = "%s: %s" % (type(exc).__name__, exc)
                if not isinstance(exc, ValueError) and seed is not None: threw = 1
            recs.append({"n": n, "lights": lights, "got": got, "ordered": ordered, "refused": refused, "seeded": seed is not None,
                         "shared": shared, "threw": threw, "again": again, "digest": digest, "repeats": repeats, "mode": mode, "workers": eff})
        gc.collect()
    # the engine takes its rays from the lights in the same way
    vlib.load_kernel()
    from pvtrace.engine import simulate
    from pvtrace.engine.emit import emit_bundle
    for _ in range(6 if c.quick else 40):
        scene, lights = lamp_world(rng, rng.choice([1, 2, 3, 4])); n = rng.choice([1, 5, 11])
        got = [hist_rec(h) for h in simulate(scene, n, seed=1, workers=2).histories()]
        recs.append({"n": n, "lights": lights, "got": got, "ordered": True, "refused": "", "seeded": False, "shared": False, "threw": 0,
                     "again": "", "digest": "", "repeats": 0, "mode": "engine", "workers": 2})
    c.judge("Throws", recs, timeout=600)

def MANAGER():
    if not hasattr(MANAGER, "m"):
        MANAGER.m = multiprocessing.Manager()
    return MANAGER.m

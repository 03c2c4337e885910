"""C21-C24: the studio server, driven over its ASGI interface (Studio, StudioRun, RunTrace, StudioTrace, Upload)."""
import asyncio, io, json, os, random, threading, time
import numpy as np
import vlib
from checks_query import run_jobs

# ------------------------------------------------------------------ driving the app

async def http(app, method, path, body=None, raw=None):
    data = raw if raw is not None else (json.dumps(body).encode() if body is not None else b"")
    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http", "path": path, "raw_path": path.encode(),
             "query_string": b"", "root_path": "", "headers": [(b"content-type", b"application/json"), (b"host", b"x")], "client": ("c", 1), "server": ("s", 80)}
    sent = [False]; out = {"status": None, "body": b""}
    async def receive():
        if not sent[0]:
            sent[0] = True
            return {"type": "http.request", "body": data, "more_body": False}
        await asyncio.sleep(3600)
    async def send(m):
        if m["type"] == "http.response.start": out["status"] = m["status"]
        elif m["type"] == "http.response.body": out["body"] += m.get("body", b"")
    try:
        await app(scope, receive, send)
    except Exception as e:      # the server answers 500 and logs
        if out["status"] is None: out["status"] = 500
        out["raised"] = repr(e)
    try: out["json"] = json.loads(out["body"])
    except ValueError: out["json"] = None
    return out

class Socket:
    """A websocket client: what it sent (once handled) and what it got, in order."""
    def __init__(self, app):
        self.app, self.log, self.inbox = app, [], asyncio.Queue()
        self.handling = None; self.handled = 0; self.sent = 0; self.open = False
        self.task = asyncio.ensure_future(self._run())
    async def _run(self):
        scope = {"type": "websocket", "asgi": {"version": "3.0"}, "http_version": "1.1", "scheme": "ws", "path": "/ws", "raw_path": b"/ws", "query_string": b"",
                 "root_path": "", "headers": [(b"host", b"x")], "client": ("c", 1), "server": ("s", 80), "subprotocols": [], "extensions": {}}
        first = [True]
        async def receive():
            if first[0]:
                first[0] = False
                return {"type": "websocket.connect"}
            if self.handling is not None:
                self.log.append(self.handling); self.handling = None; self.handled += 1
            entry, m = await self.inbox.get()
            self.handling = entry
            if entry["k"] == "close":
                self.log.append(entry); self.handling = None; self.handled += 1
                return {"type": "websocket.disconnect", "code": 1000}
            return {"type": "websocket.receive", "text": json.dumps(m)}
        async def send(m):
            if m["type"] == "websocket.accept": self.open = True
            elif m["type"] == "websocket.send":
                self.log.append({"k": "message", "m": json.loads(m.get("text") or m["bytes"].decode())})
        try:
            await self.app(scope, receive, send)
        except Exception as e:
            self.raised = repr(e)
        if self.handling is not None:
            self.log.append(self.handling); self.handling = None; self.handled += 1
    async def say(self, entry, m=None):
        self.sent += 1
        await self.inbox.put((entry, m))
        for _ in range(2000):
            if self.handled >= self.sent or self.task.done(): break
            await asyncio.sleep(0.001)

class Gate:
    """Holds every call of the tracing kernel until it is let through."""
    def __init__(self):
        import pvtrace.engine as eng
        self.mod = eng._kernel; self.real = self.mod.trace_bundle
        self.sem = threading.Semaphore(0); self.open = False
        self.waiting = 0; self.finished = 0; self.lock = threading.Lock()
        self.hold = True
    def __enter__(self):
        def held(*a, **k):
            if not self.hold: return self.real(*a, **k)
            with self.lock: self.waiting += 1
            self.sem.acquire()
            with self.lock: self.waiting -= 1
            try: return self.real(*a, **k)
            finally:
                with self.lock: self.finished += 1
        self.mod.trace_bundle = held
        return self
    def __exit__(self, *a):
        self.hold = False; self.mod.trace_bundle = self.real
        for _ in range(200): self.sem.release()
    async def settle(self):
        """Until a traced bundle is waited for, or nothing goes on."""
        for _ in range(12):
            await asyncio.sleep(0.001)
            if self.waiting: break
        await asyncio.sleep(0.001)
    async def step(self):
        if not self.waiting:
            for _ in range(60):
                await asyncio.sleep(0.001)
                if self.waiting: break
            else: return False
        n = self.finished
        self.sem.release()
        for _ in range(5000):
            if self.finished > n: break
            await asyncio.sleep(0.001)
        await self.settle()
        return True

# ------------------------------------------------------------------ C23: runs

def run_doc(v):
    """Documents whose recorders tell them apart; light without randomness, so a seed fixes everything."""
    if v == 1:
        return """version: "1.0"
nodes:
  world: {sphere: {radius: 10.0, material: {refractive-index: 1.0}}}
  slab: {box: {size: [4, 4, 1], material: {refractive-index: 1.5, components: [dye, grey]}}, record: true}
  lamp: {location: [0.3, 0.2, 3], direction: [0, 0, -1], light: {wavelength: 555}}
components:
  dye: {scatterer: {coefficient: 1.5, quantum-yield: 0.8}}
  grey: {absorber: {coefficient: 0.3}}
recorders:
  one: {node: slab, event: entering, histograms: {wavelength: [500, 600, 4]}}
"""
    return """version: "1.0"
nodes:
  world: {box: {size: [20, 20, 20], material: {refractive-index: 1.0}}}
  ball: {location: [0, 0, 1], sphere: {radius: 1.5, material: {refractive-index: 1.3, components: [fog]}}, record: true}
  lamp: {location: [0.3, 0.2, 5], direction: [0, 0.1, -1], light: {wavelength: 620}}
components:
  fog: {scatterer: {coefficient: 0.7}}
recorders:
  two: {node: ball, event: escaping, histograms: {angle: [0, 1.6, 3], wavelength: [600, 650, 5]}}
  three: {node: ball, event: reflected}
"""

class Reference:
    """What the documents' scenes give for a seed, straight from the engine."""
    def __init__(self, folder):
        import pvtrace.engine as engine
        from pvtrace.cli.parse import parse
        self.engine = engine; self.scenes = {}; self.cache = {}
        for v in (1, 2):
            p = os.path.join(folder, "ref%d.yml" % v)
            open(p, "w").write(run_doc(v)); self.scenes[v] = parse(p)
        self.names = {v: sorted(engine.compile_scene(s).recorder_names) for v, s in self.scenes.items()}
    def sig(self, names):
        return next((v for v in (1, 2) if self.names[v] == sorted(names)), 0)
    def recorders(self, v):
        from anytree import PreOrderIter
        return {r.name: (n.name, r) for n in PreOrderIter(self.scenes[v].root) for r in getattr(n, "recorders", [])}
    def meta(self, v, told):
        for name, (node, r) in self.recorders(v).items():
            m = told.get(name)
            if m is None or m["node"] != node or m["event"] != r.event or len(m["histograms"]) != len(r.histograms): return False
            for h, t in zip(r.histograms, m["histograms"]):
                pairs = [(h.a, t.get("edges_a")), (h.b, t.get("edges_b"))] if hasattr(h, "a") else [(h, t.get("edges"))]
                for axis, edges in pairs:
                    if edges is None or len(edges) != axis.bins + 1: return False
                    if not np.allclose(edges, np.linspace(axis.start, axis.stop, axis.bins + 1)): return False
        return True
    def tally(self, v, seed, n):
        key = (v, seed, n)
        if key not in self.cache:
            s = self.scenes[v]
            r = self.engine.simulate(s, n, seed=seed, workers=1, record_every=0)
            c = r.compiled; d = r.data; out = {}
            for k, spec in enumerate(c.recorder_specs):
                hs = []
                for h in range(len(spec.histograms)):
                    H = spec.histograms[h]; size = H.a.bins * H.b.bins if hasattr(H, "a") else H.bins
                    o = int(c.hist_offset[c.rec_hist_start[k] + h]); hs += [int(x) for x in d["rec_bins"][o:o + size]]
                m = max(1, int(d["rec_distinct"][k]))
                out[spec.name] = ([int(d["rec_distinct"][k]), int(d["rec_crossings"][k])] + hs, [int(round(1e3 * float(d["rec_sums"][k, 0, 0]) / m)), int(round(1e6 * float(d["rec_sums"][k, 1, 0]) / m))])
            self.cache[key] = out
        return self.cache[key]
    def paths(self, v, seed, start, n, every):
        key = (v, seed, start, n, every)
        if key not in self.cache:
            r = self.engine.simulate(self.scenes[v], n, seed=seed + start, workers=1, record_every=every)
            got = []
            for j in range(r.num_recorded):
                c = int(r.data["counts"][j]); b = j * r.max_events
                got.append((r.data["position"][b:b + c], r.data["wavelength"][b:b + c]))
            self.cache[key] = got
        return self.cache[key]

def judge_log(log, cmds, ref):
    """The log with every message abstracted and set against the reference."""
    out = []; cur = 0; sig = 0; traced = 0
    for e in log:
        if e["k"] != "message":
            out.append(e); continue
        m = e["m"]; t = m.get("type"); ids = {x["rays"]: x["id"] for x in cmds}
        if t == "started":
            cur = ids.get(m["total"], 0); sig = ref.sig(m["histograms"]); traced = 0
            out.append({"k": "started", "id": cur, "sig": sig, "meta": bool(sig) and ref.meta(sig, m["histograms"])})
        elif t == "bundle":
            i = ids.get(m["total"], 0); s = ref.sig(m["recorders"]); n = m["traced"]
            x = {"k": "bundle", "id": i, "sig": s, "traced": n, "obs": [], "ref": [], "obsm": [], "refm": [], "paths": len(m["paths"]), "pathok": True}
            if i and s and 0 < n <= 100000:
                run = next(c for c in cmds if c["id"] == i)
                want = ref.tally(s, run["seed"], n)
                for name in sorted(want):
                    g = m["recorders"][name]
                    x["obs"] += [g["rays"], g["crossings"]] + [v for h in g["histograms"] for v in h["values"]]
                    x["ref"] += want[name][0]
                    x["obsm"] += [int(round(1e3 * g["mean_wavelength"])), int(round(1e6 * g["mean_angle"]))]
                    x["refm"] += want[name][1]
                if i == cur and s == sig and n > traced:
                    real = [p for p in ref.paths(s, run["seed"], traced, n - traced, run["every"])]
                    for p in m["paths"]:
                        P = np.array(p["points"]); W = np.array(p["wavelengths"])
                        if len(P) < 2 or len(W) != len(P) or not any(len(q) == len(P) and np.allclose(q, P, atol=2e-6) and np.allclose(w, W, atol=0.011) for q, w in real): x["pathok"] = False
            traced = n
            out.append(x)
        elif t == "done": out.append({"k": "done"})
        elif t == "error": out.append({"k": "error"})
        else: out.append({"k": "unknown"})
    return out

def schedule_job(job):
    """Schedules of commands, edits and traced bundles, through the real server."""
    folder = os.path.join(vlib.scratch(), "run%d" % os.getpid()); os.makedirs(folder, exist_ok=True)
    import pvtrace.engine
    from pvtrace.studio import server
    ref = Reference(folder)
    doc = os.path.join(folder, "scene.yml")
    async def one(schedules, seed):
        open(doc, "w").write(run_doc(1))
        app = server.create_app(doc)
        with Gate() as gate:
            gate.hold = True
            socks = [Socket(app) for _ in schedules]
            cmds = [[] for _ in schedules]
            for _ in range(20): await asyncio.sleep(0)
            for s in socks: s.log.append({"k": "edit", "doc": 1})
            rng = random.Random(seed)
            todo = [[w, list(s)] for w, s in enumerate(schedules)]
            while any(t[1] for t in todo):
                w, rest = rng.choice([t for t in todo if t[1]])
                name, arg = rest.pop(0)
                s = socks[w]
                if name == "run":
                    k = len(cmds[w]) + 1
                    size = rng.choice([20, 33]); n = max(arg, 1)     # arg bundles; 0 stands for a command that cannot be run
                    rays = n * size - rng.choice([0, rng.randrange(size)])
                    while any(c["rays"] == rays for c in cmds[w]): rays = n * size - rng.randrange(size)
                    every = rng.choice([0, 1, 5]); cap = rng.choice([200, 30, 3])
                    p = {"cmd": "run", "rays": rays, "bundle": size, "seed": rng.randrange(1, 1 << 20), "record_every": every, "max_paths": cap}
                    bad = False
                    if arg == 0:
                        bad = True; p.update(rng.choice([{"rays": "many"}, {"bundle": 0}, {"bundle": -5}, {"rays": None}, {"bundle": "x"}]))
                    cmds[w].append({"id": k, "rays": rays, "seed": p["seed"], "every": every, "bad": bad})
                    await s.say({"k": "run", "rays": rays, "bundle": size, "bad": bad, "maxpaths": cap}, p)
                elif name == "stop": await s.say({"k": "stop"}, {"cmd": "stop"})
                elif name == "close": await s.say({"k": "close"})
                elif name == "edit":
                    r = await http(app, "PUT", "/api/document", {"text": run_doc(arg)})
                    if r["status"] != 200: raise vlib.Machinery("edit refused: %r" % r)
                    for x in socks: x.log.append({"k": "edit", "doc": arg})
                elif name == "step": await gate.step()
                await gate.settle()
            for _ in range(40):      # let everything through
                if not await gate.step(): break
            # anything still being sent
            for _ in range(30): await asyncio.sleep(0.001)
            logs = [list(s.log) for s in socks]
            for s in socks:
                if not s.task.done(): await s.say({"k": "close"})
            for s in socks:
                try: await asyncio.wait_for(s.task, 5)
                except (asyncio.TimeoutError, Exception): s.task.cancel()
            gate.hold = False
        return [{"schedule": [list(x) for x in sch], "seed": seed, "log": judge_log(l, cm, ref)} for sch, l, cm in zip(schedules, logs, cmds)]
    out = []
    for schedules, seed in job:
        out += asyncio.run(one(schedules, seed))
    return out

def C23(c):
    vlib.load_kernel()
    import pvtrace.studio.server, pvtrace.cli.parse
    rng = random.Random(vlib.SEED * 17 + 23)
    cfg = "SPECIFICATION Spec\nINVARIANT Inv\nINVARIANT Bound\nPROPERTY Ends\nCONSTANTS\n MaxRuns = %d\n MaxStops = %d\n MaxEdits = %d\n Sizes = {%s}\n Emit = %s\n"
    acts = ("Run", "Stop", "Edit", "Begin", "Step", "Finish", "Close")
    big = (3, 1, 1, "1, 2", "FALSE") if c.quick else (4, 2, 2, "0, 1, 3", "FALSE")
    c.model("StudioRun", cfg % big, name="StudioRun (design)", timeout=800, mem="8g", expect_actions=acts)
    r = c.model("StudioRun", cfg % ((2, 1, 1, "1, 3", "TRUE")), name="StudioRun (schedules)", timeout=300, mem="6g")
    sch = [v[0] for v in r.verdicts]
    if len(sch) < 1000: raise vlib.Machinery("StudioRun printed %d schedules" % len(sch))
    s = vlib.tlc("StudioRun", cfg.replace("PROPERTY Ends\n", "") % (4, 3, 2, "0, 1, 2, 3", "TRUE"), extra=["-simulate", "num=%d" % (60 if c.quick else 1000), "-depth", "40", "-seed", str(vlib.SEED)], workers=2, timeout=300)
    if s.error: raise vlib.Machinery("StudioRun simulation: " + s.error)
    deep = list({json.dumps(v[0]): v[0] for v in s.verdicts}.values())
    n1, n2, n3 = (420, 260, 60) if c.quick else (len(sch), 6000, 800)
    picks = [[x] for x in (rng.sample(sch, n1) if len(sch) > n1 else sch)]
    picks += [[x] for x in (rng.sample(deep, n2) if len(deep) > n2 else deep)]
    picks += [[rng.choice(deep), rng.choice(sch)] for _ in range(n3)]
    picks = [(p, rng.randrange(1 << 30)) for p in picks]
    c.part("schedules", enumerated=len(sch), simulated=len(deep), replayed=len(picks))
    recs = run_jobs(schedule_job, [picks[k:k + 15] for k in range(0, len(picks), 15)])
    c.part("messages", bundles=sum(1 for x in recs for e in x["log"] if e["k"] == "bundle"), runs=sum(1 for x in recs for e in x["log"] if e["k"] == "started"))
    if sum(1 for x in recs for e in x["log"] if e["k"] == "bundle") < len(recs) // 4: raise vlib.Machinery("hardly any updates seen")
    c.judge("RunTrace", recs, workers=1, mem="6g", timeout=800)

# ------------------------------------------------------------------ C21, C22: the document

DOCS = ['''version: "1.0"   # a scene with everything
nodes:
  # the world
  world: {sphere: {radius: 10.0, material: {refractive-index: 1.0}}}
  a:
    parent: world
    location: [1, 0.5, -2]   # where it is
    record: true
    box:
      size: [2, 2, 1]
      material:
        refractive-index: 1.5
        components: [dye, grey]
  b:
    parent: a
    location: [0.25, 0, 0.125]
    sphere:
      radius: 0.25
      material: {refractive-index: 1.2, components: ["grey"]}
  lamp:
    parent: a
    location: [0, 0, 3]
    direction: [0, 0, -1]
    light: {wavelength: 555}

components:
  dye: {scatterer: {coefficient: 1.5, quantum-yield: 0.8}}
  grey:
    absorber: {coefficient: 0.3}

recorders:
  one: {node: b, event: entering, histograms: {wavelength: [500, 600, 4]}}
  a-top: {node: a, event: escaping, facet: [0, 0, 1], atol: 1.0e-5}
''', '''version: "1.0"
nodes:
  world:
    box:
      size: [20, 20, 20]
      material:
        refractive-index: 1.0
  lamp:
    light:
      wavelength: 620
''', '''# turned nodes
version: '1.0'
nodes:
    world: {cylinder: {length: 30, radius: 12.5, material: {refractive-index: 1}}}
    slab:
        location: [0, 1, 2]
        direction: [1.0, 2.0, 3.0]
        box: {size: [4, 1, 0.5], material: {refractive-index: 1.4}}
    rod:
        parent: slab
        location: [0.5, -0.25, 0.125]
        record: false
        cylinder: {length: 0.2, radius: 0.1, material: {refractive-index: 1.1, components: [fog]}}
    spot:
        parent: slab
        location: [0, 0, 4]
        light: {wavelength: 500, mask: {direction: {cone: {half-angle: 10}}, position: {rect: [0.5, 0.5]}}}
components: {fog: {absorber: {coefficient: 2}}}
recorders:
    rod-escaping: {node: rod, event: escaping}
''', '''version: "1.0"
recorders: {}
components: {}
nodes:
  on-axis: {parent: box-1, location: [0, 0, 0.000012], sphere: {radius: 0.5, material: {refractive-index: 1.5}}}
  box-1: {record: true, box: {size: [3, 4, 5], material: {refractive-index: 1.6, components: []}}}
  world: {sphere: {radius: 50, material: {refractive-index: 1.0}}}
  light-1: {location: [0, 0, 20], direction: [0, 0, -1], light: {wavelength: 700}}
''']

def floats(v):
    if isinstance(v, bool) or v is None or isinstance(v, str): return v
    if isinstance(v, (int, float)): return float(v)
    if isinstance(v, dict): return {str(k): floats(x) for k, x in v.items()}
    return [floats(x) for x in v]
def canon(v): return json.dumps(floats(v), sort_keys=True)
def micro(v): return [int(round(1e6 * float(x))) for x in v]

def abstract(text):
    """A document as StudioDoc has it, or None if it cannot be put so."""
    import yaml
    spec = yaml.safe_load(text)
    nodes = []
    for name, s in (spec.get("nodes") or {}).items():
        s = dict(s)
        kinds = [k for k in ("box", "sphere", "cylinder", "mesh", "light") if k in s]
        x = {"name": str(name), "kind": kinds[0] if kinds else "", "parent": s.pop("parent", None) or "", "loc": [], "dir": "", "size": "", "radius": "", "length": "", "index": "", "comps": [], "record": "", "wl": "", "cone": "", "whole": len(kinds) == 1 and isinstance(name, str)}
        if s.get("location") is not None: x["loc"] = micro(s.pop("location"))
        s.pop("location", None)
        if s.get("direction") is not None: x["dir"] = canon(s.pop("direction"))
        if "record" in s: x["record"] = "true" if s.pop("record") else "false"
        for k in kinds:
            body = dict(s.pop(k) or {})
            if k == "light":
                if "wavelength" in body: x["wl"] = canon(body.pop("wavelength"))
                body = json.loads(json.dumps(body)); c = ((body.get("mask") or {}).get("direction") or {}).get("cone")
                if isinstance(c, dict) and list(c) == ["half-angle"]:
                    x["cone"] = canon(c["half-angle"]); del body["mask"]["direction"]
                    if not body["mask"]: del body["mask"]
                s.update(body)
            else:
                for f in ("size", "radius", "length"):
                    if f in body: x[f] = canon(body.pop(f))
                m = dict(body.pop("material", None) or {})
                if "refractive-index" in m: x["index"] = canon(m.pop("refractive-index"))
                x["comps"] = list(m.pop("components", None) or [])
                s.update(body); s.update({"material." + q: v for q, v in m.items()})
        x["rest"] = canon(s)
        nodes.append(x)
    comps = []
    for name, s in (spec.get("components") or {}).items():
        kind = next(iter(s), ""); body = dict(s.get(kind) or {})
        comps.append({"name": str(name), "kind": kind, "coef": canon(body.pop("coefficient")) if "coefficient" in body else "", "rest": canon(dict(body, **{k: v for k, v in s.items() if k != kind}))})
    recs = []
    for name, s in (spec.get("recorders") or {}).items():
        s = dict(s)
        recs.append({"name": str(name), "node": s.pop("node", ""), "event": s.pop("event", ""), "facet": canon(s.pop("facet")) if "facet" in s else "", "atol": canon(s.pop("atol")) if "atol" in s else "",
                     "rest": canon(dict(s.pop("histograms", None) or {}, **{"~" + k: v for k, v in s.items()}))})
    rest = {k: v for k, v in spec.items() if k not in ("nodes", "components", "recorders")}
    return {"nodes": nodes, "comps": comps, "recs": recs, "rest": canon(rest)}

def sizes(doc):
    """The numbers the geometry of each node should be described with."""
    out = {"~": ""}
    for x in doc["nodes"]:
        g = lambda f: json.loads(x[f])
        if x["kind"] == "box": out[x["name"]] = canon(g("size") + [0.0])
        elif x["kind"] == "sphere": out[x["name"]] = canon([g("radius"), 0.0, 0.0, 0.0])
        elif x["kind"] == "cylinder": out[x["name"]] = canon([g("length"), g("radius"), 0.0, 0.0])
    return out

def scene_view(s):
    """The scene payload; matrices are column by column."""
    if not s: return {"nodes": [], "lights": [], "recorders": []}
    at = lambda m: [max(-2000000000, min(2000000000, int(round(1e6 * v)))) for v in m[12:15]]
    return {"nodes": [{"name": n["name"], "kind": n["type"], "root": bool(n["root"]), "params": canon(n["params"]), "pos": at(n["matrix"])} for n in s["nodes"]],
            "lights": [{"name": n["name"], "pos": at(n["matrix"])} for n in s["lights"]],
            "recorders": [{"name": r["name"], "node": r["node"], "event": r["event"], "auto": bool(r["auto"])} for r in s["recorders"]]}

def rec_view(r):
    h = {}
    for x in r["histograms"]:
        if x["kind"] == "heatmap": h["position"] = [x["prop_a"], x["prop_b"], x["range_a"], x["range_b"]]
        else: h[x["prop"]] = x["range"]
    return [canon(h), canon(r["facet"]) if r["facet"] else ""]

def payload(o, doc, rng):
    """A patch request for an edit of the specification."""
    kind = next((x["kind"] for x in doc["nodes"] if x["name"] == o["a"]), "ghost")
    solid = kind if kind in ("box", "sphere", "cylinder") else "box"
    op, a, f, v = o["op"], o["a"], o["f"], o["v"]
    if op == "set":
        if f == "parent": path, value = ["parent"], v or None
        elif f == "badloc": path, value = ["location"], json.loads(v)
        elif f == "loc": path, value = ["location"], [x / 1e6 for x in v]
        elif f == "dir": path, value = ["direction"], json.loads(v)
        elif f == "record": path, value = ["record"], v == "true"
        elif f == "size": path, value = ["box", "size"], json.loads(v)
        elif f == "radius": path, value = ["cylinder" if kind == "cylinder" else "sphere", "radius"], json.loads(v)
        elif f == "length": path, value = ["cylinder", "length"], json.loads(v)
        elif f == "index": path, value = [solid, "material", "refractive-index"], json.loads(v)
        elif f == "comps": path, value = [solid, "material", "components"], list(v)
        elif f == "cone": path, value = ["light", "mask", "direction", "cone", "half-angle"], json.loads(v)
        elif f == "wl": path, value = ["light", "wavelength"], json.loads(v)
        return {"op": "set", "path": ["nodes", a] + path, "value": value}
    if op == "set-node": return {"op": "set", "path": ["nodes", a], "value": {"box": {"size": [2, 1, 0.5], "material": {"refractive-index": 1.3}}}}
    if op == "set-comp": return {"op": "set", "path": ["components", a, f, "coefficient"], "value": json.loads(v)}
    if op == "move": return {"op": "move", "node": a, "world_position": [x / 1e6 for x in v]}
    if op == "add-node": return {"op": "add-node", "kind": f}
    if op in ("add-recorder", "add-face-recorders", "delete-node"): return {"op": op, "node": a}
    if op == "add-component": return {"op": op}
    if op == "delete-component": return {"op": op, "component": a}
    if op == "update-recorder": return {"op": op, "recorder": a, "changes": {f: json.loads(v) if f != "event" or o["bad"] else v}}
    if op == "delete-recorder": return {"op": op, "recorder": a}
    return rng.choice([{"op": "nonsense"}, {}, {"op": "set"}, {"op": "set", "path": [], "value": 1}, {"op": "set", "path": ["nodes"], "value": None}, {"op": "move"}, {"op": "add-node"}, {"op": "delete-node"}])

BAD = {"syntax": "nodes: [1, 2", "list": "- 1\n- 2\n", "schema": DOCS[1].replace("wavelength: 620", "wavelength: red"), "component": DOCS[0].replace("[dye, grey]", "[dye, gone]"),
       "parent": DOCS[0].replace("parent: a\n    location: [0.25", "parent: gone\n    location: [0.25"), "mesh": DOCS[1].replace("  lamp:", "  thing: {mesh: {file: thing.stl, material: {refractive-index: 1.5}}}\n  lamp:"), "empty": ""}

def listing(*folders):
    out = {}
    for top in folders:
        for d, ds, fs in os.walk(top):
            for f in fs + [x + "/" for x in ds]:
                p = os.path.join(d, f)
                out[p] = open(p, "rb").read() if not f.endswith("/") and not os.path.islink(p) else b""
    return out

def document_job(job):
    import resource
    top = os.path.join(vlib.scratch(), "doc%d" % os.getpid())
    import pvtrace.engine as engine
    from pvtrace.cli.parse import parse
    from pvtrace.studio import server
    async def one(start, ops, seed):
        rng = random.Random(seed)
        import shutil
        shutil.rmtree(top, ignore_errors=True)
        home = os.path.join(top, "home"); cwd = home if rng.random() < 0.5 else os.path.join(top, "elsewhere")
        for f in (home, cwd): os.makedirs(f, exist_ok=True)
        os.chdir(cwd)
        path = os.path.join(home, "scene.yml")
        text = DOCS[start - 1]
        open(path, "w").write(text)
        app = server.create_app(path if rng.random() < 0.7 or cwd != home else "scene.yml")
        doc = abstract(text); recs = []; view = {}
        async def get(): return (await http(app, "GET", "/api/document"))["json"]["text"]
        done = []
        for k, o in enumerate(ops):
            before = listing(home, cwd); was = await get(); docwas = abstract(was)
            done.append(o["op"] + (":" + str(o["a"]) if o["a"] else ""))
            r = {"kind": "step", "asked": o, "before": docwas, "served": False, "filesame": True, "auto": [], "params": {"~": ""}}
            answer = None; allowed = set()
            if o["op"] == "put":
                t = DOCS[int(o["a"]) - 1]; answer = await http(app, "PUT", "/api/document", {"text": t})
            elif o["op"] == "fault":
                t = DOCS[int(o["a"]) - 1]; soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (rng.choice([0, 10, 200]), hard))
                try: answer = await http(app, "PUT", "/api/document", {"text": t})
                finally: resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            elif o["op"] == "put-bad":
                bad = o["a"]
                if bad == "python":
                    answer = await http(app, "PUT", "/api/document", {"text": "!!python/object/apply:os.mkdir ['%s']\n" % os.path.join(home, "made") if rng.random() < 0.5 else DOCS[1] + "extra: !!python/object/apply:os.mkdir ['%s']\n" % os.path.join(home, "made")})
                elif bad == "missing-key": answer = await http(app, "PUT", "/api/document", {"document": DOCS[0]})
                elif bad == "not-text": answer = await http(app, "PUT", "/api/document", {"text": rng.choice([None, 3, ["x"], {"nodes": 1}])})
                else: answer = await http(app, "PUT", "/api/document", {"text": BAD[bad]})
            elif o["op"] == "save":
                answer = await http(app, "POST", "/api/save", rng.choice([None, {}])); allowed = {path, os.path.join(home, "scene.yml")}
            elif o["op"] == "reload":
                app = server.create_app(path); view = {}
                answer = {"status": 200, "json": {"scene": None}}
            elif o["op"] == "upload":
                body = {"good": {"name": "data.csv", "content": "1,2\n%d,0.5\n" % k}, "name": {"name": "data.exe", "content": "x"}, "content": {"name": "other.csv"}, "surrogate": {"name": "other.csv", "content": "x\ud800"}}[o["a"]]
                answer = await http(app, "POST", "/api/upload", body)
                if o["a"] == "good": allowed = {os.path.join(home, "data.csv")}
            else:
                answer = await http(app, "POST", "/api/patch", payload(o, docwas, rng))
                if o["op"] == "update-recorder" and o["a"] in view and not any(x["name"] == o["a"] for x in docwas["recs"]): r["auto"] = view[o["a"]]
            now = await get(); after = listing(home, cwd)
            js = answer["json"] if isinstance(answer["json"], dict) else {}
            r["status"] = answer["status"]; r["textsame"] = now == was
            r["after"] = abstract(now) if now != was else docwas
            if o["op"] in ("put", "fault"): r["served"] = now == t
            elif "text" in js: r["served"] = now == js["text"]
            content = open(path, newline="").read()
            if o["op"] == "save": r["filesame"] = content == now
            elif o["op"] == "reload": r["filesame"] = content == now
            else: r["filesame"] = before[path] == after[path]
            r["litter"] = sorted(os.path.relpath(p, top) for p in set(before) | set(after) if before.get(p) != after.get(p) and p not in allowed and p != path)
            r["scene"] = scene_view(js.get("scene"))
            if js.get("scene"): view = {x["name"]: rec_view(x) for x in js["scene"]["recorders"]}
            if r["status"] == 200: r["params"] = sizes(r["after"])
            r["story"] = [start] + list(done)
            recs.append(r)
        # what is traced is what is served
        now = await get()
        p = os.path.join(home, "served.yml"); open(p, "w").write(now)
        scene = parse(p); os.unlink(p)
        names = engine.compile_scene(scene).recorder_names
        n = 40; sd = rng.randrange(1, 1 << 20); wanted = None
        random.seed(sd); np.random.seed(sd)
        try:
            res = engine.simulate(scene, n, seed=sd, workers=1, record_every=1)
            wanted = {name: [int(res.data["rec_distinct"][i]), int(res.data["rec_crossings"][i])] for i, name in enumerate(res.compiled.recorder_names)}
            end = sorted(canon(np.round(res.data["position"][j * res.max_events:j * res.max_events + int(res.data["counts"][j])], 6).tolist()) for j in range(res.num_recorded) if int(res.data["counts"][j]) >= 2)
        except Exception as e: wanted = None
        s = Socket(app)
        random.seed(sd); np.random.seed(sd)
        await s.say({"k": "run"}, {"cmd": "run", "rays": n, "bundle": n, "seed": sd, "record_every": 1, "max_paths": n})
        for _ in range(5000):
            if any(e["k"] == "message" and e["m"]["type"] in ("done", "error") for e in s.log): break
            await asyncio.sleep(0.001)
        await s.say({"k": "close"})
        try: await asyncio.wait_for(s.task, 5)
        except (asyncio.TimeoutError, Exception): s.task.cancel()
        got = [e["m"] for e in s.log if e["k"] == "message" and e["m"]["type"] == "bundle"]
        if wanted is None: same = not got
        else: same = len(got) == 1 and {k: [x["rays"], x["crossings"]] for k, x in got[0]["recorders"].items()} == wanted and sorted(canon(x["points"]) for x in got[0]["paths"]) == end
        recs.append({"kind": "run", "same": bool(same), "story": [start] + done, "text": now})
        os.chdir(vlib.scratch()); shutil.rmtree(top, ignore_errors=True)
        return recs
    out = []
    for start, ops, seed in job: out += asyncio.run(one(start, ops, seed))
    return out

def documents(c, prop):
    vlib.load_kernel()
    import pvtrace.studio.server, pvtrace.cli.parse, ruamel.yaml
    rng = random.Random(vlib.SEED * 19 + (21 if prop == "C21" else 22))
    f = os.path.join(vlib.scratch(), "docs.ndjson")
    open(f, "w").write("".join(json.dumps(abstract(d)) + "\n" for d in DOCS))
    cfg = "INIT Init\nNEXT Next\nINVARIANT Inv\nPROPERTY Frame\nCONSTANTS\n Depth = %d\n Mode = \"%s\"\n"
    r = c.model("Studio", cfg % (1, "all"), name="Studio (every single request)", env={"DOCS": f}, timeout=300, mem="6g")
    one = r.verdicts
    if len(one) < 500: raise vlib.Machinery("Studio printed %d behaviours" % len(one))
    if not c.quick: c.model("Studio", cfg % (2, "all"), name="Studio (two requests)", env={"DOCS": f}, timeout=800, mem="10g")
    t = c.model("Studio", cfg % (5 if c.quick else 6, "names"), name="Studio (names come and go)", env={"DOCS": f}, timeout=300, mem="6g")
    again = t.verdicts if len(t.verdicts) < 400 else rng.sample(t.verdicts, 150 if c.quick else 900)
    n = 130 if c.quick else 1300
    s = vlib.tlc("Studio", (cfg % (9, "random")).replace("PROPERTY Frame\n", ""), env={"DOCS": f}, extra=["-simulate", "num=%d" % n, "-depth", "12", "-seed", str(vlib.SEED + (0 if prop == "C21" else 1000))], workers=4, timeout=600)
    if s.error: raise vlib.Machinery("Studio simulation: " + s.error)
    behaviours = [(v[0], [dict(zip(("op", "a", "f", "v", "bad"), o)) for o in v[1]]) for v in one + again + s.verdicts if v[1]]
    c.part("behaviours", single=len(one), names=len(again), simulated=len(s.verdicts))
    recs = run_jobs(document_job, [[(b[0], b[1], rng.randrange(1 << 30)) for b in behaviours[k:k + 12]] for k in range(0, len(behaviours), 12)])
    keep = [x for x in recs if x["kind"] == "step" or prop == "C21"]
    counts = {}
    for x in keep:
        if x["kind"] == "step": k = x["asked"]["op"] + ("+" if x["status"] == 200 else "-"); counts[k] = counts.get(k, 0) + 1
    c.part("requests", **counts)
    judge_mine(c, prop, keep)

def judge_mine(c, prop, recs, module="StudioTrace"):
    """Only this property's clauses count here; the others belong to the other check."""
    mark = len(c.violations)
    c.judge(module, recs, workers=1, mem="8g", timeout=800)
    c.only_mine(mark)

def C21(c): documents(c, "C21")
def C22(c): documents(c, "C22")

# ------------------------------------------------------------------ C24: what may be written

WORDS = {"NUL": "\0", "COLON": "C:", "e-acute": "\u00e9"}
MAGIC = ["made-by-a-document"]

def as_nobody(top):
    """This process (a worker) gives up its rights, so that a request which escapes reaches nothing real."""
    os.chmod(top, 0o777)
    try:
        os.setgroups([]); os.setgid(65534); os.setuid(65534)
        return True
    except OSError:
        return os.getuid() != 0

def upload_job(job):
    import shutil, tempfile, resource, yaml
    from pvtrace.studio import server
    import pvtrace.engine as engine
    kind, items, seed = job
    rng = random.Random(seed)
    top = tempfile.mkdtemp(prefix="pvv-up-", dir="/tmp")
    safe = as_nobody(top)
    out = []
    async def one(item):
        work = os.path.join(top, "w%d" % rng.randrange(1 << 40)); home = os.path.join(work, "x", "y", "z", "home")
        cwd = home if rng.random() < 0.3 else os.path.join(work, "x", "cwd")
        for f in (home, cwd, os.path.join(home, "sub")): os.makedirs(f, exist_ok=True)
        path = os.path.join(home, "scene.yml"); open(path, "w").write(DOCS[1])
        open(os.path.join(home, "a.csv"), "w").write("old\n")
        os.chdir(cwd); os.environ["HOME"] = os.path.join(work, "x")
        app = server.create_app(path if kind != "nofile" else None)
        before = listing(work)
        rec = {"kind": kind, "named": False, "pieces": [], "base": "", "content": True, "saved": "", "must": "either", "ran": False}
        magic = os.path.join(work, MAGIC[0])
        if kind == "upload":
            pieces, accept = item["pieces"], item["accept"]
            if not safe and pieces and pieces[0] == "/": return None
            name = "".join((work + "/") if p == "ROOT/" else WORDS.get(p, p) for p in pieces)
            text = "wavelength,value\n%d,0.5\n" % rng.randrange(9999)
            rec["must"] = "accept" if accept else "refuse"
            tail = name.split("/")[-1]
            rec.update(named=True, pieces=pieces, base=tail)
            r = await http(app, "POST", "/api/upload", {"name": name, "content": text})
            if r["status"] == 200:
                p = os.path.join(home, tail)
                rec["content"] = os.path.isfile(p) and open(p).read() == text
                rec["saved"] = (r["json"] or {}).get("saved", "")
        elif kind == "nofile":
            rec["kind"] = "upload" if item % 2 == 0 else "other"; rec["must"] = "refuse"
            r = await http(app, "POST", "/api/upload", {"name": "a.csv", "content": "x"}) if item % 2 == 0 else await http(app, "POST", "/api/save", None)
        elif kind == "odd":
            rec["kind"] = "upload"; rec["must"] = "refuse"
            body = [{"name": "b.csv"}, {"content": "x"}, {}, {"name": 3, "content": "x"}, {"name": None, "content": "x"}, {"name": ["b.csv"], "content": "x"}, {"name": "b.csv", "content": 5}, {"name": "b.csv", "content": None}, {"name": "b.csv", "content": ["x"]},
                    {"name": "b.csv", "content": "x\ud800"}, {"name": "a.csv", "content": "x\udfff"}, {"name": "b\ud800.csv\ud800", "content": "x"}, {"name": "", "content": "x"}, {"name": "..", "content": "x"}, {"name": "sub", "content": "x"}][item % 15]
            r = await http(app, "POST", "/api/upload", body)
        elif kind == "document":
            how = item % 12; t = DOCS[rng.randrange(4)]
            fault = None
            if how == 0: t = "!!python/object/apply:os.mkdir ['%s']\n" % magic
            elif how == 1: t = DOCS[1].replace("wavelength: 620", "wavelength: !!python/object/apply:os.mkdir ['%s']" % magic)
            elif how == 2: t = DOCS[1] + "components: !!python/object/new:os.mkdir ['%s']\n" % magic
            elif how == 3: t = BAD[rng.choice(sorted(BAD))]
            elif how == 4: fault = rng.choice([0, 7, 300])
            elif how == 5: t = DOCS[1].replace("version", "version\ud800")
            elif how == 6: t = DOCS[1].replace("light:\n      wavelength: 620", "light:\n      mask: {wavelength: {spectrum: {file: missing.csv}}}")
            elif how == 7: t = DOCS[0].replace("coefficient: 0.3", "spectrum: {file: ../../nothing.csv}")
            elif how == 8: t = "%TAG ! tag:yaml.org,2002:python/object/apply:\n---\n!os.mkdir ['" + magic + "']\n"
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            if fault is not None: resource.setrlimit(resource.RLIMIT_FSIZE, (fault, hard))
            try: r = await http(app, "PUT", "/api/document", {"text": t})
            finally: resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        elif kind == "patch":
            p = rng.choice([{"op": "add-node", "kind": "box"}, {"op": "set", "path": ["nodes", "lamp", "location"], "value": [0, 0, 1]}, {"op": "set", "path": ["nodes", "lamp", "parent"], "value": "gone"}, {"op": "set", "path": ["nodes", "x"], "value": {"mesh": {"file": "../m.stl", "material": {"refractive-index": 1}}}},
                            {"op": "nothing"}, {"op": "set", "path": ["version"], "value": "!!python/object/apply:os.mkdir ['%s']" % magic}, {"op": "delete-node", "node": "lamp"}, {"op": "add-component"}, {"op": "delete-node", "node": "world"}])
            r = await http(app, "POST", "/api/patch", p)
        elif kind == "save":
            if rng.random() < 0.5: await http(app, "PUT", "/api/document", {"text": DOCS[rng.randrange(4)]})
            r = await http(app, "POST", "/api/save", rng.choice([None, {}, {"path": os.path.join(work, "elsewhere.yml")}, {"name": "../other.yml"}]))
        elif kind == "read":
            r = await http(app, "GET", rng.choice(["/", "/api/document", "/static/app.js", "/static/../server.py", "/static/%2e%2e/server.py", "/api/nothing"]))
            if r["status"] == 200 and b"def create_app" in r["body"]: rec["ran"] = True
        after = listing(work)
        rec["ran"] = rec["ran"] or os.path.exists(magic)
        rec["status"] = r["status"]
        rec["changed"] = [{"name": os.path.basename(p.rstrip("/")), "out": os.path.dirname(p.rstrip("/")) != home} for p in sorted(set(before) | set(after)) if before.get(p) != after.get(p)]
        rec["item"] = item if kind != "upload" else ""
        os.chdir("/")
        shutil.rmtree(work, ignore_errors=True)
        return rec
    for item in items:
        r = asyncio.run(one(item))
        if r: out.append(r)
    os.chdir("/")
    shutil.rmtree(top, ignore_errors=True)
    return out

def C24(c):
    vlib.load_kernel()
    import pvtrace.studio.server, pvtrace.cli.parse, ruamel.yaml, ruamel.yaml.comments, shutil, tempfile, copy, anytree, encodings.idna
    rng = random.Random(vlib.SEED * 23 + 24)
    warm = os.path.join(vlib.scratch(), "warm"); os.makedirs(warm); open(os.path.join(warm, "s.yml"), "w").write(DOCS[0])
    async def go():     # everything imported before the workers give up their rights
        app = pvtrace.studio.server.create_app(os.path.join(warm, "s.yml"))
        for op in ({"op": "add-node", "kind": "box"}, {"op": "add-face-recorders", "node": "a"}, {"op": "move", "node": "b", "world_position": [0, 0, 0]}): await http(app, "POST", "/api/patch", op)
        await http(app, "GET", "/"); await http(app, "GET", "/static/app.js"); await http(app, "POST", "/api/upload", {"name": "a.csv", "content": "x"}); await http(app, "POST", "/api/upload", {})
    asyncio.run(go())
    f = os.path.join(vlib.scratch(), "names.ndjson")
    r = vlib.tlc("Upload", "INIT Init\nNEXT Next\nCONSTANT Mode = \"names\"\n", env={"OUT": f}, workers=1, timeout=300)
    if r.error: raise vlib.Machinery("Upload names: " + r.error)
    names = [json.loads(l) for l in open(f)]
    n = len(names)
    if n < 5000: raise vlib.Machinery("Upload wrote %d names" % n)
    if c.quick: names = [x for x in names if x["accept"] and rng.random() < 0.5 or rng.random() < 0.25]
    c.part("names", enumerated=n, tried=len(names))
    k = 1 if c.quick else 8
    jobs = [("upload", names[i:i + 60], rng.randrange(1 << 30)) for i in range(0, len(names), 60)]
    for kind, m in (("odd", 60), ("nofile", 10), ("document", 240), ("patch", 120), ("save", 60), ("read", 40)):
        jobs += [(kind, list(range(i, i + 20)), rng.randrange(1 << 30)) for i in range(0, m * k, 20)]
    # each job in a process of its own, since rights once given up do not come back
    recs = run_jobs_once(upload_job, jobs)
    counts = {}
    for x in recs: counts[x["kind"] + str(x["status"])] = counts.get(x["kind"] + str(x["status"]), 0) + 1
    c.part("requests", **counts)
    c.judge("Upload", recs, cfg="INIT Init\nNEXT Next\nCONSTANT Mode = \"judge\"\n", workers=1, mem="6g", timeout=600)

def run_jobs_once(fn, jobs):
    import multiprocessing
    from checks_query import _guarded
    ctx = multiprocessing.get_context("fork"); out = []
    with ctx.Pool(vlib.CORES, maxtasksperchild=1) as pool:
        for kind, r in pool.imap(_guarded, [(fn, j) for j in jobs], chunksize=1):
            if kind == "repo": raise vlib.RepoRaised(r)
            if kind == "machinery": raise vlib.Machinery(r)
            out += r
    return out

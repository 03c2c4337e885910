"""C30: user-supplied surfaces, phase functions and light delegates (Asked, AskTrace)."""
import functools, random
import numpy as np
import vlib
from checks_query import run_jobs
from record import mt_constant
from scenes import rand_world, rand_rays, rand_dir, rand_rot, rot, v3l, v3u, ui, NM

def delegate_class():
    from pvtrace.material.surface import SurfaceDelegate
    class Custom(SurfaceDelegate):
        """Answers from `plan`, and writes down what it was asked."""
        def __init__(self, owner, log, plan): self.owner, self.log, self.plan = owner, log, plan
        def ask(self, f, surface, ray, geometry, container, adjacent, answer):
            self.log.append((f, self.owner, surface, ray, geometry, container, adjacent, answer))
            return answer
        def reflectivity(self, surface, ray, geometry, container, adjacent):
            return self.ask("reflectivity", surface, ray, geometry, container, adjacent, self.plan.reflectivity(ray, geometry))
        def reflected_direction(self, surface, ray, geometry, container, adjacent):
            return self.ask("reflected", surface, ray, geometry, container, adjacent, self.plan.direction(ray, geometry, -1))
        def transmitted_direction(self, surface, ray, geometry, container, adjacent):
            return self.ask("transmitted", surface, ray, geometry, container, adjacent, self.plan.direction(ray, geometry, 1))
    class Hollow(Custom):
        """Counts as false, and is a delegate all the same."""
        def __len__(self): return 0
    return lambda owner, log, plan: (Hollow if owner % 2 else Custom)(owner, log, plan)

class Empty:
    """Callables come in many shapes: this one counts as false."""
    def __init__(self, fn): self.fn = fn
    def __call__(self): return self.fn()
    def __len__(self): return 0

class Alike(Empty):
    """... this one calls itself equal to anything."""
    def __len__(self): return 3
    def __eq__(self, other): return True
    __hash__ = object.__hash__

def dress(rng, fn):
    return rng.choice([fn, fn, Empty(fn), Alike(fn), Empty(fn).__call__, functools.partial(fn)])

# ------------------------------------------------------------------ replaying Asked

class Script:
    def __init__(self): self.r = 0.0
    def reflectivity(self, ray, geometry): return self.r
    def direction(self, ray, geometry, sign): return tuple(float(sign * x) for x in ray.direction)

def replay(job):
    from pvtrace import Node, Scene, Sphere, Material
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    from pvtrace.material.surface import Surface
    Custom = delegate_class()
    seed, behaviours, maxsteps = job
    rng = random.Random(seed); out = []
    axis = rand_dir(rng) if rng.random() < 0.7 else np.array([0, 0, 1.0])
    log, plan = [], Script()
    mat = lambda k: Material(refractive_index=1.0, surface=Surface(delegate=Custom(k, log, plan)))
    world = Node(name="w0", geometry=Sphere(10.0, material=Material(refractive_index=1.0)))
    at = np.array([rng.uniform(-2, 2) for _ in range(3)])
    nodes = [world]; R = [np.eye(3)]
    for k, radius in ((1, 3.0), (2, 1.0)):
        parent = nodes[-1] if rng.random() < 0.5 else world
        n = Node(name="w%d" % k, parent=parent, geometry=Sphere(radius, material=mat(k)))
        rk = rand_rot(rng); P = np.eye(4); P[:3, :3] = rk; P[:3, 3] = at
        up = np.eye(4)
        if parent is not world: up[:3, :3] = R[-1]; up[:3, 3] = at
        n.pose = np.linalg.inv(up) @ P
        nodes.append(n); R.append(rk)
    scene = Scene(world)
    shell = [-3.0, -1.0, 1.0, 3.0]; mid = [-4.0, -2.0, 0.3, 2.0, 4.0]
    for (gap, head), end, asks in behaviours:
        del log[:]
        where = None
        def bad(x):
            nonlocal where
            if where is None: where = x
        ray = Ray(position=tuple(at + axis * mid[gap]), direction=tuple(axis * head), wavelength=555.0)
        gen = photon_tracer.step_forward(scene, ray, maxsteps=maxsteps)
        g = gap
        try:
            next(gen)
            for k, (hit, con, adj, h, r, low, refl) in enumerate(asks):
                plan.r = r / 100.0; del log[:]
                np.random.set_state(mt_constant(0.3 if low else 0.7))
                ray, ev, meta = next(gen)
                x = shell[g if h > 0 else g - 1]
                if ev is not (Event.REFLECT if refl else Event.TRANSMIT): bad(["event", k, ev.name]); break
                if [e[0] for e in log] != ["reflectivity", "reflected" if refl else "transmitted"]: bad(["questions", k, [e[0] for e in log]]); break
                for f, owner, surface, local, geometry, c_, a_, answer in log:
                    if owner != hit or geometry is not nodes[hit].geometry or surface is not nodes[hit].geometry.material.surface: bad(["surface", k, owner])
                    if c_ is not nodes[con] or a_ is not nodes[adj]: bad(["volumes", k, c_.name, a_.name])
                    if not np.allclose(local.position, R[hit].T @ (axis * x), atol=1e-7): bad(["position", k])
                    if not np.allclose(local.direction, R[hit].T @ (axis * h), atol=1e-7): bad(["direction", k])
                if not np.allclose(ray.direction, axis * (-h if refl else h), atol=1e-7): bad(["obeyed", k])
                if not np.allclose(ray.position, at + axis * x, atol=1e-7): bad(["place", k])
                if not refl: g += h
            del log[:]
            if where is None:
                ev = next(gen)[1]
                if ev is not (Event.EXIT if end == "exit" else Event.KILL): bad(["end", ev.name])
                if log: bad(["questions at the end", len(log)])
        except Exception as e: bad(["raised", repr(e)[:200]])
        out.append({"behaviour": [[gap, head], end, asks], "where": where})
    return out

# ------------------------------------------------------------------ recorded worlds

class Plan:
    """Any answer that keeps the ray on the side it should be."""
    def __init__(self, rng): self.rng = rng
    def reflectivity(self, ray, geometry): return self.rng.choice([0.0, 0.0, 1.0, 0, 1, 0.25, 0.5, 0.75, self.rng.random(), np.float64(self.rng.random())])
    def direction(self, ray, geometry, sign):
        n = np.array(geometry.normal(ray.position), dtype=float)
        if np.dot(n, ray.direction) < 0: n = -n
        while True:
            d = rand_dir(self.rng); c = np.dot(d, n) * sign
            if abs(c) < 0.25: continue
            return tuple(float(x) for x in (d if c > 0 else -d))

def traces(job):
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.event import Event
    from pvtrace.light.ray import Ray
    from pvtrace.material.component import Scatterer, Luminophore
    from pvtrace.material.surface import Surface
    Custom = delegate_class()
    out = []
    for seed, count in job:
        rng = random.Random(seed)
        w = rand_world(rng, maxvol=5)
        scene = w.build(); nv, nc = w.names(); log = []
        geo = {id(n.geometry): k + 1 for k, n in enumerate(w.nodes)}; nodes = []
        for k, v in enumerate(w.vols):
            custom = rng.random() < 0.7
            if custom: w.nodes[k].geometry.material.surface = Surface(delegate=Custom(k + 1, log, Plan(rng)))
            nodes.append({"R": [v3u(x) for x in v.R], "T": v3l(v.T), "custom": custom})
        comps = []
        for n in w.nodes:
            for comp in n.geometry.material.components:
                mine = hasattr(comp, "phase_function") and rng.random() < 0.6
                if mine:
                    def phase(me=nc[comp.name]):
                        d = tuple(float(x) for x in rand_dir(rng)); log.append(("phase", me, d)); return d
                    given = dress(rng, phase)
                    comp.phase_function = (Scatterer(1.0, phase_function=given) if rng.random() < 0.5 else
                                           Luminophore(1.0, emission=np.array([[500.0, 1.0], [600.0, 1.0]]), phase_function=given)).phase_function
                comps.append(mine)
        def told(x):
            if x[0] == "phase": return {"f": "phase", "n": x[1], "geo": 0, "con": 0, "adj": 0, "p": [0, 0, 0], "d": [0, 0, 0], "w": 0, "v": v3u(x[2]), "ret": 0}
            f, owner, surface, ray, g, con, adj, ans = x
            own = geo.get(id(g), -1)
            if w.nodes[owner - 1].geometry.material.surface is not surface: own = -2
            return {"f": f, "n": owner, "geo": own, "con": nv.get(con.name, -1), "adj": nv.get(getattr(adj, "name", None), -1), "p": v3l(ray.position), "d": v3u(ray.direction), "w": int(round(ray.wavelength * NM)),
                    "v": v3u(ans) if f != "reflectivity" else [0, 0, 0], "ret": ui(ans) if f == "reflectivity" else 0}
        for p, d, nm in rand_rays(rng, w, count):
            rec = {"kind": "trace", "nodes": nodes, "comps": comps, "hist": [], "raised": "", "seed": seed}
            del log[:]
            try:
                gen = photon_tracer.step_forward(scene, Ray(position=p, direction=d, wavelength=nm, source="feed"), maxsteps=25)
                while True:
                    u = rng.choice([rng.random(), 0.25, 0.75]) * (1 - 2e-6) + 1e-6
                    np.random.set_state(mt_constant(u))
                    try: ray, ev, meta = next(gen)
                    except StopIteration: break
                    meta = meta or {}
                    if ev is Event.KILL: break
                    rec["hist"].append({"k": ev.name, "p": v3l(ray.position), "d": v3u(ray.direction), "w": int(round(ray.wavelength * NM)), "con": nv.get(meta.get("container"), 0), "adj": nv.get(meta.get("adjacent"), 0),
                                        "hit": nv.get(meta.get("hit"), 0), "comp": nc.get(meta.get("component"), 0), "u": ui(u), "calls": [told(x) for x in log]})
                    del log[:]
            except Exception as e:
                rec["raised"] = repr(e)[:300]
            out.append(rec)
    return out

def emits(job):
    """Lights with delegates of their own, placed anywhere in the tree."""
    from pvtrace import Node, Scene, Sphere, Light, Material
    out = []
    for seed in job:
        rng = random.Random(seed); log = []
        world = Node(name="world", geometry=Sphere(100.0, material=Material(refractive_index=1.0)))
        if rng.random() < 0.3: pass
        nodes, poses, lights = [world], [np.eye(4)], []
        for k in range(rng.randint(1, 5)):
            j = rng.randrange(len(nodes)); P = np.eye(4); P[:3, :3] = rand_rot(rng); P[:3, 3] = [rng.uniform(-5, 5) for _ in range(3)]
            n = Node(name="n%d" % k, parent=nodes[j]); n.pose = P
            nodes.append(n); poses.append(poses[j] @ P)
        order = []
        for k in rng.sample(range(1, len(nodes)), rng.randint(1, len(nodes) - 1)):
            kw, asks = {}, []
            def answer(f, me, make):
                def fn():
                    x = make(); log.append((f, me, x)); return x
                return dress(rng, fn)
            if rng.random() < 0.75: kw["position"] = answer("position", k, lambda: tuple(rng.uniform(-1, 1) for _ in range(3))); asks.append("position")
            if rng.random() < 0.75: kw["direction"] = answer("direction", k, lambda: tuple(float(x) for x in rand_dir(rng))); asks.append("direction")
            if rng.random() < 0.75: kw["wavelength"] = answer("wavelength", k, lambda: round(rng.uniform(300, 900), 4)); asks.append("wavelength")
            nodes[k].light = Light(name="light%d" % k, **kw)
            order.append((k, asks))
        scene = Scene(world)
        ids = {id(n): i for i, n in enumerate(nodes)}
        seq = [ids[id(n)] for n in scene.light_nodes]       # the order of the lights is C12's concern
        asks = dict(order)
        rec = {"kind": "emit", "raised": "", "asked": rng.randint(1, 12), "rays": [],
               "lights": [{"id": k, "R": [v3u(x) for x in poses[k][:3, :3]], "T": v3l(poses[k][:3, 3]), "asks": asks[k]} for k in seq]}
        try:
            for ray in scene.emit(rec["asked"]):
                src = [k for k in seq if nodes[k].light.name == ray.source]
                rec["rays"].append({"p": v3l(ray.position), "d": v3u(ray.direction), "w": int(round(ray.wavelength * NM)), "source": src[0] if len(src) == 1 else -1,
                                    "calls": [{"f": f, "n": me, "v": (v3l(x) if f == "position" else v3u(x) if f == "direction" else [0, 0, 0]), "ret": int(round(x * NM)) if f == "wavelength" else 0} for f, me, x in log]})
                del log[:]
        except Exception as e: rec["raised"] = repr(e)[:300]
        out.append(rec)
    return out

def bads(job):
    """Answers a surface may not give."""
    from pvtrace import Node, Scene, Sphere, Box, Material
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    from pvtrace.material.surface import Surface, SurfaceDelegate
    out = []
    for f, ans in job:
        class D(SurfaceDelegate):
            def reflectivity(self, *a): return ans if f == "reflectivity" else (1.0 if f == "reflected" else 0.0)
            def reflected_direction(self, surface, ray, *a): return ans if f == "reflected" else tuple(-x for x in ray.direction)
            def transmitted_direction(self, surface, ray, *a): return ans if f == "transmitted" else tuple(ray.direction)
        world = Node(name="world", geometry=Sphere(10.0, material=Material(refractive_index=1.0)))
        Node(name="box", parent=world, geometry=Box((2.0, 2.0, 2.0), material=Material(refractive_index=1.5, surface=Surface(delegate=D()))))
        raised = ""
        try:
            for k, _ in enumerate(photon_tracer.step_forward(Scene(world), Ray(position=(0.1, 0.2, -4.0), direction=(0.0, 0.0, 1.0), wavelength=555.0))):
                if k > 5: break
        except Exception as e: raised = type(e).__name__
        out.append({"kind": "bad", "f": f, "answer": repr(ans), "raised": raised})
    return out

BAD = [("reflectivity", x) for x in ("0.5", None, [0.5], (1.0,), 0.5j)] + [(f, x) for f in ("reflected", "transmitted") for x in (None, [0.0, 0.0, 1.0], (0.0, 1.0), (0.0, 0.0, 1.0, 0.0), (), "abc", np.array([0.0, 0.0, 1.0]), 1.0)]

def C30(c):
    rng = random.Random(vlib.SEED * 23 + 30)
    ms = 5 if c.quick else 6
    r = c.model("Asked", "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANTS\n MaxSteps = %d\n" % ms, timeout=800, mem="8g", expect_actions=("Ask", "Exit", "Kill", "Report"))
    beh = sorted(r.verdicts, key=str)
    if len(beh) < 1000: raise vlib.Machinery("Asked printed %d behaviours" % len(beh))
    total = len(beh)
    if len(beh) > (3000 if c.quick else 40000): beh = rng.sample(beh, 3000 if c.quick else 40000)
    res = run_jobs(replay, [(rng.randrange(1 << 30), beh[i:i + 60], ms) for i in range(0, len(beh), 60)])
    for x in res:
        if x["where"]: c.violate("C30.replay:" + str(x["where"][0]), x)
    c.traces += len(res)
    c.part("replay Asked", behaviours=total, replayed=len(res), rejected=sum(1 for x in res if x["where"]))
    n = 80 if c.quick else 1600
    recs = run_jobs(traces, [[(rng.randrange(1 << 30), 12)] for _ in range(n)])
    ev = {}
    for x in recs:
        for e in x["hist"]: ev[e["k"]] = ev.get(e["k"], 0) + 1
    asked = sum(len(e["calls"]) for x in recs for e in x["hist"])
    if asked < 500: raise vlib.Machinery("only %d questions" % asked)
    em = run_jobs(emits, [[rng.randrange(1 << 30) for _ in range(10)] for _ in range(n // 4)])
    c.part("custom worlds", histories=len(recs), questions=asked, events=ev, emitted=sum(len(x["rays"]) for x in em))
    recs += em + bads(BAD)
    for i in range(0, len(recs), 10000):
        c.judge("AskTrace", recs[i:i + 10000], workers=1, mem="8g", timeout=800)

"""C18, C19: poses and shapes (SceneGraph, GraphTrace; Solid, MCSolid, Shapes)."""
import json, random
import numpy as np
import vlib
from checks_query import run_jobs

# ------------------------------------------------------------------ C18: replaying SceneGraph

def mat(r, t):
    m = np.identity(4); m[:3, :3] = np.array(r, dtype=float).T; m[:3, 3] = t
    return m

def replay(job):
    """Operations printed by SceneGraph, carried out on real nodes."""
    from pvtrace import Node
    out = []
    for log, conv in job:
        nodes = [Node(name="n1"), None, None]
        nodes[1] = Node(name="n2", parent=nodes[0], location=(2, 0, -1))
        nodes[2] = Node(name="n3", parent=nodes[1], location=(3.0, 0.0, -1.0))
        where = None
        def bad(x):
            nonlocal where
            if where is None: where = x
        for k, (n, name, arg, r, t) in enumerate(log):
            nd = nodes[n - 1]
            others = [(o.pose.copy(), np.array(o.location)) for o in nodes if o is not nd]
            if name == "translate": nd.translate(tuple(arg))
            elif name == "rotate": nd.rotate(arg[3] * np.pi / 2, tuple(arg[:3]))
            elif name == "locate": nd.location = tuple(arg)
            elif name == "pose": nd.pose = mat(r, t)
            elif name == "parent": nd.parent = nodes[arg - 1]
            elif name == "look":
                before = np.array(nd.pose)
                nd.look_at(tuple(arg))
                a = np.array(arg, dtype=float); p = np.array(nd.pose)
                if not np.allclose(p[:3, 2], a / np.linalg.norm(a), atol=1e-9): bad(["look", k])
                if not np.allclose(p[:3, :3] @ p[:3, :3].T, np.identity(3), atol=1e-9) or np.linalg.det(p[:3, :3]) < 0: bad(["look-rigid", k])
                if not np.allclose(p[:3, 3], before[:3, 3], atol=1e-9): bad(["look-moved", k])
                nd.pose = mat(r, t)       # follow the behaviour's choice of roll
            if not np.allclose(nd.pose, mat(r, t), atol=1e-9): bad([name, k])
            if not np.allclose(nd.location, t, atol=1e-9): bad([name + "-location", k])
            for o, (p, l) in zip([o for o in nodes if o is not nd], others):
                if not np.array_equal(o.pose, p) or not np.array_equal(o.location, l): bad([name + "-other-node", k])
        for a, b, p, v in conv:
            if not np.allclose(nodes[a - 1].point_to_node((1.0, 2.0, 3.0), nodes[b - 1]), p, atol=1e-9): bad(["point", a, b])
            if not np.allclose(nodes[a - 1].vector_to_node((1.0, 2.0, 3.0), nodes[b - 1]), v, atol=1e-9): bad(["vector", a, b])
        out.append({"log": log, "where": where})
    return out

# ------------------------------------------------------------------ C18: recorded histories

S8 = lambda x: int(round(1e8 * float(x)))
S6 = lambda x: int(round(1e6 * float(x)))

def unit(rng):
    while True:
        v = np.array([rng.gauss(0, 1) for _ in range(3)]); L = np.linalg.norm(v)
        if L > 1e-3: return v / L

def rotation(rng):
    from scipy.spatial.transform import Rotation
    return Rotation.from_rotvec(unit(rng) * rng.uniform(0, np.pi)).as_matrix()

def history(job):
    from pvtrace import Node
    out = []
    for seed, nsteps in job:
        rng = random.Random(seed)
        n = rng.randint(2, 6)
        par = [0] + [rng.randint(1, k) for k in range(1, n)]
        nodes = []
        def place(): return [rng.choice([rng.uniform(-9, 9), float(rng.randint(-5, 5)), rng.randint(-5, 5)]) for _ in range(3)]
        for k in range(n):
            loc = rng.choice([None, place(), tuple(place()), np.array(place(), dtype=float)])
            nodes.append(Node(name="n%d" % k, parent=nodes[par[k] - 1] if par[k] else None, location=loc))
        def see():
            return [{"R": [[S8(x) for x in row[:3]] for row in np.asarray(o.pose)[:3]], "t": [S6(x) for x in np.asarray(o.pose)[:3, 3]], "loc": [S6(x) for x in o.location]} for o in nodes]
        rec = {"seed": seed, "start": see(), "steps": []}
        for _ in range(nsteps):
            k = rng.randrange(n); nd = nodes[k]
            name = rng.choice(["translate", "translate", "rotate", "rotate", "look", "locate", "pose", "parent"])
            op = {"node": k + 1, "name": name, "v": [0, 0, 0], "c": 0, "s": 0, "R": [[0] * 3] * 3}
            if name == "translate":
                v = place(); nd.translate(rng.choice([tuple, list, np.array])(v)); op["v"] = [S6(x) for x in v]
            elif name == "locate":
                v = place(); nd.location = rng.choice([tuple, list, np.array])(v); op["v"] = [S6(x) for x in v]
            elif name == "rotate":
                a = rng.choice([rng.uniform(-4, 4), np.pi / 2, np.pi, -np.pi / 3, 2 * np.pi]); u = rng.choice([unit(rng), np.array([0, 0, 1.0]), np.array([0, -1.0, 0])]); L = rng.choice([1.0, 2.5, 0.1])
                nd.rotate(a, tuple(u * L)); op.update(v=[S8(x) for x in u], c=S8(np.cos(a)), s=S8(np.sin(a)))
            elif name == "look":
                here = np.asarray(nd.pose)[:3, 2]
                u = rng.choice([unit(rng), -here / np.linalg.norm(here), here / np.linalg.norm(here), np.array([0, 0, -1.0]), np.array([1.0, 0, 0])]); L = rng.choice([1.0, 7.0, 0.01])
                nd.look_at(rng.choice([tuple, list])(u * L)); op["v"] = [S8(x) for x in u]
            elif name == "pose":
                m = np.identity(4); m[:3, :3] = rotation(rng); v = place(); m[:3, 3] = v; keep = m.copy()
                nd.pose = m; m[:3, :3] = 7; m[:3, 3] = 1e3   # the caller's array is the caller's
                op.update(R=[[S8(x) for x in row[:3]] for row in keep[:3]], v=[S6(x) for x in v])
            else:
                if k == 0: continue
                below = set([k + 1])
                for j in range(n):
                    if par[j] in below: below.add(j + 1)
                for _r in range(n):
                    for j in range(n):
                        if par[j] in below: below.add(j + 1)
                options = [j + 1 for j in range(n) if j + 1 not in below]
                par[k] = rng.choice(options); nd.parent = nodes[par[k] - 1]
            asked = []
            for _q in range(3):
                a, b, c = (rng.randrange(n) for _ in range(3))
                p = [rng.uniform(-5, 5) for _ in range(3)]; v = unit(rng)
                q = nodes[a].point_to_node(tuple(p), nodes[b]); w = nodes[a].vector_to_node(tuple(v), nodes[b])
                back = nodes[b].point_to_node(q, nodes[a])
                via = nodes[c].point_to_node(nodes[a].point_to_node(tuple(p), nodes[c]), nodes[b])
                asked.append({"a": a + 1, "b": b + 1, "p": [S6(x) for x in p], "q": [S6(x) for x in q], "v": [S8(x) for x in v], "w": [S8(x) for x in w], "back": [S6(x) for x in back], "via": [S6(x) for x in via]})
            rec["steps"].append({"op": op, "par": list(par), "poses": see(), "asked": asked})
        if rec["steps"]: out.append(rec)
    return out

def C18(c):
    rng = random.Random(vlib.SEED * 13 + 18)
    cfg = "INIT Init\nNEXT Next\nINVARIANT Inv\nCONSTANTS\n Depth = %d\n Rich = %s\n"
    r = c.model("SceneGraph", cfg % (2, "FALSE" if c.quick else "TRUE"), timeout=800, mem="8g", expect_actions=("Report", "Reparent"))
    logs = [v for v in r.verdicts]
    if len(logs) < 1000: raise vlib.Machinery("SceneGraph printed %d behaviours" % len(logs))
    n = 400 if c.quick else 8000
    s = vlib.tlc("SceneGraph", cfg % (7, "TRUE"), extra=["-simulate", "num=%d" % n, "-depth", "9", "-seed", str(vlib.SEED)], workers=4, timeout=700)
    if s.error: raise vlib.Machinery("SceneGraph simulation: " + s.error)
    c.part("SceneGraph behaviours", exhaustive=len(logs), simulated=len(s.verdicts))
    if not c.quick and len(logs) > 20000: logs = rng.sample(logs, 20000)
    if c.quick and len(logs) > 5000: logs = rng.sample(logs, 5000)
    logs += s.verdicts
    res = run_jobs(replay, [logs[i:i + 100] for i in range(0, len(logs), 100)])
    c.traces += len(res)
    badlogs = [x for x in res if x["where"]]
    for x in badlogs: c.violate("replay:" + str(x["where"][0]), x)
    c.part("replayed", behaviours=len(res), rejected=len(badlogs))
    nh = 160 if c.quick else 3000
    hs = run_jobs(history, [[(rng.randrange(1 << 30), 12 if c.quick else 25)] for _ in range(nh)])
    c.judge("GraphTrace", hs, workers=1, mem="6g", timeout=800)

# ------------------------------------------------------------------ C19

SHAPES = ["box", "sphere", "cylinder"]

def make(kind, h, f, **kw):
    from pvtrace import Box, Sphere, Cylinder
    if kind == "box": return Box(tuple(2.0 * x * f for x in h), **kw)
    if kind == "sphere": return Sphere(h[0] * f, **kw)
    return Cylinder(2.0 * h[1] * f, h[0] * f, **kw)

def dims(kind, rng):
    return {"box": lambda: [rng.randint(1, 5) for _ in range(3)], "sphere": lambda: [rng.randint(1, 6)], "cylinder": lambda: [rng.randint(1, 5), rng.randint(1, 6)]}[kind]()

def surface_origin(kind, h, rng):
    """A whole-number point that is likely to lie on the surface."""
    if kind == "box":
        k = rng.randrange(3); p = [rng.randint(-x, x) for x in h]; p[k] = rng.choice([-1, 1]) * h[k]; return p
    if kind == "sphere":
        p = [0, 0, 0]; p[rng.randrange(3)] = rng.choice([-1, 1]) * h[0]
        if h[0] == 5: p = rng.choice([[3, 4, 0], [0, -3, 4], [-4, 0, 3], p])
        if h[0] == 3: p = rng.choice([[1, 2, 2], [-2, 1, -2], p])
        if h[0] == 6: p = rng.choice([[2, 4, 4], [-4, 4, -2], p])
        return p
    if rng.random() < 0.5: return [rng.randint(-h[0], h[0]), rng.randint(-h[0], h[0]), rng.choice([-1, 1]) * h[1]]
    p = rng.choice([[h[0], 0], [0, -h[0]], [-h[0], 0]] + ([[3, 4], [-4, 3]] if h[0] == 5 else []))
    return p + [rng.randint(-h[1], h[1])]

def ray_for(kind, h, rng):
    o = [rng.randint(-8, 8) for _ in range(3)]
    u = rng.random()
    if u < 0.25: o = surface_origin(kind, h, rng)
    elif u < 0.45: o = [rng.randint(-1, 1) * (x - 1) if x > 1 else 0 for x in (h if kind == "box" else [h[0]] * 3 if kind == "sphere" else [h[0], 0, h[1]])]
    while True:
        if rng.random() < 0.5:   # aim near the middle
            d = [rng.randint(-3, 3) - x for x in o]
        else: d = [rng.choice([-3, -2, -1, 0, 0, 0, 1, 2, 5]) for _ in range(3)]
        if any(d) and max(map(abs, d)) <= 10: return o, d

FACTORS = [1.0, 1.0, 0.5, 0.1, 1.0 / 3, 7.3, 0.01, 40.0]
IDENT = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]

def singles(job):
    out = []
    for seed, count in job:
        rng = random.Random(seed)
        for _ in range(count):
            kind = rng.choice(SHAPES); h = dims(kind, rng); f = rng.choice(FACTORS)
            if rng.random() < 0.04: f = rng.choice([1e-3, 1e-4, 300.0])
            g = make(kind, h, f)
            o, d = ray_for(kind, h, rng)
            out.append(single(g, kind, h, f, o, d))
    return out

def enumerated(job):
    """Rays from a small grid, for one shape."""
    kind, h, rays = job
    g = make(kind, h, 1.0)
    return [single(g, kind, h, 1.0, o, d) for o, d in rays]

def single(g, kind, h, f, o, d):
    D = np.array(d, dtype=float); L = np.linalg.norm(D); D /= L
    O = np.array(o, dtype=float) * f
    rec = {"nodes": [{"shape": {"kind": kind, "h": h}, "chain": []}], "o": o, "d": d, "single": True, "traced": False, "rootframe": True, "factor": str(f), "detail": True,
           "contains": bool(g.contains(tuple(O))), "surface": bool(g.is_on_surface(tuple(O))), "hits": []}
    for p in g.intersections(tuple(O), tuple(D)):
        P = np.array(p, dtype=float)
        hit = {"node": 1, "p": [S6(x / f) for x in P], "dist": S6(np.linalg.norm(P - O) / f), "normal": [0, 0, 0], "entering": False, "surface": False, "inside": False, "below": True, "above": True}
        try:
            n = np.array(g.normal(tuple(P)), dtype=float)
            hit["normal"] = [S6(x) for x in n]
            hit["surface"] = bool(g.is_on_surface(tuple(P))); hit["inside"] = bool(g.contains(tuple(P)))
            e = 1e-5 * f * max(h)
            lo, hi = tuple(P - e * n), tuple(P + e * n)
            hit["below"] = bool(g.contains(lo)) and not g.is_on_surface(lo)
            hit["above"] = not g.contains(hi) and not g.is_on_surface(hi)
            hit["entering"] = bool(g.is_entering(tuple(P), tuple(D)))
        except Exception as e:
            hit["raised"] = repr(e)[:200]
        rec["hits"].append(hit)
    return rec

def quarter(rng):
    ax = [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]
    x = rng.choice(ax); y = rng.choice([a for a in ax if not np.dot(a, x)])
    return [list(map(int, c)) for c in (x, y, np.cross(x, y))]

def scenes(job):
    """Several posed shapes in one scene; the whole scene may be tilted and scaled."""
    from pvtrace import Node, Scene, Sphere, Material
    out = []
    for seed, count in job:
        rng = random.Random(seed)
        f = rng.choice(FACTORS)
        tilt = np.identity(4)
        world = Node(name="world")
        if rng.random() < 0.6:
            tilt[:3, :3] = rotation(rng); tilt[:3, 3] = [rng.uniform(-4, 4) * f for _ in range(3)]
        bench = Node(name="bench", parent=world); bench.pose = tilt
        nodes, specs = [], []
        for k in range(rng.randint(1, 5)):
            up = rng.randrange(k) if k and rng.random() < 0.5 else None
            kind = rng.choice(SHAPES); h = dims(kind, rng)
            r = quarter(rng) if rng.random() < 0.7 else IDENT; t = [rng.randint(-4, 4) for _ in range(3)]
            nd = Node(name="s%d" % k, parent=bench if up is None else nodes[up], geometry=make(kind, h, f))
            nd.pose = mat(r, np.array(t) * f)
            nodes.append(nd); specs.append({"shape": {"kind": kind, "h": h}, "chain": (specs[up]["chain"] if up is not None else []) + [{"r": r, "t": t}]})
        has_root = rng.random() < 0.5
        if has_root: world.geometry = Sphere(1000.0 * f)
        scene = Scene(world)
        for _ in range(count):
            o = [rng.randint(-9, 9) for _ in range(3)]
            d = [rng.randint(-3, 3) - x for x in o] if rng.random() < 0.6 else [rng.randint(-2, 2) for _ in range(3)]
            if not any(d) or max(map(abs, d)) > 10: continue
            D = np.array(d, dtype=float); L = np.linalg.norm(D); D = tilt[:3, :3] @ (D / L)
            O = tilt[:3, :3] @ (np.array(o, dtype=float) * f) + tilt[:3, 3]
            rec = {"nodes": specs, "o": o, "d": d, "single": False, "traced": False, "rootframe": True, "detail": False, "contains": False, "surface": False, "factor": str(f), "hits": []}
            last = -1.0; roots = 0; allhits = scene.intersections(tuple(O), tuple(D))
            for x in allhits:
                if x.coordsys is not world: rec["rootframe"] = False
                if x.hit is world: roots += 1; continue
                P = tilt[:3, :3].T @ (np.array(x.point) - tilt[:3, 3]) / f
                rec["hits"].append({"node": nodes.index(x.hit) + 1, "p": [S6(v) for v in P], "dist": S6(x.distance / f), "normal": [0, 0, 0], "entering": False, "surface": False, "inside": False, "below": True, "above": True})
            if has_root and (roots != 1 or allhits[-1].hit is not world): rec["rootframe"] = False
            out.append(rec)
    return out

def traced(job):
    """Rays followed by either tracer through shapes which do not disturb them."""
    from pvtrace import Node, Scene, Sphere, Material, Light
    from pvtrace.geometry.box import Box
    from pvtrace.light.event import Event
    from pvtrace.light.ray import Ray
    from pvtrace.algorithm import photon_tracer
    from pvtrace.engine import simulate
    from pvtrace.material.surface import Surface, NullSurfaceDelegate
    vlib.load_kernel()
    out = []
    for seed, count in job:
        rng = random.Random(seed)
        f = rng.choice([1.0, 0.01, 0.1, 1.0 / 3, 7.3, 40.0, 300.0])
        clear = lambda: Material(refractive_index=1.0, surface=Surface(delegate=NullSurfaceDelegate()))
        world = Node(name="world", geometry=Sphere(400.0 * f, material=Material(refractive_index=1.0)))
        tilt = np.identity(4)
        if rng.random() < 0.6:
            tilt[:3, :3] = rotation(rng); tilt[:3, 3] = [rng.uniform(-4, 4) * f for _ in range(3)]
        bench = Node(name="bench", parent=world); bench.pose = tilt
        nodes, specs, at = [], [], []
        for k in range(rng.randint(1, 4)):
            up = rng.randrange(k) if k and rng.random() < 0.6 else None
            kind = rng.choice(SHAPES); h = dims(kind, rng)
            r = quarter(rng) if rng.random() < 0.7 else IDENT
            while True:
                t = [rng.randint(-2, 2) for _ in range(3)] if not k else [rng.choice([-20, 0, 20]) + rng.randint(-1, 1) for _ in range(3)]
                chain = (specs[up]["chain"] if up is not None else []) + [{"r": r, "t": t}]
                m = np.identity(4)
                for link in chain: m = m @ mat(link["r"], link["t"])
                if max(map(abs, m[:3, 3])) < 50 and all(np.linalg.norm(m[:3, 3] - x) > 18 for x in at): break
                if rng.random() < 0.1: up = None
            at.append(m[:3, 3])
            g = make(kind, h, f, material=clear())
            nd = Node(name="s%d" % k, parent=bench if up is None else nodes[up], geometry=g)
            nd.pose = mat(r, np.array(t) * f)
            nodes.append(nd); specs.append({"shape": {"kind": kind, "h": h}, "chain": chain})
        scene = Scene(world); rays = []
        for _ in range(count):
            d = [rng.randint(-3, 3) for _ in range(3)]
            if rng.random() < 0.2: d = rng.choice(IDENT)
            if not any(d): continue
            a = rng.choice(at)
            o = [int(round(a[j])) + rng.randint(-3, 3) - rng.choice([0, 0, 1, 2, 6]) * d[j] for j in range(3)]
            D = np.array(d, dtype=float); D = tilt[:3, :3] @ (D / np.linalg.norm(D))
            O = tilt[:3, :3] @ (np.array(o, dtype=float) * f) + tilt[:3, 3]
            if any(n.geometry.is_on_surface(world.point_to_node(tuple(O), n)) for n in nodes): continue
            rays.append((o, d, tuple(O), tuple(D)))
        if not rays: continue
        it = {"i": -1}
        class Feed(Light):
            def emit(self, num_rays=None):
                for _ in range(num_rays or 0):
                    it["i"] += 1
                    yield from super().emit(1)
        lamp = Node(name="lamp", parent=world, light=Feed(position=lambda: rays[it["i"]][2], direction=lambda: rays[it["i"]][3], name="lamp"))
        res = list(simulate(scene, len(rays), seed=seed % (1 << 31), workers=1, record_every=1).histories())
        lamp.light = None
        for who in ("engine", "python"):
            for j, (o, d, O, D) in enumerate(rays):
                raised = ""
                try: hist = res[j] if who == "engine" else list(photon_tracer.step_forward(scene, Ray(position=O, direction=D, wavelength=555.0)))
                except Exception as e: hist = [(None, None)]; raised = repr(e)[:200]     # allowed for rays through an edge only
                rec = {"nodes": specs, "o": o, "d": d, "single": False, "traced": True, "rootframe": True, "detail": False, "contains": False, "surface": False, "factor": str(f), "by": who, "raised": raised, "hits": []}
                names = {n.name: k + 1 for k, n in enumerate(nodes)}
                for part in hist[1:]:
                    ray, ev, meta = part[0], part[1], part[2] if len(part) > 2 else {}
                    if ev is not Event.TRANSMIT: continue
                    P = tilt[:3, :3].T @ (np.array(ray.position) - tilt[:3, 3]) / f
                    N = tilt[:3, :3].T @ np.array(meta["normal"], dtype=float)
                    rec["hits"].append({"node": names[meta["hit"]], "p": [S6(v) for v in P], "dist": S6(ray.travelled / f), "normal": [S6(v) for v in N], "entering": meta["adjacent"] == meta["hit"],
                                        "surface": False, "inside": False, "below": True, "above": True})
                if hist[-1][1] is not Event.EXIT: rec["rootframe"] = False
                out.append(rec)
    return out

def C19(c):
    rng = random.Random(vlib.SEED * 17 + 19)
    c.model("MCSolid", "INIT Init\nNEXT Next\nINVARIANT Parity\nPROPERTY Line\nCONSTANTS\n G = %d\n Dirs = %d\n" % ((3, 1) if c.quick else (4, 2)), timeout=850, mem="10g")
    # every ray of a small grid, some shapes
    grid = [((x, y, z), (a, b, e)) for x in range(-3, 4) for y in range(-3, 4) for z in range(-3, 4) for a in (-1, 0, 1, 2) for b in (-2, 0, 1) for e in (-1, 0, 1, 3) if (a, b, e) != (0, 0, 0)]
    shapes = [("box", [1, 2, 3]), ("box", [2, 2, 2]), ("sphere", [3]), ("sphere", [2]), ("cylinder", [2, 1]), ("cylinder", [1, 3]), ("cylinder", [3, 2])]
    per = 300 if c.quick else 6000
    jobs = []
    for kind, h in shapes:
        pick = rng.sample(grid, per)
        jobs += [(kind, h, [(list(o), list(d)) for o, d in pick[i:i + 100]]) for i in range(0, per, 100)]
    recs = run_jobs(enumerated, jobs)
    ns = 48 if c.quick else 800
    recs += run_jobs(singles, [[(rng.randrange(1 << 30), 60)] for _ in range(ns)])
    nsc = 120 if c.quick else 2400
    recs += run_jobs(scenes, [[(rng.randrange(1 << 30), 12)] for _ in range(nsc)])
    tr = run_jobs(traced, [[(rng.randrange(1 << 30), 16)] for _ in range(80 if c.quick else 1600)])
    c.part("traced rays", histories=len(tr), crossings=sum(len(x["hits"]) for x in tr))
    recs += tr
    c.part("rays", single=sum(x["single"] for x in recs), scenes=sum(not x["single"] for x in recs), hits=sum(len(x["hits"]) for x in recs))
    for i in range(0, len(recs), 20000):
        c.judge("Shapes", recs[i:i + 20000], workers=1, mem="8g", timeout=800)

"""C27: the renderer's display (Renderer, RenderDef, RenderTrace)."""
import math, random, struct
import numpy as np
import vlib
from checks_query import run_jobs

def u(x): return int(round(float(x) * 1e4))
def u3(p): return [u(x) for x in p]

class FakeWindow:
    """The viewer at the other end of the visualiser: applies its commands to a tree of objects."""
    web_url = "http://nowhere"; zmq_url = "tcp://nowhere"
    def __init__(self, *a, **kw): self.objects, self.transforms, self.hidden = {}, {}, set()
    def open(self): return self
    def wait(self): return None
    def close(self): pass
    def send(self, command):
        c = command.lower(); path = tuple(x for x in c["path"].split("/") if x)
        if c["type"] == "set_object": self.objects[path] = c["object"]
        elif c["type"] == "set_transform": self.transforms[path] = np.array(c["matrix"], dtype=float).reshape(4, 4).T
        elif c["type"] == "set_property":
            if c["property"] == "visible": (self.hidden.discard if c["value"] else self.hidden.add)(path)
        elif c["type"] == "delete":
            for store in (self.objects, self.transforms):
                for k in [k for k in store if k[:len(path)] == path]: del store[k]
            self.hidden = {k for k in self.hidden if k[:len(path)] != path}
    def placed(self):
        for path, o in list(self.objects.items()):
            if any(path[:k] in self.hidden for k in range(len(path) + 1)): continue
            m = np.eye(4)
            for k in range(len(path) + 1): m = m @ self.transforms.get(path[:k], np.eye(4))
            yield o, m

def points_of(geometry):
    ext = geometry["data"]["attributes"]["position"]
    raw = ext["array"].data if isinstance(ext, dict) else ext.data
    return np.frombuffer(raw, dtype=np.float32).reshape(-1, 3)

def stl_of(geometry):
    raw = geometry["data"].data; n = struct.unpack("<I", raw[80:84])[0]
    tri = np.frombuffer(raw, dtype=np.dtype([("n", "<f4", 3), ("v", "<f4", (3, 3)), ("a", "<u2")]), offset=84, count=n)
    return tri["v"].reshape(-1, 3)

def colour_of(o):
    c = int(o["materials"][0]["color"]); return [(c >> 16) & 255, (c >> 8) & 255, c & 255]

def at(m, p): return (m @ np.array([*map(float, p), 1.0]))[:3]

def display(window):
    things, cyls, meshes, looks = [], [], [], []
    for o, m in window.placed():
        g = o["geometries"][0]; kind = g["type"]; mat = o["materials"][0]
        m = m @ np.array(o["object"].get("matrix", list(np.eye(4).flatten())), dtype=float).reshape(4, 4).T
        if kind == "BufferGeometry":
            pts = [u3(at(m, p)) for p in points_of(g)]
            pairs = zip(pts[0::2], pts[1::2]) if o["object"]["type"] == "LineSegments" else zip(pts[:-1], pts[1:])
            things += [{"t": "line", "a": a, "b": b, "r": 0, "c": colour_of(o)} for a, b in pairs]
        elif kind == "SphereGeometry":
            p = u3(at(m, (0, 0, 0))); r = u(g["radius"] * np.linalg.norm(m[:3, 0])); things.append({"t": "ball", "a": p, "b": p, "r": r, "c": colour_of(o)})
            if r >= 2000: looks.append({"opacity": u(mat["opacity"]), "wire": bool(mat["wireframe"])})
        elif kind == "CylinderGeometry":
            cyls.append({"p": u3(at(m, (0, 0, 0))), "ax": u3(m[:3, 1]), "len": u(g["height"]), "rad": u(g["radiusTop"]) if g["radiusTop"] == g["radiusBottom"] else -1})
            looks.append({"opacity": u(mat["opacity"]), "wire": bool(mat["wireframe"])})
        else:
            meshes.append([list(x) for x in sorted({tuple(u3(at(m, p))) for p in stl_of(g)})]); looks.append({"opacity": u(mat["opacity"]), "wire": bool(mat["wireframe"])})
    return {"things": things, "cyls": cyls, "meshes": meshes, "looks": looks}

# ------------------------------------------------------------------ material for the specification's behaviours
DIRS = [(0.6, 0.8, 0.0), (-0.28, 0.96, 0.0), (0.48, -0.64, 0.6), (0.0, 0.0, 1.0), (-1.0, 0.0, 0.0), (0.0, -0.6, 0.8)]
SHAPES = [["generate", "exit"], ["generate", "transmit", "exit"], ["generate", "transmit", "transmit", "exit"], ["generate", "transmit", "absorb", "nonradiative"], ["generate", "reflect", "exit"],
          ["generate"], ["generate", "transmit", "absorb", "emit", "reflect", "transmit", "exit"], ["generate", "transmit", "kill"]]
AXES = [np.array(a) for a in [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]]

def coord(rng): return rng.randint(-3000, 3000) / 1000
def spot(rng): return tuple(coord(rng) for _ in range(3))
def nm(rng): return rng.choice([rng.randint(360000, 800000) / 1000, float(rng.choice([379, 380, 419, 420, 439, 440, 489, 490, 509, 510, 579, 580, 644, 645, 700, 701, 780, 781]))])

def history(rng, shape):
    """A history of that shape, made up or taken from a trace and put on a grid."""
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    out = []; w = nm(rng); p = spot(rng); d = rng.choice(DIRS)
    for e in shape:
        if e in ("reflect", "transmit", "absorb", "exit", "kill") and rng.random() < 0.93: p = spot(rng)
        if e == "emit": w = nm(rng)
        if e in ("transmit", "reflect", "emit") : d = rng.choice(DIRS)
        out.append((Ray(position=p, direction=d, wavelength=w), Event[e.upper()]))
    return out

def traced(rng, scene):
    from pvtrace.algorithm import photon_tracer
    from dataclasses import replace
    ray = next(iter(scene.emit(1)))
    return [(replace(r, position=tuple(round(x, 3) for x in r.position), direction=tuple(round(x, 2) for x in r.direction)), e) for r, e in photon_tracer.follow(scene, ray)]

def a_scene():
    from pvtrace import Node, Sphere, Box, Scene, Light, Material, Absorber, Luminophore
    world = Node(name="world", geometry=Sphere(radius=8.0, material=Material(refractive_index=1.0)))
    x = np.arange(400.0, 801.0, 50.0); flat = np.column_stack((x, np.full_like(x, 1.0)))
    Node(name="box", parent=world, geometry=Box((1.5, 1.5, 1.5), material=Material(refractive_index=1.5, components=[Absorber(0.3), Luminophore(coefficient=flat, emission=flat, quantum_yield=0.7)])))
    Node(name="lamp", parent=world, light=Light(wavelength=lambda: 520.0)).location = (0.1, 0.2, -3.0)
    return Scene(world)

def entry(item): r, e = item; return {"p": u3(r.position), "d": u3(r.direction), "w": int(math.floor(r.wavelength * 1000)), "e": e.name.lower()}
def bare(r): return {"p": u3(r.position), "d": u3(r.direction), "w": int(math.floor(r.wavelength * 1000)), "e": "generate"}

def build(rng, version):
    """A scene to draw; version 2 has the same nodes, moved."""
    import trimesh
    from pvtrace import Node, Sphere, Box, Cylinder, Mesh, Scene, Light, Material
    world = Node(name="world", geometry=Sphere(radius=20.0, material=Material(refractive_index=1.0)))
    nodes, spec = [world], []
    for k in range(5):
        j = rng.randrange(len(nodes)); parent = nodes[j]
        kind = rng.choice(["sphere", "cylinder", "mesh", "box", "none", "light", "mesh"])
        if len(nodes) == 1 and rng.random() < 0.5: kind = "none"
        m = Material(refractive_index=1.5); dims, verts, g, light = [], [], None, None
        if kind == "sphere": r = rng.randint(3, 9) / 10; g = Sphere(radius=r, material=m); dims = [u(r)]
        elif kind == "cylinder": l, r = rng.randint(3, 19) / 10, rng.randint(3, 9) / 10; g = Cylinder(length=l, radius=r, material=m); dims = [u(l), u(r)]
        elif kind == "box":
            s = tuple(rng.randint(1, 9) / 5 for _ in range(3)); g = Box(size=s, material=m); kind = "mesh"
            verts = [[u(sx * s[0] / 2), u(sy * s[1] / 2), u(sz * s[2] / 2)] for sx in (-1, 1) for sy in (-1, 1) for sz in (-1, 1)]
        elif kind == "mesh":
            v = np.array([[-0.6, -0.4, -0.2], [1.0, -0.2, -0.2], [-0.2, 1.2, 0.0], [-0.2, -0.6, 0.4]]) * rng.choice([0.5, 1.0])     # its centre of mass is its origin
            g = Mesh(trimesh=trimesh.Trimesh(vertices=v, faces=[[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]), material=m); verts = [u3(p) for p in v]
        elif kind == "light": light = Light(); kind = "none"
        node = Node(name="node-%d" % k, parent=parent, geometry=g, light=light)
        nodes.append(node); spec.append({"kind": kind, "parent": j, "dims": dims, "verts": verts})
    return world, nodes, spec

def pose(rng, nodes, spec):
    out = []
    for n, s in zip(nodes[1:], spec):
        x = rng.choice(AXES); y = rng.choice([a for a in AXES if np.dot(a, x) == 0]); z = np.cross(x, y); t = spot(rng)
        m = np.eye(4); m[:3, 0], m[:3, 1], m[:3, 2], m[:3, 3] = x, y, z, t
        n.pose = m
        out.append(dict(s, r=[[int(v) for v in c] for c in (x, y, z)], t=u3(t)))
    return out

def play(job):
    """One behaviour of the specification against a real renderer; what the viewer shows is noted after each step."""
    import meshcat.visualizer
    import pvtrace.scene.renderer as mod
    from pvtrace import Scene
    from pvtrace.light.ray import Ray
    from pvtrace.common.errors import AppError
    limit, log, seed = job
    rng = random.Random(seed); np.random.seed(seed % (1 << 31))
    old = meshcat.visualizer.ViewerWindow; meshcat.visualizer.ViewerWindow = FakeWindow
    try:
        kw = {} if limit == 10 and rng.random() < 0.5 else {"max_histories": limit or None}
        opacity, wire = rng.choice([(0.5, False), (0.25, False), (0.75, True)]); kw.update({} if (opacity, wire) == (0.5, False) else {"opacity": opacity, "wireframe": wire})
        r = mod.MeshcatRenderer(**kw); window = r.vis.window
        if not isinstance(window, FakeWindow): raise vlib.Machinery("the renderer does not draw through meshcat's window")
        world, nodes, spec = build(rng, 1); scene = Scene(world); light = None; used = None
        ids, ops = {}, []
        for k, o in enumerate(log, 1):
            rec = {"op": o[0], "rays": [], "pts": [], "mode": "", "baubles": False, "len": 0, "rad": 0, "target": 0, "colour": [255, 255, 255], "nodes": []}
            got, out = None, "ok"
            try:
                if o[0] == "hist":
                    shape, mode, baubles = SHAPES[o[1] - 1], o[2], o[3]
                    if rng.random() < 0.15 and mode != "long":
                        light = light or a_scene(); h = traced(rng, light)
                        if used is not None and rng.random() < 0.2: h = used           # the same history again
                        used = h
                    else: h = history(rng, shape)
                    rec.update(rays=[entry(x) for x in h], mode=mode, baubles=baubles, len=10000, rad=100)
                    kw = {"world_segment": mode} if mode != "short" or rng.random() < 0.5 else {}
                    if not baubles or rng.random() < 0.5: kw["baubles"] = baubles
                    if rng.random() < 0.6: kw["short_length"] = rng.randint(1, 30) / 10; rec["len"] = u(kw["short_length"])
                    if rng.random() < 0.6: kw["bauble_radius"] = rng.choice([0.02, 0.05]); rec["rad"] = u(kw["bauble_radius"])
                    got = r.add_history(rng.choice([list, tuple])(h), **kw)
                    if got is None: out = "none"
                elif o[0] == "ray":
                    ray = Ray(position=spot(rng), direction=rng.choice(DIRS), wavelength=nm(rng)); l = rng.randint(1, 40) / 10
                    rec.update(rays=[bare(ray)], len=u(l)); got = [r.add_ray(ray, l)]
                elif o[0] == "path":
                    rays = [x[0] for x in history(rng, ["generate", "reflect", "emit", "reflect"][:o[1] + 1])]
                    rec.update(rays=[bare(x) for x in rays]); got = r.add_ray_path(rays)
                elif o[0] == "seg":
                    a, b = spot(rng), spot(rng); c = rng.choice([None, 0x00FF10, 0x123456]); rec.update(pts=[u3(a), u3(b)])
                    if c is not None: rec["colour"] = [(c >> 16) & 255, (c >> 8) & 255, c & 255]
                    got = [r.add_line_segment(a, b) if c is None else r.add_line_segment(a, b, colour=c)]
                elif o[0] == "poly":
                    pts = [spot(rng) for _ in range(rng.randint(2, 5))]; rec.update(pts=[u3(p) for p in pts], colour=[1, 2, 3]); got = [r.add_path(tuple(zip(*pts)), colour=0x010203)]
                elif o[0] == "take":
                    rec["target"] = o[1]; todo = list(ids[o[1]]); rng.random() < 0.5 and todo.reverse()
                    for x in todo: r.remove_object(x)
                elif o[0] == "one":
                    rec["target"] = o[1]; r.remove_object(rng.choice(ids[o[1]])); 
                elif o[0] == "clear": r.remove(scene)
                elif o[0] == "render": rec["nodes"] = pose(rng, nodes, spec); r.render(scene)
            except (ValueError, AppError) as e: out = type(e).__name__
            if out == "ok" and o[0] == "poly": rec["op"] = "poly"
            ids[k] = list(got) if got is not None and not isinstance(got, str) else []
            rec["out"] = out; rec["shown"] = display(window); ops.append(rec)
        return [{"kind": "play", "max": limit, "opacity": u(opacity), "wire": wire, "ops": ops}]
    finally: meshcat.visualizer.ViewerWindow = old

def colours(rng):
    from pvtrace.light.utils import wavelength_to_rgb, wavelength_to_hex_int, rgb_to_hex_int
    out = []
    for w in [float(x) for x in range(300, 900)] + [rng.uniform(300, 900) for _ in range(300)]:
        c = wavelength_to_hex_int(w)
        out.append({"kind": "colour", "w": int(math.floor(w * 1000)), "rgb": [int(x) for x in wavelength_to_rgb(w)]})
        out.append({"kind": "colour", "w": int(math.floor(w * 1000)), "rgb": [(c >> 16) & 255, (c >> 8) & 255, c & 255]})
    return out

CFG = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Depth = %d\n Limits = {%s}\n Tell = %s\n"

def C27(c):
    import pvtrace.scene.renderer
    rng = random.Random(vlib.SEED * 29 + 27)
    c.model("Renderer", CFG % (3 if c.quick else 4, "0, 1, 2", "FALSE"), name="Renderer (all sequences)", timeout=800, mem="8g")
    jobs = []
    for limits, depth, n in [("0, 1, 2, 3", 9, 260 if c.quick else 3000), ("2, 5, 10", 22, 60 if c.quick else 600)]:
        s = vlib.tlc("Renderer", CFG % (depth, limits, "TRUE"), extra=["-simulate", "num=%d" % n, "-depth", str(depth + 3), "-seed", str(vlib.SEED)], workers=4, timeout=600)
        if s.error: raise vlib.Machinery("Renderer simulation: " + s.error)
        jobs += [(m, [list(o) for o in log], rng.randrange(1 << 30)) for m, log in s.verdicts]
    recs = run_jobs(play, jobs)
    c.part("behaviours", behaviours=len(jobs), steps=sum(len(r["ops"]) for r in recs), objects=sum(len(o["shown"]["things"]) for r in recs for o in r["ops"]))
    c.judge("RenderTrace", colours(rng) + recs, mem="8g", workers=1, timeout=800)

"""C29: closed meshes (Cells, MCCells, MeshTrace)."""
import random
import numpy as np
import vlib
from checks_query import run_jobs
from checks_geom import rotation

U = 10000
S8 = lambda x: int(round(1e8 * float(x)))
IDENT = np.identity(3)

def grow(rng, lo, hi, n):
    """Cells joined by faces, within lo..hi."""
    c = [tuple(rng.randint(lo[a], hi[a]) for a in range(3))]
    for _ in range(200):
        if len(c) >= n: break
        x = list(rng.choice(c)); a = rng.randrange(3); x[a] += rng.choice([-1, 1]); x = tuple(x)
        if x not in c and all(lo[k] <= x[k] <= hi[k] for k in range(3)): c.append(x)
    return c

def skin(cells, s, rng):
    """The boundary squares of the cells, as triangles."""
    import trimesh
    verts, faces = {}, []
    def v(p): return verts.setdefault(tuple(p), len(verts))
    cs = set(cells)
    for c in cells:
        for a in range(3):
            for up in (0, 1):
                n = list(c); n[a] += 1 if up else -1
                if tuple(n) in cs: continue
                b, e = (a + 1) % 3, (a + 2) % 3
                q = []
                for i, j in ((0, 0), (1, 0), (1, 1), (0, 1)):
                    p = list(c); p[a] += up; p[b] += i; p[e] += j; q.append(v([s * x for x in p]))
                if not up: q.reverse()
                k = rng.randrange(2); q = q[k:] + q[:k]
                faces += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
    return trimesh.Trimesh(vertices=np.array(sorted(verts, key=verts.get), dtype=float), faces=faces, process=False)

def solid(cells, s, f, Q, rng, material=None):
    """A Mesh of these cells; also how its frame lies to the lattice: (geometry, shift) with local = Q lattice f - shift."""
    from pvtrace.geometry.mesh import Mesh
    m = skin(cells, s, rng)
    if not (m.is_watertight and m.is_winding_consistent): return None
    if rng.random() < 0.2: m = m.subdivide()
    m.vertices = (m.vertices * f) @ Q.T
    before = np.array(m.vertices)
    g = Mesh(m, material=material)
    shift = (before - np.array(g.trimesh.vertices)).mean(axis=0)
    return g, shift

FACTORS = [1.0 / 60, 1.0 / 60, 1.0 / 60, 0.1 / 60, 1.0, 7.3 / 60, 0.5 / 60, 0.05 / 60]   # trimesh itself cannot tell nearest triangles of a few thousandths

def pieces(rng):
    outer = grow(rng, (0, 0, 0), (2, 2, 1), rng.choice([1, 2, 3, 4, 5, 7, 9]))
    if rng.random() < 0.25: outer = rng.choice([[(0, 0, 0), (1, 0, 0), (2, 0, 0), (0, 1, 0), (2, 1, 0)], [(0, 0, 0), (1, 0, 0), (0, 1, 0)], [(x, y, 0) for x in range(3) for y in range(3) if (x, y) != (1, 1)]])
    out = [(60, outer)]
    for x in rng.sample(outer, min(len(outer), rng.choice([0, 0, 1, 1, 2]))):
        out.append((12, grow(rng, [5 * v + 1 for v in x], [5 * v + 3 for v in x], rng.choice([1, 2, 4, 6]))))
    return out

class World:
    """Nested meshes in one scene, all placed so that their cells lie on one lattice."""
    def __init__(self, rng, slanted=False):
        from pvtrace import Node, Scene, Sphere, Material
        from pvtrace.geometry.box import Box
        self.f = f = rng.choice(FACTORS)
        self.R, self.t = IDENT, np.zeros(3)
        self.A = IDENT      # slanted: the cells are parallelepipeds
        if slanted and rng.random() < 0.5:
            self.A = np.array([[1, rng.choice([0, 0.5, -1]), rng.choice([0, 0.25])], [0, rng.choice([1, 0.5]), rng.choice([0, 1])], [0, 0, rng.choice([1, 1.5])]])[rng.sample(range(3), 3)]
            if np.linalg.det(self.A) < 0: self.A[0] *= -1
        if rng.random() < 0.6: self.R = rotation(rng); self.t = np.array([rng.uniform(-50, 50) * f for _ in range(3)])
        self.root = Node(name="world", geometry=Sphere(1500.0 * f, material=Material(refractive_index=1.0)))
        self.nodes, self.specs, self.frames, self.plain = [], [], [], []
        while not self.nodes:
            poses = []
            for k, (s, cells) in enumerate(pieces(rng)):
                Q = rotation(rng) if rng.random() < 0.3 else IDENT
                n = rng.choice([1.5, 1.8, 1.33, 1.0]) if k == 0 else rng.choice([1.0, 1.5, 2.2, 1.2])
                mat = Material(refractive_index=n)
                if len(cells) == 1 and rng.random() < 0.3 and self.A is IDENT:
                    Q = IDENT; g = Box((s * f,) * 3, material=mat); shift = Q @ ((np.array(cells[0]) + 0.5) * s * f)
                else:
                    made = solid(cells, s, f, Q @ self.A, rng, mat)
                    if made is None: break
                    g, shift = made
                up = rng.choice([None, 0]) if k else None
                P = np.identity(4); P[:3, :3] = self.R @ Q.T; P[:3, 3] = self.R @ Q.T @ shift + self.t
                nd = Node(name="m%d" % k, parent=self.root if up is None else self.nodes[up], geometry=g)
                nd.pose = P if up is None else np.linalg.inv(poses[up]) @ P
                poses.append(P); self.plain.append((s, cells)); self.nodes.append(nd); self.frames.append((Q, shift))
                self.specs.append({"s": s, "cells": [list(c) for c in cells], "centre": self.lat(k, (0, 0, 0)), "index": int(round(1000 * n))})
        self.scene = Scene(self.root)
    def lat(self, n, p):      # a point in node n's frame, in lattice units
        Q, shift = self.frames[n]
        return [int(round(U * x)) for x in np.linalg.solve(Q @ self.A, np.array(p, dtype=float) + shift) / self.f]
    def local(self, n, p):
        Q, shift = self.frames[n]
        return tuple(Q @ self.A @ (np.array(p, dtype=float) * self.f) - shift)
    def world(self, p): return tuple(self.R @ self.A @ (np.array(p, dtype=float) * self.f) + self.t)
    def back(self, p): return [int(round(U * x)) for x in np.linalg.solve(self.R @ self.A, np.array(p, dtype=float) - self.t) / self.f]
    def unturn(self, v): return [S8(x) for x in self.R.T @ np.array(v, dtype=float)]    # upright worlds only
    def turn(self, v, by=None):
        x = (self.R if by is None else by) @ self.A @ np.array(v, dtype=float)
        return tuple(x / np.linalg.norm(x))
    def face(self, n, v):     # a normal, as seen in the lattice
        x = (self.frames[n][0] @ self.A).T @ np.array(v, dtype=float)
        return [S8(y) for y in x / np.linalg.norm(x)] if abs(np.linalg.norm(v) - 1) < 1e-9 else [0, 0, 0]
    def head(self): return {"solids": [{k: v for k, v in s.items() if k != "index"} for s in self.specs], "index": [s["index"] for s in self.specs], "factor": str(self.f), "exact": self.f < 0.2}

def origin(rng, on=True):
    p = [rng.randint(-40, 220), rng.randint(-40, 220), rng.randint(-40, 160)]
    u = rng.random()
    if u < 0.4: p = [rng.randint(1, 179), rng.randint(1, 179), rng.randint(1, 119)]
    if on and u > 0.7: p[rng.randrange(3)] = rng.choice([0, 60, 120, 180])
    return p

def direction(rng):
    while True:
        d = [rng.randint(-5, 5) for _ in range(3)] if rng.random() < 0.8 else rng.choice([[1, 0, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1, 1, 0], [0, 2, -1]])
        if any(d): return d

def asks(job):
    """Every question a shape and a scene answer about a line."""
    out = []
    for seed, count in job:
        rng = random.Random(seed); w = World(rng, slanted=True)
        for _ in range(count):
            o, d = origin(rng), direction(rng)
            if rng.random() < 0.6:      # towards a cell: whole steps back from a point in it
                _, cells = pick = rng.choice(w.plain); q = [v * pick[0] + rng.randint(0, pick[0]) for v in rng.choice(cells)]
                k = rng.choice([0, 1, 5, 20, 30]); o = [q[a] - k * d[a] for a in range(3)]
            rec = {"kind": "ask", "o": o, "d": d, "detail": False, "raised": "", "hits": [], "contains": [], "surface": [], **w.head()}
            detail = rng.random() < 0.6
            try:
                for n, nd in enumerate(w.nodes):
                    p = w.local(n, o)
                    rec["contains"].append(bool(nd.geometry.contains(p))); rec["surface"].append(bool(nd.geometry.is_on_surface(p)))
                if not detail:
                    for x in w.scene.intersections(w.world(o), w.turn(d)):
                        if x.hit is w.root: continue
                        rec["hits"].append({"n": w.nodes.index(x.hit) + 1, "p": w.back(x.point), "nrm": [0, 0, 0], "surface": False, "below": False, "above": False, "entering": False})
                else:
                    n = rng.randrange(len(w.nodes)); g = w.nodes[n].geometry; D = w.turn(d, w.frames[n][0])
                    rec.update(detail=True, solids=[rec["solids"][n]], contains=[rec["contains"][n]], surface=[rec["surface"][n]])
                    for p in g.intersections(w.local(n, o), D):
                        p = tuple(p); nrm = np.array(g.normal(p), dtype=float); e = 0.02 * w.f
                        rec["hits"].append({"n": 1, "p": w.lat(n, p), "nrm": w.face(n, nrm), "surface": bool(g.is_on_surface(p)), "below": bool(g.contains(tuple(np.array(p) - e * nrm))),
                                            "above": not g.contains(tuple(np.array(p) + e * nrm)), "entering": bool(g.is_entering(p, D))})
            except Exception as e:
                rec["raised"] = repr(e)[:300]
            out.append(rec)
    return out

MAXSTEPS = 40

def traces(job):
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    out = []
    for seed, count in job:
        rng = random.Random(seed); w = World(rng)
        names = {n.name: k + 1 for k, n in enumerate(w.nodes)}; names["world"] = 0
        for _ in range(count):
            o = origin(rng, on=False)
            if any(v % 12 == 0 for v in o): continue
            if rng.random() < 0.5: D = np.array([rng.gauss(0, 1) for _ in range(3)])
            else: D = np.array([rng.randint(20, 160) - o[0], rng.randint(20, 160) - o[1], rng.randint(10, 110) - o[2]], dtype=float)
            if np.linalg.norm(D) < 0.1: continue
            D /= np.linalg.norm(D)
            rec = {"kind": "trace", "raised": "", "maxsteps": MAXSTEPS, "hist": [], **w.head()}
            np.random.seed(rng.randrange(1 << 31))
            try:
                for ray, ev, meta in photon_tracer.step_forward(w.scene, Ray(position=w.world(o), direction=w.turn(D), wavelength=555.0), maxsteps=MAXSTEPS):
                    meta = meta or {}
                    rec["hist"].append({"k": ev.name, "p": w.back(ray.position), "d": w.unturn(ray.direction), "con": names.get(meta.get("container"), -1), "adj": names.get(meta.get("adjacent"), -1), "hit": names.get(meta.get("hit"), -1),
                                        "nrm": w.unturn(meta["normal"]) if meta.get("normal") is not None else [0, 0, 0]})
            except Exception as e:
                rec["raised"] = repr(e)[:300]
            out.append(rec)
    return out

def C29(c):
    rng = random.Random(vlib.SEED * 19 + 29)
    c.model("MCCells", "INIT Init\nNEXT Next\nINVARIANT Parity Alternate\nPROPERTY Line\nCONSTANTS\n S0 = %d\n Dirs = 1\n" % (2 if c.quick else 3), timeout=850, mem="8g")
    n = 120 if c.quick else 2400
    recs = run_jobs(asks, [[(rng.randrange(1 << 30), 20)] for _ in range(n)])
    tr = run_jobs(traces, [[(rng.randrange(1 << 30), 12)] for _ in range(n)])
    c.part("meshes", asked=len(recs), crossings=sum(len(x["hits"]) for x in recs), traced=len(tr), events=sum(len(x["hist"]) for x in tr))
    recs += tr; judged = 0
    for i in range(0, len(recs), 20000):
        got = c.judge("MeshTrace", recs[i:i + 20000], workers=1, mem="8g", timeout=800)
        judged += sum(v[0][1] for k, v in got.items() if recs[i + k - 1]["kind"] == "trace")
    c.part("events judged", events=judged)
    if judged < 1000: raise vlib.Machinery("only %d events judged" % judged)

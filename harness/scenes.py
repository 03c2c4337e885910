"""Random worlds: one declared description, from which both the pvtrace Scene (code under
test) and the JSON world for the specifications are made.  Poses are composed here with our
own matrices; nothing in the description is read back from pvtrace."""
import math, random
import numpy as np

L = 1_000_000          # length units per cm
U = 100_000_000        # unit-vector / probability scale
NM = 10_000            # wavelength units per nm
C_CM = 29979245800.0   # cm/s, exact

def li(x): return int(round(x * L))
def ui(x): return int(round(x * U))
def v3l(v): return [li(float(a)) for a in v]
def v3u(v): return [ui(float(a)) for a in v]

def rot(angle, axis):
    a = np.array(axis, float); a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * (K @ K)

class Comp:
    def __init__(self, name, kind, alpha=None, qy=1.0, spectrum=None, emission=None, tau_rad=None, tau_nr=None, phase=None, qy_ref=None):
        self.name, self.kind, self.alpha, self.qy = name, kind, alpha, qy
        self.spectrum, self.emission = spectrum, emission       # lists of (nm, value)
        self.tau_rad, self.tau_nr, self.phase = tau_rad, tau_nr, phase
    def yield_(self):
        if self.kind in ("absorber", "reactor"): return 0.0
        if self.tau_rad is not None and self.tau_nr is not None:
            return self.tau_nr / (self.tau_nr + self.tau_rad)
        return self.qy
    def coefficient(self, nm):
        if self.spectrum is None: return self.alpha
        xs, ys = zip(*self.spectrum)
        return float(np.interp(nm, xs, ys))
    def build(self):
        from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
        co = float(self.alpha) if self.spectrum is None else np.array(self.spectrum, float)
        if self.kind == "absorber":
            return Absorber(co, tau_nr=self.tau_nr, name=self.name)
        if self.kind == "reactor":
            return Reactor(co, name=self.name)
        ph = phase_obj(self.phase)
        kw = dict(quantum_yield=self.qy, tau_rad=self.tau_rad, tau_nr=self.tau_nr, name=self.name, phase_function=ph)
        if self.kind == "scatterer":
            return Scatterer(co, **kw)
        return Luminophore(co, emission=np.array(self.emission, float), **kw)
    def spec(self):
        xs = [[int(round(x * NM)), li(y)] for x, y in (self.spectrum or [(0, self.alpha), (1, self.alpha)])]
        em = [[int(round(x * NM)), li(y)] for x, y in (self.emission or [])]
        return {"type": self.kind, "qy": ui(self.yield_()), "abs": xs, "ems": em, "const": self.spectrum is None,
                "taurad": self._tau(self.tau_rad), "taunr": self._tau(self.tau_nr if self.kind != "reactor" else None),
                "phase": (self.phase or ["isotropic"])[0], "g": ui(math.cos(self.phase[1])) if self.phase and self.phase[0] == "cone" else 0}
    @staticmethod
    def _tau(t): return li(t * C_CM) if t else 0

def phase_obj(p):
    if p is None: return None
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
    if p[0] == "isotropic": return isotropic
    if p[0] == "hg": return HenyeyGreenstein(p[1])
    if p[0] == "cone": return Cone(p[1])
    raise ValueError(p)

class Vol:
    def __init__(self, name, shape, size, holder, R, T, n=1.0, surf="fresnel", comps=()):
        self.name, self.shape, self.size, self.holder = name, shape, tuple(size), holder
        self.R, self.T = R, np.array(T, float)      # world pose
        self.n, self.surf, self.comps = n, surf, list(comps)
        self.attach = holder                         # tree parent (index), may be any node
        self.how = "pose"
        self.recorders = []
    def inscribed(self):
        if self.shape == "box": return min(self.size) / 2
        if self.shape == "sphere": return self.size[0]
        return min(self.size[0] / 2, self.size[1])
    def bounding(self):
        if self.shape == "box": return math.sqrt(sum(s * s for s in self.size)) / 2
        if self.shape == "sphere": return self.size[0]
        return math.hypot(self.size[0] / 2, self.size[1])
    def contains(self, p, margin=0.0):
        q = self.R.T @ (np.array(p) - self.T)
        if self.shape == "box": return all(abs(q[i]) < self.size[i] / 2 - margin for i in range(3))
        if self.shape == "sphere": return np.linalg.norm(q) < self.size[0] - margin
        return abs(q[2]) < self.size[0] / 2 - margin and math.hypot(q[0], q[1]) < self.size[1] - margin

class World:
    """vols[0] is the root."""
    def __init__(self, vols, touch=(), lights=None):
        self.vols, self.touch, self.lights = vols, list(touch), lights or []
        self.comps = []
        for v in vols:
            for c in v.comps: self.comps.append(c)
    def encl(self, i):
        r = []; h = self.vols[i].holder
        while h is not None:
            r.append(h); h = self.vols[h].holder
        return r
    def spec(self):
        names = {c.name: k + 1 for k, c in enumerate(self.comps)}
        return {"root": 1,
                "vol": [{"encl": [j + 1 for j in self.encl(i)], "comps": [names[c.name] for c in v.comps], "surf": v.surf,
                         "shape": v.shape, "size": [li(s) for s in v.size], "R": [v3u(r) for r in v.R], "T": v3l(v.T), "n": li(v.n)}
                        for i, v in enumerate(self.vols)],
                "touch": [[a + 1, b + 1] for a, b in self.touch],
                "comp": [c.spec() for c in self.comps]}
    def names(self):
        return {v.name: i + 1 for i, v in enumerate(self.vols)}, {c.name: i + 1 for i, c in enumerate(self.comps)}
    def build(self, rays=None):
        """pvtrace Scene.  `rays`: list of (position, direction, nm) thrown in order by one light."""
        from pvtrace.scene.node import Node
        from pvtrace.scene.scene import Scene
        from pvtrace.geometry.box import Box
        from pvtrace.geometry.sphere import Sphere
        from pvtrace.geometry.cylinder import Cylinder
        from pvtrace.material.material import Material
        from pvtrace.material.surface import Surface, NullSurfaceDelegate, FresnelSurfaceDelegate
        nodes = []
        for i, v in enumerate(self.vols):
            surf = Surface(delegate=NullSurfaceDelegate()) if v.surf == "null" else None
            mat = Material(refractive_index=v.n, surface=surf, components=[c.build() for c in v.comps])
            geo = (Box(v.size, material=mat) if v.shape == "box" else Sphere(v.size[0], material=mat) if v.shape == "sphere"
                   else Cylinder(v.size[0], v.size[1], material=mat))
            parent = None if v.attach is None else nodes[v.attach]
            node = Node(name=v.name, parent=parent, geometry=geo)
            M = np.eye(4); M[:3, :3] = v.R; M[:3, 3] = v.T
            if v.attach is not None:
                pv = self.vols[v.attach]; P = np.eye(4); P[:3, :3] = pv.R; P[:3, 3] = pv.T
                Pi = np.eye(4); Pi[:3, :3] = pv.R.T; Pi[:3, 3] = -pv.R.T @ pv.T
                M = Pi @ M
                if v.how == "via":      # an intermediate geometry-less frame
                    mid = Node(name=v.name + "-frame", parent=parent)
                    Q = np.eye(4); Q[:3, :3] = rot(0.7, (1, 2, 3)); Q[:3, 3] = (0.3, -0.2, 0.1)
                    mid.pose = Q
                    Qi = np.eye(4); Qi[:3, :3] = Q[:3, :3].T; Qi[:3, 3] = -Q[:3, :3].T @ Q[:3, 3]
                    M = Qi @ M
                    node.parent = mid
                if v.how == "trans" and np.allclose(M[:3, :3], np.eye(3), atol=0):
                    node.translate(M[:3, 3])
                else:
                    node.pose = M
            for rec in v.recorders: node.recorders.append(rec)
            nodes.append(node)
        if rays is not None:
            from pvtrace.light.light import Light
            it = {"i": -1, "p": list(rays)}
            def pos():
                return tuple(it["p"][it["i"]][0])
            def direc():
                return tuple(it["p"][it["i"]][1])
            def wav():
                return float(it["p"][it["i"]][2])
            class Feed(Light):
                def emit(self, num_rays=None):
                    for _ in range(num_rays or 0):
                        it["i"] += 1
                        yield from super().emit(1)
            Node(name="feeder", parent=nodes[0], light=Feed(wavelength=wav, position=pos, direction=direc, name="feed"))
        self.scene = Scene(nodes[0]); self.nodes = nodes
        return self.scene

# -------------------------------------------------------------- random generation

XS = [200, 300, 400, 450, 500, 550, 600, 650, 700, 800, 900, 1200]
EMX = list(range(400, 801, 20))

def rand_dir(rng):
    while True:
        v = np.array([rng.gauss(0, 1) for _ in range(3)]); n = np.linalg.norm(v)
        if n > 1e-3: return v / n

def rand_rot(rng):
    m = rng.random()
    if m < 0.3: return np.eye(3)
    if m < 0.45: return rot(rng.choice([1, 2, 3]) * math.pi / 2, rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1)]))
    return rot(rng.uniform(0.1, 3), rand_dir(rng))

def rand_comp(rng, name, kinds=("absorber", "reactor", "scatterer", "luminophore"), qys=(0.0, 1.0, 0.5, 0.9), scale=1.0, taus=True):
    kind = rng.choice(kinds)
    spectrum = None; alpha = rng.choice([0.0, 0.05, 0.3, 1.0, 3.0]) * scale
    if rng.random() < 0.5:
        spectrum = [(x, rng.choice([0.0, 0.2, 1.0, 2.0]) * scale) for x in XS]
    em = None
    if kind == "luminophore":
        em = [(x, 0.0 if x < 460 else rng.choice([0.0, 0.5, 1.0, 2.0])) for x in EMX]
        em[-3] = (em[-3][0], 1.0); em[-2] = (em[-2][0], 0.5)
    tr = tn = None
    if taus and rng.random() < 0.4:
        tn = rng.choice([1e-11, 1e-10]) if kind != "reactor" else None
        if kind in ("scatterer", "luminophore"): tr = rng.choice([1e-11, 1e-10])
    ph = None
    if kind in ("scatterer", "luminophore"):
        ph = rng.choice([None, ["isotropic"], ["hg", 0.7], ["hg", -0.4], ["cone", 0.5]])
    return Comp(name, kind, alpha, rng.choice(qys), spectrum, em, tr, tn, ph)

def rand_shape(rng, radius):
    """A shape whose bounding sphere has at most this radius."""
    k = rng.choice(["box", "sphere", "cylinder"])
    if k == "sphere": return k, (radius * rng.uniform(0.8, 0.999),)
    if k == "box":
        s = np.array([rng.uniform(0.3, 1.0) for _ in range(3)]); s = s / np.linalg.norm(s) * 2 * radius * 0.999
        return k, tuple(float(a) for a in s)
    a = rng.uniform(0.4, 1.2)
    return k, (2 * radius * math.cos(a) * 0.999, radius * math.sin(a) * 0.999)

def rand_world(rng, maxvol=6, comps=True, comp_kw=None, depth=4, indices=(1.0, 1.5, 1.33, 2.0, 1.7, 3.5), null=0.15, tree=True):
    root = Vol("world", rng.choice(["box", "sphere", "cylinder"]), (8.0,) if False else (0,), None, np.eye(3), np.zeros(3))
    if root.shape == "box": root.size = (rng.choice([8.0, 10.0]), 9.0, rng.choice([8.0, 12.0]))
    elif root.shape == "sphere": root.size = (5.0,)
    else: root.size = (10.0, 5.0)
    root.n = 1.0
    vols = [root]; touch = []; level = [0]
    target = rng.randint(2, maxvol)
    tries = 0
    balls = {0: []}
    while len(vols) < target and tries < 40:
        tries += 1
        h = rng.randrange(len(vols))
        if level[h] >= depth: continue
        hv = vols[h]
        ri = hv.inscribed() * 0.95
        if ri < 0.15: continue
        r = ri * rng.uniform(0.25, 0.9)
        c = rand_dir(rng) * rng.uniform(0, ri - r) if rng.random() < 0.8 else np.zeros(3)
        if any(np.linalg.norm(c - c2) < r + r2 + 1e-3 for c2, r2 in balls[h]): continue
        if rng.random() < 0.2 and not balls[h]:
            # two boxes sharing a face, axes of the holder
            s = r / 1.9
            a, b = (s * 1.5, s, s), (s * 0.5, s, s) if rng.random() < 0.5 else (s * 0.75, s * 1.25, s)
            q = lambda x: round(x * 64) / 64
            a = tuple(max(q(x), 1 / 32) for x in a); b = tuple(max(q(x), 1 / 32) for x in b)
            R = hv.R
            ia, ib = len(vols), len(vols) + 1
            va = Vol("n%d" % ia, "box", a, h, R, hv.T + R @ np.array([-a[0] / 2, 0, 0]))
            vb = Vol("n%d" % ib, "box", b, h, R, hv.T + R @ np.array([b[0] / 2, 0, 0]))
            if max(va.bounding() + a[0] / 2, vb.bounding() + b[0] / 2) > ri: continue
            vols += [va, vb]; touch.append((ia, ib)); level += [level[h] + 1] * 2
            balls[h].append((np.zeros(3), ri)); balls[ia] = []; balls[ib] = []
            continue
        shape, size = rand_shape(rng, r)
        i = len(vols)
        v = Vol("n%d" % i, shape, size, h, hv.R @ rand_rot(rng), hv.T + hv.R @ c)
        if tree and rng.random() < 0.3:
            v.attach = rng.choice(range(i))    # anywhere in the tree, same world pose
        if tree and rng.random() < 0.25: v.how = "via"
        balls[h].append((c, r)); balls[i] = []
        vols.append(v); level.append(level[h] + 1)
    k = 0
    for i, v in enumerate(vols):
        if i: v.n = rng.choice(indices)
        if rng.random() < null: v.surf = "null"
        if comps and (rng.random() < 0.6):
            for _ in range(rng.choice([1, 1, 2, 3])):
                kw = dict(comp_kw or {})
                sc = kw.pop("scale", 1.0)
                v.comps.append(rand_comp(rng, "c%d" % k, scale=sc * (0.1 if i == 0 else 0.6), **kw)); k += 1
    # null surfaces keep direction: fine for any indices
    return World(vols, touch)

def innermost(world, p, margin=1e-4):
    """Index of the innermost volume containing p with margin from every surface, else None."""
    inside = []
    for i, v in enumerate(world.vols):
        a, b = v.contains(p, margin), v.contains(p, -margin)
        if a != b: return None
        if a: inside.append(i)
    if not inside: return None
    return max(inside, key=lambda i: len(world.encl(i)))

def rand_rays(rng, world, n, lo=470, hi=780):
    rays = []
    while len(rays) < n:
        v = world.vols[rng.randrange(len(world.vols))]
        q = np.array([rng.uniform(-1, 1) for _ in range(3)]) * v.bounding()
        p = v.T + v.R @ q
        if innermost(world, p) is None: continue
        d = rand_dir(rng)
        if rng.random() < 0.25: d = np.array(rng.choice([(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]), float)
        rays.append((tuple(float(x) for x in p), tuple(float(x) for x in d), rng.uniform(lo, hi)))
    return rays

"""C26: tabulated distributions, light masks, directions, per-ray and vectorised emission (Dist, DistDef, Sampler, Stats)."""
import functools, itertools, math, random
import numpy as np
import vlib
from checks_query import run_jobs
from checks_trace import stat, stats, direction_stats
U = 10 ** 8

def i6(x): return int(max(-2000000000, min(2000000000, round(float(x) * 1e6)))) if math.isfinite(x) else 2000000000
def i8(x): return int(round(float(x) * 1e8)) if math.isfinite(x) and abs(x) < 20 else 2000000000

# ------------------------------------------------------------------ tables

def table_job(job):
    from pvtrace.material.distribution import Distribution
    from pvtrace.material.component import Absorber
    tables, seed = job
    rng = random.Random(seed); out = []
    for x, y, hist in tables:
        off, unit, scale = rng.choice([0.0, 300.0, -5.0]), rng.choice([1.0, 0.37, 25.0]), rng.choice([1.0, 1e-9, 1e7, 0.1])
        rx = off + unit * np.array(x, dtype=float); ry = scale * np.array(y, dtype=float)
        how = rng.randrange(4)
        if how == 0 and not hist:
            half = [lambda v: 0.25 * np.interp(v, rx, ry), lambda v: 0.75 * np.interp(v, rx, ry)]
            d = Distribution.from_functions(list(rx), half, hist=hist)
        else: d = Distribution(rx, ry, hist=hist) if how % 2 else Distribution(x=rx, y=ry, hist=hist)
        def back(v): return i6((float(v) - off) / unit)
        area = [0]
        for k in range(1, len(x) + (1 if hist else 0)):
            area.append(area[-1] + (y[k - 1] if hist else (y[k - 1] + y[k]) * (x[k] - x[k - 1])))
        total = area[-1]; n = len(x)
        ask = []      # what, place, real argument
        for k in range(1, n + 1):
            for i in ((0,) if hist or k == n else (0, 1, 2, 3)):
                pos = off + unit * (x[k - 1] + (i / 4 * (x[k] - x[k - 1]) if i else 0))
                ask.append(("lookup", [k, i], pos)); ask.append(("value", [k, i], pos))
                if hist:
                    ask.append(("draw", [k, 0], area[k] / total))
                    if y[k - 1] > 0: ask.append(("draw", [k, 2], (area[k - 1] + area[k]) / 2 / total))
                else:
                    p = (area[k - 1] + (i / 4 * (area[k] - area[k - 1]) if i else 0)) / total
                    # beside a stretch without weight the last digit decides; both ends are allowed by the specification
                    ask.append(("draw", [k, i], min(1.0, p)))
        ans = []
        call = {"lookup": d.lookup, "value": d, "draw": d.sample}
        many = rng.random() < 0.5
        for what in ("lookup", "value", "draw"):
            mine = [a for a in ask if a[0] == what]
            got = call[what](np.array([a[2] for a in mine])) if many and len(mine) > 1 else [call[what](a[2]) for a in mine]
            for a, v in zip(mine, got):
                ans.append({"what": what, "p": a[1], "v": back(v) if what == "draw" else i6(float(v) / (scale if what == "value" else 1.0))})
        if not hist and rng.random() < 0.3:       # the same table as an absorption coefficient
            c = Absorber(np.column_stack((rx, ry)))
            for a in [a for a in ask if a[0] == "value"]: ans.append({"what": "value", "p": a[1], "v": i6(float(c.coefficient(a[2])) / scale)})
        out.append({"kind": "table", "t": {"x": x, "y": y, "hist": hist}, "ans": ans})
    return out

def refusals():
    from pvtrace.material.distribution import Distribution
    from pvtrace.material.utils import cone, Cone
    out = []
    x = np.array([400.0, 500.0, 700.0]); y = np.array([0.0, 2.0, 1.0]); d = Distribution(x, y); h = Distribution(x, y, hist=True)
    def refuse(what, f):
        try: f(); raised = False
        except ValueError: raised = True
        out.append({"kind": "refuse", "what": what, "raised": raised})
    for name, t in (("", d), ("-hist", h)):
        for v in (399.0, 700.5, -1.0): refuse("lookup-outside" + name, lambda: t.lookup(v)); refuse("value-outside" + name, lambda: t(v))
        for v in (-0.01, 1.01, 2.0): refuse("draw-outside" + name, lambda: t.sample(v))
        refuse("lookup-one-outside" + name, lambda: t.lookup(np.array([450.0, 710.0]))); refuse("draw-one-outside" + name, lambda: t.sample(np.array([0.5, 1.2])))
    refuse("unsorted", lambda: Distribution(np.array([1.0, 3.0, 2.0]), y)); refuse("repeated", lambda: Distribution(np.array([1.0, 2.0, 2.0]), y))
    for v in (np.nan, np.inf):
        for k in range(3):
            odd = np.array([1.0, 2.0, 3.0]); odd[k] = v
            for h in (False, True): refuse("one-not-finite", lambda: Distribution(x, odd, hist=h))
    refuse("negative", lambda: Distribution(x, np.array([1.0, -0.1, 1.0]))); refuse("nothing-finite", lambda: Distribution(x, np.array([np.nan, np.nan, np.inf])))
    for v in (0.0, 1.7, 3.0): refuse("cone-angle", lambda: cone(v)); refuse("cone-angle-helper", lambda: Cone(v)())
    return out

# ------------------------------------------------------------------ lights

def quarter_turns():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1, -1), repeat=3):
            m = np.zeros((3, 3))
            for k in range(3): m[p[k], k] = s[k]
            if round(np.linalg.det(m)) == 1: out.append(m)
    return out

def light_of(rng):
    """A random light: (Light, description)."""
    from pvtrace.light import light as L
    from pvtrace.light.light import Light
    from pvtrace.material import utils as MU
    from pvtrace.material.distribution import Distribution
    d = {}
    kind = rng.choice(["point", "rect", "circle", "cube", "rect", "circle"]); wrap = rng.random() < 0.6      # wrap: the helper object, otherwise a plain function
    a = [round(rng.choice([0.01, 0.3, 1.0, 2.5]) * rng.uniform(0.5, 1.5), 3) for _ in range(3)]
    if kind == "point": pos = rng.choice([None, L.default_position, L.DefaultPosition()])
    elif kind == "rect": pos = L.RectangularMask(a[0], a[1]) if wrap else functools.partial(L.rectangular_mask, a[0], a[1])
    elif kind == "circle": pos = L.CircularMask(a[0]) if wrap else functools.partial(L.circular_mask, a[0])
    else: pos = L.CubeMask(*a) if wrap else functools.partial(L.cube_mask, *a)
    d["place"] = {"kind": kind, "a": [i6(v) for v in a]}; d["lens"] = a
    ph = rng.choice(["axis", "cone", "cone", "isotropic", "lambertian", "hg", "hg"]); wrap = rng.random() < 0.6
    if ph == "axis": direction, phase = rng.choice([None, L.default_direction, L.DefaultDirection()]), None
    elif ph == "cone":
        t = rng.choice([0.02, 0.4, 1.0, math.pi / 2]); phase = ["cone", t]
        direction = MU.Cone(t) if wrap else functools.partial(MU.cone, t)
    elif ph == "isotropic": direction, phase = MU.isotropic, ["isotropic"]
    elif ph == "lambertian": direction, phase = MU.lambertian, ["lambertian"]
    else:
        g = rng.choice([-0.9, -0.4, 0.0, 0.3, 0.8, 0.97, 1e-12, 1e-9]); phase = ["hg", g]
        direction = MU.HenyeyGreenstein(g) if wrap else functools.partial(MU.henyey_greenstein, g)
    d["aim"] = {"kind": ph, "a": int(math.cos(phase[1]) * 1e8) if ph == "cone" else 0}; d["phase"] = phase
    w = rng.choice(["default", "constant", "spectrum", "spectrum", "hist"]); d["tab"] = None
    if w == "default": wav = rng.choice([None, L.default_wavelength, L.DefaultWavelength()]); d["wave"] = [i6(555e-3) * 1, i6(555e-3)]
    elif w == "constant":
        v = rng.choice([400.0, 612.25]); wav = L.ConstantWavelengthMask(v) if rng.random() < 0.7 else (lambda: v); d["wave"] = [i6(v * 1e-3)] * 2
    else:
        x = np.array(sorted(rng.sample(range(300, 900, 10), rng.randint(2, 6))), dtype=float); y = np.array([float(rng.choice([0, 1, 2, 5])) for _ in x])
        if not np.any(y > 0) : y[:] = 1.0
        if w == "spectrum" and not any(y[k] + y[k + 1] > 0 for k in range(len(y) - 1)): y[:] = 1.0
        dist = Distribution(x, y, hist=(w == "hist")); wav = L.SpectrumWavelengthMask(dist) if rng.random() < 0.7 else (lambda: dist.sample(np.random.uniform()))
        d["wave"] = [i6(x[0] * 1e-3), i6(x[-1] * 1e-3)]; d["tab"] = (w, [int(v) for v in x], [int(v) for v in y])
    d["name"] = rng.choice(["lamp", "Light", "sun 2"])
    return Light(wavelength=wav, position=pos, direction=direction, name=d["name"]), d

def scene_of(lights, poses):
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.material.material import Material
    world = Node(name="world", geometry=Sphere(radius=100.0, material=Material(refractive_index=1.0)))
    nodes = []
    for k, (l, m) in enumerate(zip(lights, poses)):
        node = Node(name="n%d" % k, light=l, parent=world); node.pose = m; nodes.append(node)
    return Scene(world), nodes

def gather(scene, n, fast):
    """positions, directions, wavelengths, sources of n rays, in world coordinates."""
    if fast:
        from pvtrace.engine.emit import emit_bundle
        p, d, w, s = emit_bundle(scene, n)
        return np.array(p, dtype=float), np.array(d, dtype=float), np.array(w, dtype=float), list(s)
    rays = list(scene.emit(n))
    return np.array([r.position for r in rays], dtype=float), np.array([r.direction for r in rays], dtype=float), np.array([r.wavelength for r in rays], dtype=float), [r.source for r in rays]

def light_job(job):
    seed, nslow, nfast = job
    rng = random.Random(seed); turns = quarter_turns(); out = []
    for fast in (False, True):
        np.random.seed(rng.randrange(1 << 31))
        state = rng.getstate(); count = rng.choice([1, 1, 2, 3])
        made = [light_of(rng) for _ in range(count)]
        poses, rots = [], []
        for _ in made:
            R = rng.choice(turns); t = np.array([rng.randrange(-3, 4) for _ in range(3)], dtype=float); m = np.identity(4); m[:3, :3] = R; m[:3, 3] = t
            poses.append(m); rots.append((R, t))
        if count > 1:
            for k, (l, d) in enumerate(made): l.name = d["name"] = d["name"] + str(k)
        scene, nodes = scene_of([l for l, _ in made], poses)
        total = (nfast if fast else nslow) * count + (rng.randrange(count) if count > 1 else 0)
        P, D, W, S = gather(scene, total, fast)
        # the lights' own order in the scene
        order = [n.light.name for n in scene.light_nodes]
        out.append({"kind": "turns", "first": 0, "n": total, "lights": order, "order": [str(s) for s in S][:total] if len(S) < 5000 else [str(s) for s in S][:4999] + ["..."] * 0})
        if len(S) >= 5000: out[-1]["n"] = 4999
        for l, d in made:
            k = order.index(l.name); rows = np.arange(k, total, count)
            R, t = rots[[x[0] for x in made].index(l)]
            few = rows[:400]
            out.append({"kind": "rays", "pose": {"r": [[int(v) for v in R[:, c]] for c in range(3)], "t": [int(v) for v in t]}, "place": d["place"], "aim": d["aim"], "wave": d["wave"], "name": l.name, "fast": fast,
                        "rays": [{"fine": bool(np.all(np.isfinite(P[j])) and np.all(np.isfinite(D[j])) and math.isfinite(W[j])), "p": [i6(v) for v in P[j]], "d": [i8(v) for v in D[j]], "w": i6(W[j] * 1e-3), "src": str(S[j])} for j in few]})
            ok = np.all(np.isfinite(D[rows]), axis=1) & np.all(np.isfinite(P[rows]), axis=1)
            if not ok.all(): out.append(dict(out[-1], rays=[dict(out[-1]["rays"][0], fine=False)]))
            q = (P[rows][ok] - t) @ R; v = D[rows][ok] @ R; w = W[rows][ok]; m = len(w)
            way = "_vectorised" if fast else ""
            mine = []
            if d["phase"]:
                ph = d["phase"]
                if ph[0] == "hg" and abs(ph[1]) < 1e-6: ph = ["isotropic"]
                mine += direction_stats("C26", ph, v)
            a = d["lens"]; kind = d["place"]["kind"]
            axes = {"point": 0, "rect": 2, "cube": 3, "circle": 0}[kind]
            for k2 in range(axes):
                for f in (0.2, 0.5, 0.9): mine.append(stat("C26", "frac", "place_" + kind, m, int((q[:, k2] < (2 * f - 1) * a[k2]).sum()), (f * U,)))
            if kind == "circle":
                r2 = (q[:, 0] ** 2 + q[:, 1] ** 2) / a[0] ** 2; an = np.arctan2(q[:, 1], q[:, 0]) % (2 * math.pi)
                for f in (0.1, 0.5, 0.9): mine.append(stat("C26", "frac", "place_circle", m, int((r2 < f).sum()), (f * U,))); mine.append(stat("C26", "frac", "place_circle_angle", m, int((an < f * 2 * math.pi).sum()), (f * U,)))
            if d["tab"]:
                hk, x, y = d["tab"]
                if hk == "hist":
                    for k2 in range(len(x) - 1): mine.append(stat("C26", "frac", "histogram_draws", m, int((w < x[k2] + 0.5).sum()), (U * sum(y[:k2 + 1]) / sum(y),)))
                else:
                    area = np.cumsum([0.0] + [(y[j] + y[j + 1]) * (x[j + 1] - x[j]) for j in range(len(x) - 1)]); area /= area[-1]
                    for j in range(len(x) - 1):
                        mine.append(stat("C26", "frac", "spectrum_draws", m, int((w < x[j + 1]).sum()), (U * area[j + 1],)))
                        mine.append(stat("C26", "frac", "spectrum_draws", m, int((w < (x[j] + x[j + 1]) / 2).sum()), (U * (area[j] + area[j + 1]) / 2,)))
            fresh = [("place", q[:, 0])] if axes or kind == "circle" else []
            if d["phase"]: fresh.append(("direction", v[:, 0]))
            if d["tab"] and d["tab"][0] != "hist": fresh.append(("wavelength", w))
            out += [{"kind": "fresh", "what": what, "n": m, "repeated": int(m - len(np.unique(x)))} for what, x in fresh]
            # nothing depends on anything else: halves of place, direction, wavelength and of the next ray
            halves = []
            if axes or kind == "circle": halves.append(("x", q[:, 0] < 0)); halves.append(("y", q[:, 1] < 0))
            if kind == "cube": halves.append(("z", q[:, 2] < 0))
            if kind == "circle": halves.append(("r", q[:, 0] ** 2 + q[:, 1] ** 2 < a[0] ** 2 / 2))
            if d["phase"]:
                halves.append(("phi", v[:, 1] < 0)); halves.append(("phi2", v[:, 0] < 0))
                if d["phase"][0] == "isotropic": halves.append(("up", v[:, 2] < 0))
                elif d["phase"][0] in ("cone", "lambertian"): halves.append(("theta", 1 - v[:, 2] ** 2 < (math.sin(d["phase"][1]) if d["phase"][0] == "cone" else 1.0) ** 2 / 2))
            if d["tab"] and d["tab"][0] != "hist":
                p = np.array([np.interp(u, x, area) for u in w]) if m < 3000 else np.interp(w, x, area)
                halves.append(("nm", p < 0.5))
            for (na, ha), (nb, hb) in itertools.combinations(halves, 2): mine.append(stat("C26", "frac", "independent_%s_%s" % (na, nb), m, int((ha & hb).sum()), (U / 4,)))
            for na, ha in halves: mine.append(stat("C26", "frac", "independent_rays_" + na, m // 2, int((ha[0:2 * (m // 2):2] & ha[1:2 * (m // 2):2]).sum()), (U / 4,)))
            for s in mine: s["what"] += way
            out += [dict(s, stat=True) for s in mine if s["n"] > 200]
    return out

def odd_job(job):
    """Delegates and lights of the user's own classes: the vectorised way must draw what the light itself emits."""
    from pvtrace.light import light as L
    from pvtrace.light.light import Light
    from pvtrace.light.ray import Ray
    from pvtrace.material import utils as MU
    seed = job; rng = random.Random(seed); out = []
    class Downward(MU.Cone):
        def __call__(self): v = super().__call__(); return np.array([v[0], v[1], -v[2]])
    class Ring(L.CircularMask):
        def __call__(self): p = super().__call__(); r = math.hypot(p[0], p[1]) or 1.0; return (p[0] / r * self.radius, p[1] / r * self.radius, 1.0)
    class Shifted(L.RectangularMask):
        def __call__(self): p = super().__call__(); return (p[0] + 10 * self.x, p[1], 2.0)
    class Lines(L.ConstantWavelengthMask):
        def __call__(self): return self.nanometers + rng.choice([0.0, 10.0])
    class Early(L.DefaultDirection):
        def __call__(self): return (1.0, 0.0, 0.0)
    class Box2(L.CubeMask):
        def __call__(self): p = super().__call__(); return (p[0], p[1], p[2] + 5.0)
    class Back(MU.HenyeyGreenstein):
        def __call__(self): v = super().__call__(); return -np.abs(v)
    class Red(L.SpectrumWavelengthMask):
        def __call__(self): return super().__call__() + 300.0
    class Twice(Light):
        def emit(self, num_rays=None):
            for r in super().emit(num_rays): yield Ray(position=r.position, direction=(0.0, -1.0, 0.0), wavelength=700.0, source=r.source)
    from pvtrace.material.distribution import Distribution
    d = Distribution(np.array([400.0, 500.0]), np.array([1.0, 1.0]))
    cases = [("cone", Light(direction=Downward(0.5)), lambda p, v, w: v[2] < 0), ("circle", Light(position=Ring(1.0)), lambda p, v, w: abs(p[2] - 1) < 1e-9), ("rectangle", Light(position=Shifted(0.5, 0.5)), lambda p, v, w: p[0] > 4),
             ("constant", Light(wavelength=Lines(500.0)), None), ("direction", Light(direction=Early()), lambda p, v, w: v[0] > 0.9), ("cube", Light(position=Box2(1, 1, 1)), lambda p, v, w: p[2] > 3.9),
             ("henyey", Light(direction=Back(0.3)), lambda p, v, w: v[2] <= 0), ("spectrum", Light(wavelength=Red(d)), lambda p, v, w: w >= 700), ("light", Twice(), lambda p, v, w: w == 700 and v[1] < -0.9)]
    for name, light, holds in cases:
        light.name = "odd"
        scene, _ = scene_of([light], [np.identity(4)])
        try: P, D, W, S = gather(scene, 60, True)
        except Exception as e:       # refusing is fine as well
            if not vlib.through_repo(e): raise
            continue
        good = len(set(W)) == 2 if holds is None else all(holds(p, v, w) for p, v, w in zip(P, D, W))
        out.append({"kind": "refuse", "what": "subclass-" + name, "raised": bool(good)})
    return out

CFG = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxLen = %d\n Gaps = {%s}\n Tops = %d\n"

def C26(c):
    vlib.load_kernel()
    import pvtrace.engine.emit, pvtrace.material.component
    rng = random.Random(vlib.SEED * 37 + 26)
    r = c.model("Dist", CFG % (4, "1, 3", 2), name="Dist (every small table)", timeout=600, mem="6g")
    tables = [[list(v[0]), list(v[1]), bool(v[2])] for v in r.verdicts]
    if not c.quick:
        r = c.model("Dist", CFG % (5, "1, 2", 2), name="Dist (five points)", timeout=800, mem="8g")
        tables += [[list(v[0]), list(v[1]), bool(v[2])] for v in r.verdicts]
    if len(tables) < 500: raise vlib.Machinery("Dist printed %d tables" % len(tables))
    rng.shuffle(tables)
    recs = run_jobs(table_job, [(tables[k:k + 200], rng.randrange(1 << 30)) for k in range(0, len(tables), 200)])
    c.part("tables", tables=len(tables), answers=sum(len(x["ans"]) for x in recs))
    rays = run_jobs(light_job, [(rng.randrange(1 << 30), 3000 if c.quick else 12000, 60000 if c.quick else 400000) for _ in range(40 if c.quick else 400)]
                    + [(rng.randrange(1 << 30), 300, 180000) for _ in range(4 if c.quick else 16)])
    numbers = [x for x in rays if x.get("stat")]
    for x in numbers: x.pop("stat")
    recs += [x for x in rays if "kind" in x and x["kind"] in ("rays", "turns", "fresh")] + refusals() + run_jobs(odd_job, [rng.randrange(1 << 30)])
    c.part("lights", rays=sum(len(x["rays"]) for x in recs if x["kind"] == "rays"), fractions=len(numbers))
    c.judge("Sampler", recs, mem="8g", timeout=800)
    stats(c, numbers, "fractions")


# ------------------------------------------------------------------ C28: how components are given their spectra

def forms_job(job):
    from pvtrace.material.component import Absorber, Reactor, Scatterer, Luminophore
    from pvtrace.light.ray import Ray
    from record import mt_constant
    cases, seed = job
    rng = random.Random(seed); np.random.seed(seed % (1 << 31)); out = []
    def table(hist, near):
        while True:
            n = rng.randint(2, 5); x = [0]
            for _ in range(n - 1): x.append(x[-1] + rng.choice([1, 2, 5]))
            y = [rng.choice([0, 1, 2, 5]) for _ in x]
            if (sum(y) if hist else sum(a + b for a, b in zip(y, y[1:]))) and (hist or all(a + b for a, b in zip(y, y[1:]))): break
        off, unit = near, rng.choice([1.0, 4.0, 12.0]) if near > 500 else rng.choice([1.0, 0.5, 20.0])
        return {"x": x, "y": y, "hist": hist}, [off + unit * v for v in x], off, unit
    def given(form, t, rx):
        """(argument, x) for a table in that form."""
        y = [float(v) for v in t["y"]]
        f = lambda v: np.interp(v, rx, y)
        half = [lambda v: 0.25 * f(v), lambda v: 0.75 * f(v)]
        arr = np.column_stack((np.array(rx), np.array(y)))
        def spoil(col, v):
            a = arr.copy(); a[rng.randrange(len(a)), col] = v
            return a
        odd = list(y); odd[rng.randrange(len(odd))] = float("nan")
        return {"dark": (arr * np.array([1.0, 0.0]), None), "nan-value": (spoil(1, np.nan), None), "infinite-value": (spoil(1, np.inf), None), "nan-x": (spoil(0, np.nan), None),
                "infinite-x": (np.vstack((arr[:-1], [[np.inf, arr[-1, 1]]])), None), "list-nan": (odd, list(rx)),
                "array": (arr, None), "integer-array": (np.column_stack(([int(v) for v in rx], t["y"])), None), "list": (y, list(rx)), "tuple": (tuple(y), tuple(rx)), "list-array-x": (y, np.array(rx)),
                "functions": (half, list(rx)), "functions-tuple": (tuple(half), np.array(rx)), "functions-nan": ([lambda v: np.where(f(v) > 0, f(v), np.nan), lambda v: 0 * v], tuple(rx)),
                "nothing": (None, None), "text": ("1.0", None), "list-no-x": (y, None), "functions-no-x": (half, None), "unsorted": (arr[::-1].copy(), None),
                "negative": (arr - np.array([0.0, 6.0]), None), "short-x": (y, list(rx[:-1])), "repeated-x": (np.vstack((arr, arr[-1:])), None)}[form]
    for cls, coef, em, hist, yld in cases:
        c = rng.choice([1, 3, 12]); rec = {"cls": cls, "coef": coef, "em": em, "hist": hist, "yield": yld, "c": 0, "ans": [], "name": "", "source": "", "lit": [], "delays": [0, 0], "kept": True}
        t, rx, off, unit = table(hist, 560.0 if rng.random() < 0.5 or coef in ("list", "tuple", "list-array-x", "functions", "functions-tuple", "functions-nan") else 400.0)
        if coef == "integer-array": unit = max(1.0, round(unit)); rx = [off + unit * v for v in t["x"]]
        e, ex, eoff, eunit = table(hist, 560.0)
        if em == "integer-array": eunit = max(1.0, round(eunit)); ex = [eoff + eunit * v for v in e["x"]]
        if coef == "dark": t = {**t, "y": [0] * len(t["y"])}
        rec.update(t=t, e=e)
        number = {"number": 0.25 * c, "integer": c, "numpy-float": np.float64(0.25 * c), "numpy-integer": np.int64(c)}
        if coef == "numpy-float" and rng.random() < 0.5: number[coef] = np.float32(0.25 * c)
        kw = {}
        if coef in number: arg, x = number[coef], None; rec["c"] = i6(number[coef])
        else: arg, x = given(coef, t, rx)
        if cls == "Luminophore":
            if em == "default":
                if x is None and coef not in ("list-no-x", "functions-no-x"): x = np.arange(450.0, 751.0)
            elif em == "number": kw["emission"] = 1.0
            else:
                kw["emission"], xe = given(em, e, ex)
                if xe is not None: x = xe
        if x is not None: kw["x"] = x
        if hist or rng.random() < 0.3: kw["hist"] = hist
        rad, nr = rng.choice([1, 10, 500]), rng.choice([3, 20, 400]); q = rng.choice([100, 500, 937])
        if rng.random() < 0.4: rad, nr = rng.choice([(0, nr), (rad, 0)])      # at once
        rec.update(q=q, rad=rad, nr=nr)
        kw.update({"default": {}, "given": {"quantum_yield": q / 1000}, "zero": {"quantum_yield": 0.0}, "none": {"quantum_yield": None}, "both": {"tau_rad": rad * 1e-9, "tau_nr": nr * 1e-9},
                   "both-given": {"tau_rad": rad * 1e-9, "tau_nr": nr * 1e-9, "quantum_yield": 0.123}, "none-both": {"tau_rad": rad * 1e-9, "tau_nr": nr * 1e-9, "quantum_yield": None},
                   "radiative": {"tau_rad": rad * 1e-9}, "nonradiative": {"tau_nr": nr * 1e-9}, "none-radiative": {"tau_rad": rad * 1e-9, "quantum_yield": None}, "both-zero": {"tau_rad": 0.0, "tau_nr": 0.0}}[yld])
        rec["asked"] = cls
        if rng.random() < 0.5: rec["asked"] = kw["name"] = rng.choice(["dye", "my red one"])
        phase = (0.0, 0.6, 0.8)
        if cls in ("Scatterer", "Luminophore"): kw["phase_function"] = lambda: phase
        try: o = {"Absorber": Absorber, "Reactor": Reactor, "Scatterer": Scatterer, "Luminophore": Luminophore}[cls](arg, **kw); rec["got"] = "built"
        except Exception as err:
            rec["got"] = type(err).__name__; out.append(rec); continue
        if coef in number: rec["ans"] += [{"what": "constant", "p": [1, 0], "v": i6(o.coefficient(w))} for w in (200.0, 555.5, 3000.0)]
        elif coef in ("nothing", "text"): out.append(rec); continue
        else:
            n = len(rx)
            for k in range(1, n + 1):
                for i in ((0,) if hist or k == n else (0, 1, 2, 3)):
                    rec["ans"].append({"what": "value", "p": [k, i], "v": i6(float(o.coefficient(rx[k - 1] + (i / 4 * (rx[k] - rx[k - 1]) if i else 0))))})
            for w in (rx[0] - 0.5, rx[-1] + 0.5):
                try: o.coefficient(w); v = 0
                except ValueError: v = 1
                rec["ans"].append({"what": "outside", "p": [1, 0], "v": v})
        ray = Ray(position=(1.0, 2.0, 3.0), direction=(0.0, 0.0, 1.0), wavelength=600.0, travelled=4.0, duration=0.0, source="lamp")
        def with_draw(u, f):
            state = np.random.get_state(); np.random.set_state(mt_constant(u))
            try: return f()
            finally: np.random.set_state(state)
        mid = {"both": nr / (nr + rad), "both-given": nr / (nr + rad), "none-both": nr / (nr + rad), "given": q / 1000, "zero": 0.0}.get(yld, 1.0)
        rec["lit"] = [bool(with_draw(max(0.0, min(mid, 1.0) - 1e-6), lambda: o.is_radiative(ray))), bool(with_draw(min(1 - 1e-9, mid + 1e-6), lambda: o.is_radiative(ray)))]
        u = 1 - math.exp(-1)
        if cls in ("Scatterer", "Luminophore"):
            def shine(u): return with_draw(u, lambda: o.emit(ray, method="full"))
            r = shine(u); rec["delays"][0] = int(round(r.duration * 1e15)); rec["source"] = str(r.source)
            rec["kept"] = tuple(r.position) == (1.0, 2.0, 3.0) and r.travelled == 4.0 and tuple(float(v) for v in r.direction) == phase and (cls == "Luminophore" or r.wavelength == 600.0)
            if cls == "Luminophore":
                if em == "default":
                    if x is not None and len(x) == 301:
                        rec["ans"] += [{"what": "median", "p": [1, 0], "v": i6(shine(0.5).wavelength)}, {"what": "spread", "p": [1, 0], "v": i6((shine(0.9).wavelength - shine(0.1).wavelength) / 2)}]
                else:
                    y, xs = e["y"], e["x"]; area = [0]
                    for k in range(1, len(xs) + (1 if hist else 0)): area.append(area[-1] + (y[k - 1] if hist else (y[k - 1] + y[k]) * (xs[k] - xs[k - 1])))
                    for k in range(1, len(xs) + 1):
                        if hist:
                            if y[k - 1]: rec["ans"].append({"what": "draw", "p": [k, 0], "v": i6((shine((area[k - 1] + area[k]) / 2 / area[-1]).wavelength - eoff) / eunit)})
                        else:
                            for i in ((0, 1, 2, 3) if k < len(xs) else (0,)):
                                p = (area[k - 1] + (i / 4 * (area[k] - area[k - 1]) if i else 0)) / area[-1]
                                rec["ans"].append({"what": "draw", "p": [k, i], "v": i6((shine(min(p, 1 - 1e-12)).wavelength - eoff) / eunit)})
        r = with_draw(u, lambda: o.nonradiative_absorb(ray)); rec["delays"][1] = int(round(r.duration * 1e15))
        rec["kept"] = rec["kept"] and tuple(r.position) == (1.0, 2.0, 3.0) and r.wavelength == 600.0 and tuple(r.direction) == (0.0, 0.0, 1.0) and r.source == "lamp"
        rec["name"] = str(o.name); out.append(rec)
    return out

def C28(c):
    import pvtrace.material.component
    rng = random.Random(vlib.SEED * 41 + 28)
    r = c.model("Forms", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", name="Forms (every combination)", timeout=300)
    cases = [(v[0], v[1], v[2], bool(v[3]), v[4]) for v in r.verdicts]
    if len(cases) < 150: raise vlib.Machinery("Forms printed %d cases" % len(cases))
    todo = cases * (12 if c.quick else 200); rng.shuffle(todo)
    recs = run_jobs(forms_job, [(todo[k:k + 150], rng.randrange(1 << 30)) for k in range(0, len(todo), 150)])
    c.part("components", cases=len(cases), built=sum(r["got"] == "built" for r in recs), refused=sum(r["got"] != "built" for r in recs), answers=sum(len(r["ans"]) for r in recs))
    c.judge("FormsTrace", recs, mem="8g", timeout=800)

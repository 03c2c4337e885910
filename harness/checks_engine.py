"""C10, C11, C20: recorders, scheduling and the gate of the compiled engine (Tally, Sched/Runs, Gate)."""
import hashlib, math, random
import numpy as np
import vlib
from scenes import *
from record import *

PROPS = ["wavelength", "angle", "duration", "pathlength"]
UNITS = {"wavelength": 10_000.0, "angle": 1e8, "duration": 1e17, "pathlength": 1e6, "x": 1e6, "y": 1e6, "z": 1e6}

# ------------------------------------------------------------------ recorders

def rand_recorders(rng, world, count):
    from pvtrace.engine import Recorder, Histogram, Heatmap
    rows = []
    for k in range(count):
        i = rng.randrange(len(world.vols))
        v = world.vols[i]
        if i == 0: event = rng.choice(["exit", "exit", "lost", "reacted", "killed", "escaping", "entering"])
        else: event = rng.choice(["entering", "escaping", "reflected", "lost", "killed", "entering", "escaping", "reacted"])
        facet = None; atol = 1e-6
        if event in ("entering", "escaping", "reflected", "exit") and rng.random() < 0.5:
            ax = np.zeros(3); ax[rng.randrange(3)] = rng.choice([1.0, -1.0])
            facet = v.R @ ax
            atol = rng.choice([1e-6, 1e-4, 0.3, 0.7]) if v.shape == "box" else rng.choice([0.3, 0.7, 1e-4])
        hists = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            def dim():
                p = rng.choice(list(UNITS))
                bins = rng.choice([1, 2, 4, 8])
                if p == "wavelength":
                    w = rng.choice([16, 32, 64]); a = float(rng.choice([400, 448, 496, 512])); return (p, a, a + w * bins, bins)
                if p == "angle": return (p, rng.choice([-0.5, 0.25]), rng.choice([1.0, 1.5]), bins)
                if p == "duration":
                    return (p, rng.choice([-1e-10, 1e-10]), rng.choice([4e-10, 9e-10]), bins)
                if p == "pathlength": return (p, rng.choice([-1.0, 1.5]), rng.choice([4.0, 12.0]), bins)
                s = max(v.bounding(), 0.1)
                lo = -round(s * rng.choice([1.1, 0.4]), 2); hi = round(s * rng.choice([1.1, 0.5]), 2)
                if hi - lo < 0.02: hi = lo + 0.02
                return (p, lo, hi, bins)
            if rng.random() < 0.35: hists.append([dim(), dim()])
            else: hists.append([dim()])
        rows.append(dict(name="r%d" % k, node=i, event=event, facet=facet, atol=atol, hists=hists))
    for v in world.vols: v.recorders = []
    for r in rows:
        hs = [Histogram(*h[0]) if len(h) == 1 else Heatmap(h[0][0], h[1][0], h[0][1:], h[1][1:]) for h in r["hists"]]
        world.vols[r["node"]].recorders.append(
            Recorder(r["name"], event=r["event"], facet=None if r["facet"] is None else tuple(r["facet"]), atol=r["atol"], histograms=hs))
    return rows

def rec_spec(r):
    hists = []
    for h in r["hists"]:
        hists.append([{"prop": p, "start": int(round(a * UNITS[p])), "stop": int(round(a * UNITS[p])) + int(round((b - a) * UNITS[p] / n)) * n, "bins": n}
                      for p, a, b, n in h])
    return {"node": r["node"] + 1, "event": r["event"], "facet": [] if r["facet"] is None else v3u(r["facet"]),
            "atol": ui(r["atol"]), "hists": hists}

def root_normal(v, p):
    q = v.R.T @ (np.array(p) - v.T)
    if v.shape == "sphere": n = q / np.linalg.norm(q)
    elif v.shape == "box":
        d = [abs(abs(q[k]) - v.size[k] / 2) for k in range(3)]; k = int(np.argmin(d))
        n = np.zeros(3); n[k] = math.copysign(1, q[k])
    else:
        if abs(abs(q[2]) - v.size[0] / 2) < abs(math.hypot(q[0], q[1]) - v.size[1]): n = np.array([0, 0, math.copysign(1, q[2])])
        else: n = np.array([q[0], q[1], 0]) / math.hypot(q[0], q[1])
    return v.R @ n

def tally_events(world, hists, scale):
    nv, nc = world.names()
    out = []
    for hist in hists:
        evs = []; prev = None
        for ray, ev, meta in hist:
            meta = meta or {}
            k = ev.name
            if k in ("REFLECT", "TRANSMIT", "NONRADIATIVE", "REACT", "KILL", "EXIT"):
                nrm = meta.get("normal")
                if k == "EXIT": nrm = root_normal(world.vols[0], ray.position); inc = ray.direction
                else: inc = (prev or ray).direction
                ang = 0.0 if nrm is None else float(np.arccos(min(abs(float(np.dot(inc, nrm))), 1.0)))
                vals = {"wavelength": ray.wavelength, "angle": ang, "duration": ray.duration, "pathlength": ray.travelled}
                v = {p: clampi(vals[p] * UNITS[p]) for p in PROPS}
                x = {p: 0 if float(vals[p]) * UNITS[p] == v[p] else 2 for p in PROPS}
                x["angle"] = 0 if nrm is None else 30; x["duration"] = 20
                evs.append({"k": k, "hit": nv.get(meta.get("hit"), 0), "con": nv.get(meta.get("container"), 0), "adj": nv.get(meta.get("adjacent"), 0),
                            "p": v3l(ray.position), "nrm": [0, 0, 0] if nrm is None else v3u(nrm), "v": v, "x": x,
                            "m": [int(round(vals[p] * scale[p])) for p in PROPS]})
            prev = ray
        out.append(evs)
    return out

def obs_of(results, rows, scale):
    tally = []
    for r in rows:
        res = results.get(r["name"])
        if res is None:
            tally.append({"missing": True}); continue
        nan = math.isnan(res.mean("wavelength")) if hasattr(res, "mean") else False
        bins, edges = [], []
        for hi, h in enumerate(r["hists"]):
            got = res.histogram(hi)
            bins.append([int(x) for x in np.asarray(got[-1]).ravel()])
            es = [np.asarray(e) for e in got[:-1]]
            want = [np.array([a + (b - a) * q / n for q in range(n + 1)]) for p, a, b, n in h]
            edges.append(1 if len(es) == len(want) and all(e.shape == w.shape and np.allclose(e, w, rtol=1e-9, atol=1e-30) for e, w in zip(es, want)) else 0)
        num = lambda x: clampi(round(x)) if math.isfinite(x) else -1000      # a deviation is a number
        q = lambda f: [0] * 4 if nan else [num(float(f(p)) * scale[p]) for p in PROPS]
        tally.append({"missing": False, "rays": int(res.rays), "cross": int(res.crossings), "nan": nan, "bins": bins, "edges": edges,
                      "mean": q(res.mean), "std": q(res.std), "err": q(res.error)})
    return {"tally": tally}

def C10(c):
    vlib.load_kernel()
    from pvtrace.engine import simulate, tally_histories
    rng = random.Random(vlib.SEED * 7919 + 10)
    worlds = 24 if c.quick else 150
    n = 120 if c.quick else 160
    recs = []
    seen = {}
    for w in range(worlds):
        world = rand_world(rng, maxvol=5, comp_kw=dict(qys=(0.5, 0.9)))
        for i, v in enumerate(world.vols):
            if i and rng.random() < 0.5: v.n = rng.choice([1.7, 2.0]); v.surf = "fresnel"      # trapped rays cross repeatedly
        if w % 2:      # a scattering world sends rays through the same surfaces again and again
            world.vols[0].comps = [Comp("fog", "scatterer", 0.5, 1.0 if w % 4 == 1 else 0.98)]
            world = World(world.vols, world.touch)
        rows = rand_recorders(rng, world, rng.choice([6, 10, 14]))
        rays = [(p, d, float(rng.choice([round(wl), 512, 544, 576]))) for p, d, wl in rand_rays(rng, world, n)]
        if w % 3 == 0:      # all the same: a deviation of nothing, up to rounding
            same = rng.uniform(400, 700); rays = [(p, d, same) for p, d, _ in rays]
        steps = rng.choice([80, 80, 12, 5]); method = rng.choice(["kT", "redshift", "full"])
        seed = rng.randrange(1 << 30)
        def run(every, workers):
            scene = world.build(rays)
            return scene, simulate(scene, n, seed=seed, workers=workers, maxsteps=steps, max_events=2 * steps + 8, emit_method=method, record_every=every)
        scene, res = run(1, 2)
        hists = list(res.histories())
        obs = [res.recorders, run(0, 3)[1].recorders, run(rng.choice([2, 5]), 1)[1].recorders, tally_histories(scene, hists)]
        groups = [(hists, obs)]
        if w % 2 == 0:      # the reference over the Python tracer's histories
            np.random.seed(seed % (1 << 31))
            m = 40
            hp = []
            for r in rays[:m]:
                hist, raised, _ = python_history(scene, r, maxsteps=steps, method=method)
                if raised:
                    c.violate("C10.tracer_raised", {"raised": raised}); hist = []
                hp.append(hist)
            groups.append((hp, [tally_histories(scene, hp)]))
        for hs, ob in groups:
            top = {p: 1e-30 for p in PROPS}
            for hist in hs:
                for ray, ev, meta in hist:
                    top["wavelength"] = max(top["wavelength"], ray.wavelength); top["duration"] = max(top["duration"], ray.duration)
                    top["pathlength"] = max(top["pathlength"], ray.travelled)
            top["angle"] = 1.6
            scale = {p: 25000 / math.sqrt(len(hs)) / top[p] for p in PROPS}
            recs.append({"vol": [{"R": [v3u(r) for r in v.R], "T": v3l(v.T)} for v in world.vols], "rec": [rec_spec(r) for r in rows],
                         "kinds": [[e[1].name for e in h] for h in hs] if hs is hists else [], "said": [[k.name, int(v)] for k, v in res.event_counts().items()] if hs is hists else [],
                         "hist": tally_events(world, hs, scale), "obs": [obs_of(o, rows, scale) for o in ob]})
        for r in rows: seen[r["event"]] = seen.get(r["event"], 0) + 1
    got = c.judge("Tally", recs, timeout=800)
    hits = {}
    for i, v in got.items():
        for k, r in enumerate(recs[i - 1]["rec"]):
            a = hits.setdefault(r["event"], [0, 0, 0]); a[0] += 1; a[1] += v[0][1][k]; a[2] += v[0][2][k]
    c.part("recorders", **{k: {"recorders": a[0], "rays": a[1], "crossings": a[2]} for k, a in hits.items()})
    if sum(a[2] - a[1] for a in hits.values()) < 10: raise vlib.Machinery("no ray ever met a recorder twice")
    for k in ("entering", "escaping", "lost", "killed", "exit"):
        if not hits.get(k, [0, 0])[1]: raise vlib.Machinery("no recorder of kind %s ever fired" % k)

# ------------------------------------------------------------------ scheduling

def digests(res):
    out = []
    d = res.data; m = res.max_events
    for j in range(len(d["counts"])):
        k = int(d["counts"][j]); h = hashlib.sha256()
        for f in ("kind", "hit", "container", "adjacent", "component", "source", "position", "direction", "normal", "wavelength", "travelled", "duration"):
            h.update(np.ascontiguousarray(d[f][j * m:j * m + k]).tobytes())
        out.append(h.hexdigest()[:16])
    return out

def run_rec(res, seed, first, n, every, unit):
    cnt = [int(x) for x in res.data["rec_distinct"]] + [int(x) for x in res.data["rec_crossings"]] + [int(x) for x in res.data["rec_bins"]]
    mom = np.asarray(res.data["rec_sums"]).ravel()
    return {"seed": seed, "first": first, "n": n, "every": every, "hist": digests(res), "cnt": cnt, "mom": mom, "idx": [int(x) for x in res.recorded_indices], "rays": res.num_rays}

def C11(c):
    vlib.load_kernel()
    from pvtrace.engine import simulate, simulate_stream
    for n, w, ch, ev in ([(5, 2, 2, 2), (4, 3, 1, 1), (4, 2, 1, 0)] if c.quick else [(6, 3, 2, 2), (5, 3, 1, 1), (6, 2, 1, 3), (6, 3, 2, 0)]):
        c.model("Sched", "SPECIFICATION Spec\nINVARIANT Deterministic\nPROPERTY Ends\nCONSTANTS\n N=%d\n W=%d\n Chunk=%d\n Every=%d\n" % (n, w, ch, ev),
                name="Sched N=%d W=%d every=%d" % (n, w, ev), expect_actions=("Grab", "Trace", "Merge"), timeout=600)
    rng = random.Random(vlib.SEED * 31 + 11)
    recs = []
    for w in range(6 if c.quick else 40):
        world = rand_world(rng, maxvol=5)
        rand_recorders(rng, world, 8)
        n = rng.choice([200, 333, 640])
        rays = rand_rays(rng, world, n)
        seed = rng.randrange(1 << 30)
        steps = rng.choice([300, 30])
        method = rng.choice(["kT", "redshift", "full"])
        me = 700
        def run(k, every, workers, first=0, sd=None):
            scene = world.build(rays[first:first + k])
            return simulate(scene, k, seed=seed + first if sd is None else sd, workers=workers, maxsteps=steps, max_events=me, emit_method=method, record_every=every)
        runs = [run_rec(run(n, 1, 1), seed, 0, n, 1, None)]
        confs = [(n, 1, 1), (n, 1, 2), (n, 1, 7), (n, 0, 3), (n, 2, 4), (n, 7, 8), (n, n + 5, 2), (n // 2, 1, 3), (1, 1, 1), (65, 3, 2), (n, 1, 16)]
        if not c.quick: confs += [(rng.randrange(1, n), rng.choice([0, 1, 2, 3, 64, 65]), rng.choice([1, 2, 3, 5, 8, 16])) for _ in range(20)]
        for k, every, wk in confs:
            runs.append(run_rec(run(k, every, wk), seed, 0, k, every, None))
        for first in (1, n // 3):     # the same rays thrown by a run that starts later
            runs.append(run_rec(run(n - first, 1, 4, first), seed + first, first, n - first, 1, None))
        parts = []
        for bundle in (64, 100, n, n + 10):
            scene = world.build(rays)
            got = list(simulate_stream(scene, n, bundle=bundle, seed=seed, workers=3, maxsteps=steps, max_events=me, emit_method=method))
            hist = sum([digests(r) for r, _ in got], [])
            cnt = [int(x) for x in sum(np.array(run_rec(r, 0, 0, 0, 1, None)["cnt"]) for r, _ in got)]
            mom = sum(np.asarray(r.data["rec_sums"]).ravel() for r, _ in got)
            tot = [t for _, t in got]
            parts.append({"bundle": bundle, "hist": hist, "cnt": cnt, "mom": mom, "total": tot[-1] if tot == [min(n, bundle * (q + 1)) for q in range(len(tot))] else -1})
        # float sums as integers relative to the reference run
        base = np.where(np.abs(runs[0]["mom"]) > 0, np.abs(runs[0]["mom"]), 1.0)
        for r in runs + parts: r["mom"] = [clampi(round(float(x) * 1e8)) for x in np.asarray(r["mom"]) / base]
        for r in runs:
            if r["idx"] != ([] if r["every"] == 0 else list(range(0, r["n"], r["every"]))) or r["rays"] != r["n"]:
                c.violate("C11.recorded_indices", {"run": {k: r[k] for k in ("n", "every", "idx", "rays")}})
        recs.append({"run": runs, "parts": parts})
    # many rays: only tallies are kept, and the parts of a stream must still add up to the single run
    for w in range(2 if c.quick else 8):
        world = rand_world(rng, maxvol=4)
        rand_recorders(rng, world, 8)
        few = rand_rays(rng, world, 500); n = rng.choice([70000, 81920, 100000]) if c.quick else rng.choice([70000, 140000, 300000])
        rays = [few[k % 500] for k in range(n)]; seed = rng.randrange(1 << 30)
        def big(first, k, workers):
            return simulate(world.build(rays[first:first + k]), k, seed=seed + first, workers=workers, maxsteps=60, max_events=4, record_every=0)
        runs = [run_rec(big(0, n, 8), seed, 0, n, 0, None), run_rec(big(0, n, 3), seed, 0, n, 0, None)]
        parts = []
        for bundle in (4099, n // 2):
            cuts = list(range(0, n, bundle))
            got = [big(k, min(bundle, n - k), 8) for k in cuts]
            cnt = [int(x) for x in sum(np.array(run_rec(r, 0, 0, 0, 0, None)["cnt"]) for r in got)]
            parts.append({"bundle": bundle, "hist": [], "cnt": cnt, "mom": sum(np.asarray(r.data["rec_sums"]).ravel() for r in got), "total": n})
        base = np.where(np.abs(runs[0]["mom"]) > 0, np.abs(runs[0]["mom"]), 1.0)
        for r in runs + parts: r["mom"] = [clampi(round(float(x) * 1e8)) for x in np.asarray(r["mom"]) / base]
        recs.append({"run": runs, "parts": parts})
    # light sets that emit deterministically, several lights: streaming in multiples of the number of lights
    recs += multi_light(rng, 3 if c.quick else 12)
    c.judge("Runs", recs, timeout=600)

def multi_light(rng, count):
    from pvtrace.engine import simulate, simulate_stream
    from pvtrace.scene.node import Node
    from pvtrace.light.light import Light
    out = []
    for _ in range(count):
        world = rand_world(rng, maxvol=4)
        rand_recorders(rng, world, 5)
        scene = world.build()
        k = rng.choice([2, 3])
        for q, (p, d, wl) in enumerate(rand_rays(rng, world, k)):
            Node(name="l%d" % q, parent=world.nodes[0], light=Light(position=lambda p=p: p, direction=lambda d=d: d, wavelength=lambda wl=wl: wl, name="lamp%d" % q))
        from pvtrace.scene.scene import Scene
        scene = Scene(world.nodes[0])
        n = 60; seed = rng.randrange(1 << 30)
        base = run_rec(simulate(scene, n, seed=seed, workers=1, max_events=700), seed, 0, n, 1, None)
        parts = []
        for b in (k, 4 * k, 10 * k):
            got = list(simulate_stream(scene, n, bundle=b, seed=seed, workers=2, max_events=700))
            parts.append({"bundle": b, "hist": sum([digests(r) for r, _ in got], []), "total": got[-1][1],
                          "cnt": [int(x) for x in sum(np.array(run_rec(r, 0, 0, 0, 1, None)["cnt"]) for r, _ in got)],
                          "mom": sum(np.asarray(r.data["rec_sums"]).ravel() for r, _ in got)})
        bb = np.where(np.abs(base["mom"]) > 0, np.abs(base["mom"]), 1.0)
        for r in [base] + parts: r["mom"] = [clampi(round(float(x) * 1e8)) for x in np.asarray(r["mom"]) / bb]
        out.append({"run": [base], "parts": parts})
    return out

# ------------------------------------------------------------------ the gate

def gate_scene(geo, comp, phase, pose, rec, bad, thrown):
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.geometry.box import Box
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.geometry.cylinder import Cylinder
    from pvtrace.material.material import Material
    from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
    from pvtrace.material.surface import Surface, FresnelSurfaceDelegate, NullSurfaceDelegate, SurfaceDelegate
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic, lambertian
    from pvtrace.light.light import Light
    from pvtrace.engine import Recorder, Histogram
    ph = {"default": None, "isotropic": isotropic, "hg": HenyeyGreenstein(0.3), "cone": Cone(0.4)}[phase]
    x = np.linspace(300, 900, 20)
    spec = np.column_stack((x, np.ones(20)))
    ems = np.column_stack((x, np.exp(-((x - 600) / 40) ** 2)))
    comps = []
    if comp == "absorber": comps.append(Absorber(1.0, name="a"))
    if comp == "reactor": comps.append(Reactor(spec, name="a"))
    if comp == "scatterer": comps.append(Scatterer(1.0, name="a", phase_function=ph))
    if comp == "luminophore": comps.append(Luminophore(spec, emission=ems, name="a", phase_function=ph))
    for b in bad:
        if b == "phase": comps.append(Scatterer(1.0, name="b", phase_function=lambda: (0, 0, 1)))
        if b == "lambertian": comps.append(Scatterer(1.0, name="b3", phase_function=lambertian))
        if b == "subphase":
            class Tilted(Cone):
                def __call__(self): return (1.0, 0.0, 0.0)
            comps.append(Scatterer(1.0, name="b2", phase_function=Tilted(0.3)))
        if b == "hist_abs": comps.append(Absorber(spec, name="c", hist=True))
        if b == "hist_ems": comps.append(Luminophore(spec, emission=ems, name="d", hist=True))
        if b == "subcomp":
            class Laser(Luminophore):
                def emit(self, ray, **kwargs): return ray
            comps.append(Laser(spec, emission=ems, name="e"))
        if b == "component":
            class Other:
                name = "o"
            comps.append(Other())
    # company, in no order of name, kind or strength
    comps = [Reactor(0.3, name="z")] + comps + [Scatterer(2.0, name="m"), Absorber(0.1, name="b0")] if rec != "none" else comps[::-1]
    surf = Surface(delegate=NullSurfaceDelegate()) if geo == "sphere" else None
    if "delegate" in bad:
        class D(SurfaceDelegate):
            def reflectivity(self, *a, **k): return 1.0
            def reflected_direction(self, *a, **k): return (0, 0, 1)
            def transmitted_direction(self, *a, **k): return (0, 0, 1)
        surf = Surface(delegate=D())
    if "subdelegate" in bad:
        class F(FresnelSurfaceDelegate):
            def reflectivity(self, *a, **k): return 1.0
        surf = Surface(delegate=F())
    if "subnull" in bad:
        class M(NullSurfaceDelegate):
            def reflectivity(self, *a, **k): return 1.0
            def reflected_direction(self, surface, ray, *a, **k): return tuple(-x for x in ray.direction)
        surf = Surface(delegate=M())
    mat = None if "nomaterial" in bad else Material(1.5, surface=surf, components=comps)
    g = Box((1, 1, 1), material=mat) if geo == "box" else Sphere(0.5, material=mat) if geo == "sphere" else Cylinder(1.0, 0.5, material=mat)
    if "subgeom" in bad:
        class Cut(type(g)):
            def intersections(self, *a, **k): return ()
        g = Cut((1, 1, 1), material=mat) if geo == "box" else Cut(0.5, material=mat) if geo == "sphere" else Cut(1.0, 0.5, material=mat)
    if "mesh" in bad:
        import trimesh
        from pvtrace.geometry.mesh import Mesh
        g = Mesh(trimesh.creation.icosphere(subdivisions=1, radius=0.5), material=mat)
    world = Node(name="world", geometry=None if "rootless" in bad or "noworld" in bad else Box((10, 10, 10), material=Material(1.0)))
    parent = world
    if pose == "via": parent = Node(name="frame", parent=world); parent.rotate(0.4, (1, 0, 0)); parent.translate((0.1, 0, 0))
    node = Node(name="n", parent=parent, geometry=None if "noworld" in bad else g)
    if pose != "identity": node.rotate(0.7, (1, 2, 3)); node.translate((0.5, 0.2, -0.4))
    if "scale" in bad: M = np.array(node.pose); M[:3, :3] = M[:3, :3] * 1.01; node.pose = M
    if "shear" in bad: M = np.array(node.pose); M[:3, :3] = M[:3, :3] @ np.array([[1, 0.01, 0], [0, 1, 0], [0, 0, 1]]); node.pose = M
    owner = node if node.geometry is not None or "noworld" in bad else world
    R = lambda *a, **k: node.recorders.append(Recorder(*a, **k))
    if rec == "surface": R("s1", event="entering"); R("s2", event="escaping", histograms=[Histogram("wavelength", 400, 800, 4)])
    if rec == "facet": R("f1", event="reflected", facet=(0, 0, 1)); R("f2", event="escaping", facet=(1, 0, 0), atol=0.1)
    if rec == "volume": R("v1", event="lost"); R("v2", event="reacted"); R("v3", event="killed")
    if rec == "exit": world.recorders.append(Recorder("x1", event="exit", facet=(0, 0, 1)))
    if rec == "many":
        room = 256 - (300 if "toomany" in bad else 0)
        for q in range(max(0, 250)): R("m%d" % q, event="entering")
    for b in bad:
        if b == "duplicate": R("dup", event="entering"); world.recorders.append(Recorder("dup", event="exit"))
        if b == "duplicate_same": R("dup2", event="lost"); R("dup2", event="reacted")
        if b == "volfacet": R("vf", event=("lost", "killed", "reacted")[len(node.recorders) % 3], facet=(0, 0, 1))
        if b == "toomany":
            for q in range(257): R("t%d" % q, event="entering")
        if b == "notrecorder": node.recorders.append("not a recorder")
        if b == "toomanynodes":
            for q in range(140): Node(name="k%d" % q, parent=world, geometry=Sphere(0.01, material=Material(1.0)))
    def wl():
        thrown.append(1); return 555.0
    for nm in ("z9", "a1"): Node(name=nm, parent=world, geometry=Sphere(0.02, material=Material(1.2, components=[Absorber(1.0, name=nm)])), location=(4.0, 4.0, 3.0 if nm == "z9" else 3.5))
    Node(name="lamp", parent=world, light=Light(wavelength=wl, position=lambda: (3.0, 3.0, 3.0), direction=lambda: (0, 0, 1), name="lamp"))
    return Scene(world)

def snapshot(scene):
    """Everything the compiler could touch."""
    from anytree import PreOrderIter
    out = []
    def arr(x): return None if x is None else np.array(x).tobytes()
    for n in PreOrderIter(scene.root):
        row = [n.name, n.parent.name if n.parent else None, np.array(n.pose).tobytes(), tuple(map(float, n.location)), id(n.light), id(n.geometry),
               [ch.name for ch in n.children], [(id(r), getattr(r, "__dict__", {}).copy().__repr__()) for r in n.recorders]]
        g = n.geometry
        if g is not None:
            row.append({k: repr(v) for k, v in vars(g).items() if k in ("_size", "_radius", "_length", "radius", "length", "name")})
            m = g.material
            if m is not None:
                row += [m.refractive_index, id(m.surface), id(m.surface.delegate), [id(x) for x in m.components]]
                for x in m.components:
                    for d in (getattr(x, "_abs_dist", None), getattr(x, "_ems_dist", None)):
                        if d is not None: row += [arr(d._x), arr(d._y), arr(d._cdf) if hasattr(d, "_cdf") else None]
                    row += [getattr(x, k, None) for k in ("name", "quantum_yield", "tau_rad", "tau_nr")] + [id(getattr(x, "phase_function", None))]
        out.append(row)
    return out

def C20(c):
    vlib.load_kernel()
    from pvtrace.engine import simulate, compile_scene, UnsupportedSceneError
    r = vlib.tlc("Gate", "INIT Init\nNEXT Next\nINVARIANT RefusedBeforeThrowing\nCONSTANT Deep = %s\n" % ("FALSE" if c.quick else "TRUE"), timeout=600)
    if r.error: raise vlib.Machinery("Gate: " + r.error)
    c.states += r.distinct; c.transitions += r.states
    rng = random.Random(vlib.SEED + 20)
    rows = sorted(r.verdicts, key=str)
    good = [x for x in rows if x[6] == "accepted"]; bad = [x for x in rows if x[6] == "refused"]
    by = {}
    for x in bad: by.setdefault(tuple(x[5]), []).append(x)
    per = (8 if c.quick else 25)
    take = (rng.sample(good, min(len(good), 250)) if c.quick else good) + [x for k, v in sorted(by.items()) for x in rng.sample(v, min(len(v), per))]
    n = 0
    for geo, comp, phase, pose, rec, badf, want, throws in take:
        thrown = []
        try:
            scene = gate_scene(geo, comp, phase, pose, rec, badf, thrown)
        except ImportError as exc:
            raise vlib.Machinery("cannot build %s: %s" % (badf, exc))
        before = snapshot(scene)
        what = ""
        for go in ("compile", "simulate"):
            try:
                if go == "compile": compile_scene(scene)
                else:
                    res = simulate(scene, 4, seed=1, workers=1)
                    if res.num_rays != 4: what = "rays"
                got = "accepted"
            except UnsupportedSceneError:
                got = "refused"
            except Exception as exc:
                got = "raised %s" % type(exc).__name__
            if got != want: what = what or "%s: expected %s, got %s" % (go, want, got)
            if got != "accepted" and thrown: what = what or "rays thrown before the refusal"
        if snapshot(scene) != before: what = what or "scene changed"
        if what:
            kind = "changed_the_scene" if what == "scene changed" else "threw_before_refusing" if what.startswith("rays") else "accepts" if want == "refused" else "refuses"
            c.violate("C20.%s" % kind, {"scene": dict(geometry=geo, component=comp, phase=phase, pose=pose, recorders=rec, unsupported=badf), "what": what})
        n += 1
    c.traces += n
    c.samples.append({"behaviour": take[0]})
    c.part("replay Gate", behaviours=len(rows), replayed=n, supported=len(good), refused=len(bad), states=r.distinct)

"""C25: the LSC device (Lsc, LscDef, LscTrace)."""
import contextlib, functools, io, math, random
import numpy as np
import vlib
from checks_query import run_jobs

SIDES = ["left", "right", "near", "far"]
FACETS = SIDES + ["top", "bottom"]
AT = {"left": (0, -1), "right": (0, 1), "near": (1, -1), "far": (1, 1), "bottom": (2, -1), "top": (2, 1)}
EVENTS = ["generate", "reflect", "transmit", "absorb", "nonradiative", "scatter", "emit", "exit", "react", "kill"]

def i6(x): return int(max(-2000000000, min(2000000000, round(float(x) * 1e6))))
def nm(x): return int(round(float(x) * 1e3))

@contextlib.contextmanager
def tracer(replacement):
    """The device gets its histories from photon_tracer; watch them or supply them."""
    from pvtrace.algorithm import photon_tracer
    old = photon_tracer.step_forward
    photon_tracer.step_forward = functools.partial(replacement, old)
    try: yield
    finally: photon_tracer.step_forward = old

def entry(ray, event, dye=None):
    return {"e": event.name.lower(), "p": [i6(x) for x in ray.position], "d": [i6(x) for x in ray.direction], "w": nm(ray.wavelength), "src": str(ray.source),
            "al": int(round(dye(ray.wavelength) * 1000)) if dye else 0, "t": i6(ray.travelled)}

def questions(rng, lights, comps, n):
    names = lights + comps
    out = [{"kind": k, "facets": [], "every": True, "src": [], "byevent": False, "events": []} for k in ("first", "last", "none")]
    for _ in range(n):
        q = {"kind": rng.choice(["first", "last", "last", "none"]), "facets": rng.sample(FACETS, rng.choice([0, 1, 1, 2, 4, 6])), "every": rng.random() < 0.5, "src": [], "byevent": rng.random() < 0.4, "events": []}
        if not q["every"]: q["src"] = rng.sample(names, rng.randint(1, len(names)))
        if q["byevent"]: q["events"] = rng.sample(EVENTS, rng.choice([1, 1, 2, 3]))
        out.append(q)
    return out

def ask(lsc, q, rng):
    src = "all" if q["every"] else (q["src"][0] if len(q["src"]) == 1 and rng.random() < 0.5 else set(q["src"]))
    kw = {"facets": set(q["facets"]), "kind": None if q["kind"] == "none" else q["kind"], "source": src}
    if q["kind"] == "last" and rng.random() < 0.3: kw.pop("kind")
    if q["byevent"]: kw["events"] = set(q["events"])
    return [nm(x) for x in lsc.spectrum(**kw)]

def reports(lsc, cfg, rng, nq):
    asked = [{"q": q, "ans": ask(lsc, q, rng)} for q in questions(rng, cfg["lights"], cfg["comps"], nq)]
    table = lsc.counts()
    counts = {c: {f: int(table[c][f]) for f in FACETS} for c in ("Solar In", "Solar Out", "Luminescent In", "Luminescent Out")}
    summary, told = {"incident": 0, "optical": 0, "waveguide": 0, "lost": 0, "cells": [], "comps": [], "lights": [], "n": 0, "gain": 0}, False
    if any(counts["Solar In"][f] for f in FACETS) and any(counts["Luminescent Out"][f] for f in FACETS):
        s = lsc.summary(); told = True
        summary = {"incident": int(s["Incident"]), "optical": i6(s["Optical Efficiency"]), "waveguide": i6(s["Waveguide Efficiency"]), "lost": i6(s["Non-radiative Loss (fraction):"]),
                   "cells": sorted(s["Cell Surfaces"]), "comps": sorted(s["Components"]), "lights": sorted(s["Lights"]), "n": int(round(s["Refractive Index"] * 1000)),
                   "gain": min(15000, int(round(s["Geometric Concentration"] * 1000)))}
    if rng.random() < 0.2:
        with contextlib.redirect_stdout(io.StringIO()): lsc.report()
    return {"asked": asked, "counts": counts, "sum": summary, "told": told}

def size_of(rng):
    return (rng.randrange(20, 300, 2) / 100, rng.randrange(20, 300, 2) / 100, rng.randrange(10, 60, 2) / 100)

# ------------------------------------------------------------------ the device's books, fed with the specification's histories

def books_job(job):
    from pvtrace.device.lsc import LSC
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    cfg, batches, seed = job
    rng = random.Random(seed); size = size_of(rng); half = [s / 2 for s in size]
    n1 = rng.choice([1.3, 1.5, 1.8])
    lsc = LSC(size, n1=n1)
    if cfg["cells"]: lsc.add_solar_cell(rng.choice([set, list, tuple])(cfg["cells"]))
    if cfg["mirror"]: lsc.add_back_surface_mirror()
    if cfg["gap"]: lsc.add_air_gap_mirror()
    x = np.arange(400.0, 801.0, 50.0); flat = np.column_stack((x, np.ones_like(x)))
    lsc.add_luminophore("dye", flat, flat, 0.9); lsc.add_scatterer("dust", 0.1); lsc.add_luminophore("red", flat, flat, 0.5)
    for name in ("lamp", "sun"): lsc.add_light(name, (0.0, 0.0, 3.0), rotation=(math.pi, (1, 0, 0)))
    base = {"kind": "books", "size": [i6(s) for s in size], "n0": 1000, "n1": int(round(n1 * 1000)), "cells": sorted(cfg["cells"]), "mirror": cfg["mirror"], "gap": "specular" if cfg["gap"] else "none",
            "lights": ["lamp", "sun"], "comps": ["dye", "dust", "red"]}
    number = [0]; out = []
    def place(f, src):
        if f == "other": return (rng.uniform(-.9, .9) * half[0], rng.uniform(-.9, .9) * half[1], -half[2] * 1.25)
        if f == "": return tuple(rng.uniform(-.95, .95) * h for h in half)
        p = [rng.uniform(-.95, .95) * h for h in half]; k, s = AT[f]; p[k] = s * half[k]
        return tuple(p)
    def concrete(h):
        rays = []; w = None
        for j, (e, f, src) in enumerate(h):
            if w is None or e == "emit": number[0] += 1; w = 300.0 + number[0] / 8
            if e in ("generate", "exit"): p = (rng.uniform(-1, 1), rng.uniform(-1, 1), (3.0 if j == 0 else 40.0) * rng.choice([1, -1]))
            else: p = place(f, src)
            # a ray may be absorbed or given up right beside a facet without crossing it
            if e in ("absorb", "kill", "scatter") and rng.random() < 0.3:
                k, s = AT[rng.choice(FACETS)]; p = list(p); p[k] = s * half[k] * (1 - 1e-14); p = tuple(p)
            if e in ("nonradiative", "react", "emit"): p = rays[-1][0].position
            d = np.array([rng.gauss(0, 1) for _ in range(3)]); d /= np.linalg.norm(d)
            rays.append((Ray(position=p, direction=tuple(d), wavelength=w, travelled=float(j), source=src), Event[e.upper()]))
        return rays
    histories = []; calls = []
    for batch in batches:
        queue = [concrete(h) for h in batch]; used = [0]
        def supply(old, scene, ray, **kw):
            rays = queue[used[0]]; used[0] += 1
            for r, e in rays: yield r, e, {}
        ticks = []
        with tracer(supply), contextlib.redirect_stdout(io.StringIO()):
            lsc.simulate(len(batch), progress=ticks.append)
        if used[0] != len(batch): return []        # the device gets its histories some other way
        histories += [[entry(r, e) for r, e in h] for h in queue]; calls.append(len(batch))
        rec = dict(base, hists=[list(h) for h in histories], calls=list(calls), progress=[int(t) for t in ticks])
        rec.update(reports(lsc, base, rng, 10))
        out.append(rec)
    return out

# ------------------------------------------------------------------ the device itself

def beam(angle): return (math.sin(angle), 0.0, math.cos(angle))

def real_job(job):
    from pvtrace.device.lsc import LSC
    from pvtrace.light.light import rectangular_mask
    from pvtrace.material.utils import cone, lambertian
    from pvtrace.data import lumogen_f_red_305
    cfg, seed, rays = job
    rng = random.Random(seed); np.random.seed(seed % (1 << 31))
    size = size_of(rng); l, w, d = size
    n1 = rng.choice([1.2, 1.5, 1.7, 1.9]); n0 = rng.choice([1.0, 1.0, 1.0, 1.1])
    x = None
    kw = {}
    if n0 != 1.0: kw["n0"] = n0
    if rng.random() < 0.4: kw["wavelength_range"] = x = np.arange(rng.choice([400, 450]), rng.choice([701, 751]), 1.0)
    lsc = LSC(size, n1=n1, **kw)
    steady = True; absb = scat = 0; dyes = []; comps = []; qy = 0; emits = [0, 2000000]; dye = None; method = rng.choice(["kT", "redshift", "full"])
    grid = np.arange(400.0, 801.0, 1.0)
    if cfg["comps"] == "default":
        comps = ["Lumogen F Red 305", "Background"]; dyes = comps[:1]; qy = 1000; absb = 100
        span = x if x is not None else np.arange(400, 800)
        table = lumogen_f_red_305.absorption(span) * 10.0
        dye = lambda v: float(np.interp(v, span, table))
        emits = [nm(span[0]), nm(span[-1])]
    else:
        if "absorber" in cfg["comps"]:
            absb = rng.choice([200, 1000, 3000]); comps.append("dark"); lsc.add_absorber("dark", absb / 1000)
        if "scatterer" in cfg["comps"]:
            scat = rng.choice([500, 2000]); comps.append("dust"); lsc.add_scatterer("dust", scat / 1000)
        if "dye" in cfg["comps"]:
            a, q = rng.choice([1.0, 4.0]), rng.choice([0.3, 0.8, 1.0]); mid = rng.choice([550.0, 600.0])
            emission = np.exp(-((grid - mid) / 20.0) ** 2)
            coefficient = np.column_stack((grid, np.full_like(grid, a)))
            lsc.add_luminophore("dye", coefficient, np.column_stack((grid, emission)), q)
            comps.append("dye"); dyes.append("dye"); qy = int(q * 1000); dye = lambda v, a=a: a; emits = [nm(400), nm(800)]
    if rng.random() < 0.2 and cfg["comps"] != "default": steady = True
    lights, gen = [], {}
    R180 = (math.pi, (1, 0, 0))
    flip = {"lo": [0, 0, 0], "hi": [0, 0, 0]}
    if cfg["light"] == "default":
        lights = ["Light"]; gen["Light"] = {"lo": [0, 0, i6(5 * d)], "hi": [0, 0, i6(5 * d)], "w": [nm(555), nm(555)], "axis": [0, 0, -1000000], "cos": i6(math.cos(math.radians(20)))}
    for name in ([] if cfg["light"] == "default" else cfg["light"].split("+")):
        wl = rng.choice([480.0, 520.0, 580.0]); a = rng.choice([0.0, 0.3, 0.7])
        if name == "top":      # a sheet of light just above the device, pointing down
            lsc.add_light(name, (0.0, 0.0, d), rotation=R180, position=functools.partial(rectangular_mask, l / 2, w / 2), wavelength=lambda wl=wl: wl, direction=functools.partial(cone, a) if a else None)
            g = {"lo": [-i6(l / 2), -i6(w / 2), i6(d)], "hi": [i6(l / 2), i6(w / 2), i6(d)], "axis": [0, 0, -1000000], "cos": i6(math.cos(a))}
        elif name == "slant":  # a fixed slanting beam
            b = rng.uniform(0.3, 1.2)
            lsc.add_light(name, (-0.4 * l, 0.1 * w, d / 2 + 0.05 * d), rotation=R180, direction=lambda b=b: beam(b), wavelength=lambda wl=wl: wl)
            p = [i6(-0.4 * l), i6(0.1 * w), i6(d / 2 + 0.05 * d)]; g = {"lo": p, "hi": p, "axis": [i6(math.sin(b)), 0, -i6(math.cos(b))], "cos": 999990}
        elif name == "side":   # from the right, pointing to -x
            lsc.add_light(name, (l, 0.0, 0.1 * d), rotation=(-math.pi / 2, (0, 1, 0)), direction=functools.partial(cone, 0.5), wavelength=lambda wl=wl: wl)
            p = [i6(l), 0, i6(0.1 * d)]; g = {"lo": p, "hi": p, "axis": [-1000000, 0, 0], "cos": i6(math.cos(0.5))}
        elif name == "front":  # from the near side, pointing to +y, no rotation: along z by default
            lsc.add_light(name, (0.1 * l, -w, 0.0), rotation=(-math.pi / 2, (1, 0, 0)), direction=functools.partial(cone, 0.4), wavelength=lambda wl=wl: wl)
            p = [i6(0.1 * l), i6(-w), 0]; g = {"lo": p, "hi": p, "axis": [0, 1000000, 0], "cos": i6(math.cos(0.4))}
        elif name == "below":  # from underneath, upwards, no rotation
            lsc.add_light(name, (0.05 * l, 0.0, -0.6 * d) if cfg["gap"] != "none" else (0.05 * l, 0.0, -2 * d), direction=functools.partial(cone, 0.9))
            p = [i6(0.05 * l), 0, i6(-0.6 * d) if cfg["gap"] != "none" else i6(-2 * d)]; g = {"lo": p, "hi": p, "axis": [0, 0, 1000000], "cos": i6(math.cos(0.9))}; wl = 555.0
        g["w"] = [nm(wl), nm(wl)]; gen[name] = g; lights.append(name)
    todo = [lambda: cfg["cells"] and [lsc.add_solar_cell(p) for p in ([set(cfg["cells"])] if rng.random() < 0.5 else [{f} for f in cfg["cells"]])],
            lambda: cfg["mirror"] and lsc.add_back_surface_mirror(),
            lambda: cfg["gap"] != "none" and (lsc.add_air_gap_mirror(lambertian=True) if cfg["gap"] == "lambertian" else lsc.add_air_gap_mirror())]
    rng.shuffle(todo)
    for f in todo: f()
    base = {"kind": "real", "size": [i6(s) for s in size], "n0": int(round(n0 * 1000)), "n1": int(round(n1 * 1000)), "cells": sorted(cfg["cells"]), "mirror": cfg["mirror"], "gap": cfg["gap"], "lights": lights,
            "comps": comps, "gen": gen, "dyes": dyes, "dust": ["dust"] if scat else [], "emits": emits, "method": method, "steady": steady, "qy": qy, "scat": scat, "absb": absb}
    histories, calls, out = [], [], []
    for n in rays:
        def watch(old, *a, **kw):
            h = []; histories.append(h)
            for item in old(*a, **kw):
                h.append(entry(item[0], item[1], dye)); yield item
        ticks = []
        with tracer(watch), contextlib.redirect_stdout(io.StringIO()):
            lsc.simulate(n, progress=ticks.append, emit_method=method)
        calls.append(n)
        if len(histories) != sum(calls):
            if not histories: return []
        rec = dict(base, hists=[list(h) for h in histories], calls=list(calls), progress=[int(t) for t in ticks], longest=max(len(h) for h in histories))
        rec.update(reports(lsc, base, rng, 8)); out.append(rec)
    return out

def refusals():
    from pvtrace.device.lsc import LSC
    out = []
    def refuse(what, f):
        try: f(); raised = False
        except ValueError: raised = True
        out.append({"kind": "refuse", "what": what, "raised": raised})
    fresh = LSC((1.0, 1.0, 0.2))
    refuse("spectrum-before-simulate", lambda: fresh.spectrum()); refuse("names-before-simulate", fresh.component_names); refuse("lights-before-simulate", fresh.light_names)
    for f in ({"top"}, {"bottom"}, {"left", "front"}): refuse("cell-" + "-".join(sorted(f)), lambda: fresh.add_solar_cell(f))
    refuse("cell-string", lambda: fresh.add_solar_cell("left"))
    with contextlib.redirect_stdout(io.StringIO()): fresh.simulate(3)
    refuse("unknown-source", lambda: fresh.spectrum(source={"nobody"})); refuse("unknown-event", lambda: fresh.spectrum(events={"vanish"}))
    refuse("unknown-kind", lambda: fresh.spectrum(kind="middle")); refuse("facet-string", lambda: fresh.spectrum(facets="left")); refuse("event-string", lambda: fresh.spectrum(events="absorb"))
    return out

CFG = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Depth = %d\n Emit = %s\n"

def C25(c):
    import pvtrace.device.lsc
    rng = random.Random(vlib.SEED * 23 + 25)
    c.model("Lsc", CFG % (4 if c.quick else 5, "FALSE"), name="Lsc (all histories)", timeout=800, mem="8g")
    s = vlib.tlc("Lsc", CFG % (9, "TRUE"), extra=["-simulate", "num=%d" % (1500 if c.quick else 12000), "-depth", "14", "-seed", str(vlib.SEED)], workers=4, timeout=600)
    if s.error: raise vlib.Machinery("Lsc simulation: " + s.error)
    groups = {}
    for cells, mirror, gap, h in s.verdicts: groups.setdefault((tuple(sorted(cells)), bool(mirror), bool(gap)), []).append([tuple(x) for x in h])
    jobs = []
    for (cells, mirror, gap), hs in sorted(groups.items()):
        rng.shuffle(hs)
        for k in range(0, len(hs), 60):
            part = hs[k:k + 60]; cut = sorted(rng.sample(range(1, len(part)), min(len(part) - 1, rng.randint(0, 2)))) if len(part) > 1 else []
            batches = [part[a:b] for a, b in zip([0] + cut, cut + [len(part)])]
            jobs.append(({"cells": cells, "mirror": mirror, "gap": gap}, batches, rng.randrange(1 << 30)))
    books = run_jobs(books_job, jobs)
    c.part("books", histories=len(s.verdicts), devices=len(jobs), reports=len(books), supplied=bool(books))
    cells = [[], ["left"], ["right"], ["near"], ["far"], ["near", "left"], ["far", "right"], SIDES]
    todo = []
    for k in range(200 if c.quick else 2400):
        gap = ["none", "specular", "lambertian"][k % 3]
        light = rng.choice(["default", "top", "slant", "side", "front", "below", "top+side", "slant+front+top", "default", "top"])
        if gap == "lambertian": light = rng.choice(["default", "top", "below", "slant"])      # its other faces are refused
        cfg = {"cells": cells[k % 8], "mirror": rng.random() < 0.35, "gap": gap, "light": light,
               "comps": rng.choice(["default", ["absorber"], ["scatterer"], ["dye"], ["absorber", "scatterer"], ["absorber", "dye"], ["scatterer", "dye", "absorber"]])}
        if light == "below" and gap != "none" and cfg["mirror"]: cfg["mirror"] = False        # the light would stay between the mirrors
        todo.append((cfg, rng.randrange(1 << 30), rng.choice([[40], [25, 15], [1, 30], [10, 10, 20]])))
    real = run_jobs(real_job, todo)
    c.part("devices", devices=len(todo), reports=len(real), rays=sum(len(r["hists"]) for r in real))
    recs = books + real + refusals()
    c.judge("LscTrace", recs, mem="8g", workers=1, timeout=800)

"""C17: scene files (ParseGen, Parse)."""
import copy, json, os, random, tempfile
import numpy as np
import vlib
from checks_query import run_jobs

XS1, YS1 = [300, 350, 420, 500, 610, 700, 800], [0, 1200, 3100, 2000, 4000, 700, 100]
XS2, YS2 = [500, 540, 600, 640, 700], [0, 900, 3000, 1000, 0]
XS3, YS3 = [400, 450, 520, 600, 650], [1, 3, 5, 2, 1]          # whole numbers in the file
FILES = {"abs.csv": (XS1, YS1), "data/ems.csv": (XS2, YS2), "int.csv": (XS3, [1000 * y for y in YS3])}
SIZES = {1: [1000, 1000, 250], 2: [5000, 4750, 750], 3: [100000, 500, 12000]}

def write_files(d):
    os.makedirs(os.path.join(d, "data"), exist_ok=True)
    for f, (xs, ys) in FILES.items():
        with open(os.path.join(d, f), "w") as fh:
            fh.write(",x,y\n")
            for i, (x, y) in enumerate(zip(xs, ys)):
                fh.write("%d,%s,%s\n" % (i, x if f == "int.csv" else float(x), y // 1000 if f == "int.csv" else y / 1000.0))
    import trimesh
    trimesh.creation.box((2.0, 2.0, 2.0)).export(os.path.join(d, "cube.stl"))

_tables = {}
def named(name, which, lo, hi, step):
    from pvtrace.data import lumogen_f_red_305, fluro_red
    m = {"lumogen-f-red-305": lumogen_f_red_305, "fluro-red": fluro_red}[name]
    x = np.arange(lo, hi + step + 1, dtype=float)
    return {"form": "name", "name": name, "lo": lo, "hi": hi, "step": step,
            "table": [int(round(1e5 * v)) for v in getattr(m, which)(x)]}

def spectrum(form, which, rng=None):
    r = rng or random.Random(0)
    if form == "none": return {"form": "none"}
    if form == "file":
        f = "data/ems.csv" if which == "emission" else r.choice(["abs.csv", "int.csv"])
        return {"form": "file", "file": f, "xs": FILES[f][0], "ys": FILES[f][1]}
    lo = r.choice([300, 400]) if which == "absorption" else r.choice([500, 550]); hi = r.choice([700, 695])
    return named(r.choice(["lumogen-f-red-305", "fluro-red"]), which, lo, hi, r.choice([1, 5, 10]))

# ------------------------------------------------------------------ abstract documents

def node(name, geo="box", **kw):
    n = {"name": name, "parent": "", "geo": geo, "dims": {"box": [1000, 2000, 3000], "sphere": [1000], "cylinder": [3000, 1000], "mesh": [2000, 2000, 2000], "light": []}[geo],
         "index": 1500, "comps": [], "loc": [], "dir": [], "record": False,
         "light": {"wl": -1, "mwl": {"form": "none"}, "pos": {"form": "none", "dims": []}, "dir": {"form": "none"}}}
    n.update(kw); return n

def world(**kw): return node("world", "sphere", dims=[100000], index=1000, **kw)

def component(ch, name, rng):
    ph = dict(ch["phase"])
    return {"name": name, "kind": ch["kind"], "coef": ch["coef"], "spec": spectrum(ch["spec"], "absorption", rng), "hist": ch["hist"], "qy": ch["qy"],
            "phase": ph, "espec": spectrum(ch["espec"], "emission", rng)}

def light(ch, rng):
    mwl = {"none": {"form": "none"}, "number": {"form": "number", "v": 487}, "nanometers": {"form": "nanometers", "v": 512}}.get(ch["mwl"])
    if mwl is None: mwl = {"form": "spectrum", "spec": spectrum(ch["mwl"], "absorption", rng)}
    pos = {"none": [], "rect": [1500, 700], "square": [900, 900], "cube": [800, 1600, 400], "circle": [1250], "point": rng.choice([[500, -250, 2000], [0, 0, -1000]])}[ch["pos"]]
    form = {"square": "rect"}.get(ch["pos"], ch["pos"])
    d = {"none": {"form": "none"}, "isotropic": {"form": "isotropic"}, "lambertian": {"form": "lambertian"}, "cone": {"form": "cone", "v": rng.choice([10, 45, 75, 90])},
         "conestring": {"form": "cone", "v": 20, "text": True}, "hg": {"form": "hg", "v": rng.choice([700, -500, 0])}, "point": {"form": "point", "vec": rng.choice([[3, 0, 4], [0, 0, -1], [1, -2, 2], [0, 5, 0]])}}[ch["dir"]]
    return {"wl": ch["wl"], "mwl": mwl, "pos": {"form": form, "dims": pos}, "dir": d}

HISTS = {"none": [], "one": [["duration", 0, 5000, 7, "", 0, 0, 0]], "heatmap": [["x", -1000, 1500, 11, "z", 0, 2000, 6]],
         "both": [["pathlength", 0, 9000, 40, "", 0, 0, 0], ["wavelength", 400000, 800000, 20, "", 0, 0, 0], ["y", -500, 500, 4, "x", -250, 250, 3]]}

def document(ch, rng):
    """The abstract document for one of ParseGen's choices."""
    d = {"mutation": "none", "site": 0, "components": [], "nodes": [world()], "recorders": []}
    p = ch["part"]
    if p == "component":
        other = {"name": "other", "kind": "absorber", "coef": 1000, "spec": {"form": "none"}, "hist": False, "qy": -1, "phase": {"form": "none"}, "espec": {"form": "none"}}
        d["components"] = [component(ch, "dye", rng), other]
        d["nodes"] += [node("first", comps=["dye"]), node("second", loc=[5000, 0, 0], comps=["other"]), node("third", loc=[-5000, 0, 0], comps=["other", "dye"]), node("fourth", loc=[0, 5000, 0])]
    elif p == "light":
        d["nodes"] += [node("lamp", "light", light=light(ch, rng), loc=rng.choice([[], [0, 0, 9000]])), node("slab")]
    elif p == "tree":
        ns = [node("n%d" % k, loc=[1000 * k, 0, -500], parent=ch["p%d" % k], geo=rng.choice(["box", "sphere", "light"])) for k in (1, 2, 3)]
        d["nodes"] = {0: d["nodes"] + ns, 1: ns[::-1] + d["nodes"], 2: [ns[1]] + d["nodes"] + [ns[2], ns[0]]}[ch["order"]]
    elif p == "pose":
        d["nodes"] += [node("thing", ch["geo"], loc=ch["loc"], dir=ch["dir"], parent="outer"), node("outer", dims=[50000, 50000, 50000])]
    elif p == "geometry":
        dims = {"box": SIZES[ch["size"]], "sphere": [SIZES[ch["size"]][1]], "cylinder": SIZES[ch["size"]][1:], "mesh": [2000, 2000, 2000]}[ch["geo"]]
        if ch["integers"]: dims = [max(1, x // 1000) * 1000 for x in dims]
        for nm in ("a", "b"):
            d["components"].append({"name": nm, "kind": "absorber", "coef": 1000, "spec": {"form": "none"}, "hist": False, "qy": -1, "phase": {"form": "none"}, "espec": {"form": "none"}})
        d["nodes"].append(node("thing", ch["geo"], dims=dims, index=ch["index"], comps=list(ch["comps"])))
    elif p == "recorder":
        dims = {"box": SIZES[ch["size"]], "sphere": [SIZES[ch["size"]][1]], "cylinder": SIZES[ch["size"]][1:]}[ch["geo"]]
        d["nodes"] += [node("thing", ch["geo"], dims=dims, record=ch["record"] == "true", recordkey=ch["record"]), node("other", loc=[0, 90000, 0], record=rng.random() < 0.3)]
        if ch["explicit"] != "none":
            where = {"ghost": "ghost", "world": "world"}.get(ch["explicit"], "thing")
            name = "mine" if ch["explicit"] != "override" else rng.choice(["thing-lost", "thing-top" if ch["geo"] == "box" else "thing-escaping"])
            d["recorders"].append({"name": name, "node": where, "event": ch["event"], "facet": rng.choice([[0, 0, 1], [-1, 0, 0]]) if ch["facet"] else [], "atol": rng.choice([-1, 2000]), "hists": HISTS[ch["hists"]]})
            if rng.random() < 0.3:
                d["recorders"].append({"name": "second", "node": "other", "event": "lost", "facet": [], "atol": -1, "hists": HISTS["one"]})
    elif p == "mutation":
        d["mutation"], d["site"] = ch["mutation"], ch["site"]
        d["components"] = [component({"kind": "absorber", "coef": 1000, "spec": "file", "hist": False, "qy": -1, "phase": {"form": "none"}, "espec": "none"}, "ab", rng),
                           component({"kind": "scatterer", "coef": 1000, "spec": "none", "hist": False, "qy": 500, "phase": {"form": "isotropic"}, "espec": "none"}, "sc", rng),
                           component({"kind": "luminophore", "coef": 1000, "spec": "file", "hist": False, "qy": 500, "phase": {"form": "none"}, "espec": "file"}, "lu", rng)]
        d["nodes"] += [node("slab", comps=["ab", "sc", "lu"], loc=[0, 0, 1000], dir=[0, 1, 0]), node("ball", "sphere", loc=[8000, 0, 0]), node("rod", "cylinder", loc=[0, 8000, 0]),
                       node("stl", "mesh", loc=[0, -8000, 0]),
                       node("lamp", "light", light=light({"wl": -1, "mwl": "nanometers", "pos": "rect", "dir": "cone"}, rng))]
        d["recorders"] = [{"name": "mine", "node": "slab", "event": "entering", "facet": [0, 0, 1], "atol": -1, "hists": HISTS["both"]}]
    return d

def random_document(pools, rng):
    """A whole document mixing forms of everything."""
    d = {"mutation": "none", "site": 0, "components": [], "nodes": [world(record=rng.random() < 0.2)], "recorders": []}
    for k in range(rng.randint(0, 4)):
        d["components"].append(component(rng.choice(pools["component"]), "c-%d" % k, rng))
    names = [c["name"] for c in d["components"]]
    for k in range(rng.randint(1, 5)):
        geo = rng.choice(["box", "sphere", "cylinder", "light", "box"])
        n = node("node.%d" % k, geo, loc=rng.choice([[], [rng.randint(-9, 9) * 500 for _ in range(3)]]), dir=rng.choice([[], [rng.randint(-4, 4), rng.randint(-4, 4), rng.choice([-3, 1, 2])]]),
                 parent=rng.choice(["", "~", "world"] + ["node.%d" % j for j in range(k)]), index=rng.choice([1000, 1330, 1500]))
        if geo == "light": n["light"] = light(rng.choice(pools["light"]), rng)
        else:
            n["comps"] = rng.sample(names, rng.randint(0, len(names))); n["record"] = rng.random() < 0.4
            if geo == "box": n["dims"] = [rng.randint(1, 30) * 250 for _ in range(3)]
        d["nodes"].append(n)
    solid = [n["name"] for n in d["nodes"] if n["geo"] != "light"]
    for k in range(rng.randint(0, 3)):
        d["recorders"].append({"name": "rec%d" % k, "node": rng.choice(solid), "event": rng.choice(["entering", "escaping", "reflected", "lost", "killed"]), "facet": [], "atol": -1, "hists": HISTS[rng.choice(sorted(HISTS))]})
    if rng.random() < 0.3: rng.shuffle(d["nodes"])
    return d

# ------------------------------------------------------------------ concrete documents

def num(milli, rng):
    return milli // 1000 if milli % 1000 == 0 and rng.random() < 0.6 else milli / 1000.0

def yspec(s):
    if s["form"] == "file": return {"file": s["file"]}
    return {"name": s["name"], "range": {"min": s["lo"], "max": s["hi"], "spacing": s["step"]}}

def ydir(p, rng):
    f = p["form"]
    if f in ("isotropic", "lambertian"): return {f: None}
    if f == "cone": return {"cone": {"half-angle": str(p["v"]) if p.get("text") else p["v"]}}
    if f == "hg": return {"henyey-greenstein": {"g": num(p["v"], rng)}}
    return [rng.choice([int, float])(x) for x in p["vec"]]

def ycomponent(c, rng):
    att = {}
    if c["coef"] != -1: att["coefficient"] = num(c["coef"], rng)
    if c["spec"]["form"] != "none": att["spectrum"] = yspec(c["spec"])
    hist = {"hist": c["hist"]} if c["hist"] or rng.random() < 0.3 else {}
    qy = {} if c["qy"] == -1 else {"quantum-yield": num(c["qy"], rng)}
    ph = {} if c["phase"]["form"] == "none" else {"phase-function": ydir(c["phase"], rng)}
    if c["kind"] == "absorber": return {"absorber": {**att, **hist}}
    if c["kind"] == "scatterer": return {"scatterer": {**att, **hist, **qy, **ph}}
    return {"luminophore": {"absorption": att, "emission": {"spectrum": yspec(c["espec"]), **qy, **ph}, **hist}}

def ynode(n, rng):
    y = {}
    if n["parent"] == "~": y["parent"] = None
    elif n["parent"]: y["parent"] = n["parent"]
    m = {"material": {"refractive-index": num(n["index"], rng)}}
    if n["comps"] or rng.random() < 0.2: m["material"]["components"] = list(n["comps"])
    if n["geo"] == "box": y["box"] = {"size": [num(x, rng) for x in n["dims"]], **m}
    elif n["geo"] == "sphere": y["sphere"] = {"radius": num(n["dims"][0], rng), **m}
    elif n["geo"] == "cylinder": y["cylinder"] = {"length": num(n["dims"][0], rng), "radius": num(n["dims"][1], rng), **m}
    elif n["geo"] == "mesh": y["mesh"] = {"file": "cube.stl", **m}
    else:
        l = n["light"]; z = {}; mask = {}
        if l["wl"] != -1: z["wavelength"] = rng.choice([int, float])(l["wl"])
        if l["mwl"]["form"] == "number": mask["wavelength"] = rng.choice([int, float])(l["mwl"]["v"])
        elif l["mwl"]["form"] == "nanometers": mask["wavelength"] = {"nanometers": rng.choice([int, float])(l["mwl"]["v"])}
        elif l["mwl"]["form"] == "spectrum": mask["wavelength"] = {"spectrum": yspec(l["mwl"]["spec"])}
        f, dims = l["pos"]["form"], [num(x, rng) for x in l["pos"]["dims"]]
        if f == "point": mask["position"] = dims
        elif f == "circle": mask["position"] = {"circle": dims[0]}
        elif f != "none": mask["position"] = {f: dims}
        if l["dir"]["form"] != "none": mask["direction"] = ydir(l["dir"], rng)
        if mask or rng.random() < 0.2: z["mask"] = mask
        y["light"] = z
    if n["loc"]: y["location"] = [num(x, rng) for x in n["loc"]]
    if n["dir"]: y["direction"] = [rng.choice([int, float])(x) for x in n["dir"]]
    key = n.get("recordkey") or ("true" if n["record"] else "absent")
    if key != "absent": y["record"] = key == "true"
    return y

def yrecorder(r, rng):
    y = {"node": r["node"], "event": r["event"]}
    if r["facet"]: y["facet"] = list(r["facet"])
    if r["atol"] != -1: y["atol"] = r["atol"] / 1e9
    hs = {}
    for h in r["hists"]:
        if h[4]: hs["position"] = [h[0], h[4], [num(h[1], rng), num(h[2], rng), h[3]], [num(h[5], rng), num(h[6], rng), h[7]]]
        else: hs[h[0]] = [num(h[1], rng), num(h[2], rng), h[3]]
    if hs or rng.random() < 0.2: y["histograms"] = hs
    return y

def concrete(d, rng):
    y = {"version": "1.0"}
    if d["components"]: y["components"] = {c["name"]: ycomponent(c, rng) for c in d["components"]}
    y["nodes"] = {n["name"]: ynode(n, rng) for n in d["nodes"]}
    if d["recorders"]: y["recorders"] = {r["name"]: yrecorder(r, rng) for r in d["recorders"]}
    return y

def mutate(y, m, site):
    """Break a good document in one way; returns text when it is no longer a mapping."""
    n, c, r = y["nodes"], y["components"], y["recorders"]
    first = site == 1
    if m == "no-world": n["World"] = n.pop("world")
    elif m == "no-nodes": del y["nodes"]
    elif m == "no-version": del y["version"]
    elif m == "bad-version": y["version"] = "2.0" if first else "1.1"
    elif m == "number-version": y["version"] = 1.0 if first else 1
    elif m == "unknown-node-key": n["slab" if first else "lamp"]["locaton"] = [0, 0, 0]
    elif m == "two-geometries": n["slab" if first else "lamp"]["sphere"] = {"radius": 1, "material": {"refractive-index": 1.5}}
    elif m == "no-geometry": n["slab"].pop("box") if first else n["lamp"].pop("light")
    elif m == "no-size": del n["slab"]["box"]["size"]
    elif m == "no-material": del (n["slab"]["box"] if first else n["rod"]["cylinder"])["material"]
    elif m == "no-index": del (n["slab"]["box"] if first else n["ball"]["sphere"])["material"]["refractive-index"]
    elif m == "low-index": (n["slab"]["box"] if first else n["rod"]["cylinder"])["material"]["refractive-index"] = 0.99
    elif m == "string-index": n["slab"]["box"]["material"]["refractive-index"] = "1.5" if first else "glass"
    elif m == "string-size": n["slab"]["box"]["size"] = "1 1 1" if first else [1, "1", 1]
    elif m == "short-size": n["slab"]["box"]["size"] = [1, 1] if first else []
    elif m == "no-radius": del (n["ball"]["sphere"] if first else n["rod"]["cylinder"])["radius"]
    elif m == "negative-radius": (n["ball"]["sphere"] if first else n["rod"]["cylinder"])["radius"] = -1
    elif m == "negative-length": n["rod"]["cylinder"]["length"] = -1 if first else -0.5
    elif m == "string-radius": (n["ball"]["sphere"] if first else n["rod"]["cylinder"])["radius"] = "1"
    elif m == "short-location": n["slab"]["location"] = [1, 2] if first else [1]
    elif m == "long-location": n["slab"]["location"] = [1, 2, 3, 4] if first else [1, 2, 3, 4, 5]
    elif m == "string-location": n["slab"]["location"] = "here" if first else ["0", "0", "1"]
    elif m == "short-direction": n["slab"]["direction"] = [0, 1] if first else [1]
    elif m == "string-parent": n["ball"]["parent"] = "wrld" if first else "lamp2"
    elif m == "number-parent": n["ball"]["parent"] = 1 if first else ["world"]
    elif m == "unknown-component-kind": c["ab"] = {"absorbers" if first else "reactor": {"coefficient": 1.0}}
    elif m == "two-component-kinds": c["ab"]["scatterer"] = {"coefficient": 1.0}
    elif m == "empty-component": c["sc"] = {} if first else {"scatterer": {}}
    elif m == "negative-coefficient": c["sc"]["scatterer"]["coefficient"] = -1.0
    elif m == "string-coefficient": (c["sc"]["scatterer"] if first else c["ab"]["absorber"])["coefficient"] = "1.0"
    elif m == "no-coefficient": del c["sc"]["scatterer"]["coefficient"]
    elif m == "high-yield": (c["sc"]["scatterer"] if first else c["lu"]["luminophore"]["emission"])["quantum-yield"] = 1.01
    elif m == "negative-yield": (c["sc"]["scatterer"] if first else c["lu"]["luminophore"]["emission"])["quantum-yield"] = -0.01
    elif m == "unknown-absorber-key": c["ab"]["absorber"]["quantum-yield"] = 1.0
    elif m == "unknown-scatterer-key": c["sc"]["scatterer"]["quantum_yield"] = 1.0
    elif m == "spectrum-file-and-name": c["ab"]["absorber"]["spectrum"] = {"file": "abs.csv", "name": "fluro-red", "range": {"min": 400, "max": 700, "spacing": 1}}
    elif m == "spectrum-no-range": c["ab"]["absorber"]["spectrum"] = {"name": "fluro-red"} if first else {"name": "fluro-red", "range": {"min": 400, "max": 700}}
    elif m == "spectrum-missing-file": (c["ab"]["absorber"] if first else c["lu"]["luminophore"]["emission"])["spectrum"] = {"file": "nothing.csv"}
    elif m == "spectrum-unknown-name": c["ab"]["absorber"]["spectrum"] = {"name": "fluro-blue", "range": {"min": 400, "max": 700, "spacing": 1}}
    elif m == "spectrum-unsorted": c["ab"]["absorber"]["spectrum"] = {"file": "unsorted.csv"}
    elif m == "spectrum-negative": c["ab"]["absorber"]["spectrum"] = {"file": "negative.csv"}
    elif m == "no-emission": del c["lu"]["luminophore"]["emission"]
    elif m == "no-emission-spectrum": del c["lu"]["luminophore"]["emission"]["spectrum"]
    elif m == "two-positions": n["lamp"]["light"]["mask"]["position"] = {"rect": [1, 1], "circle": 1}
    elif m == "unknown-position": n["lamp"]["light"]["mask"]["position"] = {"square": 1}
    elif m == "two-directions": n["lamp"]["light"]["mask"]["direction"] = {"isotropic": None, "lambertian": None}
    elif m == "unknown-direction": n["lamp"]["light"]["mask"]["direction"] = {"gaussian": 1}
    elif m == "high-g": n["lamp"]["light"]["mask"]["direction"] = {"henyey-greenstein": {"g": 1.1 if first else -1.5}}
    elif m == "no-half-angle": n["lamp"]["light"]["mask"]["direction"] = {"cone": {}} if first else {"cone": {"angle": 20}}
    elif m == "string-half-angle": n["lamp"]["light"]["mask"]["direction"] = {"cone": {"half-angle": "wide" if first else ""}}
    elif m == "zero-mask-direction": n["lamp"]["light"]["mask"]["direction"] = [0, 0, 0] if first else [0.0, 0.0, 0.0]
    elif m == "short-mask-direction": n["lamp"]["light"]["mask"]["direction" if first else "position"] = [0, 1]
    elif m == "two-wavelengths": n["lamp"]["light"]["mask"]["wavelength"] = {"nanometers": 500, "spectrum": {"file": "abs.csv"}}
    elif m == "string-wavelength": n["lamp"]["light"]["mask"]["wavelength"] = "red" if first else {"nanometers": "red"}
    elif m == "bad-event": r["mine"]["event"] = "enter" if first else "transmit"
    elif m == "no-event": del r["mine"]["event"]
    elif m == "no-recorder-node": del r["mine"]["node"]
    elif m == "short-facet": r["mine"]["facet"] = [0, 1] if first else [0, 0, 1, 0]
    elif m == "unknown-recorder-key": r["mine"]["tol"] = 1e-6
    elif m == "bad-histogram": r["mine"]["histograms"] = {"wavelength": [400, 800] if first else [400, 800, 20, 1]}
    elif m == "unknown-histogram": r["mine"]["histograms"] = {"colour": [400, 800, 10]}
    elif m == "backward-histogram": r["mine"]["histograms"] = {"wavelength": [800, 400, 10] if first else [400, 800, 0]}
    elif m == "bad-name": n["a b" if first else "a/b"] = {"sphere": {"radius": 1, "material": {"refractive-index": 1}}}
    elif m == "not-a-map": return "- a\n- b\n" if first else "scene\n"
    elif m == "empty-file": return "" if first else "# nothing\n"
    elif m == "mesh-missing-file": n["stl"]["mesh"]["file"] = "nothing.stl" if first else "/nonexistent/cube.stl"
    elif m == "missing-file": return None
    else: raise vlib.Machinery("mutation " + m)
    return y

# ------------------------------------------------------------------ observing the scene

def mi(x): return int(round(1000 * float(x)))

def angular(draw, n=900):
    v = np.array([np.asarray(draw(), dtype=float).reshape(3) for _ in range(n)])
    z = v[:, 2]
    return {"constant": bool(np.all(np.abs(v - v[0]) < 1e-9)), "unit": bool(np.all(np.abs(np.linalg.norm(v, axis=1) - 1) < 1e-6)),
            "first": [int(round(1e5 * x)) for x in v[0]], "lo": int(round(1000 * z.min())), "m": int(round(1000 * z.mean())), "m2": int(round(1000 * (z * z).mean()))}

def see_component(c, d):
    from pvtrace import Ray, Absorber, Scatterer, Luminophore
    kind = type(c).__name__
    o = {"name": c.name, "kind": kind, "qy": mi(c.quantum_yield), "ongrid": False}
    spec = d["spec"]
    if spec["form"] == "none": probe = [300, 555, 1000]
    elif spec["form"] == "file":
        xs = spec["xs"]; probe = xs + [(a + b) // 2 for a, b in zip(xs, xs[1:])] + [xs[0] - 10, xs[-1] + 10]
    else:
        top = spec["lo"]
        while top < spec["hi"]: top += spec["step"]
        probe = [spec["lo"], spec["lo"] + spec["step"], spec["lo"] + 20 * spec["step"], top] + [spec["lo"] - 10, top + 20]
    o["probe"] = []
    for x in probe:
        try: o["probe"].append([x, mi(c.coefficient(float(x)))])
        except ValueError: o["probe"].append([x, -1])
    if kind != "Absorber":
        o["phase"] = angular(c.phase_function)
    if kind == "Luminophore":
        ray = Ray(position=(0, 0, 0), direction=(0, 0, 1), wavelength=float(d["espec"]["xs"][0] if d["espec"]["form"] == "file" else d["espec"]["lo"]))
        w = np.array([c.emit(ray, method="full").wavelength for _ in range(900)])
        g = d["espec"]["xs"] if d["espec"]["form"] == "file" else list(range(d["espec"]["lo"], d["espec"]["hi"] + d["espec"]["step"], d["espec"]["step"]))
        o["ems"] = [int(np.ceil(w.min() - 1e-6)) if w.min() > g[0] else g[0] if w.min() > g[0] - 1e-6 else g[0] - 1, int(np.floor(w.max() + 1e-6)), int(round(w.mean()))]
        o["ongrid"] = all(float(x).is_integer() and int(x) in g for x in w)
    return o

def see_light(l):
    rays = list(l.emit(400))
    w = np.array([r.wavelength for r in rays] + [l.wavelength() for _ in range(1400)]); p = np.array([r.position for r in rays], dtype=float)
    m = np.abs(p).max(axis=0)
    return {"name": l.name if all(r.source == l.name for r in rays) else "?", "wl": [int(np.floor(w.min() + 1e-6)) if w.min() < 1e7 else -1, int(np.ceil(w.max() - 1e-6)), int(round(w.mean()))],
            "still": bool(np.all(p == p[0])), "at": [mi(x) for x in p[0]], "pos": [mi(x) for x in m] + [mi(np.sqrt((p[:, :2] ** 2).sum(axis=1)).max())],
            "dir": angular(l.direction)}

def see_hist(h):
    from pvtrace.engine.recorder import Histogram
    if isinstance(h, Histogram): return [h.prop, mi(h.start), mi(h.stop), h.bins, "", 0, 0, 0]
    return [h.a.prop, mi(h.a.start), mi(h.a.stop), h.a.bins, h.b.prop, mi(h.b.start), mi(h.b.stop), h.b.bins]

def see(scene, d):
    from anytree import PreOrderIter
    from pvtrace import Box, Sphere, Cylinder, Mesh
    from pvtrace.material.surface import FresnelSurfaceDelegate
    nodes, comps = [], {}
    dn = {c["name"]: c for c in d["components"]}
    for n in PreOrderIter(scene.root):
        o = {"name": n.name, "parent": n.parent.name if n.parent is not None else "", "haslight": n.light is not None,
             "loc": [mi(x) for x in n.location], "rot": [[int(round(1e4 * x)) for x in row[:3]] for row in np.asarray(n.pose)[:3]], "dims": [], "comps": [], "index": 0, "surface": ""}
        assert np.allclose(np.asarray(n.pose)[:3, 3], n.location)
        g = n.geometry
        if g is None: o["geo"] = "light" if n.light is not None else "none"
        else:
            o["geo"] = {Box: "box", Sphere: "sphere", Cylinder: "cylinder", Mesh: "mesh"}[type(g)]
            if o["geo"] == "box": o["dims"] = [mi(x) for x in (g.trimesh.bounds[1] - g.trimesh.bounds[0])]
            elif o["geo"] == "mesh": o["dims"] = [mi(x) for x in (g.trimesh.bounds[1] - g.trimesh.bounds[0])]
            elif o["geo"] == "sphere": o["dims"] = [mi(g.radius)]
            else: o["dims"] = [mi(g.length), mi(g.radius)]
            o["index"] = mi(g.material.refractive_index)
            o["surface"] = "fresnel" if type(g.material.surface.delegate) is FresnelSurfaceDelegate else type(g.material.surface.delegate).__name__
            for c in g.material.components:
                o["comps"].append(c.name)
                if c.name not in comps: comps[c.name] = c
                elif comps[c.name] is not c: comps[c.name + "?"] = c
        o["light"] = see_light(n.light) if n.light is not None else {}
        o["recorders"] = [{"name": r.name, "event": r.event, "facet": [] if r.facet is None else [int(x) for x in r.facet], "atol": int(round(r.atol * 1e9)), "hists": [see_hist(h) for h in r.histograms]} for r in n.recorders]
        nodes.append(o)
    return {"root": scene.root.name, "nodes": nodes,
            "components": [see_component(c, dn[k]) if k in dn else {"name": k, "kind": "?"} for k, c in comps.items()]}

# ------------------------------------------------------------------ running

def slim(d):
    d = copy.deepcopy(d)
    for n in d["nodes"]:
        n.pop("recordkey", None)
    return d

def one(job):
    import yaml, contextlib, io
    from pvtrace.cli.parse import parse
    docs, seed, base = job
    rng = random.Random(seed); np.random.seed(seed % 2**31)
    out = []
    top = tempfile.mkdtemp(prefix="doc-", dir=base)
    write_files(top)
    for f, ys in (("unsorted.csv", [(500, 1.0), (400, 2.0)]), ("negative.csv", [(400, 1.0), (500, -2.0)])):
        with open(os.path.join(top, f), "w") as fh: fh.write(",x,y\n" + "".join("%d,%s,%s\n" % (i, x, y) for i, (x, y) in enumerate(ys)))
    for d in docs:
        y = concrete(d, rng)
        if d["mutation"] != "none": y = mutate(y, d["mutation"], d["site"])
        text = y if isinstance(y, str) else yaml.safe_dump(y, sort_keys=False)
        name = os.path.join(top, "scene.yml")
        if y is None: name = os.path.join(top, "absent.yml")
        else: open(name, "w").write(text)
        cwd = os.getcwd()
        os.chdir(top if rng.random() < 0.3 else "/")
        arg = "scene.yml" if os.getcwd() == top and y is not None else name
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                s = parse(arg)
            acc, err = True, ""
        except Exception as e:
            acc, err, s = False, repr(e)[:300], None
        finally: os.chdir(cwd)
        rec = {"doc": slim(d), "accepted": acc, "error": err, "text": text}
        if acc and d["mutation"] == "none": rec["scene"] = see(s, d)
        else: rec["scene"] = {}
        out.append(rec)
    return out

def C17(c):
    rng = random.Random(vlib.SEED * 7 + 17)
    base = vlib.scratch()
    out = os.path.join(base, "docs.ndjson")
    r = vlib.tlc("ParseGen", "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", env={"OUT": out})
    if r.error: raise vlib.Machinery("ParseGen: " + r.error)
    choices = [json.loads(l) for l in open(out)]
    pools = {}
    for ch in choices: pools.setdefault(ch["part"], []).append(ch)
    take = {"component": 260, "light": 150, "tree": 150, "pose": 130, "geometry": 120, "recorder": 200, "mutation": 10**6} if c.quick else {k: 10**6 for k in pools}
    docs = []
    for k, v in pools.items():
        v = v if len(v) <= take[k] else rng.sample(v, take[k])
        docs += [document(ch, rng) for ch in v]
    n = 120 if c.quick else 3000
    docs += [random_document(pools, rng) for _ in range(n)]
    rng.shuffle(docs)
    c.part("documents", total=len(docs), enumerated=len(choices), **{k: min(len(v), take[k]) for k, v in pools.items()})
    jobs = [(docs[i:i + 20], vlib.SEED * 100003 + i, base) for i in range(0, len(docs), 20)]
    recs = run_jobs(one, jobs)
    c.part("parsed", accepted=sum(x["accepted"] for x in recs), refused=sum(not x["accepted"] for x in recs))
    for i in range(0, len(recs), 2500):
        c.judge("Parse", recs[i:i + 2500], workers=1, mem="6g")

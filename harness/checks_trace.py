"""C01-C09: ray histories of both tracers against Photon/PhotonTrace, Line and Stats."""
import json, math, os, random
import numpy as np
import vlib
from scenes import *
from record import *

def world_file(specs):
    f = os.path.join(vlib.scratch(), "worlds-%d.ndjson" % world_file.n); world_file.n += 1
    with open(f, "w") as fh:
        for s in specs: fh.write(json.dumps(s) + "\n")
    return f
world_file.n = 0

# ------------------------------------------------------------ design models

def photon_model(c, room=None):
    """The exhaustive model of a ray's life in four small worlds."""
    deep = not c.quick
    for rm in ([0, 5] if room is None else room):
        steps = (5 if deep else 3) if rm == 0 else (4 if deep else 3)
        cfg = ("SPECIFICATION Spec\nINVARIANT Invs\nPROPERTY Ends\nCONSTANTS\n MaxSteps = %d\n Room = %d\n Pick = 0\n" % (steps, rm))
        c.model("MCPhoton", cfg, name="Photon room=%d steps=%d" % (rm, steps),
                expect_actions=("Generate", "Transmit", "Reflect", "Exit", "Kill"), timeout=700)

def line_worlds(rng, n):
    """Random slab worlds on a line (coordinates doubled; boundaries multiples of 4)."""
    out = []
    for _ in range(n):
        vols = [{"lo": 0, "hi": 40, "encl": [], "comp": rng.choice(["", "", "absorber", "scatterer"]), "n": 1}]
        def fill(parent, lo, hi, depth):
            pos = lo + 4
            while pos + 4 <= hi - 4 and len(vols) < 6:
                if rng.random() < 0.25: pos += 4; continue
                span = rng.randrange(pos + 4, hi - 3, 4)
                vols.append({"lo": pos, "hi": span, "encl": [parent + 1] + vols[parent]["encl"],
                             "comp": rng.choice(["", "", "luminophore", "scatterer", "reactor", "absorber"]), "n": rng.choice([1, 3])})
                me = len(vols) - 1
                if depth < 4 and span - pos >= 12 and rng.random() < 0.8: fill(me, pos, span, depth + 1)
                pos = span + (0 if rng.random() < 0.5 else 4)
        fill(0, 0, 40, 1)
        out.append({"every": 4, "vol": vols})
    return out

ALPHA = 0.005     # per cm
UNIT = 0.5        # cm per doubled coordinate

def build_line(world, axis, sign, rng):
    """The slab world in 3-D: boxes along `axis`, with phase functions steered by the replay."""
    vols = []; steer = {}
    ax = np.zeros(3); ax[axis] = sign
    for i, v in enumerate(world["vol"]):
        depth = len(v["encl"])
        size = [0.0] * 3
        for k in range(3):
            size[k] = (v["hi"] - v["lo"]) * UNIT if k == axis else 6.0 - 0.9 * depth
        T = ax * ((v["lo"] + v["hi"]) / 2 - 20) * UNIT
        vol = Vol("v%d" % i, "box", tuple(size), None if i == 0 else v["encl"][0] - 1, np.eye(3), T, n=float(v["n"]))
        if v["comp"]:
            vol.comps.append(SteeredComp("comp-v%d" % i, v["comp"], ALPHA, 1.0, None,
                                         [(400.0, 0.0), (500.0, 1.0), (700.0, 0.5), (800.0, 0.0)], steer=steer))
        vols.append(vol)
    w = World(vols)
    return w, w.build(), ax, steer

class SteeredComp(Comp):
    def __init__(self, *a, steer=None, **k):
        super().__init__(*a, **k); self.steer = steer
    def build(self):
        from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
        st = self.steer
        ph = lambda: st["dir"]
        if self.kind == "absorber": return Absorber(float(self.alpha), name=self.name)
        if self.kind == "reactor": return Reactor(float(self.alpha), name=self.name)
        if self.kind == "scatterer": return Scatterer(float(self.alpha), quantum_yield=1.0, phase_function=ph, name=self.name)
        return Luminophore(float(self.alpha), emission=np.array(self.emission), quantum_yield=1.0, phase_function=ph, name=self.name)

def fresnel0(n1, n2):
    return ((n1 - n2) / (n1 + n2)) ** 2

def replay_line(c, prop):
    """Every behaviour of the Line model, replayed step by step into photon_tracer."""
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    rng = random.Random(vlib.SEED * 101 + 7)
    runs = [dict(ev=6, steps=50, path=10**6), dict(ev=6, steps=2, path=10**6), dict(ev=6, steps=50, path=9)]
    if not c.quick:
        runs = [dict(ev=7, steps=50, path=10**6), dict(ev=8, steps=3, path=10**6), dict(ev=8, steps=50, path=14), dict(ev=6, steps=0, path=10**6), dict(ev=9, steps=1, path=10**6)]
    nw = 6 if c.quick else 14
    per = 1500 if c.quick else 12000
    for run in runs:
        lw = line_worlds(rng, nw)
        f = world_file(lw)
        cfg = ("INIT Init\nNEXT Next\nINVARIANT Attribution Sides Ended\nCONSTANTS\n MaxEv = %d\n MaxSteps = %d\n MaxPath = %d\n"
               % (run["ev"], run["steps"], run["path"]))
        r = vlib.tlc("Line", cfg, env={"WORLDS": f}, timeout=600)
        if r.error: raise vlib.Machinery("Line: " + r.error)
        c.states += r.distinct; c.transitions += r.states
        beh = sorted(r.verdicts, key=lambda b: json.dumps(b))
        total = len(beh)
        if len(beh) > per: beh = rng.sample(beh, per)
        scenes = {}
        kinds = {}
        for b in beh:
            wid, fin, log = b
            if wid not in scenes or rng.random() < 0.01:
                scenes[wid] = build_line(lw[wid - 1], rng.randrange(3), rng.choice([1, -1]), rng)
            for e in log: kinds[e[0]] = kinds.get(e[0], 0) + 1
            what = replay_one(lw[wid - 1], scenes[wid], log, fin, run, photon_tracer, Ray)
            if what is not None and counts(prop, what):
                c.violate("%s.behaviour_%s" % (prop, what[0]), {"world": lw[wid - 1], "behaviour": log, "budget": run, "observed": what[1]})
        c.traces += len(beh)
        c.part("replay Line", behaviours=total, replayed=len(beh), states=r.distinct, events=kinds, **run)
        c.samples.append({"behaviour": beh[0], "world": lw[beh[0][0] - 1]})

def counts(prop, what):
    """Which deviations from the model's behaviour break which property."""
    kind, d = what
    if kind == "raised": return True
    surface = ("REFLECT", "TRANSMIT")
    want, got = (d[1][0], d[2][0]) if len(d) > 2 and isinstance(d[1], list) else (None, None)
    if prop == "C01": return kind in ("event_after_terminal", "stopped_early")
    if prop == "C02": return kind in ("container", "adjacent", "hit") or (kind == "event" and "EXIT" in (want, got) and "KILL" not in (want, got))
    if prop == "C03": return kind in ("position", "travelled", "duration", "source") or (kind == "direction" and want not in surface)
    if prop == "C04": return (kind == "direction" and want in surface) or (kind == "event" and want in surface and got in surface)
    if prop == "C08": return kind == "event" and "KILL" in (want, got)
    return False

def replay_one(world, built, log, fin, run, photon_tracer, Ray):
    w, scene, ax, steer = built
    vols = world["vol"]
    off = np.array([0.11, 0.07, -0.05])
    def pos(x): 
        p = off * (1 - np.abs(ax)) + ax * (x - 20) * UNIT
        return p
    ray = Ray(position=tuple(pos(log[0][3])), direction=tuple(ax * log[0][4]), wavelength=555.0, source="lamp")
    mp = run["path"] * UNIT + (UNIT / 2)      # budgets fall between lattice lengths
    gen = photon_tracer.step_forward(scene, ray, maxsteps=run["steps"], maxpathlength=mp)
    name = lambda v: None if v == 0 else "v%d" % (v - 1)
    dur = 0.0
    for k, e in enumerate(log):
        kind, con, adj, x, d, src, path = e
        if k:
            prev = log[k - 1]
            if prev[0] != "ABSORB":
                u = 0.97
                if kind == "ABSORB": u = 1 - math.exp(-ALPHA * (path - prev[6]) * UNIT)
                elif kind == "REFLECT":
                    n1, n2 = vols[con - 1]["n"], vols[adj - 1]["n"]
                    R = fresnel0(n1, n2)
                    lo = 1 - math.exp(-ALPHA * (path - prev[6]) * UNIT) if vols[con - 1]["comp"] else 0.0
                    u = (lo + R) / 2
            steer["dir"] = tuple(ax * d)
            np.random.set_state(mt_constant(u))
        try:
            got = next(gen)
        except StopIteration:
            return "stopped_early", [k, e]
        except Exception as exc:
            return "raised", [k, e, repr(exc)]
        r, ev, meta = got
        meta = meta or {}
        obs = [ev.name, meta.get("container"), meta.get("adjacent"), meta.get("hit"), list(r.position), list(r.direction), r.travelled, r.duration, r.source]
        if ev.name != kind: return "event", [k, e, obs]
        if k and meta.get("container") != name(con): return "container", [k, e, obs]
        if kind in ("TRANSMIT", "REFLECT"):
            if meta.get("adjacent") != name(adj): return "adjacent", [k, e, obs]
            if meta.get("hit") not in (name(con), name(adj)): return "hit", [k, e, obs]
        if kind == "EXIT" and meta.get("hit") != "v0": return "hit", [k, e, obs]
        if np.linalg.norm(np.array(r.position) - pos(x)) > 1e-6: return "position", [k, e, obs]
        if np.linalg.norm(np.array(r.direction) - ax * d) > 1e-9: return "direction", [k, e, obs]
        if abs(r.travelled - path * UNIT) > 1e-6: return "travelled", [k, e, obs]
        if k:
            dur += (path - log[k - 1][6]) * UNIT * vols[con - 1]["n"] / C_CM
            if abs(r.duration - dur) > 1e-17 + 1e-9 * dur + 1e-6 / C_CM * 3: return "duration", [k, e, obs]
        if r.source != ("lamp" if src == 0 else "comp-v%d" % (src - 1)): return "source", [k, e, obs]
    if fin and log[-1][0] in ("EXIT", "KILL", "REACT", "NONRADIATIVE"):
        try:
            extra = next(gen)
            return "event_after_terminal", [len(log), str(extra[1])]
        except StopIteration:
            pass
        except Exception as exc:
            return "raised", [len(log), repr(exc)]
    return None

# ------------------------------------------------------------ recorded histories

class Corpus:
    def __init__(self): self.specs = []; self.recs = []; self.events = {}
    def add(self, rec):
        self.recs.append(rec)
        for e in rec["ev"]: self.events[e["k"]] = self.events.get(e["k"], 0) + 1

def histories(c, prop, nworlds, nray, neng, world_kw=None, steps=(3, 20, 60), events=(128, 128, 12, 5, 4, 3, 2), paths=(None,), methods=("kT", "redshift", "full"),
              tracers=("py", "engine"), script=0.75, mutate=None, seed=0, cap=400):
    rng = random.Random(vlib.SEED * 1000003 + seed)
    co = Corpus()
    from pvtrace.common.errors import TraceError   # noqa: F401  (import check only)
    for s in range(nworlds):
        w = rand_world(rng, **(world_kw or {}))
        if mutate: mutate(rng, w)
        co.specs.append(w.spec())
        if "py" in tracers:
            scene = w.build()
            for r in rand_rays(rng, w, nray):
                m = rng.choice(methods); ms = rng.choice(steps); mp = rng.choice(paths)
                hist, raised, draws = python_history(scene, r, maxsteps=ms, maxpath=mp, method=m,
                                                     script=rng if rng.random() < script else None, seed=rng.randrange(10**6))
                co.add(record(w, r, hist, s + 1, "py", ms, maxpath=mp, method=m, draw=draws, raised=raised, cap=cap))
        if "engine" in tracers:
            rays = rand_rays(rng, w, neng)
            ms = rng.choice(steps); m = rng.choice(methods); me = rng.choice(events)
            try:
                _, hs = engine_histories(w.build(rays), len(rays), rng.randrange(2**31), maxsteps=ms, max_events=me, method=m, workers=rng.choice([1, 3]))
            except Exception as exc:
                co.add(record(w, rays[0], [], s + 1, "engine", ms, room=me, method=m, raised=repr(exc)))
                continue
            for r, h in zip(rays, hs):
                co.add(record(w, r, h, s + 1, "engine", ms, room=me, method=m))
            if len(hs) != len(rays):
                c.violate(prop + ".engine_histories_missing", {"rays": len(rays), "histories": len(hs)})
    return co

def judge(c, prop, co, name="histories", only=None):
    f = world_file(co.specs)
    c.judge("PhotonTrace", co.recs, name=name, env={"WORLDS": f, "PROP": only or prop}, timeout=900, mem="8g",
            keyf=lambda rec, clause: "%s:%s" % (rec["tracer"], clause))
    c.part("corpus " + name, worlds=len(co.specs), histories=len(co.recs), events=co.events)

def bricks(rng, w):
    """Turn the inner volumes into boxes at odd angles."""
    for i, v in enumerate(w.vols):
        if i and v.shape != "box" and not any(u.holder == i for u in w.vols):
            r = v.bounding() / 1.8
            v.shape, v.size = "box", (2 * r * rng.uniform(0.4, 1), 2 * r * rng.uniform(0.4, 1), 2 * r * rng.uniform(0.4, 1))
            if v.bounding() > r * 1.8: v.size = tuple(x * 0.95 for x in v.size)

def C01(c):
    vlib.load_kernel()
    photon_model(c)
    replay_line(c, "C01")
    followed(c)
    n = 60 if c.quick else 700
    judge(c, "C01", histories(c, "C01", n, 10, 60, steps=(0, 1, 2, 5, 60), paths=(None, None, 4.0), seed=1))
    judge(c, "C01", histories(c, "C01", n // 2, 5, 60, world_kw=dict(comp_kw=dict(qys=(1.0, 0.95))), seed=2), "radiative")
    # light trapped for as long as the tracer lets it: rounding must not end a history early
    trapped = histories(c, "C01", 80 if c.quick else 1500, 3, 6, world_kw=dict(maxvol=3, null=0.0, indices=(1.7, 2.0, 3.5), comp_kw=dict(qys=(1.0,), kinds=("scatterer",), scale=0.05)),
                        steps=(1000,), events=(128,), script=0.0, seed=3, mutate=bricks, cap=1100)
    judge(c, "C01", trapped, "trapped light")
    longest = max(len(r["ev"]) for r in trapped.recs)
    c.part("trapped light", longest_history=longest, over_500=sum(len(r["ev"]) > 500 for r in trapped.recs))
    if longest < 500: raise vlib.Machinery("no long history")

def followed(c):
    """`follow` returns the same story, told without the details."""
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    rng = random.Random(vlib.SEED * 47 + 1); pairs = []
    for s in range(20 if c.quick else 200):
        w = rand_world(rng, comp_kw=dict(qys=(1.0, 0.6))); scene = w.build()
        for r in rand_rays(rng, w, 5):
            seed = rng.randrange(10**6); kw = dict(maxsteps=rng.choice([0, 1, 3, 60]), emit_method=rng.choice(["kT", "redshift", "full"]))
            mp = rng.choice([None, None, 3.0])
            hist, raised, _ = python_history(scene, r, maxsteps=kw["maxsteps"], maxpath=mp, method=kw["emit_method"], seed=seed)
            if raised: continue
            if mp is not None: kw["maxpathlength"] = mp
            np.random.seed(seed)
            told = photon_tracer.follow(scene, Ray(position=tuple(r[0]), direction=tuple(r[1]), wavelength=r[2], source="feed"), **kw)
            a = record(w, r, [(x, e, None) for x, e, _ in hist], 1, "py", 1); b = record(w, r, [(x, e, None) for x, e in told], 1, "py", 1)
            pairs.append({"a": a["ev"], "b": b["ev"], "world": w.spec()})
    c.judge("Pair", pairs, name="follow")

def C02(c):
    vlib.load_kernel()
    photon_model(c, room=[0])
    replay_line(c, "C02")
    n = 60 if c.quick else 700
    judge(c, "C02", histories(c, "C02", n, 10, 30, world_kw=dict(maxvol=9, depth=5, null=0.4), events=(128,), seed=11))
    judge(c, "C02", histories(c, "C02", n, 10, 30, world_kw=dict(maxvol=9, depth=6, null=1.0, comps=False), events=(128,), seed=12), "transparent")

def C03(c):
    vlib.load_kernel()
    replay_line(c, "C03")
    n = 70 if c.quick else 900
    judge(c, "C03", histories(c, "C03", n, 12, 30, events=(128,), seed=21))

def C04(c):
    vlib.load_kernel()
    replay_line(c, "C04")
    n = 60 if c.quick else 800
    judge(c, "C04", histories(c, "C04", n, 16, 40, world_kw=dict(comps=False, null=0.2), events=(128,), steps=(20,), seed=31))
    judge(c, "C04", histories(c, "C04", n // 2, 16, 40, world_kw=dict(comps=False, null=0.1, indices=(1.5, 1.501, 1.508, 1.49, 1.5003, 1.45)), events=(128,), steps=(20,), seed=32), "nearly equal indices")
    judge(c, "C04", histories(c, "C04", n // 4, 16, 40, world_kw=dict(comps=False, null=0.1, indices=(0.8, 0.9, 1.0, 2.5, 4.2)), events=(128,), steps=(20,), seed=33), "unusual indices")
    judge(c, "C04", critical(c), "critical incidence")
    judge(c, "C04", rim(c), "cylinder rims")
    fresnel_stats(c)

def critical(c):
    """Rays meeting a face at the critical angle, as near as a float can say it: rounding decides
    between reflection and grazing transmission, but a ray with a direction must come out."""
    rng = random.Random(vlib.SEED * 37 + 9)
    co = Corpus()
    for s in range(150 if c.quick else 1500):
        n1 = round(rng.uniform(1.05, 3.5), rng.choice([1, 2, 3])); n2 = round(rng.uniform(1.0, n1 - 0.02), rng.choice([1, 2, 3]))
        if not 1.0 <= n2 < n1: n2 = 1.0
        w = World([Vol("world", "box", (20, 20, 20), None, np.eye(3), np.zeros(3), n=1.0),
                   Vol("outer", "box", (12, 12, 12), 0, np.eye(3), np.zeros(3), n=n2),
                   Vol("inner", rng.choice(["box", "cylinder"]), (3, 3, 3), 1, np.eye(3), np.zeros(3), n=n1)])
        if w.vols[2].shape == "cylinder": w.vols[2].size = (3, 1.5)
        co.specs.append(w.spec())
        rays = []
        for face in range(3):
            for sg in (1, -1):
                for k in (None, 1.0):
                    si = n2 / n1 if k is None else float(np.nextafter(n2 / n1, k))
                    d = np.zeros(3); d[face] = sg * math.sqrt(1 - si * si); d[(face + rng.choice([1, 2])) % 3] = rng.choice([1, -1]) * si
                    if w.vols[2].shape == "cylinder" and face < 2: continue
                    o = -d * 0.25; o[face] += sg * 1.5
                    rays.append((tuple(o.tolist()), tuple(d.tolist()), 600.0))
        scene = w.build()
        for r in rays:
            hist, raised, draws = python_history(scene, r, maxsteps=1, script=rng, seed=rng.randrange(10**6))
            co.add(record(w, r, hist, s + 1, "py", 1, draw=draws, raised=raised))
        _, hs = engine_histories(w.build(rays), len(rays), rng.randrange(2**31), maxsteps=1)
        for r, h in zip(rays, hs): co.add(record(w, r, h, s + 1, "engine", 1))
        if len(hs) != len(rays): c.violate("C04.engine_histories_missing", {"rays": len(rays), "histories": len(hs)})
    return co

def rim(c):
    """Rays meeting a cylinder close to its rim: the face they meet is the one they came through."""
    rng = random.Random(vlib.SEED * 41 + 2)
    co = Corpus()
    for s in range(12 if c.quick else 150):
        length, radius = rng.uniform(14, 20), rng.uniform(2, 10)
        R = rot(rng.uniform(0, 3), rand_dir(rng)) if s % 3 else np.eye(3)
        w = World([Vol("world", "box", (60, 60, 60), None, np.eye(3), np.zeros(3), n=1.0),
                   Vol("rod", "cylinder", (length, radius), 0, R, np.array([rng.uniform(-2, 2) for _ in range(3)]), n=rng.choice([1.5, 2.0, 1.33]), surf=rng.choice(["fresnel", "fresnel", "null"]))])
        rod = w.vols[1]; co.specs.append(w.spec()); rays = []
        for k in range(24):
            phi = rng.uniform(0, 6.283); u = np.array([math.cos(phi), math.sin(phi), 0.0]); v = np.array([-u[1], u[0], 0.0]); sg = rng.choice([1, -1])
            z = np.array([0, 0, float(sg)])
            near = rng.uniform(4e-5, 0.95e-5 * length / 2) if k % 4 else rng.uniform(1e-3, 1e-2)
            if k % 3:   # through the wall
                p = u * radius + z * (length / 2 - near); out = u; t = rng.uniform(-0.4, 0.7) * z + rng.uniform(-0.4, 0.4) * v
            else:       # through the cap
                p = u * (radius - near) + z * length / 2; out = z; t = rng.uniform(-0.4, 0.7) * u + rng.uniform(-0.4, 0.4) * v
            d = t - out if k % 2 else t + out      # from outside, from inside
            if k % 2 == 0 and (out == u).all(): d = out + rng.uniform(0.0, 0.5) * z
            d = d / np.linalg.norm(d); o = p - d * 0.2
            rays.append((tuple((rod.T + R @ o).tolist()), tuple((R @ d).tolist()), 600.0))
        scene = w.build()
        for r in rays:
            hist, raised, draws = python_history(scene, r, maxsteps=1, script=rng, seed=rng.randrange(10**6))
            co.add(record(w, r, hist, s + 1, "py", 1, draw=draws, raised=raised))
        _, hs = engine_histories(w.build(rays), len(rays), rng.randrange(2**31), maxsteps=1)
        for r, h in zip(rays, hs): co.add(record(w, r, h, s + 1, "engine", 1))
        if len(hs) != len(rays): c.violate("C04.engine_histories_missing", {"rays": len(rays), "histories": len(hs)})
    return co

def C05(c):
    vlib.load_kernel()
    n = 70 if c.quick else 900
    judge(c, "C05", histories(c, "C05", n, 14, 30, world_kw=dict(null=0.5), events=(128,), seed=41, mutate=crowd))
    beer_stats(c)

def C06(c):
    vlib.load_kernel()
    photon_model(c, room=[0])
    n = 70 if c.quick else 900
    judge(c, "C06", histories(c, "C06", n, 14, 30, world_kw=dict(null=0.5, comp_kw=dict(qys=(0.0, 1.0, 0.3, 0.7, 0.02))), events=(128,), seed=51, mutate=crowd))
    fate_stats(c)

def C07(c):
    vlib.load_kernel()
    n = 70 if c.quick else 900
    judge(c, "C07", histories(c, "C07", n, 14, 40, world_kw=dict(null=0.6, comp_kw=dict(kinds=("luminophore", "luminophore", "scatterer"), qys=(1.0, 0.9), taus=False)),
                              events=(128,), seed=61, mutate=crowd))
    emission_stats(c)

def C08(c):
    vlib.load_kernel()
    photon_model(c)
    replay_line(c, "C08")
    n = 60 if c.quick else 700
    judge(c, "C08", histories(c, "C08", n, 14, 60, world_kw=dict(comp_kw=dict(qys=(1.0, 0.9))), steps=(0, 1, 2, 3, 4, 7, 30), paths=(None, 0.0, 1.0, 3.0, 7.0, 15.0),
                              events=(2, 3, 4, 5, 6, 7, 9, 40), seed=71))

def C09(c):
    vlib.load_kernel()
    rng = random.Random(vlib.SEED * 53 + 3)
    n = 60 if c.quick else 700
    # the engine's histories obey the whole contract of the Python tracer
    judge(c, "C09", histories(c, "C09", n, 0, 60, tracers=("engine",), events=(128, 128, 12), seed=81), "engine histories", only="all")
    judge(c, "C09", histories(c, "C09", n, 0, 60, tracers=("engine",), events=(128,), world_kw=dict(null=0.5), mutate=crowd, seed=82), "engine histories, crowded", only="all")
    # where nothing is left to chance both produce the same history
    pairs = []
    for s in range(n):
        w = rand_world(rng, maxvol=9, depth=5, null=1.0 if s % 2 else 0.0, comps=False, indices=(1.0, 1.5, 2.0, 3.5) if s % 2 else (1.0,))
        if s % 3 == 0:
            for v in w.vols:
                if rng.random() < 0.5: v.comps.append(Comp("k%d" % len(w.comps), rng.choice(["absorber", "reactor"]), 0.0, tau_nr=None)); w.comps.append(v.comps[-1])
        rays = rand_rays(rng, w, 25); ms = rng.choice([1, 4, 40])
        eng = run_engine(w, rays, rng.randrange(2**31), maxsteps=ms)
        scene = w.build()
        for r, h in zip(rays, eng):
            hist, raised, _ = python_history(scene, r, maxsteps=ms, seed=1)
            a = record(w, r, hist, 1, "py", ms, raised=raised); b = record(w, r, h, 1, "engine", ms)
            if raised: c.violate("C09.raised", {"exception": raised, "world": w.spec(), "ray": r})
            else: pairs.append({"a": a["ev"], "b": b["ev"], "world": w.spec()})
    # rays along rows of volumes up to the most a scene may have
    from checks_query import run_jobs      # (the Python tracer is slow here: one process each)
    jobs = [(s, sg, rng.randrange(1 << 30), 127 if s < 2 else rng.choice([100, 66, 40])) for s in range(4 if c.quick else 30) for sg in (1, -1)]
    engs = []
    for j in jobs:
        w, r, _ = row_world(*j); engs.append((w, r, run_engine(w, [r], 1, maxsteps=400, max_events=410)[0]))
    for j, (w, r, h), (ev, raised) in zip(jobs, engs, run_jobs(row_job, jobs)):
        if raised: c.violate("C09.raised", {"exception": raised, "volumes": j[3], "ray": r})
        else: pairs.append({"a": ev, "b": record(w, r, h, 1, "engine", 400)["ev"], "world": {"row": j[3], "nested": j[0] % 4 == 3}})
    c.judge("Pair", pairs, name="certain rays")
    # and where it is left to chance the outcomes are equally frequent
    recs = []
    for s in range(5 if c.quick else 30):
        w = rand_world(rng, maxvol=5, null=0.3, comp_kw=dict(qys=(0.3, 0.7, 0.9)))
        crowd(rng, w)
        ray = rand_rays(rng, w, 1)[0]; m = rng.choice(["kT", "redshift", "full"])
        ne, np_ = 20000, (500 if c.quick else 2000)
        eng = run_engine(w, [ray] * ne, rng.randrange(2**31), maxsteps=12, emit_method=m, max_events=64)
        scene = w.build(); py = []
        for k in range(np_):
            hist, raised, _ = python_history(scene, ray, maxsteps=12, method=m, seed=rng.randrange(2**31))
            if raised: c.violate("C09.raised", {"exception": raised, "world": w.spec(), "ray": ray}); break
            py.append(hist)
        fe, fp = [features(h) for h in eng], [features(h) for h in py]
        for f in sorted(set().union(*fe, *fp)):
            ke, kp = sum(f in x for x in fe), sum(f in x for x in fp)
            if ke + kp > 10: recs.append(stat("C09", "two", "frequency_of_" + f.split(":")[0], len(fp), kp, (ke, ne), feature=f))
        for name, val in (("path", lambda h: h[-1][0].travelled), ("time", lambda h: h[-1][0].duration), ("wavelength", lambda h: h[-1][0].wavelength), ("x", lambda h: h[-1][0].position[0])):
            ve = np.array([val(h) for h in eng]); vp = np.array([val(h) for h in py])
            for q in (0.2, 0.5, 0.8):
                t = np.quantile(ve, q) + 1e-9 * (1 if name != "time" else 1e-10)
                recs.append(stat("C09", "two", "distribution_of_" + name, len(vp), int((vp < t).sum()), (int((ve < t).sum()), ne)))
    stats(c, recs, "engine and Python frequencies")

def row_world(s, sg, seed, k):
    rng = random.Random(seed)
    gap = rng.uniform(0.2, 0.5); R = rand_rot(rng); nest = s % 4 == 3
    vols = [Vol("world", "sphere", (6.0 * k,), None, np.eye(3), np.zeros(3), n=1.0)]
    for q in range(k):
        shape = rng.choice(["box", "sphere", "cylinder"]); at = np.array([0, 0, (q - k / 2) * (2 + gap)])
        size = {"box": (2.0, 2.0, 2.0), "sphere": (1.0,), "cylinder": (2.0, 1.0)}[shape]
        if nest: shape, size, at = "sphere", (1.0 + (k - q) * 1.5,), np.zeros(3)
        vols.append(Vol("v%d" % q, shape, size, q if nest else 0, R, R @ at, n=1.0))
    start = sg * (-(k / 2 + 1) * (2 + gap) - 1 if not nest else rng.choice([0.0, 2.6 * k]))
    w = World(vols)
    r = (tuple((R @ np.array([rng.uniform(-0.3, 0.3), rng.uniform(-0.3, 0.3), start])).tolist()), tuple((R @ np.array([0, 0, float(sg)])).tolist()), 600.0)
    return w, r, rng

def row_job(job):
    w, r, _ = row_world(*job)
    hist, raised, _ = python_history(w.build(), r, maxsteps=400, seed=1)
    return [([] if raised else record(w, r, hist, 1, "py", 400)["ev"], raised)]

def features(h):
    out = set()
    out.add("end:%s:%s" % (h[-1][1].name, (h[-1][2] or {}).get("container")))
    if len(h) > 1: out.add("first:%s:%s" % (h[1][1].name, (h[1][2] or {}).get("hit")))
    kinds = [e[1].name for e in h]
    for k in ("EMIT", "SCATTER", "REFLECT"):
        out.add("some_%s:%d" % (k, min(kinds.count(k), 2)))
    return out

def crowd(rng, w):
    """Make absorption likely: every volume gets a component or two."""
    k = len(w.comps)
    for v in w.vols:
        if not v.comps:
            v.comps.append(rand_comp(rng, "x%d" % k, scale=0.3, qys=(1.0, 0.5))); k += 1
    w.comps = [c for v in w.vols for c in v.comps]

# ------------------------------------------------------------ statistics of the engine

def stats(c, recs, name):
    c.judge("Stats", recs, name=name)

def feed_scene(w, rays):
    return w.build(rays)

def run_engine(w, rays, seed, **kw):
    from pvtrace.engine import simulate
    res = simulate(w.build(rays), len(rays), seed=seed, workers=kw.pop("workers", 4), **kw)
    return list(res.histories())

def stat(prop, kind, what, n, k, x, **kw):
    r = {"prop": prop, "kind": kind, "what": what, "n": int(n), "k": int(k), "x": [int(round(v)) for v in x], "tab": [], "method": ""}
    r.update(kw)
    return r

def fresnel_stats(c):
    """How often the engine reflects at one surface, over many angles and index pairs."""
    rng = random.Random(vlib.SEED * 31 + 5)
    n = 4000 if c.quick else 40000
    recs = []
    cases = []
    for n1, n2 in [(1.0, 1.5), (1.5, 1.0), (1.0, 3.5), (2.0, 1.33), (1.7, 2.0), (1.4, 1.0)]:
        for a in (0.0, 0.3, 0.6, 0.9, 1.1, 1.35):
            s = n1 / n2 * math.sin(a)
            if abs(s - 1) < 0.01: continue
            cases.append((n1, n2, a, s > 1))
    for n1, n2, a, tir in cases:
        root = Vol("world", "box", (20, 20, 20), None, np.eye(3), np.zeros(3), n=1.0)
        outer = Vol("outer", "box", (12, 12, 12), 0, np.eye(3), np.zeros(3), n=n1)
        R = rot(rng.uniform(0, 3), rand_dir(rng))
        inner = Vol("inner", "box", (3, 3, 3), 1, R, np.array([0.1, 0.2, -0.1]), n=n2)
        w = World([root, outer, inner])
        phi = rng.uniform(0, 6.28)
        face = rng.randrange(3); sg = rng.choice([1, -1])
        nrm = np.zeros(3); nrm[face] = sg
        t = np.zeros(3); t[(face + 1) % 3], t[(face + 2) % 3] = math.cos(phi), math.sin(phi)
        d = -(math.cos(a) * nrm) + math.sin(a) * t
        p = nrm * 1.5 - d * 0.7
        rays = [(tuple(inner.T + R @ p), tuple(R @ d), 600.0)] * n
        hs = run_engine(w, rays, rng.randrange(2**31), maxsteps=1)
        k = sum(1 for h in hs if h[1][1].name == "REFLECT")
        ok = sum(1 for h in hs if h[1][1].name in ("REFLECT", "TRANSMIT") and h[1][2].get("hit") == "inner")
        recs.append(stat("C04", "tir" if tir else "fresnel", "reflectance", ok, k, (math.cos(a) * U, n1 * L, n2 * L)))
        if ok != n: c.violate("C04.missed_the_surface", {"n1": n1, "n2": n2, "angle": a, "hits": ok, "rays": n})
    stats(c, recs, "fresnel frequency")

def _deep_box(comps, n=1.0, R=None, size=14.0, null=True):
    R = np.eye(3) if R is None else R
    root = Vol("world", "box", (60, 60, 60), None, np.eye(3), np.zeros(3), n=1.0)
    v = Vol("slab", "sphere", (size,), 0, R, np.zeros(3), n=n, surf="null" if null else "fresnel", comps=comps)
    return World([root, v])

def beer_stats(c):
    """Depth distribution and component shares of the engine's absorptions (spheres: rays from the centre)."""
    rng = random.Random(vlib.SEED * 37 + 11)
    n = 8000 if c.quick else 60000
    recs = []
    for case in range(4 if c.quick else 12):
        comps = [Comp("a%d" % i, rng.choice(["absorber", "reactor"]), rng.choice([0.05, 0.1, 0.2, 0.4]),
                      spectrum=None if rng.random() < 0.5 else [(400, 0.4 * rng.random()), (600, 0.4 * rng.random()), (800, 0.3)]) for i in range(rng.choice([1, 2, 3]))]
        nm = rng.uniform(420, 780)
        rad = rng.choice([2.0, 4.0, 8.0])
        in_root = case % 4 == 3
        if in_root:
            root = Vol("world", "sphere", (rad,), None, np.eye(3), np.zeros(3), n=1.0, comps=comps)
            w = World([root])
        else:
            w = _deep_box(comps, n=1.5, size=rad)
        d = tuple(rand_dir(rng))
        hs = run_engine(w, [((0.0, 0.0, 0.0), d, nm)] * n, rng.randrange(2**31))
        al = [co.coefficient(nm) for co in comps]; tot = sum(al)
        depth = [h[1][0].travelled if h[1][1].name == "ABSORB" else math.inf for h in hs]
        for q in (0.25, 0.5, 0.75, 0.999):
            recs.append(stat("C05", "beer", "depth_distribution", n, sum(1 for x in depth if x < q * rad), (tot * L, q * rad * L)))
        ab = [h[1][2].get("component") for h in hs if h[1][1].name == "ABSORB"]
        for co, a in zip(comps, al):
            recs.append(stat("C05", "share", "component_share", len(ab), ab.count(co.name), (a * L, tot * L)))
    # thin matter: only the product of coefficient and depth counts, so the records carry it rescaled
    for case in range(3 if c.quick else 12):
        alpha = 10 ** (rng.uniform(0.0, 1.0) - 7 + case % 3); rad = rng.choice([0.5, 1.0, 2.0]) / alpha; scale = alpha / 0.2
        part = rng.choice([1.0, 0.25, 0.6])
        comps = [Comp("a0", "absorber", part * alpha)] + ([Comp("a1", "reactor", (1 - part) * alpha)] if part < 1 else [])
        w = World([Vol("world", "sphere", (rad,), None, np.eye(3), np.zeros(3), n=1.0, comps=comps)])
        ray = ((0.0, 0.0, 0.0), tuple(rand_dir(rng)), 600.0); scene = w.build(); m = 400 if c.quick else 2000
        for tracer, hs in (("engine", run_engine(w, [ray] * n, rng.randrange(2**31))), ("py", [python_history(scene, ray, seed=rng.randrange(2**31))[0] for _ in range(m)])):
            depth = [h[1][0].travelled if h[1][1].name == "ABSORB" else math.inf for h in hs]
            for q in (0.3, 0.999):
                recs.append(stat("C05", "beer", "depth_distribution_in_thin_matter", len(hs), sum(1 for x in depth if x < q * rad), (0.2 * L, q * rad * scale * L), tracer=tracer, alpha=str(alpha)))
    stats(c, recs, "absorption frequency")

def fate_stats(c):
    rng = random.Random(vlib.SEED * 41 + 13)
    n = 8000 if c.quick else 60000
    recs = []
    for qy, tr, tn, kind in [(0.3, None, None, "luminophore"), (0.85, None, None, "scatterer"), (1.0, 1e-9, None, "luminophore"), (0.0, None, 2e-9, "luminophore"),
                             (0.5, 2e-9, 1e-9, "luminophore"), (0.5, 1e-9, 3e-9, "scatterer"), (0.0, None, 3e-9, "absorber"), (0.0, None, None, "reactor")]:
        em = [(500, 0.0), (600, 1.0), (700, 0.0)]
        co = Comp("lum", kind, 3.0, qy, None, em if kind == "luminophore" else None, tr, tn)
        w = _deep_box([co])
        hs = run_engine(w, [((0.0, 0.0, 0.0), tuple(rand_dir(rng)), 550.0)] * n, rng.randrange(2**31), maxsteps=3)
        first = [(h[1], h[2]) for h in hs if len(h) > 2 and h[1][1].name == "ABSORB"]
        rad = [p for p in first if p[1][1].name in ("EMIT", "SCATTER")]
        non = [p for p in first if p[1][1].name in ("NONRADIATIVE", "REACT")]
        if len(rad) + len(non) != len(first): c.violate("C06.absorbed_without_outcome", {"kind": kind})
        recs.append(stat("C06", "frac", "yield_" + kind, len(first), len(rad), (co.yield_() * U,)))
        for sel, tau, what in ((rad, tr if kind == "luminophore" else None, "radiative_delay"), (non, tn, "nonradiative_delay")):
            if not sel: continue
            dt = [b[0].duration - a[0].duration for a, b in sel]
            if tau:
                for q in (0.2, 0.7, 2.0):
                    recs.append(stat("C06", "decay", what, len(dt), sum(1 for x in dt if x < q * tau), (q * 1e6, 1e6)))
            else:
                recs.append(stat("C06", "frac", what + "_absent", len(dt), sum(1 for x in dt if x == 0.0), (U,)))
    stats(c, recs, "fate frequency")

def emission_stats(c):
    rng = random.Random(vlib.SEED * 43 + 17)
    n = 8000 if c.quick else 60000
    recs = []
    for case in range(9 if c.quick else 27):
        em = [(x, 0.0 if x < 460 else rng.choice([0.0, 0.5, 1.0, 2.0])) for x in EMX]
        em[-3] = (em[-3][0], 1.0); em[-2] = (em[-2][0], 0.5)
        kind = "scatterer" if case % 3 == 2 else "luminophore"
        phase = [None, ["hg", 0.7], ["cone", 0.6], ["hg", -0.5], ["isotropic"], ["cone", 1.2]][case % 6]
        co = Comp("lum", kind, 4.0, 1.0, None, em if kind == "luminophore" else None, phase=phase)
        R = rot(rng.uniform(0.3, 3), rand_dir(rng))
        w = _deep_box([co], R=R)
        method = ["kT", "redshift", "full"][case % 3] if kind == "luminophore" else "kT"
        nm = rng.uniform(480, 700)
        hs = run_engine(w, [((0.0, 0.0, 0.0), tuple(rand_dir(rng)), nm)] * n, rng.randrange(2**31), maxsteps=1, emit_method=method)
        out = [h[2][0] for h in hs if len(h) > 2 and h[2][1].name in ("EMIT", "SCATTER")]
        m = len(out)
        tab = co.spec()["ems"]
        if kind == "luminophore":
            ws = np.array([r.wavelength for r in out])
            for x in (500, 530, 560, 590, 610, 650, 700, 740):
                recs.append(stat("C07", "emis", "wavelength_" + method, m, int((ws < x).sum()), (nm * NM, x * NM), tab=tab, method=method))
        dirs = np.array([R.T @ np.array(r.direction) for r in out])
        recs += direction_stats("C07", phase, dirs)
    stats(c, recs, "emission frequency")

def direction_stats(prop, phase, dirs):
    """Counts of local directions against the phase function's law."""
    recs = []; m = len(dirs)
    cos = dirs[:, 2]; phi = np.arctan2(dirs[:, 1], dirs[:, 0]) % (2 * math.pi)
    ph = (phase or ["isotropic"])[0]
    if ph in ("isotropic", "hg"):
        for mu in (-0.8, -0.3, 0.1, 0.5, 0.9):
            k = int((cos < mu).sum())
            if ph == "isotropic" or phase[1] == 0: recs.append(stat(prop, "iso", "isotropic_polar", m, k, (mu * U,)))
            else: recs.append(stat(prop, "hg", "henyey_greenstein_polar", m, k, (phase[1] * U, mu * U)))
    else:
        tmax = phase[1] if ph == "cone" else math.pi / 2
        for q in (0.3, 0.6, 0.9):
            k = int(((np.arccos(np.clip(cos, -1, 1)) < q * tmax)).sum())
            recs.append(stat(prop, "cone", ph + "_polar", m, k, (math.sin(q * tmax) * U, math.sin(tmax) * U)))
        recs.append(stat(prop, "frac", ph + "_inside", m, int((cos > math.cos(tmax) - 1e-9).sum()), (U,)))
    for q in (0.25, 0.5, 0.8):
        recs.append(stat(prop, "frac", ph + "_azimuth", m, int((phi < q * 2 * math.pi).sum()), (q * U,)))
    return recs

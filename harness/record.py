"""Record real histories (Python tracer and engine) as integer records for the specifications."""
import math, traceback
import numpy as np
from scenes import li, ui, v3l, v3u, NM, C_CM, innermost

def mt_constant(u):
    """MT19937 state whose next 312 doubles are all u."""
    k = int(u * 9007199254740992.0); k = max(0, min(k, 9007199254740991))
    a, b = k >> 26, k & ((1 << 26) - 1)
    wa, wb = _untemper(a << 5), _untemper(b << 6)
    return ("MT19937", np.array([wa, wb] * 312, dtype=np.uint32), 0, 0, 0.0)

def mt_sequence(us):
    """MT19937 state whose next doubles are us (then repeats the last one)."""
    key = []
    us = list(us)[:312]
    us += [us[-1]] * (312 - len(us))
    for u in us:
        k = int(u * 9007199254740992.0); k = max(0, min(k, 9007199254740991))
        key += [_untemper((k >> 26) << 5), _untemper((k & ((1 << 26) - 1)) << 6)]
    return ("MT19937", np.array(key, dtype=np.uint32), 0, 0, 0.0)

def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    t = y
    for _ in range(4): t = y ^ ((t << 7) & 0x9D2C5680)
    y = t & 0xFFFFFFFF
    t = y
    for _ in range(2): t = y ^ (t >> 11)
    return t & 0xFFFFFFFF

def clampi(x, lim=2_000_000_000):
    if isinstance(x, float) and not math.isfinite(x): return lim
    return int(max(-lim, min(lim, x)))

def event(world, nv, nc, ray, ev, meta, light):
    meta = meta or {}
    src = ray.source
    nrm = meta.get("normal")
    return {"k": ev.name if hasattr(ev, "name") else str(ev),
            "p": [clampi(x) for x in _safe(v3l, ray.position)], "d": [clampi(x) for x in _safe(v3u, ray.direction)],
            "w": clampi(_num(ray.wavelength) * NM), "t": clampi(_num(ray.travelled) * 1e6), "u": clampi(_num(ray.duration) * C_CM * 1e6),
            "s": 0 if src == light else nc.get(src, -1),
            "hit": nv.get(meta.get("hit"), 0 if meta.get("hit") is None else -1),
            "con": nv.get(meta.get("container"), 0 if meta.get("container") is None else -1),
            "adj": nv.get(meta.get("adjacent"), 0 if meta.get("adjacent") is None else -1),
            "comp": nc.get(meta.get("component"), 0 if meta.get("component") is None else -1),
            "nrm": [clampi(x) for x in _safe(v3u, nrm)] if nrm is not None else [0, 0, 0],
            "hasn": nrm is not None}

def _num(x):
    try: x = float(x)
    except Exception: return float("inf")
    return x
def _safe(f, v):
    try:
        r = f(v)
        return r if len(r) == 3 else [2_000_000_000] * 3
    except Exception:
        return [2_000_000_000] * 3

def start_of(world, p):
    i = innermost(world, p, 1e-7)
    return 0 if i is None else i + 1

def record(world, ray0, hist, sid, tracer, maxsteps, room=0, maxpath=None, method="kT", draw=None, raised="", source="feed", cap=400):
    nv, nc = world.names()
    evs = [event(world, nv, nc, r, e, m, source) for r, e, m in hist[:cap]]
    for k, e in enumerate(evs):      # path and time since the previous event
        r, q = hist[k][0], hist[max(k - 1, 0)][0]
        e["dl"] = clampi((_num(r.travelled) - _num(q.travelled)) * 1e6)
        e["du"] = clampi((_num(r.duration) - _num(q.duration)) * C_CM * 1e6)
        u = draw[k] if draw is not None else None
        e["draw"] = -1 if u is None else ui(u)
        e["tau"] = 0 if u is None else li(-math.log(1 - u))
    return {"sid": sid, "tracer": tracer, "maxsteps": maxsteps, "room": room, "maxpath": -1 if maxpath is None else li(maxpath),
            "method": method, "start": start_of(world, ray0[0]), "p0": v3l(ray0[0]), "d0": v3u(ray0[1]), "w0": int(round(ray0[2] * NM)),
            "raised": raised, "cut": len(hist) > cap, "ev": evs}

def python_history(scene, ray0, maxsteps=1000, maxpath=None, method="kT", script=None, seed=None, limit=5000):
    """Drive photon_tracer.step_forward; returns (events, raised, draws).

    With `script` (a random.Random) every number numpy draws within one step of the ray is the
    same scripted u, so the outcome of the step does not depend on how many draws the code
    makes or in which order; draws[k] is the u under which event k was produced.
    """
    from pvtrace.algorithm import photon_tracer
    from pvtrace.light.ray import Ray
    from pvtrace.light.event import Event
    ray = Ray(position=tuple(ray0[0]), direction=tuple(ray0[1]), wavelength=ray0[2], source="feed")
    if seed is not None: np.random.seed(seed)
    out = []
    kw = dict(maxsteps=maxsteps, emit_method=method)
    if maxpath is not None: kw["maxpathlength"] = maxpath
    draws = [] if script is not None else None
    u = None
    try:
        gen = photon_tracer.step_forward(scene, ray, **kw)
        while True:
            if script is not None:
                if not out or out[-1][1] is not Event.ABSORB:
                    u = script.choice([script.random(), script.random(), script.random() ** 3, 1 - script.random() ** 3])
                    u = min(max(u, 1e-6), 1 - 1e-6)
                np.random.set_state(mt_constant(u)); draws.append(u)
            try: item = next(gen)
            except StopIteration: break
            out.append(item)
            if len(out) > limit: return out, "never ends", draws
    except Exception as exc:
        return out, "%s: %s" % (type(exc).__name__, exc), draws
    return out, "", draws

def engine_histories(scene, n, seed, maxsteps=1000, max_events=128, method="kT", workers=1, record_every=1):
    from pvtrace.engine import simulate
    res = simulate(scene, n, seed=seed, workers=workers, maxsteps=maxsteps, max_events=max_events, emit_method=method, record_every=record_every)
    return res, [h for h in res.histories()]

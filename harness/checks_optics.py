"""C31: the optical formulas, line shapes, spectra and colours (Optics, OpticsTrace)."""
import math, random
import numpy as np
import vlib
from checks_query import run_jobs
from scenes import rand_rot, rot

ONE = 100000000
ANGLES = [(3, 4, 5), (4, 3, 5), (5, 12, 13), (12, 5, 13), (8, 15, 17), (15, 8, 17), (7, 24, 25), (24, 7, 25), (20, 21, 29), (21, 20, 29), (9, 40, 41), (40, 9, 41)]
K_EV = 1.380649e-23 / 1.602176634e-19

def u8(x):
    x = float(x)
    if not math.isfinite(x): return 900000000
    return int(max(-9e8, min(9e8, round(x * ONE))))

def seq(v, rng): return (tuple, list, np.array)[rng.randrange(3)]([float(x) for x in v])

def fresnel_job(job):
    from pvtrace.material.utils import fresnel_reflectivity, fresnel_refraction, specular_reflection
    pairs, seed = job
    rng = random.Random(seed); out = []
    def frame():
        if rng.random() < 0.3:
            R = np.eye(3)[rng.choice([[0, 1, 2], [1, 2, 0], [2, 0, 1]])] * 1.0
        else: R = rand_rot(rng)
        return R[0], R[1], R[2]
    def into(R, v): return [u8(np.dot(ax, np.array(v, dtype=float))) for ax in R]
    for a, b in pairs:
        (s1, c1, h1), (s2, c2, h2) = ANGLES[a - 1], ANGLES[b - 1]
        T, B, N = frame(); k = rng.choice([1.0, rng.uniform(0.5, 2.0)]) / (s1 * h2)
        n1, n2 = s2 * h1 * k, s1 * h2 * k
        d = (s1 * T + c1 * N) / h1; normal = N if rng.random() < 0.5 else -N
        out.append({"kind": "fresnel", "a": a, "b": b, "R": u8(fresnel_reflectivity(math.atan2(s1, c1), n1, n2)), "n1": str(n1), "n2": str(n2), "flipped": bool(normal is not N),
                    "bent": into((T, B, N), fresnel_refraction(seq(d, rng), seq(normal, rng), n1, n2)), "back": into((T, B, N), specular_reflection(seq(d, rng), seq(normal, rng)))})
    for _ in range(60):
        p, q = rng.randint(5, 40), rng.randint(5, 40); T, B, N = frame(); k = rng.uniform(0.02, 0.2)
        out.append({"kind": "straight", "p": p, "q": q, "R": u8(fresnel_reflectivity(0.0, p * k, q * k)), "bent": into((T, B, N), fresnel_refraction(seq(N, rng), seq(N if rng.random() < 0.5 else -N, rng), p * k, q * k))})
    for _ in range(60):
        n2 = rng.uniform(1.0, 2.0); n1 = n2 * rng.uniform(1.0005, 2.5); crit = math.asin(n2 / n1)
        eps = rng.choice([1e-9, 1e-6, 1e-3, 0.02]); past = rng.random() < 0.5
        ang = crit + eps if past else crit - eps
        if past and rng.random() < 0.3: ang = rng.uniform(crit, math.pi / 2)
        if not 0 < ang <= math.pi / 2 - 1e-9 or abs(ang - crit) < 5e-10: continue
        R = float(fresnel_reflectivity(ang, n1, n2))
        out.append({"kind": "total", "past": past, "R": ONE if R == 1.0 else min(u8(R), ONE - 1) if R < 1 else 2 * ONE, "angle": str(ang), "n1": str(n1), "n2": str(n2)})
    return out

def spectra_job(seed):
    from pvtrace.material.utils import simple_convert_spectum, thermodynamic_emission, gaussian, bandgap
    rng = random.Random(seed); out = []
    u5 = lambda v: [int(round(max(-9e8, min(9e8, float(x) * 1e5)))) if float(x) == float(x) else -900000000 for x in v]
    for _ in range(12):
        n = rng.randint(1, 8)
        x = np.array(sorted(rng.sample(range(200, 2000), n)), dtype=float) + rng.random()
        if rng.random() < 0.3: x = np.array(sorted(rng.sample(range(50, 600), n)), dtype=float) / 100      # energies
        y = np.array([float(rng.randint(0, 9)) for _ in range(n)])
        spec = np.column_stack((x, y)); keep = spec.copy()
        once = simple_convert_spectum(spec); twice = simple_convert_spectum(once)
        out.append({"kind": "convert", "x": u5(x), "x2": u5(twice[:, 0]), "product": u5(x * once[:, 0]), "y": u5(y), "y1": u5(once[:, 1]), "y2": u5(twice[:, 1]), "given": u5(keep[:, 0]) + u5(keep[:, 1]), "after": u5(spec[:, 0]) + u5(spec[:, 1])})
    for _ in range(12):
        T, mu = rng.choice([300, 300.0, rng.uniform(77, 1200)]), rng.choice([0.5, 0.0, rng.uniform(0, 1.5)])
        kw = {}
        if T == 300 and rng.random() < 0.5: T = 300
        else: kw["T"] = T
        if mu == 0.5 and rng.random() < 0.5: pass
        else: kw["mu"] = mu
        m = rng.randint(1, 6)
        n = sorted(rng.sample(range(1, 15), m), reverse=True)      # ascending wavelengths
        e = np.array([mu + k * K_EV * T * math.log(2) for k in n])
        e = e[(e > 0.05) & (e < 9)]; n = n[:0] if len(e) == 0 else [k for k in n if 0.05 < mu + k * K_EV * T * math.log(2) < 9]
        if not n: continue
        y = [rng.randint(0, 9) for _ in n]
        if not any(y): y[rng.randrange(len(y))] = 3
        lam = 6.62607015e-34 * 299792458.0 / 1.602176634e-19 * 1e9 / e
        if lam.max() > 20000: continue
        got = thermodynamic_emission(np.column_stack((lam, np.array(y, dtype=float) * rng.choice([1.0, 0.01, 20.0]))), **kw)
        out.append({"kind": "thermal", "n": n, "e": [int(round(v * 1e7)) for v in e], "y": y, "x": [int(round(v * 1e4)) for v in lam], "x2": [int(round(max(-9e8, min(9e8, float(v) * 1e4)))) if float(v) == float(v) else 0 for v in got[:, 0]], "got": [u8(v) for v in got[:, 1]], "T": str(T), "mu": str(mu)})
    for _ in range(8):
        h, c, w = rng.choice([1.0, 0.5, rng.uniform(0.01, 1.5)]), rng.uniform(300, 900), rng.uniform(5, 80)
        t = [rng.randint(-4000, 4000) for _ in range(rng.randint(1, 6))] + [0]
        x = np.array([c + v / 1000 * w for v in t])
        got = gaussian(x, h, c, w) if rng.random() < 0.7 else [gaussian(float(v), h, c, w) for v in x]
        out.append({"kind": "line", "h": u8(h), "t": t, "got": [u8(v) for v in got]})
        h = rng.choice([1.0, 4.0, 0.5]); t = [rng.choice([-1, 1]) * rng.choice([1, 40, 250]) for _ in range(4)] + [0]
        x = np.array([600.0 + v for v in t])
        got = bandgap(x, 600.0, h) if rng.random() < 0.7 else [bandgap(float(v), 600.0, h) for v in x]
        out.append({"kind": "gap", "h": u8(h), "t": t, "got": [u8(v) for v in got]})
    from pvtrace.data import lumogen_f_red_305, fluro_red
    for dye in (lumogen_f_red_305, fluro_red):
        for f in (dye.absorption, dye.emission):
            lo, hi = rng.choice([(200.0, 900.0), (300.0, 800.0), (rng.uniform(200, 300), rng.uniform(760, 900))])
            x = np.linspace(lo, hi, rng.choice([800, 1400])) if rng.random() < 0.7 else np.arange(lo, hi, 0.5)
            y = f(x); out.append({"kind": "dye", "got": [u8(v) for v in y], "name": f.__module__ + "." + f.__name__})
            if len(y) != len(x): out[-1]["got"] = [2 * ONE]
    return out

def colour_job(seed):
    from pvtrace.light.utils import wavelength_to_rgb, rgb_to_hex_int, wavelength_to_hex_int
    rng = random.Random(seed); out = []
    for w in list(range(370, 790)) + [0, 1, 200, 300, 1000, 5000]:
        v = rng.choice([w, float(w), w + rng.random() * 0.999, np.float64(w)])
        rgb = [int(q) for q in wavelength_to_rgb(v)]
        out.append({"kind": "colour", "w": w, "rgb": rgb, "hex": int(wavelength_to_hex_int(v))})
    for _ in range(100):
        rgb = [rng.choice([rng.randint(0, 255), rng.randint(-40, 300), 0, 255, 9]) for _ in range(3)]
        out.append({"kind": "packed", "rgb": rgb, "hex": int(rgb_to_hex_int(tuple(rgb)))})
    return out

def C31(c):
    import pvtrace
    rng = random.Random(vlib.SEED * 29 + 31)
    r = c.model("Optics", "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", name="Optics (every pair of angles)", timeout=300)
    pairs = sorted((int(v[0]), int(v[1])) for v in r.verdicts)
    if len(pairs) != len(ANGLES) ** 2: raise vlib.Machinery("Optics printed %d pairs" % len(pairs))
    n = 12 if c.quick else 200
    recs = run_jobs(fresnel_job, [(pairs, rng.randrange(1 << 30)) for _ in range(n)])
    c.part("surfaces", records=len(recs))
    recs += run_jobs(spectra_job, [rng.randrange(1 << 30) for _ in range(2 * n)]) + run_jobs(colour_job, [rng.randrange(1 << 30) for _ in range(n // 3)])
    kinds = {}
    for x in recs: kinds[x["kind"]] = kinds.get(x["kind"], 0) + 1
    c.part("formulas", **kinds)
    if min(kinds.get(k, 0) for k in ("fresnel", "straight", "total", "convert", "thermal", "line", "gap", "dye", "colour", "packed")) < 20: raise vlib.Machinery("too few records: %s" % kinds)
    for i in range(0, len(recs), 20000):
        c.judge("OpticsTrace", recs[i:i + 20000], workers=1, mem="8g", timeout=800)

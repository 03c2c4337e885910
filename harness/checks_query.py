"""C15, C16: the database commands (QueryDef, MCQuery, Query)."""
import collections, io, json, os, random, re, sqlite3, multiprocessing
import numpy as np
import vlib
from scenes import *

CMDS = ["reflected", "entering", "escaping", "lost", "reacted", "killed"]
SURF = CMDS[:3]
NS = 100_000_000

# ------------------------------------------------------------------ databases

def insert(path, rows):
    """Write rows (dicts with t kind hit adj cont facet normal src wl dur) into a database of the shipped schema."""
    from pvtrace.cli import main as cli
    cli.prepare_database(path)
    con = sqlite3.connect(path)
    for r in rows:
        cur = con.execute("INSERT INTO ray (throw_id, x, y, z, i, j, k, wavelength, source, travelled, duration) VALUES (?,?,?,?,?,?,?,?,?,?,?)",
                          (r["t"], 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, r["wl"], r["src"], 1.0, r["dur"]))
        n = r["normal"] or (None, None, None)
        con.execute("INSERT INTO event (ray_id, kind, component, hit, container, adjacent, facet, ni, nj, nk) VALUES (?,?,?,?,?,?,?,?,?,?)",
                    (cur.lastrowid, r["kind"], None, r["hit"], r["cont"], r["adj"], r["facet"], *n))
    con.commit(); con.close()

def fetch(path):
    """All rows of a database, in order, by our own reading of the tables."""
    con = sqlite3.connect(path)
    cur = con.execute("SELECT r.throw_id, e.kind, e.hit, e.adjacent, e.container, e.facet, e.ni, e.nj, e.nk, r.source, r.wavelength, r.duration "
                      "FROM ray r, event e WHERE e.ray_id = r.rowid ORDER BY r.rowid")
    rows = [dict(t=x[0], kind=x[1], hit=x[2], adj=x[3], cont=x[4], facet=x[5], normal=None if x[6] is None else tuple(x[6:9]), src=x[9], wl=x[10], dur=x[11]) for x in cur]
    con.close()
    return rows

class Ids:
    """Small numbers for doubles (and back)."""
    def __init__(self): self.d = {}
    def __call__(self, v):
        return self.d.setdefault(float(v), len(self.d) + 1)

def spec_rows(rows, ids):
    s = lambda x: "" if x is None else str(x)
    return [{"t": r["t"], "kind": r["kind"], "hit": s(r["hit"]), "adj": s(r["adj"]), "cont": s(r["cont"]), "facet": s(r["facet"]),
             "hasn": r["normal"] is not None, "n": [int(round(x * NS)) for x in (r["normal"] or (0, 0, 0))],
             "src": s(r["src"]), "wl": ids(r["wl"]), "dur": ids(r["dur"])} for r in rows]

# ------------------------------------------------------------------ asking

_runner = None
def ask(args):
    global _runner
    from typer.testing import CliRunner
    from pvtrace.cli import main as cli
    if _runner is None: _runner = CliRunner()
    r = _runner.invoke(cli.app, args, catch_exceptions=True)
    return r.exit_code, r.stdout, ("" if r.exception is None or isinstance(r.exception, SystemExit) and not r.exit_code else repr(r.exception))

def options(q):
    out = []
    if q["cmd"] in SURF:
        for ax, v in zip("xyz", q["n"]):
            if v is not None: out += ["--n%s=%r" % (ax, v)]
        if q["facet"]: out += ["--facet", q["facet"]]
        if q["atol"] is not None: out += ["--atol", repr(q["atol"])]
    if q["source"]: out += ["--source", q["source"]]
    return out

def pairs_csv(text):
    out = []
    for line in text.strip().splitlines()[1:]:
        if line.strip():
            t, v = line.split(","); out.append((int(float(t)), float(v)))
    return out

def pairs_json(text):
    """Any of the usual shapes of a one-column frame."""
    if not text.strip(): return []
    d = json.loads(text)
    if isinstance(d, dict) and "data" in d and "index" in d:
        return [(int(i), float(v[0] if isinstance(v, list) else v)) for i, v in zip(d["index"], d["data"])]
    if isinstance(d, dict) and "data" in d: d = d["data"]
    if isinstance(d, list):
        return [(int(x.get("index", x.get("throw_id"))), float([v for k, v in x.items() if k not in ("index", "throw_id")][0])) for x in d]
    cols = list(d)
    if "throw_id" in cols:
        o = [k for k in cols if k != "throw_id"][0]
        return [(int(a), float(b)) for a, b in zip(d["throw_id"], d[o])]
    return [(int(k), float(v)) for k, v in d[cols[0]].items()]

BAR = re.compile(r"^\s*([+-]?\d\.\d+e[+-]\d+)\s+-\s+([+-]?\d\.\d+e[+-]\d+)\s+\[\s*(\d+)\]", re.M)

def answers(db, q, ids, forms):
    """Ask the count, spectrum and time commands of database `db`."""
    node = q["node"]
    code, text, exc = ask(["count", q["cmd"], node, db] + options(q))
    counted = code == 0 and text.strip().isdigit()
    out = {"q": {"cmd": q["cmd"], "node": node, "n": [[v is not None, int(round((v or 0) * NS))] for v in q["n"]],
                 "atol": int(round((1e-6 if q["atol"] is None else q["atol"]) * NS)), "facet": q["facet"] or "", "source": q["source"] or ""},
           "counted": True, "count": int(text) if counted else -1, "ans": []}
    for what in ("spectrum", "time"):
        a = {"what": what, "exits": "", "json": [], "bins": [], "pos": [], "half": 0, "vert": False}
        code, text, exc = ask([what, q["cmd"], node, db, "--output", "csv"] + options(q))
        a["listed"] = code == 0
        vals = []
        try: vals = pairs_csv(text) if code == 0 else []
        except Exception: a["listed"] = False
        if not a["listed"]: a["exits"] = "csv"
        a["csv"] = [[t, ids(v)] for t, v in vals]
        if forms:
            code, text, exc = ask([what, q["cmd"], node, db, "--output", "json"] + options(q))
            try: js = pairs_json(text) if code == 0 else None
            except Exception: js = None
            if js is None: a["exits"] = a["exits"] or "json"
            # a listing in JSON may round to 15 significant digits
            near = {"%.15g" % v: v for _, v in vals}; known = {v for _, v in vals}
            a["json"] = [[t, ids(v if v in known else near.get("%.15g" % v, v))] for t, v in (js or [])]
            code, text, exc = ask([what, q["cmd"], node, db] + options(q) + (["--output", "plot"] if q["plot"] else []))
            if code: a["exits"] = a["exits"] or "plot"
            bars = BAR.findall(text)
            edges = [float(x) for b in bars for x in b[:2]]
            unit = max([abs(x) for x in edges] + [abs(v) for _, v in vals] + [1e-300]) / 1e9
            a["bins"] = [{"lo": int(round(float(b[0]) / unit)), "hi": int(round(float(b[1]) / unit)), "number": int(b[2])} for b in bars]
            half = 0.0
            for b in bars:
                for x in b[:2]:
                    m = re.match(r"[+-]?\d\.(\d+)e([+-]\d+)", x)
                    if float(x): half = max(half, 0.5 * 10.0 ** (int(m.group(2)) - len(m.group(1))))
            a["half"] = int(half / unit) + 2
            a["pos"] = [int(round(v / unit)) for _, v in vals] if bars else []
            code, text, exc = ask([what, q["cmd"], node, db, "--vertical"] + options(q))
            if code: a["exits"] = a["exits"] or "vertical"
            a["vert"] = any(ch in text for ch in "▁▂▃▄▅▆▇█")
        out["ans"].append(a)
    return out

# ------------------------------------------------------------------ queries

def exactly(rows, q):
    """Is no row's normal too near the edge of the tolerance to tell?  (Exact binary fractions are always told.)"""
    at = 1e-6 if q["atol"] is None else q["atol"]
    for a in range(3):
        v = q["n"][a]
        if v is None: continue
        for r in rows:
            if r["normal"] is not None:
                x = r["normal"][a]
                if abs(abs(v - x) - at) < 3e-8 and not all(float(y * 64).is_integer() for y in (v, x, at)): return False
    return True

def rand_query(rng, rows, cmd=None, hit=True):
    """A query; mostly one that some row answers."""
    surf = [r for r in rows if r["kind"] in ("REFLECT", "TRANSMIT")]
    nodes = sorted({x for r in rows for x in (r["hit"], r["adj"], r["cont"]) if x})
    srcs = sorted({r["src"] for r in rows if r["src"]}); facets = sorted({r["facet"] for r in rows if r["facet"]})
    cmd = cmd or rng.choice(CMDS)
    kind = {"reflected": "REFLECT", "entering": "TRANSMIT", "escaping": "TRANSMIT", "lost": "NONRADIATIVE", "reacted": "REACT", "killed": "KILL"}[cmd]
    good = [r for r in rows if r["kind"] == kind and (r["cont"] if cmd not in SURF else (r["hit"] and r["hit"] == (r["cont"] if cmd == "escaping" else r["adj"])))]
    q = {"cmd": cmd, "node": rng.choice(nodes or ["a"]), "n": [None] * 3, "atol": None, "facet": None, "source": None, "plot": rng.random() < 0.5}
    r = rng.choice(good) if good and hit else None
    if r: q["node"] = r["cont"] if cmd not in SURF else r["hit"]
    base = r or (rng.choice(surf) if surf else None)
    if cmd in SURF and rng.random() < 0.65 and base and base["normal"]:
        for a in range(3):
            if rng.random() < 0.5: q["n"][a] = rng.choice([base["normal"][a], base["normal"][a], base["normal"][a], round(base["normal"][a], 1), 0.0, -base["normal"][a], 1.0]) + 0.0
        q["atol"] = rng.choice([None, None, 1e-6, 0.0, 0.1, 0.25, 0.5, 1e-3, 1.0])
    if cmd in SURF and rng.random() < 0.2 and facets: q["facet"] = rng.choice(facets)
    if rng.random() < 0.4 and srcs: q["source"] = rng.choice([base["src"] if base else srcs[0], rng.choice(srcs)])
    return q

# ------------------------------------------------------------------ jobs (one process each)

def small_job(job):
    """A database enumerated by MCQuery, every command on both nodes."""
    n, code, seed, forms, prop = job
    rng = random.Random(seed)
    wl = {1: 400.25, 2: 555.0}; du = {1: 1.1e-10, 2: 2.7e-10, 3: 4.5e-9, 4: 1e-3}
    z = lambda x: x or None
    rows = [dict(t=r[0] - 1, kind=r[1], hit=z(r[2]), adj=z(r[3]), cont=z(r[4]), facet=z(r[5]), normal=(float(r[7]), 0.0, 0.0) if r[6] else None,
                 src=r[8], wl=wl[r[9]], dur=du[r[10]]) for r in code]
    db = os.path.join(vlib.scratch(), "m%d.sqlite3" % n)
    insert(db, rows)
    ids = Ids()
    spec = spec_rows(rows, ids)
    asked = []
    for cmd in CMDS:
        for node in ("a", "b", "world"):
            q = {"cmd": cmd, "node": node, "n": [None] * 3, "atol": None, "facet": None, "source": None, "plot": rng.random() < 0.5}
            if cmd in SURF and rng.random() < 0.5: q["n"][0] = float(rng.choice([0, 1])); q["atol"] = rng.choice([None, 1.0, 0.5])
            if cmd in SURF and rng.random() < 0.25: q["facet"] = rng.choice("fg")
            if rng.random() < 0.3: q["source"] = rng.choice("sr")
            if exactly(rows, q): asked.append(answers(db, q, ids, forms))
    os.unlink(db)
    return [{"prop": prop, "exact": True, "rows": spec, "asked": asked}]

def synth_job(job):
    """A random database of the shipped schema: many rows per throw, values of every size."""
    n, seed, forms, prop, nq = job
    rng = random.Random(seed)
    nodes = ["world", "a", "box one", "a-b", "x'y", "node_4"]
    wls = rng.choice([[400.25, 555.0], [500.0 + rng.random() * 100 for _ in range(30)], [600.0], [0.1 + 1e-13, 1.0, 1e6]])
    dus = rng.choice([[1.1e-10, 1.1000000000000002e-10], [rng.random() * 1e-8 for _ in range(40)], [3e-10], [0.0, 1e-15, 5e-3]])
    lat = rng.choice([[0.0, 1.0, -1.0], [x / 64 for x in range(-64, 65)], [rng.uniform(-1, 1) for _ in range(9)], [0.6, 0.8, -0.6]])
    rows = []
    for t in range(rng.choice([1, 2, 5, 12])):
        for _ in range(rng.randint(1, 12)):
            kind = rng.choice(["GENERATE", "REFLECT", "TRANSMIT", "TRANSMIT", "ABSORB", "SCATTER", "EMIT", "EXIT", "REACT", "NONRADIATIVE", "KILL"])
            s = kind in ("REFLECT", "TRANSMIT")
            w, u, v = rng.choice(nodes), rng.choice(nodes), rng.choice(nodes)
            rows.append(dict(t=t, kind=kind, hit=w if s or kind == "EXIT" else None, adj=rng.choice([w, u]) if s else None, cont=rng.choice([w, v]) if kind != "GENERATE" else None,
                             facet=rng.choice([None, "top", "left side", "x'"]) if s else None, normal=tuple(rng.choice(lat) for _ in range(3)) if s else None,
                             src=rng.choice(["lamp", "dye", "A b"]), wl=rng.choice(wls), dur=rng.choice(dus)))
    db = os.path.join(vlib.scratch(), "y%d.sqlite3" % n)
    insert(db, rows)
    ids = Ids(); spec = spec_rows(rows, ids)
    asked = []
    for _ in range(nq):
        q = rand_query(rng, rows, hit=rng.random() < 0.85)
        if exactly(rows, q): asked.append(answers(db, q, ids, forms))
    os.unlink(db)
    return [{"prop": prop, "exact": True, "rows": spec, "asked": asked}]

def scene_job(job):
    """A real simulation stored twice from one seed, in full and end rays only; the same queries of both."""
    n, seed, forms, prop, nq = job
    from pvtrace.scene import scene as S
    from checks_sim import ListQueue, run_monitor
    rng = random.Random(seed)
    world = rand_world(rng, maxvol=5)
    if rng.random() < 0.5:       # strong dyes and losses, so that throws interact repeatedly
        for i, v in enumerate(world.vols):
            if i and not v.comps: v.comps.append(rand_comp(rng, "d%d" % i, scale=2.0)); world.comps.append(v.comps[-1])
    nr = rng.choice([12, 30])
    rays = rand_rays(rng, world, nr, lo=480)
    stores = {}
    for end in (False, True):
        q = ListQueue()
        S.do_simulation_add_to_queue(world.build(rays=rays), nr, seed % 100000, q, end)
        path = os.path.join(vlib.scratch(), "r%d-%d.sqlite3" % (n, end))
        _, err = run_monitor(path, q.items)
        if err: return [{"raised": err}]
        stores[end] = (path, q.items)
    ids = Ids()
    rows = fetch(stores[False][0]); spec = spec_rows(rows, ids)
    recs = {e: {"prop": prop, "exact": not e, "rows": spec, "asked": []} for e in (False, True)}
    for k in range(nq):
        q = rand_query(rng, rows, cmd=CMDS[k % 6] if k < 6 else None, hit=rng.random() < 0.9)
        if not exactly(rows, q): continue
        for e in ((False, True) if prop == "C15" else (bool(k % 2),)):
            recs[e]["asked"].append(answers(stores[e][0], q, ids, forms))
    for path, _ in stores.values(): os.unlink(path)
    return list(recs.values())

def _guarded(job):
    fn, arg = job
    try: return ("ok", fn(arg))
    except vlib.Machinery as e: return ("machinery", str(e))
    except Exception as e:
        import traceback
        return ("repo" if vlib.through_repo(e) else "machinery", traceback.format_exc()[-6000:])

def run_jobs(fn, jobs):
    """In worker processes (forked, so each uses this process's imports)."""
    ctx = multiprocessing.get_context("fork")
    out = []
    with ctx.Pool(min(vlib.CORES, max(1, len(jobs)))) as pool:
        for kind, r in pool.imap(_guarded, [(fn, j) for j in jobs], chunksize=1):
            if kind == "repo": raise vlib.RepoRaised(r)
            if kind == "machinery": raise vlib.Machinery(r)
            out += r
    return out

def query(c, prop):
    forms = prop == "C16"
    rng = random.Random(vlib.SEED * 31 + (15 if prop == "C15" else 16))
    import pvtrace.cli.main, typer.testing, pandas   # once, before forking
    r = c.model("MCQuery", "INIT Init\nNEXT Next\nINVARIANT Inv2\nCONSTANTS\n Rows = 2\n Emit = TRUE\n NThrows = %d\n" % (2 if c.quick else 3), timeout=600, mem="6g")
    two = sorted((v[0] for v in r.verdicts), key=str)
    if len(two) < 10000: raise vlib.Machinery("MCQuery printed only %d databases" % len(two))
    picks = []
    n2 = (24 if forms else 50) if c.quick else (700 if forms else 2500)
    for k in range(n2):      # databases of four rows: two enumerated pairs; and pairs alone
        picks.append(rng.choice(two) + rng.choice(two) if k % 2 else rng.choice(two))
    recs = run_jobs(small_job, [(k, d, rng.randrange(1 << 30), forms, prop) for k, d in enumerate(picks)])
    c.part("MCQuery databases", enumerated=len(two), built=len(picks))
    ns = (16 if forms else 40) if c.quick else (300 if forms else 600)
    recs += run_jobs(synth_job, [(k, rng.randrange(1 << 30), forms, prop, 8 if c.quick else 16) for k in range(ns)])
    nr = (10 if forms else 24) if c.quick else (120 if forms else 240)
    recs += run_jobs(scene_job, [(k, rng.randrange(1 << 30), forms, prop, 10 if c.quick else 20) for k in range(nr)])
    for x in recs:
        if "raised" in x: raise vlib.Machinery("could not store a simulation: " + x["raised"])
    recs = [x for x in recs if x["asked"]]
    nq = sum(len(x["asked"]) for x in recs)
    pos = sum(1 for x in recs for a in x["asked"] if a["count"] > 0)
    c.judge("Query", recs, timeout=800, mem="8g")
    c.part("queries", asked=nq, answered=pos, kinds=dict(collections.Counter(a["q"]["cmd"] for x in recs for a in x["asked"] if a["count"] > 0)))
    if pos < nq // 8: raise vlib.Machinery("too few queries match anything")

def C15(c): query(c, "C15")
def C16(c): query(c, "C16")

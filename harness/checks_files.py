"""C32: what the commands do to files, and what the live view shows (Files, FilesTrace)."""
import hashlib, multiprocessing, os, random, shutil, signal, sqlite3, tempfile
import vlib
from checks_query import run_jobs

YML = """version: "1.0"
nodes:
  world:
    sphere:
      radius: 10.0
      material:
        refractive-index: 1.0
  ball:
    parent: world
    sphere:
      radius: 1.0
      material:
        refractive-index: 1.5
  lamp:
    parent: world
    location: [0.1, 0.0, -3.0]
    light:
      mask:
        wavelength:
          nanometers: 555
        direction:
          cone:
            half-angle: 10.0
"""
BAD = [YML.replace("radius: 1.0", "radius: [1.0"), YML.replace('version: "1.0"\n', ""), YML.replace("sphere:", "shpere:", 1), "", "just text\n"]
OTHER = b"notes of mine, not a database\n" * 40

class View:
    """Stands in for the renderer."""
    made = []
    def __init__(self, *a, **k):
        self.log = []; View.made.append(self); outer = self
        class Vis:
            def open(self): outer.log.append(("open",))
        self.vis = Vis()
    def remove(self, scene): self.log.append(("remove",))
    def render(self, scene): self.log.append(("scene", len(scene.root.descendants)))
    def add_history(self, history, *a, **k):
        self.log.append(("history", [point(r, e) for r, e in [(x[0], x[1]) for x in history]]))

def point(ray, event):
    return tuple(float(v) for v in ray.position) + tuple(float(v) for v in ray.direction) + (float(ray.wavelength), str(ray.source), float(ray.travelled), float(ray.duration), event.name)

def look(folder, db):
    """Digest of every file, and the throws of the database in order with their points."""
    files = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f); files[os.path.relpath(p, folder)] = hashlib.sha256(open(p, "rb").read()).hexdigest()
    if not os.path.exists(db): return files, "none", 0, []
    if open(db, "rb").read() == OTHER: return files, "other", 0, []
    try:
        con = sqlite3.connect("file:%s?mode=ro&immutable=1" % db, uri=True)
        rows = con.execute("SELECT throw_id, x, y, z, i, j, k, wavelength, source, travelled, duration, kind FROM ray INNER JOIN event ON ray.rowid = event.ray_id ORDER BY ray.rowid").fetchall()
        con.close()
    except sqlite3.Error as e: return files, "unreadable", 0, []
    by = {}
    for r in rows: by.setdefault(r[0], []).append(tuple(float(v) for v in r[1:8]) + (str(r[8]), float(r[9]), float(r[10]), r[11]))
    return files, "run", len(by), [by[k] for k in by]

class Hung(Exception): pass

def hung(*a): raise Hung("no end after 45 s")

def stuck(r, mark):
    if not isinstance(r.exception, Hung): return
    open(mark, "w").close()
    for p in multiprocessing.active_children(): p.kill()

def session(job):
    import typer.testing
    from pvtrace.cli import main as cli
    multiprocessing.current_process()._config["daemon"] = False
    cli.MeshcatRenderer = View
    runner = typer.testing.CliRunner(); out = []
    seed, behaviours = job
    rng = random.Random(seed); mark = os.path.join(vlib.scratch(), "hung"); signal.signal(signal.SIGALRM, hung)
    for log in behaviours:
        if os.path.exists(mark): break
        home = tempfile.mkdtemp(prefix="f", dir=vlib.scratch())
        name = rng.choice(["scene.yml", "my scene.yml", "a.b.yml", "scene.yaml"])
        yml, db = os.path.join(home, name), os.path.join(home, os.path.splitext(name)[0] + ".sqlite3")
        open(os.path.join(home, "spectrum.csv"), "w").write("1,2\n"); os.mkdir(os.path.join(home, "sub")); open(os.path.join(home, "sub", "scene.sqlite3"), "w").write("other")
        for extra in ("scene.sqlite", os.path.splitext(name)[0] + ".sqlite3.bak"): open(os.path.join(home, extra), "w").write("kept")
        def put_scene(s):
            if s == "gone":
                if os.path.exists(yml): os.unlink(yml)
            else: open(yml, "w").write(YML if s == "good" else rng.choice(BAD))
        def put_db(b):
            if os.path.exists(db): os.unlink(db)
            if b == "other": open(db, "wb").write(OTHER)
            elif b != "none":
                good = os.path.join(home, "tmp.yml"); open(good, "w").write(YML)
                signal.alarm(45)
                try: r = runner.invoke(cli.app, ["simulate", good, "-r", b[3:], "-w", "1"])
                finally: signal.alarm(0)
                stuck(r, mark)
                if not os.path.exists(good[:-4] + ".sqlite3"): raise vlib.RepoRaised("C32: simulating for a first database: %s %r" % (r.stdout, r.exception))
                os.unlink(good); os.rename(good[:-4] + ".sqlite3", db)
        (scene, base), steps = log[0], []
        put_scene(scene); put_db(base)
        for c, _, _ in log[1:]:
            before = look(home, db); del View.made[:]
            s = {"c": c, "ok": True, "every": 0}
            if c[0] == "edit": put_scene(c[1])
            elif c[0] == "put": put_db(c[1])
            else:
                answer = {"y": rng.choice(["y\n", "Y\n", "yes\n"]), "n": rng.choice(["n\n", "no\n", "N\n"]), "return": "\n", "end": ""}.get(c[2], "")
                if c[0] == "simulate":
                    n = int(c[3][3:]); args = ["simulate", yml, "-r", str(n), "-w", str(rng.choice([1, 1, 1, 4 if n < 4 else 1]))]
                    if c[1] == "told": args.append("--overwrite")
                    if rng.random() < 0.3: args.append("--end-rays")
                    if c[4] == "viewed":
                        s["every"] = rng.choice([1, 1, 2, 10]); args += ["--zmq", "tcp://127.0.0.1:6000", "--render-every", str(s["every"]), "--render-max", str(rng.choice([1, 5]))]
                elif c[0] == "query":
                    args = [c[1]] + rng.choice([["escaping", "ball"], ["entering", "ball"], ["reflected", "ball"], ["lost", "ball"]]) + [db]
                    if c[1] != "count": args += ["--output", rng.choice(["csv", "json", "plot"])]
                else: args = ["show", "tcp://127.0.0.1:6000", yml]
                signal.alarm(45)
                try: r = runner.invoke(cli.app, args, input=answer)
                finally: signal.alarm(0)
                stuck(r, mark)
                s["ok"] = r.exit_code == 0; s["args"] = [a.replace(home, "~") for a in args[1:]]; s["said"] = (r.stdout or "")[-200:] + (" %r" % r.exception if r.exception else "")
                if s["ok"] and c[0] == "simulate": s["ok"] = "OK" in r.stdout
            after = look(home, db); dbn, ymln = os.path.relpath(db, home), os.path.relpath(yml, home)
            part = lambda files: {k: v for k, v in files.items() if k not in (dbn, ymln)}
            calls = [x for v in View.made for x in v.log]; hist = [x[1] for x in calls if x[0] == "history"]
            kinds = [x[0] for x in calls]
            whole = [[p for p in t] for t in after[3]]
            s.update(kind=after[1], throws=after[2], same=before[0].get(dbn, "") == after[0].get(dbn, ""), scene=before[0].get(ymln) == after[0].get(ymln), others=part(before[0]) == part(after[0]),
                     opened=kinds.count("open"), scenes=sum(1 for x in calls if x == ("scene", 2)), drawn=[whole.index(h) + 1 if h in whole else 0 for h in hist],
                     early="history" in kinds and kinds.index("history") < kinds.index("scene") if "scene" in kinds else bool(hist))
            steps.append(s)
        out.append({"scene": scene, "db": base, "steps": steps}); shutil.rmtree(home)
    for p in multiprocessing.active_children(): p.kill()      # a manager the last command has left
    return out

CFG = "INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxSteps = %d\n Sampled = %s\n"

def C32(c):
    import pvtrace.cli.main, typer.testing, pandas
    rng = random.Random(vlib.SEED * 17 + 32)
    r = c.model("Files", CFG % (1, "FALSE"), name="Files (every command in every state)", timeout=300)
    one = sorted((v[0] for v in r.verdicts), key=str)
    if len(one) < 700: raise vlib.Machinery("Files printed %d behaviours" % len(one))
    if not c.quick: c.model("Files", CFG % (2, "TRUE"), name="Files (every two steps)", timeout=600, mem="8g")
    r = c.model("Files", CFG % (5, "TRUE"), name="Files (sequences)", workers=1, timeout=300, extra=["-simulate", "num=%d" % (80 if c.quick else 1200), "-depth", "8", "-seed", str(vlib.SEED + 32)])
    many = sorted((v[0] for v in r.verdicts), key=str)
    if len(many) < 40: raise vlib.Machinery("Files printed %d sequences" % len(many))
    rng.shuffle(one)
    # a good scene with something in the way first: the cases a user can lose by
    one.sort(key=lambda b: not (b[0][0] == "good" and b[1][0][0] == "simulate" and b[0][1] != "none"))
    todo = one[:330] if c.quick else one * 3
    if c.quick: todo += rng.sample(one[330:], 150)
    todo += many
    jobs = [(rng.randrange(1 << 30), todo[k::64]) for k in range(64)]
    recs = run_jobs(session, jobs)
    cmds = {}
    for x in recs:
        for s in x["steps"]: k = s["c"][0] + ("" if s["ok"] else "-failed"); cmds[k] = cmds.get(k, 0) + 1
    c.part("sessions", behaviours=len(todo), commands=cmds, drawn=sum(len(s["drawn"]) for x in recs for s in x["steps"]))
    c.judge("FilesTrace", recs, workers=1, mem="6g", timeout=600)

"""Child process (under the crash shim): stores prepared queue items with the real monitor,
dying at a chosen system call.  argv: items.pickle outdir jobs.json"""
import ctypes, json, os, pickle, sys
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib")]
import vlib
vlib.use_repo()
import sqlite3
from pvtrace.cli import main as cli
items = pickle.load(open(sys.argv[1], "rb")); outdir = sys.argv[2]; jobs = json.load(open(sys.argv[3]))
shim = ctypes.CDLL(os.environ["LD_PRELOAD"].split(":")[0])
shim.crash_count.restype = ctypes.c_long
from queue import Empty
import threading

class Feed:
    """A queue holding the items; the run is over when it is empty."""
    def __init__(self, items): self.i = 0; self.items = items
    def empty(self): return self.i >= len(self.items)
    def get(self, *a, **k):
        if self.empty(): raise Empty()
        self.i += 1
        return self.items[self.i - 1]
    get_nowait = get
    def qsize(self): return len(self.items) - self.i

class Progress:
    def update(self, n): pass

def go(job):
    k, mode, m = job
    db = os.path.join(outdir, "run-%d-%d-%d.sqlite3" % (k, mode, m))
    cli.prepare_database(db)
    ack = os.open(db + ".ack", os.O_WRONLY | os.O_CREAT)
    feed = Feed(items[:m])
    class Conn(sqlite3.Connection):
        def commit(self):
            super().commit()
            os.write(ack, b"%8d" % feed.i)     # everything taken so far has been reported stored
    real = sqlite3.connect
    def connect(*a, **kw):
        kw["factory"] = Conn
        return real(*a, **kw)
    sqlite3.connect = connect
    stop = threading.Event(); stop.set()
    shim.crash_arm(k, mode)
    cli.monitor_queue(db, feed, stop, Progress(), None, None, True, 10, 1)
    n = shim.crash_count(); shim.crash_disarm()
    open(db + ".count", "w").write(str(n))

for job in jobs:
    pid = os.fork()
    if pid == 0:
        rc = 3
        try: go(job); rc = 0
        except BaseException as exc:
            sys.stderr.write(repr(exc) + "\n")
        finally: os._exit(rc)
    _, st = os.waitpid(pid, 0)
    print(json.dumps([job, os.waitstatus_to_exitcode(st)]), flush=True)

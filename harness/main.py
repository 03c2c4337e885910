"""Entry point: main.py <property> <tier>.  Exit 0 held, 1 violated, 2 machinery failure."""
import os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "lib")]
sys.dont_write_bytecode = True
import vlib

MODULES = {"checks_trace": ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09"],
           "checks_engine": ["C10", "C11", "C20"],
           "checks_sim": ["C12", "C13", "C14"],
           "checks_query": ["C15", "C16"],
           "checks_parse": ["C17"],
           "checks_geom": ["C18", "C19"],
           "checks_studio": ["C21", "C22", "C23", "C24"],
           "checks_lsc": ["C25"], "checks_sample": ["C26", "C28"], "checks_render": ["C27"], "checks_mesh": ["C29"], "checks_custom": ["C30"], "checks_optics": ["C31"], "checks_files": ["C32"]}

def main():
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    modname = next((m for m, ps in MODULES.items() if prop in ps), None)
    if modname is None:
        print("unknown property", prop); return 2
    c = vlib.Check(prop, tier)
    os.chdir(vlib.scratch())
    try:
        vlib.use_repo()
        mod = __import__(modname)
        getattr(mod, prop)(c)
    except vlib.RepoRaised as e:
        c.violate(prop + ".raised", {"traceback": str(e)}); print(e)
    except vlib.Machinery as e:
        if not c.violations:
            print("MACHINERY: %s" % e); return 2
        print("(after a violation) MACHINERY: %s" % e)
    except vlib.BuildError as e:
        print("MACHINERY: %s" % e); return 2
    except Exception as e:
        text = traceback.format_exc()
        if vlib.through_repo(e):
            c.violate(prop + ".raised", {"exception": repr(e), "traceback": text})
            print(text)
        else:
            print("MACHINERY:\n" + text)
            if not c.violations: return 2
    return c.finish()

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os.chdir("/")
    sys.exit(rc)

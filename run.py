#!/usr/bin/env python3
"""run.py <ID> [<ID> ...]   run the checks (VERIF_SEED, VERIF_TIER)
   run.py --replay FILE     re-execute the recorded case(s) of a violation and show what happens
   run.py --all             all checks, one after another"""
import importlib, os, pickle, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

def replay(path):
    import tempfile
    from vf import work, build
    from checks import c21
    d = pickle.load(open(path, "rb"))
    print("property %s key %s (tier %s seed %s)" % (d["property"], d["key"], d["tier"], d["seed"]))
    for it in d["items"]:
        print("-", it["msg"])
        cs = it.get("cases") or ([(it["lang"], it["case"])] if it.get("case") is not None else [])
        for lang, c in cs:
            fn = c["fn"]
            R = work.Runner(it["flavour"], ["all"]) if it["flavour"] != "cl" else c21.runner(tempfile.mkdtemp(prefix="pocl", dir=build.BUILD), ["all"])
            r = R.run(lang, [c], par=1)[0]
            print("  replayed %s %s: %s" % (lang, fn, r))
            if r.kind == "ok":
                for o in r.outs:
                    print("  ", o)

def main():
    if len(sys.argv) < 2:
        print(__doc__); return 2
    if sys.argv[1] == "--replay":
        replay(sys.argv[2]); return 0
    if sys.argv[1] == "--setup":
        # nothing to install: every check builds what it needs from /repo; show that the tools are there
        import numpy, subprocess
        for t in (["cmake", "--version"], ["ninja", "--version"], ["octave-cli", "--version"]):
            print(subprocess.run(t, capture_output=True, text=True).stdout.split("\n")[0])
        return 0
    ids = sys.argv[1:]
    if ids == ["--all"]:
        ids = sorted(f[:-3].upper() for f in os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks")) if f.startswith("c") and f[1:3].isdigit())
    rc = 0
    for i in ids:
        try:
            m = importlib.import_module("checks." + i.lower())
            r = m.run()
        except Exception:
            traceback.print_exc()
            print("%s: harness failure" % i)
            r = 2
        rc = max(rc, r) if not (rc == 1 or r == 1) else 1
    sys.stdout.flush()
    return rc

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

"""Check bookkeeping: evidence, violations, known findings, exit codes."""
import hashlib, json, multiprocessing, os, pickle, re, sys, time, traceback
import numpy as np
from . import build, gen, work

ROOT = build.ROOT
KNOWN = os.path.join(ROOT, "known_findings.txt")

def load_known(pid):
    """Lines 'known: property=<id> key=<key> | <what>'; 'fixed:' lines suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)$", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = dict(what=m.group(3))
    return out

class Check:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = np.random.default_rng([self.seed, int(hashlib.sha1(pid.encode()).hexdigest()[:8], 16)])
        self.rule = rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.viol = {}
        self.nviol = 0
        self.counts = {}
        self.inconclusive = 0
        self.known = load_known(pid)
        self.known_hit = {}
        self.runs = []

    def subrng(self, *tag):
        h = int(hashlib.sha1(repr(tag).encode()).hexdigest()[:8], 16)
        return np.random.default_rng([self.seed, int(hashlib.sha1(self.pid.encode()).hexdigest()[:8], 16), h])

    # -- observation accounting
    def saw(self, sig=None, nontrivial=True, n=1):
        self.evals += n
        if nontrivial:
            self.sigs.add(hashlib.sha1(repr(sig).encode()).digest()[:8] if sig is not None else len(self.sigs))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, obj, maxn=4):
        if len(self.samples) < maxn:
            self.samples.append(gen.brief(obj))

    def skip(self, why=""):
        self.inconclusive += 1
        self.count("inconclusive: " + str(why)[:60])

    # -- violations
    def violate(self, key, msg, lang=None, case=None, flavour="rel", info=None, cases=None):
        if key in self.known:
            self.known_hit.setdefault(key, []).append(msg)
            return
        self.nviol += 1
        if key not in self.viol:
            self.viol[key] = []
        if len(self.viol[key]) < 3:
            self.viol[key].append(dict(msg=str(msg)[:2000], lang=lang, case=case, cases=cases, flavour=flavour, info=gen.brief(info) if info is not None else None))

    def note_run(self, lang, n):
        self.count("calls executed (%s)" % lang, n)

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        cov = dict(evaluations=int(self.evals), distinct_nontrivial=len(self.sigs), rule=self.rule,
                   samples=self.samples or ["none"], inconclusive=self.inconclusive,
                   observed={k: (int(v) if isinstance(v, (int, np.integer)) else float(v) if isinstance(v, np.floating) else v) for k, v in sorted(self.counts.items())},
                   known_findings_seen=sorted(self.known_hit))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=self.nviol)
        tmp = os.path.join(ROOT, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(ROOT, "evidence", self.pid + ".json"))
        for k in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s%s" % (self.pid, self.known[k]["what"], "" if k in self.known_hit else " (not exercised in this run)"))
        print("%s: %d evaluations, %d distinct non-trivial, %d inconclusive, %d violations, %.0f s" % (self.pid, self.evals, len(self.sigs), self.inconclusive, self.nviol, wall))
        if self.viol:
            d = os.path.join(ROOT, "replay")
            os.makedirs(d, exist_ok=True)
            for i, (k, L) in enumerate(sorted(self.viol.items())):
                if i >= int(os.environ.get("VF_MAXKINDS", "12")):
                    print("... and %d more kinds of violation" % (len(self.viol) - i))
                    break
                path = os.path.join(d, "%s-%d.pkl" % (self.pid, i))
                with open(path, "wb") as f:
                    pickle.dump(dict(property=self.pid, key=k, tier=self.tier, seed=self.seed, items=L), f)
                print("  [%s] %s" % (k, L[0]["msg"].replace("\n", "\n    ")[:900]))
                if L[0]["info"] is not None:
                    print("    case: %s" % json.dumps(L[0]["info"], default=str)[:900])
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if self.evals == 0 or not self.sigs:
            print("%s: nothing observed - inconclusive" % self.pid)
            return 3
        if self.inconclusive > 0.2 * max(1, self.evals):
            print("%s: too many inconclusive cases (%d of %d)" % (self.pid, self.inconclusive, self.evals))
            return 3
        return 0

# ---------------------------------------------------------------- helpers
def both(R, pyc, octc, par=4, **kw):
    """run the python and the octave cases at the same time"""
    import threading
    res = {}
    def go(lang, cs):
        res[lang] = R.run(lang, cs, par=par, **kw)
    ts = [threading.Thread(target=go, args=a) for a in (("py", pyc), ("oct", octc))]
    for t in ts: t.start()
    for t in ts: t.join()
    return res["py"], res["oct"]

def pmap(f, items, procs=None, chunk=None):
    items = list(items)
    procs = procs or min(8, os.cpu_count() or 8)
    if len(items) < 4 or procs == 1:
        return [f(x) for x in items]
    with multiprocessing.get_context("fork").Pool(procs) as p:
        return p.map(f, items, chunksize=chunk or max(1, min(8, len(items) // (procs * 4))))

def asum(a):
    """signature of an array"""
    a = np.ascontiguousarray(a)
    return hashlib.sha1(a.tobytes() + repr((a.shape, a.dtype.str)).encode()).hexdigest()[:16]

def same(a, b):
    """bitwise equality of two arrays (NaNs equal by bits)"""
    if a is None or b is None:
        return a is b
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.asfortranarray(a).tobytes("F") == np.asfortranarray(b).tobytes("F")

def show(r):
    return "%s %s %s" % (r.kind, r.msg, r.detail[-1500:] if r.detail else "")

"""Generic Python-side driver: pyworker.py MODDIR CASES.pkl OUT.pkl START
Each case: dict(mod, fn, args, env, post, kwargs). Appends (index, result-dict) pickles to OUT."""
import ctypes, gc, os, pickle, signal, sys
import numpy as np

def relayout(a, how):
    """equal values in another memory layout (pickling does not keep it)"""
    if how == "strided":
        b = np.zeros((2 * a.shape[0], 3 * a.shape[1]), a.dtype); b[::2, ::3] = a
        return b[::2, ::3]
    if how == "rev":
        return a[::-1].copy()[::-1]
    if how == "ro":
        a = a.copy(order="F"); a.flags.writeable = False
        return a
    return np.ascontiguousarray(a)

def main():
    moddir, casef, outf, start = sys.argv[1:5]
    sys.path.insert(0, moddir)
    cases = pickle.load(open(casef, "rb"))
    libc = ctypes.CDLL(None)
    so_path = outf + ".stdout"
    out_fd = os.open(so_path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(out_fd, 1)
    out = open(outf, "ab")
    mods, pool = {}, {}
    base_env = dict(os.environ)
    def ensure_native(x):
        return x
    for i in range(int(start), len(cases)):
        c = cases[i]
        out.write(pickle.dumps(("start", i))); out.flush()
        env = c.get("env") or {}
        for k, v in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        args = list(c["args"])
        for k, how in (c.get("layout") or {}).items():
            args[k] = relayout(args[k], how)
        if c.get("reuse"):      # the caller's own arrays, overwritten in place between the calls
            for k, a in enumerate(args):
                if isinstance(a, np.ndarray) and k not in (c.get("layout") or {}):
                    key = (k, a.shape, a.dtype.str, a.flags.f_contiguous)
                    if key in pool: np.copyto(pool[key], a)
                    else: pool[key] = a.copy(order="F" if a.flags.f_contiguous else "C")
                    args[k] = pool[key]
        res = dict(exc=None, out=None)
        pos0 = os.lseek(out_fd, 0, os.SEEK_END)
        try:
            m = mods.get(c["mod"])
            if m is None:
                m = mods[c["mod"]] = __import__(c["mod"])
            f = getattr(m, c["fn"])
            for _ in range(c.get("reps", 1) - 1):
                try:
                    f(*args, **(c.get("kwargs") or {}))
                except Exception:
                    pass
            r = f(*args, **(c.get("kwargs") or {}))
            res["out"] = np.array(r, order="F", copy=True) if isinstance(r, np.ndarray) else r
            del r
        except (Exception, KeyboardInterrupt) as e:
            res["exc"] = (type(e).__name__, str(e)[:400])
        libc.fflush(None)
        end = os.lseek(out_fd, 0, os.SEEK_END)
        n = min(end - pos0, 4000)
        res["stdout"] = os.pread(out_fd, n, pos0).decode("latin1") if n > 0 else ""
        res["stdout_len"] = end - pos0
        if end > (64 << 20):
            os.ftruncate(out_fd, 0); os.lseek(out_fd, 0, 0)
        if c.get("post"):
            res["post"] = args
        for k in env:
            if k in base_env:
                os.environ[k] = base_env[k]
            else:
                os.environ.pop(k, None)
        out.write(pickle.dumps(("done", i, res))); out.flush()
    out.write(pickle.dumps(("end",))); out.flush()
    out.close()
    os._exit(0)

main()

"""Runs cases in worker processes (python3 or octave-cli), surviving crashes and hangs of the code under test."""
import os, pickle, shutil, signal, struct, subprocess, tempfile, threading, time
import numpy as np
from . import build

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/usr/bin/python3"
HANG_S = float(os.environ.get("VF_HANG_S", "150"))

class Cell(list):
    """marks an Octave cell array argument"""
class Struct: pass
class FHandle: pass

# ---------------------------------------------------------------- octave serialisation
def _enc(a):
    if isinstance(a, Cell):
        return struct.pack("<iiii", 6, 2, 1, len(a)) + b"".join(_enc(x) for x in a)
    if isinstance(a, Struct):
        return struct.pack("<iiii", 7, 2, 1, 1)
    if isinstance(a, FHandle):
        return struct.pack("<iiii", 8, 2, 1, 1)
    if isinstance(a, str):
        b = a.encode("latin1")
        return struct.pack("<iiii", 1, 2, 1 if b else 0, len(b)) + b
    a = np.asarray(a)
    if a.ndim == 0:
        a = a.reshape(1, 1)
    if a.ndim == 1:
        a = a.reshape(1, -1)
    h = struct.pack("<i", a.ndim) + struct.pack("<%di" % a.ndim, *a.shape)
    if a.dtype == np.float32:
        return struct.pack("<i", 2) + h + a.tobytes("F")
    if a.dtype == np.bool_:
        return struct.pack("<i", 3) + h + a.astype(np.uint8).tobytes("F")
    if np.iscomplexobj(a):
        return struct.pack("<i", 4) + h + np.real(a).astype("f8").tobytes("F") + np.imag(a).astype("f8").tobytes("F")
    if a.dtype == np.int32:
        return struct.pack("<i", 5) + h + a.tobytes("F")
    return struct.pack("<i", 0) + h + a.astype("f8").tobytes("F")

def enc_case(c):
    env = c.get("env") or {}
    b = [_enc(c["fn"]), struct.pack("<iiii", c.get("nout", 1), (1 if c.get("post") else 0) | (2 if c.get("reuse") else 0), c.get("reps", 1), len(env))]
    for k, v in env.items():
        b += [_enc(k), _enc("<unset>" if v is None else v)]
    b.append(struct.pack("<i", len(c["args"])))
    t = c.get("otype") or {}
    b += [struct.pack("<iiii", 10, 2, 1, 1) + _enc(t[k]) + _enc(a) if k in t else _enc(a) for k, a in enumerate(c["args"])]
    b = b"".join(b)
    return struct.pack("<q", len(b)) + b

class _Rd:
    def __init__(self, buf):
        self.b, self.p = buf, 0
    def ints(self, n):
        if self.p + 4 * n > len(self.b):
            raise EOFError
        r = struct.unpack_from("<%di" % n, self.b, self.p)
        self.p += 4 * n
        return r
    def arr(self):
        t, nd = self.ints(2)
        d = self.ints(nd)
        n = int(np.prod(d)) if nd else 0
        def take(dt):
            k = np.dtype(dt).itemsize * n
            if self.p + k > len(self.b):
                raise EOFError
            x = np.frombuffer(self.b, dt, n, self.p).copy()
            self.p += k
            return x
        if t == 0: return take("<f8").reshape(d, order="F")
        if t == 1: return take("u1").tobytes().decode("latin1")
        if t == 2: return take("<f4").reshape(d, order="F")
        if t == 3: return take("u1").astype(bool).reshape(d, order="F")
        if t == 5: return take("<i4").reshape(d, order="F")
        if t == 4:
            re = take("<f8"); im = take("<f8")
            return (re + 1j * im).reshape(d, order="F")
        return None

# ---------------------------------------------------------------- running
SAN_SO = {}
def san_env(flavour):
    env = {}
    if flavour == "asan":
        so = SAN_SO.setdefault("asan", subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip())
        ub = SAN_SO.setdefault("ubsan", subprocess.run(["gcc", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip())
        env["LD_PRELOAD"] = so + " " + ub
        env["ASAN_OPTIONS"] = "detect_leaks=0:detect_odr_violation=0:handle_segv=1:max_malloc_fill_size=1073741824:malloc_fill_byte=127:allocator_may_return_null=1:symbolize=1:exitcode=97:detect_stack_use_after_return=1"
        env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1:exitcode=98"
    elif flavour == "tsan":
        so = SAN_SO.setdefault("tsan", subprocess.run(["gcc", "-print-file-name=libtsan.so"], capture_output=True, text=True).stdout.strip())
        env["LD_PRELOAD"] = so
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=96:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4"
    return env

class Result:
    """One executed case. kind: ok | exc | crash | hang | skipped"""
    __slots__ = ("kind", "out", "outs", "msg", "stdout", "post", "detail", "stdout_len")
    def __init__(self, kind, **kw):
        self.kind = kind
        self.out = kw.get("out"); self.outs = kw.get("outs"); self.msg = kw.get("msg", "")
        self.stdout = kw.get("stdout", ""); self.post = kw.get("post"); self.detail = kw.get("detail", "")
        self.stdout_len = kw.get("stdout_len", 0)
    def __repr__(self):
        return "<Result %s msg=%r detail=%r>" % (self.kind, self.msg, self.detail[-300:])

def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("DREAM_", "LD_PRELOAD", "ASAN", "TSAN", "UBSAN"))}
    env.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8",
               HOME=env.get("HOME", "/root"), PYTHONHASHSEED="0")
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return env

class Runner:
    def __init__(self, flavour="rel", targets=("all",), preload=(), env=None, mon=None, wrap=()):
        self.flavour = flavour
        self.wrap = list(wrap)
        self.dir = build.ensure(flavour, list(targets))
        self.preload = list(preload)
        self.xenv = dict(env or {})
        self.mon_file = None
        if mon is not None:
            # mon: dict of VF_MON_* settings for the LD_PRELOAD monitor
            self.preload.append(build.native()["libmon"])
            os.makedirs(os.path.join(build.BUILD, "tmp"), exist_ok=True)
            fd, self.mon_file = tempfile.mkstemp(prefix="mon", dir=os.path.join(build.BUILD, "tmp"))
            os.close(fd)
            self.xenv["VF_MON_FILE"] = self.mon_file
            self.xenv["VF_MON_LOG"] = self.mon_file + ".log"
            for k, v in mon.items():
                self.xenv["VF_MON_" + k.upper()] = str(v)

    def mon_counts(self):
        """counters of the preloaded monitor, over all workers so far"""
        b = open(self.mon_file, "rb").read()[:64]
        if len(b) < 64:
            return {}
        return dict(zip(("threads", "peak", "planner", "overlaps", "plans", "exec", "delayed"), struct.unpack("<7q", b[:56])))

    def mon_log(self):
        try:
            return open(self.mon_file + ".log").read().splitlines()
        except OSError:
            return []

    def close(self):
        for f in (self.mon_file, (self.mon_file or "") + ".log"):
            if f and os.path.exists(f):
                os.unlink(f)

    def env(self):
        env = base_env()
        s = san_env(self.flavour)
        pre = (s.pop("LD_PRELOAD", "").split() if s else []) + self.preload
        env.update(s)
        if pre:
            env["LD_PRELOAD"] = " ".join(pre)
        env.update(self.xenv)
        return env

    # one chunk of cases in one language, restarting after crashes
    def _chunk(self, lang, cases, tmp, tag, results, idx, hang_s, retry=True, max_crash=30):
        start = 0
        crashes = 0
        n = len(cases)
        casef = os.path.join(tmp, tag + ".cases")
        if lang == "py":
            with open(casef, "wb") as f:
                pickle.dump(cases, f, protocol=4)
        else:
            with open(casef, "wb") as f:
                f.write(struct.pack("<i", n))
                for c in cases:
                    f.write(enc_case(c))
        gen = 0
        while start < n:
            gen += 1
            outf = os.path.join(tmp, "%s.%d.out" % (tag, gen))
            errf = os.path.join(tmp, "%s.%d.err" % (tag, gen))
            stdf = os.path.join(tmp, "%s.%d.std" % (tag, gen))
            open(outf, "wb").close()
            env = self.env()
            if lang == "py":
                cmd = [PY, os.path.join(HERE, "pyworker.py"), os.path.join(self.dir, "python"), casef, outf, str(start)]
            else:
                env.update(VF_CASES=casef, VF_OUT=outf, VF_START=str(start))
                cmd = ["octave-cli", "-qfH", "--path", os.path.join(self.dir, "oct"), "--path", os.path.join(build.MIRROR, "m_files"),
                       os.path.join(HERE, "octdrv.m")]
            with open(errf, "wb") as ef, open(stdf, "wb") as sf:
                p = subprocess.Popen(self.wrap + cmd, stdin=subprocess.DEVNULL, stdout=sf, stderr=ef, env=env, cwd=tmp, start_new_session=True)
                last = (0, time.time())
                hung = False
                while True:
                    try:
                        p.wait(timeout=0.5)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    sz = os.path.getsize(outf)
                    if sz != last[0]:
                        last = (sz, time.time())
                    elif time.time() - last[1] > hang_s:
                        hung = True
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
                        p.wait()
                        break
            started, done, end = self._parse(lang, outf, stdf, results, idx)
            if end:
                break
            # died or hung in case `started`
            if started is None or started < start:
                nxt = start
                det = open(errf, "rb").read()[-3000:].decode("latin1")
                if done is not None:
                    nxt = done + 1
                if started is None and gen > 3:
                    for k in range(start, n):
                        results[idx[k]] = Result("skipped", detail="worker does not start: rc=%s %s" % (p.returncode, det))
                    return
                crashes += 1
                start = max(nxt, start)
                if crashes > 5:
                    for k in range(start, n):
                        if results[idx[k]] is None:
                            results[idx[k]] = Result("skipped", detail="worker does not start: rc=%s %s" % (p.returncode, det))
                    return
                continue
            err = open(errf, "rb").read()
            det = err[:6000].decode("latin1")
            if results[idx[started]] is not None and results[idx[started]].kind in ("ok", "exc"):
                # died between cases (e.g. at exit or in the driver itself)
                bad = started
            else:
                bad = started
            if hung:
                if retry:
                    # re-run alone once, generously, before calling it a hang
                    sub = [None]
                    self._chunk(lang, [cases[started]], tmp, tag + "_h%d" % started, sub, [0], hang_s * 2, retry=False)
                    results[idx[bad]] = sub[0]
                else:
                    results[idx[bad]] = Result("hang", detail="no progress for %.0f s" % hang_s)
            else:
                results[idx[bad]] = Result("crash", detail="exit %s\n%s" % (p.returncode, det), msg="rc=%s" % p.returncode)
            crashes += 1
            start = started + 1
            if crashes >= max_crash:
                for k in range(start, n):
                    results[idx[k]] = Result("skipped", detail="too many crashes")
                return

    def _parse(self, lang, outf, stdf, results, idx):
        started = done = None
        end = False
        if lang == "py":
            with open(outf, "rb") as f:
                while True:
                    try:
                        r = pickle.load(f)
                    except (EOFError, pickle.UnpicklingError):
                        break
                    if r[0] == "start":
                        started = r[1]
                    elif r[0] == "end":
                        end = True
                    else:
                        _, i, d = r
                        done = i
                        if d["exc"]:
                            results[idx[i]] = Result("exc", msg="%s: %s" % d["exc"], stdout=d["stdout"], post=d.get("post"), stdout_len=d["stdout_len"])
                        else:
                            results[idx[i]] = Result("ok", out=d["out"], outs=[d["out"]], stdout=d["stdout"], post=d.get("post"), stdout_len=d["stdout_len"])
        else:
            rd = _Rd(open(outf, "rb").read())
            got = {}
            try:
                while True:
                    tag, i = rd.ints(2)
                    if tag == -1:
                        started = i
                    elif tag == -3:
                        end = True
                        break
                    else:
                        (ok,) = rd.ints(1)
                        msg = rd.arr()
                        (no,) = rd.ints(1)
                        outs = [rd.arr() for _ in range(no)]
                        (na,) = rd.ints(1)
                        post = [rd.arr() for _ in range(na)]
                        done = i
                        got[i] = Result("ok" if ok else "exc", out=outs[0] if outs else None, outs=outs, msg=msg, post=post if na else None)
            except EOFError:
                pass
            std = open(stdf, "rb").read().decode("latin1")
            # split stdout by markers
            for part in std.split("\n@@VF ")[1:]:
                num, _, body = part.partition("\n")
                try:
                    k = int(num)
                except ValueError:
                    continue
                body = body.split("\n@@VFEND ")[0]
                if k in got:
                    got[k].stdout = body[:4000]
                    got[k].stdout_len = len(body)
            for i, r in got.items():
                results[idx[i]] = r
        return started, done, end

    def run(self, lang, cases, par=4, hang_s=None, max_crash=30):
        """Run all cases; returns list of Result in order."""
        hang_s = hang_s or HANG_S
        results = [None] * len(cases)
        if not cases:
            return results
        par = max(1, min(par, len(cases)))
        os.makedirs(os.path.join(build.BUILD, "tmp"), exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="w", dir=os.path.join(build.BUILD, "tmp"))
        try:
            ths = []
            for w in range(par):
                idx = list(range(w, len(cases), par))
                t = threading.Thread(target=self._chunk, args=(lang, [cases[i] for i in idx], tmp, "%s%d" % (lang, w), results, idx, hang_s), kwargs=dict(max_crash=max_crash))
                t.start()
                ths.append(t)
            for t in ths:
                t.join()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        for i, r in enumerate(results):
            if r is None:
                results[i] = Result("skipped", detail="no result")
        return results

"""Case runner shared by all properties.

A property module (props/<id>.py) lists monitors.  A monitor is a function of a
Case: it draws a workload from case.rng, drives the real pixell code, and
evaluates oracles on what it observed (case.ok / case.close / case.same ...).
Every case is a pure function of (property, monitor, seed, index), so a
violation replays exactly.
"""
import os, sys, json, time, traceback, hashlib, zlib, warnings, signal
import numpy as np

class Viol(Exception): pass
class Skip(Exception): pass

def _short(a, n=6):
    a = np.asarray(a)
    if a.size <= n: return np.array2string(a, precision=8, threshold=50)
    return "%s%s..." % (a.shape, np.array2string(a.reshape(-1)[:n], precision=8))

class Case:
    def __init__(self, prop, monitor, seed, idx, tier):
        self.prop, self.monitor, self.seed, self.idx, self.tier = prop, monitor, seed, idx, tier
        self.rng   = np.random.default_rng([zlib.crc32(("%s/%s" % (prop, monitor)).encode()), seed, idx])
        self.nobs  = 0
        self.notes = {}
        self.tmp   = None
    # --- bookkeeping
    def note(self, **kw):
        for k, v in kw.items():
            if isinstance(v, np.ndarray): v = v.tolist() if v.size < 12 else "array%s" % (v.shape,)
            elif isinstance(v, np.generic): v = v.item()
            self.notes[k] = v
    def digest(self):
        return hashlib.sha1(repr((self.monitor, sorted((k, repr(v)) for k, v in self.notes.items()))).encode()).hexdigest()[:16]
    def tmpdir(self):
        if self.tmp is None:
            import tempfile
            self.tmp = tempfile.mkdtemp(prefix="pxcase-")
        return self.tmp
    # --- random helpers
    def pick(self, *opts): return opts[int(self.rng.integers(len(opts)))]
    def choice(self, seq): return seq[int(self.rng.integers(len(seq)))]
    def int(self, a, b):   return int(self.rng.integers(a, b+1))
    def uni(self, a, b, size=None): return self.rng.uniform(a, b, size)
    def flip(self, p=0.5): return bool(self.rng.random() < p)
    # --- oracles
    def fail(self, msg): raise Viol(msg)
    def ok(self, cond, msg):
        self.nobs += 1
        if not bool(cond): raise Viol(msg)
    def same(self, a, b, msg):
        """exactly equal, shapes included, nan equal to nan"""
        self.nobs += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: raise Viol("%s: shape %s != %s" % (msg, a.shape, b.shape))
        eq = (a == b)
        if a.dtype.kind in "fc" and b.dtype.kind in "fc": eq = eq | (np.isnan(a) & np.isnan(b))
        if not np.all(eq):
            bad = np.argwhere(~np.atleast_1d(eq))[0]
            raise Viol("%s: %d of %d differ, first at %s: %s vs %s" % (msg, np.sum(~eq), a.size, tuple(int(i) for i in bad),
                np.atleast_1d(a)[tuple(bad)], np.atleast_1d(b)[tuple(bad)]))
    def close(self, a, b, msg, rtol=1e-9, atol=0.0, scale=None):
        """|a-b| <= atol + rtol*scale, scale defaulting to max|b| (a global, not an elementwise scale)"""
        self.nobs += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: raise Viol("%s: shape %s != %s" % (msg, a.shape, b.shape))
        if a.size == 0: return
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            bad = np.argwhere(np.atleast_1d(fa != fb))[0]
            raise Viol("%s: finite pattern differs at %s (%s vs %s)" % (msg, tuple(int(i) for i in bad), np.atleast_1d(a)[tuple(bad)], np.atleast_1d(b)[tuple(bad)]))
        if not np.any(fb): return
        if scale is None: scale = np.max(np.abs(b[fb]))
        d = np.where(fb, np.abs(np.where(fa, a, 0)-np.where(fb, b, 0)), 0)
        lim = atol + rtol*scale
        if np.max(d) > lim:
            bad = np.unravel_index(np.argmax(d), d.shape)
            raise Viol("%s: max |diff| %.6g > %.3g at %s: %s vs %s (scale %.4g)" % (msg, np.max(d), lim, tuple(int(i) for i in bad), a[bad], b[bad], scale))
    def raises(self, exc, fn, msg):
        self.nobs += 1
        try: fn()
        except exc: return
        raise Viol("%s: expected %s" % (msg, exc))
    def keeps(self, msg, *arrs):
        """context manager: the arrays are not modified inside"""
        return _Keeps(self, msg, arrs)

class _Keeps:
    def __init__(self, case, msg, arrs):
        self.case, self.msg, self.arrs = case, msg, arrs
    def __enter__(self):
        self.saved = [np.array(a, copy=True) for a in self.arrs]
    def __exit__(self, et, ev, tb):
        if et is not None: return False
        for i, (a, b) in enumerate(zip(self.arrs, self.saved)):
            self.case.same(np.asarray(a), b, "%s: input %d was modified" % (self.msg, i))
        return False

def run_case(prop, mon, fn, seed, idx, tier):
    """Returns dict(status=held|violation|skip, ...)."""
    case = Case(prop, mon, seed, idx, tier)
    t0   = time.time()
    res  = {"monitor": mon, "idx": idx, "seed": seed}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(case)
        res["status"] = "held" if case.nobs else "skip"
    except Skip:
        res["status"] = "skip"
    except Viol as e:
        res["status"] = "violation"; res["msg"] = str(e)
        res["trace"] = traceback.format_exc()
    except (Exception, SystemExit) as e:
        res["status"] = "violation"; res["msg"] = "raised %s: %s" % (type(e).__name__, str(e)[:400])
        res["trace"] = traceback.format_exc()
    finally:
        if case.tmp:
            import shutil
            shutil.rmtree(case.tmp, ignore_errors=True)
    res["nobs"] = case.nobs; res["digest"] = case.digest(); res["notes"] = case.notes
    res["t"] = time.time()-t0
    return res

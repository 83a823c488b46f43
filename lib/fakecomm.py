"""A communicator whose ranks are threads of this process.  It implements the mpi4py calls pixell uses, checks that matching
calls agree on sizes and types as MPI requires, and delays ranks at random so that they arrive in different orders."""
import threading, time, copy, numpy as np

class Mismatch(Exception): pass

class _World:
    def __init__(self, n, seed):
        self.n = n; self.bar = threading.Barrier(n, timeout=60); self.box = [None]*n; self.mail = {}; self.cv = threading.Condition(); self.seed = seed; self.events = 0

class Comm:
    def __init__(self, world, rank):
        self.w, self.rank, self.size = world, rank, world.n; self.rng = np.random.default_rng([world.seed, rank])
    def _exchange(self, kind, obj):
        if self.rng.uniform() < 0.3: time.sleep(self.rng.uniform(0, 2e-3))
        self.w.box[self.rank] = (kind, obj); self.w.bar.wait(); all_ = list(self.w.box); self.w.bar.wait(); self.w.events += 1
        if len({k for k, o in all_}) != 1: raise Mismatch("tasks called different operations: %s" % [k for k, o in all_])
        return [o for k, o in all_]
    def Barrier(self): self._exchange("Barrier", None)
    def allgather(self, obj): return copy.deepcopy(self._exchange("allgather", copy.deepcopy(obj)))
    def allreduce(self, obj, op=None):
        r = self.allgather(obj); a = r[0]
        for b in r[1:]: a = a+b if op is None else op(a, b)
        return a
    def Allreduce(self, s, r, op=None):
        s = np.asarray(s); bufs = self._exchange("Allreduce", s.copy())
        if len({(b.size, b.dtype) for b in bufs}) != 1 or r.size != s.size: raise Mismatch("Allreduce of different sizes or types")
        a = bufs[0]
        for b in bufs[1:]: a = a+b if op is None else op(a, b)
        r[...] = a
    def Reduce(self, s, r, op=None, root=0):
        t = np.zeros_like(np.asarray(s)); self.Allreduce(s, t, op)
        if self.rank == root: r[...] = t
    def Allgather(self, s, r):
        s = np.asarray(s); bufs = self._exchange("Allgather", np.ascontiguousarray(s).copy())
        if len({(b.size, b.dtype) for b in bufs}) != 1: raise Mismatch("Allgather of different sizes or types")
        if r.size != s.size*self.size or not r.flags["C_CONTIGUOUS"]: raise Mismatch("Allgather into a buffer of the wrong size")
        r.reshape(-1)[:] = np.concatenate([b.reshape(-1) for b in bufs])
    def Allgatherv(self, s, r):
        rb, (cnt, off) = r; bufs = self._exchange("Allgatherv", np.ascontiguousarray(s).copy()); flat = rb.reshape(-1)
        if not np.shares_memory(flat, rb) and rb.size: raise Mismatch("Allgatherv into a non-contiguous buffer")
        for i, b in enumerate(bufs):
            if b.size != cnt[i] or b.dtype != rb.dtype: raise Mismatch("Allgatherv: task %d sends %d of %s, %d of %s expected" % (i, b.size, b.dtype, cnt[i], rb.dtype))
            flat[off[i]:off[i]+cnt[i]] = b.reshape(-1)
    def Alltoallv(self, s, r):
        sb, (sc, so) = s; rb, (rc, ro) = r; all_ = self._exchange("Alltoallv", (np.array(sb), np.array(sc), np.array(so)))
        for i, (b, c, o) in enumerate(all_):
            if c[self.rank] != rc[i] or (b.dtype != rb.dtype and c[self.rank]): raise Mismatch("Alltoallv: task %d sends %d of %s to task %d, which expects %d of %s" % (i, c[self.rank], b.dtype, self.rank, rc[i], rb.dtype))
            rb[ro[i]:ro[i]+rc[i]] = b[o[self.rank]:o[self.rank]+c[self.rank]]
    def send(self, obj, dest, tag=0): self._put("o", copy.deepcopy(obj), dest, tag)
    def Send(self, a, dest, tag=0): self._put("b", np.array(a), dest, tag)
    def _put(self, k, obj, dest, tag):
        if self.rng.uniform() < 0.3: time.sleep(self.rng.uniform(0, 2e-3))
        with self.w.cv: self.w.mail.setdefault((self.rank, dest, tag), []).append((k, obj)); self.w.events += 1; self.w.cv.notify_all()
    def _get(self, k, source, tag):
        key = (source, self.rank, tag)
        with self.w.cv:
            if not self.w.cv.wait_for(lambda: self.w.mail.get(key), timeout=60): raise Mismatch("no message")
            kk, o = self.w.mail[key].pop(0)
        if kk != k: raise Mismatch("received the wrong kind of message")
        return o
    def recv(self, source=0, tag=0): return self._get("o", source, tag)
    def Recv(self, buf, source=0, tag=0):
        o = self._get("b", source, tag)
        if o.size != buf.size or o.dtype != buf.dtype: raise Mismatch("Recv of the wrong size")
        buf[...] = o.reshape(buf.shape)

def run(n, fn, seed=0):
    """fn(comm) on n ranks; list of results, raises the first exception"""
    w = _World(n, seed); res, err = [None]*n, [None]*n
    def go(i):
        try: res[i] = fn(Comm(w, i))
        except BaseException as e: err[i] = e; w.bar.abort()
    ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(n)]
    for t in ts: t.start()
    for t in ts: t.join(90)
    for e in err:
        if e is not None and not isinstance(e, threading.BrokenBarrierError): raise e
    for e in err:
        if e is not None: raise e
    return res, w.events

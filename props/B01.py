"""B01: buffers from memory pools: never shared between live arrays, aligned, correctly filled, and recycled."""
import numpy as np, copy
from pixell import device, memory
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "rule": "Histories of allocations, writes, resets and frees on one or several pools; a shadow copy of every live buffer is compared after every step. A case is one history.",
  "assumptions": ["GPU pools need cupy, which is absent: only the host pools run"]}

DT = (np.float32, np.float64, np.int32, np.complex128, np.uint8, np.int16, np.bool_)
class Counting:
    """the source of memory, recording what is asked of it"""
    def __init__(self): self.calls = []
    def alloc(self, n): self.calls.append(int(n)); return np.full(int(n), 0xA5, np.uint8)

def shape_of(c): return c.pick((), (0,), (c.int(1,9),), (c.int(1,40), c.int(1,5)), (2, 0, 3), (c.int(1,4), c.int(1,4), c.int(1,4)), (c.int(50,400),))
def span(a): p = a.__array_interface__["data"][0]; return p, p+a.nbytes

class Shadow:
    """live buffers by pool, with the values they must hold"""
    def __init__(self, c, align): self.c, self.align, self.live = c, align, {}
    def add(self, name, a, shape, dt, what, value=None):
        c = self.c; c.ok(isinstance(a, np.ndarray) and a.shape == tuple(shape) and a.dtype == dt, "%s: %s %s for %s %s" % (what, a.shape, a.dtype, shape, np.dtype(dt))); c.ok(a.flags.writeable and a.flags.c_contiguous, "%s: not writeable or contiguous" % what)
        if a.size: c.ok(a.ctypes.data % self.align == 0, "%s: not aligned to %d bytes" % (what, self.align))
        if value is not None: c.same(a, np.broadcast_to(np.asarray(value, dt), shape), "%s: values" % what)
        p, q = span(a)
        for n, l in self.live.items():
            for b, v in l:
                r, s = span(b); c.ok(not (a.size and b.size) or q <= r or s <= p, "%s of pool %s overlaps a live buffer of pool %s" % (what, name, n))
        self.live.setdefault(name, []).append((a, a.copy()))
    def write(self):
        l = [(n, i) for n, v in self.live.items() for i in range(len(v))]
        if not l: return
        n, i = l[self.c.int(0, len(l)-1)]; a, v = self.live[n][i]
        if a.size: a[...] = self.c.rng.integers(0, 2 if a.dtype == bool else 100, a.shape).astype(a.dtype); self.live[n][i] = (a, a.copy())
    def check(self, what):
        for n, l in self.live.items():
            for k, (a, v) in enumerate(l): self.c.same(a, v, "buffer %d of pool %s after %s" % (k, n, what))

def get(c, sh, name, pool, reset=False):
    op = c.pick("empty","empty","full","zeros","ones","raw"); s, dt = shape_of(c), c.pick(*DT); kw = {"reset": False} if not reset else c.pick({}, {"reset": True})
    if reset and op != "raw": sh.live.pop(name, None)
    if op == "empty": sh.add(name, pool.empty(s, dt, **kw), s, dt, op)
    elif op == "full": v = 1 if dt == np.bool_ else c.int(0,100); sh.add(name, pool.full(s, v, dt, **kw), s, dt, op, v)
    elif op == "zeros": sh.add(name, pool.zeros(s, dt, **kw), s, dt, op, 0)
    elif op == "ones": sh.add(name, pool.ones(s, dt, **kw), s, dt, op, 1)
    else: n = c.int(0, 300); sh.add(name, c.pick(pool.alloc, pool.alloc_raw)(n), (n,), np.uint8, op)
    return op

def histories(c):
    """one or several pools, any order of operations"""
    align = c.pick(16, 32, 64, 512); src = Counting(); made = []
    def factory(name): made.append(name); return device.ArrayPoolCpu(device.AllocAligned(src, align=align), name=name)
    own = c.flip(); dev = device.DeviceCpu(align=align, alloc_factory=factory) if own else device.DeviceCpu(align=align); P = dev.pools; sh = Shadow(c, align); names = ["a","b","c"][:c.int(1,3)]; hist = []; c.note(align=align, npool=len(names), counted=own)
    for k in range(c.int(5,30)):
        n = c.pick(*names); pool = c.pick(lambda: P[n], lambda: P.want(n)[0])(); c.ok(pool is P[n] and pool is getattr(P, n) and pool.name == n, "a pool is found again under its name")
        op = c.pick("get","get","get","get","fresh","array","write","write","reset","resetall","free","as_allocator"); hist.append(n+":"+op)
        if op == "get": get(c, sh, n, pool)
        elif op == "fresh": get(c, sh, n, pool, True)
        elif op == "array": s = shape_of(c); dt = c.pick(*DT[:4]); x = c.rng.integers(0, 90, s).astype(dt); x = c.pick(x, x.T.copy().T, x.tolist() if dt in (np.float64,) and x.size else x); k0 = copy.deepcopy(x); sh.live.pop(n, None); r = pool.array(x); sh.add(n, r, s, np.asarray(x).dtype, "array", x); c.same(np.asarray(x), np.asarray(k0), "array changed its input"); r[...] = 7 if r.size else r; sh.live[n][-1] = (r, r.copy()); c.same(np.asarray(x), np.asarray(k0), "array shares memory with its input")
        elif op == "write": sh.write()
        elif op == "reset": sh.live.pop(n, None); c.ok(pool.reset() is pool, "reset returns the pool")
        elif op == "resetall": sh.live.clear(); P.reset()
        elif op == "free": sh.live.pop(n, None); pool.free(); c.ok(pool.totsize() == 0, "memory held after free")
        else:
            sh.live.pop(n, None)
            with pool.as_allocator(): get(c, sh, n, pool)
        sh.check(op)
        c.ok(P.totsize() == sum(P[m].totsize() for m in P.pools) == dev.memuse("pools"), "total size of the pools"); c.ok(P.size() == sum(P[m].size for m in P.pools), "allocated size of the pools")
    c.note(hist=hist)
    for m in P.pools: c.ok(repr(m) in repr(P) and P[m].totsize() >= sum(a.nbytes for a, v in sh.live.get(m, [])), "a pool is smaller than what it handed out")
    if own: c.ok(sorted(made) == sorted(P.pools), "one pool per name")
    P.free(); sh.check("free"); c.ok(P.totsize() == 0, "memory held after free")
    x = c.uni(-1,1,5); y = dev.get(x); c.same(y, x, "get"); c.ok(not np.shares_memory(x, y), "get shares memory"); z = x*0; dev.copy(x, z); c.same(z, x, "copy"); c.ok(dev.ptr(x) == x.ctypes.data, "address of an array"); c.raises(ValueError, lambda: dev.memuse("nonsense"), "unknown kind of memory")

def steady(c):
    """a repeated pass of allocations is served from the memory already held"""
    align = c.pick(16, 64); src = Counting(); pool = device.ArrayPoolCpu(device.AllocAligned(src, align=align), name="p"); sizes = []; c.note(align=align)
    def play(p):
        sh = Shadow(c, align); pool.reset()
        for s in p: sh.add("p", pool.zeros((s,), np.uint8, reset=False), (s,), np.uint8, "zeros", 0); sh.write()
        sh.check("a pass"); c.ok(pool.size == sum(-(-s//align)*align for s in p), "size %d after allocating %s" % (pool.size, p))
    for phase in range(c.int(1,4)):
        # every phase asks for something else, often more than before
        p = [c.int(1, 300) for i in range(c.int(1,6))]; p = (sizes[-1] if sizes and c.flip() else [])+p; sizes.append(p); play(p); play(p); n = len(src.calls); held = pool.totsize()
        for q in range(3): play(p)
        c.ok(len(src.calls) == n, "a pass that was seen before asked for new memory: %s" % src.calls[n:]); c.ok(pool.totsize() == held, "memory held changes")
        old = c.pick(*sizes); play(old); play(old); n = len(src.calls); play(old); c.ok(len(src.calls) == n, "an earlier, already seen pass asked for new memory"); c.ok(pool.capacity == max(sum(-(-s//align)*align for s in x) for x in sizes), "capacity %d for passes of %s" % (pool.capacity, [sum(x) for x in sizes]))
        pool.reset(); c.ok(len(pool.arenas) == 1, "memory is kept in %d pieces after a reset" % len(pool.arenas))

def usage(c):
    """reported memory use follows what is really allocated"""
    n = c.int(20, 60) << 20; a0, r0, m0 = memory.current(), memory.resident(), memory.max(); x = np.ones(n, np.uint8); a1, r1, m1 = memory.current(), memory.resident(), memory.max(); c.note(n=n); c.ok(a1-a0 > 0.8*n-2**22 or a1 >= a0, "current"); c.ok(r1-r0 > 0.5*n, "resident memory grew by %d for %d touched bytes" % (r1-r0, n)); c.ok(m1 >= m0 and m1 >= a1*0.99, "maximum"); c.ok(device.DeviceCpu().memuse() >= 0.5*n, "total"); c.ok(int(x[::4096].sum()) > 0, ""); del x

MONITORS = [("histories", histories, 300, 6000), ("steady", steady, 200, 4000), ("usage", usage, 6, 20)]

"""Data spread over tasks: gathering, reducing, redistributing arrays and tiled maps"""
import numpy as np, os, warnings
import fakecomm
from gen import arr, patch, note_geo
from T01 import tg, active, dense, mask, mk
from pixell import enmap, tilemap, utils, mpi, mpiutils

INFO = {"rule": "the undistributed computation on the union of the tasks' data; the communicator checks that matching calls agree on sizes and types, as MPI does",
  "assumptions": ["tasks are threads that exchange data through a stand-in for mpi4py's communicator, with random delays", "every task has at least one box in utils.redistribute"]}

def go(c, n, fn):
    res, ev = fakecomm.run(n, fn, seed=int(c.rng.integers(1<<30))); c.note(messages=ev); return res

def gather(c):
    n = c.int(1,5); shape = c.pick((), (3,), (2,3), (1,)); dt = c.pick(float, np.float32, int, complex, bool, "S5"); mkv = (lambda s: np.array([b"ab%d" % k for k in c.rng.integers(0,99,int(np.prod(s)))], "S5").reshape(s)) if dt == "S5" else (lambda s: (c.rng.normal(size=s)*5).astype(dt) if dt is not bool else c.rng.uniform(size=s) < 0.5); c.note(ntask=n, shape=shape, dtype=str(dt))
    d = [mkv(shape) for i in range(n)]; k = [x.copy() for x in d]
    if not (dt == "S5" and shape == ()):
        for r in go(c, n, lambda q: utils.allgather(d[q.rank], q)): c.same(r, np.array(k), "allgather")
    if dt not in (bool, "S5"):
        for r in go(c, n, lambda q: utils.allreduce(d[q.rank], q)): c.close(r, np.sum(k, 0), "allreduce", rtol=1e-6)
        if dt is not complex:
            for r in go(c, n, lambda q: utils.allreduce(d[q.rank], q, np.maximum)): c.same(r, np.max(k, 0), "maximum over tasks")
        root = c.int(0, n-1); r = go(c, n, lambda q: utils.reduce(d[q.rank], q, root=root)); c.close(r[root], np.sum(k, 0), "reduce", rtol=1e-6); c.ok(all(x is None for i, x in enumerate(r) if i != root), "reduce gave a result on another task"); R = go(c, n, lambda q: utils.reduce(d[q.rank], q, root=root, op=np.maximum)) if d[0].dtype != bool and not np.iscomplexobj(d[0]) else None; c.ok(R is None or np.array_equal(R[root], np.max(k, 0)), "reduce with another operation")
    for a, b in zip(d, k): c.same(a, b, "the input changed")
    # variable lengths, some tasks empty
    nd = c.int(1,3); ax = c.int(-nd, nd-1); base = [c.int(1,4) for i in range(nd)]; lens = [c.pick(0, 1, c.int(0,5)) for i in range(n)]
    def piece(m): s = list(base); s[ax] = m; return mkv(tuple(s))
    dt2 = c.pick(None, None, "mixed") if dt in (float, int) else None; p = [piece(m) for m in lens]
    if dt2 == "mixed": p = [x.astype(np.float32 if i % 2 else np.float64) for i, x in enumerate(p)]
    if c.flip(0.3): p = [x if x.size else np.zeros(0, x.dtype) if nd == 1 else x for x in p]
    if sum(lens) == 0: return
    w = np.concatenate([x for x in p if x.size], ax) if any(x.size for x in p) else None
    if w is None or (dt == "S5"): return
    for r in go(c, n, lambda q: utils.allgatherv(p[q.rank], q, axis=ax)): c.ok(r.dtype == np.result_type(*[x.dtype for x in p if x.size]), "type of allgatherv"); c.same(r, w, "allgatherv")
    # one task without mpi
    for world in (mpi.COMM_WORLD, mpiutils.FakeCommunicator()):
        if not isinstance(world, mpiutils.FakeCommunicator): continue
        c.ok(world.rank == 0 and world.size == 1, "the only task has rank %s of %s" % (world.rank, world.size))
        x = d[0]; c.same(utils.allgather(x, world), x[None], "allgather without mpi") if dt != "S5" else None; c.same(utils.allgatherv(p[0], world, axis=ax), p[0], "allgatherv without mpi")
        if dt not in (bool, "S5"): c.same(utils.allreduce(x, world), x, "allreduce without mpi")

def sendrecv(c):
    n = c.int(2,4); k = c.int(1,6); dts = [c.pick(float, int, np.float32, complex) for i in range(k)]; data = [(c.rng.normal(size=c.pick((), (3,), (2,4), (0,)))*9).astype(dt) for dt in dts]; dest = [c.int(1, n-1) for i in range(k)]; tag = c.int(0,5); c.note(ntask=n, messages=k)
    def f(q):
        if q.rank == 0:
            for a, b in zip(data, dest): utils.send(a, q, dest=b, tag=tag)
            return None
        return [utils.recv(q, source=0, tag=tag) for b in dest if b == q.rank]
    r = go(c, n, f)
    for i in range(1, n):
        w = [a for a, b in zip(data, dest) if b == i]; c.ok(len(w) == len(r[i]), "number of messages")
        for a, b in zip(r[i], w): c.ok(a.dtype == b.dtype, "type of a message"); c.same(a, b, "message")

def cut(c, L, k):
    """k disjoint pieces of range(L)"""
    e = np.sort(c.rng.choice(np.arange(L+1), size=min(2*k, (L+1)//2*2), replace=False)); return [(int(e[2*i]), int(e[2*i+1])) for i in range(len(e)//2)]

def boxes2(c, ny, nx, own, strided=False):
    """the boxes of every task; disjoint if own"""
    n = len(own); out = []; ys = np.linspace(0, ny, sum(own)+1).astype(int); order = c.rng.permutation(sum(own)); k = 0
    for i in range(n):
        b = []
        for j in range(own[i]):
            y1, y2 = int(ys[order[k]]), int(ys[order[k]+1]); k += 1; x1 = c.int(0, nx-1); x2 = c.int(x1+1, nx); b.append([[y1, y2], [x1, x2]] if c.flip(0.5) else [[y1, y2], [0, nx]])
        out.append(np.array(b))
    return out

def redistribute(c):
    n = c.int(1,4); own = [c.int(1,3) for i in range(n)]; ny, nx = c.int(max(sum(own), 4), 24), c.int(2,14); pre = c.pick((), (2,), (3,2)); dt = c.pick(float, np.float32, int); wrap = c.flip(0.3); c.note(ntask=n, ny=ny, nx=nx, pre=pre, boxes=own, wrap=wrap)
    G = (c.rng.normal(size=pre+(ny,nx))*100).astype(dt); ib = boxes2(c, ny, nx, own); have = np.zeros((ny,nx), bool)
    for b in ib:
        for (y1,y2),(x1,x2) in b: have[y1:y2,x1:x2] = True
    ob = []
    for i in range(n):
        q = []
        for j in range(c.int(1,3)):
            y1 = c.int(0, ny-1); y2 = c.int(y1+1, ny); x1 = c.int(0, nx-1) + (c.pick(0, nx, -nx) if wrap else 0); x2 = c.int(x1+1, x1+nx) if wrap else c.int(x1+1, nx); q.append([[y1,y2],[x1,x2]])
        ob.append(np.array(q))
    ob0 = [b.copy() for b in ob]; w = [0, nx] if wrap else 0
    def f(q): return utils.redistribute([G[...,b[0,0]:b[0,1],b[1,0]:b[1,1]] for b in ib[q.rank]], ib[q.rank], ob[q.rank], q, wrap=w)
    H = np.where(have, G, 0)
    for r, bs in zip(go(c, n, f), ob0):
        c.ok(len(r) == len(bs), "number of arrays")
        for a, b in zip(r, bs): c.same(a, H[...,np.arange(b[0,0],b[0,1])[:,None] , np.arange(b[1,0],b[1,1])%nx], "array of box %s" % b.tolist())

def sboxes(c):
    nd = c.int(1,3); L = 30
    def sb(): s = c.int(0,L-1); n = c.int(1,8); st = c.pick(1,1,2,3); return [s, s+n*st-c.int(0, st-1), st]
    a, b = np.array([sb() for i in range(nd)]), np.array([sb() for i in range(nd)]); c.note(a=a.tolist(), b=b.tolist()); ia = [set(range(*x)) for x in a]; ib = [set(range(*x)) for x in b]; A = np.arange(100)
    k0 = a.copy(), b.copy(); r = utils.sbox_intersect(a, b); c.same(a, k0[0], "input changed"); c.same(b, k0[1], "input changed"); got = []
    for q in r: got.append(tuple(tuple(range(*x)) for x in q))
    w = tuple(tuple(sorted(x & y)) for x, y in zip(ia, ib))
    if all(w): c.ok(got == [w], "intersection %s instead of %s" % (got, w))
    else: c.ok(len(r) == 0, "intersection of disjoint boxes: %s" % (r,))
    for q in r: d = utils.sbox_div(q, b); c.ok([list(A[slice(*x)]) for x in np.array(q)] == [list(A[slice(*x)][slice(*y)]) for x, y in zip(b, d)], "quotient of boxes")
    neg = np.array(a); m = c.rng.uniform(size=nd) < 0.4
    for i in range(nd):
        k = len(ia[i])
        if m[i]: neg[i] = [a[i,0]+(k-1)*a[i,2], a[i,0]-a[i,2], -a[i,2]]
        else: neg[i] = [a[i,0], a[i,0]+k*a[i,2], a[i,2]]
    c.same(utils.sbox_size(neg), np.array([len(x) for x in ia]), "size"); c.same(utils.sbox_flip(utils.sbox_flip(neg)), neg, "flipping twice"); X = np.arange(70)
    sl = utils.sbox2slice(neg); c.ok(sl[0] is Ellipsis and all(list(X[s]) == (sorted(x, reverse=bool(k))) for s, x, k in zip(sl[1:], ia, m)), "slice of a box")
    # arr[c] = arr[a][b]
    u = []
    for x in ia: n = len(x); s = c.int(0,n-1); st = c.pick(1,2); k = c.int(1, (n-1-s)//st+1); u.append([s, s+k*st, st] if c.flip(0.7) else [s+(k-1)*st, s-st, -st])
    u = np.array(u); p = utils.sbox_mul(neg, u); want = [[list(range(*y))[j] for j in range(*z)] for y, z in zip(neg, u)]; c.ok([list(range(*x)) for x in p] == want, "product of boxes: %s instead of %s" % ([list(range(*x)) for x in p], want))

def wrapped(c):
    """boxes that run over the edge of a periodic array"""
    nd = c.int(1,2); w = [c.int(4,12) for i in range(nd)]; b = []; inp = []
    for i in range(nd): s = c.int(-2*w[i], 2*w[i]); st = c.pick(1,1,2); n = c.int(1, max(1, 2*w[i]//st)); b.append([s, s+n*st, st] if c.flip(0.8) else [s+(n-1)*st, s-st, -st])
    c.note(wrap=w, box=b); A = c.rng.normal(size=w); want = A[np.ix_(*[np.array(list(range(*x)))%k for x, k in zip(b, w)])]; out = np.full(want.shape, np.nan); bb = np.array(b)
    for i, o in utils.sbox_wrap(bb, wrap=w): out[utils.sbox2slice(o)] = A[utils.sbox2slice(i)]
    c.same(out, want, "periodic box")
    cap = [c.int(1,k) for k in w]; out = np.full(want.shape, np.nan); ok = np.ones(want.shape, bool)
    for i, (x, k, q) in enumerate(zip(b, w, cap)): m = np.array(list(range(*x)))%k < q; ok &= m.reshape((-1,)+(1,)*(nd-1-i))
    B = A[tuple(slice(0,q) for q in cap)]
    for i, o in utils.sbox_wrap(bb, wrap=w, cap=cap): out[utils.sbox2slice(o)] = B[utils.sbox2slice(i)]
    c.same(np.isfinite(out), ok, "capped box: extent"); c.same(out[np.isfinite(out)], want[ok], "capped box")

def tiles(c):
    n = c.int(1,5); g, pre, shape, wcs, ts = tg(c, nmax=20); dt = c.pick(np.float64, np.float32, np.int64); acts = [active(c, g.ntile) for i in range(n)]; T = [mk(c, g, a, dt) for a in acts]; tot = sum(dense(t, pre, shape, ts, a).astype(dt) for t, a in zip(T, acts)); own = set(int(i) for a in acts for i in a); c.note(ntask=n, active=[list(map(int, a))[:6] for a in acts], dtype=np.dtype(dt).name); keep = [np.array(t) for t in T]; tol = dict(rtol=1e-5 if dt == np.float32 else 1e-12)
    # automatic: every tile in exactly one task
    R = go(c, n, lambda q: tilemap.redistribute(T[q.rank], q)); seen = [int(i) for r in R for i in r.active]; c.ok(sorted(seen) == sorted(own), "tiles after redistribution %s" % seen); c.close(sum(np.asarray(tilemap.to_enmap(r)) for r in R), tot, "redistributed map", **tol); c.ok(max(r.nactive for r in R)-min(r.nactive for r in R) <= 1, "unbalanced")
    # asked for
    want = [active(c, g.ntile) for i in range(n)]; R = go(c, n, lambda q: tilemap.redistribute(T[q.rank], q, active=want[q.rank]))
    for r, w in zip(R, want): c.ok(list(r.active) == list(w) and r.dtype == dt, "tiles asked for"); c.close(np.asarray(tilemap.to_enmap(r)), tot*mask(w, shape, ts), "tiles sent to the task that asked", **tol)
    O = [mk(c, g, w, dt) for w in want]; R = go(c, n, lambda q: tilemap.redistribute(T[q.rank], q, omap=O[q.rank]))
    for o, w in zip(O, want): c.close(np.asarray(tilemap.to_enmap(o)), tot*mask(w, shape, ts), "given output map", **tol)
    root = c.int(0, n-1); R = go(c, n, lambda q: tilemap.reduce(T[q.rank], q, root=root)); c.close(np.asarray(tilemap.to_enmap(R[root])), tot, "reduced map", **tol); c.ok(set(R[root].active) == own and all(r.nactive == 0 for i, r in enumerate(R) if i != root), "tiles after reduction")
    for r in go(c, n, lambda q: tilemap.get_active_distributed(T[q.rank], q)): c.ok(list(r) == sorted(own), "tiles owned by anybody")
    for t, k in zip(T, keep): c.same(np.asarray(t), k, "input changed")
    if len(pre) < 2 and c.flip(0.5):
        f = os.path.join(c.tmpdir(), "a.fits"); warnings.simplefilter("ignore"); go(c, n, lambda q: tilemap.write_map(f, T[q.rank], q)); e = enmap.read_map(f); c.close(np.asarray(e), tot, "written map", **tol)

MONITORS = [("gather", gather, 60, 1200), ("sendrecv", sendrecv, 30, 500), ("redistribute", redistribute, 60, 1500), ("sboxes", sboxes, 200, 6000), ("wrapped", wrapped, 150, 4000), ("tiles", tiles, 40, 800)]

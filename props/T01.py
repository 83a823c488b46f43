"""Tiled and stacked maps: TileMap, ndmaps"""
import numpy as np, os, operator, warnings
from gen import arr, patch, anygeo, note_geo, skygrid, check_positions, mkwcs
from pixell import enmap, tilemap, multimap, utils

INFO = {"rule": "the dense map: every tiled or stacked operation is compared with the same operation on ordinary maps",
  "assumptions": ["where two tiled maps with different active tiles are combined, tiles missing on the left count as zero and tiles missing on the right leave the left unchanged, as in the code comments"]}

def tg(c, pre=None, nmax=30):
    shape, wcs = patch(c, projs=("car","cea","tan"), nmin=1 if c.flip(0.2) else 3, nmax=nmax); ts = c.pick((c.int(1,nmax), c.int(1,nmax)), (c.int(1,8), c.int(1,8)), (4,4)); ts = ts if c.flip(0.8) else ts[0]; pre = c.pick((), (), (3,), (2,1), (1,), (2,3)) if pre is None else pre
    g = tilemap.geometry(pre+tuple(shape), wcs, tile_shape=ts); note_geo(c, shape, wcs); c.note(pre=pre, tile=ts, ntile=int(g.ntile)); return g, pre, tuple(int(s) for s in shape), wcs, (tuple(ts) if np.ndim(ts) else (ts,ts))

def active(c, n):
    k = c.pick(0, 1, c.int(0,n), n); k = min(k, n); a = c.rng.permutation(n)[:k]; return a if c.flip(0.7) else np.sort(a)

def box(i, shape, ts):
    nx = -(-shape[1]//ts[1]); ty, tx = i//nx, i%nx; return slice(ty*ts[0], min((ty+1)*ts[0], shape[0])), slice(tx*ts[1], min((tx+1)*ts[1], shape[1]))

def dense(t, pre, shape, ts, act):
    """expand by hand"""
    o = np.zeros(tuple(pre)+shape, t.dtype); a = np.asarray(t); off = 0
    for i in act:
        s = box(i, shape, ts); n = (s[0].stop-s[0].start)*(s[1].stop-s[1].start); o[(Ellipsis,)+s] = a[...,off:off+n].reshape(tuple(pre)+(s[0].stop-s[0].start, s[1].stop-s[1].start)); off += n
    assert off == a.shape[-1]; return o

def mask(act, shape, ts):
    m = np.zeros(shape, bool)
    for i in act: m[box(i, shape, ts)] = True
    return m

def mk(c, g, act, dt=np.float64):
    t = tilemap.zeros(g.copy(active=act), dtype=dt); t[...] = (arr(c, t.shape)*3).astype(dt); return t

def tiling(c):
    g, pre, shape, wcs, ts = tg(c); ny, nx = -(-shape[0]//ts[0]), -(-shape[1]//ts[1]); c.ok(g.ntile == ny*nx and tuple(g.grid_shape) == (ny,nx), "number of tiles"); c.ok(g.nactive == 0 and g.pre == pre, "fresh geometry")
    cover = np.zeros(shape, int); P = skygrid(shape, wcs)
    for i in range(g.ntile):
        s = box(i, shape, ts); cover[s] += 1; q = g.tiles[i]; c.ok(tuple(q.shape) == pre+cover[s].shape, "shape of tile %d: %s" % (i, q.shape)); c.ok(tuple(g.tile_shapes[i]) == cover[s].shape and g.npixs[i] == cover[s].size, "size of tile %d" % i)
        if i < 6 or i > g.ntile-3: check_positions(c, enmap.posmap(q.shape, q.wcs), P[(slice(None),)+s], "sky position of tile %d" % i)
        ty, tx = g.ind2grid(i); c.ok((ty,tx) == (i//nx, i%nx) and g.grid2ind(ty, tx) == i, "grid index")
    c.ok(np.all(cover == 1), "the tiles do not cover the map exactly once")
    a = active(c, g.ntile); h = g.copy(active=a); c.ok(np.array_equal(h.active, a) and g.nactive == 0, "active tiles"); c.ok(all(h.lookup[i] == (list(a).index(i) if i in a else -1) for i in range(g.ntile)), "lookup"); b = active(c, g.ntile); k = h.copy(add_active=b); c.ok(list(k.active) == list(a)+[i for i in b if i not in a], "added tiles"); c.ok(all(k.active[k.lookup[i]] == i for i in k.active), "lookup of added tiles")
    c.ok(np.array_equal(h.copy(active="all").active, np.arange(g.ntile)), "all tiles"); h2 = h.copy(pre=(5,)); c.ok(tuple(h2.shape) == (5,)+shape and tuple(h.shape) == pre+shape, "leading dimensions of a copy"); c.ok(h.size == np.prod(pre)*sum(int(g.npixs[i]) for i in a), "size")
    d = tilemap.geometry(pre+shape, wcs, tile_shape=ts, active=a); c.ok(np.array_equal(d.active, a) and np.array_equal(d.lookup, h.lookup), "active tiles given at once")
    c.ok(h.compatible(d) == 2 and h.compatible(h.copy(pre=(9,))) == 2, "same tiles"); c.ok(h.compatible(g.copy(active=b)) == (2 if np.array_equal(a, b) else 1), "different tiles"); o = tilemap.geometry(pre+shape, wcs, tile_shape=(ts[0]+1, ts[1])); c.ok(h.compatible(o) == 0, "different tilings"); o = tilemap.geometry(pre+(shape[0]+1, shape[1]), wcs, tile_shape=ts); c.ok(h.compatible(o) == 0, "different maps")

def contents(c):
    g, pre, shape, wcs, ts = tg(c); a = active(c, g.ntile); dt = c.pick(np.float64, np.float32, np.int32, complex); t = mk(c, g, a, dt); c.note(active=list(map(int, a))[:10], dtype=dt.__name__); D = dense(t, pre, shape, ts, a); c.ok(t.shape == pre+(int(mask(a, shape, ts).sum()),) and t.dtype == dt, "shape"); c.ok(t.nactive == len(a) and t.ntile == g.ntile and t.pre == pre, "properties")
    with c.keeps("to_enmap", t): e = tilemap.to_enmap(t)
    c.same(np.asarray(e), D, "full map"); check_positions(c, enmap.posmap(e.shape, e.wcs), skygrid(shape, wcs), "sky position of the full map")
    seen = 0
    for i, (v, w) in enumerate(zip([t.tiles[i] for i in range(g.ntile)], t.tiles)):
        s = box(i, shape, ts)
        if i not in a: c.ok(v is None and w is None, "inactive tile %d" % i)
        else:
            c.same(np.asarray(v), D[(Ellipsis,)+s], "tile %d" % i); c.same(np.asarray(w), D[(Ellipsis,)+s], "tile %d of the iterator" % i); k = list(a).index(i); c.same(np.asarray(t.active_tiles[k]), D[(Ellipsis,)+s], "active tile %d" % k); c.ok(np.shares_memory(v, t), "tiles are views"); seen += 1
            check_positions(c, enmap.posmap(v.shape, v.wcs), skygrid(shape, wcs)[(slice(None),)+s], "sky position of tile %d" % i); c.same(np.asarray(t.tiles[np.int64(i)]), np.asarray(v), "numpy index"); c.same(np.asarray(t.tiles[i,...,::2,0]), D[(Ellipsis,)+s][...,::2,0], "part of a tile"); c.same(np.asarray(t.tiles[i,:1]), D[(Ellipsis,)+s][:1], "part of a tile along its first axis"); c.same(np.asarray(t.active_tiles[k,-1]), D[(Ellipsis,)+s][-1], "part of an active tile")
    c.ok(len(t.tiles) == g.ntile and len(t.active_tiles) == len(a) == seen, "lengths"); c.ok([v.shape for v in t.active_tiles] == [D[(Ellipsis,)+box(i, shape, ts)].shape for i in a], "shapes of active tiles")
    # writing
    if len(a):
        i = int(c.choice(list(a))); s = box(i, shape, ts); E = D.copy(); E[(Ellipsis,)+s] = 5; u = t.copy(); u.tiles[i] = 5; c.same(np.asarray(tilemap.to_enmap(u)), E, "assigned tile"); c.same(np.asarray(tilemap.to_enmap(t)), D, "a copy shares its values")
        u = t.copy(); val = (arr(c, E[(Ellipsis,)+s].shape)*9).astype(dt); u.active_tiles[list(a).index(i)] = val; E[(Ellipsis,)+s] = val; c.same(np.asarray(tilemap.to_enmap(u)), E, "assigned active tile"); u = t.copy(); u.tiles[i,...,0] = 7; E = D.copy(); E[(Ellipsis,)+s][...,0] = 7; c.same(np.asarray(tilemap.to_enmap(u)), E, "assigned part of a tile"); u = t.copy(); x = u.tiles[i]; x[...] = 3; E = D.copy(); E[(Ellipsis,)+s] = 3; c.same(np.asarray(tilemap.to_enmap(u)), E, "tile changed in place")
    no = [i for i in range(g.ntile) if i not in a]
    if no:
        def put(): t.copy().tiles[int(no[0])] = 1
        c.raises(IndexError, put, "assigning an inactive tile")
    # slices of the leading dimensions
    if pre:
        k = c.int(0, pre[0]-1); v = t[k]; c.ok(isinstance(v, tilemap.TileMap) and v.pre == pre[1:], "slice of the leading dimension"); c.same(np.asarray(tilemap.to_enmap(v)), D[k], "values of the slice"); v = t[:1]; c.same(np.asarray(tilemap.to_enmap(v)), D[:1], "range of the leading dimension"); v = t[None]; c.same(np.asarray(tilemap.to_enmap(v)), D[None], "new dimension"); c.ok(t.pre == pre, "slicing changed the source")
        for nm, v, w in (("sum", np.sum(t, 0), D.sum(0)), ("max", np.max(t.real, 0), D.real.max(0)*mask(a, shape, ts))): c.close(np.asarray(tilemap.to_enmap(v)), w, "%s over the leading dimension" % nm, rtol=1e-5)
    p = t[...,:2]; c.ok(type(p) is np.ndarray, "slice of the pixels is not a plain array"); c.same(p, np.asarray(t)[...,:2], "slice of the pixels")
    # construction
    f = tilemap.full(g.copy(active=a), 4, dt); c.same(np.asarray(tilemap.to_enmap(f)), np.broadcast_to(4*mask(a, shape, ts), pre+shape).astype(dt), "full"); z = tilemap.empty(g.copy(active=a), dt); c.ok(z.shape == t.shape and z.dtype == dt, "empty"); L = [enmap.ndmap(D[(Ellipsis,)+box(i, shape, ts)].copy(), g.tiles[i].wcs) if i in a else None for i in range(g.ntile)]; r = tilemap.from_tiles(L, g.copy(active=active(c, g.ntile), pre=(7,)))
    if len(a): c.same(np.asarray(tilemap.to_enmap(r)), D, "from tiles"); r = tilemap.from_active_tiles([L[i] for i in a], g.copy(active=a, pre=())); c.same(np.asarray(tilemap.to_enmap(r)), D, "from active tiles")
    else: c.ok(r.nactive == 0, "from no tiles")
    c.raises(ValueError, lambda: tilemap.from_active_tiles([None]*(len(a)+1), g.copy(active=a)), "wrong number of tiles")

def with_tiles(c):
    g, pre, shape, wcs, ts = tg(c, nmax=20); a, b = active(c, g.ntile), active(c, g.ntile); t = mk(c, g, a); D = dense(t, pre, shape, ts, a); c.note(a=list(map(int,a))[:8], b=list(map(int,b))[:8])
    for strict in (False, True):
        o = c.pick(b, list(b), tilemap.zeros(g.copy(active=b))); 
        with c.keeps("with_tiles", t): r = t.with_tiles(o, strict=strict)
        c.ok(set(r.active) == (set(b) if strict else set(a)|set(b)), "active tiles %s" % list(r.active)); c.ok(not strict or list(r.active) == list(b), "order of the active tiles"); c.same(np.asarray(tilemap.to_enmap(r)), D*(mask(b, shape, ts) if strict else 1), "values, strict=%s" % strict); c.ok(r.size == 0 or not np.shares_memory(r, t), "result shares values")
    r = t.with_tiles("all"); c.ok(set(r.active) == set(range(g.ntile)), "all tiles"); c.same(np.asarray(tilemap.to_enmap(r)), D, "values with all tiles")

OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv, "floordiv": operator.floordiv, "pow": operator.pow}
CMP = {"lt": operator.lt, "le": operator.le, "eq": operator.eq, "ne": operator.ne, "ge": operator.ge, "gt": operator.gt}
INP = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul, "truediv": operator.itruediv}

def arithmetic(c):
    g, pre, shape, wcs, ts = tg(c, nmax=20); a = active(c, g.ntile); same = c.flip(0.4); b = a if same else active(c, g.ntile); pb = c.pick(pre, pre, (), (1,)*len(pre)); t = mk(c, g, a); u = mk(c, g.copy(pre=pb), b); c.note(a=list(map(int,a))[:8], b=list(map(int,b))[:8], preb=pb); t += np.sign(np.asarray(t)) if t.size else 0; u += np.sign(np.asarray(u)) if u.size else 0
    A, B = dense(t, pre, shape, ts, a), dense(u, pb, shape, ts, b); MA, MB = mask(a, shape, ts), mask(b, shape, ts); M = MA|MB; np.seterr(all="ignore"); al = np.array_equal(a, b)
    for n in c.rng.permutation(list(OPS))[:3]:
        n = str(n)
        if n == "pow": t2, A2 = tilemap.TileMap(np.abs(t), t.geometry), np.abs(A)
        else: t2, A2 = t, A
        with c.keeps(n, t, u): r = OPS[n](t2, u)
        c.ok(isinstance(r, tilemap.TileMap) and set(r.active) == set(a)|set(b) and r.pre == np.broadcast_shapes(pre, pb), "%s: tiles of the result" % n); w = np.where(MB, OPS[n](A2, B), np.broadcast_to(A2, np.broadcast_shapes(A2.shape, B.shape))); w = np.where(M, w, 0); c.close(np.nan_to_num(np.asarray(tilemap.to_enmap(r))), np.nan_to_num(w), "%s of tiled maps" % n, rtol=1e-12); c.ok(t2 is t and t.pre == pre or n == "pow", "operand geometry")
        s = c.pick(2, 0.5, -3); r = OPS[n](t2, s); c.close(np.asarray(tilemap.to_enmap(r)), np.where(MA, OPS[n](A2, s), 0), "%s with a number" % n, rtol=1e-12); s = abs(s); r = OPS[n](s, t2); c.close(np.asarray(tilemap.to_enmap(r)), np.where(MA, OPS[n](s, A2), 0), "%s of a number" % n, rtol=1e-12)
    if al:
        n = c.choice(sorted(CMP)); r = CMP[n](t, u); c.same(np.asarray(tilemap.to_enmap(r)), np.where(MA, CMP[n](A, B), False), "%s" % n); c.ok(r.dtype == bool, "type of a comparison")
    # in place
    n = c.choice(sorted(INP)); x = t.copy(); keep = x
    grow = len(set(b)-set(a)) > 0; wide = np.broadcast_shapes(pre, pb) != pre
    if grow or wide and not al: c.raises(ValueError, lambda: INP[n](x, u), "in-place operation that would grow the map"); c.same(np.asarray(x), np.asarray(t), "refused operation changed the map") if grow else None
    elif not wide:
        x = INP[n](x, u); w = np.where(MB, OPS[n](A, B), A); w = np.where(MA, w, 0); c.close(np.nan_to_num(np.asarray(tilemap.to_enmap(x))), np.nan_to_num(w), "in-place %s" % n, rtol=1e-12); c.close(np.nan_to_num(np.asarray(keep)), np.nan_to_num(np.asarray(x)), "in-place operation left the map behind")
    # insert, functions, matrices
    with c.keeps("insert", t, u): r = t.insert(u) if pb == pre else tilemap.insert(t, u, op=lambda p, q: q+0*p)
    c.close(np.asarray(tilemap.to_enmap(r)), np.where(M, np.where(MB, B, np.broadcast_to(A, np.broadcast_shapes(A.shape, B.shape))), 0), "inserted map"); f = c.pick(np.exp, np.sin, np.abs, np.negative); r = f(t); c.ok(isinstance(r, tilemap.TileMap), "type"); c.close(np.asarray(tilemap.to_enmap(r)), np.where(MA, f(A), 0), "function of a tiled map", rtol=1e-12)
    h = g.copy(pre=(2,3)); m = mk(c, h, a); v = mk(c, g.copy(pre=(3,)), a); r = tilemap.map_mul(m, v); c.close(np.asarray(tilemap.to_enmap(r)), np.einsum("abyx,byx->ayx", dense(m, (2,3), shape, ts, a), dense(v, (3,), shape, ts, a)), "map_mul", rtol=1e-10); sc = mk(c, g.copy(pre=()), a); r = tilemap.map_mul(sc, v); c.close(np.asarray(tilemap.to_enmap(r)), dense(sc, (), shape, ts, a)*dense(v, (3,), shape, ts, a), "scalar map_mul", rtol=1e-10)
    o = tilemap.geometry(pre+shape, wcs, tile_shape=(ts[0]+1, ts[1]+1), active=[0]); c.raises(ValueError, lambda: t+tilemap.zeros(o), "different tilings")

# stacked maps
def mms(c, pre=None, dt=None, n=None, same=False):
    n = n or c.pick(1, 2, 3, 4); pre = c.pick((), (), (1,), (2,), (3,), (2,3)) if pre is None else pre; dt = dt or c.pick(np.float64, np.float32); geos = [anygeo(c, nmax=14) for i in range(n)]; maps = [enmap.ndmap((arr(c, pre+tuple(s))).astype(dt), w) for s, w in geos]; c.note(n=n, pre=pre, shapes=[tuple(map(int, s)) for s, w in geos], dtype=np.dtype(dt).name); return maps, geos, pre, dt

def allsame(c, mm, maps, msg, tol=0, **kw):
    c.ok(isinstance(mm, multimap.ndmaps) and mm.nmap == len(maps), "%s: not a list of %d maps" % (msg, len(maps)))
    for i, m in enumerate(maps):
        v = mm.maps[i]; c.ok(v.shape == m.shape, "%s: shape of map %d: %s instead of %s" % (msg, i, v.shape, m.shape)); (c.same if not tol else lambda p, q, r: c.close(p, q, r, rtol=tol, **kw))(np.asarray(v), np.asarray(m), "%s: map %d" % (msg, i)); check_positions(c, enmap.posmap(v.shape, v.wcs), enmap.posmap(m.shape, m.wcs), "%s: sky position of map %d" % (msg, i))

def stacks(c):
    maps, geos, pre, dt = mms(c)
    with c.keeps("multimap", *maps): mm = multimap.multimap(maps)
    allsame(c, mm, maps, "stacked maps"); c.ok(mm.pre == pre and mm.dtype == dt and mm.ntot == sum(m.shape[-2]*m.shape[-1] for m in maps) and list(mm.npixs) == [m.shape[-2]*m.shape[-1] for m in maps] and len(mm.maps) == len(maps), "properties"); c.ok(not any(np.shares_memory(mm, m) for m in maps), "shares values")
    s = c.pick(2, 0.5); warnings.simplefilter("error"); allsame(c, mm*s+1, [m*s+1 for m in maps], "arithmetic", 1e-6); allsame(c, mm-mm*2, [m-m*2 for m in maps], "arithmetic of stacks", 1e-6); allsame(c, np.exp(mm), [np.exp(m) for m in maps], "functions", 1e-6); x = mm.copy(); x *= 3; allsame(c, x, [m*3 for m in maps], "in-place arithmetic", 1e-6); allsame(c, mm, maps, "source of a copy"); warnings.simplefilter("default")
    i = c.int(0, len(maps)-1); x = mm.copy(); x.maps[i] = 7; allsame(c, x, [m if j != i else m*0+7 for j, m in enumerate(maps)], "assigned map"); x = mm.copy(); x.maps[i,...,0,:] = 5; y = maps[i].copy(); y[...,0,:] = 5; allsame(c, x, [m if j != i else y for j, m in enumerate(maps)], "assigned part"); c.same(np.asarray(mm.maps[i,...,:,0]), np.asarray(maps[i])[...,:,0], "part of a map"); x = mm.copy(); v = x.maps[i]; v[...] = 1; allsame(c, x, [m if j != i else m*0+1 for j, m in enumerate(maps)], "maps are views")
    if pre: allsame(c, mm[0], [m[0] for m in maps], "leading slice"); allsame(c, mm.contig(), maps, "contiguous")
    for f in ("mean","median","max","min","var","std"): c.close(getattr(multimap, f)(mm), [getattr(np, f)(np.asarray(m, np.float64), (-2,-1)) for m in maps], f, rtol=2e-4, atol=2e-4)
    full = [(pre+tuple(s), w) for s, w in geos]; allsame(c, multimap.zeros(full, dt), [m*0 for m in maps], "zeros"); e = multimap.empty(full, dt); c.ok(e.shape == mm.shape and e.dtype == dt, "empty"); allsame(c, multimap.full(full, 2.5), [m.astype(float)*0+2.5 for m in maps], "full"); vs = arr(c, (len(maps),)); allsame(c, multimap.full(full, vs), [m.astype(float)*0+q for m, q in zip(maps, vs)], "one value per map"); vs = arr(c, pre+(len(maps),)); allsame(c, multimap.full(full, vs, dt), [m*0+vs[...,j,None,None].astype(dt) for j, m in enumerate(maps)], "one value per map and component")
    g = multimap.nopre(full); c.ok([tuple(q.shape) for q in g] == [tuple(s) for s, w in geos], "nopre"); c.ok(multimap.multimap([]).nmap == 0 and multimap.zeros([]).size == 0, "empty list")
    if len(maps) > 1: c.raises(ValueError, lambda: multimap.multimap([maps[0]]+[enmap.ndmap(np.zeros((9,)+m.shape), m.wcs) for m in maps[1:]]), "different leading dimensions")
    allsame(c, multimap.samegeos(np.asarray(mm)*2, 5, mm), [m*2 for m in maps], "samegeos", 1e-6)

def stack_geo(c):
    maps, geos, pre, dt = mms(c); mm = multimap.multimap(maps); g = mm.geometries; E = lambda f: [f(*q) for q in geos]; dt = c.pick(np.float64, np.float32); t = 1e-9 if dt == np.float64 else 1e-5; o = c.pick(1, 1, 2)
    for nm, a, b, w in (("posmap", lambda: mm.posmap(dtype=dt), lambda: multimap.posmap(g, dtype=dt), enmap.posmap), ("pixmap", lambda: mm.pixmap(dtype=dt), lambda: multimap.pixmap(g, dtype=dt), enmap.pixmap), ("lmap", lambda: mm.lmap(dtype=dt), lambda: multimap.lmap(g, dtype=dt), enmap.lmap), ("modlmap", lambda: mm.modlmap(dtype=dt), lambda: multimap.modlmap(g, dtype=dt), enmap.modlmap), ("lmap oversampled", lambda: mm.lmap(oversample=o, dtype=dt), lambda: multimap.lmap(g, oversample=o, dtype=dt), lambda s, w: enmap.lmap(s, w, oversample=o)), ("modrmap", lambda: mm.modrmap(dtype=dt), lambda: multimap.modrmap(g, dtype=dt), enmap.modrmap), ("pixsizemap", None, lambda: multimap.pixsizemap(g, dtype=dt), enmap.pixsizemap)):
        w = E(w)
        for q in (a, b):
            if q is None: continue
            r = q(); c.ok(r.dtype == dt and r.nmap == len(w), "%s: type" % nm)
            for i in range(len(w)): c.close(np.asarray(r.maps[i]), np.asarray(w[i]), "%s of map %d" % (nm, i), rtol=t, atol=t*np.max(np.abs(w[i])))
    c.close(mm.pixsize(dtype=dt), E(enmap.pixsize), "pixsize", rtol=t); c.close(multimap.pixsize(g), E(enmap.pixsize), "pixsize", rtol=1e-12)

def stack_ops(c):
    pre = c.pick((), (1,), (3,), (2,3)); maps, geos, pre, dt = mms(c, pre=pre); mm = multimap.multimap(maps); sp = [0] if not pre or pre[-1] != 3 else c.pick([0,2], [0]); t = 1e-9 if dt == np.float64 else 1e-4; nz = c.pick(True, True, False, "phys"); c.note(spin=sp, normalize=nz); at = lambda ms: dict(atol=t*max(1e-30, max(np.max(np.abs(m)) for m in ms)))
    def cmp(msg, r, w): allsame(c, r, w, msg, t, **at(w))
    with c.keeps("fft", mm): f = multimap.fft(mm, normalize=nz)
    w = [enmap.fft(m, normalize=nz) for m in maps]; cmp("fft", f, w); om = mm*0j; multimap.fft(mm, omap=om, normalize=nz); cmp("fft into a given stack", om, w)
    with c.keeps("ifft", f): b = multimap.ifft(f, normalize=nz)
    cmp("ifft", b, [enmap.ifft(x, normalize=nz) for x in w]); c.close(np.asarray(b.real), np.asarray(mm), "fft there and back", rtol=t, atol=t) if nz else None
    with c.keeps("dct", mm): d = multimap.dct(mm)
    cmp("dct", d, [enmap.dct(m) for m in maps]); cmp("idct", multimap.idct(d), maps)
    cmp("dct_adjoint", multimap.dct_adjoint(mm, normalize=nz), [enmap.dct_adjoint(m, normalize=nz) for m in maps]); cmp("idct_adjoint", multimap.idct_adjoint(mm, normalize=nz), [enmap.idct_adjoint(m, normalize=nz) for m in maps])
    cmp("fft_adjoint", multimap.fft_adjoint(f, normalize=nz), [enmap.fft_adjoint(x, normalize=nz) for x in w]); cmp("ifft_adjoint", multimap.ifft_adjoint(f, normalize=nz), [enmap.ifft_adjoint(x, normalize=nz) for x in w])
    cmp("ifft of a real stack", multimap.ifft(mm, normalize=nz), [enmap.ifft(m+0j, normalize=nz) for m in maps])
    with c.keeps("map2harm", mm): h = multimap.map2harm(mm, normalize=nz, spin=sp)
    hw = [enmap.map2harm(m, normalize=nz, spin=sp) for m in maps]; cmp("map2harm", h, hw); cmp("harm2map", multimap.harm2map(h, normalize=nz, spin=sp), maps if nz else [enmap.harm2map(x, normalize=nz, spin=sp) for x in hw]); ki = multimap.harm2map(h, normalize=nz, spin=sp, keep_imag=True); cmp("harm2map with imaginary part", ki, [enmap.harm2map(x, normalize=nz, spin=sp, keep_imag=True) for x in hw])
    cmp("harm2map_adjoint", multimap.harm2map_adjoint(mm, spin=sp, normalize=nz), [enmap.harm2map_adjoint(m, spin=sp, normalize=nz) for m in maps]); cmp("map2harm_adjoint", multimap.map2harm_adjoint(h, spin=sp, normalize=nz), [enmap.map2harm_adjoint(x, spin=sp, normalize=nz) for x in hw])
    if pre and pre[-1] == 3:
        ik = dict(spin=sp, normalize=nz, iau=c.flip()); hi = [enmap.map2harm(m, **ik) for m in maps]; cmp("map2harm in either convention", multimap.map2harm(mm, **ik), hi); cmp("harm2map in either convention", multimap.harm2map(h, **ik), [enmap.harm2map(x, **ik) for x in h.maps]); cmp("harm2map_adjoint in either convention", multimap.harm2map_adjoint(mm, **ik), [enmap.harm2map_adjoint(m, **ik) for m in maps]); cmp("map2harm_adjoint in either convention", multimap.map2harm_adjoint(h, **ik), [enmap.map2harm_adjoint(x, **ik) for x in h.maps]); Q = multimap.lmap(mm.geometries); cmp("queb_rotmat in either convention", multimap.queb_rotmat(Q, iau=ik["iau"]), [enmap.queb_rotmat(enmap.lmap(*g), iau=ik["iau"]) for g in geos])
        ang = c.uni(-3,3); cp = c.pick(None, [0,2], [1,2]); r = multimap.rotate_pol(mm, ang) if cp is None else multimap.rotate_pol(mm, ang, comps=cp); cp = cp or [-2,-1]; cmp("rotate_pol", r, [enmap.rotate_pol(m, ang, comps=cp) for m in maps])
        q = multimap.multimap([enmap.ndmap(arr(c, pre[:-1]+(2,3)+m.shape[-2:]), m.wcs) for m in maps]); cmp("map_mul", multimap.map_mul(q, mm), [enmap.map_mul(a, b) for a, b in zip(q.maps, maps)])
    s = multimap.multimap([enmap.ndmap(arr(c, m.shape[-2:]), m.wcs) for m in maps]); cmp("scalar map_mul", multimap.map_mul(s, mm), [a*b for a, b in zip(s.maps, maps)])
    L = multimap.lmap(mm.geometries); inv = c.flip(); r = multimap.queb_rotmat(L, inverse=inv); cmp("queb_rotmat", r, [enmap.queb_rotmat(enmap.lmap(*g), inverse=inv) for g in geos])

def stack_io(c):
    maps, geos, pre, dt = mms(c, dt=c.pick(np.float64, np.float32, np.int32, np.int16)); mm = multimap.multimap(maps); d = c.tmpdir(); f = os.path.join(d, c.pick("a.fits", "sub/b.fits")); ex = c.pick({}, {"FOO": 5}); warnings.simplefilter("ignore")
    with c.keeps("write_map", mm): multimap.write_map(f, mm, extra=ex)
    r = multimap.read_map(f); allsame(c, r, maps, "file round trip"); c.ok(r.dtype == mm.dtype, "type %s after the round trip of %s" % (r.dtype, mm.dtype)); i = c.int(0, len(maps)-1); e = enmap.read_map(f, hdu=i); c.same(np.asarray(e), np.asarray(maps[i]), "one map of the file"); check_positions(c, enmap.posmap(e.shape, e.wcs), enmap.posmap(maps[i].shape, maps[i].wcs), "one map of the file")
    sl = np.s_[...,1:3,:2]; allsame(c, multimap.read_map(f, sel=sl), [m[sl] for m in maps], "part of a file")
    multimap.write_map(f, mm*2); allsame(c, multimap.read_map(f), [m*2 for m in maps], "overwritten file")

MONITORS = [("tiling", tiling, 60, 1500), ("contents", contents, 80, 2000), ("with_tiles", with_tiles, 60, 1500), ("arithmetic", arithmetic, 100, 2500), ("stacks", stacks, 60, 1200), ("stack_geo", stack_geo, 40, 700), ("stack_ops", stack_ops, 50, 900), ("stack_io", stack_io, 30, 500)]

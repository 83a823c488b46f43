"""U01: index, range, box, axis, grouping and binning helpers do what they are documented to for every input"""
import numpy as np, itertools, math, fnmatch, re, os
from pixell import utils, bunch, bench
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8, "assumptions": []}

def vals(c, n, kind=None):
    kind = kind or c.pick("int","int","float","str")
    if kind == "int": return c.rng.integers(-6, 7, n)
    if kind == "float": return np.round(c.uni(-3,3,n),1)
    return np.array(["abcdefgh"[i]*(1+i%2) for i in c.rng.integers(0,8,n)], dtype="U4")

def finding(c):
    kind = c.pick("int","float","str"); n = c.int(1,12); a = vals(c, n, kind); k = c.int(0,6); c.note(kind=kind, n=n, k=k)
    v = a[c.rng.integers(0,n,k)]; L = c.flip(); ga = list(a) if L else a
    r = utils.find(ga, v); c.ok(len(r) == k and all(a[i] == x for i, x in zip(r, v)), "find")
    w = vals(c, c.int(0,6), kind); present = np.array([x in a.tolist() for x in w.tolist()], bool)
    if len(w) and not np.all(present): c.raises((ValueError,), lambda: utils.find(ga, w), "find of missing values must fail")
    r = np.asarray(utils.find(ga, w, default=-1)); c.ok(len(r) == len(w) and all((a[i] == x) if p else i == -1 for i, x, p in zip(r, w, present)), "find with default")
    r = np.asarray(utils.find_any(ga, w)); c.ok(len(r) == np.sum(present) and all(a[i] == x for i, x in zip(r, w[present])), "find_any skips missing entries")
    r = utils.contains(ga, w); c.same(np.asarray(r), np.array([x in w.tolist() for x in a.tolist()], bool), "contains")
    if kind != "str":
        q = c.uni(-8,8,c.int(0,6)); s = c.flip(); arr = np.sort(a) if s else a; r = np.asarray(utils.nearest_ind(arr, q, sorted=s)); c.ok(r.shape == q.shape and all(abs(arr[i]-x) <= np.min(np.abs(arr-x))+1e-12 for i, x in zip(r, q)), "nearest_ind")
    arrs = [vals(c, c.int(1,9), kind) for i in range(c.int(1,4))]; S = [set(x.tolist()) for x in arrs]; com = set.intersection(*S)
    if len(arrs) > 1:
        c.ok(sorted(np.asarray(utils.common_vals(arrs)).tolist()) == sorted(com), "common values"); c.ok(sorted(np.asarray(utils.union(arrs)).tolist()) == sorted(set.union(*S)), "union")
        ci = utils.common_inds(arrs); cv = np.asarray(utils.common_vals(arrs)).tolist(); c.ok(len(ci) == len(arrs) and all([x[i] for i in ii] == cv for x, ii in zip(arrs, ci)), "indices of common values")
    p = c.rng.permutation(n); c.same(a[p][utils.inverse_order(p)], a, "inverse order")
    sub = np.sort(c.rng.choice(n, c.int(0,n), replace=False)); r = utils.complement_inds(list(sub) if c.flip() else sub, n); c.ok(sorted(np.concatenate([sub, r]).astype(int).tolist()) == list(range(n)), "complement of indices"); c.ok(len(utils.complement_inds(None, n)) == 0, "complement of everything")
    m = c.uni(0,1,(n,)) > 0.4; pre = c.pick((),(2,)); full = c.uni(-1,1,pre+(n,)); r = utils.unmask(full[...,m], m, axis=len(pre), fill=7.); c.same(r, np.where(m, full, 7.), "unmask"); c.same(utils.unmask(full[...,m], m, axis=-1, fill=7.), np.where(m, full, 7.), "unmask with a negative axis")
    sh = tuple(c.rng.integers(1,4,c.int(1,3))); q = c.rng.permutation(int(np.prod(sh))).reshape(sh); c.ok(q[utils.argmax(q)] == q.size-1, "argmax")
    A = np.sort(c.rng.integers(0,9,(3,5)),-1); V = c.rng.integers(0,9,3); side = c.pick("left","right"); c.same(np.asarray(utils.search(A, V, side)), np.array([np.searchsorted(x, y, side) for x, y in zip(A, V)]), "search")
    seq = list(c.rng.integers(0,4,c.int(0,9))); r = utils.listsplit(seq, 1); c.ok(sum([x+[1] for x in map(list,r)],[])[:-1] == seq and all(1 not in x for x in r), "listsplit")
    d = c.rng.integers(0,3,c.int(1,12)); c.ok(utils.dedup(d).tolist() == [k for k, _ in itertools.groupby(d.tolist())], "dedup")
    mk = c.uni(0,1,c.int(0,12)) > 0.5; R = utils.mask2range(mk); rec = np.zeros(len(mk), bool)
    for x, y in R: c.ok(x < y and not rec[x:y].any(), "ranges of a mask are not empty"); rec[x:y] = True
    c.same(rec, mk, "mask2range"); c.ok(all(R[i+1,0] > R[i,1] for i in range(len(R)-1)), "ranges of a mask are maximal")
    lens = c.rng.integers(0,4,c.int(1,6)); parts = [c.uni(-1,1,l) for l in lens]; r = utils.uncat(np.concatenate(parts), lens); c.ok(len(r) == len(parts) and all(np.array_equal(x,y) for x, y in zip(r, parts)), "uncat")
    nr, nc = c.int(1,5), c.int(1,5); M = c.uni(-1,1,(nr,nc)); i = c.rng.integers(0,nr*nc,6); c.same(M.T.reshape(-1)[utils.transpose_inds(i,nr,nc)], M.reshape(-1)[i], "transposed indices")
    x = c.rng.integers(-50,50,c.int(0,5)); y = c.int(2,300); c.ok(math.prod(utils.primes(y)) == y and all(all(f % g for g in range(2,int(f**.5)+1)) for f in utils.primes(y)), "prime factors"); z = c.int(1,300); c.ok(utils.gcd(y,z) == math.gcd(y,z) and utils.lcm(y,z) == math.lcm(y,z), "gcd and lcm")
    num = c.pick(c.int(0,12), c.int(0,100000), 10**c.int(0,8), 10**c.int(1,8)-1); c.ok(utils.ndigit(num) == len(str(num)), "ndigit(%d)" % num)

def rset(c, n, lo=0, hi=40, disjoint=True):
    """n ranges in [lo,hi), in random order; not overlapping if asked"""
    if disjoint:
        e = np.sort(c.rng.choice(np.arange(lo,hi+1), 2*n, replace=False)).reshape(n,2)
        if n > 1 and c.flip(0.4): i = c.int(0,n-2); e[i,1] = e[i+1,0]
    else: e = np.sort(c.rng.integers(lo,hi,(n,2)),1)
    return e[c.rng.permutation(n)]
def cover(R, lo=-5, hi=60):
    m = np.zeros(hi-lo, bool)
    for a, b in R: m[a-lo:b-lo] = True
    return m

def ranges(c):
    a, b = rset(c, c.int(0,4)), rset(c, c.int(0,4)); 
    if c.flip(0.3) and len(b): b[0] = b[0,0]
    c.note(a=a.tolist(), b=b.tolist()); ga, gb = (a.tolist(), b.tolist()) if c.flip() else (a, b)
    with c.keeps("range_sub", a, b): r = np.asarray(utils.range_sub(ga, gb)).reshape(-1,2)
    c.same(cover(r), cover(a) & ~cover(b), "difference of ranges"); c.ok(np.all(r[:,1] > r[:,0]) and (len(r) == 0 or np.all(np.diff(r.reshape(-1)) >= 0)), "difference sorted, without empty ranges")
    if c.flip() and len(a):
        r2, ma, mab = utils.range_sub(ga, gb, mapping=True); r2 = np.asarray(r2).reshape(-1,2); c.same(r2, r, "difference with mapping")
        c.ok(len(ma) == len(r) and all(a[i,0] <= x and y <= a[i,1] for i, (x, y) in zip(ma, r)), "mapping to the ranges they came from")
        mab = [int(v) for v in mab]; pos = [r[v] if v >= 0 else b[-v-1] for v in mab]; c.ok(sorted(v for v in mab if v >= 0) == list(range(len(r))), "every remaining range appears once in the combined mapping"); c.ok(all(pos[i][0] <= pos[i+1][0] for i in range(len(pos)-1)), "combined mapping runs along the number line"); c.ok(len(set(mab)) == len(mab), "no range twice in the combined mapping")
    u = rset(c, c.int(0,6), disjoint=False)
    with c.keeps("range_union", u): r, m = utils.range_union(u.reshape(-1,2), mapping=True)
    c.same(cover(r), cover(u), "union of ranges"); c.ok(all(r[i,1] < r[i+1,0] for i in range(len(r)-1)), "union: merged and sorted"); c.ok(all(r[j,0] <= x and y <= r[j,1] for (x,y), j in zip(u, m)), "union: mapping"); c.same(np.asarray(utils.range_union(u.reshape(-1,2))), r, "union without mapping")
    q = c.rng.integers(0,20,(c.int(0,6),2)); r = utils.range_normalize(q); c.ok(r.tolist() == [x for x in q.tolist() if x[1] > x[0]], "normalized ranges")
    cuts = np.sort(c.rng.choice(np.arange(0,45), c.int(1,6), replace=False)); 
    if len(a):
        r = np.asarray(utils.range_cut(ga, cuts)).reshape(-1,2); want = []
        for x, y in sorted(a.tolist()): e = [x]+[k for k in cuts.tolist() if x < k < y]+[y]; want += [list(t) for t in zip(e[:-1], e[1:])]
        c.ok(r.tolist() == want, "cut ranges %s instead of %s" % (r.tolist(), want))
    sz = c.rng.integers(0,4,c.int(1,8)); cap = c.rng.integers(1,5,c.int(1,4)); r = utils.cumsplit(sz, cap); tot = np.cumsum(cap); c.ok(all(np.sum(sz[:i]) <= t and (i == len(sz) or np.sum(sz[:i+1]) > t) for i, t in zip(r, tot)), "cumsplit")

def boxes(c):
    nd = c.pick(2,2,1,3); n = c.int(1,5); B = np.sort(c.uni(-3,3,(n,2,nd)),1); c.note(nd=nd, n=n)
    bb = utils.bounding_box(B); c.close(bb, [B[:,0].min(0), B[:,1].max(0)], "bounding box of boxes"); P = c.uni(-2,2,(4,nd)); c.close(utils.bounding_box(P), [P.min(0), P.max(0)], "bounding box of points")
    b = B[0]; cn = utils.box2corners(b); want = {tuple(b[k,i] for i, k in enumerate(t)) for t in itertools.product((0,1),repeat=nd)}; c.ok(cn.shape == (2**nd,nd) and {tuple(x) for x in cn} == want, "corners of a box")
    if nd <= 2:
        k = c.int(2,5); ct = utils.box2contour(b, k); on = np.zeros(len(ct), bool); inside = np.ones(len(ct), bool)
        for i in range(nd): on |= np.isclose(ct[:,i], b[0,i]) | np.isclose(ct[:,i], b[1,i]); inside &= (ct[:,i] >= b[0,i]-1e-12) & (ct[:,i] <= b[1,i]+1e-12)
        c.ok(np.all(inside) and (nd == 1 or np.all(on)), "contour lies on the box"); c.ok(all(np.any(np.all(np.isclose(ct, w), 1)) for w in want), "contour passes the corners"); 
        if nd == 2: c.ok(len({tuple(np.round(x,9)) for x in ct}) >= 4*(k-1), "contour samples each edge")
    A = np.sort(c.uni(-3,3,(c.int(1,3),2,nd)),1); ov = utils.box_overlap(A, B); w = np.array([[np.prod(np.maximum(0, np.minimum(x[1],y[1])-np.maximum(x[0],y[0]))) for y in B] for x in A]); c.close(np.asarray(ov), w, "overlap areas", atol=1e-12)
    c.close(np.asarray(utils.box_overlap(A[0], B[0])), w[0,0], "overlap of two boxes", atol=1e-12); c.close(np.asarray(utils.box_overlap(A, B[0])), w[:,0], "overlap with one box", atol=1e-12)
    s = np.asarray(utils.box_slice(A, B))
    for i in range(len(A)):
        for j in range(len(B)):
            if w[i,j] > 0: c.close(s[i,j], [np.maximum(A[i,0],B[j,0])-A[i,0], np.minimum(A[i,1],B[j,1])-A[i,0]], "overlap relative to the corner", atol=1e-12)
    c.close(utils.box_area(B), np.prod(B[:,1]-B[:,0],-1), "areas")
    fl = c.rng.integers(0,2,nd).astype(bool); d = b.copy(); d[:,fl] = d[::-1][:,fl]; pad = c.pick(c.uni(0,1), c.uni(0,1,nd)); keep = d.copy(); r = utils.pad_box(d, pad); sg = np.where(fl,-1,1); c.close(r, [d[0]-pad*sg, d[1]+pad*sg], "padded box"); r = utils.widen_box(d, pad, relative=False); c.close(r, [d[0]-pad*sg/2, d[1]+pad*sg/2], "widened box"); r = utils.widen_box(d, pad); c.close(r, [d[0]-np.abs(d[1]-d[0])*pad*sg/2, d[1]+np.abs(d[1]-d[0])*pad*sg/2], "relatively widened box"); c.same(d, keep, "box left alone")
    rg = c.uni(-9,9,(2,)+c.pick((),(3,))); keep = rg.copy(); W = c.pick(2*np.pi, 7.); r = utils.unwrap_range(rg, W); c.same(rg, keep, "unwrap_range left its input alone"); x = r[1]-r[0]; c.ok(np.all(x >= -1e-9) and np.all(x < W+1e-9), "unwrapped range is short"); q = (r-keep)/W; c.ok(np.all(np.abs(q-np.round(q)) < 1e-9), "unwrapped by whole periods"); c.ok(np.all(r[1] >= -1e-9) and np.all(r[1] < W+1e-9), "unwrapped range straddles or starts next to zero")
    p = np.array([c.uni(-9,9,7), c.uni(-9,9,7)]); keep = p.copy(); r = utils.pole_wrap(p); c.same(p, keep, "pole_wrap input"); v = lambda q: np.array([np.cos(q[0])*np.cos(q[1]), np.cos(q[0])*np.sin(q[1]), np.sin(q[0])]); c.close(v(r), v(p), "same direction after pole_wrap", atol=1e-12); c.ok(np.all(np.abs(r[0]) <= np.pi/2+1e-12), "latitude range after pole_wrap")

def axesops(c):
    nd = c.int(1,4); sh = tuple(int(v) for v in c.rng.integers(c.pick(1,1,0),4,nd)); a = c.rng.permutation(int(np.prod(sh))).reshape(sh).astype(float); c.note(shape=sh)
    if c.flip() and nd > 1: a = np.moveaxis(np.ascontiguousarray(np.moveaxis(a,0,-1)),-1,0)
    k = c.int(1,nd); ax = [int(x)-(nd if c.flip() else 0) for x in c.rng.permutation(nd)[:k]]; pos = c.int(0,k); axn = [x%nd for x in ax]; rest = [i for i in range(nd) if i not in axn]; c.note(axes=ax, pos=pos)
    f = utils.partial_flatten(a, ax, pos); w = np.transpose(a, axn+rest).reshape([sh[i] for i in axn]+[int(np.prod([sh[i] for i in rest]))]); w = np.moveaxis(w, -1, pos); c.same(np.asarray(f), w, "partial_flatten"); c.same(np.asarray(utils.partial_expand(f, sh, ax, pos)), a, "partial_expand")
    b = a.copy(); orig = b.copy()
    with utils.flatview(b, ax, pos=pos) as fl: c.same(np.asarray(fl), w, "flatview"); fl[...] = fl*2+1
    c.same(b, orig*2+1, "changes to a flat view reach the array"); b = a.copy()
    with utils.flatview(b, ax, mode="r", pos=pos) as fl: pass
    c.same(b, a, "read-only flat view")
    add = sorted(int(v) for v in c.rng.choice(nd+1, c.int(1,2), replace=False)); r = utils.addaxes(a, add); w = a
    for x in sorted(add)[::-1]: w = np.expand_dims(w, x)
    c.same(np.asarray(r), w, "addaxes"); 
    if a.size: r = utils.delaxes(a, ax); w = np.moveaxis(a, axn, range(k))[(0,)*k]; c.same(np.asarray(r), w, "delaxes")
    n = c.int(0,6); r = utils.atleast_Nd(a, n); c.same(np.asarray(r), a.reshape((1,)*(n-nd)+sh), "atleast_Nd"); r = utils.atleast_3d(a); c.same(np.asarray(r), a.reshape((1,)*(3-nd)+sh), "atleast_3d")
    n = c.int(nd,nd+2); x = c.int(0,nd); c.same(np.asarray(utils.to_Nd(a, n, x)), a.reshape(sh[:x]+(1,)*(n-nd)+sh[x:]), "to_Nd"); c.same(np.asarray(utils.to_Nd(a, n, -1)), a.reshape(sh+(1,)*(n-nd)), "to_Nd at the end")
    if a.size:
        n = c.int(1,nd); x = c.int(0,n-1); r, s0 = utils.to_Nd(a, n, x, return_inverse=True); c.ok(r.ndim == n and s0 == sh and r.shape == sh[:x]+(int(np.prod(sh[x:x+1+nd-n])),)+sh[x+1+nd-n:], "to_Nd flattens"); c.same(np.asarray(r.reshape(s0)), a, "to_Nd and back")
        n = c.int(1,nd); c.same(np.asarray(utils.preflat(a,n)), a.reshape((-1,)+sh[n:]), "preflat"); c.same(np.asarray(utils.postflat(a,n)), a.reshape(sh[:nd-n]+(-1,)), "postflat")
        if n < nd: c.same(np.asarray(utils.preflat(a,-n)), a.reshape((-1,)+sh[nd-n:]), "preflat with negative n"); c.same(np.asarray(utils.postflat(a,-n)), a.reshape(sh[:n]+(-1,)), "postflat with negative n")
        n = c.int(1,nd); x = c.int(-n,-1); c.same(np.asarray(utils.to_Nd(a, n, x)), np.asarray(utils.to_Nd(a, n, n+x)), "to_Nd with a negative axis")
    neg = [-int(v) for v in c.rng.choice(np.arange(1,nd+1), 1)]; c.same(np.asarray(utils.addaxes(a, neg)), np.asarray(utils.addaxes(a, [nd+v for v in neg])), "addaxes with a negative axis"); c.ok(utils.only_inds(sh, None) == (), "no indices")
    # broadcasting
    base = tuple(int(v) for v in c.rng.integers(1,4,c.int(1,3))); shs = [tuple(s if c.flip(0.7) else 1 for s in base[c.int(0,len(base)):]) for i in range(c.int(1,3))]; c.ok(utils.broadcast_shape(*shs) == np.broadcast_shapes(*shs), "broadcast shape"); arrs = [c.uni(-1,1,s) for s in shs]; arrs2 = arrs+[None]; r = utils.broadcast_arrays(*arrs2); w = np.broadcast_arrays(*arrs); c.ok(r[-1] is None and all(np.array_equal(x,y) and x.shape == y.shape for x, y in zip(r, w)), "broadcast arrays")
    shb = [s[::-1] for s in shs]; want = np.broadcast_shapes(*shs)[::-1]; c.ok(utils.broadcast_shape(*shb, at=-1) == want, "broadcasting with new axes at the end"); r = utils.broadcast_arrays(*[x.T for x in arrs], at=-1); c.ok(all(np.array_equal(x, y.T) for x, y in zip(r, w)), "broadcast arrays with new axes at the end")
    pre = (5,); r = utils.broadcast_arrays(*[np.broadcast_to(x, pre+x.shape) for x in arrs], npre=1); c.ok(all(np.array_equal(x, np.broadcast_to(y, pre+y.shape)) for x, y in zip(r, w)), "broadcast arrays with untouched leading axes")
    bad = [(2,3),(4,3)]; c.raises((ValueError,), lambda: utils.broadcast_shape(*bad), "incompatible shapes must fail")
    # iteration
    ax2 = None if c.flip() else ax
    if a.size: got = list(utils.nditer(sh, ax2)); ww = [tuple(t) for t in itertools.product(*[range(s) if ax2 is None or i in axn else [slice(None)] for i, s in enumerate(sh)])]; c.ok(got == ww, "nditer")
    t = tuple(range(10,10+nd+2)); c.ok(utils.without_inds(t, ax) == tuple(v for i, v in enumerate(t) if i not in [x%(nd+2) for x in ax]) and utils.only_inds(t, ax) == tuple(t[x] for x in ax), "tuples without and with only some entries")
    z = a[:,None] if nd else a; r = utils.fix_zero_strides(np.lib.stride_tricks.as_strided(z, shape=z.shape, strides=tuple(0 if n == 1 else s for n, s in zip(z.shape, z.strides)))); c.same(np.asarray(r), z, "fix_zero_strides keeps the array"); 
    c.ok(utils.same_array(a, a) and not utils.same_array(a, a.copy()), "same_array")
    sz = int(c.rng.integers(0,6)); r = utils.resize_array(a, sz, axis=0, val=-5.); m = min(sz, sh[0]); c.ok(r.shape == (sz,)+sh[1:] and np.array_equal(r[:m], a[:m]) and np.all(r[m:] == -5), "resize_array")
    lists = [c.uni(-1,1,c.int(1,4)) for i in range(c.int(1,3))]; r = utils.outer_stack(lists); c.same(np.asarray(r), np.array(np.meshgrid(*lists, indexing="ij")), "outer_stack")
    D = c.pick(1,2,3); n = c.rng.integers(2,5,D); bx = c.uni(-2,2,(2,D)); ep = c.flip(); g = utils.grid(bx, n, endpoint=ep); w = np.array(np.meshgrid(*[np.linspace(bx[0,i],bx[1,i],n[i],endpoint=ep) for i in range(D)], indexing="ij")); c.close(np.asarray(g), w, "grid", atol=1e-12); c.close(np.asarray(utils.grid(bx, n, endpoint=ep, flat=True)), w.reshape(D,-1), "flat grid", atol=1e-12)
    if a.size:
        x = c.int(0,nd-1); ep = c.flip(); r = utils.cumsum(a, endpoint=ep, axis=x); w = np.concatenate([np.zeros_like(np.take(a,[0],x)), np.cumsum(a,x)], x); w = w if ep else np.take(w, range(sh[x]), x); c.close(np.asarray(r), w, "cumsum along an axis"); r = utils.cumsum(a, endpoint=ep); w = np.concatenate([[0],np.cumsum(a.reshape(-1))]); c.close(np.asarray(r), w if ep else w[:-1], "flat cumsum")

def grouping(c):
    n = c.int(1,14); kind = c.pick("int","float","str"); a = vals(c, n, kind); c.note(kind=kind, n=n)
    def canon(groups): return sorted(sorted(int(i) for i in g) for g in groups)
    d = {}; [d.setdefault(v, []).append(i) for i, v in enumerate(a.tolist())]; want = canon(d.values())
    u, o, e = utils.find_equal_groups_fast(a); c.ok(canon([o[e[i]:e[i+1]] for i in range(len(u))]) == want and all(np.all(a[o[e[i]:e[i+1]]] == u[i]) for i in range(len(u))), "find_equal_groups_fast")
    if kind != "str":
        c.ok(canon(utils.find_equal_groups(a)) == want, "find_equal_groups"); m = c.rng.integers(0,3,(n,2)); d = {}; [d.setdefault(tuple(v), []).append(i) for i, v in enumerate(m.tolist())]; c.ok(canon(utils.find_equal_groups(m)) == canon(d.values()), "find_equal_groups of vectors")
    else: c.ok(canon(utils.find_equal_groups(a)) == want, "find_equal_groups of strings")
    cols = [vals(c, n, c.pick("int","str","float")) if c.flip() else c.rng.integers(0,c.pick(2,3,5),n) for i in range(c.int(1,4))]; lab = utils.label_multi(cols); keys = list(zip(*[x.tolist() for x in cols])); c.ok(all((lab[i] == lab[j]) == (keys[i] == keys[j]) for i in range(n) for j in range(n)), "label_multi: equal labels exactly for equal values"); c.ok(sorted(set(np.asarray(lab).tolist())) == list(range(len(set(keys)))), "label_multi: contiguous labels")
    q = c.rng.integers(0,3,(n,2)); L = utils.label_unique(q, axes=[1]); c.ok(all((L[i] == L[j]) == np.array_equal(q[i],q[j]) for i in range(n) for j in range(n)) and sorted(set(L.tolist())) == list(range(L.max()+1)), "label_unique of vectors"); rt = c.pick(1e-2, 1e-4); L = utils.label_unique((1+q[:,0])*(1+0.2*rt*c.uni(-1,1,n)), rtol=rt, atol=0); c.ok(all((L[i] == L[j]) == (q[i,0] == q[j,0]) for i in range(n) for j in range(n)), "label_unique with a relative tolerance"); L = utils.label_unique(q[:,0]+c.uni(-1e-10,1e-10,n)); c.ok(all((L[i] == L[j]) == (q[i,0] == q[j,0]) for i in range(n) for j in range(n)), "label_unique of scalars")
    wts = c.uni(0.1,3,n); k = c.int(1,4)
    for name, g in (("equal_split", utils.equal_split(wts, k)), ("greedy_split_simple", utils.greedy_split_simple(wts, k)), ("greedy_split", utils.greedy_split(list(wts), k, workfun=lambda w, x: 0 if x is None else x+w)[0])):
        c.ok(len(g) == k and sorted(int(i) for x in g for i in x) == list(range(n)), name+": every element in exactly one group"); s = [sum(wts[i] for i in x) for x in g]; c.ok(max(s) <= max(np.sum(wts)/k*4/3+1e-9, np.max(wts)+1e-9, np.sum(wts)/k+np.max(wts)*(k-1)/k+1e-9), name+": balanced")
        if name == "greedy_split":   # largest first, to the first group that makes the highest cost lowest
            load = [0.]*k
            for v in sorted(wts)[::-1]: i = min(range(k), key=lambda j: max([x+v*(q == j) for q, x in enumerate(load)])); load[i] += v
            g2, cost, work = utils.greedy_split(list(wts), k); c.close(np.sort(np.asarray(work, float)), np.sort(load), "work of the greedy groups", rtol=1e-9, atol=1e-12); c.close(float(cost), max(load), "cost of the greedy groups", rtol=1e-9); c.ok(sorted(int(i) for x in g2 for i in x) == list(range(n)), "every element in one greedy group")
        if name == "equal_split":
            j = int(np.argmax(s)); c.ok(len(g[j]) < 2 or s[j]-min(wts[i] for i in g[j]) <= min(s)+1e-9, "equal_split: moving the smallest element out of the fullest group would make it more equal")
    bs = [int(v) for v in c.rng.integers(1,4,c.int(1,3))]; c.ok([list(x) for x in utils.count_variable_basis(bs)] == [list(t) for t in itertools.product(*[range(b) for b in bs])], "count_variable_basis"); ls = [list(range(i,i+b)) for i, b in enumerate(bs)]; c.ok([list(x) for x in utils.list_combination_iter(ls)] == [list(t) for t in itertools.product(*ls)], "list_combination_iter")
    ids = c.rng.integers(0,4,n); A = c.uni(-1,1,(2,n,3)); r = utils.sum_by_id(A, ids, axis=1); c.close(r, np.stack([A[:,ids == i].sum(1) for i in range(ids.max()+1)],1), "sum_by_id", atol=1e-12)

def binning(c):
    n = c.int(1,200); c.note(n=n); op = c.pick(np.mean, np.sum, np.max)
    kind = c.pick("lin","lin","bsize","exp")
    if kind == "lin": nb = c.pick(None, c.int(1,n)); b = utils.linbin(n, nb); c.ok(nb is None or len(b) <= nb, "linbin: number of bins")
    elif kind == "bsize": bs = c.int(1,n); b = utils.linbin(n, bsize=bs); c.ok(n <= b[-1,1] < n+bs, "linbin: covers the points"); b[-1,1] = n; c.ok(np.all(np.diff(b,axis=1)[:-1] == bs), "linbin: bin size")
    else:
        nm = c.pick(1,4,8); nb = c.pick(None, c.int(2,20)); mx = c.pick(0,0,c.int(2,30)); b = utils.expbin(n, nb, nmin=nm); c.ok(nb is None or len(b) <= nb, "expbin: number of bins")
        if mx: q = utils.expbin(n, nb, nmin=1, nmax=mx); c.ok(q[0,0] == 0 and q[-1,1] == n and np.all(q[1:,0] == q[:-1,1]) and np.all(np.diff(q,axis=1)[:-1] <= mx), "expbin: maximum size")
        c.ok(len(b) == 1 or np.all(np.diff(b,axis=1) >= nm), "expbin: minimum size")
    c.note(kind=kind); c.ok(b[0,0] == 0 and np.all(b[1:,0] == b[:-1,1]) and np.all(b[:,1] > b[:,0]), "bins follow each other"); c.ok(b[-1,1] == n, "bins end at %d instead of %d" % (b[-1,1], n))
    if kind == "lin": s = np.diff(b,axis=1); c.ok(s.max()-s.min() <= 1, "linbin: equal sizes")
    pre = c.pick((),(2,),(2,3)); d = c.uni(-1,1,pre+(n,))
    with c.keeps("bin_data", d): r = utils.bin_data(b, d, op)
    c.close(r, np.stack([op(d[...,x:y],-1) for x, y in b],-1), "binned data"); e = utils.bin_expand(b, r); c.same(np.asarray(e), np.concatenate([np.repeat(r[...,i:i+1],y-x,-1) for i, (x,y) in enumerate(b)],-1), "expanded bins")
    ed = utils.bins2edges(b); c.ok(ed.tolist() == b[:,0].tolist()+[n], "edges of bins"); c.same(np.asarray(utils.edges2bins(ed)), b, "bins from edges")
    # multi-dimensional histograms
    nd = c.pick(1,2,3); sh = tuple(int(v) for v in c.rng.integers(1,5,nd)); m = c.int(0,30); pix = np.array([c.rng.integers(0,s,m) for s in sh]).reshape(nd,m); w = c.pick(None, c.uni(-1,1,m), 2.5); r = utils.bin_multi(pix, sh, weights=w); q = np.zeros(sh); np.add.at(q, tuple(pix), 1 if w is None else w); c.close(np.asarray(r), q, "bin_multi", atol=1e-12)
    P = c.rng.integers(0,6,(2,9)); w = c.pick(None, c.uni(-1,1,(2,9)), c.uni(-1,1,9)); ml = c.pick(0,8); r = utils.bincount(P, w, ml); N = max(ml, P.max()+1); q = np.array([np.bincount(P[i], None if w is None else np.broadcast_to(w,P.shape)[i], N) for i in range(2)]); c.close(np.asarray(r), q, "bincount with leading dimensions", atol=1e-12)
    # blocks
    ax = c.int(0,2); A = c.uni(-1,1,tuple(c.rng.integers(1,9,3))); N = A.shape[ax]; bs = c.int(1,6); off = c.int(0,min(bs-1,N)); inc = c.flip(0.7); c.note(block=(A.shape, ax, bs, off, inc))
    parts = ([(0,off)] if off and inc else [])+[(off+i*bs,off+(i+1)*bs) for i in range((N-off)//bs)]+([(off+(N-off)//bs*bs,N)] if (N-off)%bs and inc else [])
    if parts and bs > 1:
        r = utils.block_reduce(A, bs, ax, off, op=op, inclusive=inc); wr = np.stack([op(np.take(A, range(x,y), ax), ax) for x, y in parts], ax); c.close(np.asarray(r), wr, "block_reduce", atol=1e-12); e = utils.block_expand(r, bs, N, ax, off, inclusive=inc); we = np.zeros(A.shape); 
        for i, (x, y) in enumerate(parts): ix = [slice(None)]*3; ix[ax] = slice(x,y); we[tuple(ix)] = np.take(wr, [i], ax)
        c.close(np.asarray(e), we, "block_expand", atol=1e-12)
    v = c.uni(-1,1,c.pick((),(2,))+(c.int(2,20),)); wd = c.int(1,8); keep = v.copy(); r = utils.block_mean_filter(v, wd); c.same(v, keep, "block_mean_filter input"); nv = v.shape[-1]
    for x in range(0, nv//wd*wd, wd): c.close(r[...,x:x+wd], np.broadcast_to(np.mean(v[...,x:x+wd],-1)[...,None], v.shape[:-1]+(wd,)), "block mean", atol=1e-12)
    # slices
    N = c.int(1,12); s = slice(c.pick(None,c.int(-14,14)), c.pick(None,c.int(-14,14)), c.pick(None,1,2,3,-1,-2)); e = utils.expand_slice(s, N); rr = list(range(e.start, e.stop, e.step)); c.ok(rr == list(range(N))[s], "expand_slice")
    st = c.pick(None,1,2,3,-1,-2); s2 = slice(None,None,st); v = c.uni(-1,1,N); r = utils.slice_downgrade(v, s2); x = v[::-1] if st and st < 0 else v; k = abs(st or 1); c.close(np.asarray(r), [np.mean(x[i:i+k]) for i in range(0,N,k)], "slice_downgrade", atol=1e-12)
    full = c.uni(-1,1,(3,4,5,6)); sels = [c.pick(slice(None), slice(1,None,2), c.int(0,2), slice(None,None,-1)) for i in range(4)]; j = c.int(0,4); sel = tuple(sels[:j])+((Ellipsis,) if c.flip() else ())+(tuple(sels[j:]) if c.flip() else ()); a, b2 = utils.split_slice(sel, (2,2)); r = full[a]; r = r[(slice(None),)*(2-sum(isinstance(q,int) for q in a))+tuple(b2)] if True else None; c.same(r, full[sel], "split_slice %s" % (sel,))
    ce = np.cumsum(c.uni(0.5,1.5,c.int(3,9))); w = c.uni(0.5,1.5,len(ce)+1); ed = np.cumsum(w); 
    ref = c.int(0,len(ce)-2); ed[ref+2] = 2*ed[ref+1]-ed[ref]; ed = np.sort(ed); cen = 0.5*(ed[1:]+ed[:-1])
    if abs((ed[ref+2]-ed[ref+1])-(ed[ref+1]-ed[ref])) < 1e-12: c.close(utils.infer_bin_edges(cen, ref), ed, "inferred bin edges", rtol=1e-6)

def strings(c):
    r = c.rng; toks = []
    for i in range(c.int(1,5)): toks.append("".join(c.choice(list("ab(x,y)[z,[q,w]]c{u,v}"[0:1]+"ab")) if False else c.choice(["a","bc","(x,y)","[z,[q,w]]","{u,(v,w)}","d","((k,l),m)"]) for j in range(c.int(0,3))))
    s = ",".join(toks); c.note(s=s); c.ok(utils.split_outside(s, ",") == toks, "split_outside %r gives %r" % (s, utils.split_outside(s, ",")))
    tok2 = ["".join(c.choice(["a","b",",","\\"," "]) for j in range(c.int(0,4))) for i in range(c.int(1,4))]; e = ",".join(t.replace("\\","\\\\").replace(",","\\,") for t in tok2); e3 = e.replace("\\","!"); t3 = [t.replace("\\","!") for t in tok2]; c.ok(list(utils.split_esc(e3, ",", esc="!")) == t3, "split_esc with another escape character"); got = list(utils.split_esc(e, ",")); c.ok(got == tok2, "split_esc %r gives %r" % (e, got))
    nums = []; desc = []
    for i in range(c.int(1,4)):
        a, b, st = c.int(0,9), c.int(0,20), c.int(1,3); k = c.pick(1,2,3)
        if k == 1: nums += [a]; desc.append("%d" % a)
        elif k == 2: nums += list(range(a,b)); desc.append("%d:%d" % (a,b))
        else: nums += list(range(a,b,st)); desc.append("%d:%d:%d" % (a,b,st))
    g = utils.parse_ints(",".join(desc)); c.ok(np.issubdtype(g.dtype, np.integer) and g.tolist() == nums, "parse_ints %s" % desc); c.close(utils.parse_floats(",".join(desc)), np.array(nums,float), "parse_floats")
    bx = np.round(c.uni(-9,9,(2,c.int(1,3))),3); c.close(utils.parse_box(",".join("%s:%s" % (a,b) for a, b in bx.T)), bx, "parse_box", atol=1e-12)
    pre = c.pick("map","a.b","x+y",""); spec = c.pick("%(k)d","%(k)05d","%(k)s","%(k).3f","%(k)8.2f","%(k)e","%(k)-6d|","%(k)+d"); fmt = pre+spec+c.pick("",".fits"); v = c.int(-999,9999) if "s" not in spec else c.choice(["foo","b4r"]); v = v if spec[-1] not in "fe" else v/7.; out = fmt % {"k":v}; m = re.fullmatch(utils.format_to_regex(fmt), out); c.ok(m is not None, "format_to_regex(%r) does not match %r" % (fmt, out)); 
    if m: c.ok(type(v)(m.group("k")) == v if not isinstance(v,float) else abs(float(m.group("k"))-v) < 1e-2+1e-5*abs(v), "format_to_regex group %r for %r" % (m.group("k"), v))
    gl = utils.format_to_glob(fmt); c.ok(fnmatch.fnmatchcase(out, gl), "format_to_glob(%r)" % fmt)
    p = "/".join(c.choice(["a","b c","d.e"]) for i in range(c.int(1,4))); c.ok(utils.pathsplit(p) == p.split("/") and utils.pathsplit("/"+p) == ["/"]+p.split("/"), "pathsplit")
    w = [c.choice(["alpha","be","gamma1","x"]) for i in range(c.int(1,5))]; d = c.tmpdir(); f = os.path.join(d, "l.txt"); open(f,"w").write("# c\n"+"".join("%s %d\n" % (x,i) for i, x in enumerate(w))); c.ok(utils.read_lines(f) == w and utils.read_lines(f+":[1:]") == w[1:], "read_lines"); c.ok(utils.read_lines(f, 1) == [str(i) for i in range(len(w))], "read_lines column"); c.ok(list(utils.lines(f)) == open(f).readlines() and list(utils.lines(open(f))) == open(f).readlines(), "lines")
    T = c.uni(-1,1,(c.int(2,4),3)); np.savetxt(os.path.join(d,"t.txt"), T); c.close(utils.loadtxt(os.path.join(d,"t.txt")+":[1:,0]"), T[1:,0], "loadtxt with a slice")
    fs = sorted(os.path.join(d,"q%d.dat" % i) for i in range(c.int(0,3)))
    for x in fs: open(x,"w").close()
    c.ok(sorted(utils.glob(os.path.join(d,"q*.dat"))) == (fs or [os.path.join(d,"q*.dat")]), "glob keeps unmatched patterns")
    txt, pat = "ab.ca.b", c.pick("a", ".", "a.b", "zz")
    if pat in txt: c.ok(utils.replace(txt, pat, "Q") == txt.replace(pat, "Q"), "replace")
    else: c.raises(KeyError, lambda: utils.replace(txt, pat, "Q"), "pattern not there"); c.raises(KeyError, lambda: utils.regreplace(txt, pat, "Q"), "expression not there")
    c.ok(utils.regreplace("aXaXa", "a", "b", count=2) == "bXbXa" and utils.regreplace("aXA", "A", "b", flags=2) == "bXb", "regreplace with a count or flags"); c.ok(utils.regreplace(txt, r"a(.)", r"<\1>") == "<b>.c<.>b" and utils.regreplace(txt, "a", "a") == txt, "regreplace"); c.ok(utils.contains_any(txt, ["zz", pat]) == (pat in txt) and not utils.contains_any(txt, []), "contains_any")
    open(os.path.join(d,"h.txt"),"w").write("".join("%d | %s %.3f\n" % (i, x, i/8.) for i, x in enumerate(w+["y"]))); t = utils.load_ascii_table(os.path.join(d,"h.txt"), "id:i | name:U8 val:d"); c.ok(t["id"].tolist() == list(range(len(w)+1)) and t["name"].tolist() == w+["y"] and np.allclose(t["val"], np.round(np.arange(len(w)+1)/8.,3), atol=1e-12), "load_ascii_table")
    sl = utils.parse_slice("[1:,::2,3]"); c.ok(tuple(sl) == (slice(1,None), slice(None,None,2), 3), "parse_slice")
    A = np.zeros((c.int(1,3), c.int(2,4), c.int(2,4)))[c.pick(np.s_[:], np.s_[:,::2], np.s_[:,:,::2], np.s_[:,:,:-1], np.s_[:,:-1])]; na = c.pick(None,1,2,3)
    def cont(x, n): return x.ndim == 0 or n == 0 or (x[(0,)*(x.ndim-n)].flags.c_contiguous)
    k = A.ndim if na is None else na
    if min(A.shape) > 1: c.ok(utils.iscontig(A, na) == bool(A[(0,)*(3-k)].flags.c_contiguous), "iscontig of %s strides %s over %s axes" % (A.shape, A.strides, na))
    c.ok(utils.dict_apply_listfun({"a":1,"b":5}, lambda v: v[::-1]) == {"a":5,"b":1}, "dict_apply_listfun")
    ar = np.array(w, dtype="U8"); i, j = sorted(c.rng.integers(0,6,2)); j += 1; c.ok(utils.chararray_slice(ar, slice(i,j)).tolist() == [x[i:j] for x in w], "chararray_slice")

def records(c):
    def mk(depth):
        b = bunch.Bunch(); ref = {}
        for i in range(c.int(1,4)):
            k = "k%d" % c.int(0,9); v = c.pick(c.int(-5,5), c.uni(-1,1), c.uni(-1,1,(2,3)), c.rng.integers(0,9,4).astype(np.int16), None)
            if v is None: v, r = mk(depth-1) if depth else (3, 3)
            else: r = v
            if c.flip(): b[k] = v
            else: setattr(b, k, v)
            ref[k] = r
        return b, ref
    def check(b, ref, what):
        c.ok(isinstance(b, bunch.Bunch) and sorted(b.keys()) == sorted(ref) and len(b) == len(ref) and sorted(b) == sorted(ref), what+": names")
        for k, v in ref.items():
            c.ok(k in b and (b[k] is getattr(b,k) or np.array_equal(b[k], getattr(b,k))), what+": items and attributes")
            if isinstance(v, dict): check(b[k], v, what)
            else: c.same(np.asarray(b[k]), np.asarray(v), what+": value"); c.ok(np.asarray(b[k]).dtype == np.asarray(v).dtype, what+": type")
    b, ref = mk(2); check(b, ref, "bunch"); d = c.tmpdir(); sub = c.pick(None, "grp", "g/h"); f = os.path.join(d,"x.y"); g = c.pick(f, f+".hdf"); c.note(keys=sorted(ref), sub=sub)
    if c.flip() and sub: bunch.write(g+"/"+sub, b); r = bunch.read(g+"/"+sub)
    else: bunch.write(g, b, group=sub); r = bunch.read(g, group=sub)
    check(r, ref, "bunch read back"); fn, gr = bunch.split_hdf_path(g+("/"+sub if sub else "")); c.ok(fn == g and gr == sub, "split_hdf_path"); c.ok(bunch.split_hdf_path(g+"/a","b") == (g,"a/b"), "split_hdf_path with a subgroup"); c.ok(bunch.split_hdf_path(g+"/q", mode="exists") == (g,"q"), "split_hdf_path of an existing file")
    cp = b.copy(); k = sorted(ref)[0]; cp["new"] = 1; del cp[k]; c.ok("new" not in b and k in b and "new" in cp and k not in cp, "copies are independent"); b2 = bunch.Bunch(b, extra=5); check(bunch.Bunch({q:b[q] for q in b}), ref, "bunch from a dictionary"); c.ok(b2.extra == 5 and k in b2, "bunch from a bunch"); c.raises((AttributeError,), lambda: b.nothere, "missing attribute must fail"); c.raises((KeyError,), lambda: b["nothere"], "missing item must fail"); b.update({"z":7}); c.ok(b.z == 7, "update"); c.ok("z=7" in repr(b), "representation"); import copy as _c; c.ok(sorted(_c.copy(b).keys()) == sorted(b.keys()), "copy.copy")
    nb = c.int(1,4); bs = [bunch.Bunch(a=c.rng.standard_normal(3), b=float(i), s=np.int16(i)) for i in range(nb)]; q = bunch.concatenate(bs); c.ok(sorted(q.keys()) == ["a","b","s"], "concatenate names")
    for k in q: c.same(np.asarray(q[k]), np.array([x[k] for x in bs]), "concatenate")
    # timers
    t = [0.]; tf = lambda: t[0]; B = bench.Bench(); acc = {}
    for i in range(c.int(1,6)):
        nm = c.pick("a","b"); dt = c.uni(0,5); boom = c.flip(0.3)
        try:
            with B.mark(nm, tfun=tf):
                if c.flip():
                    with B.mark("in", tfun=tf): t[0] += dt/2
                    acc.setdefault("in",[]).append(dt/2); t[0] += dt/2
                else: t[0] += dt
                if boom: raise KeyError
        except KeyError: pass
        acc.setdefault(nm,[]).append(dt)
    for nm, v in acc.items(): c.ok(B.n[nm] == len(v), "number of timed blocks"); c.close([B.t[nm], B.t_tot[nm]], [v[-1], sum(v)], "times", atol=1e-9)

def small(c):
    """one-line helpers other code leans on"""
    r = c.rng
    # products of powers of the given factors
    fac = sorted(set(int(v) for v in r.choice([2,3,5,7,11,13], c.int(1,4)))); n = c.pick(c.int(2,60), c.int(60,3000), float(c.uni(20,300))); S = {1}; grow = [1]
    while grow:
        v = grow.pop()
        for f in fac:
            if v*f <= 14*n and v*f not in S: S.add(v*f); grow.append(v*f)
    S.discard(1); lo = [v for v in S if v <= n]; hi = [v for v in S if v >= n]; c.note(n=n, factors=fac)
    if lo: c.ok(utils.nearest_product(n, fac) == max(lo), "nearest_product below %s with %s: %s, not %s" % (n, fac, utils.nearest_product(n, fac), max(lo)))
    c.ok(utils.nearest_product(n, fac, "above") == min(hi), "nearest_product above %s with %s: %s, not %s" % (n, fac, utils.nearest_product(n, fac, "above"), min(hi)))
    # bits, lowest first
    v = c.int(0, 2**31-1); b = utils.unpackbits(np.array([v], c.pick("u4","i8","u8"))); c.ok(sum(int(x) << i for i, x in enumerate(b)) == v, "unpackbits of %d" % v)
    # rounding
    x = c.uni(-1e3,1e3,7); g = utils.nint(x); c.ok(np.issubdtype(g.dtype, np.integer) and np.all(np.abs(g-x) <= 0.5), "nint"); c.ok(utils.nint(float(x[0])) == round(float(x[0])), "nint of a number")
    for f, q in ((utils.floor, np.floor), (utils.ceil, np.ceil)): y = np.round(x*4)/4; g = f(y); c.ok(np.issubdtype(g.dtype, np.integer) and np.all(g == q(y)), "floor and ceil")
    c.same(np.asarray(utils.is_int_valued(np.array([1.,2.5,-3.,0.,1e-9]))), np.array([True,False,True,True,False]), "is_int_valued")
    # types
    c.ok(utils.real_dtype(np.complex64) == np.float32 and utils.real_dtype(np.complex128) == np.float64 and utils.real_dtype(np.float32) == np.float32, "real_dtype")
    for dt, want in ((np.float32,np.complex64), (np.float64,np.complex128), (np.complex64,np.complex64)): a = np.arange(3).astype(dt); z = utils.ascomplex(a); c.ok(z.dtype == want and np.all(z == a), "ascomplex"); c.ok(utils.complex_dtype(dt) == want, "complex_dtype")
    for dt in (">f4",">f8","<f4",">i4",">c8"): c.ok(utils.native_dtype(dt) == np.dtype(dt).newbyteorder("=") and utils.native_dtype(dt).isnative, "native_dtype of %s" % dt)
    c.ok(utils.asfarray([1,2]).dtype == np.float64 and utils.asfarray(np.zeros(2,np.float32)).dtype == np.float32 and utils.asfarray(np.zeros(2,np.complex64)).dtype == np.complex64 and utils.asfarray([1,2],np.float32).dtype == np.float32, "asfarray")
    words = np.array(["ab","c\u00e6" if c.flip() else "cd",""]); e = utils.encode_array_if_necessary(words); c.ok(utils.decode_array_if_necessary(e).tolist() == words.tolist(), "strings encoded and decoded")
    c.ok(utils.decode_array_if_necessary(np.array([b"ab",b"q"])).tolist() == ["ab","q"] and utils.decode_array_if_necessary(np.arange(3)).tolist() == [0,1,2], "decode_array_if_necessary")
    # tuples, unit vectors, axes, iterators
    c.ok(utils.astuple(3) == (3,) and utils.astuple([1,2]) == (1,2) and utils.tuplify(5) == (5,) and utils.tuplify([1]) == (1,), "astuple")
    k, i = c.int(1,9), 0; i = c.int(0,k-1); u = utils.uvec(k, i, np.float32); c.ok(u.dtype == np.float32 and u.shape == (k,) and u[i] == 1 and np.sum(np.abs(u)) == 1, "uvec")
    a = r.normal(size=(2,3,4)); p = [int(v) for v in r.permutation(3)[:2]]; q = [int(v) for v in r.permutation(3)[:2]]; c.same(utils.moveaxes(a, p, q), np.moveaxis(a, p, q), "moveaxes")
    log = []
    def it(n, name):
        for j in range(n): yield j
        log.append(name)
    n1 = c.int(0,3); n2 = n1 if c.flip() else c.int(0,3); got = list(utils.zip2(it(n1,"a"), it(n2,"b"))); c.ok(got == [(j,j) for j in range(min(n1,n2))], "zip2 gives %s" % got); c.ok(n1 != n2 or log == ["a","b"], "zip2 did not run the iterators' cleanup")
    calls = []; cache = {}; [c.ok(utils.cache_get(cache, "k", lambda: calls.append(1) or 7) == 7, "cache_get") for j in range(3)]; c.ok(len(calls) == 1, "cache_get computed the value again"); c.ok(utils.cache_get(None, "k", lambda: 3) == 3, "cache_get without a cache")
    nm = "PIXELL_VERIF_TMP"; os.environ.pop(nm, None); c.ok(utils.getenv(nm, 4) == 4 and utils.getenv(nm) is None, "getenv default"); utils.setenv(nm, 5); c.ok(utils.getenv(nm) == "5", "setenv"); utils.setenv(nm, 6, keep=True); c.ok(utils.getenv(nm) == "5", "setenv keep"); utils.setenv(nm, 6); c.ok(utils.getenv(nm) == "6", "setenv overwrite"); utils.setenv(nm, None); c.ok(nm not in os.environ, "setenv delete"); utils.setenv(nm, None)
    c.ok(utils.first_importable("no_such_module_xyz","json","os") == "json" and utils.first_importable("no_such_module_xyz") is None, "first_importable")
    d = os.path.join(c.tmpdir(), "a", "b"); utils.mkdir(d); utils.mkdir(d); utils.mkdir(""); c.ok(os.path.isdir(d), "mkdir"); open(os.path.join(d,"f"),"w").close(); c.raises(OSError, lambda: utils.mkdir(os.path.join(d,"f","g")), "mkdir below a file")

MONITORS = [("small", small, 300, 3000), ("records", records, 600, 6000), ("finding", finding, 2500, 20000), ("ranges", ranges, 3000, 40000), ("boxes", boxes, 2000, 20000), ("axesops", axesops, 2500, 25000), ("grouping", grouping, 1500, 15000), ("binning", binning, 2500, 25000), ("strings", strings, 1500, 12000)]

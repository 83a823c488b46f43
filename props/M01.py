"""M01: cutting out, pasting, tiling and reprojecting move each value to the pixel at the same sky position."""
import numpy as np
from pixell import enmap, utils, wcsutils
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["a reference implementation by integer pixel arithmetic modulo the number of pixels around the sky",
                  "write-mode tile iteration is not exercised on maps that go all the way around the sky with non-dividing tiles, which the documentation excludes"]}

def geo(c, wide=False, **kw):
    k = c.pick("patch","full","band","part","wide","fine") if wide else c.pick("patch","full","band","part","fine")
    if k == "patch": s, w = patch(c, projs=c.pick(CYL, ZEN), nmin=4, **kw)
    elif k == "full": s, w = fullsky(c)[:2]
    elif k == "band": s, w = band(c)[:2]
    elif k == "wide": # covers the sky more than once, like a lower-spin field
        s, w = fullsky(c, nymax=16)[:2]; s = (s[0], s[1]+c.int(1, s[1]+4))
    elif k == "fine": # many pixels around the sky, few rows
        nx = c.int(300,1500); s = (c.int(2,5), nx); w = wcsutils.explicit(naxis=2, ctype=["RA---CAR","DEC--CAR"], crval=[c.uni(-180,180),0], cdelt=[c.pick(-1,1)*360/nx, 360/nx], crpix=[nx//2+1+c.int(-5,5), c.uni(-3,8)])
    else:
        s, w = fullsky(c)[:2]; x1 = c.int(0, s[1]//3); x2 = c.int(s[1]//2, s[1]); w = w.deepcopy(); w.wcs.crpix[0] -= x1; s = (s[0], x2-x1)
    note_geo(c, s, w)
    return s, w

def ref_get(a, y1, x1, h, w_, nphi, cval):
    """values at pixels [y1:y1+h, x1:x1+w_] of a, wrapping in x with period nphi, cval outside"""
    out = np.full(a.shape[:-2]+(h,w_), cval, a.dtype)
    ys, xs = np.arange(y1,y1+h), np.arange(x1,x1+w_)
    if nphi: xs = xs % nphi
    oy, ox = (ys>=0)&(ys<a.shape[-2]), (xs>=0)&(xs<a.shape[-1])
    tmp = out[...,oy,:]; tmp[...,ox] = a[...,ys[oy][:,None],xs[ox]]
    out[...,oy,:] = tmp
    return out

def ref_inside(shape, y1, x1, h, w_, nphi):
    ys, xs = np.arange(y1,y1+h), np.arange(x1,x1+w_)
    if nphi: xs = xs % nphi
    return ((ys>=0)&(ys<shape[-2]))[:,None]&((xs>=0)&(xs<shape[-1]))

def period(w, nx):
    if proj_of(w) == "plain": return 0
    n = int(round(360/abs(w.wcs.cdelt[0])))
    return n*((n+nx-1)//n)

def rbox(c, s, nphi):
    h, w_ = c.int(1, s[0]+6), c.int(1, min(s[1]+6, nphi) if nphi else s[1]+6)
    return c.int(-h-2, s[0]+2) if c.flip(0.1) else c.int(-4, s[0]-1), c.pick(c.int(-w_-2, s[1]+3), c.int(-4, s[1]-1), c.int(-4, s[1]-1)), h, w_

def pixboxes(c):
    s, w = geo(c, wide=True); pre = premul(c); nphi = period(w, s[1])
    m = enmap.ndmap(unique(c, pre+s), w); y1, x1, h, w_ = rbox(c, s, nphi); cval = c.pick(0, -5)
    c.note(box=(y1,x1,h,w_), cval=cval)
    pb = np.array([[y1,x1],[y1+h,x1+w_]])
    with c.keeps("extract_pixbox", m, pb): r = enmap.extract_pixbox(m, pb, cval=cval)
    c.same(np.asarray(r), ref_get(np.asarray(m), y1, x1, h, w_, nphi, cval), "extract_pixbox")
    if proj_of(w) == "car" or proj_of(w) in ZEN:
        P = np.array(ref_pix2sky(w, *np.meshgrid(np.arange(y1,y1+h), np.arange(x1,x1+w_), indexing="ij")))
        Q = skygrid(r.shape, r.wcs); g = np.all(np.isfinite(P),0)
        check_positions(c, Q[:,g], P[:,g], "position of extracted pixels", tol=1e-8)
    c.ok(r.dtype == m.dtype, "dtype")
    # without wrapping
    r = enmap.extract_pixbox(m, pb, wrap=0, cval=cval)
    c.same(np.asarray(r), ref_get(np.asarray(m), y1, x1, h, w_, 0, cval), "extract_pixbox wrap=0")

def strided(c):
    """pixel boxes with a stride select every n'th pixel, wrapping around the sky"""
    s, w = geo(c, wide=True); pre = premul(c); nphi = period(w, s[1])
    m = enmap.ndmap(unique(c, pre+s), w); y1, x1, h, w_ = rbox(c, s, nphi); sy, sx = c.pick(1,2,3,-1,-2), c.pick(1,2,3,-1,-2); c.note(box=(y1,x1,h,w_), stride=(sy,sx))
    def ax(a, n, st): return np.arange(a, a+n, st) if st > 0 else np.arange(a+n-1, a-1, st)
    ys, xs = ax(y1, h, sy), ax(x1, w_, sx)
    pb = np.array([[y1 if sy > 0 else y1+h-1, x1 if sx > 0 else x1+w_-1], [y1+h if sy > 0 else y1-1, x1+w_ if sx > 0 else x1-1], [sy,sx]])
    _strided_ok(c, m, pb, ys, xs, nphi)
def _strided_ok(c, m, pb, ys, xs, nphi):
    with c.keeps("extract_pixbox", m, pb): r = enmap.extract_pixbox(m, pb)
    X = xs % nphi if nphi else xs
    oy, ox = (ys >= 0)&(ys < m.shape[-2]), (X >= 0)&(X < m.shape[-1]); want = np.zeros(m.shape[:-2]+(len(ys),len(xs)))
    t = want[...,oy,:]; t[...,ox] = np.asarray(m)[...,ys[oy][:,None],X[ox]]; want[...,oy,:] = t
    c.same(np.asarray(r), want, "extract_pixbox with stride")

def extracting(c):
    """extract onto a compatible geometry, also when its reference point differs"""
    s, w = geo(c, wide=True); pre = premul(c); nphi = period(w, s[1])
    m = enmap.ndmap(unique(c, pre+s, c.pick(np.float64, np.float32, np.int32)), w); y1, x1, h, w_ = rbox(c, s, nphi)
    w2 = w.deepcopy(); w2.wcs.crpix -= [x1, y1]
    k = 0
    if proj_of(w) in CYL:
        k = c.pick(0, 0, c.int(-20,20)); w2.wcs.crpix[0] += k; w2.wcs.crval[0] += k*w.wcs.cdelt[0]
    c.note(box=(y1,x1,h,w_), refshift=k)
    cval = c.pick(0, 7)
    want = ref_get(np.asarray(m), y1, x1, h, w_, nphi, cval)
    with c.keeps("extract", m): r = enmap.extract(m, (h,w_), w2, cval=cval)
    c.same(np.asarray(r), want, "extract"); c.ok(wcsutils.equal(r.wcs, w2), "extract wcs")
    c.same(np.asarray(m.extract((h,w_), w2, cval=cval)), want, "extract method")
    raw = np.array(m); r = enmap.extract(raw, (h,w_), w2, cval=cval, iwcs=w); c.same(np.asarray(r), want, "extract from a bare array with its pixelization"); c.ok(wcsutils.equal(r.wcs, w2), "wcs of the extract from a bare array")
    c.same(np.asarray(enmap.extract(m, (h,w_), w2, wrap=0, cval=cval)), ref_get(np.asarray(m), y1, x1, h, w_, 0, cval), "extract without wrapping")
    # co-adding into an existing map touches exactly the overlap
    o = enmap.ndmap(unique(c, pre+(h,w_)).astype(m.dtype), w2); before = np.array(o)
    op = c.pick("add","replace","max")
    fn = {"add": lambda a,b:a+b, "replace": lambda a,b:b, "max": np.maximum}[op]
    r2 = enmap.extract(m, (h,w_), w2, omap=o, op=fn)
    ins = ref_inside(s, y1, x1, h, w_, nphi)
    full = ref_get(np.asarray(m), y1, x1, h, w_, nphi, 0)
    want = np.where(ins, fn(before, full), before)
    c.same(np.asarray(o), want, "extract with op=%s into an existing map" % op)
    c.same(np.asarray(r2), want, "returned map")

def inserting(c):
    s, w = geo(c, wide=True); pre = premul(c); nphi = period(w, s[1])
    o = enmap.ndmap(unique(c, pre+s), w); before = np.array(o); y1, x1, h, w_ = rbox(c, s, nphi)
    if nphi and w_ > nphi: w_ = nphi
    w2 = w.deepcopy(); w2.wcs.crpix -= [x1, y1]
    i = enmap.ndmap(unique(c, pre+(h,w_))+1e6, w2)
    c.note(box=(y1,x1,h,w_))
    op = c.pick("replace","add"); fn = {"add": lambda a,b:a+b, "replace": lambda a,b:b}[op]
    want = before.copy()
    for a in range(h):
        for b in range(w_):
            Y, X = y1+a, (x1+b)%nphi if nphi else x1+b
            if 0 <= Y < s[0] and 0 <= X < s[1]: want[...,Y,X] = fn(before[...,Y,X], np.asarray(i)[...,a,b])
    with c.keeps("insert", i): r = enmap.insert(o, i, op=fn)
    c.same(np.asarray(o), want, "insert op=%s" % op); c.ok(r is o, "insert returns the map")
    o3 = enmap.ndmap(before.copy(), w); want3 = before.copy(); enmap.insert(o3, i, op=fn, wrap=0); Y1, Y2, X1, X2 = max(0,y1), min(s[0],y1+h), max(0,x1), min(s[1],x1+w_)
    if Y2 > Y1 and X2 > X1: want3[...,Y1:Y2,X1:X2] = fn(want3[...,Y1:Y2,X1:X2], np.asarray(i)[...,Y1-y1:Y2-y1,X1-x1:X2-x1])
    c.same(np.asarray(o3), want3, "insert without wrapping")
    o2 = enmap.ndmap(before.copy(), w); enmap.insert_at(o2, [y1,x1], i, op=fn)
    c.same(np.asarray(o2), want, "insert_at")
    # extract(insert) round trip
    ins = ref_inside(s, y1, x1, h, w_, nphi)
    if op == "replace":
        back = np.asarray(o.extract((h,w_), w2)); c.same(back[...,ins], np.asarray(i)[...,ins], "extract after insert")

def unions(c):
    s, w = patch(c, projs=("car","cea","tan"), nmin=3, nmax=15, maxwidth=20); note_geo(c, s, w); pre = premul(c)
    dy, dx = c.int(-18,18), c.int(-18,18); s2 = (c.int(2,15), c.int(2,15))
    w2 = w.deepcopy(); w2.wcs.crpix -= [dx,dy]
    a, b = enmap.ndmap(unique(c, pre+s), w), enmap.ndmap(unique(c, pre+s2), w2)
    c.note(off=(dy,dx), s2=s2)
    r = enmap.map_union(a, b)
    y0, x0 = min(0,dy), min(0,dx); Y, X = max(s[0],dy+s2[0])-y0, max(s[1],dx+s2[1])-x0
    want = np.zeros(pre+(Y,X)); want[...,-y0:-y0+s[0],-x0:-x0+s[1]] += a; want[...,dy-y0:dy-y0+s2[0],dx-x0:dx-x0+s2[1]] += b
    c.same(np.asarray(r), want, "union of two maps")

def tiles_read(c):
    s, w = geo(c); pre = c.pick((), (2,)); nphi = period(w, s[1])
    m = enmap.ndmap(unique(c, pre+s), w)
    t = (c.int(3, s[0]+3), c.int(3, s[1]+3)); pad = (c.int(0, 3), c.int(0, 3)); mar = (c.int(0,3), c.int(0,3))
    if nphi and t[1]+2*(pad[1]+mar[1]) > nphi: t = (t[0], max(1, nphi-2*(pad[1]+mar[1])))
    start, step = c.pick((0,1),(0,1),(1,2),(0,3)); c.note(t=t, pad=pad, margin=mar, start=start, step=step)
    nty, ntx = -(-s[0]//t[0]), -(-s[1]//t[1])
    seen = []
    for k, tile in enumerate(enmap.padtiles(m, tshape=t, pad=pad, margin=mar, start=start, step=step)):
        tile = tile[0] if isinstance(tile, (tuple, list)) else tile
        ti = start+k*step; ty, tx = ti//ntx, ti%ntx
        y1, x1 = ty*t[0]-pad[0]-mar[0], tx*t[1]-pad[1]-mar[1]
        h, w_ = t[0]+2*(pad[0]+mar[0]), t[1]+2*(pad[1]+mar[1])
        c.same(np.asarray(tile), ref_get(np.asarray(m), y1, x1, h, w_, nphi, 0), "tile %d" % ti)
        tile[:] = 0; seen.append(ti)
    c.ok(seen == list(range(start, nty*ntx, step)), "tiles visited: %s of %d" % (seen, nty*ntx))
    c.same(np.asarray(m), np.asarray(m), "")

def tiles_write(c):
    """copying a map tile by tile through the crossfading writer reproduces the map, whatever the tiling"""
    s, w = patch(c, nmin=6, nmax=50); pre = c.pick((), (2,)); note_geo(c, s, w)
    m = enmap.ndmap(c.rng.standard_normal(pre+s), w); before = np.array(m)
    t = (c.int(4, 30), c.int(4, 30)); pad = (c.int(0, t[0]//2), c.int(0, t[1]//2)); mar = (c.int(0,5), c.int(0,5))
    c.note(t=t, pad=pad, margin=mar)
    o = enmap.zeros(pre+s, w)
    for it, ot in enmap.padtiles(m, o, tshape=t, pad=pad, margin=mar): ot[:] = it; it[:] = 0
    c.close(np.asarray(o), before, "map copied through tiles", rtol=1e-12)
    c.same(np.asarray(m), before, "read tiles write through to the map")
    # split over several workers, results add up
    n = c.int(2,4); o2 = enmap.zeros(pre+s, w)
    for k in range(n):
        for it, ot in enmap.padtiles(m, o2, tshape=t, pad=pad, margin=mar, start=k, step=n): ot[:] = it
    c.close(np.asarray(o2), before, "map copied through tiles by %d workers" % n, rtol=1e-12)

def stamping(c):
    s, w = geo(c); pre = premul(c); m = enmap.ndmap(unique(c, pre+s), w)
    h, w_ = c.int(1, 8), c.int(1, 8); pos = np.array([[c.int(-4, s[0]+1), c.int(-4, s[1]+1)] for i in range(4)])
    c.note(pos=pos.tolist(), shape=(h,w_))
    st = enmap.stamps(m, pos, (h,w_)); li = enmap.stamps(m, pos, (h,w_), aslist=True)
    c.ok(st.shape == (4,)+pre+(h,w_), "stamps shape %s" % (st.shape,))
    for i, (y,x) in enumerate(pos):
        want = ref_get(np.asarray(m), y, x, h, w_, 0, np.nan)
        c.same(np.asarray(st)[i], want, "stamp %d" % i); c.same(np.asarray(li[i]), want, "stamp list %d" % i)
        P = np.array(ref_pix2sky(w, *np.meshgrid(np.arange(y,y+h), np.arange(x,x+w_), indexing="ij"))); g = np.all(np.isfinite(P),0)
        check_positions(c, skygrid((h,w_), li[i].wcs)[:,g], P[:,g], "stamp position", tol=1e-8)

def tilemaps(c):
    s, w = patch(c, nmin=6); note_geo(c, s, w); pre = premul(c); m = enmap.ndmap(unique(c, pre+s), w)
    ys = [0]+sorted(set(c.int(1,s[0]-1) for i in range(2)))+[s[0]]; xs = [0]+sorted(set(c.int(1,s[1]-1) for i in range(2)))+[s[1]]
    r = enmap.tile_maps([[m[...,ys[i]:ys[i+1],xs[j]:xs[j+1]] for j in range(len(xs)-1)] for i in range(len(ys)-1)])
    c.same(np.asarray(r), np.asarray(m), "tiles reassemble to the map"); check_positions(c, skygrid(r.shape, r.wcs), skygrid(s, w), "position")

def projecting(c):
    """projecting to another geometry: identity, compatible and interpolated cases"""
    s, w = patch(c, projs=("car","tan","zea"), nmin=12, nmax=40, flips=False, maxwidth=20); note_geo(c, s, w); pre = c.pick((), (2,))
    m = enmap.ndmap(c.rng.standard_normal(pre+s), w)
    kind = c.pick("same","bigger","shift","nearest","linear"); c.note(kind=kind)
    if kind == "same":
        with c.keeps("project", m): r = m.project(s, w)
        c.same(np.asarray(r), np.asarray(m), "projecting to the own geometry"); r[:] = 0; c.ok(np.any(np.asarray(m) != 0), "result is a view"); return
    if kind == "bigger":
        s2 = (s[0]+c.int(-3,4), s[1]+c.int(-3,4)); r = m.project(s2, w)
        c.ok(r.shape == pre+s2, "projected shape %s, requested %s" % (r.shape, s2))
        c.same(np.asarray(r), ref_get(np.asarray(m), 0, 0, s2[0], s2[1], 0, 0.), "projecting to a same-wcs geometry of another shape"); return
    if kind == "shift":
        y1, x1 = c.int(-5,5), c.int(-5,5); w2 = w.deepcopy(); w2.wcs.crpix -= [x1,y1]; cv = c.pick(0., 3.)
        r = m.project(s, w2, cval=cv); c.same(np.asarray(r), ref_get(np.asarray(m), y1, x1, s[0], s[1], 0, cv), "projecting to a shifted geometry"); return
    # interpolation onto an incompatible geometry
    w2 = mkwcs(c.pick("arc","tan"), [w.wcs.crval[0], w.wcs.crval[1]] , w.wcs.cdelt*c.uni(0.6,1.3), w.wcs.crpix+c.uni(-1,1,2)) if proj_of(w) != "car" else mkwcs("car", list(w.wcs.crval), w.wcs.cdelt*c.uni(0.6,1.3), (w.wcs.crpix-s[1]/2)+s[1]/2+c.uni(-1,1,2))
    s2 = (c.int(4,30), c.int(4,30)); P = skygrid(s2, w2)
    pix = enmap.sky2pix(s, w, P)
    order = 0 if kind == "nearest" else 1
    bs = c.pick(1000, 3, 7); cv = c.pick(0., 0., c.uni(-5,5)); c.note(cval=cv)
    r = enmap.project(m, s2, w2, order=order, bsize=bs, mode="spline", border="constant", cval=cv)
    a = np.asarray(m); fr = enmap.project(m, s, w, order=order, force=True); c.close(np.asarray(fr)[...,1:-1,1:-1], a[...,1:-1,1:-1], "projecting to the own geometry by interpolation", rtol=0, atol=1e-5)
    if np.all(np.isfinite(pix)): ip = utils.interpolator(m, npre=-2, mode="spline", order=order, border="constant", cval=cv); c.close(np.asarray(enmap.project(m, s2, w2, bsize=bs, ip=ip)), np.asarray(enmap.at(m, P, mode="spline", order=order, border="constant", cval=cv)), "projecting with an interpolator", rtol=1e-6, atol=1e-6)
    if order == 0:
        iy, ix = np.floor(pix[0]+0.5).astype(int), np.floor(pix[1]+0.5).astype(int)
        edge = (np.abs(pix[0]-np.floor(pix[0])-0.5)<1e-6)|(np.abs(pix[1]-np.floor(pix[1])-0.5)<1e-6)
        inside = (iy>=0)&(iy<s[0])&(ix>=0)&(ix<s[1])
        edge |= inside & ((pix[0]<0)|(pix[0]>s[0]-1)|(pix[1]<0)|(pix[1]>s[1]-1))
        want = np.where(inside, a[...,np.clip(iy,0,s[0]-1),np.clip(ix,0,s[1]-1)], cv)
        edge |= ~inside & ((pix[0]>-1.01)&(pix[0]<s[0]+.01)&(pix[1]>-1.01)&(pix[1]<s[1]+.01))
    else:
        y0, x0 = np.floor(pix[0]).astype(int), np.floor(pix[1]).astype(int); fy, fx = pix[0]-y0, pix[1]-x0
        edge = np.zeros(s2, bool); inside = (y0>=0)&(y0<s[0]-1)&(x0>=0)&(x0<s[1]-1)
        g = lambda i,j: a[...,np.clip(i,0,s[0]-1),np.clip(j,0,s[1]-1)]
        want = (g(y0,x0)*(1-fx)+g(y0,x0+1)*fx)*(1-fy)+(g(y0+1,x0)*(1-fx)+g(y0+1,x0+1)*fx)*fy
        edge |= ~inside
        far = (pix[0]<-1.01)|(pix[0]>s[0]+.01)|(pix[1]<-1.01)|(pix[1]>s[1]+.01)
        c.ok(np.allclose(np.asarray(r)[...,far], cv, rtol=1e-10, atol=1e-10), "outside the map the fill value is expected")
        # other boundary conditions, in both directions
        b = c.pick("nearest","wrap","mirror","reflect"); c.note(border=b)
        if not (pre == () and b in ("mirror","reflect") and min(s) < 3) and np.all(np.isfinite(pix)):
            def bi(i, n): return np.clip(i, 0, n-1) if b == "nearest" else i % n if b == "wrap" else (n-1-np.abs(n-1-i % (2*n-2))) if b == "mirror" else np.where(i % (2*n) < n, i % (2*n), 2*n-1-i % (2*n))
            h = lambda i,j: a[...,bi(i,s[0]),bi(j,s[1])]; q = enmap.project(m, s2, w2, order=1, bsize=bs, border=b, cval=c.uni(-5,5)); c.close(np.asarray(q), (h(y0,x0)*(1-fx)+h(y0,x0+1)*fx)*(1-fy)+(h(y0+1,x0)*(1-fx)+h(y0+1,x0+1)*fx)*fy, "projection with border=%s" % b, rtol=1e-8)
    sel = ~edge
    c.close(np.asarray(r)[...,sel], want[...,sel], "interpolated projection (order %d, rows in blocks of %d)" % (order, bs), rtol=1e-9, atol=1e-9)

def at_(c):
    s, w = patch(c, nmin=12, nmax=40); note_geo(c, s, w); pre = c.pick((), (2,))
    m = enmap.ndmap(c.rng.standard_normal(pre+s), w)
    y, x = c.rng.integers(1, s[0]-1, 6), c.rng.integers(1, s[1]-1, 6)
    P = np.array(ref_pix2sky(w, y, x))
    order = c.pick(0,1,3); c.note(order=order)
    c.close(m.at(P, order=order), np.asarray(m)[...,y,x], "value at pixel centres, order %d" % order, rtol=1e-6)
    c.close(m.at(np.array([y,x]), order=order, unit="pix"), np.asarray(m)[...,y,x], "value at pixel centres, pixel coordinates", rtol=1e-9)
    fy, fx = c.uni(0.01, s[0]-1.01, 6), c.uni(0.01, s[1]-1.01, 6); P = np.array(ref_pix2sky(w, fy, fx))
    y0, x0 = np.minimum(np.floor(fy).astype(int), s[0]-2), np.minimum(np.floor(fx).astype(int), s[1]-2); gy, gx = fy-y0, fx-x0; a = np.asarray(m)
    want = (a[...,y0,x0]*(1-gx)+a[...,y0,x0+1]*gx)*(1-gy)+(a[...,y0+1,x0]*(1-gx)+a[...,y0+1,x0+1]*gx)*gy
    c.close(m.at(P, order=1), want, "linear interpolation at sky positions", rtol=1e-6)
    out = np.array(ref_pix2sky(w, np.array([-3.]), np.array([1.])))
    if np.all(np.isfinite(out)):
        cv = c.uni(1,2); c.close(m.at(out, order=1, cval=cv), np.full(pre+(1,), cv), "fill value outside the map", rtol=1e-9)

MONITORS = [("pixboxes", pixboxes, 300, 4000), ("strided", strided, 300, 4000), ("extracting", extracting, 300, 4000), ("inserting", inserting, 200, 2000), ("unions", unions, 120, 1200),
  ("tiles_read", tiles_read, 150, 1500), ("tiles_write", tiles_write, 150, 1500), ("stamping", stamping, 120, 1200), ("tilemaps", tilemaps, 80, 800),
  ("projecting", projecting, 250, 2500), ("at", at_, 120, 1200)]

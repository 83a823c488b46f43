"""G01: slicing, cropping, padding and shifting keep every surviving pixel on its place in the sky."""
import numpy as np
from pixell import enmap, utils, wcsutils
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["FITS projection equations (independent implementation in lib/gen.py) define a pixel's sky position",
                  "strided slices mean enlarged pixels covering |step| input pixels, as the crop/downgrade code documents"]}

def sky_to_pix_cyl(wcs, pos, ref):
    """inverse of ref_pix2sky for cylindrical projections, on the branch nearest ref"""
    p = proj_of(wcs); dec, ra = pos
    if   p == "car": Y = dec/deg
    elif p == "cea":
        pv = wcs.wcs.get_pv(); lam = pv[0][2] if pv else 1.0
        Y = np.sin(dec)/lam/deg
    elif p == "mer": Y = np.log(np.tan(np.pi/4+dec/2))/deg
    y = Y/wcs.wcs.cdelt[1]+wcs.wcs.crpix[1]-1
    x = (ra/deg-wcs.wcs.crval[0])/wcs.wcs.cdelt[0]+wcs.wcs.crpix[0]-1
    n = 360/abs(wcs.wcs.cdelt[0])
    xm = np.mean(x); x = x - n*np.round((xm-ref[1])/n)
    return np.array([y, x])

def mkmap(c, **kw):
    shape, wcs = anygeo(c, **kw)
    pre = premul(c)
    m = enmap.ndmap(unique(c, pre+shape, c.pick(np.float64, np.float32, np.int32)), wcs)
    note_geo(c, shape, wcs); c.note(pre=pre)
    return m, shape, wcs, pre

def rand_slice(c, n, steps):
    st = c.choice(steps)
    a, b = c.pick(None, c.int(-n-3, n+3), c.int(0, n-1)), c.pick(None, c.int(-n-3, n+3), c.int(1, n))
    return slice(a, b, st)

def slices(c):
    m, shape, wcs, pre = mkmap(c)
    steps = c.pick((None,1), (None,1,-1), (2,3,-2,1,-3))
    sy, sx = rand_slice(c, shape[0], steps), rand_slice(c, shape[1], steps)
    ry, rx = range(shape[0])[sy], range(shape[1])[sx]
    if len(ry) == 0 or len(rx) == 0:
        sy, sx = slice(None,None,-1), slice(1,None); ry, rx = range(shape[0])[sy], range(shape[1])[sx]
    c.note(sel=str((sy,sx)))
    form = c.pick("ellipsis","full","noell")
    if form == "ellipsis": sel = (Ellipsis, sy, sx)
    elif form == "full":   sel = (slice(None),)*len(pre) + (sy, sx)
    else:
        if pre: sel = (0,)*len(pre)+(sy,sx)
        else:   sel = (sy,sx)
    before = np.array(m); w0 = wcs.to_header_string()
    r = m[sel]
    c.same(m, before, "slicing modified the map"); c.ok(m.wcs.to_header_string() == w0, "slicing modified the parent's wcs")
    want = np.asarray(before)[sel]
    c.ok(isinstance(r, enmap.ndmap), "slice of a map is no longer a map")
    c.same(np.asarray(r), want, "values of the slice")
    # edge-preserving semantics: output pixel i covers input pixels start+step*i ... start+step*(i+1)-sign
    Y = np.array([y+(ry.step-np.sign(ry.step))/2. for y in ry]); X = np.array([x+(rx.step-np.sign(rx.step))/2. for x in rx])
    p = np.array(ref_pix2sky(wcs, Y[:,None]+0*X, X+0*Y[:,None]))
    gy, gx = grid(r.shape[-2:])
    q = np.array(ref_pix2sky(r.wcs, gy, gx))
    if np.all(np.isfinite(p)): check_positions(c, q, p, "sky position of sliced pixels (wcs of the result)", tol=1e-8)
    if abs(ry.step) == 1 and abs(rx.step) == 1:
        check_positions(c, r.posmap(), m.posmap()[:,sy,sx], "posmap of slice vs slice of posmap", tol=1e-8)
    # geometry-level slicing agrees
    gs, gw = enmap.slice_geometry(m.shape, m.wcs, (sy, sx))
    c.ok(tuple(gs) == tuple(pre)+tuple(r.shape[-2:]), "slice_geometry shape %s vs map slice %s" % (gs, r.shape))
    c.ok(wcsutils.equal(gw, r.wcs), "slice_geometry wcs differs from the map's")
    g = enmap.Geometry(m.shape, m.wcs)[sy, sx]
    c.ok(g.shape == tuple(gs) and wcsutils.equal(g.wcs, gw), "Geometry slicing differs from slice_geometry")

def chain(c):
    """a history of slices equals the composed index set"""
    m, shape, wcs, pre = mkmap(c)
    ys, xs = np.arange(shape[0]), np.arange(shape[1])
    r = m; hist = []
    for k in range(c.int(2,5)):
        sy, sx = rand_slice(c, len(ys), (None,1,-1)), rand_slice(c, len(xs), (None,1,-1))
        if len(ys[sy]) == 0 or len(xs[sx]) == 0: continue
        r = r[...,sy,sx]; ys, xs = ys[sy], xs[sx]; hist.append(str((sy,sx)))
    c.note(hist=hist)
    c.same(np.asarray(r), np.asarray(m)[...,ys[:,None],xs], "values after %d slices" % len(hist))
    q = skygrid(r.shape, r.wcs)
    p = np.array(ref_pix2sky(wcs, ys[:,None]+0.*xs, xs+0.*ys[:,None]))
    check_positions(c, q, p, "positions after a slice history", tol=1e-8)

def indexing(c):
    """selections that are not plain sky slices behave like numpy and never carry a wrong wcs"""
    m, shape, wcs, pre = mkmap(c)
    a = np.asarray(m)
    k = c.pick("row","pixel","mask","fancy","none","predrop","prestep")
    c.note(kind=k)
    y, x = c.int(0, shape[0]-1), c.int(0, shape[1]-1)
    if   k == "row":   r, w = m[...,y,:], a[...,y,:]
    elif k == "pixel": r, w = m[...,y,x], a[...,y,x]
    elif k == "mask":
        sel = c.rng.random(m.shape) < 0.4; r, w = m[sel], a[sel]
    elif k == "fancy":
        I = c.rng.integers(0, shape[1], 5); r, w = m[...,I], a[...,I]
    elif k == "none":  r, w = m[...,None,:,:], a[...,None,:,:]
    elif k == "predrop":
        r, w = m[tuple(0 for p in pre)], a[tuple(0 for p in pre)]
    else:
        r, w = m[::-1] if pre else m[:], a[::-1] if pre else a[:]
    c.same(np.asarray(r), w, "indexing %s" % k)
    if isinstance(r, enmap.ndmap) and k in ("predrop","prestep","none"):
        c.ok(r.shape[-2:] == tuple(shape), "map shape after %s" % k)
        check_positions(c, skygrid(r.shape, r.wcs), skygrid(shape, wcs), "positions after %s" % k)

def padding(c):
    m, shape, wcs, pre = mkmap(c)
    k = c.pick("scalar","two","four")
    if   k == "scalar": p = c.int(0,6); y1=y2=x1=x2=p
    elif k == "two":    p = [c.int(0,6), c.int(0,6)]; y1=y2=p[0]; x1=x2=p[1]
    else: p = [[c.int(0,6),c.int(0,6)],[c.int(0,6),c.int(0,6)]]; (y1,x1),(y2,x2) = p
    val = c.pick(0, 7)
    c.note(pad=p, val=val)
    r, sl = enmap.pad(m, p, return_slice=True, value=val)
    c.ok(r.shape == tuple(pre)+(shape[0]+y1+y2, shape[1]+x1+x2), "padded shape %s for pad %s" % (r.shape, p))
    c.same(np.asarray(r)[...,y1:y1+shape[0],x1:x1+shape[1]], np.asarray(m), "padding moved the data")
    msk = np.ones(r.shape[-2:], bool); msk[y1:y1+shape[0],x1:x1+shape[1]] = False
    c.ok(np.all(np.asarray(r)[...,msk] == val), "padding area is not the fill value")
    q = skygrid(r.shape, r.wcs)[:,y1:y1+shape[0],x1:x1+shape[1]]
    check_positions(c, q, skygrid(shape, wcs), "sky position after padding")
    c.same(np.asarray(r[sl]), np.asarray(m), "the returned slice does not undo the padding")
    c.ok(r.dtype == m.dtype, "padding changed dtype")
    if max(y1,y2) <= shape[0] and max(x1,x2) <= shape[1]:
        r = enmap.pad(m, p, wrap=True); c.same(np.asarray(r), np.pad(np.asarray(m), [(0,0)]*len(pre)+[(y1,y2),(x1,x2)], mode="wrap"), "padding with wrapping"); check_positions(c, skygrid(r.shape, r.wcs)[:,y1:y1+shape[0],x1:x1+shape[1]], skygrid(shape, wcs), "sky position after padding with wrapping")

def submaps(c):
    """a sky-box selection contains the pixels in the box, each with the original value and position"""
    m, shape, wcs, pre = mkmap(c, projs=("car","cea","mer"), flips=True)
    ny, nx = shape
    # choose pixel bounds, convert to sky coordinates with the independent equations
    y1, y2 = sorted([c.int(0,ny), c.int(0,ny)]);
    if y2-y1 < 1: y1, y2 = 0, ny
    x1, x2 = sorted([c.int(0,nx), c.int(0,nx)])
    if x2-x1 < 1: x1, x2 = 0, nx
    if x2-x1 == nx and abs(nx*wcs.wcs.cdelt[0]) > 350: x2 -= max(1, int(nx*0.1))
    fy1, fy2, fx1, fx2 = [v-0.5+c.uni(-0.3,0.3) for v in (y1,y2,x1,x2)]
    (d1,d2),(r1,r2) = ref_pix2sky(wcs, np.array([fy1,fy2]), np.array([fx1,fx2]))
    if not np.all(np.isfinite([d1,d2])) or max(abs(d1),abs(d2)) > 89.9*deg: fy1, fy2 = max(fy1,1), min(fy2,ny-2); (d1,d2),(r1,r2) = ref_pix2sky(wcs, np.array([fy1,fy2]), np.array([fx1,fx2]))
    iy1, iy2, ix1, ix2 = [int(np.round(v+1e-4)) for v in (fy1,fy2,fx1,fx2)]
    if iy2 <= iy1 or ix2 <= ix1: iy1 = iy2 # handled below
    yflip, xflip = c.flip(0.25), c.flip(0.25)
    dd, rr = ([d1,d2] if not yflip else [d2,d1]), ([r1,r2] if not xflip else [r2,r1])
    rr = np.array(rr) + c.pick(0,0,2*np.pi,-2*np.pi)
    box = np.array([[dd[0],rr[0]],[dd[1],rr[1]]])
    c.note(box=box/deg, flips=(yflip,xflip))
    if iy2 <= iy1 or abs((fx2-fx1)*wcs.wcs.cdelt[0]) > 300 or (fy2-fy1) < 1 or (fx2-fx1) < 1:
        from harness import Skip; raise Skip()
    with c.keeps("submap", m, box): r = m.submap(box)
    # which input pixels did we get?  The wcs of the result says, and it must be the requested range
    # (the code moves a reversed range by up to one pixel; its corners stay within a pixel of the box)
    P = sky_to_pix_cyl(wcs, skygrid(r.shape, r.wcs), np.array([(fy1+fy2)/2,(fx1+fx2)/2]))
    Y, X = np.round(P[0,:,0]).astype(int), np.round(P[1,0,:]).astype(int)
    c.close(P, np.array(np.meshgrid(Y, X, indexing="ij")), "submap pixels not aligned with the map's", rtol=0, atol=1e-5)
    for name, I, (e1, e2), fl in [("y",Y,(fy1,fy2),yflip),("x",X,(fx1,fx2),xflip)]:
        c.ok(np.all(np.diff(I) == (-1 if fl else 1)), "submap %s direction" % name)
        lim = 1.51 if fl else 0.51
        c.ok(abs(min(I)-0.5+0.5-e1) <= lim and abs(max(I)+1-e2) <= lim, "submap %s range %d:%d for requested edges %.3f:%.3f" % (name, min(I), max(I)+1, e1+0.5, e2+0.5))
        c.ok(len(I) == int(np.round(e2+1e-4))-int(np.round(e1+1e-4)), "submap %s length" % name)
    full = np.zeros(pre+(len(Y),len(X)), m.dtype)
    nphi = int(round(360/abs(wcs.wcs.cdelt[0])))
    wrapped = X % nphi if nphi >= nx else X
    oy, ox = (Y >= 0)&(Y < ny), (wrapped >= 0)&(wrapped < nx)
    pi = [np.arange(n) for n in pre]
    full[np.ix_(*pi, np.where(oy)[0], np.where(ox)[0])] = np.asarray(m)[np.ix_(*pi, Y[oy], wrapped[ox])]
    c.same(np.asarray(r), full, "submap values")
    # geometry-only version
    s2, w2 = enmap.subgeo(m.shape, m.wcs, box=box)
    c.ok(tuple(s2[-2:]) == r.shape[-2:], "subgeo shape %s vs submap %s" % (s2, r.shape))
    check_positions(c, skygrid(s2, w2), skygrid(r.shape, r.wcs), "subgeo vs submap positions", tol=1e-8)
    g = enmap.Geometry(m.shape, m.wcs).submap(box=box)
    c.ok(g.shape[-2:] == r.shape[-2:] and wcsutils.equal(g.wcs, w2), "Geometry.submap differs from subgeo")

def submap_modes(c):
    """rounding modes: floor/ceil/inclusive/exclusive select the documented pixel range; touching boxes touch"""
    shape, wcs = patch(c, projs=("car",), flips=False, nmin=10)
    note_geo(c, shape, wcs)
    ny, nx = shape
    m = enmap.ndmap(unique(c, shape), wcs)
    fy = np.sort(c.uni(1, ny-2, 2)); fx = np.sort(c.uni(1, nx-2, 2))
    if fy[1]-fy[0] < 2: fy = np.array([1.3, ny-2.4])
    if fx[1]-fx[0] < 2: fx = np.array([1.3, nx-2.4])
    for f in (fy, fx):  # stay clear of the rounding points
        frac = f - np.floor(f)
        f[:] = np.where((np.abs(frac-0.5)<0.01)|(frac<0.01)|(frac>0.99), np.floor(f)+0.3, f)
    d, r = ref_pix2sky(wcs, fy, fx)
    box = np.array([d, r]).T
    c.note(box=box/deg)
    exp = {"round": (np.round, np.round), "floor": (np.floor,np.floor), "ceil": (np.ceil,np.ceil), "inclusive": (np.floor,np.ceil), "exclusive": (np.ceil,np.floor), None: (np.round,np.round)}
    for mode, (lo, hi) in exp.items():
        y1,y2,x1,x2 = int(lo(fy[0])), int(hi(fy[1])), int(lo(fx[0])), int(hi(fx[1]))
        if y2 <= y1 or x2 <= x1: continue
        r_ = m.submap(box, mode=mode)
        c.same(np.asarray(r_), np.asarray(m)[y1:y2,x1:x2], "submap mode %s" % mode)
        c.same(m.subinds(box, mode=mode)[:2], [[y1,x1],[y2,x2]], "subinds mode %s" % mode)
        for nm, (s2, w2) in (("subgeo", enmap.subgeo(shape, wcs, box, mode=mode)), ("Geometry.submap", enmap.Geometry(shape, wcs).submap(box, mode=mode))):
            c.ok(tuple(s2) == (y2-y1,x2-x1), "%s mode %s: shape %s" % (nm, mode, s2)); check_positions(c, skygrid(s2, w2), skygrid(r_.shape, r_.wcs), "%s mode %s" % (nm, mode))
        c.same(np.asarray(enmap.submap(np.array(m), box, mode=mode, iwcs=wcs)), np.asarray(r_), "submap of a bare array with its pixelization")
    # two touching boxes partition the pixels
    mid = c.uni(fy[0]+1, fy[1]-1) if fy[1]-fy[0] > 2.5 else (fy[0]+fy[1])/2
    dm, _ = ref_pix2sky(wcs, mid, 0.)
    b1, b2 = box.copy(), box.copy(); b1[1,0] = dm; b2[0,0] = dm
    for mode in ["round","floor","ceil"]:
        i0, i1, i2 = [enmap.subinds(shape, wcs, b, mode=mode) for b in (box, b1, b2)]
        c.ok(i1[1,0] == i2[0,0] and i1[0,0] == i0[0,0] and i2[1,0] == i0[1,0], "touching boxes overlap or leave a gap in mode %s: %s %s" % (mode, i1.tolist(), i2.tolist()))

def autocrop(c):
    shape, wcs = patch(c, nmin=8)
    pre = premul(c)
    a = unique(c, pre+shape)
    y1,y2,x1,x2 = [c.int(0,3) for i in range(4)]
    val = c.pick(0., 0., 5e6)
    m = enmap.ndmap(np.full(pre+shape, val), wcs)
    m[...,y1:shape[0]-y2,x1:shape[1]-x2] = a[...,y1:shape[0]-y2,x1:shape[1]-x2]
    note_geo(c, shape, wcs); c.note(blank=(y1,y2,x1,x2), val=val)
    tiny = c.pick(1., 1., 1e-9, 1e-20) if val == 0 else 1.; m *= tiny; a = a*tiny; c.note(scale=tiny) # faint maps are not blank
    with c.keeps("autocrop", m): r = enmap.autocrop(m, value=val)
    c.same(np.asarray(r), a[...,y1:shape[0]-y2,x1:shape[1]-x2], "autocrop content")
    check_positions(c, skygrid(r.shape, r.wcs), skygrid(shape, wcs)[:,y1:shape[0]-y2,x1:shape[1]-x2], "autocrop positions")

def shifting(c):
    """cyclic pixel shifts move the values; with the wcs following, each value keeps its sky position (mod wrap)"""
    shape, wcs = patch(c)
    m = enmap.ndmap(unique(c, premul(c)+shape), wcs)
    off = (c.int(-5,5), c.int(-5,5)); note_geo(c, shape, wcs); c.note(off=off)
    with c.keeps("shift", m): r = enmap.shift(m, off)
    c.same(np.asarray(r), np.roll(np.asarray(m), off, (-2,-1)), "shifted values")
    for (y,x) in [(c.int(0,shape[0]-1), c.int(0,shape[1]-1)) for i in range(5)]:
        if 0 <= y+off[0] < shape[0] and 0 <= x+off[1] < shape[1]:
            a = np.array(ref_pix2sky(wcs, y, x)); b = np.array(ref_pix2sky(r.wcs, y+off[0], x+off[1]))
            check_positions(c, b[:,None], a[:,None], "sky position of a shifted pixel")
    k = enmap.shift(m, off, keepwcs=True)
    c.ok(wcsutils.equal(k.wcs, wcs), "keepwcs changed the wcs")
    m2 = m.copy(); i = enmap.shift(m2, off, inplace=True)
    c.same(np.asarray(i), np.asarray(r), "inplace shift result"); c.same(np.asarray(m2), np.asarray(r), "inplace shift of the map itself")
    for sf, nf in ((enmap.fftshift, np.fft.fftshift), (enmap.ifftshift, np.fft.ifftshift)):
        m3 = m.copy(); i = sf(m3, inplace=True); c.same(np.asarray(m3), nf(np.asarray(m), (-2,-1)), "inplace %s" % sf.__name__); c.same(np.asarray(i), np.asarray(m3), "what an inplace %s returns" % sf.__name__)
    with c.keeps("fftshift", m): fs = enmap.fftshift(m)
    with c.keeps("ifftshift", m): c.same(np.asarray(enmap.ifftshift(m)), np.fft.ifftshift(np.asarray(m), (-2,-1)), "ifftshift")
    c.same(np.asarray(fs), np.fft.fftshift(np.asarray(m), (-2,-1)), "fftshift")
    c.same(np.asarray(enmap.ifftshift(fs)), np.asarray(m), "ifftshift(fftshift)")

def padslices(c):
    m, shape, wcs, pre = mkmap(c)
    m = m.astype(float)
    y1, x1 = c.int(-6, shape[0]-1), c.int(-6, shape[1]-1)
    y2, x2 = y1+c.int(1, shape[0]+6), x1+c.int(1, shape[1]+6)
    c.note(box=(y1,x1,y2,x2))
    r = enmap.padslice(m, [[y1,x1],[y2,x2]], default=-1.)
    big = np.pad(np.asarray(m), [(0,0)]*len(pre)+[(60,60),(60,60)], constant_values=-1.) if max(shape)<=60 else None
    if big is not None: c.same(np.asarray(r), big[...,60+y1:60+y2,60+x1:60+x2], "padslice values")
    p = np.array(ref_pix2sky(wcs, *np.meshgrid(np.arange(y1,y2), np.arange(x1,x2), indexing="ij")))
    if np.all(np.isfinite(p)) and proj_of(wcs)=="car" : check_positions(c, np.array(ref_pix2sky(r.wcs, *grid(r.shape))), p, "padslice positions")

def recenter(c):
    """moving the reference point along the equator changes no pixel's position"""
    shape, wcs = c.pick(lambda: patch(c, projs=CYL), lambda: fullsky(c)[:2], lambda: band(c)[:2])()
    note_geo(c, shape, wcs)
    p = skygrid(shape, wcs)
    s, w = enmap.recenter_geo(shape, wcs, mode=c.pick("auto", True)); s_w = w
    s_, w_ = enmap.recenter_geo(shape, wcs, mode=False); c.ok(tuple(s_) == tuple(shape) and np.all(w_.wcs.crpix == wcs.wcs.crpix) and np.all(w_.wcs.crval == wcs.wcs.crval), "mode=False leaves the geometry alone")
    c.ok(tuple(s) == tuple(shape), "recenter changed shape")
    check_positions(c, skygrid(s, w), p, "recentered geometry", tol=1e-8)
    x = c.uni(0, shape[1])
    w = wcsutils.recenter_cyl_x(wcs, x)
    check_positions(c, skygrid(shape, w), p, "recenter_cyl_x", tol=1e-8); c.close(w.wcs.crpix[0], x, "recenter_cyl_x puts the reference point at x", rtol=1e-12)
    if wcsutils.is_separable(wcs): c.close(s_w.wcs.crpix[0], (shape[1]+1)/2, "the recentered reference point is in the middle column", rtol=1e-12)

MONITORS = [
  ("slices", slices, 400, 6000),
  ("chain", chain, 200, 3000),
  ("indexing", indexing, 150, 1500),
  ("padding", padding, 200, 2000),
  ("submaps", submaps, 400, 5000),
  ("submap_modes", submap_modes, 100, 1500),
  ("autocrop", autocrop, 60, 600),
  ("shifting", shifting, 100, 1000),
  ("padslices", padslices, 100, 1000),
  ("recenter", recenter, 100, 1000),
]

"""P01: painting objects into maps, and radial sums.  Oracle: brute force over all (object, pixel) pairs in double precision."""
import numpy as np
from pixell import enmap, pointsrcs, utils
import gen
from gen import deg

DERR = 2e-6   # the native code works in single precision: slack on every angular distance (0.4")

def geo(c):
    k = c.pick("patch", "patch", "full", "band", "small")
    if k == "patch": shape, wcs = gen.patch(c, nmin=3, nmax=45, resmin=0.05)
    elif k == "small": shape, wcs = gen.patch(c, nmin=1, nmax=9, resmin=0.05)
    elif k == "full":  shape, wcs = gen.fullsky(c, nymin=5, nymax=40)[:2]
    else:              shape, wcs = gen.band(c, nymax=36)[:2]
    gen.note_geo(c, shape, wcs)
    return shape, wcs

def objects(c, shape, wcs, n, inside=False):
    """positions in and around the map, at the poles and across the ra cut"""
    ny, nx = shape; zen = gen.proj_of(wcs) in gen.ZEN
    y = c.uni(-0.3*ny-2, 1.3*ny+2, n); x = c.uni(-0.3*nx-2, 1.3*nx+2, n)
    if zen or inside or c.flip(0.5): y = np.clip(y, 0, ny-1)
    if zen: x = np.clip(x, -3, nx+2)
    onpix = c.rng.random(n) < 0.2
    y = np.where(onpix, np.round(y), y); x = np.where(onpix, np.round(x), x)
    pos = np.array(gen.ref_pix2sky(wcs, y, x))
    bad = ~np.all(np.isfinite(pos), 0)
    # off the end of the projection
    pos[0, bad] = np.array(gen.ref_pix2sky(wcs, (ny-1)/2., (nx-1)/2.))[0]; pos[1, bad] = np.array(gen.ref_pix2sky(wcs, (ny-1)/2., (nx-1)/2.))[1]
    pos[0] = np.clip(pos[0], -np.pi/2, np.pi/2)
    if c.flip(0.3): pos[1] = utils.rewind(pos[1], c.pick(0, np.pi))
    return pos

def profile(c, scale, equi=None):
    n = c.pick(2, 3, 5, 20, 200)
    kind = c.pick("gauss", "gauss", "poly", "sign", "cut", "delta")
    R = scale*c.uni(0.5, 6)
    if equi or (equi is None and c.flip()): r = np.linspace(0, R, n)
    else:
        r = np.sort(c.uni(0, R, n)); r[0] = c.pick(0, 0, r[0]); r[-1] = R
        r = np.maximum.accumulate(r + np.arange(n)*R*1e-3)
    x = r/r[-1]
    v = {"gauss": np.exp(-0.5*(x*4)**2), "poly": (1-x)**2, "sign": np.cos(7*x)*np.exp(-2*x), "cut": 1+0*x, "delta": 1.0*(np.arange(n) == 0)}[kind]
    v = v*c.pick(1, 1, c.uni(0.1, 50))
    c.note(prof=kind, nprof=n)
    return np.array([r, v])

def evalprof(p, r): return np.where(r >= p[0, -1], 0, np.interp(r, p[0], p[1]))

def reference(c, shape, wcs, poss, amps, profs, ids, vmin, rmax):
    """contributions[nobj,ncomp,ny,nx], which of them may be left out, and a numerical tolerance for each"""
    dec, ra = gen.skygrid(shape, wcs)
    C, opt, tol = [], [], []
    for i in range(poss.shape[1]):
        p  = profs[ids[i]].astype(np.float32).astype(float)
        r  = gen.angsep(dec, ra, poss[0, i], poss[1, i])
        v  = evalprof(p, r)
        sl = np.max(np.abs(np.diff(p[1])/np.diff(p[0]))) if p.shape[1] > 1 else 0
        a  = amps[:, i]
        am = np.max(np.abs(a))
        with np.errstate(all="ignore"): ok = np.abs(p[1])*am >= vmin*(1+1e-5)
        R  = p[0, np.where(ok)[0][-1]] if np.any(ok) else 0
        if rmax: R = min(R, rmax)
        C.append(a[:, None, None]*v)
        opt.append((r > R-DERR) | (am == 0))
        t = np.abs(a)[:, None, None]*(sl*DERR + 2e-6*np.max(np.abs(p[1])) + np.where(np.abs(r-p[0, -1]) < DERR, np.abs(p[1, -1])+sl*DERR, 0))
        # near steep steps the slope can act over the whole step
        t = np.minimum(t, np.abs(a)[:, None, None]*2*np.max(np.abs(p[1])))
        tol.append(t)
    return np.array(C), np.array(opt), np.array(tol)

def judge(c, res, base, op, C, opt, tol, msg):
    """res must be explained by including every non-optional contribution, and any subset of the optional ones"""
    n = len(C)
    if n == 0:
        c.close(res, base, msg, rtol=1e-6); return
    opt = np.broadcast_to(opt[:, None], C.shape)
    eps = 4e-6*(np.sum(np.abs(C), 0)+np.abs(base))+1e-9*np.max(np.abs(C))
    if op == "add":
        T  = np.sum(tol, 0)+eps
        lo = base+np.sum(np.where(opt, np.minimum(C, 0), C), 0); hi = base+np.sum(np.where(opt, np.maximum(C, 0), C), 0)
    else:
        T = np.max(tol, 0)+eps
        f = np.maximum if op == "max" else np.minimum
        inf = -np.inf if op == "max" else np.inf
        a = f(base, f.reduce(np.where(opt, inf, C), 0)); b = f(base, f.reduce(C, 0))
        lo, hi = np.minimum(a, b), np.maximum(a, b)
    bad = ~((res >= lo-T) & (res <= hi+T))
    c.ok(not np.any(bad), "%s: %d of %d pixels wrong, first %s: %s not in [%s,%s]" % ((msg, np.sum(bad), bad.size)+((tuple(np.argwhere(bad)[0]), res[tuple(np.argwhere(bad)[0])], lo[tuple(np.argwhere(bad)[0])], hi[tuple(np.argwhere(bad)[0])]) if np.any(bad) else (0, 0, 0, 0))))

def scale_of(shape, wcs):
    """angular scale from a pixel to a good part of the map"""
    return np.sqrt(np.abs(np.prod(wcs.wcs.cdelt)))*deg

def paint(c):
    shape, wcs = geo(c)
    n    = c.pick(1, 2, 5, 12, 30, 45)
    npr  = c.pick(1, 1, 1, 2, 3)
    pre  = c.pick((), (1,), (3,), (2, 2))
    sc   = scale_of(shape, wcs)*c.pick(1, 3, 8)
    sep  = c.pick("auto", "auto", False)
    # without separability the reach of an object is estimated from the pixels of the map only
    poss = objects(c, shape, wcs, n, inside=not sep)
    nc   = int(np.prod(pre))
    amps = c.rng.standard_normal((nc, n))*10**c.uni(-2, 3, n)
    if c.flip(0.3): amps[c.int(0, nc-1)] = 0
    if c.flip(0.2): amps[:, c.int(0, n-1)] = 0
    equi = c.pick(True, None, False)
    profs= [profile(c, sc, equi) for i in range(npr)]
    if not sep and gen.proj_of(wcs) in gen.CYL and np.max(np.abs(poss[0]))+max(p[0, -1] for p in profs) > 85*deg: sep = "auto"
    ids  = c.rng.integers(0, npr, n) if npr > 1 or c.flip(0.2) else None
    vmin = c.pick(None, None, 0, 10**c.uni(-3, 0)); rmax = c.pick(None, None, sc*c.uni(0.2, 4))
    op   = c.pick("add", "add", "add", "max", "min")
    c.note(n=n, npr=npr, pre=pre, vmin=vmin, rmax=rmax, op=op, sep=sep)
    kw = dict(vmin=vmin, rmax=rmax, op=op, separable=sep)
    base = np.zeros((nc,)+shape)
    if c.flip(0.4):
        base = c.rng.standard_normal((nc,)+shape).astype(np.float32).astype(float)
        kw["omap"] = enmap.ndmap(base.reshape(pre+shape).astype(np.float32), wcs)
    if c.flip(0.3): kw["cache"] = {}
    A = amps.reshape(pre+(n,)).astype(c.pick(np.float32, np.float64))
    amps = A.reshape(nc, n).astype(np.float32).astype(float)
    P = profs if npr > 1 or c.flip(0.3) else profs[0]
    with c.keeps("sim_objects", poss, A, *profs):
        res = pointsrcs.sim_objects(shape, wcs, poss, A, P, prof_ids=ids, **kw)
    c.ok(res.shape == pre+shape, "shape %s" % (res.shape,))
    c.ok(res.dtype == np.float32, "dtype")
    if "omap" in kw: c.same(kw["omap"], res, "omap was updated")
    v = np.float32(vmin if vmin is not None else np.min(np.abs(A.astype(np.float32)))*1e-3)
    C, opt, tol = reference(c, shape, wcs, poss, amps, profs, ids if ids is not None else np.zeros(n, int), float(v), rmax)
    judge(c, np.asarray(res, float).reshape(nc, *shape), base, op, C, opt, tol, "sim_objects")
    if "cache" in kw:
        k2 = dict(kw); k2["omap"] = enmap.ndmap(base.reshape(pre+shape).astype(np.float32), wcs)
        c.same(pointsrcs.sim_objects(shape, wcs, poss, A, P, prof_ids=ids, **k2), res, "second call with the same cache")

def window(c):
    shape, wcs = gen.patch(c, projs=("car", "cea"), nmin=12, nmax=30, resmin=0.1)
    gen.note_geo(c, shape, wcs)
    poss = objects(c, shape, wcs, 4); amps = c.rng.standard_normal(4)
    sc = scale_of(shape, wcs); p = profile(c, sc*2, True)
    a = pointsrcs.sim_objects(shape, wcs, poss, amps, p)
    order = c.pick(0, 1)
    b = pointsrcs.sim_objects(shape, wcs, poss, amps, p, pixwin=True, pixwin_order=order)
    c.close(b, enmap.apply_window(a, order=order), "pixwin=True", rtol=1e-5)
    c.ok(pointsrcs.sim_objects(shape, wcs, np.zeros((2, 0)), np.zeros((3, 0)), p).shape == (3,)+shape, "no objects")

def srcs(c):
    """the older interface, its python implementation and the distance transform version"""
    method = c.pick("c", "c", "python", "dist")
    proj = ("car", "cea", "mer") if method != "c" else gen.CYL+gen.ZEN
    shape, wcs = gen.patch(c, projs=proj, nmin=14, nmax=40, maxdec=70, resmin=0.05, flips=method == "c")
    gen.note_geo(c, shape, wcs)
    n = c.pick(1, 3, 12); 
    pre = c.pick((), (1,), (3,)); nc = int(np.prod(pre))
    poss = objects(c, shape, wcs, n)
    if method == "dist":
        poss = np.array(gen.ref_pix2sky(wcs, c.uni(0, shape[0]-1, n), c.uni(0, shape[1]-1, n)))
    amps = c.uni(0.5, 2, (nc, n))*10**c.uni(-8, 2)*c.pick(1, -1)
    sc = scale_of(shape, wcs)
    sig = sc*c.uni(0.8, 2.5); nsig = c.pick(4, 5)
    if method == "dist": nsig = 3
    beam = c.pick(sig, "arr")
    if utils.streq(beam, "arr"):
        r = np.linspace(0, sig*(nsig+1), 400); beam = np.array([r, np.exp(-0.5*(r/sig)**2)])
    c.note(method=method, n=n, pre=pre, nsig=nsig, arr=not np.isscalar(beam))
    S = np.concatenate([poss, amps]).T.copy()
    dec, ra = gen.skygrid(shape, wcs)
    r = np.array([gen.angsep(dec, ra, *p) for p in poss.T])
    b = np.exp(-0.5*(r/sig)**2)
    cut = np.exp(-0.5*nsig**2)
    tot = np.max(np.abs(amps))
    kw = dict(nsigma=nsig)
    base = np.zeros((nc,)+shape)
    if c.flip(0.4):
        base = tot*c.rng.standard_normal((nc,)+shape).astype(np.float32)
        kw["omap"] = enmap.ndmap(base.reshape(pre+shape).astype(np.float32), wcs)
    with c.keeps("sim_srcs", S):
        if method == "dist": res = pointsrcs.sim_srcs_dist_transform(pre+shape, wcs, S, np.array(beam), **kw) if not np.isscalar(beam) else pointsrcs.sim_srcs_dist_transform(pre+shape, wcs, S, pointsrcs.expand_beam(beam, nsig), **kw)
        else: res = pointsrcs.sim_srcs(pre+shape, wcs, S, beam, method=method, **kw)
    c.ok(res.shape == pre+shape, "shape %s" % (res.shape,))
    if "omap" in kw: c.same(kw["omap"], res, "omap was updated")
    if method == "dist":
        near = np.argmin(r, 0)
        m = np.min(r, 0)
        # only where one source dominates clearly is the nearest one well-defined
        s = np.sort(r, 0); safe = (s[1]-s[0] > 2*np.max(np.abs(wcs.wcs.cdelt))*deg) if n > 1 else np.ones(shape, bool)
        ref = base + np.take_along_axis(amps, near.reshape(1, -1), 1).reshape((nc,)+shape)*np.exp(-0.5*(m/sig)**2) if nc == 1 else base+amps[:, near]*np.exp(-0.5*(m/sig)**2)
        c.close(np.where(safe, res.reshape((nc,)+shape), 0), np.where(safe, ref, 0), "nearest source", atol=tot*(cut+1e-4))
    else:
        ref = base + np.einsum("cn,nyx->cyx", amps, b)
        # the python version rounds its reach to whole pixels
        lim = cut*1.5 if method == "c" else np.exp(-0.5*(nsig-1.5)**2)
        T = tot*(n*(2e-4*1.2+DERR/sig)+np.sum(np.where(b < lim, b, 0), 0)) + 1e-6*np.abs(base)
        d = np.abs(np.asarray(res, float).reshape((nc,)+shape)-ref)
        c.ok(np.all(d <= T), "%s: off by %.3g of the amplitude (allowed %.3g) at %s" % (method, np.max(d-T)/tot, np.max(T)/tot, np.unravel_index(np.argmax(d-T), d.shape)))

def transpose(c):
    """map to amplitudes is the transpose of amplitudes to map"""
    shape, wcs = geo(c)
    n = c.pick(1, 3, 14); nc = c.pick(1, 2)
    sc = scale_of(shape, wcs)*c.pick(1, 3); poss = objects(c, shape, wcs, n)
    r = np.linspace(0, sc*c.uni(1, 5), 50); p = np.array([r, (1-(r/r[-1])**2)**2])
    m = enmap.ndmap(c.rng.standard_normal((nc,)+shape).astype(np.float32), wcs)
    a0 = c.uni(1, 2, (nc, n)).astype(np.float32)
    c.note(n=n, nc=nc)
    a = a0.copy()
    m0 = m.copy()
    pointsrcs.sim_objects(shape, wcs, poss, a, p, omap=m, transpose=True, vmin=0)
    c.same(m, m0, "the map is only read")
    C, opt, tol = reference(c, shape, wcs, poss, np.ones((1, n)), [p], np.zeros(n, int), 0.0, None)
    ref = a0+np.einsum("nyx,cyx->cn", C[:, 0], m0.astype(float))
    T = 1e-5*np.einsum("nyx,cyx->cn", np.abs(C[:, 0]), np.abs(m0).astype(float)) + np.einsum("nyx,cyx->cn", tol[:, 0], np.abs(m0).astype(float)) + 1e-5
    c.ok(np.all(np.abs(a-ref) <= T), "amplitudes %s vs %s" % (a, ref))

def radial(c):
    shape, wcs = geo(c)
    n = c.pick(1, 3, 9); pre = c.pick((), (3,), (2, 2)); nc = int(np.prod(pre))
    sep = c.pick("auto", "auto", False)
    poss = objects(c, shape, wcs, n, inside=not sep)
    sc = scale_of(shape, wcs); nb = c.int(2, 9)
    if c.flip(): bins = np.linspace(0, sc*c.uni(1, 25), nb+1)
    else:        bins = np.cumsum(c.uni(0.3, 3, nb+1))*sc - c.pick(0, 0.3*sc)
    if not sep and gen.proj_of(wcs) in gen.CYL and np.max(np.abs(poss[0]))+bins[-1] > 85*deg: sep = "auto"
    dt = c.pick(np.float32, np.float32, np.float64)
    m  = enmap.ndmap(c.rng.standard_normal(pre+shape).astype(dt), wcs)
    c.note(n=n, pre=pre, nb=nb, dt=dt.__name__, sep=sep)
    w  = enmap.ndmap(c.uni(0.5, 2, shape).astype(dt), wcs)
    kw = dict(separable=sep)
    if c.flip(0.3): kw["cache"] = {}
    with c.keeps("radial_sum", m, poss, bins):
        res = pointsrcs.radial_sum(m, poss, bins, **kw)
    c.ok(res.shape == (n,)+pre+(nb,), "shape %s" % (res.shape,))
    def binned(m):
        dec, ra = gen.skygrid(shape, wcs); bf = bins.astype(np.float32).astype(float)
        v = np.asarray(m, float).reshape(-1, *shape)
        ref, amb = np.zeros((n, len(v), nb)), np.zeros((n, len(v), nb))
        for i in range(n):
            r = gen.angsep(dec, ra, *poss[:, i])
            for b in range(nb):
                D = DERR+2e-6*bf[b+1]
                inside = (r >= bf[b]) & (r < bf[b+1])
                if bf[b] == 0: near = np.abs(r-bf[b+1]) < D
                else: near = (np.abs(r-bf[b]) < D) | (np.abs(r-bf[b+1]) < D)
                ref[i, :, b] = np.sum(v*inside, (-2, -1)); amb[i, :, b] = np.sum(np.abs(v)*near, (-2, -1)) + 1e-5*np.sum(np.abs(v)*inside, (-2, -1))
        return ref, amb
    ref, amb = binned(m)
    d = np.abs(res.reshape(n, nc, nb)-ref)
    c.ok(np.all(d <= amb+1e-6), "radial_sum off by %.4g at %s" % (np.max(d-amb), np.unravel_index(np.argmax(d-amb), d.shape)))
    # averages
    uw = c.flip()
    with c.keeps("radial_bin", m, w):
        avg = pointsrcs.radial_bin(m, poss, bins, weights=w if uw else None, separable=sep)
    W = np.asarray(w, float) if uw else np.ones(shape)
    num, a1 = binned(np.asarray(m, float)*W); div, a2 = binned(W)
    ok = (a2 < 1e-3*div)&(div > 0) & (a1 < 0.02*np.max(np.abs(num), initial=1))
    ok = np.broadcast_to(ok & (a1-1e-5*np.abs(num) < 1e-2), num.shape)
    with np.errstate(all="ignore"): ref = num/div
    with np.errstate(all="ignore"): T = np.where(ok, (a1+np.abs(ref)*a2)/div+1e-5, np.inf)
    d = np.where(ok, np.abs(avg.reshape(n, nc, nb)-np.where(ok, ref, 0)), 0)
    c.ok(np.all((d <= T) | ~ok), "radial_bin off")
    empty = np.broadcast_to((div == 0) & (a2 == 0), num.shape)
    c.ok(np.all(~np.isfinite(avg.reshape(n, nc, nb)[empty])), "empty bins have no average")

def match(c):
    n1, n2 = c.int(1, 20), c.int(1, 20); tol = c.pick(1*utils.arcmin, 0.01, 0.3)
    a = np.array([c.uni(-4, 4, n1), c.uni(-1.5, 1.5, n1)]).T
    b = np.array([c.uni(-4, 4, n2), c.uni(-1.5, 1.5, n2)]).T
    k = min(n1, n2, c.int(0, 8)); b[:k] = a[:k]+c.rng.standard_normal((k, 2))*tol*c.pick(0.3, 1)
    if c.flip(0.3): a = np.hstack([a, c.rng.standard_normal((n1, 2))])
    c.note(n1=n1, n2=n2, tol=tol)
    with c.keeps("crossmatch", a, b): m = pointsrcs.crossmatch(a, b, tol=tol)
    c.ok(m.ndim == 2 and m.shape[1] == 2, "shape %s" % (m.shape,))
    d = gen.angsep(a[:, 1][:, None], a[:, 0][:, None], b[None, :, 1], b[None, :, 0])
    j = np.argmin(d, 1); dm = np.min(d, 1)
    got = dict(map(tuple, m.tolist()))
    for i in range(n1):
        if abs(dm[i]-tol) < 1e-9: continue
        if dm[i] > tol: c.ok(i not in got, "spurious match of %d" % i)
        else: c.ok(i in got and d[i, got[i]] <= dm[i]+1e-9, "source %d should match %d" % (i, j[i]))
    # cells
    M = c.rng.standard_normal(c.pick((), (2,))+(c.int(4, 12), c.int(4, 12))); ry, rx = c.int(1, 4), c.int(1, 4)
    cm = pointsrcs.cellify(M, (ry, rx))
    cy, cx = M.shape[-2]//ry, M.shape[-1]//rx
    c.ok(cm.shape == M.shape[:-2]+(cy, cx, ry, rx), "cellify shape")
    i, k = c.int(0, cy-1), c.int(0, cx-1)
    c.same(cm[..., i, k, :, :], M[..., i*ry:(i+1)*ry, k*rx:(k+1)*rx], "cellify")
    c.same(pointsrcs.uncellify(cm), M[..., :cy*ry, :cx*rx], "uncellify")

def catalogs(c):
    """catalogue files: written catalogues read back the same to the printed precision; every supported format in radians"""
    d = c.tmpdir(); n = c.int(1, 12); rng = c.rng
    ra, dec = c.uni(-180, 360, n), c.uni(-90, 90, n); kind = c.pick("sauron.fits", "sauron.txt", "simple3", "simple4", "dory_fits", "dory_txt", "fits", "fits_nofix", "nemo", "nemo_nodet", "missing", "param")
    c.note(kind=kind, n=n); I = rng.standard_normal((n, 3))*50
    if kind.startswith("sauron"):
        nf, nc = c.int(1, 4), 3
        cat = np.zeros(n, [("ra", "d"), ("dec", "d"), ("snr", "d", (nc,)), ("flux_tot", "d", (nc,)), ("dflux_tot", "d", (nc,)), ("flux", "d", (nf, nc)), ("dflux", "d", (nf, nc)), ("case", "i"), ("contam", "d", (nf,))]).view(np.recarray)
        for k in cat.dtype.names: cat[k] = rng.integers(0, 9, cat[k].shape) if k == "case" else rng.standard_normal(cat[k].shape)*c.pick(1, 100, 3000)
        cat.ra, cat.dec = ra*utils.degree, dec*utils.degree
        f = d+"/"+kind
        with c.keeps("write_sauron", cat): pointsrcs.write_sauron(f, cat)
        b = pointsrcs.read_sauron(f)
        c.ok(b.dtype.names == cat.dtype.names and len(b) == n, "fields %s" % (b.dtype.names,))
        for k in cat.dtype.names:
            tol = 1e-12 if kind.endswith("fits") else 0.5001e-4*utils.degree if k in ("ra", "dec") else 0.5001e-2
            c.ok(b[k].shape == cat[k].shape and np.max(np.abs(b[k]-cat[k])) <= tol+1e-12*np.max(np.abs(cat[k])), "sauron catalogue field %s" % k)
        return
    if kind == "missing":
        c.raises((IOError, OSError), lambda: pointsrcs.read(d+"/none.txt"), "missing catalogue"); return
    if kind == "param":
        cat = np.zeros(n, [("ra", "d"), ("dec", "d"), ("I", "d"), ("Q", "d"), ("U", "d")][:c.pick(3, 4, 5)]).view(np.recarray)
        cat.ra, cat.dec, cat.I = ra, dec, I[:, 0]
        for i, k in ((1, "Q"), (2, "U")):
            if k in cat.dtype.names: cat[k] = I[:, i]
        with c.keeps("src2param", cat): p = pointsrcs.src2param(cat)
        ref = np.zeros((n, 8)); ref[:, 0], ref[:, 1], ref[:, 5:7] = dec*utils.degree, ra*utils.degree, 1
        for i, k in enumerate("IQU"):
            if k in cat.dtype.names: ref[:, 2+i] = I[:, i]
        c.close(p, ref, "src2param", rtol=1e-14); return
    auto = c.flip(); f = d+"/cat"
    if kind.startswith("simple"):
        nc = 4 if kind == "simple4" else 3
        np.savetxt(f, np.array([ra, dec, I[:, 0], I[:, 1]])[:nc].T, fmt="%.17g", header=c.pick("", "ra dec flux")); fmt = "simple"; want = {"I": I[:, 0]}
        if nc == 4: want["dI"] = I[:, 1]
    elif kind == "dory_txt":
        np.savetxt(f, np.array([ra, dec, I[:, 0]*9, I[:, 0], I[:, 0]*7, I[:, 1], I[:, 1]*5, I[:, 2], I[:, 2]*3]).T, fmt="%.17g"); fmt = "dory_txt"; want = {"I": I[:, 0]*1e3, "Q": I[:, 1]*1e3, "U": I[:, 2]*1e3}
    elif kind == "dory_fits":
        from astropy.io import fits
        t = np.zeros(n, [("ra", "d"), ("dec", "d"), ("amp", "d", (3,))]); t["ra"], t["dec"], t["amp"] = ra, dec, I
        fits.BinTableHDU(t).writeto(f); fmt = "dory_fits"; want = {"I": I[:, 0]*1e3, "Q": I[:, 1]*1e3, "U": I[:, 2]*1e3}
    elif kind.startswith("fits"):
        from astropy.io import fits
        fix = kind == "fits"; names = ["RADeg", "decDeg", "deltaT_c", "err_deltaT_c", "extra"]
        t = np.zeros(n, [(k, "d") for k in names])
        for k, v in zip(names, (ra, dec, I[:, 0], I[:, 1], I[:, 2])): t[k] = v
        fits.BinTableHDU(t).writeto(f)
        b = pointsrcs.read_fits(f, fix=fix)
        for k, k2, v in zip(names, ["ra", "dec", "I", "dI", "extra"], (ra, dec, I[:, 0], I[:, 1], I[:, 2])): c.close(np.asarray(b[k2 if fix else k], float), v, "fits catalogue %s" % k, rtol=1e-14)
        return
    else:
        det = kind == "nemo"
        with open(f, "w") as F:
            for i in range(n):
                F.write(" ".join(["ACT", "J%03d" % i, repr(float(ra[i])), repr(float(dec[i])), repr(float(I[i, 2])), str(i+3)]+(["0.5"] if det else [])+["tmpl%d" % i, "12.5", repr(float(I[i, 0])), repr(float(I[i, 1]))])+"\n")
        if n == 1: return   # the reader only supports tables
        b = pointsrcs.read_nemo(f)
        c.ok([x.decode() for x in b.name] == ["ACTJ%03d" % i for i in range(n)] and [x.decode() for x in b.template] == ["tmpl%d" % i for i in range(n)], "nemo names")
        for k, v in (("ra", ra), ("dec", dec), ("snr", I[:, 2]), ("I", I[:, 0]), ("dI", I[:, 1]), ("npix", np.arange(n)+3)): c.close(np.asarray(b[k], float), np.asarray(v, float), "nemo "+k, rtol=1e-14)
        return
    b = pointsrcs.read(f, format="auto" if auto else fmt)
    c.ok(len(b) == n, "%d of %d sources" % (len(b), n))
    c.close(np.asarray(b.ra), ra*utils.degree, "ra in radians", rtol=1e-13); c.close(np.asarray(b.dec), dec*utils.degree, "dec in radians", rtol=1e-13)
    for k, v in want.items(): c.close(np.asarray(b[k]), v, "%s of a %s catalogue" % (k, kind), rtol=1e-13)

MONITORS = [("paint", paint, 500, 5000), ("window", window, 40, 300), ("srcs", srcs, 150, 1200), ("transpose", transpose, 150, 1500), ("radial", radial, 300, 3000), ("match", match, 150, 1500), ("catalogs", catalogs, 120, 800)]

"""Reprojection: healpix <-> enmap in both directions, thumbnails, rotated maps"""
import numpy as np, contextlib, io, warnings
import sph
from gen import arr, mkwcs, patch, fullsky, note_geo, ref_pix2sky, angsep, vec, skygrid, proj_of
from C01 import basis, rotang, frame
from pixell import enmap, utils, curvedsky, reproject, coordinates

INFO = {"rule": "band-limited fields evaluated at rotated directions with explicit spherical harmonics; pixel look-ups against the pixel that contains the rotated direction; healpy gives healpix pixel centres and its own bilinear weights",
  "assumptions": ["harmonic analysis of healpix maps is judged with iteration, where the quadrature error is below the tolerance",
                  "thumbnails are judged on smooth fields within their radius"]}

def euler(a, b, g):
    """Rz(g) Ry(b) Rz(a)"""
    z = lambda t: np.array([[np.cos(t),-np.sin(t),0],[np.sin(t),np.cos(t),0],[0,0,1]]); y = lambda t: np.array([[np.cos(t),0,np.sin(t)],[0,1,0],[-np.sin(t),0,np.cos(t)]])
    return z(g)@y(b)@z(a)

def rotation(c):
    """(argument, matrix from input to output directions, accuracy)"""
    k = c.pick("none","none","str","str","euler","euler","same")
    if k == "none": return None, np.eye(3), 1e-9
    if k == "euler": e = [c.uni(-3,3), c.pick(0., c.uni(0,3), c.uni(-3,3)), c.uni(-3,3)]; return c.pick(tuple(e), np.array(e), e), euler(*e), 1e-9
    if k == "same": n = c.pick("gal,gal","cel,equ","equ,cel"); return n, np.eye(3), 1e-7
    a, b = c.pick(("cel","gal"), ("gal","cel"), ("gal","equ"), ("equ","gal")); f = lambda n: frame("galactic" if n == "gal" else "icrs")
    return a+","+b, f(b)@f(a).T, 5e-6

def back(M, dec, ra):
    """the input direction that ends up at (dec,ra), and the angle the basis turns by"""
    v = np.einsum("ji,j...->i...", M, vec(dec, ra)); d, r = np.arctan2(v[2], np.hypot(v[0], v[1])), np.arctan2(v[1], v[0])
    return d, r, rotang(M, (r, d), (ra, dec))

def turn(q, psi, s=2):
    """polarization pair after its basis has turned by psi"""
    p = (q[0]+1j*q[1])*np.exp(1j*s*psi); return np.array([p.real, p.imag])

def lmlist(L): return np.array([(l, m) for m in range(L+1) for l in range(m, L+1)])

def spins(c, n):
    """(spin argument, list of (spin, first, last))"""
    sp = c.pick([0,2], [0,2], [0], [0,1]) if n in (3,6) else [0] if n != 2 else c.pick([0], [2], [1])
    if sp == [0]: return c.pick([0], 0), [(0,i,i+1) for i in range(n)]
    if len(sp) == 1: return sp, [(sp[0],0,2)]
    return sp, [g for k in range(0,n,3) for g in ((0,k,k+1), (sp[1],k+1,k+3))]

def field_cut(f, L): return f.cut(L)

def field(c, L, groups, n):
    lm = lmlist(L); a = np.zeros((n, len(lm)), complex)
    for s, i, j in groups:
        a[i:j] = sph.fix0(c.rng.normal(size=(j-i, len(lm)))+1j*c.rng.normal(size=(j-i, len(lm))), lm)
        if s: a[i:j,lm[:,0] < s] = 0
    def f(dec, ra, psi=None, a=a):
        d, r = np.ravel(dec), np.ravel(ra); o = np.zeros((n, d.size))
        for s, i, j in groups:
            if s == 0: o[i:j] = sph.synth(a[i:j], lm, 0, d, r)
            else:
                o[i:j] = sph.synth(a[i:j], lm, s, d, r)
                if psi is not None: o[i:j] = turn(o[i:j], np.ravel(psi), s)
        return o.reshape((n,)+np.shape(dec))
    f.cut = lambda L2: lambda dec, ra, psi=None: f(dec, ra, psi, np.where(lm[:,0] <= L2, a, 0))
    return f

def hpdirs(nside):
    import healpy; th, ph = healpy.pix2ang(nside, np.arange(12*nside**2)); return np.pi/2-th, ph

def ncomp(c): return c.pick(None, 1, 2, 2, 3, 3, 3, 6)
def dress(x, n): return x[0] if n is None else x

def m2h_harm(c):
    L = c.int(2,7); shape, wcs, v = fullsky(c, nymin=2*L+4, nymax=2*L+12); nx = shape[1]
    if nx < 2*L+2: return
    n = ncomp(c); N = n or 1; sp, gr = spins(c, N); rot, M, tol = rotation(c); nside = c.pick(2,4,5,8); dt = c.pick(np.float64, np.float64, np.float32); f = field(c, L, gr, N); note_geo(c, shape, wcs); c.note(L=L, n=n, spin=sp, rot=rot, nside=nside, dtype=dt.__name__)
    m = enmap.ndmap(dress(f(*skygrid(shape, wcs)), n).astype(dt), wcs); dec, ra = hpdirs(nside); d, r, psi = back(M, dec, ra); want = dress(f(d, r, psi), n)
    kw = dict(lmax=c.pick(L, L+1), rot=rot, spin=sp, method=c.pick("harm","harmonic"))
    with c.keeps("map2healpix", m): h = reproject.map2healpix(m, nside=nside, **kw)
    c.ok(h.shape == want.shape and h.dtype == dt, "shape %s, type %s" % (h.shape, h.dtype)); t = dict(rtol=0, atol=max(tol*L*20, 1e-6 if dt == np.float64 else 2e-4)*max(1, np.max(np.abs(want)))); c.close(h, want, "healpix map of the rotated sky", **t)
    if L >= 3 and all(g_[0] == 0 for g_ in gr):
        # multipoles above lmax are left out
        L2 = c.int(2, L-1); g2 = field_cut(f, L2); h = reproject.map2healpix(m, nside=nside, **dict(kw, lmax=L2)); c.note(lcut=L2); c.close(h, dress(g2(d, r, psi), n), "healpix map up to a lower multipole", rtol=0, atol=0.15*np.max(np.abs(want)))
    o = np.full(want.shape, 7, dt); g = reproject.map2healpix(m, out=o, **kw); c.ok(g is o or np.shares_memory(g, o), "result not in the given array"); c.close(o, want, "healpix map in a given array", **t)
    e = reproject.map2healpix(m, nside=nside, extensive=True, **kw) if v == "fejer1" else None
    if e is not None:
        # an extensive map of constant density stays one
        den = enmap.ndmap(np.ones(m.shape, dt)*np.asarray(m.pixsizemap(), dt), wcs); e = reproject.map2healpix(den, nside=nside, extensive=True, lmax=L, spin=[0], rot=rot); c.close(e, np.full(e.shape, 4*np.pi/(12*nside**2)), "constant density", rtol=1e-3)

def near_half(pix, tol): return np.any(np.abs((pix % 1)-0.5) < tol, 0)

def m2h_spline(c):
    shape, wcs = (fullsky(c, nymin=8, nymax=24)[:2] if c.flip(0.6) else patch(c, projs=("car","cea","tan","zea"), nmin=8, nmax=24, resmin=0.5)); order = c.pick(0,1,1,3); n = ncomp(c); N = n or 1; sp, gr = spins(c, N); rot, M, tol = rotation(c); nside = c.pick(2,4,7,8); bd = c.pick("constant","constant","wrap","nearest") if proj_of(wcs) in ("car","cea") else "constant"; dt = c.pick(np.float64, np.float32)
    note_geo(c, shape, wcs); c.note(order=order, n=n, spin=sp, rot=rot, nside=nside, boundary=bd, dtype=dt.__name__); m = enmap.ndmap(dress(arr(c, (N,)+shape), n).astype(dt), wcs); kw = dict(rot=rot, spin=sp, method="spline", order=order, boundary=bd)
    with c.keeps("map2healpix", m): h = reproject.map2healpix(m, nside=nside, **kw)
    dec, ra = hpdirs(nside); d, r, psi = back(M, dec, ra); pix = enmap.sky2pix(shape, wcs, [d, r]); ok = np.isfinite(pix).all(0)
    res = np.min(np.abs(wcs.wcs.cdelt))*utils.degree; pt = tol/res/np.maximum(np.cos(d), 1e-3); ok &= (np.abs(d) < 1.55)&(np.abs(dec) < 1.55)
    edge = np.any([(np.abs(p-e) < pt+1e-6) for p, k in zip(pix, shape) for e in (-0.5, 0, k-1, k-0.5)], 0); ok &= ~edge
    if order == 0: ok &= ~near_half(pix, 10*pt+1e-6)
    # longitudes of the seam may be taken on either side
    nphi = abs(360/wcs.wcs.cdelt[0])
    if proj_of(wcs) in ("car","cea"): ok &= ~((np.abs((pix[1]+0.5) % nphi) < 2)|(np.abs((pix[1]+0.5) % nphi-nphi) < 2)|(np.abs(pix[1] % nphi-shape[1]) < 2)) if bd != "constant" else ~(np.abs((pix[1]-(shape[1]-1)/2+nphi/2+1) % nphi) < 2)
    if not np.any(ok): return c.note(empty=True)
    want = enmap.at(m.astype(float), pix[:,ok], unit="pix", order=order, border=bd); want = np.array(want.reshape((N, -1)))
    for s, i, j in gr:
        if s: want[i:j] = turn(want[i:j], psi[ok], s)
    want = dress(want, n); t = dict(rtol=0, atol=(np.max(pt[ok])*20+1e-6)*max(1, np.max(np.abs(m)))+(1e-4 if dt == np.float32 else 0)+(1e-3 if order == 3 else 0)+1e-4*any(g[0] for g in gr)*max(1, np.max(np.abs(m)))); c.ok(h.dtype == dt and h.shape == want.shape[:-1]+(12*nside**2,), "shape and type"); c.close(h[...,ok], want, "pixel values of the rotated map", **t)
    b = c.pick(1, 7, 100, 12*nside**2-1, 10**6) if nside < 5 else c.pick(100, 12*nside**2-1); bt = reproject.map2healpix(m, nside=nside, bsize=b, **kw); c.close(bt[...,ok], h[...,ok], "batch size", rtol=0, atol=t["atol"]/10); o = np.full(h.shape, 3, dt); reproject.map2healpix(m, out=o, **kw); c.close(o, h, "given array", rtol=1e-6, atol=1e-7)
    e = reproject.map2healpix(m, nside=nside, extensive=True, **kw); f = reproject.map2healpix(enmap.ndmap(np.asarray(m)/np.asarray(m.pixsizemap()), wcs), nside=nside, **kw)*(4*np.pi/(12*nside**2)); c.close(e, f, "extensive map", rtol=1e-4, atol=1e-5*np.max(np.abs(f)))

def outgeo(c):
    return fullsky(c, nymin=6, nymax=16)[:2] if c.flip(0.5) else patch(c, projs=("car","cea","tan","zea","arc"), nmin=3, nmax=14, resmin=0.5)

def h2m_harm(c):
    L = c.int(2,5); nside = c.pick(4,8,6); shape, wcs = outgeo(c); n = ncomp(c); N = n or 1; sp, gr = spins(c, N); rot, M, tol = rotation(c); dt = c.pick(np.float64, np.float64, np.float32); f = field(c, L, gr, N); note_geo(c, shape, wcs); c.note(L=L, n=n, spin=sp, rot=rot, nside=nside, dtype=dt.__name__)
    h = dress(f(*hpdirs(nside)), n).astype(dt); dec, ra = skygrid(shape, wcs); d, r, psi = back(M, dec, ra); want = dress(f(d, r, psi), n); kw = dict(lmax=L, rot=rot, spin=sp, niter=5); sc = max(1, np.max(np.abs(want)), np.max(np.abs(h)))
    with c.keeps("healpix2map", h): m = reproject.healpix2map(h, c.pick(shape, (4,)+shape), wcs, **kw)
    c.ok(m.shape == want.shape and m.dtype == dt and isinstance(m, enmap.ndmap), "shape %s, type %s" % (m.shape, m.dtype)); p = np.abs(dec) < 1.57; t = dict(rtol=0, atol=3e-4*sc); c.close(np.asarray(m)[...,p], want[...,p], "map of the rotated healpix sky", **t)
    o = enmap.full(want.shape, wcs, 5, dt); reproject.healpix2map(h, out=o, **kw); c.close(o, m, "given map", rtol=1e-5, atol=1e-6*sc)
    c.close(reproject.healpix2map(h, shape, wcs, extensive=True, **kw), np.asarray(m)*np.asarray(m.pixsizemap())*(12*nside**2)/(4*np.pi), "extensive map", rtol=1e-4, atol=1e-5*sc)
    # the default band limit is no lower than the content
    a = reproject.healpix2map(h, shape, wcs, rot=rot, spin=sp, niter=5); c.ok(np.max(np.abs(np.asarray(a)[...,p]-want[...,p])) < 0.1*sc, "default band limit")

def h2m_spline(c):
    import healpy
    nside = c.pick(1,2,4,8,5); shape, wcs = outgeo(c); order = c.pick(0,1); n = ncomp(c); N = n or 1; sp, gr = spins(c, N); rot, M, tol = rotation(c); dt = c.pick(np.float64, np.float32); note_geo(c, shape, wcs); c.note(n=n, spin=sp, rot=rot, nside=nside, order=order, dtype=dt.__name__)
    h = dress(c.rng.normal(size=(N, 12*nside**2)), n).astype(dt); dec, ra = skygrid(shape, wcs); d, r, psi = back(M, dec, ra); kw = dict(rot=rot, spin=sp, order=order, method="spline"); ok = (np.abs(dec) < 1.56)&(np.abs(d) < 1.56)
    with c.keeps("healpix2map", h): m = reproject.healpix2map(h, shape, wcs, **kw)
    e = tol+1e-7
    if order == 0:
        p0 = healpy.ang2pix(nside, np.pi/2-d, r)
        for dd, dr in ((e,0),(-e,0),(0,e),(0,-e),(e,e),(-e,-e),(e,-e),(-e,e)): ok &= healpy.ang2pix(nside, np.clip(np.pi/2-d+dd, 0, np.pi), r+dr/np.maximum(np.cos(d), 1e-3)) == p0
        want = h[...,p0]
    else: want = dress(np.array([healpy.get_interp_val(np.float64(x), np.pi/2-d, r) for x in np.atleast_2d(h)]), n)
    want = np.array(want.reshape((N,)+shape), float)
    for s, i, j in gr:
        if s: want[i:j] = turn(want[i:j], psi, s)
    want = dress(want, n); c.ok(m.shape == want.shape and m.dtype == dt, "shape %s, type %s" % (m.shape, m.dtype)); c.close(np.asarray(m)[...,ok], want[...,ok], "healpix values at the rotated directions", rtol=0, atol=1e-4+e*nside*200)
    bt = reproject.healpix2map(h, shape, wcs, bsize=c.pick(1, 5, shape[1], shape[1]+1, 10**7), **kw); c.close(np.asarray(bt)[...,ok], np.asarray(m)[...,ok], "batch size", rtol=0, atol=1e-4); o = enmap.full(m.shape, wcs, 5, dt); reproject.healpix2map(h, out=o, **kw); c.close(np.asarray(o)[...,ok], np.asarray(m)[...,ok], "given map", rtol=0, atol=1e-4)
    x = reproject.healpix2map(h, shape, wcs, extensive=True, **kw); c.close(x, np.asarray(m)*np.asarray(m.pixsizemap())*(12*nside**2)/(4*np.pi), "extensive map", rtol=1e-4, atol=1e-6); c.raises(ValueError, lambda: reproject.healpix2map(h, shape, wcs, method="spline", order=3), "unsupported order")
    c.raises(ValueError, lambda: reproject.healpix2map(h, shape, wcs, method="nonsense"), "unknown method")

def nsides(c):
    x = 10**c.uni(-0.5, 4) if c.flip(0.6) else float(c.pick(1,2,3,4,9,10,31,32,33,64,100,512,1000)); rd = c.pick("ceil","floor","round"); F = {"ceil":np.ceil,"floor":np.floor,"round":np.round}[rd]; arg = c.pick(rd, F) if rd != "ceil" else c.pick("ceil", F); c.note(x=x, round=rd)
    a = reproject.restrict_nside(x, "any", arg); c.ok(isinstance(a, int) and a == max(1, int(F(x))), "any: %s" % a)
    p = reproject.restrict_nside(x, "pow2", arg); k = np.log2(p); c.ok(isinstance(p, int) and p >= 1 and p & (p-1) == 0, "not a power of two: %s" % p)
    if x >= 1: c.ok({"ceil": p >= x*(1-1e-12) and p < 2*x*(1+1e-12), "floor": p <= x*(1+1e-12) and p > x/2*(1-1e-12), "round": x/2**0.5*(1-1e-9) <= p <= x*2**0.5*(1+1e-9)}[rd], "wrong power of two: %s" % p)
    m = reproject.restrict_nside(x, "mul32", arg); c.ok(isinstance(m, int) and m >= 1, "mul32: %s" % m)
    if x > 32: c.ok(m % 32 == 0 and m == int(F(x/32)*32), "not the multiple of 32: %s" % m)
    c.ok(reproject.restrict_nside(x) == reproject.restrict_nside(x, "mul32", "ceil"), "defaults"); c.raises(ValueError, lambda: reproject.restrict_nside(x, "odd"), "unknown mode")
    # automatic resolution: at least as fine as the input
    shape, wcs = patch(c, projs=("car","tan"), nmin=4, nmax=8, resmin=3, resmax=6); m = enmap.ndmap(arr(c, shape), wcs); mode = c.pick("pow2","any","mul32"); h = reproject.map2healpix(m, method="spline", nside_mode=mode); ns = int(round((h.size/12)**0.5)); want = (4*np.pi/(np.mean(np.abs(wcs.wcs.cdelt))*utils.degree)**2/12)**0.5
    c.ok(ns >= want*(1-1e-9) or mode == "mul32", "output coarser than the input"); c.ok(ns < 2*want+1+32*(mode == "mul32"), "output much finer than the input"); c.ok(mode != "pow2" or ns & (ns-1) == 0, "power of two")
    # rotation descriptions
    e = [c.uni(-3,3), c.uni(0.1,3), c.uni(-3,3)]; c.close(reproject.rot2euler(e), e, "euler angles"); c.ok(np.max(np.abs(euler(*reproject.inv_euler(e))@euler(*e)-np.eye(3))) < 1e-12, "inverse rotation")
    for a, b in (("cel","gal"), ("gal","equ"), ("equ","cel"), ("gal","gal")):
        f = lambda k: frame("galactic" if k == "gal" else "icrs")
        with warnings.catch_warnings(): warnings.simplefilter("ignore"); r = reproject.rot2euler(a+","+b)
        c.ok(np.max(np.abs(euler(*r)-f(b)@f(a).T)) < 1e-5, "rotation %s to %s" % (a, b))
    for bad in ("gal", "gal,cel,equ", "foo,gal", "gal,foo"): c.raises(ValueError, lambda: reproject.rot2euler(bad), "bad rotation %s" % bad)

def there_and_back(c):
    L = c.int(2,6); shape, wcs, v = fullsky(c, nymin=2*L+4, nymax=2*L+10)
    if shape[1] < 2*L+2: return
    nside = 8; n = c.pick(None, 3); N = n or 1; sp, gr = (([0,2], [(0,0,1),(2,1,3)]) if N == 3 else ([0], [(0,0,1)])); rot = c.pick(("cel,gal","gal,cel"), ("equ,gal","gal,equ"), (None,None), ([0.3,1.2,-2],[2,-1.2,-0.3])); note_geo(c, shape, wcs); c.note(L=L, n=n, rot=rot); f = field(c, L, gr, N); x = f(*skygrid(shape, wcs)); m = enmap.ndmap(dress(x, n), wcs)
    h = reproject.map2healpix(m, nside=nside, lmax=L, rot=rot[0]); b = reproject.healpix2map(h, shape, wcs, lmax=L, rot=rot[1], niter=5); c.close(b, m, "there and back again", rtol=0, atol=1e-3*max(1, np.max(np.abs(x))))

def thumb_setup(c, polar=False):
    L = c.int(3,8); g = c.pick("full","full","band","patchcar","patchcea")
    res = c.pick(1.0, 0.75, 1.5); n = c.pick(None, 1, 2, 3, 3); N = n or 1; gr = [(0,0,1),(2,1,3)] if N == 3 else [(0,i,i+1) for i in range(N)]; f = field(c, L, gr, N)
    return L, g, res, n, N, gr, f

def smooth_map(c, f, g, res, n, pos):
    ra0 = c.pick(0., 180., c.uni(-180,180)); sx, sy = c.pick(-1,-1,1), c.pick(1,1,-1)
    if g == "full": nx, ny = int(360/res), int(180/res); shape, wcs = (ny, nx), mkwcs("car", [ra0,0], [sx*res, sy*res], [nx/2+0.5+c.pick(0,0.5), ny/2+0.5])
    elif g == "band": nx, ny = int(360/res), int(140/res); shape, wcs = (ny, nx), mkwcs("car", [ra0,0], [sx*res, sy*res], [nx/2+c.pick(0.5,17), ny/2+0.5])
    else:
        ny, nx = int(90/res), int(150/res); p = g[-3:]; shape = (ny, nx); wcs = mkwcs(p, [pos[1]/utils.degree+c.uni(-5,5), 0], [sx*res, sy*res], [nx/2+0.5, ny/2+0.5])
    dec, ra = skygrid(shape, wcs); y = dec[:,0]; o = f(dec[:,:1]+0*ra, ra)
    return enmap.ndmap(dress(o, n), wcs)

def thumbs(c):
    L, g, res, n, N, gr, f = thumb_setup(c); k = c.pick((), (1,), (3,), (2,2)); r = c.uni(4,7)*utils.degree; apod = 6*utils.degree
    lim = {"full": 1.1, "band": 0.75, "patchcar": 0.4, "patchcea": 0.4}[g]; ra0 = c.uni(-3.5, 3.5) if not c.flip(0.2) else c.pick(0., np.pi, -np.pi, 2*np.pi); pos = np.zeros(k+(2,)); pos[...,0] = c.uni(-lim, lim, k); pos[...,1] = ra0+c.uni(-0.25, 0.25, k)
    m = smooth_map(c, f, g, res, n, [0, ra0]); proj = c.pick("car","tan",None,"zea"); meth = c.pick("mixed","mixed","spline","nufft"); ores = c.pick(None, 0.8*utils.degree, 0.5*utils.degree); dt = c.pick(np.float64, np.float64, np.float32); m = m.astype(dt)
    note_geo(c, m.shape, m.wcs); c.note(kind=g, n=n, nsrc=k, r=r, proj=proj, method=meth, res=ores, pos=np.round(pos.reshape(-1)[:2], 4), dtype=dt.__name__); pol = c.pick(None, True, False) if n == 3 else c.pick(None, False); kw = dict(r=r, res=ores, proj=proj, apod=apod, method=meth, pol=pol, order=c.pick(3,3,1) if meth == "spline" else 3)
    with c.keeps("thumbnails", m, pos): t = reproject.thumbnails(m, pos, **kw)
    c.ok(t.shape[:len(k)] == k and t.shape[len(k):-2] == m.shape[:-2] and t.dtype == dt and isinstance(t, enmap.ndmap), "shape %s, type %s" % (t.shape, t.dtype)); c.ok(proj_of(t.wcs) == (proj or "car"), "projection"); od, orr = skygrid(t.shape, t.wcs); ny, nx = t.shape[-2:]
    c.ok(ny % 2 and nx % 2 and abs(od[ny//2,nx//2]) < 1e-9 and abs(orr[ny//2,nx//2]) < 1e-9, "centre of the thumbnail"); rs = np.abs(t.wcs.wcs.cdelt)*utils.degree; c.ok(np.allclose(rs, ores if ores else np.min(np.abs(m.wcs.wcs.cdelt))*utils.degree/2), "resolution"); e = angsep(od[0,nx//2], 0, 0, 0); c.ok(abs(e-r) < 0.1*r+rs[1], "radius %.3g, asked for %.3g" % (e, r))
    inside = angsep(od, orr, 0, 0) <= r; tol = (0.06 if kw["order"] == 3 else 0.08)
    for I in np.ndindex(*k):
        d0, r0 = pos[I]; M = euler(0, d0, -0).T if False else None
        Ry = np.array([[np.cos(d0),0,-np.sin(d0)],[0,1,0],[np.sin(d0),0,np.cos(d0)]]); Rz = np.array([[np.cos(r0),-np.sin(r0),0],[np.sin(r0),np.cos(r0),0],[0,0,1]]); F = Rz@Ry  # thumbnail -> sky
        d, rr, psi = back(F.T, od, orr); want = dress(f(d, rr, psi if pol is not False and n == 3 else None), n); sc = max(1, np.max(np.abs(m)))
        c.close(np.asarray(t[I])[...,inside], want[...,inside], "thumbnail around %s" % np.round(pos[I], 4), rtol=0, atol=tol*sc)
    if c.flip(0.3): c.close(reproject.thumbnails(m, pos, **dict(kw, proj="car", res=2*utils.degree), oshape=t.shape[-2:], owcs=t.wcs), t, "thumbnails in a given geometry", rtol=1e-9, atol=1e-9*np.max(np.abs(m)))
    if k and c.flip(0.5): I = tuple(c.int(0,q-1) for q in k); c.close(reproject.thumbnails(m, pos[I], **kw), t[I], "one source alone", rtol=1e-5, atol=1e-5*np.max(np.abs(m)))
    if n and n != 3 or pol is False: q = c.int(0,n-1) if n else 0; s = reproject.thumbnails(m[q] if n else m, pos, **dict(kw, pol=False)); c.close(s, t[...,q,:,:] if n else t, "one component alone", rtol=1e-5, atol=1e-5*np.max(np.abs(m)))
    if n != 3: c.raises(ValueError, lambda: reproject.thumbnails(m, pos, **dict(kw, pol=True)), "polarization of an unpolarized map")
    c.raises(ValueError, lambda: reproject.thumbnails(m, pos, **dict(kw, method="nonsense")), "unknown method")

def thumbs_small(c):
    """arcminute scale with the default radii and margins; hit counts and weights"""
    am = utils.arcmin; res = c.pick(0.5, 0.75, 1.0); ny, nx = c.int(90,130), c.int(90,130); p = c.pick("car","car","cea","tan"); ra0, dec0 = c.pick(0., 180., c.uni(-180,180)), (c.uni(-65,65) if p != "cea" else c.uni(-25,25)); sx, sy = c.pick(-1,-1,1), c.pick(1,1,-1); x = res/60
    if p == "tan": wcs = mkwcs(p, [ra0,dec0], [sx*x, sy*x], [nx/2, ny/2])
    else: xs = x/np.cos(dec0*utils.degree); ys = x*(1 if p == "car" else np.cos(dec0*utils.degree)); yc = (dec0 if p == "car" else np.sin(dec0*utils.degree)/utils.degree)/(sy*ys); wcs = mkwcs(p, [ra0,0], [sx*xs, sy*ys], [nx/2, ny/2-yc])
    shape = (ny, nx); k = c.pick((), (2,), (1,), (3,)); n = c.pick(None, 1, 3); kind = c.pick("ivar","ivar","flux"); ext = c.pick(True, True, False); r = c.pick(None, c.uni(4,10)*am); proj = c.pick("car","tan",None); pix = np.array([c.uni(38, ny-39, k), c.uni(38, nx-39, k)])
    pos = np.moveaxis(np.array(ref_pix2sky(wcs, *pix)), 0, -1); pos[...,1] += c.pick(0, 0, 2*np.pi, -2*np.pi); a, b = [q/np.linalg.norm(q) for q in c.rng.normal(size=(2,3))]; K = 1/(12*am); g0 = lambda dec, ra: np.array([(i+1)*(3+np.sin(K*np.tensordot(a, vec(dec, ra), 1))+0.5*np.cos(K*np.tensordot(b, vec(dec, ra), 1))) for i in range(n or 1)])
    m = enmap.ndmap(dress(g0(*skygrid(shape, wcs)), n), wcs); note_geo(c, shape, wcs); c.note(n=n, nsrc=k, kind=kind, ext=ext, r=r, proj=proj, pos=np.round(pos.reshape(-1)[:2], 5)); d = enmap.ndmap(np.asarray(m)*np.asarray(m.pixsizemap()), wcs) if ext else m; kw = dict(proj=proj, **({} if r is None else {"r": r}), **c.pick({}, {}, {"res": c.uni(0.3,1)*am}))
    with c.keeps("thumbnails", d, pos):
        if kind == "ivar": t = reproject.thumbnails_ivar(d, pos, **kw, **({} if ext and c.flip(0.5) else {"extensive": ext}))
        else: t = reproject.thumbnails(d, pos, extensive=ext, pol=False, method=c.pick("mixed","spline"), **kw)
    r = r or 5*am; od, orr = skygrid(t.shape, t.wcs); inside = angsep(od, orr, 0, 0) <= r-am; area = np.asarray(t.pixsizemap()) if ext else 1; c.ok(t.shape == k+m.shape[:-2]+t.shape[-2:], "shape"); c.ok(abs(np.max(od)-r) < 1.01*am, "radius"); c.close(np.abs(t.wcs.wcs.cdelt)*utils.degree, np.full(2, kw.get("res", np.min(np.abs(m.wcs.wcs.cdelt))*utils.degree/2)), "resolution", rtol=1e-9)
    for I in np.ndindex(*k):
        d0, r0 = pos[I]; Ry = np.array([[np.cos(d0),0,-np.sin(d0)],[0,1,0],[np.sin(d0),0,np.cos(d0)]]); Rz = np.array([[np.cos(r0),-np.sin(r0),0],[np.sin(r0),np.cos(r0),0],[0,0,1]]); dd, rr, psi = back((Rz@Ry).T, od, orr); want = dress(g0(dd, rr), n)
        c.close((np.asarray(t[I])/area)[...,inside], want[...,inside], "density in the thumbnail around %s" % np.round(pos[I], 5), rtol=0, atol=0.03*(n or 1))
    if kind == "ivar":
        c.ok(np.all(np.asarray(t) >= -1e-12), "negative weights")
        if c.flip(): e2 = {} if ext else {"extensive": ext}; p2 = c.pick("car","tan"); r2 = {k: v for k, v in kw.items() if k == "r"}; u = reproject.thumbnails_ivar(d, pos, oshape=t.shape[-2:], owcs=t.wcs, **r2, **e2); c.close(u, t, "weights in a given geometry", rtol=1e-9, atol=1e-12); u = reproject.thumbnails_ivar(d, pos, proj=p2, **r2, **e2); c.ok(proj_of(u.wcs) == p2, "projection of the weights")

def old_helpers(c):
    import healpy
    warnings.simplefilter("ignore"); sink = io.StringIO(); shape, wcs, v = fullsky(c, variants=("fejer1",), nymin=14, nymax=24); L = c.int(2,5); note_geo(c, shape, wcs); c.note(L=L); f = field(c, L, [(0,0,1)], 1); m = enmap.ndmap(f(*skygrid(shape, wcs))[0], wcs); nside = c.pick(4,8)
    if shape[1] < 2*L+2: return
    dec, ra = hpdirs(nside); sc = max(1, np.max(np.abs(m))); h = reproject.healpix_from_enmap(m if c.flip() else m[None], L, nside); c.close(np.ravel(h), f(dec, ra)[0], "healpix_from_enmap", rtol=0, atol=1e-5*sc)
    x = enmap.ndmap(arr(c, (2,)+shape), wcs); o = c.pick(0,1,3); t = c.pick(lambda **k: x.to_healpix(**k), lambda **k: enmap.to_healpix(x, **k), lambda **k: reproject.healpix_from_enmap_interp(x, **k))(nside=nside, order=o, chunk=c.pick(10, 100, 10**5)); w = reproject.map2healpix(x, nside=nside, method="spline", order=o, spin=[0]); c.ok(t.shape == w.shape, "shape of to_healpix"); pp = enmap.sky2pix(shape, wcs, [dec, ra]); eb = 0 if o < 3 else 5; ins = (pp[0] > eb)&(pp[0] < shape[0]-1-eb)&(pp[1] > eb)&(pp[1] < shape[1]-1-eb)&(~near_half(pp, 1e-6)); c.close(t[:,ins], w[:,ins], "to_healpix", atol=1e-9 if o < 3 else 1e-2)
    # healpix -> map through rotated positions
    s2, w2 = outgeo(c); hm = f(dec, ra)[0]; rot = c.pick("gal,equ", "equ,gal", None); F = lambda k: frame("galactic" if k == "gal" else "icrs"); M = np.eye(3) if rot is None else F(rot.split(",")[1])@F(rot.split(",")[0]).T; d2, r2 = skygrid(s2, w2); d, r, psi = back(M, d2, r2)
    with contextlib.redirect_stdout(sink): e = reproject.enmap_from_healpix(hm, s2, w2, ncomp=1, lmax=L, rot=rot, unit=2.0)
    c.close(e[0], f(d, r)[0]/2, "enmap_from_healpix", rtol=0, atol=0.05*sc)
    rnd = c.rng.normal(size=12*nside**2); ip = c.flip(); e = reproject.enmap_from_healpix_interp(rnd, s2, w2, rot=rot, interpolate=ip); th = np.pi/2-d; ok = np.abs(d) < 1.56
    if ip: c.close(np.asarray(e)[ok], healpy.get_interp_val(rnd, th, r)[ok], "enmap_from_healpix_interp", rtol=0, atol=0.02)
    else:
        p = healpy.ang2pix(nside, th, r)
        for q in ((1e-5,0),(-1e-5,0),(0,1e-5),(0,-1e-5)): ok &= healpy.ang2pix(nside, np.clip(th+q[0],0,np.pi), r+q[1]/np.maximum(np.cos(d),1e-3)) == p
        c.close(np.asarray(e)[ok], rnd[p][ok], "enmap_from_healpix_interp", rtol=0, atol=1e-9)
    # tiles
    tot = [0]
    def fill(sh, w): tot[0] += 1; return enmap.posmap(sh, w)[0]+2*np.sin(enmap.posmap(sh, w)[1])
    s3, w3 = patch(c, projs=("car",), nmin=5, nmax=60)
    with contextlib.redirect_stdout(sink): p = reproject.populate(s3, w3, fill, c.pick(6, 11, 400), c.pick(7, 13, 400))
    q = enmap.posmap(s3, w3); c.close(p, q[0]+2*np.sin(q[1]), "populated map", atol=1e-9)
    # pixel areas of rows
    c.close(reproject.get_pixsize_rect(shape, wcs), np.asarray(enmap.pixsizemap(shape, wcs))[:,0], "row areas", rtol=1e-9)
    # cutouts
    y, xx = c.int(0, shape[0]-1), c.int(0, shape[1]-1); pos = enmap.pix2sky(shape, wcs, [y, xx]); npix = c.int(2, 9); cu = reproject.cutout(x, ra=pos[1], dec=pos[0], npix=npix); lo, hi = (y-npix/2, xx-npix/2), (y+npix/2, xx+npix/2)
    if cu is not None: c.ok(cu.shape == (2,npix,npix), "shape of the cutout %s" % (cu.shape,)); q = skygrid(cu.shape, cu.wcs); c.ok(np.min(angsep(q[0], q[1], pos[0], pos[1])) < 1e-9, "the position is not in the cutout"); i = np.round(enmap.sky2pix(shape, wcs, q)).astype(int) % np.array(shape)[:,None,None]; c.same(np.asarray(cu), np.asarray(x)[:,i[0],i[1]], "values of the cutout")
    else: c.ok(lo[0] < 2 or lo[1] < 2 or hi[0] > shape[0]-2 or hi[1] > shape[1]-2, "cutout refused well inside the map")

MONITORS = [("m2h_harm", m2h_harm, 30, 500), ("m2h_spline", m2h_spline, 60, 1000), ("h2m_harm", h2m_harm, 30, 500), ("h2m_spline", h2m_spline, 60, 1200),
  ("nsides", nsides, 40, 600), ("there_and_back", there_and_back, 15, 200), ("thumbs", thumbs, 30, 500), ("thumbs_small", thumbs_small, 40, 600), ("old_helpers", old_helpers, 20, 300)]

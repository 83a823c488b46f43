"""S01: harmonic synthesis evaluates the defining sum at every pixel, whatever method, layout and pixelization."""
import numpy as np
from pixell import enmap, curvedsky as cs, utils
from gen import *
import sph

INFO = {"level": "exploration", "threads": 2, "nproc": 4,
  "assumptions": ["reference: explicit Wigner-d sums for lmax up to 11 evaluated at the positions given by the projection equations"]}

DUCC = ("CC","F1","MW","MWflip","DH","F2")
def skygeo(c, kinds=None, name=None, nymin=8, nymax=22):
    """A CAR geometry aligned with one of ducc's grids: (shape, wcs, name, lmax supported by the full grid). kind: full, band, part"""
    name = name or c.choice(DUCC); ny = c.int(nymin, nymax); o1, o2 = {"CC":(0,0),"F1":(.5,.5),"MW":(.5,0),"MWflip":(0,.5),"DH":(1,0),"F2":(1,1)}[name]
    # ducc order: north pole at y=-o1, south pole at y=ny-1+o2, except DH, whose first ring is on the pole
    if name == "DH": o1, o2 = 0, 1
    dy = 180./(ny-1+o1+o2); nx = c.pick(2*ny, 2*ny+1, c.int(ny, 3*ny)); nx = max(nx, 8); dx = 360./nx
    ra0 = c.pick(0., 180., c.uni(-180,180))
    # y index of the equator, counting from 0 with north first
    ye = 90/dy-o1; xr = c.int(-3, nx+3)
    s, crpix, cdelt = (ny, nx), [xr+1., ye+1.], [dx, -dy]
    kind = c.choice(kinds or ("full","band","part"))
    if kind != "full":
        y1 = c.int(0, ny//2); y2 = c.int(y1+1, ny) if c.flip(0.2) else c.int(max(y1+1, ny-3), ny); crpix[1] -= y1; s = (y2-y1, s[1])
    if kind == "part":
        x1 = c.int(0, nx//2); x2 = c.int(x1+1, nx-1) if c.flip(0.2) else c.int(max(x1+2,nx//2), nx-1); crpix[0] -= x1; s = (s[0], x2-x1)
    flip = [c.flip(0.6), c.flip(0.6)] # pixell's usual order is dec increasing, ra decreasing
    if flip[0]: crpix[1] = s[0]+1-crpix[1]; cdelt[1] *= -1
    if flip[1]: crpix[0] = s[1]+1-crpix[0]; cdelt[0] *= -1
    w = mkwcs("car", [ra0, 0.], cdelt, crpix)
    lmax = {"CC":ny-2,"DH":(ny-2)//2,"F2":(ny-1)//2}.get(name, ny-1)
    c.note(grid="%s %s" % (name, kind)); note_geo(c, s, w)
    return s, w, name, min(lmax, (nx-1)//2), kind, ny

def anysky(c):
    """(shape, wcs, list of methods that apply)"""
    k = c.pick("ducc","ducc","ducc","cyl","zen","gen","offgrid")
    if k == "ducc":
        s, w, name, lm, kind, ny = skygeo(c); return s, w, ["2d","cyl","general"], k
    if k == "cyl": # cylindrical with rows evenly dividing the sky, but not on a ducc grid
        proj = c.pick("cea","mer","car"); nx = c.int(8, 40); dx = 360./nx; ny = c.int(1, 14); lam = 1.
        dy = c.uni(0.3, 1)*(160. if proj == "car" else 100.)/ny; sx, sy = c.pick(-1,1), c.pick(-1,1)
        off = c.uni(-15, 15)/dy if proj == "car" else c.uni(-3,3)/dy
        full = c.flip(); w = mkwcs(proj, [c.uni(-180,180), 0], [sx*dx, sy*dy], [c.int(-3,nx)+0., (ny+1)/2.+off], lam if proj == "cea" else None)
        s = (ny, nx if full else c.int(1, nx)); note_geo(c, s, w); return s, w, ["cyl","general"], k
    if k == "offgrid": # RA spacing that does not divide the sky
        ny, nx = c.int(1,12), c.int(2,12); w = mkwcs("car", [c.uni(-180,180), 0], [c.uni(3,11.3), c.uni(2,9)*c.pick(-1,1)], [nx/2., ny/2.]); s = (ny,nx); note_geo(c, s, w); return s, w, ["general"], k
    proj = c.choice(ZEN); ny, nx = c.int(1,14), c.int(2,14)
    w = mkwcs(proj, [c.uni(-180,180), c.uni(-90,90)], [c.pick(-1,1)*c.uni(0.5,6), c.uni(0.5,6)], [nx/2.+c.uni(-2,2), ny/2.+c.uni(-2,2)]); note_geo(c, (ny,nx), w)
    return (ny, nx), w, ["general"], k

def layout(c, lmax=None):
    """(ainfo or None, lm[n,2], indices[n], nelem)"""
    lmax = c.int(3, 9) if lmax is None else lmax; k = c.pick("none","tri","tri-mmax","rect","rect-mmax"); mmax = lmax if "mmax" not in k else c.int(0, lmax)
    c.note(layout="%s %d %d" % (k, lmax, mmax))
    lm = np.array([(l,m) for m in range(mmax+1) for l in range(m, lmax+1)])
    if k == "none" or "tri" in k:
        ai = None if k == "none" else cs.alm_info(lmax, mmax); idx = lm[:,1]*(2*lmax+1-lm[:,1])//2+lm[:,0]; n = int(idx.max()+1)
    else: ai = cs.alm_info(lmax, mmax, layout=c.pick("rect","rectangular")); idx = lm[:,1]*(lmax+1)+lm[:,0]; n = (mmax+1)*(lmax+1)
    if ai is not None: c.ok(ai.nelem == n, "nelem %d, expected %d" % (ai.nelem, n))
    return ai, lm, idx, n, lmax

def mkalm(c, pre, lm, idx, n, dtype, minl=0):
    """random alms of a real field; padding elements of the layout hold junk that must not matter"""
    a = np.full(pre+(n,), 1e3, np.complex128)
    v = arr(c, pre+(len(lm),), np.complex128); v[...,lm[:,1]==0] = v[...,lm[:,1]==0].real; a[...,idx] = v
    return a.astype(dtype)

def spins(c): return c.pick(([0,2],3), ([0,2],3), (0,1), ([0],2), ([2],2), (2,2), ([0,1],3), ([1],2), ([0,2,0],4), ([0,3],3), ([0,2],6), ([0,1,2],5), ([2,0],3))
def groups(spin, n):
    spin = np.atleast_1d(spin); i, k, out = 0, 0, []
    while i < n:
        v = int(spin[k % len(spin)]); k += 1; j = i+(1 if v == 0 else 2); out.append((v, i, j)); i = j
    return out
def ref(c, alm, lm, idx, spin, pos):
    """alm [ncomp,nelem] -> [ncomp,npos]"""
    out = np.zeros((alm.shape[0], pos.shape[1]))
    for v, i, j in groups(spin, alm.shape[0]): out[i:j] = sph.synth(np.asarray(alm[i:j][:,idx], np.complex128), lm, v, pos[0], pos[1])
    return out
def eps_of(dt): return 1e-9 if np.dtype(dt) in (np.complex128, np.float64) else 3e-5
def subset(c, n, k=150): return np.sort(c.rng.permutation(n)[:k])

def synth(c):
    s, w, methods, k = anysky(c); ai, lm, idx, n, lmax = layout(c); spin, nc = spins(c); pre = c.pick((), (), (2,)); dt = c.pick(np.complex128, np.complex128, np.complex64)
    bare = nc == 1 and c.flip(); c.note(spin=spin, nc=nc, pre=pre, dtype=np.dtype(dt).name, bare=bare)
    rt = np.zeros(1, dt).real.dtype; alm = mkalm(c, pre+(nc,), lm, idx, n, dt)
    P = skygrid(s, w).reshape(2,-1)
    if not np.all(np.isfinite(P)): return
    meth = c.pick("auto", c.choice(methods)); cp = c.flip(0.3); c.note(method=meth, copy=cp)
    if meth == "auto" or k == "ducc": pass
    if bare: pre = ()
    A = alm[(0,)*len(pre)][0] if bare else alm
    m0 = arr(c, (() if bare else pre+(nc,))+s, rt); m = enmap.ndmap(m0.copy(), w)
    kw = dict(method=meth, ainfo=ai, spin=spin, copy=cp)
    if c.flip(0.3): kw["nthread"] = c.int(1,3)
    eps = eps_of(dt)
    if meth in ("auto","general"): kw["epsilon"] = 1e-10 if dt == np.complex128 else 1e-5
    with c.keeps("alm2map", A): r = cs.alm2map(A, m, **kw)
    if cp: c.same(np.asarray(m), m0, "copy=True leaves the map alone")
    else:  c.ok(r is m or np.shares_memory(np.asarray(r), np.asarray(m)), "the map argument is overwritten"); c.same(np.asarray(r), np.asarray(m), "returned map")
    c.ok(r.dtype == rt and r.shape == m.shape, "map dtype and shape"); check_positions(c, skygrid(s, r.wcs), skygrid(s, w), "wcs")
    sel = subset(c, P.shape[1], 120); got = np.asarray(r).reshape(m.shape[:-2]+(-1,))[...,sel]
    flat = got.reshape((-1,nc,len(sel))); af = alm.reshape(-1,nc,n)
    for i in range(len(flat)):
        want = ref(c, af[i], lm, idx, spin, P[:,sel]); c.close(flat[i], want, "synthesis (%s)" % meth, rtol=eps, scale=np.max(np.abs(want))+(lmax+1))

def deriv(c):
    s, w, methods, k = anysky(c); ai, lm, idx, n, lmax = layout(c, c.int(1,7)); dt = c.pick(np.complex128, np.complex64); rt = np.zeros(1, dt).real.dtype; pre = c.pick((), (2,))
    P = skygrid(s, w).reshape(2,-1)
    if not np.all(np.isfinite(P)): return
    sel = subset(c, P.shape[1], 60); sel = sel[np.abs(P[0,sel]) < 85*deg]
    if len(sel) == 0: return
    alm = mkalm(c, pre, lm, idx, n, dt); meth = c.pick("auto", c.choice(methods)); c.note(method=meth, dtype=np.dtype(dt).name, pre=pre)
    m = enmap.ndmap(arr(c, pre+(2,)+s, rt), w)
    with c.keeps("deriv", alm): r = cs.alm2map(alm, m, deriv=True, method=meth, ainfo=ai, epsilon=1e-10 if dt == np.complex128 else 1e-5)
    got = np.asarray(r).reshape(pre+(2,-1))[...,sel].reshape(-1,2,len(sel)); af = alm.reshape(-1,n)
    for i in range(len(got)):
        want = sph.grad(np.asarray(af[i][idx], np.complex128), lm, P[0,sel], P[1,sel]); c.close(got[i], want, "gradient", rtol=1e-6 if dt == np.complex128 else 1e-4, scale=np.max(np.abs(want))+(lmax+1)**2)

def positions(c):
    ai, lm, idx, n, lmax = layout(c); spin, nc = spins(c); dt = c.pick(np.complex128, np.complex64); pre = c.pick((), (2,)); der = c.flip(0.3)
    sh = c.pick((7,), (3,4), (1,), (2,1,3)); pos = rand_points(c, int(np.prod(sh))); c.note(spin=spin, nc=nc, sh=sh, deriv=der, dtype=np.dtype(dt).name, pre=pre)
    if c.flip(0.2): pos[0] = c.pick(np.pi/2, -np.pi/2, 0.3); der = False
    if der: pos[0] = np.clip(pos[0], -1.45, 1.45)
    if c.flip(0.3): pos[1] += 2*np.pi*c.rng.integers(-3,4,pos[1].shape)
    form = c.pick("pos","loc"); P = pos.reshape((2,)+sh); kw = {"pos": P} if form == "pos" else {"loc": np.stack([np.pi/2-P[0], P[1] % (2*np.pi)], -1)}
    eps = 1e-10 if dt == np.complex128 else 1e-5; tol = eps_of(dt); key, val = list(kw.items())[0]
    if der:
        alm = mkalm(c, pre, lm, idx, n, dt)
        with c.keeps("alm2map_pos", alm, val): r = cs.alm2map_pos(alm, ainfo=ai, deriv=True, epsilon=eps, **kw)
        c.ok(r.shape == pre+(2,)+sh, "shape %s" % (r.shape,)); g = r.reshape(-1,2,pos.shape[1]); af = alm.reshape(-1,n)
        for i in range(len(g)):
            want = sph.grad(np.asarray(af[i][idx], np.complex128), lm, *pos); c.close(g[i], want, "gradient at positions", rtol=1e-6 if dt == np.complex128 else 1e-4, scale=np.max(np.abs(want))+(lmax+1)**2)
        return
    alm = mkalm(c, pre+(nc,), lm, idx, n, dt)
    if c.flip(0.3): eps = None # the default is as precise as the data allows
    with c.keeps("alm2map_pos", alm, val): r = cs.alm2map_pos(alm, ainfo=ai, spin=spin, epsilon=eps, **kw)
    if len(sh) == 1: J = arr(c, r.shape, r.dtype); j0 = J.copy(); r2 = cs.alm2map_pos(alm, ainfo=ai, spin=spin, epsilon=eps, map=J, copy=True, **kw); c.same(J, j0, "copy=True leaves the output argument alone"); c.close(r2, r, "synthesis with copy=True", rtol=1e-9 if dt == np.complex128 else 1e-5)
    c.ok(r.shape == pre+(nc,)+sh, "shape %s" % (r.shape,)); c.ok(r.dtype == np.zeros(1,dt).real.dtype, "dtype"); g = r.reshape(-1,nc,pos.shape[1]); af = alm.reshape(-1,nc,n)
    for i in range(len(g)):
        want = ref(c, af[i], lm, idx, spin, pos); c.close(g[i], want, "synthesis at positions", rtol=tol, scale=np.max(np.abs(want))+(lmax+1))
    if nc == 1 and not pre:
        r = cs.alm2map_pos(alm[0], ainfo=ai, epsilon=eps, **kw); c.ok(r.shape == sh, "scalar shape"); c.close(r.reshape(1,-1), want, "scalar synthesis at positions", rtol=tol, scale=np.max(np.abs(want))+(lmax+1))

def healpix(c):
    import healpy
    ai, lm, idx, n, lmax = layout(c); spin, nc = spins(c); dt = c.pick(np.complex128, np.complex64); pre = c.pick((), (2,)); nside = c.pick(1,2,3,4,8); der = c.flip(0.25)
    rt = np.zeros(1, dt).real.dtype; npix = 12*nside**2; th, ph = healpy.pix2ang(nside, np.arange(npix)); pos = np.array([np.pi/2-th, ph]); sel = subset(c, npix, 60)
    c.note(spin=spin, nc=nc, nside=nside, deriv=der, dtype=np.dtype(dt).name, pre=pre); given = c.flip(); tol = eps_of(dt)
    sh = pre+(2,) if der else pre+(nc,); alm = mkalm(c, pre if der else pre+(nc,), lm, idx, n, dt)
    kw = {"healmap": arr(c, sh+(npix,), rt)} if given else {"nside": nside}
    with c.keeps("alm2map_healpix", alm): r = cs.alm2map_healpix(alm, ainfo=ai, spin=spin, deriv=der, **kw)
    c.ok(r.shape == sh+(npix,) and r.dtype == rt, "healpix map shape %s" % (r.shape,))
    if given: c.same(r, kw["healmap"], "the map argument is filled in")
    g = r[...,sel].reshape((-1,)+sh[-1:]+(len(sel),)); af = alm.reshape((-1,n) if der else (-1,nc,n))
    for i in range(len(g)):
        if der: want = sph.grad(np.asarray(af[i][idx], np.complex128), lm, *pos[:,sel])
        else:   want = ref(c, af[i], lm, idx, spin, pos[:,sel])
        c.close(g[i], want, "healpix synthesis", rtol=1e-6 if der and dt == np.complex128 else 1e-4 if der else tol, scale=np.max(np.abs(want))+(lmax+1)**(2 if der else 1))
    if not der and c.flip(0.4):
        # a limited theta range fills those rings and leaves the rest alone
        a, b = sorted(c.uni(0, np.pi, 2)); m0 = arr(c, sh+(npix,), rt); m = m0.copy(); ins = (th >= a)&(th <= b)
        if np.any(ins):
            cs.alm2map_healpix(alm, healmap=m, ainfo=ai, spin=spin, theta_min=a, theta_max=b)
            c.same(m[...,~ins], m0[...,~ins], "rings outside the theta range"); c.close(m[...,ins], r[...,ins], "rings inside the theta range", rtol=tol, scale=np.max(np.abs(r))+1)

def methods(c):
    """all applicable methods give the same map, and maps cut from a larger one equal the cut of the larger map"""
    s, w, name, lsup, kind, ny = skygeo(c, kinds=("band","part","full")); ai, lm, idx, n, lmax = layout(c, c.int(3, 14)); spin, nc = spins(c); alm = mkalm(c, (nc,), lm, idx, n, np.complex128); c.note(spin=spin, nc=nc)
    ms = {k: np.asarray(cs.alm2map(alm, enmap.ndmap(np.zeros((nc,)+s), w), spin=spin, ainfo=ai, method=k, epsilon=1e-11)) for k in ("2d","cyl","general","auto")}
    sc = np.max(np.abs(ms["general"]))+lmax+1
    for k in ms: c.close(ms[k], ms["general"], "method %s agrees with general" % k, rtol=1e-8, scale=sc)
    y1 = c.int(0, s[0]-1); x1 = c.int(0, s[1]-1); m = enmap.ndmap(np.zeros((nc,)+s), w)[:,y1:,x1:]
    c.close(np.asarray(cs.alm2map(alm, m.copy(), spin=spin, ainfo=ai, epsilon=1e-11)), ms["auto"][:,y1:,x1:], "synthesis on a cutout", rtol=1e-8, scale=sc)
    r = enmap.ndmap(np.zeros((nc,)+s), w)[:,::-1,::c.pick(1,-1)]; c.close(np.asarray(cs.alm2map(alm, r.copy(), spin=spin, ainfo=ai, epsilon=1e-11))[:,::-1], np.asarray(ms["auto"])[:,:,::1 if wdir(r, w) else -1], "synthesis on a flipped map", rtol=1e-8, scale=sc)
    c.ok(cs.get_method(s, w) in ("2d","cyl"), "method chosen for a ring-aligned map")
def wdir(r, w): return r.wcs.wcs.cdelt[0]*w.wcs.cdelt[0] > 0

def masked(c):
    """maps whose corners are off the sky: the defined pixels are filled in"""
    proj = c.pick("sin","zea","tan"); ny, nx = c.int(8,14), c.int(8,14); res = {"sin": 0.5*deg*360/np.pi/min(ny,nx)*2, "zea": 360/np.pi/min(ny,nx)*1.3, "tan": 1}[proj]
    if proj == "tan": return _masked_tan(c)
    w = mkwcs(proj, [c.uni(-180,180), c.uni(-90,90)], [-res/1.1 if proj == "zea" else -2*57.3/min(ny,nx)*1.1, res/1.1 if proj == "zea" else 2*57.3/min(ny,nx)*1.1], [(nx+1)/2., (ny+1)/2.]); s = (ny,nx); note_geo(c, s, w)
    P = skygrid(s, w); good = np.all(np.isfinite(P), 0); lmax = c.int(3,7); lm = np.array([(l,m) for m in range(lmax+1) for l in range(m,lmax+1)]); idx = np.arange(len(lm))
    nc, spin = c.pick((3,[0,2]), (1,[0])); bare = nc == 1 and c.flip(); alm = mkalm(c, (nc,), lm, idx, len(lm), np.complex128); c.note(nc=nc, bare=bare)
    r = cs.alm2map(alm[0] if bare else alm, enmap.ndmap(np.zeros((() if bare else (nc,))+s), w), spin=spin, method="general", epsilon=1e-10)
    want = ref(c, alm, lm, idx, spin, P[:,good]); c.close(np.asarray(r).reshape((nc,)+s)[:,good], want, "defined pixels", rtol=1e-8, scale=np.max(np.abs(want))+lmax+1)
def _masked_tan(c):
    ny, nx = (c.int(1,3), c.pick(5,6)) if c.flip() else (c.pick(1000, 1001, c.int(1002,2300)), c.int(1,3)); c.note(tall=ny)  # one-row maps and maps with thousands of rows
    w = mkwcs("tan", [c.uni(-180,180), c.uni(-60,60)], [-1.,1.] if ny < 10 else [-1.,0.02], [3.,ny//2]); s = (ny,nx); P = skygrid(s, w).reshape(2,-1); lm = np.array([(l,m) for m in range(4) for l in range(m,4)]); idx = np.arange(len(lm)); alm = mkalm(c, (1,), lm, idx, len(lm), np.complex128)
    r = cs.alm2map(alm, enmap.ndmap(np.zeros((1,)+s), w), epsilon=1e-10); c.close(np.asarray(r).reshape(1,-1), ref(c, alm, lm, idx, [0], P), "few-row map", rtol=1e-8, scale=5)

MONITORS = [("synth", synth, 500, 4000), ("deriv", deriv, 250, 1500), ("positions", positions, 200, 1500), ("healpix", healpix, 200, 1500), ("methods", methods, 150, 1200), ("masked", masked, 60, 400)]

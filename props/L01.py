"""Lensing and Doppler boosting: exact displacements on the sphere, exact special relativity"""
import numpy as np
import sph
from gen import arr, mkwcs, patch, fullsky, note_geo, ref_pix2sky, angsep, vec, skygrid
from pixell import enmap, utils, curvedsky, lensing, aberration

INFO = {"rule": "great-circle and velocity-addition formulas evaluated on 3-vectors; spherical harmonics from explicit Wigner sums; Planck law in closed form",
  "assumptions": ["aberrated maps are judged on ring-aligned full-sky pixelizations whose rows avoid the poles, with band-limited contents, where the trigonometric interpolation is exact",
                  "displacements that reach the pole are judged by monitor offset_pole only"]}

def basis(dec, ra):
    """unit vectors towards north and east"""
    s, c = np.sin(dec), np.cos(dec); sr, cr = np.sin(ra), np.cos(ra)
    return np.array([-s*cr, -s*sr, c+0*ra]), np.array([-sr+0*dec, cr+0*dec, 0*ra+0*dec])

def geodesic(dec, ra, g):
    """end point of the great circle leaving (dec,ra) along g=(north,east), and the change of its bearing"""
    v = vec(dec, ra); n, e = basis(dec, ra); d = np.hypot(g[0], g[1]); ds = np.where(d == 0, 1, d)
    t = (g[0]*n+g[1]*e)/ds
    o = v*np.cos(d)+t*np.sin(d); t2 = -v*np.sin(d)+t*np.cos(d)
    od = np.arctan2(o[2], np.hypot(o[0], o[1])); orr = np.where((d == 0), ra, np.arctan2(o[1], o[0]))
    n2, e2 = basis(od, orr)
    rot = np.arctan2(np.sum(t2*e2,0), np.sum(t2*n2,0))-np.arctan2(g[1], g[0])
    return od, orr, np.where(d == 0, 0, rot)

def crosses(dec, g):
    """does the path pass (nearly) over a pole"""
    d = np.hypot(g[0], g[1]); return d > 0.8*(np.pi/2-np.abs(dec))

def wrapdiff(a, b, per=2*np.pi): return (np.asarray(a)-b+per/2) % per-per/2

def points(c, shape, polar=False):
    dec = c.uni(-1.45, 1.45, shape) if not polar else c.pick(-1,1)*(np.pi/2-10**c.uni(-5,-1,shape)); ra = c.uni(-7, 7, shape)
    return dec, ra

def offset(c):
    shape = c.pick((), (1,), (7,), (3,4), (2,3,2), (5,6)); big = c.idx % 150 == 149
    if big: shape = (0x100000+c.int(1,500),)
    dec, ra = points(c, shape); g = arr(c, (2,)+shape)*10**c.uni(-6, -0.5)
    if c.flip(0.3): g[c.int(0,1)] = 0
    if c.flip(0.3) and shape: g[:,...,0] = 0
    lim = 0.8*(np.pi/2-np.abs(dec)); d = np.hypot(*g); g = g*np.minimum(1, 0.99*lim/np.maximum(d, 1e-30))
    pos = np.array([dec, ra]); third = c.flip(0.3); ip = np.concatenate([pos, arr(c, (1,)+shape)]) if third else pos
    c.note(shape=shape, third=third, step=float(np.max(np.hypot(*g))) if g.size else 0.0)
    with c.keeps("offset_by_grad", ip, g): r = lensing.offset_by_grad(ip, g, pol=False)
    c.ok(r.shape == (2,)+shape, "shape of the displaced positions")
    od, orr, rot = geodesic(dec, ra, g)
    c.ok(np.max(angsep(r[0], r[1], od, orr)) < 3e-8, "displaced position is not the end of the great circle")
    c.ok(np.max(np.abs(wrapdiff(r[1], orr)*np.cos(od))) < 3e-8, "displaced longitude")
    r3 = lensing.offset_by_grad(ip, g, pol=True); c.ok(r3.shape == (3,)+shape, "shape with polarization"); c.close(r3[:2], r, "positions with polarization", rtol=1e-12)
    z = np.hypot(*g) == 0
    if np.any(z): c.close(wrapdiff(r3[2][z], ip[2][z] if third else 0, np.pi), np.zeros(np.sum(z)), "rotation without displacement", atol=1e-7)
    r3 = lensing.offset_by_grad(ip, g); c.ok(len(r3) == len(ip), "number of rows follows the input")
    # the approximate mode
    f = lensing.offset_by_grad(ip, g, geodesic=False, pol=c.pick(True, False))
    c.close(f[0], dec+g[0], "approximate displaced declination", rtol=1e-12); c.ok(np.max(np.abs(wrapdiff(f[1], ra+g[1]/np.cos(dec)))) < 1e-9, "approximate displaced longitude")

def approx_pole(c):
    shape = (c.int(1,9),); dec, ra = points(c, shape, True); g = arr(c, (2,)+shape)*0.2; pos = np.array([dec, ra])
    f = lensing.offset_by_grad(pos, g, geodesic=False); d2, r2 = dec+g[0], ra+g[1]/np.cos(dec); c.note(n=shape[0])
    c.ok(np.all(np.abs(f[0]) <= np.pi/2+1e-12), "declination beyond the pole")
    c.ok(np.max(angsep(f[0], f[1], d2, r2)) < 1e-7, "wrapped position is not the same point")
    p = np.array([c.uni(-4.7,4.7,shape), ra]); q = lensing.pole_wrap(p); c.ok(np.all(np.abs(q[0]) <= np.pi/2+1e-12) and np.max(np.linalg.norm(vec(*q)-vec(*p), axis=0)) < 1e-9, "pole_wrap changed the point")

def offset_pole(c):
    shape = (c.int(1,12),); dec, ra = points(c, shape, True); g = arr(c, (2,)+shape)*10**c.uni(-3, -0.3); c.note(n=shape[0], dec=dec[:3], g=np.round(g[:,:3].reshape(-1), 6))
    od, orr, rot = geodesic(dec, ra, g); r = lensing.offset_by_grad(np.array([dec, ra]), g)
    c.close(r[0], od, "displaced declination near the pole", atol=3e-7)
    bad = np.abs(wrapdiff(r[1], orr)*np.cos(od)) > 3e-6
    if not np.any(bad): return c.ok(True, "")
    # the only tolerated deviation: the mirrored longitude behind the pole
    s = np.clip(np.sin(np.hypot(*g))*g[1]/np.hypot(*g)/np.cos(od), -1, 1); mirror = ra+np.arcsin(s)
    c.ok(np.all(np.abs(wrapdiff(r[1], mirror)*np.cos(od))[bad] < 1e-4), "displaced longitude near the pole"); c.ok(np.all(np.abs(wrapdiff(orr, ra))[bad] > np.pi/2-1e-6), "displaced longitude of a path that does not pass the pole")
    c.fail("longitude mirrored after crossing the pole: %s instead of %s" % (r[1][bad][0], orr[bad][0]))

def offset_pol(c):
    shape = c.pick((9,), (3,4)); dec, ra = points(c, shape); g = arr(c, (2,)+shape)*10**c.uni(-3, -0.5)
    lim = 0.8*(np.pi/2-np.abs(dec)); d = np.hypot(*g); g = g*np.minimum(1, 0.99*lim/d); third = c.flip(); base = arr(c, shape)
    ip = np.array([dec, ra, base]) if third else np.array([dec, ra]); c.note(shape=shape, third=third, step=float(d.max()))
    r = lensing.offset_by_grad(ip, g, pol=True)[2]-(base if third else 0); rot = geodesic(dec, ra, g)[2]
    if np.max(np.abs(wrapdiff(r, rot, np.pi))) < 1e-7: return c.ok(True, "")
    if np.max(np.abs(wrapdiff(r, 2*rot))) < 1e-6: c.fail("returned angle is twice the rotation of the polarization basis")
    c.fail("polarization angle %s, rotation of the basis %s" % (r.reshape(-1)[:3], rot.reshape(-1)[:3]))

def lensgeo(c):
    k = c.pick("full","patch","patch","band")
    if k == "full": s, w, v = fullsky(c, nymin=8, nymax=16)
    elif k == "band":
        s, w, v = fullsky(c, nymin=12, nymax=20); y1 = c.int(1,4); w = w.deepcopy(); w.wcs.crpix[1] -= y1; s = (s[0]-2*y1, s[1])
    else: s, w = patch(c, projs=("car",), nmax=16, maxdec=70)
    note_geo(c, s, w); return s, w

def lens_setup(c, spin, dt):
    lmax = c.int(2,5); ncomp = sum(1 if v == 0 else 2 for v in spin); ct = utils.complex_dtype(dt)
    ai = curvedsky.alm_info(lmax=lmax); lm = np.array([(l,m) for m in range(lmax+1) for l in range(m,lmax+1)])
    alm = sph.fix0(arr(c, (ncomp,ai.nelem), np.complex128), lm).astype(ct); phi = sph.fix0(arr(c, (ai.nelem,), np.complex128)/(lm[:,0]+1)**2*c.pick(0.3,0.05,1e-3), lm).astype(ct)
    c.note(lmax=lmax, spin=spin, dtype=str(np.dtype(dt)))
    return lmax, ncomp, ai, lm, alm, phi

def lensed(c, rotate):
    dt = c.pick(np.float64, np.float64, np.float32); tol = 1e-6 if dt == np.float64 else 3e-4
    spin = [0] if not rotate else c.pick([0,2],[2],[0,2],[1],[0,0],[0,1],[2,0],[0,2,0]); s, w = lensgeo(c); lmax, nc, ai, lm, alm, phi = lens_setup(c, spin, dt)
    order = list(c.pick("l","lu","ul","lpka","kla","ula","pl","ualkp")); out = "".join(order)
    flat = nc == 1 and c.flip(0.6); kw = dict(geodesic=True); dth = None
    if c.flip(0.4): dth = abs(w.wcs.cdelt[1])*utils.degree*c.int(2, s[0]); kw["delta_theta"] = dth
    a2, ai2, phi2 = alm, None, phi
    if c.flip(0.4):    # a rectangular layout for the potential
        ai2 = curvedsky.alm_info(lmax=lmax, layout="rect"); phi2 = curvedsky.transfer_alm(ai, phi, ai2); kw["phi_ainfo"] = ai2
    c.note(output=out, flat=flat, blocks=dth is not None, rect=ai2 is not None)
    with c.keeps("lens_map_curved", a2, phi2): res = lensing.lens_map_curved(s if flat else (nc,)+s, w, phi2, a2, dtype=dt, spin=spin, output=out, **kw)
    c.ok(isinstance(res, tuple) and len(res) == len(out), "number of outputs"); res = dict(zip(out, res))
    pos = skygrid(s, w); sel = c.rng.choice(pos[0].size, min(pos[0].size, 40), replace=False); P = np.asarray(pos).reshape(2,-1)[:,sel]
    g = lambda m: np.asarray(m).reshape(-1, s[0]*s[1])[:,sel]
    pf = phi.astype(np.complex128)[None]; af = alm.astype(np.complex128); ev = lambda a, d, r: np.concatenate([sph.synth(a[i:i+(1 if v == 0 else 2)], lm, v, d, r) for v, i in zip(spin, np.cumsum([0]+[1 if v == 0 else 2 for v in spin]))])
    big = np.max(np.abs(af))*(lmax+1)
    if "p" in res: c.close(g(res["p"]), sph.synth(pf, lm, 0, *P), "potential map", rtol=tol, scale=np.max(np.abs(pf))*(lmax+1)); c.ok(res["p"].shape == s, "shape of the potential")
    if "k" in res: c.close(g(res["k"]), sph.synth(pf*(lm[:,0]*(lm[:,0]+1)/2), lm, 0, *P), "convergence map", rtol=tol, scale=np.max(np.abs(pf))*(lmax+1)**3)
    if "u" in res: c.close(g(res["u"]), ev(af, *P), "unlensed map", rtol=tol, scale=big); c.ok(res["u"].shape == (s if flat else (nc,)+s), "shape of the unlensed map")
    off = np.abs(P[0]) < np.pi/2-1e-3    # derivatives are direction dependent on the pole itself
    G = sph.grad(phi.astype(np.complex128), lm, np.where(off, P[0], 0), P[1])
    if "a" in res:
        c.ok(res["a"].shape == (2,)+s, "shape of the deflection"); c.close(g(res["a"])[:,off], G[:,off], "deflection map", rtol=max(tol,1e-6), scale=np.max(np.abs(pf))*(lmax+1)**2)
    for m in res.values(): c.ok(np.allclose(m.wcs.wcs.crpix, w.wcs.crpix) and np.allclose(m.wcs.wcs.crval, w.wcs.crval) and m.dtype == dt, "geometry or precision of an output")
    use = off & ~crosses(P[0], G); od, orr, rot = geodesic(P[0], P[1], G); val = ev(af, od, orr); got = g(res["l"])
    c.ok(res["l"].shape == (s if flat else (nc,)+s), "shape of the lensed map")
    gt = np.max(np.hypot(*G))*lmax*(1e-7 if dt == np.float64 else 1e-4)+tol
    i = 0
    for v in spin:
        if v == 0: c.close(got[i][use], val[i][use], "lensed scalar", rtol=gt, scale=big); i += 1
        else:
            q, u = val[i:i+2]; tr = lambda k: np.array([q*np.cos(v*k*rot)-u*np.sin(v*k*rot), q*np.sin(v*k*rot)+u*np.cos(v*k*rot)])
            if not rotate or not np.any(use): i += 2; continue
            if np.max(np.abs(got[i:i+2]-tr(1))[:,use]) <= 3*gt*big: c.ok(True, "")
            elif np.max(np.abs(got[i:i+2]-tr(2))[:,use]) <= 3*gt*big: c.fail("polarization rotated by twice the angle")
            else: c.fail("lensed polarization: off by %.3g (scale %.3g)" % (np.max(np.abs(got[i:i+2]-tr(1))[:,use]), big))
            i += 2

def lens_scalar(c): lensed(c, False)
def lens_pol(c): lensed(c, True)

def lens_modes(c):
    """outputs do not depend on which others are asked for, on blocking, nor (for weak lensing) on the displacement method; polarization off the poles"""
    dt = np.float64; spin = c.pick([0],[0,2],[2],[1],[0,0],[2,0]); s, w = lensgeo(c); lmax, nc, ai, lm, alm, phi = lens_setup(c, spin, dt); S = (nc,)+s
    full = dict(zip("lupka", lensing.lens_map_curved(S, w, phi, alm, spin=spin, output="lupka")))
    out = "".join(c.rng.permutation(list("lupka"))[:c.int(1,5)]); c.note(output=out)
    dth = abs(w.wcs.cdelt[1])*utils.degree*c.int(1, s[0]+3) if c.flip() else None
    for o, m in zip(out, lensing.lens_map_curved(S, w, phi, alm, spin=spin, output=out, delta_theta=dth)): c.close(np.asarray(m), np.asarray(full[o]), "output %s alone or in blocks" % o, rtol=1e-5, scale=np.max(np.abs(full[o]))+1e-3)
    z = lensing.lens_map_curved(S, w, phi*0, alm, spin=spin, geodesic=c.flip())[0]; c.close(np.asarray(z), np.asarray(full["u"]), "lensing without deflection", rtol=1e-5, scale=np.max(np.abs(alm))*(lmax+1))
    # geodesic=False: values of the unlensed field at the plainly shifted positions
    f = lensing.lens_map_curved(S, w, phi, alm, spin=spin, geodesic=False)[0]; p = np.asarray(skygrid(s, w)); g = np.asarray(full["a"])
    use = np.abs(p[0]) < np.pi/2-1e-3; q = np.array([p[0]+g[0], p[1]+g[1]/np.cos(np.where(use, p[0], 0))]); sel = np.flatnonzero(use)[:: max(1, use.size//40)]; q = q.reshape(2,-1)[:,sel]
    i = 0
    if np.all(np.abs(q[0]) < np.pi/2):
        for v in spin:
            n = 1 if v == 0 else 2; c.close(np.asarray(f).reshape(nc,-1)[i:i+n,sel], sph.synth(alm[i:i+n], lm, v, *q), "approximate lensing", rtol=1e-6, scale=np.max(np.abs(alm))*(lmax+1)); i += n

def kappaphi(c):
    lmax = c.int(1,40); ai = curvedsky.alm_info(lmax=lmax) if c.flip(0.6) else curvedsky.alm_info(lmax=lmax, layout="rect"); pre = c.pick((), (2,), (2,3)); kw = dict()
    dt = c.pick(np.complex128, np.complex64); a = arr(c, pre+(ai.nelem,), dt); L = np.zeros(ai.nelem)
    tri = ai.nelem == (lmax+1)*(lmax+2)//2; c.note(lmax=lmax, pre=pre, tri=tri, dtype=str(np.dtype(dt)))
    val = np.zeros(ai.nelem, bool)
    for mm in range(lmax+1):
        for ll in range(mm, lmax+1): k = ai.lm2ind(ll, mm); L[k] = ll*(ll+1)/2; val[k] = True
    info = None if tri and c.flip() else ai; tol = 1e-12 if dt == np.complex128 else 1e-5
    with c.keeps("phi_to_kappa", a): k = lensing.phi_to_kappa(a, info)
    c.close(k[...,val], (a*L)[...,val], "convergence of a potential", rtol=tol); c.ok(k.dtype == dt, "precision")
    with c.keeps("kappa_to_phi", a): p = lensing.kappa_to_phi(a, info)
    c.close(p[...,val], np.where(L > 0, a/np.where(L > 0, L, 1), 0)[...,val], "potential of a convergence", rtol=tol)
    r = lensing.kappa_to_phi(k, info); c.close(r[...,val&(L > 0)], a[...,val&(L > 0)], "round trip", rtol=tol)

def randalm(c):
    lmax = c.int(3,25); nps = lmax+c.pick(1,1,5); n = c.int(1,3); ps = np.zeros((n+1,n+1,nps)); l = np.arange(nps)
    A = arr(c, (n+1,n+1)); C = A@A.T+np.eye(n+1); ps[...,2:] = C[...,None]/l[2:]**2; seed, ps2 = c.int(0,999), c.int(1000,1999); dt = c.pick(np.float64, np.float32); nc = c.pick(None, n, c.int(1,n))
    c.note(lmax=lmax, n=n, ncomp=nc, seed=seed, dtype=str(np.dtype(dt))); both = c.flip(0.7); kw = dict(lmax=lmax, dtype=dt, ncomp=nc, seed=seed, phi_seed=ps2 if both else None)
    with c.keeps("rand_alm", ps): phi, cmb, ai = lensing.rand_alm(ps, **kw)
    k = n if nc is None else nc; c.ok(phi.shape == (ai.nelem,) and cmb.shape == (k,ai.nelem) and ai.lmax == lmax, "shapes %s %s" % (phi.shape, cmb.shape)); c.ok(phi.dtype == cmb.dtype == utils.complex_dtype(dt), "precision of the coefficients")
    p2, c2, _ = lensing.rand_alm(ps, **kw); c.same(phi, p2, "same seed, same potential"); c.same(cmb, c2, "same seed, same field")
    i0 = ai.lm2ind(np.arange(lmax+1), np.arange(lmax+1)*0).astype(int); c.same(phi[i0].imag, np.zeros(lmax+1), "m=0 coefficients of the potential are real"); c.same(cmb[:,i0].imag, np.zeros((k,lmax+1)), "m=0 coefficients are real"); c.ok(np.all(phi[ai.lm2ind(np.arange(2,lmax+1), 1)].imag != 0), "m>0 coefficients carry phases")
    if both:
        # whitening with the covariance recovers fields that depend on one seed each
        def white(ph, cm):
            o = np.concatenate([ph[None], cm]).astype(np.complex128); r = np.zeros_like(o)
            for ll in range(2, lmax+1):
                ix = ai.lm2ind(np.full(ll+1, ll), np.arange(ll+1)).astype(int); E, V = np.linalg.eigh(ps[:k+1,:k+1,ll]); r[:,ix] = (V*E**-0.5)@V.T@o[:,ix]
            return r
        t = 1e-9 if dt == np.float64 else 2e-3
        p3, c3, _ = lensing.rand_alm(ps, **dict(kw, seed=seed+1)); a, b = white(phi, cmb), white(p3, c3)
        c.close(a[0], b[0], "the potential's own randomness depends only on its seed", rtol=t); c.ok(np.max(np.abs(a[1:]-b[1:])) > 0.1, "the field ignores its seed")
        p3, c3, _ = lensing.rand_alm(ps, **dict(kw, phi_seed=ps2+1)); b = white(p3, c3); c.close(a[1:], b[1:], "the field's own randomness depends only on its seed", rtol=t); c.ok(np.max(np.abs(a[0]-b[0])) > 0.1, "the potential ignores its seed")
        if c.flip(0.3):
            lm = 130; q = np.zeros((n+1,n+1,lm+1)); q[...,2:] = C[...,None]/np.arange(2,lm+1)**2; pp, cc, ii = lensing.rand_alm(q, lmax=lm, seed=seed, phi_seed=ps2); X = np.concatenate([pp[None],cc]); E, V = np.linalg.eigh(C); X = (V*E**-0.5)@V.T@X; ls = np.concatenate([np.arange(m,lm+1) for m in range(lm+1)]); ms = np.concatenate([np.full(lm+1-m,m) for m in range(lm+1)]); X = (X*ls)[:,ls >= 2]; w = np.mean(np.abs(X)**2, 1); c.ok(np.max(np.abs(w-1)) < 6*(1.2/X.shape[1])**0.5, "variance of the coefficients: %s" % w)
        if c.flip(0.3):
            # every m=0 coefficient has unit variance after whitening
            lm = c.int(3,6); q = np.zeros((2,2,lm+1)); q[...,2:] = np.eye(2)[...,None]; S = np.zeros((2,lm-1)); N = 300; s0 = c.int(0,10**6)
            for i in range(N): pp, cc, ii = lensing.rand_alm(q, lmax=lm, seed=s0+2*i, phi_seed=s0+2*i+1); S[0] += np.abs(pp[2:lm+1])**2; S[1] += np.abs(cc[0,2:lm+1])**2
            c.ok(np.all(S/N > 0.6) and np.all(S/N < 1.55), "variance of each m=0 coefficient: %s" % (S/N,))
        n0 = np.mean(np.abs(a[:,i0[2:]])**2); c.ok(0.05 < n0 < 5, "variance of the m=0 coefficients")

def flatlens(c):
    ny, nx = c.int(6,24), c.int(6,24); res = c.uni(0.05,0.5)*utils.degree; w = mkwcs("car", [c.uni(-170,170), 0], [-res/utils.degree*c.pick(1,-1), res/utils.degree*c.pick(1,-1)], [nx/2, ny/2]); note_geo(c, (ny,nx), w)
    pre = c.pick((), (2,), (2,2)); m = enmap.ndmap(arr(c, pre+(ny,nx)), w); k = c.int(-ny,ny), c.int(-nx,nx)
    grad = np.zeros((2,ny,nx)); grad[0] = k[0]*w.wcs.cdelt[1]*utils.degree; grad[1] = k[1]*w.wcs.cdelt[0]*utils.degree; order = c.pick(0,1,3,3,5); mode = c.pick("spline","spline","conv") if order in (0,1) else "spline"
    c.note(shift=k, order=order, mode=mode)
    want = np.roll(np.asarray(m), (-k[0],-k[1]), (-2,-1)); tol = 1e-6; ge = enmap.ndmap(grad+ (0 if order else 1e-7*res), w)
    with c.keeps("lens_map", m, ge): r = lensing.lens_map(m, ge, order=order, mode=mode)
    c.close(np.asarray(r), want, "lensing by a whole number of pixels", rtol=tol); c.ok(r.wcs.wcs.compare(m.wcs.wcs), "geometry")
    # transpose
    gr = enmap.ndmap(arr(c, (2,ny,nx))*res*c.pick(0.5,2,5), w); y = enmap.ndmap(arr(c, pre+(ny,nx)), w); o2 = c.pick(1,3)
    L = lensing.lens_map(m, gr, order=o2); T = lensing.lens_map(y, gr, order=o2, trans=True); c.close(np.sum(L*y), np.sum(T*m), "transposed lensing", rtol=1e-9, scale=np.sum(np.abs(L*y))+np.sum(np.abs(T*m)))
    # other boundary conditions only matter outside the map
    bd = c.pick("nearest","zero","mirror"); px = np.asarray(m.pixmap()+gr/np.array([w.wcs.cdelt[1],w.wcs.cdelt[0]])[:,None,None]/utils.degree); K = lensing.lens_map(m, gr, order=1, border=bd); c.close(np.asarray(K), np.asarray(lensing.displace_map(m, enmap.ndmap(px, w), order=1, border=bd)), "displace_map with border %s" % bd, rtol=1e-6); far = (px[0] < -1.01)|(px[0] > ny+0.01)|(px[1] < -1.01)|(px[1] > nx+0.01); inn = (px[0] >= 0)&(px[0] <= ny-1)&(px[1] >= 0)&(px[1] <= nx-1); c.close(np.asarray(K)[...,inn], np.asarray(lensing.lens_map(m, gr, order=1))[...,inn], "inside the map", rtol=1e-6)
    if bd == "zero": c.ok(not np.any(np.asarray(K)[...,far]), "outside the map with border zero")
    if bd == "nearest": y1, x1 = np.clip(px[0],0,ny-1), np.clip(px[1],0,nx-1); c.close(np.asarray(K), np.asarray(lensing.displace_map(m, enmap.ndmap(np.array([y1,x1]), w), order=1, border=bd)), "outside the map with border nearest", rtol=1e-6)
    # explicit positions
    pix = m.pixmap()+gr/np.array([w.wcs.cdelt[1],w.wcs.cdelt[0]])[:,None,None]/utils.degree; c.close(np.asarray(lensing.displace_map(m, enmap.ndmap(np.asarray(pix), w), order=o2)), np.asarray(L), "displace_map", rtol=1e-6)
    if o2 == 1:
        y0, x0 = np.floor(np.asarray(pix)).astype(int); fy, fx = np.asarray(pix)-[y0,x0]; A = lambda a, b: np.asarray(m)[...,a%ny,b%nx]
        c.close(np.asarray(L), (1-fy)*(1-fx)*A(y0,x0)+fy*(1-fx)*A(y0+1,x0)+(1-fy)*fx*A(y0,x0+1)+fy*fx*A(y0+1,x0+1), "linearly interpolated lensing", rtol=1e-6)

def modes(c, shape, kmax, n=4):
    """a smooth periodic field as an exact function of pixel position, its value and its gradient"""
    ny, nx = shape; K = [(c.int(-kmax,kmax), c.int(-kmax,kmax), *c.rng.standard_normal(2)) for i in range(n)]
    def f(y, x, d=None):
        r = 0
        for ky, kx, a, b in K:
            p = 2*np.pi*(ky*y/ny+kx*x/nx); k = 2*np.pi*np.array([ky/ny, kx/nx])
            r = r+(a*np.cos(p)+b*np.sin(p) if d is None else k[d]*(-a*np.sin(p)+b*np.cos(p)))
        return r
    return f

def smoothlens(c):
    ny, nx = c.int(40,64), c.int(40,64); res = 0.1; w = mkwcs("car", [c.uni(-170,170), 0], [-res, res], [nx/2, ny/2]); note_geo(c, (ny,nx), w); Y, X = np.mgrid[:ny,:nx].astype(float)
    f, p = modes(c, (ny,nx), 2), modes(c, (ny,nx), 1); m = enmap.ndmap(f(Y,X), w); g = np.array([p(Y,X,0), p(Y,X,1)]); amp = 1.5/np.max(np.abs(g)+1e-9); g *= amp
    c.note(amp=float(amp)); gm = enmap.ndmap(g*np.array([w.wcs.cdelt[1], w.wcs.cdelt[0]])[:,None,None]*utils.degree, w)
    want = f(Y+g[0], X+g[1]); sc = np.max(np.abs(want)); lens = lensing.lens_map(m, gm); c.close(np.asarray(lens), want, "lensed smooth field", rtol=2e-3, scale=sc)
    de = lensing.delens_map(lens, gm, nstep=8); c.close(np.asarray(de), np.asarray(m), "delensing undoes lensing", rtol=1e-2, scale=sc)
    phi = enmap.ndmap(amp*p(Y,X)*(res*utils.degree)**2, w)
    with c.keeps("lens_map_flat", m, phi): r = lensing.lens_map_flat(m, phi)
    c.close(np.asarray(r), want, "lens_map_flat", rtol=2e-3, scale=sc); c.ok(r.wcs.wcs.compare(w.wcs), "geometry")

# --- Doppler boost
def direction(c): return np.array([c.uni(-np.pi,np.pi), np.arcsin(c.uni(-1,1))]) if c.flip(0.8) else np.array([c.uni(-3,3), c.pick(-1,1)*np.pi/2])

def restframe(p, d, beta):
    """direction a photon seen at p=(dec,ra) by the moving observer has at rest, modulation, and rotation of the basis"""
    v = vec(*p); ax = vec(d[1], d[0]).reshape((3,)+(1,)*(v.ndim-1)); z = np.sum(ax*v, 0); zr = (z-beta)/(1-beta*z)
    perp = v-z*ax; perp = perp/np.sqrt(np.sum(perp**2, 0)); w = zr*ax+np.sqrt(1-zr**2)*perp
    rp = np.array([np.arctan2(w[2], np.hypot(w[0],w[1])), np.arctan2(w[1], w[0])]); A = np.sqrt(1-beta**2)/(1-beta*z)
    n0, e0 = basis(*p); n1, e1 = basis(*rp); t0, t1 = ax-z*v, ax-zr*w
    return rp, A, np.arctan2(np.sum(t1*e1,0), np.sum(t1*n1,0))-np.arctan2(np.sum(t0*e0,0), np.sum(t0*n0,0))

def boostgeo(c):
    ny = c.int(16,30); dy = 180./ny; nx = 2*c.int(ny-4, ny+6); w = mkwcs("car", [c.pick(0., c.uni(-180,180)), 0.], [c.pick(-1,-1,1)*360./nx, c.pick(1,1,-1)*dy], [nx/2+c.pick(1,0.5,0), (ny+1)/2]); note_geo(c, (ny,nx), w); return (ny,nx), w

def skyfield(c, s, w, spin, lmax):
    lm = np.array([(l,m) for m in range(lmax+1) for l in range(m,lmax+1)]); nc = sum(1 if v == 0 else 2 for v in spin); alm = sph.fix0(arr(c, (nc,len(lm)), np.complex128), lm)
    ev = lambda pos: np.concatenate([sph.synth(alm[i:i+(1 if v == 0 else 2)], lm, v, *pos) for v, i in zip(spin, np.cumsum([0]+[1 if v == 0 else 2 for v in spin]))])
    return ev, nc

def turned(val, rot, spin):
    val = val.copy(); i = 0
    for v in spin:
        if v == 0: i += 1; continue
        q, u = val[i].copy(), val[i+1].copy(); val[i] = q*np.cos(v*rot)-u*np.sin(v*rot); val[i+1] = q*np.sin(v*rot)+u*np.cos(v*rot); i += 2
    return val

def aberrate(c):
    s, w = boostgeo(c); spin = c.pick([0],[0,2],[0,2],[2]); lmax = c.int(2,5); dt = c.pick(np.float64, np.float64, np.float32); beta = c.pick(1,-1)*10**c.uni(-3,-0.6); d = direction(c)
    ev, nc = skyfield(c, s, w, spin, lmax); P = np.asarray(skygrid(s, w)); m = enmap.ndmap(ev(P.reshape(2,-1)).reshape((nc,)+s).astype(dt), w)
    lead = c.flip(0.2); 
    if spin == [0] and c.flip(): m = m[0]
    elif lead: m = enmap.ndmap(np.array([m, 2*m]), w)
    c.note(spin=spin, lmax=lmax, dtype=str(np.dtype(dt)), beta=beta, d=d, ndim=m.ndim); tol = 1e-5 if dt == np.float64 else 5e-3
    kw = dict(dir=d, beta=beta, spin=spin)
    if c.flip(0.3): kw["boundary"] = "fullsky"
    if c.flip(0.3): kw["nthread"] = c.int(1,4)
    with c.keeps("aberrate_map", m): o = aberration.aberrate_map(m, **kw)
    c.ok(o.shape == m.shape and o.dtype == dt and o.wcs.wcs.compare(w.wcs), "shape, precision or geometry")
    sel = c.rng.choice(s[0]*s[1], 60, replace=False); p = P.reshape(2,-1)[:,sel]; rp, A, rot = restframe(p, d, beta); want = turned(ev(rp), rot, spin); sc = np.max(np.abs(m))
    of = np.asarray(o).reshape(-1, nc, s[0]*s[1])[...,sel] if m.ndim != 2 else np.asarray(o).reshape(1,1,-1)[...,sel]
    for i in range(len(of)): c.close(of[i]/(i+1), want, "aberrated map", rtol=tol, scale=sc)
    c.close(np.asarray(aberration.boost_map(m, modulate=False, **kw)), np.asarray(o), "boost without modulation", rtol=1e-6, scale=sc)
    back = np.asarray(aberration.deaberrate_map(m, **dict(kw, beta=-beta))); c.close(back, np.asarray(o), "deaberration is aberration the other way", rtol=1e-6, scale=sc)
    ab = aberration.Aberrator(m.shape, w, coord_dtype=dt, **kw); c.close(np.asarray(ab(m)), np.asarray(o), "prepared aberrator", rtol=1e-6, scale=sc); c.close(np.asarray(ab(m*3)), 3*np.asarray(o), "prepared aberrator, second map", rtol=1e-5, scale=3*sc)

def planck(f, T): h, k, cc = 6.62607015e-34, 1.380649e-23, 299792458.0; return 2*h*f**3/cc**2/np.expm1(h*f/(k*T))
def dplanck(f, T): h, k, cc = 6.62607015e-34, 1.380649e-23, 299792458.0; x = h*f/(k*T); return 2*h*f**3/cc**2*np.exp(x)/np.expm1(x)**2*x/T
def iplanck(f, I): h, k, cc = 6.62607015e-34, 1.380649e-23, 299792458.0; return h*f/k/np.log1p(2*h*f**3/cc**2/I)

def modmodel(m, A, mode, T0, f, unit, dip, spin):
    """m[ncomp,n] -> modulated"""
    out = np.zeros_like(m); i = 0
    for v in spin:
        for k in range(1 if v == 0 else 2):
            x = m[i]; dd = dip and v == 0
            if mode in (None,"none"): y = x
            elif mode in ("plain","T2T"): y = A*x+((A-1)*T0/unit if dd else 0)
            else:
                a = A; t = x*unit
                if mode in ("lin2T","lin2lin"):
                    b = a if mode == "lin2T" else np.ones_like(a)
                    # linearized units -> temperature at rest, then modulated
                    t = b*iplanck(f, t*dplanck(f, T0)+(planck(f, T0) if dd else planck(f, T0/b)))-T0
                if mode in ("T2lin","lin2lin"):
                    t = (planck(f, a*(t+T0))-(planck(f, T0) if dd else planck(f, a*T0)))/dplanck(f, T0)
                y = t/unit
            out[i] = y; i += 1
    return out

def modulate(c):
    s, w = boostgeo(c) if c.flip(0.4) else patch(c, projs=("car","cea"), nmax=14, maxdec=75); 
    if "geo" not in c.notes: note_geo(c, s, w)
    spin = c.pick([0],[0,2],[0,2],[2]); nc = sum(1 if v == 0 else 2 for v in spin); mode = c.pick(None,"plain","T2T","T2lin","T2lin","lin2T","lin2lin"); dip = c.flip(); T0 = c.pick(utils.T_cmb, 2.0, 5.0); f = c.pick(150e9, 30e9, 280e9); unit = c.pick(1e-6, 1.0, 1e-3); beta = c.pick(1,-1)*10**c.uni(-3,-0.6); d = direction(c)
    if mode in ("plain","T2T") and spin != [0] and dip: spin, nc = [0,2], 3
    amp = c.pick(1e-4, 1e-2)/unit; m = enmap.ndmap(arr(c, (nc,)+s)*amp, w); dt = c.pick(np.float64, np.float64, np.float32)
    m = m.astype(dt); flat = nc == 1 and c.flip()
    if flat: m = m[0]
    c.note(spin=spin, mode=mode, dipole=dip, T0=T0, freq=f, unit=unit, beta=beta, d=d, dtype=str(np.dtype(dt)), flat=flat); kw = dict(dir=d, beta=beta, modulation=mode, T0=T0, freq=f, dipole=dip, map_unit=unit, spin=spin)
    P = np.asarray(skygrid(s, w)); ax = vec(d[1], d[0]); z = np.einsum("i,iyx->yx", ax, vec(*P)); A = np.sqrt(1-beta**2)/(1-beta*z)
    with c.keeps("modulate_map", m): o, Ao = aberration.modulate_map(m, return_modulation=True, **kw)
    tol = 1e-6 if dt == np.float64 else 1e-4
    c.close(np.asarray(Ao), A, "modulation field", rtol=tol); c.ok(o.shape == m.shape and o.dtype == dt and o.wcs.wcs.compare(w.wcs), "shape, precision or geometry")
    want = modmodel(np.asarray(m, float).reshape(nc,-1), A.reshape(-1), mode, T0, f, unit, dip, spin); c.close(np.asarray(o).reshape(nc,-1), want, "modulated map (%s)" % mode, rtol=max(tol,2e-6), scale=np.max(np.abs(want))+amp+(T0/unit*2e-2 if dt == np.float32 else T0/unit*1e-3 if mode in ("T2lin","lin2T","lin2lin") else 0))
    c.close(np.asarray(aberration.modulate_map(m, **kw)), np.asarray(o), "modulation without returning the field", rtol=1e-9)
    mo = aberration.Modulator(m.shape, w, dtype=dt, **kw); r1 = np.array(mo(m)); c.close(r1, np.asarray(o), "prepared modulator", rtol=1e-9); c.close(np.array(mo(m)), r1, "prepared modulator, second use", rtol=1e-9)
    c.close(np.asarray(aberration.boost_map(m, aberrate=False, **kw)), np.asarray(o), "boost without aberration", rtol=1e-9)
    k2 = dict(kw); k2["spin"] = [0] if spin != [0] else [0,2]; c.close(np.array(aberration.Modulator(m.shape, w, dtype=dt, **k2)(m, spin=spin)), np.asarray(o), "prepared modulator with the spin given later", rtol=1e-9)
    k3 = dict(kw); k3["beta"] = -beta; c.close(np.asarray(aberration.demodulate_map(m, **k3)), np.asarray(o), "demodulation is modulation with the opposite speed", rtol=1e-9)

def boost(c):
    s, w = boostgeo(c); spin = c.pick([0],[0,2]); lmax = c.int(2,4); beta = 10**c.uni(-3,-0.8); d = direction(c); mode = c.pick("T2lin","T2T","T2lin"); dip = c.flip()
    ev, nc = skyfield(c, s, w, spin, lmax); P = np.asarray(skygrid(s, w)); m = enmap.ndmap(ev(P.reshape(2,-1)).reshape((nc,)+s)*100, w); c.note(spin=spin, lmax=lmax, beta=beta, d=d, mode=mode, dipole=dip)
    kw = dict(dir=d, beta=beta, spin=spin, modulation=mode, dipole=dip)
    with c.keeps("boost_map", m): o, A = aberration.boost_map(m, return_modulation=True, **kw)
    rp, Aw, rot = restframe(P.reshape(2,-1), d, beta); want = modmodel(turned(ev(rp)*100, rot, spin), Aw, mode, utils.T_cmb, 150e9, 1e-6, dip, spin); sc = np.max(np.abs(want))
    c.close(np.asarray(o).reshape(nc,-1), want, "boosted map", rtol=1e-5, scale=sc); c.close(np.asarray(A).reshape(-1), Aw, "modulation", rtol=1e-6); c.same(np.asarray(aberration.boost_map(m, **kw)), np.asarray(o), "boost with and without returning the modulation")
    kd = {k: v for k, v in kw.items() if k not in ("modulation","beta")}; c.close(np.asarray(aberration.deboost_map(o, beta=beta, **kd)), np.asarray(aberration.boost_map(o, beta=-beta, modulation="lin2T", **kd)), "deboosting is boosting the other way, from linearized to true temperature", rtol=1e-7)
    c.close(np.asarray(aberration.boost_map(m, modulate=False, **kw)), np.asarray(aberration.aberrate_map(m, dir=d, beta=beta, spin=spin)), "boost without modulation", rtol=1e-9)
    if beta < 0.01 and not dip:
        r = aberration.deboost_map(o, **dict(kw, modulation="lin2T" if mode == "T2lin" else "T2T")); c.close(np.asarray(r), np.asarray(m), "deboosting undoes boosting", rtol=3e-2, scale=np.max(np.abs(m)))

def boost1d(c):
    n = c.int(1,20); z = np.concatenate([c.uni(-1,1,n), [-1.,1.]]); beta = c.pick(1,-1)*10**c.uni(-4,-0.05); c.note(n=n, beta=beta); z0 = z.copy()
    zo, A = aberration.calc_boost_1d(z, beta); c.same(z, z0, "input kept"); c.close(zo, (z+beta)/(1+beta*z), "aberrated cosine", rtol=1e-12); c.close(A, (1+beta*z)/np.sqrt(1-beta**2), "modulation", rtol=1e-9)
    zb, B = aberration.calc_boost_1d(zo, -beta); c.close(zb, z, "inverse boost", atol=1e-9); c.close(A*B, np.ones(n+2), "modulations cancel", rtol=1e-8)

def offset_big(c):
    """More points than are handled at a time: each point's result is its own"""
    n = c.pick(2**20, 2**21)+c.int(1,300); shape = (n,) if c.flip() else (1,n); third = c.flip(0.7); dec, ra, base = [c.rng.random(n) for _ in range(3)]; dec = dec*2-1; ra = ra*6-3
    ip = np.array([dec, ra, base] if third else [dec, ra]).reshape((-1,)+shape); g = (c.rng.random((2,n))-0.5).reshape((2,)+shape)*0.1; pol = c.pick(None, None, True, False); geo = c.flip(0.85); c.note(n=n, third=third, pol=pol, geodesic=geo)
    with c.keeps("offset_by_grad", ip, g): r = lensing.offset_by_grad(ip, g, pol=pol, geodesic=geo)
    r = r.reshape(-1,n); ip = ip.reshape(-1,n); g = g.reshape(2,n)
    for i in (0, 2**20-20, max(2**21-20,0), n-40):
        if i < n-1: c.close(r[:,i:i+40], lensing.offset_by_grad(ip[:,i:i+40], g[:,i:i+40], pol=pol, geodesic=geo), "points %d to %d of %d" % (i, i+40, n), rtol=1e-12)

MONITORS = [("offset", offset, 200, 2500), ("offset_big", offset_big, 8, 24), ("approx_pole", approx_pole, 60, 600), ("offset_pole", offset_pole, 60, 600), ("offset_pol", offset_pol, 40, 400),
  ("lens_scalar", lens_scalar, 100, 900), ("lens_pol", lens_pol, 40, 300), ("lens_modes", lens_modes, 80, 700), ("kappaphi", kappaphi, 80, 800), ("randalm", randalm, 60, 600),
  ("flatlens", flatlens, 100, 900), ("smoothlens", smoothlens, 40, 300), ("aberrate", aberrate, 60, 500), ("modulate", modulate, 120, 1200), ("boost", boost, 30, 250), ("boost1d", boost1d, 60, 600)]

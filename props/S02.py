"""S02: harmonic analysis inverts synthesis, is the documented weighted sum, and adjoints are true adjoints."""
import numpy as np
from pixell import enmap, curvedsky as cs, utils
from gen import *
import sph
from S01 import skygeo, anysky, layout, mkalm, spins, groups, eps_of, subset

INFO = {"level": "exploration", "threads": 2, "nproc": 4,
  "assumptions": ["reference: explicit harmonic matrices for small lmax", "integration weights are judged by exact integration of the harmonics the grid supports"]}

def dot_alm(a, b, lm, idx):
    f = np.where(lm[:,1] == 0, 1, 2); a, b = np.asarray(a)[...,idx], np.asarray(b)[...,idx]
    return float(np.sum(f*(a*b.conj()).real, dtype=np.float64))
def dot(a, b): return float(np.sum(np.asarray(a, np.float64)*np.asarray(b, np.float64)))
def jac(fwd, back, y, n):
    x = back(y)
    for i in range(n): x = x-back(fwd(x)-y)
    return x

def roundtrip(c):
    """band-limited maps: analysis recovers the coefficients"""
    s, w, name, lsup, kind, ny = skygeo(c, kinds=("full",), nymin=10); spin, nc = spins(c); k = c.pick("2d","auto","cyl"); mx = max(np.atleast_1d(spin))
    if name in ("MW","MWflip") and k == "cyl": return # no quadrature weights for these
    lim = lsup if k != "cyl" else (lsup if name in ("DH","F2") else (ny-2)//2); lim = min(lim, (s[1]-1)//2)
    if lim < mx+1: return
    lmax = c.int(max(mx,1), min(lim, 11)); ai, lm, idx, n, lmax = layout(c, lmax); dt = c.pick(np.complex128, np.complex128, np.complex64); rt = np.zeros(1, dt).real.dtype
    pre = c.pick((), (), (2,)); c.note(spin=spin, nc=nc, method=k, dtype=np.dtype(dt).name, pre=pre)
    a = mkalm(c, pre+(nc,), lm, idx, n, dt)
    # components below l = spin do not exist
    for v, i, j in groups(spin, nc):
        bad = idx[lm[:,0] < v]; a[...,i:j,bad] = 0
    m = cs.alm2map(a, enmap.ndmap(np.zeros(pre+(nc,)+s, rt), w), spin=spin, ainfo=ai)
    full = ai is None or (ai.lmax == ai.mmax); kw = dict(spin=spin, method=k)
    form = c.pick("lmax","ainfo","alm","alm+copy"); c.note(form=form)
    if ai is None and form == "ainfo": form = "lmax"
    if ai is not None and form == "lmax": form = "ainfo"
    if form == "lmax": kw["lmax"] = lmax
    elif form == "ainfo": kw["ainfo"] = ai
    else:
        junk = mkalm(c, pre+(nc,), lm, idx, n, dt); kw.update(alm=junk.copy(), ainfo=ai, copy=form == "alm+copy")
    with c.keeps("map2alm", m): r = cs.map2alm(m, **kw)
    c.ok(r.dtype == dt and r.shape == pre+(nc,n), "alm shape %s dtype %s" % (r.shape, r.dtype))
    if form == "alm+copy": c.same(kw["alm"], junk, "copy=True leaves the alm argument alone")
    if form == "alm": c.same(r, kw["alm"], "the alm argument is filled in")
    tol = 1e-9 if dt == np.complex128 else 3e-5
    c.close(r[...,idx], a[...,idx], "analysis of a synthesized map", rtol=tol, scale=np.max(np.abs(a[...,idx]))+1)
    if nc == 1 and not pre:
        r = cs.map2alm(m[0], spin=spin, lmax=lmax, ainfo=ai, method=k); c.close(r[idx], a[0][idx], "scalar analysis", rtol=tol, scale=np.max(np.abs(a[...,idx]))+1)

def analysis(c):
    """the cyl and general methods compute the weighted sum, with the documented iteration"""
    s, w, methods, k = anysky(c); spin, nc = spins(c); ai, lm, idx, n, lmax = layout(c, c.int(3,5)); meth = c.choice([x for x in methods if x != "2d"]); ni = c.pick(0,0,1,2)
    P = skygrid(s, w).reshape(2,-1)
    if not np.all(np.isfinite(P)) or P.shape[1] > 700: return
    der = c.flip(0.15); given = c.flip(0.3); dt = c.pick(np.float64, np.float64, np.float32); c.note(spin=spin, nc=nc, method=meth, niter=ni, given=given, dtype=np.dtype(dt).name, deriv=der)
    if der: nc = 2
    if der and np.max(np.abs(P[0])) > 85*deg: return
    m = enmap.ndmap(arr(c, (nc,)+s, dt), w); kw = dict(spin=spin, method=meth, ainfo=ai, niter=ni, deriv=der)
    if ai is None: kw["lmax"] = lmax
    if meth == "cyl":
        if given: W1 = c.uni(0.5, 1.5, s[0])*0.05; kw["weights"] = (W1[::-1] if w.wcs.cdelt[1] > 0 else W1).astype(dt).copy()
        else:
            mi = cs.analyse_geometry(s, w)
            W1 = cs.quad_weights(s, w) if mi.ducc_geo is not None and mi.ducc_geo.name in ("CC","F1","DH","F2") else np.asarray(m.pixsizemap())[:,0]
        W = np.repeat(W1, s[1])
    else:
        if given: W = c.uni(0.5, 1.5, s[0]*s[1])*0.05; kw["weights"] = W.astype(dt)
        else: W = np.asarray(m.pixsizemap()).reshape(-1)
        kw["epsilon"] = 1e-10 if dt == np.float64 else 1e-5
    with c.keeps("map2alm", m): r = cs.map2alm(m, **kw)
    if meth == "cyl" and s[1] < round(360/abs(w.wcs.cdelt[0])) and ni: return # the iteration also involves the padding
    M = np.asarray(m, np.float64).reshape(nc, -1); tol = 1e-8 if dt == np.float64 else 1e-4
    if der:
        Y, YT = sph.ymat(lm, 1, P, deriv=True); want = jac(Y, lambda x: YT(x*W), M, ni); c.ok(r.shape == (n,), "shape of the derivative alm %s" % (r.shape,)); c.close(r[idx], want[0], "derivative analysis", rtol=1e-5 if dt == np.float64 else 1e-3, scale=np.max(np.abs(want))+np.sum(np.abs(W))); return
    c.ok(r.shape == (nc,n), "alm shape")
    for v, i, j in groups(spin, nc):
        Y, YT = sph.ymat(lm, v, P); want = jac(Y, lambda x: YT(x*W), M[i:j], ni); c.close(r[i:j][:,idx], want, "weighted analysis (%s, spin %d)" % (meth, v), rtol=tol, scale=np.max(np.abs(want))+np.sum(np.abs(W))*0.1)

def pos_adjoint(c):
    """synthesis at arbitrary positions and its adjoint"""
    ai, lm, idx, n, lmax = layout(c, c.int(3,6)); spin, nc = spins(c); pre = c.pick((), (2,)); der = c.flip(0.3); N = c.int(1,12); P = rand_points(c, N); ai = ai or cs.alm_info(lmax)
    if der: P[0] = np.clip(P[0], -1.45, 1.45); nc = 2
    c.note(spin=spin, nc=nc, pre=pre, deriv=der, npos=N); real = lambda a: fix(a, lm, idx); ash = pre+(() if der else (nc,)); a = real(mkalm(c, ash, lm, idx, n, np.complex128)); m = arr(c, pre+(nc,N)); kw = dict(pos=P, ainfo=ai, spin=spin, deriv=der, epsilon=1e-11)
    Ya = cs.alm2map_pos(a, **kw); z = np.zeros_like(a); cp = c.flip()
    with c.keeps("alm2map_pos adjoint", m, P): t = cs.alm2map_pos(z, map=m, adjoint=True, copy=cp, **kw)
    if cp: c.ok(np.all(z == 0), "copy=True leaves the alm argument alone")
    c.close(dot(Ya, m), dot_alm(a, real(t), lm, idx), "<Ya,m> = <a,Y'm>", rtol=1e-8, scale=(dot(Ya,Ya)*dot(m,m))**0.5+1e-2*m.size)

def masked(c):
    """maps with pixels off the sky: the analysis is the weighted sum over those that are on it"""
    ny, nx = c.int(8,13), c.int(8,13); r = 2*57.3/min(ny,nx)*1.1; w = mkwcs("sin", [c.uni(-180,180), c.uni(-80,80)], [-r,r], [(nx+1)/2., (ny+1)/2.]); s = (ny,nx); note_geo(c, s, w)
    P = skygrid(s, w); good = np.all(np.isfinite(P), 0); lmax = c.int(3,6); lm = np.array([(l,m) for m in range(lmax+1) for l in range(m,lmax+1)]); idx = np.arange(len(lm)); n = len(lm)
    nc, spin = c.pick((3,[0,2]), (1,[0]), (2,[1])); pre = c.pick((), (2,)); bare = nc == 1 and not pre and c.flip(); ni = c.pick(0,0,1); W = c.uni(0.5,1.5,int(good.sum()))*0.1; c.note(nc=nc, pre=pre, bare=bare, niter=ni)
    m = enmap.ndmap(arr(c, pre+(nc,)+s), w); m[...,~good] = c.pick(np.nan, 0., 1e9)
    if bare: m = m[0]
    kw = dict(spin=spin, method="general", epsilon=1e-10, weights=W, niter=ni, lmax=lmax)
    with c.keeps("map2alm", m): q = cs.map2alm(m, **kw)
    c.ok(q.shape == m.shape[:-2]+(n,), "alm shape"); g = q.reshape(-1,nc,n); M = np.asarray(m).reshape((-1,nc)+s)[:,:,good]
    for k in range(len(g)):
        for v, i, j in groups(spin, nc):
            Y, YT = sph.ymat(lm, v, P[:,good]); want = jac(Y, lambda x: YT(x*W), M[k,i:j], ni); c.close(g[k,i:j], want, "analysis of a map with undefined pixels (spin %d)" % v, rtol=1e-8, scale=np.max(np.abs(want))+1)
    b = fix(mkalm(c, m.shape[:-2], lm, idx, n, np.complex128), lm, idx); t = cs.map2alm_adjoint(b, enmap.ndmap(np.zeros(m.shape), w), **kw)
    c.close(dot_alm(fix(q, lm, idx), b, lm, idx), dot(np.asarray(m)[...,good], np.asarray(t)[...,good]), "<Am,b> = <m,A'b> over the defined pixels", rtol=1e-8, scale=(dot_alm(b,b,lm,idx)*dot_alm(q,q,lm,idx))**0.5+1)

def adjoints(c):
    s, w, methods, k = anysky(c); spin, nc = spins(c); ai, lm, idx, n, lmax = layout(c, c.int(3,6)); meth = c.pick("auto", c.choice(methods)); der = c.flip(0.3); pre = c.pick((), (2,))
    P = skygrid(s, w)
    if not np.all(np.isfinite(P)): return
    if der: nc = 2
    c.note(spin=spin, nc=nc, method=meth, deriv=der, pre=pre)
    real = lambda a: fix(a, lm, idx)
    a = real(mkalm(c, pre+(() if der else (nc,)), lm, idx, n, np.complex128)); m = enmap.ndmap(arr(c, pre+(nc,)+s), w)
    kw = dict(spin=spin, method=meth, ainfo=ai, deriv=der, epsilon=1e-11)
    if ai is None: kw["ainfo"] = cs.alm_info(lmax)
    Ya = cs.alm2map(a, enmap.ndmap(np.zeros(m.shape), w), **kw)
    with c.keeps("alm2map_adjoint", m): YTm = cs.alm2map_adjoint(m, **kw) if c.flip() or der else cs.alm2map_adjoint(m, alm=np.zeros(pre+(nc,n), complex), **kw)
    c.ok(YTm.shape == a.shape, "adjoint alm shape %s, expected %s" % (YTm.shape, a.shape))
    sc = (dot(Ya,Ya)*dot(m,m))**0.5+1e-3*m.size; c.close(dot(Ya, m), dot_alm(a, real(YTm), lm, idx), "<Ya,m> = <a,Y'm>", rtol=1e-8, scale=sc)
    jz = mkalm(c, a.shape[:-1], lm, idx, n, np.complex128); j0 = jz.copy(); z2 = cs.alm2map_adjoint(m, alm=jz, copy=True, **kw); c.same(jz, j0, "copy=True leaves the alm argument alone"); c.close(z2[...,idx], YTm[...,idx], "adjoint with copy=True", rtol=1e-9)
    # analysis and its adjoint
    me = cs.get_method(s, w) if meth == "auto" else meth
    if der and me == "2d": return
    lsup = None
    if me == "2d":
        mi = cs.analyse_geometry(s, w)
        if lmax > mi.ducc_geo.lmax or mi.ducc_geo.nx < 2*lmax+1: return
    kw["niter"] = c.pick(0,0,1) if me != "2d" else 0; c.note(niter=kw["niter"])
    Am = cs.map2alm(m, **kw); b = real(mkalm(c, pre+(() if der else (nc,)), lm, idx, n, np.complex128)); b0 = b.copy()
    if me == "2d": b = zero_low(b, spin, nc, lm, idx)
    with c.keeps("map2alm_adjoint", b): ATb = cs.map2alm_adjoint(b, enmap.ndmap(arr(c, m.shape), w), **kw)
    J = enmap.ndmap(arr(c, m.shape), w); j0 = np.array(J); t2 = cs.map2alm_adjoint(b, J, copy=True, **kw); c.same(np.asarray(J), j0, "copy=True leaves the map argument alone"); c.close(np.asarray(t2), np.asarray(ATb), "analysis adjoint with copy=True", rtol=1e-9, scale=np.max(np.abs(ATb))+1e-30)
    Am = real(Am)
    if me == "2d": Am = zero_low(Am, spin, nc, lm, idx)
    sc = (dot_alm(b,b,lm,idx)*dot_alm(Am,Am,lm,idx))**0.5+(dot(ATb,ATb)*dot(m,m))**0.5
    c.close(dot_alm(Am, b, lm, idx), dot(m, ATb), "<Am,b> = <m,A'b>", rtol=1e-8, scale=sc+1e-6)

def fix(a, lm, idx):
    a = np.array(a); sel = idx[lm[:,1] == 0]; a[...,sel] = a[...,sel].real; return a
def zero_low(a, spin, nc, lm, idx):
    a = a.copy()
    for v, i, j in groups(spin, nc): a[...,i:j,idx[lm[:,0] < v]] = 0
    return a

def healpix(c):
    import healpy
    spin, nc = spins(c); ai, lm, idx, n, lmax = layout(c, c.int(3,5)); nside = c.pick(1,2,3,4); npix = 12*nside**2; th, ph = healpy.pix2ang(nside, np.arange(npix)); P = np.array([np.pi/2-th, ph]); ni = c.pick(0,0,1,3); der = c.flip(0.2); dt = c.pick(np.float64, np.float64, np.float32)
    if der: nc = 2
    c.note(spin=spin, nc=nc, nside=nside, niter=ni, deriv=der, dtype=np.dtype(dt).name); m = arr(c, (nc,npix), dt); kw = dict(spin=spin, niter=ni, deriv=der)
    kw.update(dict(lmax=lmax) if ai is None else dict(ainfo=ai)); W = 4*np.pi/npix
    if c.flip(0.3): W = c.uni(0.5,1.5,npix)*4*np.pi/npix; kw["weights"] = W.astype(dt)
    tol = 1e-8 if dt == np.float64 else 1e-4
    with c.keeps("map2alm_healpix", m): r = cs.map2alm_healpix(m, **kw)
    M = m.astype(np.float64)
    if c.flip(0.25) and not der:
        t1, t2 = np.sort(c.uni(0, np.pi, 2)); t1, t2 = c.pick((t1,t2), (None,t2), (t1,None)); ok = (th >= (t1 if t1 is not None else 0)) & (th <= (t2 if t2 is not None else np.pi))
        if ok.any(): k2 = dict(kw, niter=0); c.close(cs.map2alm_healpix(m, theta_min=t1, theta_max=t2, **k2)[...,idx], cs.map2alm_healpix(m*ok, **k2)[...,idx], "analysis of a band of colatitudes", rtol=tol)
    if der:
        Y, YT = sph.ymat(lm, 1, P, deriv=True); want = jac(Y, lambda x: YT(x*W), M, ni); c.ok(r.shape == (n,), "derivative alm shape %s" % (r.shape,)); c.close(r[idx], want[0], "healpix derivative analysis", rtol=max(tol,1e-5), scale=np.max(np.abs(want))+10)
    else:
        for v, i, j in groups(spin, nc):
            Y, YT = sph.ymat(lm, v, P); want = jac(Y, lambda x: YT(x*W), M[i:j], ni); c.close(r[i:j][:,idx], want, "healpix analysis", rtol=tol, scale=np.max(np.abs(want))+1)
    if dt != np.float64: return
    real = lambda a: fix(a, lm, idx); a = real(mkalm(c, () if der else (nc,), lm, idx, n, np.complex128)); ai = ai or cs.alm_info(lmax)
    with c.keeps("adjoint", a): t = cs.map2alm_healpix(np.zeros((nc,npix)), alm=a, ainfo=ai, spin=spin, niter=ni, deriv=der, adjoint=True, weights=kw.get("weights"), copy=c.flip())
    c.close(dot_alm(real(r), a, lm, idx), dot(m, t), "<Am,b> = <m,A'b>", rtol=1e-8, scale=(dot_alm(a,a,lm,idx)*dot_alm(real(r),real(r),lm,idx))**0.5+(dot(t,t)*dot(m,m))**0.5)
    Ya = cs.alm2map_healpix(a, nside=nside, ainfo=ai, spin=spin, deriv=der); z = np.zeros_like(a)
    with c.keeps("alm2map_healpix adjoint", m): q = cs.alm2map_healpix(z, healmap=m, ainfo=ai, spin=spin, deriv=der, adjoint=True)
    c.close(dot(Ya, m), dot_alm(a, real(q), lm, idx), "<Ya,m> = <a,Y'm>", rtol=1e-8, scale=(dot(Ya,Ya)*dot(m,m))**0.5+1e-3)

def weights(c):
    s, w, name, lsup, kind, ny = skygeo(c, nymin=8)
    if name in ("MW","MWflip"):
        return c.raises(ValueError, lambda: cs.quad_weights(s, w), "quadrature weights of a layout that has none")
    q = cs.quad_weights(s, w); c.ok(q.shape == (s[0],), "one weight per row"); c.ok(np.all(q >= 0), "no negative weights")
    dec = ref_pix2sky(w, np.arange(s[0]), np.zeros(s[0]))[0]
    if kind == "full":
        c.close(np.sum(q)*s[1], 4*np.pi, "the weights integrate to the full sky", rtol=1e-9)
        from numpy.polynomial import legendre
        for l in range(1, lsup+1): # a sum over each ring, times the weight, integrates P_l to zero
            c.close(np.sum(q*legendre.legval(np.sin(dec), [0]*l+[1]))*s[1], 0, "P_%d integrates to zero" % l, atol=1e-9)
    else: # a band has the weights of the corresponding rows of the full sky
        nxf = int(round(360/abs(w.wcs.cdelt[0]))); sy = np.sign(w.wcs.cdelt[1]); o = {"CC":(0,0),"F1":(.5,.5),"MW":(.5,0),"MWflip":(0,.5),"DH":(0,1),"F2":(1,1)}[name]
        dy = abs(w.wcs.cdelt[1]); full = mkwcs("car", [0,0], [360./nxf, -dy], [1., 90/dy-o[0]+1]); fq = cs.quad_weights((ny,nxf), full); fdec = ref_pix2sky(full, np.arange(ny), np.zeros(ny))[0]
        if cs.analyse_geometry(s, w).ducc_geo.name != cs.analyse_geometry((ny,nxf), full).ducc_geo.name: return
        for i in range(s[0]):
            j = np.argmin(np.abs(fdec-dec[i])); c.close(q[i], fq[j], "weight of row %d" % i, rtol=1e-9)

def filtering(c):
    s, w, name, lsup, kind, ny = skygeo(c, kinds=("full",), nymin=10); lmax = min(lsup, 8)
    if lmax < 2: return
    lm = np.array([(l,m) for m in range(lmax+1) for l in range(m,lmax+1)]); idx = np.arange(len(lm)); pre = c.pick((), (2,)); a = mkalm(c, pre, lm, idx, len(lm), np.complex128); m = cs.alm2map(a, enmap.ndmap(np.zeros(pre+s), w), spin=0)
    f = c.rng.normal(size=lmax+1); form = c.pick("array","func","short"); c.note(form=form, pre=pre)
    F = f if form == "array" else (lambda l: f[np.asarray(l, int)]) if form == "func" else f[:max(1,lmax-1)]
    if form == "short": f = f.copy(); f[max(1,lmax-1):] = 0
    with c.keeps("filter", m): r = cs.filter(m, F, lmax=lmax)
    want = cs.alm2map(a*f[lm[:,0]], enmap.ndmap(np.zeros(pre+s), w), spin=0); c.close(np.asarray(r), np.asarray(want), "filtered map", rtol=1e-8, scale=np.max(np.abs(m))+1)

def profiles(c):
    from numpy.polynomial import legendre
    lmax = c.int(0, 40); pre = c.pick((), (2,), (2,3)); bl = c.rng.normal(size=pre+(lmax+1,)); r = c.uni(0, np.pi, c.int(1,30)); c.note(lmax=lmax, pre=pre)
    with c.keeps("harm2profile", bl, r): br = cs.harm2profile(bl, r)
    l = np.arange(lmax+1); want = np.moveaxis(legendre.legval(np.cos(r), np.moveaxis(bl*(2*l+1)/(4*np.pi), -1, 0)), -1, -1); c.close(br, want, "profile of a beam", rtol=1e-9, scale=np.max(np.abs(bl))*(lmax+1)**2)
    # and back, for a beam sampled finely on [0,pi]
    sig = c.uni(0.15, 0.5); n = c.int(150, 400); rr = np.linspace(0, np.pi, n); L = c.int(2, min(30, n//2-1)); amp = c.rng.normal(size=pre+(1,)); b = amp*np.exp(-0.5*np.arange(200)*(np.arange(200)+1)*sig**2); p = cs.harm2profile(b, rr)
    with c.keeps("profile2harm", p, rr): h = cs.profile2harm(p, rr, lmax=L)
    if c.flip(): kk = c.int(2, n//8); q = p.copy(); v = c.uni(-2,2); q[...,:kk+1] = v; c.close(cs.profile2harm(q[...,kk:], rr[kk:], lmax=L, left=v), cs.profile2harm(q, rr, lmax=L), "profile with a given value inside", rtol=1e-6)
    c.ok(h.shape == pre+(L+1,), "profile2harm shape"); c.close(h, b[...,:L+1], "beam recovered from its profile", rtol=1e-4, scale=np.max(np.abs(amp)))

def prof(c):
    name = c.pick("CC","F1","MW"); n = c.int(14, 30); L = cs.get_ducc_maxlmax(name, n); lb = min(L, 10); pre = c.pick((), (2,)); dirn = [c.uni(-np.pi,np.pi), c.uni(-1.4,1.4)]; nr = c.flip(0.3); c.note(name=name, n=n, dir=dirn, norot=nr, pre=pre)
    th = {"CC": np.arange(n)*np.pi/(n-1), "F1": (np.arange(n)+0.5)*np.pi/n, "MW": (np.arange(n)+0.5)*np.pi/(n-0.5)}[name]
    bl = c.rng.normal(size=pre+(lb+1,)); p = cs.harm2profile(bl, th)
    with c.keeps("prof2alm", p): a = cs.prof2alm(p, dir=dirn, spin=0, geometry=name, norot=nr)
    l = np.arange(L+1); want = np.zeros(pre+(L+1,)); want[...,:lb+1] = bl*((2*np.arange(lb+1)+1)/(4*np.pi))**0.5
    if nr: c.close(a, want+0j, "unrotated alm", rtol=1e-9, scale=np.max(np.abs(want))); return
    pos = rand_points(c, 12); v = cs.alm2map_pos(a[...,None,:], pos=pos, spin=0)[...,0,:]; d = angsep(pos[0], pos[1], dirn[1], dirn[0]); c.close(v, cs.harm2profile(bl, d), "profile around the direction", rtol=1e-7, scale=np.max(np.abs(p))+1)

def inverses(c):
    """iterative inverses of a linear map from an approximate one"""
    if c.flip(0.6):
        n, k = c.int(2,7), c.int(2,4); cx = c.flip(0.7); A = c.rng.standard_normal((k*3+n,n))+np.eye(k*3+n,n)*2; Wt = c.uni(0.5,2,k*3+n); x = arr(c, (2,n))+(1j*arr(c, (2,n)) if cx else 0); y = x@A.T
        f, b = lambda v: v@A.T, lambda v: np.ascontiguousarray((v*Wt)@A); c.note(n=n, complex=cx)
        noise = arr(c, y.shape)*c.pick(0, 0.5); want = np.linalg.solve((A.T*Wt)@A, ((y+noise)*Wt@A).T).T; before = (y+noise).copy(); yy = y+noise
        with c.keeps("minres_inverse", yy): r = cs.minres_inverse(f, b, yy, epsilon=1e-10)
        c.close(r, want, "minres_inverse finds the weighted least squares solution", rtol=1e-6)
        J = np.eye(n)+0.2*c.rng.uniform(-1,1,(n,n))/n; ni = c.int(0,4); f, b = lambda v: v@J.T, lambda v: v*1.0; y = x@J.T
        want = y.copy()
        for i in range(ni): want = want-(want@J.T-y)
        with c.keeps("jacobi_inverse", y): r = cs.jacobi_inverse(f, b, y, niter=ni)
        c.close(r, want, "jacobi_inverse with %d iterations" % ni, rtol=1e-12); return
    s, w, _ = fullsky(c, nymin=14, nymax=24); L = c.int(2,5); ai = cs.alm_info(L); a = c.rng.standard_normal(ai.nelem)+1j*c.rng.standard_normal(ai.nelem); a[:L+1] = a[:L+1].real; note_geo(c, s, w); m = cs.alm2map(a, enmap.zeros(s, w), spin=0)
    r = cs.minres_inverse(lambda q: cs.alm2map(q, enmap.zeros(s, w), ainfo=ai, spin=0), lambda q: cs.map2alm(q, ainfo=ai, spin=0), m, epsilon=1e-10); c.close(r, a, "minres_inverse recovers the coefficients", rtol=1e-6)

MONITORS = [("inverses", inverses, 40, 400), ("roundtrip", roundtrip, 300, 2500), ("analysis", analysis, 250, 1500), ("masked", masked, 60, 400), ("pos_adjoint", pos_adjoint, 100, 1000), ("adjoints", adjoints, 300, 2000), ("healpix", healpix, 150, 1000), ("weights", weights, 150, 1200), ("filtering", filtering, 80, 600), ("profiles", profiles, 100, 800), ("prof", prof, 80, 600)]

"""R01: random skies have the requested statistics and are reproducible; spectra keep their meaning in storage"""
import numpy as np, os
from pixell import enmap, utils, curvedsky, powspec
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["statistics are judged at 8 standard deviations of the sample, at fixed seeds", "scipy Legendre polynomials and numpy's reader of text tables are trusted"]}

def randcov(c, n, nl, corr=True):
    """Positive definite [n,n,nl], smooth in l"""
    x = np.arange(nl)
    A = np.zeros((n,n,nl))
    for i in range(n): A[i,i] = c.uni(0.5,3)*(1+x/c.uni(5,50))**c.uni(-1,1)
    if corr:
        for i in range(n):
            for j in range(i): A[i,j] = c.uni(-0.6,0.6)*np.minimum(A[i,i],A[j,j])
    return np.einsum("ijl,kjl->ikl", A, A)

def lm_of(lmax):
    m = np.concatenate([np.full(lmax+1-m, m) for m in range(lmax+1)])
    l = np.concatenate([np.arange(m, lmax+1) for m in range(lmax+1)])
    return l, m

def unitvar(c, x, msg, want=1.0, axis=None):
    """x should be independent zero-mean gaussians with the given variance"""
    x = np.asarray(x).reshape(-1); n = x.size
    if n < 200: return
    v = np.mean(x**2)/want; mu = np.mean(x)/want**0.5
    c.ok(abs(v-1) < 8*(2/n)**0.5, "%s: variance is %.4f times what it should be (%d numbers)" % (msg, v, n))
    c.ok(abs(mu) < 8/n**0.5, "%s: mean %.4f sigma (%d numbers)" % (msg, mu, n))

def uncorr(c, x, y, msg):
    x, y = np.asarray(x).reshape(-1), np.asarray(y).reshape(-1); n = x.size
    if n < 200: return
    r = np.sum(x*y)/np.sqrt(np.sum(x**2)*np.sum(y**2))
    c.ok(abs(r) < 8/n**0.5, "%s: correlation %.4f (%d numbers)" % (msg, r, n))

def spectra(c, n, nl):
    """A spectrum in one of the accepted forms, and the full [n,n,nl] meaning"""
    full = randcov(c, n, nl)
    if n == 1 and c.flip(0.6): return full[0,0], full, True
    form = c.pick("full","full","diag")
    if form == "full": return full, full, False
    order = [(i,i+d) for d in range(n) for i in range(n-d)]
    return np.array([full[i,j] for i, j in order]), full, False

def judge_alms(c, alms, full, lmax, msg):
    """alms [nsim,ncomp,nelem]"""
    l, m = lm_of(lmax); n = full.shape[0]
    P = np.zeros((n,n,lmax+1)); k = min(full.shape[-1], lmax+1); P[...,:k] = full[...,:k]
    out = l >= full.shape[-1]
    c.ok(np.all(alms[...,out] == 0), "%s: power beyond the end of the spectrum" % msg)
    c.ok(np.all(alms[...,m==0].imag == 0), "%s: m=0 coefficients must be real" % msg)
    g = l < full.shape[-1]
    L = np.linalg.cholesky(np.moveaxis(P[...,:k],-1,0))
    Li= np.linalg.inv(L)                       # [l,n,n]
    w = np.einsum("eij,sje->sie", Li[l[g]], alms[:,:,g].astype(complex))
    lg, mg = l[g], m[g]
    for i in range(n):
        unitvar(c, w[:,i,mg==0].real, "%s: component %d, m=0" % (msg, i))
        unitvar(c, w[:,i,mg>0].real, "%s: component %d, m>0 real part" % (msg, i), 0.5)
        unitvar(c, w[:,i,mg>0].imag, "%s: component %d, m>0 imaginary part" % (msg, i), 0.5)
        uncorr(c, w[:,i,mg>0].real, w[:,i,mg>0].imag, "%s: real and imaginary parts" % msg)
        for a in range(0, k, 4):
            s = (lg>=a)&(lg<a+4)&(mg>0)
            unitvar(c, np.concatenate([w[:,i,s].real, w[:,i,s].imag]), "%s: component %d, l=%d-%d" % (msg, i, a, a+3), 0.5)
        for a in range(1, k, 3):
            s = (mg>=a)&(mg<a+3)
            unitvar(c, np.concatenate([w[:,i,s].real, w[:,i,s].imag]), "%s: component %d, m=%d-%d" % (msg, i, a, a+2), 0.5)
        for j in range(i):
            uncorr(c, np.concatenate([w[:,i].real,w[:,i].imag]), np.concatenate([w[:,j].real,w[:,j].imag]), "%s: components %d and %d, cross spectrum wrong" % (msg, i, j))
    uncorr(c, w[:-1,:,mg>0].real, w[1:,:,mg>0].real, "%s: successive draws" % msg)
    # no number may be used twice within a draw
    if alms.dtype == np.complex128:
        x = np.concatenate([alms[0][:,g].real.reshape(-1), alms[0][:,l>=0][:,g][:,mg>0].imag.reshape(-1)])
        c.ok(len(np.unique(np.abs(x))) == len(x), "%s: the same random number was used twice" % msg)

def alm_stats(c):
    n = c.pick(1,1,2,3); nl = c.int(4, 20); lmax = c.pick(None, nl-1, c.int(2,nl-1), c.int(nl,nl+6))
    ps, full, scalar = spectra(c, n, nl); which = c.pick("rand_alm","rand_alm","rand_alm_healpy")
    dt = c.pick(np.complex128, np.complex128, np.complex64); seed = c.int(0, 2**31-1)
    L = nl-1 if lmax is None else lmax
    c.note(n=n, nl=nl, lmax=lmax, which=which, dtype=np.dtype(dt).name, ndim=ps.ndim)
    kw = {"dtype": dt}
    if which == "rand_alm" and c.flip(0.3): kw["ainfo"] = curvedsky.alm_info(L)
    elif lmax is not None: kw["lmax"] = lmax
    fn = getattr(curvedsky, which)
    with c.keeps("%s changed the spectrum" % which, ps):
        a = fn(ps, seed=seed, **kw)
    c.ok(a.shape == (() if scalar else (n,)) + ((L+1)*(L+2)//2,), "shape %s" % (a.shape,))
    c.ok(a.dtype == dt, "data type %s instead of %s" % (a.dtype, np.dtype(dt)))
    c.same(a, fn(ps, seed=seed, **kw), "the same seed must give the same coefficients")
    b = fn(ps, seed=seed+1, **kw); c.ok(not np.any((a == b) & (a != 0)), "another seed gives the same numbers")
    np.random.seed(seed % 2**32); d = [fn(ps, **kw) for i in range(2)]
    c.same(d[0], a, "seeding beforehand or through the argument must be the same"); c.ok(not np.any((d[1] == d[0]) & (a != 0)), "successive unseeded draws must differ")
    np.random.seed(seed % 2**31)
    alms = np.array([fn(ps, **kw) for i in range(c.pick(60,150))]).reshape((-1,n,a.shape[-1]))
    judge_alms(c, alms, full, L, which)
    if which == "rand_alm" and c.flip(0.3):
        a2, ai = curvedsky.rand_alm(ps, seed=seed, return_ainfo=True, **kw); c.same(a2, a, "return_ainfo"); c.ok(ai.lmax == L and ai.nelem == a.shape[-1], "returned layout")

def alm_nested(c):
    """Coefficients drawn to different lmax with the same seed agree where both exist"""
    n = c.pick(1,1,1,2,3); nl = c.int(6, 60); l1, l2 = sorted([c.int(2,nl-1), c.int(2,nl+3)]); seed = c.int(0,2**31-1)
    full = randcov(c, n, nl, corr=False); ps = full[0,0] if n == 1 and c.flip() else full
    c.note(n=n, l1=l1, l2=l2)
    a1 = np.atleast_2d(curvedsky.rand_alm(ps, lmax=l1, seed=seed)); a2 = np.atleast_2d(curvedsky.rand_alm(ps, lmax=l2, seed=seed))
    L1, M1 = lm_of(l1); idx = M1*(2*l2+1-M1)//2+L1
    c.close(a1[0], a2[0][idx], "low-resolution draw differs from the high-resolution one of the same seed", rtol=1e-12)
    if n > 1 and l1 != l2: c.close(a1[1:], a2[1:][:,idx], "later components of multi-component draws depend on lmax", rtol=1e-12)

def curved_map(c):
    n = c.pick(None, 1, 3); s, w, info = fullsky(c, nymin=24, nymax=32); L = c.int(4, 9)
    ps = randcov(c, n or 1, L+1); ps[...,:2] = 0; lmax = c.pick(None, L); dt = c.pick(np.float64, np.float32); seed = c.int(0,2**31-1)
    if n is None or n == 1 and c.flip(): ps = ps[0,0]
    shape = s if n is None else (n,)+s
    note_geo(c, s, w); c.note(n=n, L=L, dtype=np.dtype(dt).name)
    kw = dict(lmax=lmax, seed=seed, dtype=dt)
    m = curvedsky.rand_map(shape, w, ps, **kw); c.ok(m.shape == shape and m.dtype == dt and isinstance(m, enmap.ndmap), "shape, type")
    c.same(np.asarray(m), np.asarray(curvedsky.rand_map(shape, w, ps, **kw)), "same seed")
    tol = 1e-9 if dt == np.float64 else 1e-4
    if c.flip(0.4):
        # only multipoles up to lmax
        l2 = c.int(2, L-1); q = curvedsky.rand_map(shape, w, ps, **dict(kw, lmax=l2)); a = curvedsky.map2alm(q.astype(np.float64), lmax=L); ll = np.concatenate([np.arange(mm,L+1) for mm in range(L+1)]); c.ok(np.max(np.abs(a[...,ll > l2])) < 1e-3*np.max(np.abs(a)), "power above the requested lmax"); c.ok(np.all(np.max(np.abs(a[...,ll == l2]),-1) > 0), "no power at the requested lmax")
    # another map of the same seed shows the same sky
    y1, y2 = sorted([c.int(0,s[0]-2), c.int(0,s[0]-2)]); y2 += 2
    sub = m[...,y1:y2,:]
    m2 = curvedsky.rand_map(sub.shape, sub.wcs, ps, **kw); c.close(np.asarray(m2), np.asarray(sub), "a part of the sky with the same seed", rtol=tol*100, scale=np.max(np.abs(m)))
    if n == 3 and dt == np.float64:
        sp = c.pick(0, [0,2], [0,4]); a = curvedsky.map2alm(m, lmax=L)
        if sp == [0,4]: lo = np.concatenate([np.arange(mm,L+1) for mm in range(L+1)]) < 4; a[1:,lo] = 0
        c.close(np.asarray(curvedsky.rand_map(shape, w, ps, spin=sp, method=c.pick("auto","general"), **kw)), np.asarray(curvedsky.alm2map(a, enmap.zeros(shape, w), spin=sp)), "random map with spin %s" % (sp,), rtol=1e-5)
    if n == 3:
        k = randcov(c, 3, L+1); k[2] = 0; k[:,2] = 0; k[...,:2] = 0
        m3 = curvedsky.rand_map(shape, w, k, seed=seed); a = curvedsky.map2alm(m3, lmax=L)
        c.ok(np.max(np.abs(a[2])) < 1e-6*np.max(np.abs(a[1])), "a sky without B-modes has B-modes")
    np.random.seed(seed % 2**31); sims = []
    for i in range(60): sims.append(curvedsky.map2alm(curvedsky.rand_map(shape, w, ps, lmax=lmax, dtype=np.float64), lmax=L).reshape(n or 1,-1))
    sims = np.array(sims); full = utils.atleast_3d(ps); l, mm = lm_of(L); g = l >= 2
    Li = np.linalg.inv(np.linalg.cholesky(np.moveaxis(full[...,2:],-1,0)))
    x = np.einsum("eij,sje->sie", Li[l[g]-2], sims[:,:,g])
    for i in range(n or 1):
        unitvar(c, x[:,i,mm[g]==0].real, "map component %d, m=0" % i); unitvar(c, np.concatenate([x[:,i,mm[g]>0].real,x[:,i,mm[g]>0].imag]), "map component %d" % i, 0.5)
        for j in range(i): uncorr(c, np.concatenate([x[:,i].real,x[:,i].imag]), np.concatenate([x[:,j].real,x[:,j].imag]), "map components %d, %d" % (i,j))

def flat_map(c):
    s, w = patch(c, nmin=8, nmax=24, maxwidth=10); n = c.pick(None, None, 1, 2, 3); seed = c.int(0, 2**31-1)
    shape = s if n is None else (n,)+s; N = n or 1
    ell = enmap.modlmap(s, w); lmax = int(np.max(ell))+2; lmin = max(1., float(np.sort(np.unique(np.asarray(ell)))[1]))
    kind = c.pick("1d","1d","2d","2dpix"); scalar = N == 2 or c.flip(0.4)
    note_geo(c, s, w); c.note(n=n, kind=kind, scalar=scalar)
    # spectra that change slowly compared to the size of a fourier pixel, so that smoothing does not matter
    A = np.zeros((N,N)); 
    for i in range(N):
        A[i,i] = c.uni(0.5,2)
        for j in range(i): A[i,j] = c.uni(-0.5,0.5)
    C = A.dot(A.T); f = lambda l: (1+np.asarray(l)/(30*lmin))**c0
    c0 = c.pick(0., -0.5, 0.4)
    if kind == "1d":
        ps = C[:,:,None]*f(np.arange(lmax+1)); extra = c.pick(0,0,1,-1) if N > 1 else 0
        if n is None: arg = ps[0,0]
        elif N == 1 and c.flip(): arg = ps[0,0]
        elif extra > 0: arg = np.pad(ps,((0,1),(0,1),(0,0))); arg[-1,-1] = 5
        elif extra < 0: arg = ps[:-1,:-1]
        else: arg = ps
        kw = {}; want = C[:,:,None,None]*f(np.asarray(ell))
        if extra < 0: want[-1] = 0; want[:,-1] = 0
    else:
        ly, lx = np.asarray(enmap.lmap(s, w)); an = 1+0.8*np.abs(ly)/(np.abs(ly)+np.abs(lx)+1)
        want = C[:,:,None,None]*(f(np.asarray(ell))*an)
        arg = want.copy(); kw = {}
        if kind == "2dpix": arg = arg*(np.prod(s)/enmap.area(s, w)); kw = {"pixel_units": True}
    if scalar: kw["scalar"] = True
    if not scalar and N == 3 and s[0] % 2 == s[1] % 2 == 1: # other spins: the map is the transform with that spin of the modes the other draw has
        sp = c.pick([0,4], 0); x = enmap.rand_map((3,)+s, w, arg, seed=seed, spin=[0,2], **kw); ia = c.flip(); y = enmap.rand_map((3,)+s, w, arg, seed=seed, spin=sp, iau=ia, **kw); c.close(np.asarray(y), np.asarray(enmap.harm2map(enmap.map2harm(x), spin=sp, iau=ia)), "random map with spin %s" % (sp,), rtol=1e-6)
    if kind != "1d" and n is None: shape = (1,)+s
    with c.keeps("rand_map changed the spectrum", arg): m = enmap.rand_map(shape, w, arg, seed=seed, **kw)
    c.ok(m.shape == shape and isinstance(m, enmap.ndmap) and np.isrealobj(m), "shape %s" % (m.shape,))
    c.same(np.asarray(m), np.asarray(enmap.rand_map(shape, w, arg, seed=seed, **kw)), "same seed")
    np.random.seed(seed); c.same(np.asarray(m), np.asarray(enmap.rand_map(shape, w, arg, **kw)), "seeding beforehand")
    c.ok(not np.any((np.asarray(enmap.rand_map(shape, w, arg, **kw)) == np.asarray(m)) & (np.asarray(m) != 0)), "successive draws differ")
    nsim = 40; sims = np.array([np.asarray(enmap.rand_map(shape, w, arg, **kw)).reshape((N,)+s) for i in range(nsim)])
    F = np.fft.fft2(sims)/np.prod(s)**0.5*(enmap.area(s, w)/np.prod(s))**0.5
    if not scalar and N == 3:
        H = np.array([np.asarray(enmap.map2harm(enmap.ndmap(x, w), normalize=False)) for x in sims]); F = H/np.prod(s)**0.5*(enmap.area(s, w)/np.prod(s))**0.5
    good = np.ones(s, bool)                       # leave out modes that are their own mirror image
    if s[0] % 2 == 0: good[s[0]//2] = False
    if s[1] % 2 == 0: good[:,s[1]//2] = False
    if kind == "1d": good[0,0] = False            # smoothing over the lowest multipoles
    slack = 0.03 if kind == "1d" else 0
    for i in range(N):
        p = np.mean(np.abs(F[:,i])**2, 0); 
        if np.all(want[i,i] == 0): c.ok(np.max(p[good]) < 1e-20*np.max(np.abs(F))**2, "component without power is not zero"); continue
        r = (p/want[i,i])
        for name, sel in [("all modes", good), ("large scales", good & (np.asarray(ell) < np.median(np.asarray(ell)))), ("small scales", good & (np.asarray(ell) >= np.median(np.asarray(ell)))), ("lx=0", good & (np.arange(s[1])==0)), ("ly=0", good & (np.arange(s[0])==0)[:,None])]:
            k = np.sum(sel)*nsim/2            # independent complex numbers, mirror images excluded
            if k < 100: continue
            c.ok(abs(np.mean(r[sel])-1) < slack+8/k**0.5, "component %d, %s: power %.4f times the requested (%d samples)" % (i, name, np.mean(r[sel]), k))
        for j in range(i):
            x = np.real(F[:,i]*np.conj(F[:,j])); k = np.sum(good)*nsim/2
            nrm = np.sqrt(want[i,i]*want[j,j])
            if np.any(nrm[good] == 0): continue
            c.ok(abs(np.mean((np.mean(x,0)-want[i,j])[good]/nrm[good])) < slack+8*(1.5/k)**0.5, "components %d, %d: cross power" % (i, j))

def gauss(c):
    s, w = patch(c, nmin=10, nmax=30); pre = premul(c); dt = c.pick(None, np.float64, np.float32); note_geo(c, s, w); c.note(pre=pre, dtype=str(dt))
    np.random.seed(c.int(0,2**31-1)); st = np.random.get_state()
    m = enmap.rand_gauss(pre+s, w, dtype=dt); c.ok(m.shape == pre+s and m.dtype == (dt or np.float64) and isinstance(m, enmap.ndmap), "shape, type"); check_positions(c, skygrid(s, m.wcs), skygrid(s, w), "coordinates")
    unitvar(c, m, "rand_gauss"); uncorr(c, m[...,1:], m[...,:-1], "rand_gauss neighbours"); uncorr(c, m[...,1:,:], m[...,:-1,:], "rand_gauss neighbours")
    np.random.set_state(st); c.same(np.asarray(m), np.asarray(enmap.rand_gauss(pre+s, w, dtype=dt)), "reproducible")
    h = enmap.rand_gauss_harm(pre+s, w); c.ok(h.shape == pre+s and np.iscomplexobj(h), "rand_gauss_harm"); unitvar(c, h.real, "rand_gauss_harm real"); unitvar(c, h.imag, "rand_gauss_harm imag"); uncorr(c, h.real, h.imag, "rand_gauss_harm parts")

ORDERS = {"stable": "00 11 01 22 02 12 33 03 13 23", "diag": {1:"00",2:"00 11",3:"00 11 01",4:"00 11 22 01",5:"00 11 22 01 12",6:"00 11 22 01 12 02"}, "row": {1:"00",2:"00 11",3:"00 01 11",4:"00 01 11 22",5:"00 01 02 11 22",6:"00 01 02 11 12 22"}}
def order(scheme, n):
    t = " ".join(ORDERS["stable"].split()[:n]) if scheme == "stable" else ORDERS[scheme][n]
    return [[int(a[0]),int(a[1])] for a in t.split()]

def storage(c):
    n = c.int(1,3); rest = c.pick((),(4,),(2,3)); scheme = c.pick("stable","diag","row",None); sc = scheme or "diag"
    for k in range(1,7): c.ok([list(map(int,q)) for q in powspec.compressed_order(k, scheme)] == order(sc, k), "order of %d elements with scheme %s" % (k, sc))
    m = c.rng.standard_normal((n,n)+rest); m = m+np.swapaxes(m,0,1); ax = c.int(0, len(rest)); comb = c.flip(0.3); c.note(n=n, rest=rest, scheme=scheme, ax=ax, comb=comb)
    M = np.moveaxis(m, [0,1], [ax,ax+1]); neg = c.flip(0.3); axes = [ax-M.ndim,ax+1-M.ndim] if neg else [ax,ax+1]
    want = np.moveaxis(np.array([m[i,j]*(2 if comb and i != j else 1) for i, j in order(sc, n*(n+1)//2)]), 0, ax)
    kw = {"combined": True} if comb else {}
    with c.keeps("sym_compress", M): q = powspec.sym_compress(M, scheme=scheme, axes=axes, **kw)
    c.close(q, want, "sym_compress along axes %s" % axes, rtol=1e-14)
    with c.keeps("sym_expand", q): r = powspec.sym_expand(q, scheme=scheme, axis=ax-q.ndim if neg else ax, **kw)
    c.close(r, M, "sym_expand", rtol=1e-14)
    wh = [list(map(int,p)) for p in c.rng.permutation(np.array(order(sc, n*(n+1)//2)))]; q2 = powspec.sym_compress(M, which=wh, axes=axes); c.close(q2, np.moveaxis(np.array([m[i,j] for i, j in wh]), 0, ax), "sym_compress with a given order", rtol=1e-14); c.close(powspec.sym_expand(q2, which=wh, axis=ax), M, "sym_expand with a given order", rtol=1e-14)
    pa = np.abs(c.rng.standard_normal((2,7)))+1
    with c.keeps("scaling of spectra", pa): s1 = powspec.scale_spectrum(pa, 1); s2 = powspec.scale_camb_scalar_phi(pa, 1)
    L7 = np.arange(7.); w1 = pa*0; w1[...,1:] = pa[...,1:]*2*np.pi/(L7*(L7+1))[1:]; w2 = pa*0; w2[...,1:] = pa[...,1:]/(L7[1:]**4*2.726e6**2); c.close(s1, w1, "scale_spectrum", rtol=1e-13); c.close(s2, w2, "scale_camb_scalar_phi", rtol=1e-13, atol=0)
    if len(rest) == 0 or ax == 0:
        k = c.int(1, n*(n+1)//2); part = q[:k]; r = powspec.sym_expand(part, scheme=scheme, ncomp=n)
        o = order(sc, k); w = np.zeros((n,n)+rest)
        for v, (i,j) in zip(part, o): w[i,j] = w[j,i] = v
        if max(max(p) for p in o) < n: c.same(r, w, "sym_expand of a partial list")

def files(c):
    nl = c.int(3,40); n = c.int(1,3); f = os.path.join(c.tmpdir(), "ps.txt"); kind = c.pick("rw","rw","cols","camb","lens")
    l = np.arange(nl); c.note(nl=nl, n=n, kind=kind)
    fac = np.zeros(nl); fac[1:] = 2*np.pi/(l[1:]*(l[1:]+1.))
    if kind == "rw":
        ps = randcov(c, n, nl); ps[...,0] = 0; scale, inds, expand = c.flip(0.7), c.flip(0.7), c.pick("diag","diag","stable","row",None)
        spec = ps if expand else ps[0]
        with c.keeps("write_spectrum", spec): powspec.write_spectrum(f, spec, inds=inds, scale=scale, expand=expand)
        c.close(powspec.read_spectrum(f, inds=inds, scale=scale, expand=expand), spec, "spectrum read back", rtol=2e-7)
        d = np.atleast_2d(np.loadtxt(f).T)
        if inds: c.same(d[0], l, "index column"); d = d[1:]
        c.close(d[0][1:], (ps[0,0]/fac if scale else ps[0,0])[1:], "first column of the file", rtol=2e-7)
    else:
        ncol = {"cols":c.pick(1,3,4,6), "camb":6, "lens":7}[kind]; l0 = c.pick(0,1,2); l0 = min(l0, nl-2); T = c.rng.uniform(0.5,2,(nl-l0,ncol)); np.savetxt(f, np.concatenate([l[l0:,None],T],1), fmt="%.15g")
        D = np.zeros((ncol,nl)); D[:,l0:] = T.T
        if kind == "cols":
            r = powspec.read_spectrum(f, expand=None); c.close(r, D*fac, "columns times 2pi/l/(l+1)", rtol=1e-12)
            r = powspec.read_spectrum(f, expand=None, scale=False); c.close(r, D, "unscaled columns", rtol=1e-12)
            k = c.int(1, ncol); r = powspec.read_spectrum(f, ncol=k); c.close(r[0,0], D[0]*fac, "first column"); c.ok(r.shape[0] == r.shape[1] and r.shape[-1] == nl, "expanded shape")
            for v, (i,j) in zip(D[:k]*fac, order("diag",k)): c.close(r[i,j], v, "element %d,%d" % (i,j)); c.close(r[j,i], v, "element %d,%d" % (j,i))
        elif kind == "camb":
            a, b = powspec.read_camb_scalar(f); w = np.zeros((3,3,nl)); w[0,0], w[1,1] = D[0]*fac, D[1]*fac; w[0,1] = w[1,0] = D[2]*fac
            c.close(a, w, "cmb part of a camb scalar file"); ph = np.zeros(nl); ph[1:] = D[3][1:]/(l[1:].astype(float)**4*2.726e6**2); c.close(b, ph[None,None], "lensing part")
            a, b = powspec.read_camb_scalar(f, expand=None); c.close(a, D[:3]*fac, "cmb columns of a camb scalar file"); c.close(np.asarray(b), ph, "lensing column")
        else:
            a = powspec.read_camb_full_lens(f); w = np.zeros((4,4,nl)); f1 = fac; f2 = np.zeros(nl); f3 = np.zeros(nl); ll = l[1:]*(l[1:]+1.); f2[1:] = 2*np.pi/ll**2; f3[1:] = 2*np.pi/ll**1.5
            w[1,1], w[2,2], w[3,3] = D[0]*f1, D[1]*f1, D[2]*f1; w[1,2] = w[2,1] = D[3]*f1; w[0,0] = D[4]*f2; w[0,1] = w[1,0] = D[5]*f3; w[0,2] = w[2,0] = D[6]*f3
            c.close(a, w, "camb lens potential file", rtol=1e-12)
            c.close(powspec.read_camb_full_lens(f, scale=False, expand=False), D, "unscaled", rtol=1e-12)

def corr(c):
    from scipy.special import eval_legendre
    n = c.int(1,3); nl = c.int(2,30); ps = randcov(c, n, nl); th = c.uni(0, np.pi, c.pick((5,),(3,2),())); c.note(n=n, nl=nl, sh=th.shape)
    l = np.arange(nl); want = np.einsum("ijl,l...->ij...", ps*(2*l+1)/4/np.pi, eval_legendre(l.reshape((-1,)+(1,)*th.ndim), np.cos(th)))
    with c.keeps("spec2corr", ps, th): r = powspec.spec2corr(ps, th)
    c.close(r, want, "correlation function"); c.close(powspec.spec2corr(ps, np.cos(th), iscos=True), want, "correlation function of the cosine")
    s, w = patch(c, nmin=6, nmax=12); q = ps.copy(); q[0,0,-1] = np.nan
    with c.keeps("spec2flat_corr", q): enmap.spec2flat_corr(s, w, q)
    # a spectrum much narrower than the map's wavevector range and much wider than its resolution, near the equator
    res = c.uni(0.3,0.8)*utils.degree; s = (c.int(50,80), c.int(50,80)); s2, w = enmap.geometry(pos=[0,c.uni(-3,3)], res=res, shape=s, proj="car"); lc = c.uni(25,30)*utils.degree/res; t = np.arange(int(12*lc)); A = c.uni(0.5,2,(2,2)); A = A@A.T; cov = A[:,:,None]*np.exp(-0.5*(t/lc)**2); c.note(s=s, lc=lc)
    f = np.asarray(enmap.spec2flat_corr(s, w, cov)); ell = np.asarray(enmap.modlmap(s, w)); want = A[:,:,None,None]*np.exp(-0.5*(ell/lc)**2)*np.prod(s)/enmap.area(s, w); c.close(f, want, "spec2flat_corr", rtol=0, atol=0.06*np.max(np.abs(want)))

def big(c):
    """Coefficient arrays larger than what is drawn at a time"""
    lmax = c.int(255,420); ai = curvedsky.alm_info(lmax); dt = c.pick(np.complex128, np.complex64); nc = c.pick((), (1,), (2,)); seed = c.int(1,10**6); c.note(lmax=lmax, nc=nc)
    a = curvedsky.rand_alm_white(ai, pre=nc, dtype=dt, seed=seed, m_major=c.flip()); b = curvedsky.rand_alm_white(ai, pre=nc, dtype=dt, seed=seed, m_major=True); c.ok(a.dtype == dt and a.shape == nc+(ai.nelem,), "shape and type")
    x = np.ascontiguousarray(b).reshape(-1).view(np.zeros(1,dt).real.dtype).astype(float); c.same(b, curvedsky.rand_alm_white(ai, pre=nc, dtype=dt, seed=seed, m_major=True), "same seed")
    for i in range(0, len(x), 30000): unitvar(c, x[i:i+30000], "numbers from %d on" % i)
    c.ok(len(np.unique(x)) > 0.98*len(x), "%d of %d numbers repeated" % (len(x)-len(np.unique(x)), len(x)))
    ps = np.ones(lmax+1); y = curvedsky.rand_alm(ps, lmax=lmax, seed=seed); cl = ai.alm2cl(y); l = np.arange(lmax+1); c.ok(np.all(np.abs(cl-1)[5:] < 8*(2/(2*l+1))[5:]**0.5), "spectrum of a large realization: worst %g sigma" % np.max((np.abs(cl-1)/(2/(2*l+1))**0.5)[5:]))

MONITORS = [("alm_stats", alm_stats, 60, 700), ("alm_nested", alm_nested, 80, 1200), ("curved_map", curved_map, 24, 250), ("flat_map", flat_map, 80, 1200), ("gauss", gauss, 40, 400), ("storage", storage, 100, 2000), ("files", files, 60, 800), ("corr", corr, 30, 400), ("big", big, 6, 40)]

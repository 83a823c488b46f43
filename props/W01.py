"""W01: wavelet transforms lose nothing; flat and curved harmonic operations mean the same"""
import numpy as np
from pixell import enmap, utils, curvedsky, uharm, wavelets, multimap
from gen import *
import sph

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["filters are compared at the multipoles the map's own lmap reports (judged by F02)"]}

def flatpatch(c, nmin=8, nmax=48):
    s, w = patch(c, projs=("car","cea","tan","zea","car"), nmin=nmin, nmax=nmax, maxwidth=20, resmin=0.05, resmax=0.6)
    if proj_of(w) not in CYL: w = w.deepcopy(); w.wcs.crval = [w.wcs.crval[0], c.uni(-60,60)]; w.wcs.set() # pixel shapes are only meaningful away from the poles
    return s, w

def mkbasis(c, digital=True, lossy=True):
    k = c.pick("trim","trim","digital" if digital else "trim","butter" if lossy else "trim")
    step = c.pick(2, 2, 1.5, 3); shape = c.pick(7, 7, 5, 10)
    c.note(basis=k, step=step, shape=shape)
    if c.flip(0.3): b = {"trim": wavelets.ButterTrim, "digital": wavelets.DigitalButterTrim, "butter": wavelets.Butterworth}[k](lmin=20) if c.flip() else {"trim": wavelets.ButterTrim, "digital": wavelets.DigitalButterTrim, "butter": wavelets.Butterworth}[k](lmax=200); b = b.with_bounds(30, 100); c.ok(b.lmin == 30 and b.lmax == 100 and b.n > 0, "bounds of a basis")
    if k == "trim":    return wavelets.ButterTrim(step=step, shape=shape, trim=c.pick(1e-2, 1e-2, 1e-3)), 0.
    if k == "digital": return wavelets.DigitalButterTrim(step=step, shape=shape), 0.
    tol = c.pick(1e-3, 1e-4); return wavelets.Butterworth(step=step, shape=shape, tol=tol), 10*tol

def basis_unity(c):
    """The squared filters sum to one, every filter is between 0 and 1, and is negligible above its lmax"""
    b, loss = mkbasis(c); lmin = c.pick(1, 2, c.int(2,50), 100); lmax = int(lmin*c.uni(12,80)); b = b.with_bounds(lmin, lmax); c.note(lmin=lmin, lmax=lmax)
    c.ok(b.n >= 1 and len(b.lmaxs) == b.n and b.lmaxs[-1] == lmax and b.lmin == lmin and b.lmax == lmax, "number of levels and their bounds")
    l = np.arange(lmax) if c.flip() or isinstance(b, wavelets.DigitalButterTrim) else np.sort(c.uni(0, lmax*1.4, 300))
    keep = l.copy(); F = np.array([b(i, l) for i in range(b.n)]); c.same(l, keep, "multipoles left alone")
    c.ok(np.all(np.isfinite(F)), "filters finite"); c.ok(np.min(F) >= 0 and np.max(F) <= 1+1e-12, "filters between 0 and 1")
    c.close(np.sum(F**2,0), np.ones(len(l)), "squared filters must sum to one", rtol=1e-12)
    for i in range(b.n-1):
        hi = l > b.lmaxs[i]+1
        if np.any(hi): c.ok(np.max(F[i,hi]) <= (0 if loss == 0 else (3*loss)**0.5), "filter %d extends above its lmax" % i)
    # each level sits at higher multipoles than the one before
    if isinstance(l[0], np.integer) and not isinstance(b, wavelets.DigitalButterTrim):
        mids = [np.sum(F[i]**2*l)/max(np.sum(F[i]**2),1e-9) for i in range(b.n)]
        c.ok(all(x < y for x, y in zip(mids[:-1], mids[1:])), "levels in order of increasing multipole")

def needlets(c):
    n = c.int(1, 7); p = np.cumsum(c.rng.integers(1, 60, n)) + c.pick(-1, 0, 5); p = np.maximum(p, 0); p = np.unique(p); b = wavelets.CosineNeedlet(list(p) if c.flip() else p); c.note(peaks=[int(v) for v in p])
    l = np.arange(p[0], p[-1]+1); F = np.array([b(i, l) for i in range(b.n)])
    c.close(np.sum(F**2,0), np.ones(len(l)), "needlets must sum to one between the first and last peak", rtol=1e-12)
    c.same(np.asarray(b.lmins), np.concatenate([p[:1],p[:-1]]), "lower bounds of the needlets"); c.same(np.asarray(b.lmaxs), np.concatenate([p[1:],p[-1:]]), "upper bounds of the needlets")
    for i in range(b.n): c.ok(abs(b(i, np.array([p[i]]))[0]-1) < 1e-12, "needlet %d is not one at its peak" % i)
    for i in range(b.n):
        lo = p[max(i-1,0)]; hi = p[min(i+1,b.n-1)]; out = (l < lo)|(l > hi); c.ok(np.all(F[i,out] == 0), "needlet %d reaches beyond its neighbours' peaks" % i)
        for L in c.rng.integers(p[0], p[-1]+1, 5):
            want = 0.
            if L == p[i]: want = 1.
            elif i > 0 and p[i-1] <= L < p[i]: want = np.cos(np.pi/2*(p[i]-L)/(p[i]-p[i-1]))
            elif i < b.n-1 and p[i] <= L < p[i+1]: want = np.cos(np.pi/2*(L-p[i])/(p[i+1]-p[i]))
            c.ok(abs(F[i,L-p[0]]-want) < 1e-9, "needlet %d at l=%d" % (i, L))

def trig_at(m, y, x):
    """Trigonometric interpolation of a real map at (outer product) pixel positions y, x"""
    F = np.fft.fft2(m); ny, nx = m.shape[-2:]; fy, fx = np.fft.fftfreq(ny), np.fft.fftfreq(nx)
    return F, np.exp(2j*np.pi*np.outer(y, fy)), np.exp(2j*np.pi*np.outer(fx, x))

def flat_wave(c):
    s, w = flatpatch(c); pre = c.pick((),(),(2,),(3,),(2,2)); b, loss = mkbasis(c); dt = c.pick(np.float64, np.float64, np.float32)
    note_geo(c, s, w); c.note(pre=pre, dtype=np.dtype(dt).name)
    uht = uharm.UHT(s, w, mode="flat")
    try: wt = wavelets.WaveletTransform(uht, basis=b)
    except IndexError: return   # no room for a single level
    c.ok(tuple(wt.shape) == tuple(s) and wt.wcs is not None and tuple(wt.geometry[0]) == tuple(s), "geometry of the transform"); check_positions(c, skygrid(s, wt.wcs), skygrid(s, w), "geometry of the transform")
    m = enmap.ndmap(arr(c, pre+s, dt), w); eps = 1e-11 if dt == np.float64 else 2e-5
    with c.keeps("map2wave changed the map", m): wave = wt.map2wave(m)
    c.ok(wave.nmap == wt.nlevel == len(wt.geometries) and wave.pre == pre and wave.dtype == dt, "shape of the coefficients")
    with c.keeps("wave2map changed the coefficients", wave): r = wt.wave2map(wave)
    c.ok(r.shape == m.shape and r.dtype == dt, "shape and type of the result"); check_positions(c, skygrid(s, r.wcs), skygrid(s, w), "result")
    c.close(np.asarray(r), np.asarray(m), "transforming to wavelets and back", rtol=eps+loss, scale=np.max(np.abs(m))*(1+3*(loss>0)))
    # the coefficients are the filtered map, read off at the pixels of the wavelet map
    ell = np.asarray(enmap.modlmap(s, w)); i = c.int(0, wt.nlevel-1); F = np.asarray(wt.basis(i, ell)); norm = np.sqrt(np.sum(F**2)/enmap.area(s, w))
    sub = wave.maps[i]; pos = (np.arange(sub.shape[-2])+0.5)*s[0]/sub.shape[-2]-0.5, (np.arange(sub.shape[-1])+0.5)*s[1]/sub.shape[-1]-0.5
    comp = np.asarray(m).reshape((-1,)+s)[-1]; fm, ey, ex = trig_at(comp, *pos)
    if (loss == 0 or i == wt.nlevel-1) and norm > 0:
        want = np.real(ey.dot(fm*F).dot(ex))/np.prod(s)/norm
        # the highest frequency of even-sized maps has no unique direction
        amb = (s[0]%2 == 0 and np.max(F[s[0]//2]) > 0) or (s[1]%2 == 0 and np.max(F[:,s[1]//2]) > 0) if sub.shape[-2:] != s else False
        if not amb: c.close(np.asarray(sub).reshape((-1,)+sub.shape[-2:])[-1], want, "wavelet coefficients of level %d" % i, rtol=1e-9 if dt == np.float64 else 1e-4, scale=np.max(np.abs(want))+1e-3*np.max(np.abs(m))/norm)
    if proj_of(w) in CYL and c.flip():
        p = enmap.sky2pix(s, w, sub.posmap()) if False else None
        dec, ra = ref_pix2sky(w, pos[0][:,None], pos[1][None]); check_positions(c, np.asarray(sub.posmap()), np.array(np.broadcast_arrays(dec, ra)), "pixels of the wavelet map", tol=1e-7)
    # given outputs
    ow = multimap.zeros([(pre+tuple(g[0][-2:]), g[1]) for g in wt.geometries], dt); rw = wt.map2wave(m, owave=ow); c.same(np.asarray(ow), np.asarray(wave), "coefficients written to a given array")
    om = enmap.full(pre+s, w, 7., dt); rm = wt.wave2map(wave, omap=om); c.same(np.asarray(om), np.asarray(r), "map written to a given array")
    # how white noise variance carries over to the coefficients (approximate, best for the scales in the middle)
    if isinstance(b, (wavelets.Butterworth, wavelets.ButterTrim)) and pre == () and dt == np.float64 and loss <= 1e-2 and c.flip():
        vt = wt.get_variance_transform(); c.ok(vt.nlevel == wt.nlevel and all(tuple(x[0]) == tuple(y[0]) for x, y in zip(vt.geometries, wt.geometries)), "levels of the variance transform"); v0 = c.uni(0.5,3); vw = vt.map2wave(enmap.full(s, w, v0))
        for i, x in enumerate(vw.maps): c.close(np.asarray(x), np.full(x.shape, np.mean(x)), "variance of even noise at level %d" % i, rtol=1e-9); c.ok(1e-2 < np.mean(x)/v0 < 1e2, "variance of level %d is %g times that of the map" % (i, np.mean(x)/v0))
    # only some scales
    if wt.nlevel > 1:
        sel = sorted(set(c.rng.integers(0, wt.nlevel, c.int(1, wt.nlevel)).tolist())); fv = c.pick(None, 0, 3.5); pw = wt.map2wave(m, scales=sel, fill_value=fv)
        for i in range(wt.nlevel): c.same(np.asarray(pw.maps[i]), np.asarray(wave.maps[i]) if i in sel else np.full(wave.maps[i].shape, fv or 0, dt), "level %d with scales=%s fill_value=%s" % (i, sel, fv))
    # the components are independent, and the transform linear
    if pre == (3,): c.close(np.asarray(wt.map2wave(m[1])), np.asarray(wave[1]), "one component alone", rtol=eps)

def flat_wave_res(c):
    """Explicit resolutions of the wavelet maps"""
    s, w = flatpatch(c, nmin=16); b, _ = mkbasis(c, lossy=False); note_geo(c, s, w)
    uht = uharm.UHT(s, w, mode="flat"); m = enmap.ndmap(arr(c, s), w)
    res = np.max(np.abs(enmap.pixshape(s, w)))*0.5
    try: wt = wavelets.WaveletTransform(uht, basis=b, ores=res)
    except IndexError: return
    for sh, _ in wt.geometries: c.ok(tuple(sh[-2:]) == tuple(s), "full resolution asked for")
    c.close(np.asarray(wt.wave2map(wt.map2wave(m))), np.asarray(m), "there and back at full resolution", rtol=1e-11)

def curved_wave(c):
    s, w, info = fullsky(c, nymin=40, nymax=60, variants=("fejer1","cc"), flips=False, rowflip=False); L = c.int(12, min(24, (s[1]-1)//2)); n = None; note_geo(c, s, w); c.note(L=L, n=n)
    uht = uharm.UHT(s, w, mode="curved", lmax=L)
    kind = c.pick("trim","trim","needlet")
    if kind == "needlet": basis = wavelets.CosineNeedlet(np.array([0, c.int(3,5), c.int(7,10), L]))
    else: basis = wavelets.ButterTrim(step=c.pick(2,1.5), lmin=c.pick(None,1,2), lmax=c.pick(None, L))
    c.note(kind=kind)
    wt = wavelets.WaveletTransform(uht, basis=basis); ainfo = curvedsky.alm_info(L)
    n = c.pick(None, None, 1, 3); c.note(n=n); N = n or 1
    alm = c.rng.standard_normal((N,ainfo.nelem))+1j*c.rng.standard_normal((N,ainfo.nelem)); alm[:,:L+1] = alm[:,:L+1].real
    l, m_ = sph_lm(L)
    if wt.basis.lmax < L: alm[:,l > wt.basis.lmax] = 0
    if n == 3: alm[1:,l < 2] = 0
    m = curvedsky.alm2map(alm if n else alm[0], enmap.zeros(((n,) if n else ())+s, w), spin=[0,2])
    with c.keeps("curved map2wave", m): wave = wt.map2wave(m) if n is None else wt.map2wave(m)
    if n is not None:
        c.ok(wave.pre == (n,), "components of the coefficients")
        with c.keeps("curved wave2map", wave): r = wt.wave2map(wave)
        c.close(np.asarray(r), np.asarray(m), "curved-sky wavelets of several components and back", rtol=1e-6); c.close(np.asarray(wt.map2wave(m[0])), np.asarray(wave[0]), "first component alone", rtol=1e-6)
        i = c.int(0, wt.nlevel-1); F = wt.basis(i, np.arange(L+1)); W = F**2*(2*np.arange(L+1)+1)/4/np.pi; fa = alm*F[l]/np.sum(W)**0.5; want = curvedsky.alm2map(fa, enmap.zeros((n,)+wave.maps[i].shape[-2:], wave.maps[i].wcs), spin=[0,2]); c.close(np.asarray(wave.maps[i]), np.asarray(want), "filtered components", rtol=1e-6, scale=np.max(np.abs(want))+1e-9)
        pw = wt.map2wave(m, scales=[i], fill_value=2.5)
        for j in range(wt.nlevel): c.close(np.asarray(pw.maps[j]), np.asarray(wave.maps[j]) if j == i else np.full(wave.maps[j].shape, 2.5), "level %d with one scale, several components" % j, rtol=1e-12)
    if n is None:
        with c.keeps("curved wave2map", wave): r = wt.wave2map(wave)
        c.close(np.asarray(r), np.asarray(m), "curved-sky wavelets and back", rtol=1e-6)
        i = c.int(0, wt.nlevel-1); F = wt.basis(i, np.arange(L+1)); W = F**2*(2*np.arange(L+1)+1)/4/np.pi; norm = np.sum(W)**0.5
        al = alm[0]*F[l]/norm; sub = wave.maps[i]; k = 12; iy, ix = c.rng.integers(0, sub.shape[0], k), c.rng.integers(0, sub.shape[1], k)
        dec, ra = np.asarray(sub.pix2sky(np.array([iy,ix]))); want = direct_sum(al, l, m_, dec, ra)
        c.close(np.asarray(sub)[iy,ix], want, "coefficients of level %d" % i, rtol=1e-6, scale=np.max(np.abs(sub))+1e-9)
        sel = [i]; pw = wt.map2wave(m, scales=sel, fill_value=2.5)
        for j in range(wt.nlevel): c.close(np.asarray(pw.maps[j]), np.asarray(wave.maps[j]) if j == i else np.full(wave.maps[j].shape, 2.5), "level %d with one scale" % j, rtol=1e-12)
        fl = c.uni(0.1,1,L+1); fw = wt.map2wave(m, fl=fl); mf = curvedsky.alm2map(alm[0]*fl[l], enmap.zeros(s, w)); c.close(np.asarray(fw), np.asarray(wt.map2wave(mf)), "prefiltered coefficients", rtol=1e-6)

def sph_lm(L):
    m = np.concatenate([np.full(L+1-m, m) for m in range(L+1)]); l = np.concatenate([np.arange(m, L+1) for m in range(L+1)]); return l, m
def direct_sum(alm, l, m, dec, ra):
    from scipy.special import sph_harm_y
    Y = sph_harm_y(l[:,None], m[:,None], (np.pi/2-dec)[None], ra[None])
    return np.real(np.sum(alm[:,None]*Y*np.where(m == 0, 1, 2)[:,None], 0))

def haar(c):
    s, w = flatpatch(c, nmin=4); pre = c.pick((),(2,)); n = c.int(1, 4); ref = c.pick([0,0], None, [0.1,-0.2]); note_geo(c, s, w); c.note(n=n, pre=pre, ref=str(ref))
    h = wavelets.HaarTransform(n) if c.flip(0.3) else wavelets.HaarTransform(n, ref=ref); m = enmap.ndmap(arr(c, pre+s), w)
    with c.keeps("haar", m): wv = h.map2wave(m)
    c.ok(wv.nmap == n+1, "number of levels")
    with c.keeps("haar back", wv): r = h.wave2map(wv)
    c.close(np.asarray(r), np.asarray(m), "haar there and back", rtol=1e-12); check_positions(c, skygrid(s, r.wcs), skygrid(s, w), "haar result", tol=1e-9)
    # sizes halve, and constant maps have no detail
    for i in range(n, 0, -1):
        a, b = wv.geometries[i].shape[-2:], wv.geometries[i-1].shape[-2:]; c.ok(all(x//2 <= y <= x//2+1 for x, y in zip(a, b)), "size of level %d" % (i-1))
    k = h.map2wave(m*0+3); c.close(np.asarray(k.maps[0]), np.full(k.maps[0].shape, 3.), "mean of a constant map")
    for i in range(1, n+1): c.ok(np.max(np.abs(np.asarray(k.maps[i]))) < 1e-12, "detail of a constant map")
    # details average to zero in each block they are the detail of
    d = np.asarray(wv.maps[n]).reshape((-1,)+s)[0]; off = [0,0] if h.ref is None else [int(v) for v in enmap.get_downgrade_offset(s, w, 2, h.ref)]
    y0 = off[0] % 2; x0 = off[1] % 2; blk = d[y0:y0+(s[0]-y0)//2*2, x0:x0+(s[1]-x0)//2*2]
    if blk.size: c.ok(np.max(np.abs(blk.reshape(blk.shape[0]//2,2,blk.shape[1]//2,2).mean((1,3)))) < 1e-12*max(1,np.max(np.abs(m))), "details must average to zero in each 2x2 block")

def uht_ops(c):
    """harmonic operations mean what they say in both modes"""
    mode = c.pick("flat","curved"); c.note(mode=mode)
    if mode == "flat": s, w = flatpatch(c, nmin=8, nmax=24); L = None
    else: s, w, _ = fullsky(c, nymin=24, nymax=30); L = c.int(4, 10)
    note_geo(c, s, w); uht = uharm.UHT(s, w, mode=mode, lmax=L); n = c.pick(None, 1, 3); spin = 0 if n is None else c.pick(0,[0,2]) if n == 3 else 0
    if n == 1: spin = 0
    sh = s if n is None else (n,)+s; N = n or 1
    c.ok(uht.mode == mode and uht.npix == s[0]*s[1], "mode and size"); c.close(uht.area, enmap.area(s, w), "area"); c.close(uht.fsky, enmap.area(s, w)/4/np.pi, "sky fraction")
    c.ok(mode == "flat" or uht.lmax == L and len(uht.l) == L+1, "multipole limit")
    if mode == "flat": m = enmap.ndmap(arr(c, sh), w)
    else:
        ai = curvedsky.alm_info(L); a0 = c.rng.standard_normal((N,ai.nelem))+1j*c.rng.standard_normal((N,ai.nelem)); a0[:,:L+1] = a0[:,:L+1].real
        if spin != 0: a0[1:,sph_lm(L)[0] < 2] = 0
        m = curvedsky.alm2map(a0 if n else a0[0], enmap.zeros(sh, w), spin=spin)
    with c.keeps("map2harm", m): h = uht.map2harm(m, spin=spin)
    c.close(np.asarray(uht.harm2map(h, spin=spin)), np.asarray(m), "map -> harm -> map", rtol=1e-7)
    # power and variance
    if n is None:
        ps = uht.harm2powspec(h)
        if mode == "flat": c.close(uht.sum_hprof(ps)/4/np.pi, np.mean(np.asarray(m)**2), "summed power is the variance of the map", rtol=1e-9)
        else:
            px = np.asarray(enmap.pixsizemap(s, w)); l, mm = sph_lm(L); tot = np.sum(np.abs(h)**2*np.where(mm == 0,1,2)); c.close(uht.sum_hprof(ps), tot, "summed power", rtol=1e-9)
        c.close(uht.mean_hprof(ps*0+2.), 2., "mean of a constant spectrum", rtol=1e-9)
        if mode == "curved" and c.flip(): c.close(np.asarray(uht.harm2powspec(h, patch=True)), np.asarray(ps)/(enmap.area(s, w)/4/np.pi), "spectrum per sky fraction", rtol=1e-9)
        h2 = uht.map2harm(m*2); c.close(np.asarray(uht.harm2powspec(h, h2)), 2*np.asarray(ps), "cross spectrum", rtol=1e-9)
    # profiles
    lp = c.uni(0.5, 2, max(2, (L if L else uht.lmax+1)+1+c.pick(0, 3, -2, -5))); hp = uht.lprof2hprof(lp)
    want = np.interp(np.asarray(uht.l), np.arange(len(lp)), lp, right=0); c.close(np.asarray(hp), want, "spectrum by multipole", rtol=1e-9, atol=0 if mode == "curved" else 1e-9)
    hh = uht.hprof2harm(hp)
    with c.keeps("hmul", hp, h): f = uht.hmul(hp, h)
    lw = want if mode == "flat" else want[sph_lm(L)[0]]
    c.close(np.asarray(f), np.asarray(h)*lw, "multiplying with a profile", rtol=1e-9); c.close(np.asarray(hh), lw, "hprof2harm", rtol=1e-9)
    if n == 3:
        if c.flip(): pm = c.uni(0.5,2,3); M = pm[(slice(None),)+(None,)*np.ndim(hp)]*np.asarray(hp); want3 = np.asarray(h)*lw*pm[(slice(None),)+(None,)*np.ndim(lw)]
        else: A = c.uni(-1,1,(3,3)); M = A[(slice(None),slice(None))+(None,)*np.ndim(hp)]*np.asarray(hp); want3 = np.einsum("ij,j...->i...", A, np.asarray(h)*lw)
        if mode == "flat": M = enmap.ndmap(M, w)
        c.close(np.asarray(uht.hmul(M, h)), want3, "multiplying with a %d-dimensional profile" % M.ndim, rtol=1e-9)
    g = h.copy(); q = uht.hmul(hp, g, inplace=True); c.close(np.asarray(g), np.asarray(f), "in-place multiplication", rtol=1e-12)
    # adjoints: <x, A y> = <A^T x, y>
    t = enmap.ndmap(arr(c, sh), w); A1 = uht.harm2map_adjoint(t, spin=spin); k = uht.map2harm(enmap.ndmap(arr(c, sh), w), spin=spin)
    ip = (lambda a, b: np.real(np.sum(np.conj(a)*b))) if mode == "flat" else (lambda a, b: np.real(np.sum(np.conj(a)*b*np.where(sph_lm(L)[1] == 0, 1, 2))))
    x, y = np.sum(np.asarray(t)*np.asarray(uht.harm2map(k, spin=spin))), ip(np.asarray(A1), np.asarray(k)); c.close(x, y, "harm2map_adjoint", rtol=1e-7, scale=np.sum(np.abs(np.asarray(t)*np.asarray(uht.harm2map(k, spin=spin)))))
    B1 = uht.map2harm_adjoint(k, spin=spin); x, y = ip(np.asarray(k), np.asarray(uht.map2harm(t, spin=spin))), np.sum(np.asarray(B1)*np.asarray(t)); c.close(x, y, "map2harm_adjoint", rtol=1e-7, scale=np.sum(np.abs(np.asarray(B1)*np.asarray(t))))
    if mode == "curved": c.close(np.asarray(uht.harm2map_adjoint(m*uht.quad_weights(), spin=spin)), np.asarray(h), "quadrature weights turn the adjoint into the analysis", rtol=1e-7)

def uht_rand(c):
    mode = c.pick("flat","curved"); c.note(mode=mode); n = c.pick(None, 2)
    if mode == "flat": s, w = flatpatch(c, nmin=8, nmax=20); L = None
    else: s, w, _ = fullsky(c, nymin=24, nymax=30); L = c.int(5, 10)
    note_geo(c, s, w); c.note(n=n); uht = uharm.UHT(s, w, mode=mode, lmax=L); l = np.asarray(uht.l); P = c.uni(0.5,3)*(1+l/(l.max()+1))**c.uni(-2,2); C = np.array([[1.]]) if n is None else np.array([[1.,0.5],[0.5,2.]])
    hp = P if n is None else C[(slice(None),slice(None))+(None,)*P.ndim]*P
    if mode == "flat": hp = enmap.ndmap(hp, w)
    np.random.seed(c.int(0,2**31-1)); nsim = 60; acc = 0
    with c.keeps("hrand", hp): h = uht.hrand(hp)
    back = 0
    for i in range(nsim):
        h = uht.hrand(hp); h3 = np.asarray(h).reshape((len(C),)+((-1,) if mode == "curved" else s)); 
        if mode == "flat": acc = acc + np.einsum("ayx,byx->abyx", h3, np.conj(h3)).real
        else: acc = acc + curvedsky.alm2cl(h3[:,None], h3[None])
        if mode == "flat": g = np.asarray(uht.map2harm(uht.harm2map(h))).reshape(h3.shape); back = max(back, np.max(np.abs(g-h3))/np.max(np.abs(h3)))
    acc = acc/nsim
    if mode == "flat": c.ok(back < 1e-9, "the coefficients must be those of a real map")
    wt = np.ones(s)/2 if mode == "flat" else (2*l+1)/2.
    for i in range(len(C)):
        for j in range(i+1):
            r = acc[i,j]/(P*np.sqrt(C[i,i]*C[j,j])); k = np.sum(wt)*nsim
            mean = np.sum(r*wt)/np.sum(wt); c.ok(abs(mean-C[i,j]/np.sqrt(C[i,i]*C[j,j])) < 8*(1.5/k)**0.5, "random coefficients %d,%d have %.4f times the requested power" % (i, j, mean))
            lo = l < np.median(l); k = np.sum(wt[lo])*nsim
            if k > 200: mean = np.sum((r*wt)[lo])/np.sum(wt[lo]); c.ok(abs(mean-C[i,j]/np.sqrt(C[i,i]*C[j,j])) < 8*(1.5/k)**0.5, "random coefficients %d,%d have %.4f times the requested power on large scales" % (i, j, mean))

def flatprof(c):
    """flat-sky harmonic transform of a radial profile: the gaussian's is known"""
    sig = c.uni(0.3,3)*1e-3; r = np.linspace(0, sig*c.uni(6,12), c.int(400,3000)); amp = c.uni(0.5,3); br = amp*np.exp(-0.5*(r/sig)**2); c.note(sigma=sig)
    bl = uharm.profile2harm_flat(br, r); l = np.arange(len(bl)); want = amp*2*np.pi*sig**2*np.exp(-0.5*l*(l+1)*sig**2); c.close(bl, want, "profile2harm_flat", rtol=0, atol=0.035*want[0]); c.ok(abs(bl[0]/want[0]-1) < 0.035, "integral of the profile")
    c.ok(abs(len(bl)-1-np.pi/(2*sig*(2*np.log(2))**0.5/3)) < 0.1*len(bl), "multipole range of profile2harm_flat")
    s, w = enmap.geometry(pos=c.uni(-0.05,0.05,2), res=sig*c.uni(0.3,0.7), shape=(c.int(40,70),c.int(40,70)), proj="car"); two = c.flip(); g = uharm.profile2harm_flat_2d(np.array([br,-2*br]) if two else br, r, s, w); ell = np.asarray(enmap.modlmap(s, w)); ref = amp*2*np.pi*sig**2*np.exp(-0.5*ell**2*sig**2)
    c.close(np.asarray(g[0] if two else g), ref, "profile2harm_flat_2d", rtol=0, atol=0.02*ref[0,0])
    if two: c.close(np.asarray(g[1]), -2*np.asarray(g[0]), "second profile", rtol=1e-9)

def smoothing(c):
    """Beam smoothing gives the same sky in flat and curved mode, and what the beam says"""
    n = c.int(40, 60); res = c.uni(0.1, 0.2); dec0 = c.uni(-0.5,0.5); s, w = enmap.geometry(pos=np.array([dec0, c.uni(-170,170)])*deg, shape=(n,n), res=res*deg, proj="car")
    fw = c.uni(4,7)*res*deg; sg = fw/np.sqrt(8*np.log(2)); note_geo(c, s, w); c.note(fwhm=fw/deg)
    r = np.linspace(0, 6*sg, 400); br = np.exp(-0.5*r**2/sg**2)/(2*np.pi*sg**2)
    uf = uharm.UHT(s, w, mode="flat"); uc = uharm.UHT(s, w, mode="curved"); ua = uharm.UHT(s, w); c.ok(ua.mode == "flat", "small equatorial patches are flat"); c.ok(uharm.UHT(*enmap.fullsky_geometry(10*deg)).mode == "curved", "the full sky is curved")
    bf = uf.rprof2hprof(br, r); bc = uc.rprof2hprof(br, r)
    c.close(np.asarray(bf), np.exp(-0.5*np.asarray(uf.l)**2*sg**2), "flat beam transform", rtol=0.01); c.close(bc, np.exp(-0.5*uc.l*(uc.l+1)*sg**2), "curved beam transform", rtol=0.01)
    m = enmap.zeros(s, w); y, x = c.int(n//2-3,n//2+3), c.int(n//2-3,n//2+3); m[y,x] = 1; px = np.asarray(enmap.pixsizemap(s, w))[y,x]
    o = uf.harm2map(uf.hmul(bf, uf.map2harm(m))); pos = enmap.pix2sky(s, w, [y,x]); rr = np.asarray(enmap.modrmap(s, w, pos)); want = px*np.exp(-0.5*rr**2/sg**2)/(2*np.pi*sg**2)
    c.close(np.asarray(o), want, "a smoothed point in flat mode", rtol=0.02)
    oc = uc.harm2map(uc.hmul(bc, uc.map2harm(m))); c.close(np.asarray(oc), want, "a smoothed point in curved mode", rtol=0.03)
    q = np.linspace(0, 3*sg, 20); c.close(uf.hprof2rprof(bf, q)*1., np.exp(-0.5*q**2/sg**2)/(2*np.pi*sg**2), "flat profile from its transform", rtol=0.08)
    c.close(uc.hprof2rprof(bc, q), np.exp(-0.5*q**2/sg**2)/(2*np.pi*sg**2), "curved profile from its transform", rtol=0.03)
    pw, rad = uharm.harm2profile_flat_2d(bf+0j); c.ok(len(pw) == len(rad), "profile and radii"); c.close(pw[:6], np.exp(-0.5*np.asarray(rad[:6])**2/sg**2)/(2*np.pi*sg**2), "binned flat profile", rtol=0.1)
    # squaring a profile in real space
    b2f = np.asarray(uf.hprof_rpow(bf, 2)); b2c = uc.hprof_rpow(bc, 2); amp = 1/(4*np.pi*sg**2)
    c.close(b2f, amp*np.exp(-0.25*np.asarray(uf.l)**2*sg**2), "beam squared in real space, flat", rtol=0.03); c.close(b2c, amp*np.exp(-0.25*uc.l*(uc.l+1)*sg**2), "beam squared in real space, curved", rtol=0.03)

MONITORS = [("flatprof", flatprof, 20, 200), ("basis_unity", basis_unity, 60, 2000), ("needlets", needlets, 40, 800), ("flat_wave", flat_wave, 90, 2000), ("flat_wave_res", flat_wave_res, 20, 300), ("curved_wave", curved_wave, 24, 240), ("haar", haar, 50, 800), ("uht_ops", uht_ops, 60, 800), ("uht_rand", uht_rand, 24, 240), ("smoothing", smoothing, 16, 160)]

"""A01: operations on spherical harmonic coefficients act on the (l,m) they are meant for, in every layout."""
import numpy as np
from pixell import curvedsky as cs, cmisc, utils, enmap
from gen import *
import sph
from S01 import mkalm

INFO = {"level": "exploration", "threads": 3, "nproc": 4,
  "assumptions": ["reference: explicit loops over (l,m); rotations judged through the field values at rotated positions (explicit Wigner-d sums)"]}

def lay(c, lmax=None, lo=0, hi=24):
    """ainfo, lm, idx, nelem: triangular, rectangular and explicit layouts"""
    lmax = c.int(lo, hi) if lmax is None else lmax; mmax = c.pick(lmax, lmax, c.int(0,lmax)); k = c.pick("tri","tri","rect","own","default")
    lm = np.array([(l,m) for m in range(mmax+1) for l in range(m, lmax+1)])
    if k == "default": mmax = lmax; lm = np.array([(l,m) for m in range(mmax+1) for l in range(m, lmax+1)])
    if k in ("tri","default"): idx = lm[:,1]*(2*lmax+1-lm[:,1])//2+lm[:,0]; n = int(idx.max()+1); ai = cs.alm_info(lmax, mmax if k == "tri" else None, **({} if c.flip() else {"layout": c.pick("tri","triangular")}))
    elif k == "rect": idx = lm[:,1]*(lmax+1)+lm[:,0]; n = (mmax+1)*(lmax+1); ai = cs.alm_info(lmax, mmax, layout=c.pick("rect","rectangular"))
    else: # rows of m with gaps between them, in any order
        start = np.zeros(mmax+1, int); o = c.int(0,3)
        for m in c.rng.permutation(mmax+1): start[m] = o; o += lmax+1+c.int(0,3)
        idx = start[lm[:,1]]+lm[:,0]; n = int(start.max()+lmax+1); ai = cs.alm_info(lmax, mmax, layout=start)
    c.note(layout="%s %d %d" % (k, lmax, mmax)); c.ok(ai.nelem == n, "nelem %d, expected %d" % (ai.nelem, n)); c.ok(ai.lmax == lmax and ai.mmax == mmax, "lmax, mmax"); c.ok(ai.nl == lmax+1 and ai.nm == mmax+1, "nl, nm")
    return ai, lm, idx, n
def calm(c, pre, n, dt): return (c.rng.normal(size=pre+(n,))+1j*c.rng.normal(size=pre+(n,))).astype(dt)
def cdt(c): return c.pick(np.complex128, np.complex128, np.complex64)
def eps(dt): return 1e-12 if dt == np.complex128 else 1e-5

def layouts(c):
    ai, lm, idx, n = lay(c); c.same(ai.lm2ind(lm[:,0], lm[:,1]), idx, "lm2ind"); i = c.int(0,len(lm)-1); c.ok(int(ai.lm2ind(int(lm[i,0]), int(lm[i,1]))) == idx[i], "lm2ind of one element")
    L = c.int(0, 300); N = (L+1)*(L+2)//2; a = cs.alm_info(nalm=N); c.ok(a.lmax == L and a.mmax == L and a.nelem == N, "layout inferred from the number of elements"); c.ok(cs.nalm2lmax(N) == L, "nalm2lmax")
    a = cs.alm_info(nalm=(L+1)**2, layout="rect"); c.ok(a.lmax == L and a.mmax == L, "rectangular layout inferred"); mm = c.int(0, L); N2 = sum(L+1-m for m in range(mm+1)); a = cs.alm_info(L, mm, nalm=N2); c.ok(a.nelem == N2, "lmax, mmax and nalm")
    if N2 > 0 : c.raises(AssertionError, lambda: cs.alm_info(L, mm, nalm=N2+1), "inconsistent nalm")

def transpose(c):
    ai, lm, idx, n = lay(c); dt = cdt(c); pre = c.pick((), (2,), (2,3)); a = calm(c, pre, n, dt); c.note(dtype=np.dtype(dt).name, pre=pre)
    order = sorted(range(len(lm)), key=lambda i: (lm[i,0], lm[i,1])) # l-major order of the same elements
    want = np.zeros_like(a); want[...,idx[order]] = a[...,idx]
    if c.flip():
        with c.keeps("transpose_alm", a): r = ai.transpose_alm(a)
    elif c.flip():
        o = calm(c, pre, n, dt); r = ai.transpose_alm(a, out=o); c.ok(r is o, "out is returned")
    else: b = a.copy(); r = ai.transpose_alm(b, out=b); c.ok(r is b, "in place")
    c.same(r[...,idx], want[...,idx], "l-major to m-major")

def cl_ref(a, b, lm, idx, lmax):
    a, b = np.broadcast_arrays(a, b); out = np.zeros(a.shape[:-1]+(lmax+1,)); p = (a[...,idx].astype(np.complex128)*b[...,idx].astype(np.complex128).conj()).real
    p = np.where(lm[:,1] == 0, a[...,idx].real.astype(float)*b[...,idx].real, 2*p)
    for l in range(lmax+1): out[...,l] = p[...,lm[:,0] == l].sum(-1)/(2*l+1)
    return out
def spectra(c):
    ai, lm, idx, n = lay(c, hi=40); dt = cdt(c); L = ai.lmax; k = c.pick("auto","cross","teb","teb2","pre","bcast"); c.note(kind=k, dtype=np.dtype(dt).name); T = eps(dt)*(L+1)
    if k == "auto": a, b = calm(c, c.pick((),(3,)), n, dt), None
    elif k == "cross": p = c.pick((),(2,),(2,2)); a, b = calm(c, p, n, dt), calm(c, p, n, dt)
    elif k == "teb": t = calm(c, (3,), n, dt); a, b = t[:,None], t[None]
    elif k == "teb2": a, b = calm(c, (3,), n, dt)[:,None], calm(c, (3,), n, dt)[None]
    elif k == "pre": t = calm(c, (2,3), n, dt); a, b = t[:,:,None], t[:,None]
    else: a, b = calm(c, (2,1,3), n, dt), calm(c, (4,1), n, dt)
    if b is not None and c.flip(0.15): b = b.astype(np.complex64 if dt == np.complex128 else np.complex128); T = 1e-5*(L+1)
    if c.flip(0.1): a = np.asfortranarray(a)
    with c.keeps("alm2cl", a, *([] if b is None else [b])): r = ai.alm2cl(a, b) if c.flip() else cs.alm2cl(a, b, ainfo=ai)
    want = cl_ref(a, a if b is None else b, lm, idx, L); c.ok(r.shape == want.shape, "shape of cl %s" % (r.shape,)); c.ok(r.dtype == np.zeros(1, np.result_type(a, a if b is None else b)).real.dtype, "dtype of cl"); c.close(r, want, "power spectrum", rtol=T, scale=np.max(np.abs(a))**2*4)
    N = (L+1)*(L+2)//2
    if n == N and ai.mmax == L and np.array_equal(idx, cs.alm_info(L).lm2ind(lm[:,0],lm[:,1])): c.close(cs.alm2cl(a, b), want, "inferred layout", rtol=T, scale=np.max(np.abs(a))**2*4)

def lmul(c):
    ai, lm, idx, n = lay(c); dt = cdt(c); rt = np.zeros(1,dt).real.dtype; L = ai.lmax; nl = c.pick(L+1, L+1, c.int(1,L+1), L+1+c.int(1,5)); k = c.pick("scalar","pre","diag","mat","rect-mat","func","bcast"); c.note(kind=k, nl=nl, dtype=np.dtype(dt).name)
    l = lm[:,0]; take = lambda f: np.where(l < nl, f[...,np.minimum(l,nl-1)], 0)
    if k in ("mat","rect-mat"):
        M = c.int(1,4); N = M if k == "mat" else c.int(1,4); a = calm(c, (M,), n, dt); f = c.rng.normal(size=(N,M,nl)).astype(rt); want = np.einsum("abi,bi->ai", take(f).astype(float), a[:,idx].astype(np.complex128))
    elif k == "func":
        a = calm(c, c.pick((),(2,)), n, dt); e = c.uni(0,2); f = lambda q: 1/(1+q)**e; want = a[...,idx]*(1/(1.+l)**e)
    else:
        pa, pf = {"scalar":((),()), "pre":((2,3),()), "diag":((3,),(3,)), "bcast":((2,1),(3,))}[k]; a = calm(c, pa, n, dt); f = c.rng.normal(size=pf+(nl,)).astype(c.pick(rt, np.float64)); want = a[...,idx]*take(f)
    fun = (lambda a, f, **kw: cs.almxfl(a, f, ainfo=ai, **kw)) if k == "func" or c.flip() else (lambda a, f, **kw: ai.lmul(a, f, **kw)); mode = c.pick("new","out","inplace"); shape = want.shape[:-1]+(n,)
    if mode == "inplace" and shape != a.shape: mode = "new"
    if mode == "new":
        with c.keeps("lmul", a, *([] if callable(f) else [f])): r = fun(a, f)
    else: o = a.copy() if mode == "inplace" else calm(c, shape[:-1], n, dt); r = fun(o if mode == "inplace" else a, f, out=o); c.same(r, o, "the out argument is filled in"); c.note(mode=mode)
    c.ok(r.shape == shape and r.dtype == dt, "shape and dtype"); c.close(r[...,idx], want, "alm times function of l", rtol=eps(dt)*10, scale=np.max(np.abs(want))+1)

def transfer(c):
    a1, lm1, idx1, n1 = lay(c, hi=12); a2, lm2, idx2, n2 = lay(c, hi=12); dt = cdt(c); pre = c.pick((),(2,),(2,2)); a = calm(c, pre, n1, dt); d1 = {tuple(x): i for x, i in zip(lm1, idx1)}; k = c.pick("new","into","add"); o = calm(c, pre, n2, dt) if k != "new" else np.zeros(pre+(n2,), dt); o0 = o.copy(); c.note(kind=k)
    with c.keeps("transfer_alm", a): r = cs.transfer_alm(a1, a, a2) if k == "new" else cs.transfer_alm(a1, a, a2, oalm=o) if k == "into" else cs.transfer_alm(a1, a, a2, oalm=o, op=lambda x, y: x+y)
    if k != "new": c.ok(r is o, "oalm is returned")
    c.ok(r.shape == pre+(n2,) and r.dtype == dt, "shape and dtype"); touched = np.zeros(n2, bool)
    for x, i in zip(lm2, idx2):
        touched[i] = True
        j = d1.get(tuple(x)); want = o0[...,i] if j is None else a[...,j]+(o0[...,i] if k == "add" else 0); c.close(r[...,i], want, "coefficient %s" % x, rtol=1e-6 if dt == np.complex64 else 1e-14, scale=4)
    c.same(r[...,~touched], o0[...,~touched], "elements outside the layout are left alone")

def rz(a): return np.array([[np.cos(a),-np.sin(a),0],[np.sin(a),np.cos(a),0],[0,0,1]])
def ry(a): return np.array([[np.cos(a),0,np.sin(a)],[0,1,0],[-np.sin(a),0,np.cos(a)]])
def rotate(c):
    lmax = c.int(0, 6); lm = np.array([(l,m) for m in range(lmax+1) for l in range(m,lmax+1)]); idx = np.arange(len(lm)); pre = c.pick((), (2,), (2,2)); dt = cdt(c); ang = c.uni(-np.pi, np.pi, 3)*c.choice([np.ones(3), np.array([1,0,0]), np.array([0,1,0]), np.array([0,0,1])]); meth = c.pick("auto","ducc0","healpy"); c.note(lmax=lmax, method=meth, pre=pre, ang=ang.tolist(), dtype=np.dtype(dt).name)
    if meth == "healpy" and dt == np.complex64: return
    a = mkalm(c, pre, lm, idx, len(lm), dt); inp = c.flip(0.3)
    if inp: b = a.copy(); r = cs.rotate_alm(b, *ang, method=meth, inplace=True); c.ok(r is b, "in place")
    else:
        with c.keeps("rotate_alm", a): r = cs.rotate_alm(a, *ang, method=meth)
    R = rz(ang[2])@ry(ang[1])@rz(ang[0]); P = rand_points(c, 8); V = np.array([np.cos(P[0])*np.cos(P[1]), np.cos(P[0])*np.sin(P[1]), np.sin(P[0])]); V2 = R@V; P2 = np.array([np.arcsin(np.clip(V2[2],-1,1)), np.arctan2(V2[1],V2[0])])
    many = lambda q, p: np.array([sph.synth(x[None], lm, 0, *p)[0] for x in np.asarray(q).reshape(-1,len(lm))]); Y1 = many(a, P); Y2 = many(r, P2); c.close(Y2, Y1, "the rotated field at rotated positions", rtol=1e-6 if dt == np.complex128 else 1e-4, scale=np.max(np.abs(Y1))+1)
    c.close(cs.alm2cl(r), cs.alm2cl(a), "rotation preserves the spectrum", rtol=1e-8 if dt == np.complex128 else 1e-4, scale=np.max(np.abs(a))**2+1)
    back = cs.rotate_alm(r, *(-ang[::-1]), method=meth); c.close(back, a, "rotating back", rtol=1e-8 if dt == np.complex128 else 1e-4, scale=np.max(np.abs(a))+1)

def euler(c):
    from astropy.coordinates import SkyCoord
    import astropy.units as u
    lmax = 4; lm = np.array([(l,m) for m in range(lmax+1) for l in range(m,lmax+1)]); a = mkalm(c, (1,), lm, np.arange(len(lm)), len(lm), np.complex128); P = rand_points(c, 6); way = c.pick(("gal","equ"),("equ","gal")); fr = {"gal":"galactic","equ":"icrs"}
    q = SkyCoord(P[1]*u.rad, P[0]*u.rad, frame=fr[way[0]]).transform_to(fr[way[1]]).spherical; P2 = np.array([q.lat.rad, q.lon.rad]); r = cs.rotate_alm(a, *cs.euler_angs[way]); c.note(way="-".join(way))
    y = sph.synth(a, lm, 0, *P); c.close(sph.synth(r, lm, 0, *P2), y, "rotation between galactic and equatorial", rtol=1e-3, scale=np.max(np.abs(y))+1)

MONITORS = [("layouts", layouts, 300, 3000), ("transpose", transpose, 300, 3000), ("spectra", spectra, 500, 5000), ("lmul", lmul, 600, 6000), ("transfer", transfer, 250, 2500), ("rotate", rotate, 250, 2500), ("euler", euler, 40, 300)]

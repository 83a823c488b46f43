"""F01: discrete Fourier, cosine, sine and Chebyshev transforms equal their defining sums, and invert."""
import numpy as np
from pixell import fft
from gen import *

INFO = {"level": "exploration", "threads": 2, "nproc": 4,
  "assumptions": ["every transform is compared with the direct matrix sum of its definition"]}

def rt(dt): return 1e-10 if np.dtype(dt) in (np.float64, np.complex128, np.int64, np.int32) else 2e-4

def dftmat(n, sign): k = np.arange(n); return np.exp(sign*2j*np.pi*np.outer(k, k)/n)
def apply(M, a, ax): return np.moveaxis(np.tensordot(M, a, (1, ax)), 0, ax)

def shape_axes(c, maxd=3, nmin=1, nmax=9, naxmax=3):
    nd = c.int(1, maxd); shape = tuple(c.int(nmin, nmax) for _ in range(nd)); nax = c.int(1, min(nd, naxmax))
    axes = [int(v) for v in c.rng.permutation(nd)[:nax]]
    if c.flip(): axes = sorted(axes)
    axes = [a-nd if c.flip() else a for a in axes]
    return shape, axes

def layout(c, a):
    """possibly non-contiguous array with the same contents"""
    k = c.pick("plain","plain","fortran","strided","neg"); c.note(layout=k)
    if k == "fortran": return np.asfortranarray(a)
    if k == "strided":
        b = np.zeros(a.shape[:-1]+(2*a.shape[-1],), a.dtype); b[...,::2] = a; return b[...,::2]
    if k == "neg": return np.ascontiguousarray(a[...,::-1])[...,::-1]
    return a

def spec_axes(c, axes):
    if len(axes) == 1: return c.pick(axes[0], axes, tuple(axes))
    return c.pick(axes, tuple(axes), np.array(axes))

def c2c(c):
    shape, axes = shape_axes(c); dt = c.pick(np.complex128, np.complex64, np.float64, np.float32, np.int64); eng = c.pick("ducc","numpy","auto"); nt = c.pick(0,1,2)
    a = layout(c, arr(c, shape, dt) if np.dtype(dt).kind != "i" else c.rng.integers(-9, 9, shape)); c.note(shape=shape, axes=axes, dtype=np.dtype(dt).name, eng=eng)
    want = a.astype(np.complex128)
    for ax in axes: want = apply(dftmat(a.shape[ax], -1), want, ax)
    kw = {}
    if c.flip(0.4): kw["ft"] = np.full(shape, np.nan, np.result_type(np.result_type(dt, 0.0), 0j))
    with c.keeps("fft", a): f = fft.fft(a, axes=spec_axes(c, axes), engine=eng, nthread=nt, **kw)
    if "ft" in kw: c.same(kw["ft"], f, "result stored in the output array")
    c.close(f, want, "fft", rtol=rt(dt), scale=np.max(np.abs(want))+1)
    c.ok(f.dtype == np.result_type(np.result_type(dt, 0.0), 0j), "fft precision %s -> %s" % (np.dtype(dt), f.dtype))
    n = np.prod([shape[ax] for ax in axes])
    kw = {}
    if c.flip(0.4): kw["tod"] = np.full(shape, np.nan, f.dtype)
    norm = c.flip()
    with c.keeps("ifft", f): b = fft.ifft(f, axes=spec_axes(c, axes), engine=eng, nthread=nt, normalize=norm, **kw)
    c.close(b, a*(1 if norm else n), "ifft of fft", rtol=rt(dt), scale=(np.max(np.abs(a))+1)*(1 if norm else n))
    # direct definition of the inverse on independent data
    g = arr(c, shape, np.complex128); want = g
    for ax in axes: want = apply(dftmat(shape[ax], +1), want, ax)
    c.close(fft.ifft(g, axes=axes, engine=eng, nthread=nt), want, "ifft", rtol=1e-10, scale=np.max(np.abs(want))+1)

def r2c(c):
    shape, axes = shape_axes(c); dt = c.pick(np.float64, np.float32); eng = c.pick("ducc","numpy","auto")
    n = shape[axes[-1]]
    if n == 1: shape = tuple(3 if i == axes[-1] % len(shape) else s for i, s in enumerate(shape)); n = 3
    a = layout(c, arr(c, shape, dt)); c.note(shape=shape, axes=axes, dtype=np.dtype(dt).name, eng=eng)
    want = a.astype(np.complex128)
    for ax in axes: want = apply(dftmat(a.shape[ax], -1), want, ax)
    want = np.take(want, np.arange(n//2+1), axes[-1])
    kw = {"ft": np.full(want.shape, np.nan, np.result_type(dt, 0j))} if c.flip(0.4) else {}
    with c.keeps("rfft", a): f = fft.rfft(a, axes=spec_axes(c, axes), engine=eng, **kw)
    if kw: c.same(kw["ft"], f, "rfft stores its result in the output array")
    if len(axes) == 1 and axes[0] % len(shape) == len(shape)-1:
        ax0 = {} if c.flip() else {"axes": None}
        c.close(fft.rfft(a, engine=eng, **ax0), want, "rfft over the default axis", rtol=rt(dt), scale=np.max(np.abs(want))+1); c.close(fft.irfft(f.copy(), n=n, engine=eng, normalize=True, **ax0), a, "irfft over the default axis", rtol=rt(dt), scale=np.max(np.abs(a))+1)
    c.close(f, want, "rfft", rtol=rt(dt), scale=np.max(np.abs(want))+1); c.ok(f.dtype == np.result_type(dt, 0j), "rfft precision")
    norm = c.flip(); N = np.prod([shape[ax] for ax in axes])
    how = c.pick("n","tod") if n % 2 else c.pick("n","tod","auto")
    kw = {"n": dict(n=n), "tod": dict(tod=np.full(shape, np.nan, dt)), "auto": {}}[how]
    g = f.copy(); kt = kw.get("tod")
    b = fft.irfft(g, axes=spec_axes(c, axes), engine=eng, normalize=norm, **kw)
    c.close(b, a*(1 if norm else N), "irfft of rfft", rtol=rt(dt), scale=(np.max(np.abs(a))+1)*(1 if norm else N)); c.ok(b.dtype == dt, "irfft precision")
    if kt is not None: c.same(kt, b, "irfft stores its result in the output array")

def cos_mat(kind, n):
    k, j = np.arange(n)[:,None], np.arange(n)[None,:]
    if kind == "DCT-I":
        M = 2*np.cos(np.pi*j*k/(n-1)); M[:,0] = 1; M[:,-1] = (-1.)**np.arange(n); return M
    if kind == "DCT-II": return 2*np.cos(np.pi*(j+0.5)*k/n)
    if kind == "DCT-III":
        M = 2*np.cos(np.pi*j*(k+0.5)/n); M[:,0] = 1; return M
    if kind == "DCT-IV": return 2*np.cos(np.pi*(j+0.5)*(k+0.5)/n)
    if kind == "DST-I":  return 2*np.sin(np.pi*(j+1)*(k+1)/(n+1))
    if kind == "DST-II": return 2*np.sin(np.pi*(j+0.5)*(k+1)/n)
    if kind == "DST-III":
        M = 2*np.sin(np.pi*(j+1)*(k+0.5)/n); M[:,-1] = (-1.)**np.arange(n); return M
    if kind == "DST-IV": return 2*np.sin(np.pi*(j+0.5)*(k+0.5)/n)

def r2r(c):
    shape, axes = shape_axes(c, nmin=2); dt = c.pick(np.float64, np.float32)
    kind = c.pick("DCT-I","DCT-I","DCT-II","DCT-III","DCT-IV","DST-I","DST-II","DST-III","DST-IV")
    a = layout(c, arr(c, shape, dt)); c.note(shape=shape, axes=axes, kind=kind, dtype=np.dtype(dt).name)
    want = a.astype(np.float64)
    for ax in axes: want = apply(cos_mat(kind, shape[ax]), want, ax)
    kw = {} if c.flip() else {"dt": np.full(shape, np.nan, dt)}
    ty = kind if c.flip(0.8) else {"DCT-I":"FFTW_REDFT00","DCT-II":"FFTW_REDFT10","DCT-III":"FFTW_REDFT01","DCT-IV":"FFTW_REDFT11","DST-I":"FFTW_RODFT00","DST-II":"FFTW_RODFT10","DST-III":"FFTW_RODFT01","DST-IV":"FFTW_RODFT11"}[kind]
    with c.keeps("dct", a): f = fft.dct(a, axes=spec_axes(c, axes), type=ty, **kw)
    c.close(f, want, "dct type %s" % kind, rtol=rt(dt), scale=np.max(np.abs(want))+1); c.ok(f.dtype == dt, "dct precision")
    norm = c.flip(); d = {"DCT-I":-1,"DST-I":1}.get(kind, 0); N = np.prod([2*(shape[ax]+d) for ax in axes])
    with c.keeps("idct", f): b = fft.idct(f, axes=spec_axes(c, axes), type=ty, normalize=norm)
    c.close(b, a*(1 if norm else N), "idct of dct type %s" % kind, rtol=rt(dt), scale=(np.max(np.abs(a))+1)*(1 if norm else N))

def cheb(c):
    nd = c.int(1,3); shape = tuple(c.int(2,9) for _ in range(nd)); n = shape[-1]; co = arr(c, shape); c.note(shape=shape)
    x = np.cos(np.pi*np.arange(n)/(n-1)); T = np.array([np.cos(k*np.arccos(np.clip(x,-1,1))) for k in range(n)])
    vals = co @ T
    with c.keeps("chebt", vals): r = fft.chebt(vals)
    c.close(r, co, "chebyshev coefficients", rtol=1e-9, scale=np.max(np.abs(co))+1)
    with c.keeps("ichebt", co): r = fft.ichebt(co)
    c.close(r, vals, "inverse chebyshev", rtol=1e-9, scale=np.max(np.abs(vals))+1)
    c.close(fft.redft00(vals), apply(cos_mat("DCT-I", n), vals, -1), "redft00", rtol=1e-10, scale=np.max(np.abs(vals))*n)

def freqs(c):
    n = c.int(1,50); d = c.uni(0.1,3); c.note(n=n, d=d)
    k = np.arange(n); want = np.where(k < (n+1)//2, k, k-n)/(n*d)
    c.close(fft.fftfreq(n, d), want, "fftfreq", rtol=1e-12); c.close(fft.rfftfreq(n, d), np.arange(n//2+1)/(n*d), "rfftfreq", rtol=1e-12)
    c.close(fft.ind2freq(n, k, d), want if n % 2 else np.where(k == n//2, -0.5/d, want), "ind2freq", rtol=1e-12)
    c.close(fft.freq2ind(n, want, d), k, "freq2ind", rtol=1e-10, scale=n)
    i = np.arange(n//2+1); c.close(fft.int2rfreq(n, i, d), i/(n*d), "int2rfreq", rtol=1e-12); c.close(fft.rfreq2ind(n, i/(n*d), d), i, "rfreq2ind", rtol=1e-12)
    c.close(fft.int2rfreq(n, i), i/n, "int2rfreq with unit spacing", rtol=1e-12); c.close(fft.rfreq2ind(n, i/n), i, "rfreq2ind with unit spacing", rtol=1e-12); c.close(fft.ind2freq(n, k), fft.ind2freq(n, k, 1.0), "ind2freq with unit spacing", rtol=1e-12); c.close(fft.freq2ind(n, want*d), k, "freq2ind with unit spacing", rtol=1e-10, scale=n); c.close(fft.fftfreq(n), fft.fftfreq(n, 1.0), "fftfreq with unit spacing", rtol=1e-12); c.close(fft.rfftfreq(n), i/n, "rfftfreq with unit spacing", rtol=1e-12)

def shifts(c):
    shape, axes = shape_axes(c, nmin=2, nmax=9); cplx = c.flip(0.4); off = c.uni(-7,7,len(axes)); c.note(shape=shape, axes=axes, off=off, cplx=cplx)
    # band-limited signal
    nd = len(shape); fa = arr(c, shape, np.complex128)
    for ax, n in enumerate(shape):
        if n % 2 == 0: sl = [slice(None)]*nd; sl[ax] = n//2; fa[tuple(sl)] = 0
    a = np.fft.ifftn(fa)
    if not cplx: a = a.real
    F = np.fft.fftn(a); der = c.int(0, len(axes)-1) if c.flip(0.3) else None; ph = F
    for i, ax in enumerate(axes):
        k = np.fft.fftfreq(shape[ax]); sh = [1]*nd; sh[ax % nd] = shape[ax]
        p = np.exp(-2j*np.pi*k*off[i])*(-2j*np.pi*k if der == i else 1); ph = ph*p.reshape(sh)
    want = np.fft.ifftn(ph); want = want if cplx else want.real
    with c.keeps("shift", a): r = fft.shift(a, off if len(off) > 1 or c.flip() else off[0], axes=tuple(axes), deriv=der)
    c.close(r, want, "fractional shift", rtol=1e-10, scale=np.max(np.abs(a))*10)
    io = np.array([c.int(-9,9) for _ in axes]); c.close(fft.shift(a, io, axes=tuple(axes)), np.roll(a, io, tuple(axes)), "integer shift is a roll", rtol=1e-9, scale=np.max(np.abs(a)))
    if sorted(ax % nd for ax in axes) == list(range(nd-len(axes), nd)) and [ax % nd for ax in axes] == sorted(ax % nd for ax in axes):
        c.close(fft.shift(a, io), np.roll(a, io, tuple(axes)), "default axes", rtol=1e-9, scale=np.max(np.abs(a)))

def resamp(c):
    nd = c.int(1,3); shape = [c.int(2,9) for _ in range(nd)]; nax = c.int(1,nd); axes = tuple(int(v) for v in c.rng.permutation(nd)[:nax]); n = tuple(c.int(2,12) for _ in axes); cplx = c.flip(0.4)
    if c.flip(): axes = tuple(a-nd for a in axes)
    c.note(shape=shape, axes=axes, n=n, cplx=cplx)
    oshape = list(shape)
    for a, m in zip(axes, n): oshape[a] = m
    # separable sum of products of complex exponentials below both Nyquist frequencies along the resampled axes
    a, want = 0, 0
    for _ in range(4):
        f, g = np.ones([1]*nd, complex)*(c.rng.normal()+1j*c.rng.normal()), None; g = f
        for ax in range(nd):
            sh = [1]*nd; sh[ax] = -1
            if ax in [x % nd for x in axes]:
                m = oshape[ax]; kk = (min(shape[ax], m)-1)//2; k = c.int(-kk, kk); p = c.uni(0,6)
                f = f*np.exp(2j*np.pi*k*np.arange(shape[ax])/shape[ax]+1j*p).reshape(sh); g = g*np.exp(2j*np.pi*k*np.arange(m)/m+1j*p).reshape(sh)
            else: v = c.rng.normal(size=shape[ax]).reshape(sh); f, g = f*v, g*v
        a, want = a+f, want+g
    if not cplx: a, want = a.real, want.real
    with c.keeps("resample", a): r = fft.resample(a, n if len(n) > 1 else c.pick(n, n[0]), axes=axes)
    c.close(r, want, "fourier resampling", rtol=1e-10, scale=np.max(np.abs(a))*10)

def lens(c):
    n = c.int(6,3000); fac = c.pick(None, [2], [2,3], [2,3,5], [3,5]); d = c.pick("below","above"); c.note(n=n, fac=fac, d=d)
    f = fac or [2,3,5,7,11,13]
    def smooth(v):
        for p in f:
            while v % p == 0: v //= p
        return v == 1
    want = n
    while not smooth(want): want += 1 if d == "above" else -1
    c.ok(fft.fft_len(n, direction=d, factors=fac) == want, "fft_len(%d,%s,%s) = %s, expected %d" % (n, d, fac, fft.fft_len(n, direction=d, factors=fac), want))

MONITORS = [("c2c", c2c, 1500, 12000), ("r2c", r2c, 1000, 8000), ("r2r", r2r, 1000, 8000), ("cheb", cheb, 200, 1500), ("freqs", freqs, 200, 1000), ("shifts", shifts, 400, 3000), ("resamp", resamp, 400, 3000), ("lens", lens, 300, 3000)]

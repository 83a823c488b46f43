"""Non-uniform Fourier transforms and array interpolation"""
import numpy as np
from gen import arr, unique
from pixell import fft, utils, enmap

INFO = {"rule": "direct trigonometric sums; explicit nearest/linear/B-spline evaluation; inner-product identity",
  "assumptions": ["axes given in ascending order", "well-conditioned sample sets (jittered, oversampled grids) for the inverse transforms"]}

def freqs(n): return np.round(np.fft.fftfreq(n)*n)

def mats(inds, N, sign, per=None):
    per = per if per is not None else N
    x = np.asarray(inds, float).reshape(len(N), -1)
    return [np.exp(sign*2j*np.pi*freqs(n)[:,None]*xi[None]/p) for n, xi, p in zip(N, x, per)]

def direct(fa, inds, sign, per=None):
    """sum_k fa[k] exp(sign 2 pi i k.x/per), over the last len(inds) axes"""
    nd = len(inds); N = fa.shape[-nd:]; E = mats(inds, N, sign, per)
    r = np.asarray(fa, complex)
    r = np.einsum({1:"...a,ap->...p", 2:"...ab,ap,bp->...p", 3:"...abc,ap,bp,cp->...p"}[nd], r, *E)
    return r.reshape(fa.shape[:-nd]+inds.shape[1:])

def adj(a, inds, N, sign, per=None):
    nd = len(N); E = mats(inds, N, sign, per); pre = a.shape[:a.ndim-(inds.ndim-1)]
    return np.einsum({1:"...p,ap->...a", 2:"...p,ap,bp->...ab", 3:"...p,ap,bp,cp->...abc"}[nd], np.asarray(a, complex).reshape(pre+(-1,)), *E)

def setup(c, maxn=9):
    nd = c.pick(1,2,2,3); N = tuple(c.int(2, maxn if nd < 3 else 6) for i in range(nd)); pre = c.pick((), (), (2,), (3,), (2,2))
    post = c.pick((5,), (1,), (3,4), (17,)); inds = np.array([c.uni(-2*n, 3*n, post) for n in N])
    if c.flip(0.3): inds = np.round(inds)
    return nd, N, pre, post, inds

def place(a, nd, pre):
    """move the transformed axes in front of the leading ones"""
    return np.moveaxis(a, range(-nd,0), range(nd))

def uniform2non(c):
    nd, N, pre, post, inds = setup(c); cx = c.pick(np.complex128, np.complex128, np.complex64)
    fa = arr(c, pre+N, cx); sign = c.pick(1,-1); fwd = sign < 0; norm = c.flip()
    per = None if c.flip(0.7) else tuple(n+c.int(0,5) for n in N)
    c.note(N=N, pre=pre, post=post, dtype=str(np.dtype(cx)), fwd=fwd, norm=norm, per=per)
    want = direct(fa, inds, sign, per)/(np.prod(N) if norm else 1); sc = np.max(np.sum(np.abs(fa), axis=tuple(range(-nd,0))))/(np.prod(N) if norm else 1)
    tol = 1e-10 if cx == np.complex128 else 1e-4
    fa0, inds0 = fa.copy(), inds.copy(); kw = dict(periodicity=per, normalize=norm)
    c.close(fft.u2nu(fa, inds, forward=fwd, **kw), want, "u2nu", rtol=tol, scale=sc)
    c.close(fft.inufft(fa, inds, flip=fwd, **kw), want, "inufft", rtol=tol, scale=sc)
    c.close(fft.u2nu(fa, inds, forward=fwd, complex=False, **kw), want.real, "u2nu with real output", rtol=tol, scale=sc)
    out = np.full(pre+post, 9, cx); r = fft.u2nu(fa, inds, out=out, forward=fwd, **kw); c.close(out, want, "u2nu into an output array", rtol=tol, scale=sc); c.ok(r is out or np.shares_memory(r, out), "u2nu did not return the output array")
    if pre: c.close(fft.u2nu(place(fa, nd, pre), inds, axes=tuple(range(nd)), forward=fwd, **kw), want, "u2nu over leading axes", rtol=tol, scale=sc)
    for f in (np.asfortranarray(fa), fa[...,::-1][...,::-1]): c.close(fft.u2nu(f, inds, forward=fwd, **kw), want, "u2nu of a strided array", rtol=tol, scale=sc)
    ax = tuple(range(-nd,0)) if c.flip() else tuple(range(len(pre), len(pre)+nd))
    p = fft.u2nu_plan(fa, axes=ax, forward=fwd, **kw); c.close(p.eval(inds), want, "u2nu plan", rtol=tol, scale=sc)
    k = c.int(0, post[-1]-1); c.close(p.eval(inds[...,k:]), want[...,k:], "u2nu plan, second evaluation", rtol=tol, scale=sc); c.close(p.eval(inds), want, "u2nu plan, repeated evaluation", rtol=tol, scale=sc)
    if pre:
        p = fft.u2nu_plan(place(fa, nd, pre), axes=tuple(range(nd)), forward=fwd, complex=False, **kw); c.close(p.eval(inds), want.real, "u2nu plan over leading axes, real output", rtol=tol, scale=sc)
    c.same(fa, fa0, "u2nu changed its input"); c.same(inds, inds0, "u2nu changed its coordinates")

def non2uniform(c):
    nd, N, pre, post, inds = setup(c); real = c.flip()
    a = arr(c, pre+post, np.float64 if real else np.complex128); sign = c.pick(1,-1); norm = c.flip(); per = None if c.flip(0.7) else tuple(n+c.int(0,5) for n in N)
    c.note(N=N, pre=pre, post=post, real=real, sign=sign, norm=norm, per=per)
    want = adj(a, inds, N, sign, per)/(np.prod(N) if norm else 1); sc = np.sum(np.abs(a))/(np.prod(N) if norm else 1); a0 = a.copy(); kw = dict(periodicity=per, normalize=norm)
    c.close(fft.nu2u(a, inds, oshape=pre+N, forward=sign<0, **kw), want, "nu2u", rtol=1e-10, scale=sc)
    c.close(fft.nufft_adjoint(a, inds, oshape=pre+N, flip=sign>0, **kw), want, "nufft_adjoint", rtol=1e-10, scale=sc)
    out = np.full(pre+N, 7, complex); r = fft.nu2u(a, inds, out=out, forward=sign<0, **kw); c.close(out, want, "nu2u into an output array", rtol=1e-10, scale=sc)
    out = np.full(pre+N, 7.0); fft.nu2u(a, inds, out=out, forward=sign<0, **kw); c.close(out, want.real, "nu2u into a real output array", rtol=1e-10, scale=sc)
    # inner product identity with u2nu of the opposite sign
    if not norm:
        u = arr(c, pre+N, np.complex128)
        l = np.vdot(a.astype(complex), fft.u2nu(u, inds, forward=sign>0, periodicity=per)); rr = np.vdot(fft.nu2u(a, inds, oshape=pre+N, forward=sign<0, periodicity=per), u)
        c.close(l, rr, "nu2u is not the adjoint of u2nu", rtol=1e-9, scale=sc*np.sum(np.abs(u)))
    if pre:
        r = fft.nu2u(a, inds, oshape=N+pre, axes=tuple(range(nd)), forward=sign<0, **kw); c.close(r, place(want, nd, pre), "nu2u over leading axes", rtol=1e-10, scale=sc)
        r = fft.nufft_adjoint(a, inds, oshape=N+pre, axes=tuple(range(nd)), flip=sign>0, **kw); c.close(r, place(want, nd, pre), "nufft_adjoint over leading axes", rtol=1e-10, scale=sc)
    c.same(a, a0, "nu2u changed its input")

def inverse(c):
    nd = c.pick(1,2); N = tuple(c.int(3,7) for i in range(nd)); pre = c.pick((), (2,)); fwd = c.flip(); norm = c.flip()
    g = np.array(np.meshgrid(*[np.arange(2*n)/2 for n in N], indexing="ij")); g = g + c.uni(-0.1,0.1,g.shape)
    if c.flip(): g = g.reshape(nd, -1)
    sign = -1 if fwd else 1; fa = arr(c, pre+N, np.complex128); v = direct(fa, g, sign)/(np.prod(N) if norm else 1); c.note(N=N, pre=pre, fwd=fwd, norm=norm)
    r = fft.iu2nu(v, g, oshape=pre+N, forward=fwd, normalize=norm, epsilon=1e-12); c.close(r, fa, "iu2nu does not invert u2nu", rtol=1e-4)
    r = fft.nufft(v, g, oshape=pre+N, flip=fwd, normalize=norm, epsilon=1e-12); c.close(r, fa, "nufft does not invert inufft", rtol=1e-4)
    if pre: r = fft.iu2nu(v, g, oshape=N+pre, axes=tuple(range(nd)), forward=fwd, normalize=norm, epsilon=1e-12); c.close(r, place(fa, nd, pre), "iu2nu over leading axes", rtol=1e-4)
    # real samples of a real signal
    x = arr(c, pre+N, np.float64); f = np.fft.fftn(x, axes=tuple(range(-nd,0)))
    if all(n % 2 for n in N):
        v = direct(f, g, sign).real if not fwd else direct(f, g, sign)
        r = fft.iu2nu(v, g, oshape=pre+N, forward=fwd, epsilon=1e-12); c.close(r, f, "iu2nu of real samples", rtol=1e-4)
    # fewer samples than modes: inu2u undoes nu2u
    g = np.array(np.meshgrid(*[np.arange(0,n,2) for n in N], indexing="ij"))*1.0; g = g + c.uni(-0.1,0.1,g.shape)
    w = arr(c, pre+g.shape[1:], np.complex128); u = adj(w, g, N, sign)/(np.prod(N) if norm else 1)
    c.close(fft.inu2u(u, g, forward=fwd, normalize=norm, epsilon=1e-12), w, "inu2u does not invert nu2u", rtol=1e-4)
    c.close(fft.inufft_adjoint(u, g, flip=not fwd, normalize=norm, epsilon=1e-12), w, "inufft_adjoint does not invert nufft_adjoint", rtol=1e-4)
    u = adj(w.real, g, N, sign); r = fft.inufft_adjoint(u, g, flip=not fwd, epsilon=1e-12, complex=False); c.ok(not np.iscomplexobj(r), "inufft_adjoint(complex=False) is complex"); c.close(r, w.real, "real inufft_adjoint", rtol=1e-4)

def fourier_ip(c):
    """fourier interpolation of arrays: the trigonometric interpolant"""
    nd, N, pre, post, inds = setup(c); dt = c.pick(np.float64, np.float64, np.float32, np.complex128); a = arr(c, pre+N, dt)
    ax = tuple(range(-nd,0)); f = np.fft.fftn(a, axes=ax); want = direct(f, inds, 1)/np.prod(N)
    if dt != np.complex128: want = want.real
    sc = max(np.max(np.abs(want)), np.max(np.abs(a)))*3; tol = 1e-10 if dt != np.float32 else 1e-4; c.note(N=N, pre=pre, post=post, dtype=str(np.dtype(dt)))
    a0 = a.copy()
    c.close(utils.interpol(a, inds, mode=c.pick("fourier","fft","nufft")), want, "utils.interpol, fourier", rtol=tol, scale=sc)
    c.close(fft.interpol_nufft(a, inds, complex=dt==np.complex128), want, "interpol_nufft", rtol=tol, scale=sc)
    c.close(fft.interpol_nufft(a, inds, complex=dt==np.complex128, normalize=False), want*np.prod(N), "interpol_nufft without normalization", rtol=tol, scale=sc*np.prod(N))
    c.close(fft.interpol_nufft(f, inds, complex=dt==np.complex128, nofft=True), want, "interpol_nufft of coefficients", rtol=tol, scale=sc)
    for pc in ("plan","fft","none"):
        ip = utils.FourierInterpolator(a, npre=len(pre), precompute=pc); c.close(ip(inds), want, "fourier interpolator (%s)" % pc, rtol=tol, scale=sc)
        k = c.int(0, post[-1]-1); c.close(ip(inds[...,k:]), want[...,k:], "fourier interpolator (%s), second call" % pc, rtol=tol, scale=sc)
    ip = utils.interpolator(a, len(pre), mode="fourier"); out = np.zeros(pre+post, a.dtype); c.close(utils.interpol(a, inds, ip=ip, out=out), want, "prepared interpolator", rtol=tol, scale=sc); c.close(out, want, "output array", rtol=tol, scale=sc)
    # on samples, periodically
    pix = np.array([c.int(-n, 2*n) for n in N]); v = np.asarray(utils.interpol(a, pix[:,None]*1.0, mode="fourier"))[...,0]
    c.close(v, a[(Ellipsis,)+tuple(p % n for p, n in zip(pix, N))], "value on a sample", rtol=tol, scale=sc)
    c.same(a, a0, "fourier interpolation changed its input")

def bspline(x, order):
    from scipy.interpolate import BSpline
    return np.nan_to_num(BSpline.basis_element(np.arange(order+2)-(order+1)/2.0, extrapolate=False)(x))

def spline_ip(c):
    """utils.interpol with polynomial modes: nearest, linear, cubic; borders; samples reproduced; separable"""
    nd = c.pick(1,2,2,3); N = tuple(c.int(4,10) for i in range(nd)); pre = c.pick((), (), (2,), (2,3)); dt = c.pick(np.float64, np.float64, np.float32)
    post = c.pick((6,), (2,5), (1,)); a = arr(c, pre+N, dt)
    mode, order = c.pick(("nn",0),("lin",1),("cub",3),("nearest",0),("linear",1),("cubic",3),("spline",0),("spline",1),("spline",3),("spline",2),("spline",4))
    border = c.pick("nearest","wrap","mirror","constant"); cval = c.uni(-2,2); where = c.pick("in","in","samples","out")
    if where == "in": inds = np.array([c.uni(0, n-1, post) for n in N])
    elif where == "samples": inds = np.array([c.rng.integers(0, n, post) for n in N]).astype(float)
    else: inds = np.array([c.uni(-1.8*n, 2.8*n, post) for n in N])
    if order == 0: inds = np.where(np.abs(inds-np.floor(inds)-0.5) < 1e-3, inds+0.01, inds)
    c.note(N=N, pre=pre, post=post, dtype=str(np.dtype(dt)), mode=mode, order=order, border=border, where=where); tol = 1e-9 if dt == np.float64 else 1e-4
    a0, i0 = a.copy(), inds.copy(); kw = dict(mode=mode, order=order if mode == "spline" else 3, border=border, cval=cval)
    r = utils.interpol(a, inds, **kw); c.ok(np.asarray(r).shape == pre+post and r.dtype == a.dtype, "shape %s dtype %s" % (r.shape, r.dtype))
    c.same(a, a0, "interpol changed its input"); c.same(inds, i0, "interpol changed its indices"); sc = np.max(np.abs(a))*3
    flat = inds.reshape(nd,-1); res = np.asarray(r).reshape(pre+(-1,))
    if where == "samples" and (order <= 3 or border in ("wrap","mirror")): # scipy.s nearest and constant splines only interpolate exactly up to order 3
        c.close(res, a[(Ellipsis,)+tuple(flat.astype(int))], "values on samples", rtol=tol, scale=sc)
    if order <= 1:
        def value(I):
            out = np.zeros(pre); J = []
            for i, n in zip(I, N):
                if 0 <= i < n: J.append(i)
                elif border == "nearest": J.append(min(max(i,0),n-1))
                elif border == "wrap": J.append(i % n)
                elif border == "mirror": p = 2*(n-1); k = i % p; J.append(k if k < n else p-k)
                else: return np.full(pre, cval)
            return a[(Ellipsis,)+tuple(J)]
        for k in range(flat.shape[1]):
            x = flat[:,k]
            if border == "constant" and np.any((x < 0)|(x > np.array(N)-1)):
                # outside the samples; interpolation towards cval in the first half or full pixel is a matter of definition
                if np.any((x < -1.01)|(x > np.array(N)+0.01)): c.close(res[...,k], np.full(pre, cval), "constant border", rtol=tol, scale=sc)
                continue
            if order == 0: want = value([int(np.floor(v+0.5)) for v in x])
            else:
                want = np.zeros(pre); f = np.floor(x).astype(int); d = x-f
                for corner in np.ndindex(*(2,)*nd):
                    w = np.prod([d[j] if b else 1-d[j] for j, b in enumerate(corner)])
                    if w: want = want + w*value([int(f[j]+b) for j, b in enumerate(corner)])
            c.close(res[...,k], want, "%s interpolation at %s" % (mode, x.tolist()), rtol=tol, scale=sc)
    elif border == "wrap":
        # B-spline series whose values on the samples are the samples, periodic
        co = a.astype(np.float64)
        for j, n in enumerate(N):
            M = np.array([[np.sum(bspline(np.array([q-p+m*n for m in range(-3,4)], float), order)) for p in range(n)] for q in range(n)])
            co = np.moveaxis(np.linalg.solve(M, np.moveaxis(co, len(pre)+j, 0).reshape(n,-1)).reshape((n,)+np.moveaxis(co, len(pre)+j, 0).shape[1:]), 0, len(pre)+j)
        for k in range(flat.shape[1]):
            v = co
            for j in range(nd):
                n = N[j]; x = flat[j,k] % n; w = np.array([np.sum(bspline(np.array([x-p+m*n for m in range(-3,4)], float), order)) for p in range(n)])
                v = np.tensordot(v, w, axes=([len(pre)],[0]))
            c.close(res[...,k], v, "periodic spline of order %d at %s" % (order, flat[:,k].tolist()), rtol=tol*10, scale=sc)
    else:
        # mirrored spline equals the periodic spline of the mirrored array
        if border == "mirror":
            m = a.astype(np.float64)
            for j, n in enumerate(N): m = np.take(m, list(range(n))+list(range(n-2,0,-1)), axis=len(pre)+j)
            w = utils.interpol(m, inds, mode="spline", order=order, border="wrap"); c.close(res, np.asarray(w).reshape(pre+(-1,)), "mirrored spline vs periodic spline of the unfolded array", rtol=tol*10, scale=sc)
        if where == "out" and border == "constant":
            far = np.any((flat < -1.01)|(flat > np.array(N)[:,None]+0.01), 0); c.close(res[...,far], np.full(pre+(int(far.sum()),), cval), "constant border", rtol=tol, scale=sc)
    # other ways to the same answer
    ip = utils.interpolator(a, len(pre), **kw); c.close(np.asarray(ip(inds)), np.asarray(r), "prepared interpolator", rtol=tol*0.1, scale=sc); c.close(np.asarray(utils.interpol(a, inds, ip=ip)), np.asarray(r), "interpol(ip=)", rtol=tol*0.1, scale=sc)
    out = np.zeros(pre+post, dt); utils.interpol(a, inds, out=out, **kw); c.close(out, np.asarray(r), "output array", rtol=tol*0.1, scale=sc)
    if pre: I = tuple(c.int(0,n-1) for n in pre); c.close(np.asarray(utils.interpol(a[I], inds, **kw)), np.asarray(r)[I], "one component", rtol=tol*0.1, scale=sc)
    if c.flip(0.3): # integer data
        ia = np.round(a*50).astype(int); kw["cval"] = 2; ri = np.asarray(utils.interpol(ia, inds, **kw)); rf = np.asarray(utils.interpol(ia.astype(float), inds, **kw))
        c.close(ri, rf, "integer array", atol=0.51 if order == 1 else 1e-6, rtol=0)

def interp1(c):
    pre = c.pick((), (2,), (2,3)); n = c.int(2,8); xp = np.sort(c.uni(0,10,n)); fp = arr(c, pre+(n,)); x = c.uni(-3,13,c.pick((5,),(2,3))); kw = {}
    if c.flip(): kw["left"] = 7.0
    if c.flip(): kw["right"] = -3.0
    c.note(n=n, pre=pre, kw=sorted(kw))
    r = utils.interp(x, xp, fp, **kw)
    for I in np.ndindex(pre): c.same(r[I], np.interp(x, xp, fp[I], **kw), "interp")

MONITORS = [
  ("uniform2non", uniform2non, 150, 2500),
  ("non2uniform", non2uniform, 150, 2500),
  ("inverse", inverse, 60, 600),
  ("fourier_ip", fourier_ip, 150, 2500),
  ("spline_ip", spline_ip, 400, 6000),
  ("interp1", interp1, 60, 300),
]

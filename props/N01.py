"""N01: interpolation.  Oracle: explicit dense interpolation matrices per axis."""
import numpy as np
from pixell import interpol, utils
from scipy.interpolate import BSpline

# ---- reference kernels, written from their textbook definitions
def kern(mode, order, x, d=0):
    x = np.asarray(x, float)
    if mode == "spline" and order > 0:
        n = order
        if n == 1: return lin(x, d)
        B = BSpline.basis_element(np.arange(n+2)-(n+1)/2., extrapolate=False)
        if d: B = B.derivative(d)
        return np.nan_to_num(B(x), nan=0.0)
    if mode == "conv" and order == 1: return lin(x, d)
    if mode == "conv" and order == 3:
        a, s = np.abs(x), np.sign(x)
        if d == 0: return np.where(a < 1, 1.5*a**3-2.5*a**2+1, np.where(a < 2, -0.5*a**3+2.5*a**2-4*a+2, 0))
        return s*np.where(a < 1, 4.5*a**2-5*a, np.where(a < 2, -1.5*a**2+5*a-4, 0))
    if mode == "lanczos":
        m = np.abs(x) < order
        if d == 0: return np.where(m, np.sinc(x)*np.sinc(x/order), 0)
        return np.where(m, dsinc(x)*np.sinc(x/order)+np.sinc(x)*dsinc(x/order)/order, 0)
    raise ValueError
def lin(x, d):
    if d == 0: return np.maximum(0, 1-np.abs(x))
    # derivative on the upper side
    return np.where((x >= -1) & (x < 0), 1.0, np.where((x >= 0) & (x < 1), -1.0, 0.0))
def dsinc(x):
    y = np.where(np.abs(x) < 1e-3, 1, x)
    return np.where(np.abs(x) < 1e-3, -np.pi**2*x/3, (np.cos(np.pi*y)-np.sinc(y))/y)

def fold(i, n, border):
    """index -> (index, valid)"""
    if border == "nearest": return np.clip(i, 0, n-1), np.ones(i.shape, bool)
    if border == "cyclic":  return i % n, np.ones(i.shape, bool)
    if border in ("mirror", "reflect"):
        if n == 1: return i*0, np.ones(i.shape, bool)
        j = i % (2*n-2)
        return np.where(j >= n, 2*n-2-j, j), np.ones(i.shape, bool)
    ok = (i >= 0) & (i < n)
    return np.where(ok, i, 0), ok

def wmat(mode, order, border, pos, n, d=0):
    """[npos,n]"""
    W = np.zeros((len(pos), n))
    if order == 0:
        if d: return W
        j, ok = fold(np.floor(pos+0.5).astype(int), n, border)
        np.add.at(W, (np.arange(len(pos)), j), ok*1.0)
        return W
    w = 8
    base = np.floor(pos).astype(int)
    for o in range(-w, w+1):
        i = base+o
        j, ok = fold(i, n, border)
        np.add.at(W, (np.arange(len(pos)), j), ok*kern(mode, order, pos-i, d))
    return W

def apply_ref(idata, pos, mode, order, border, deriv=False):
    """pos [ndim,npos] -> [pre,npos] or [ndim,pre,npos]"""
    nd = len(pos); dims = idata.shape[-nd:]; pre = idata.shape[:-nd]
    Ws = [wmat(mode, order, border, p, n) for p, n in zip(pos, dims)]
    def contract(Ws):
        a = idata.reshape((-1,)+dims).astype(float)
        # first axis, then elementwise in points
        a = np.einsum("pi,ai...->ap...", Ws[0], a)
        for W in Ws[1:]:
            a = np.einsum("pi,api...->ap...", W, a)
        return a.reshape(pre+(pos.shape[1],))
    if not deriv: return contract(Ws)
    out = []
    for k in range(nd):
        W2 = list(Ws); W2[k] = wmat(mode, order, border, pos[k], dims[k], 1)
        out.append(contract(W2))
    return np.array(out)

def filt_ref(a, order, border, ndim):
    """B-spline coefficients along the last ndim axes"""
    if order < 2: return a.astype(float)
    a = a.astype(float)
    for ax in range(a.ndim-ndim, a.ndim):
        n = a.shape[ax]
        b = np.moveaxis(a, ax, 0)
        if border in ("zero", "nearest"):
            pad = 70
            b = np.pad(b, [(pad, pad)]+[(0, 0)]*(b.ndim-1), mode="constant" if border == "zero" else "edge")
        bd = "cyclic" if border == "cyclic" else "mirror"
        M  = wmat("spline", order, bd, np.arange(len(b)).astype(float), len(b))
        b  = np.linalg.solve(M, b.reshape(len(b), -1)).reshape(b.shape)
        if border in ("zero", "nearest"): b = b[70:-70]
        a  = np.moveaxis(b, 0, ax)
    return a

def layout(c, a):
    """same values, some memory layout"""
    k = c.pick("c", "c", "f", "stride", "neg", "trans")
    c.note(lay=k)
    if k == "c" or a.ndim == 0: return a
    if k == "f": return np.asfortranarray(a)
    if k == "stride":
        b = np.zeros(a.shape[:-1]+(2*a.shape[-1],), a.dtype); b[..., ::2] = a; return b[..., ::2]
    if k == "neg": return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    return np.ascontiguousarray(a.T).T

def setup(c, deriv=False, full=False):
    nd   = c.pick(1, 1, 2, 2, 2, 3)
    mode = c.pick("spline", "spline", "spline", "conv", "lanczos")
    order= {"spline": c.int(0, 5), "conv": c.pick(0, 1, 3), "lanczos": c.int(1, 3 if nd < 3 else 2)}[mode]
    border = c.pick("zero", "nearest", "cyclic", "mirror", "reflect")
    dims = tuple(c.int(1, [0, 30, 10, 6][nd]) for i in range(nd))
    if c.flip(0.1): dims = (1,)*nd
    if c.flip(0.05) and nd == 1: dims = (c.int(60, 200),)
    pre  = c.pick((), (), (1,), (2,), (3,), (2, 2))
    pd   = c.pick((c.int(1, 30),), (c.int(1, 5), c.int(1, 5)), (), (0,), (c.int(1, 20),), (c.int(1, 20),))
    dt   = c.pick(np.float32, np.float64, np.float64)
    pos  = np.zeros((nd,)+pd)
    for i in range(nd):
        k = c.pick("in", "out", "far", "int")
        lo, hi = {"in": (0, dims[i]-1), "out": (-4, dims[i]+4), "far": (-3*dims[i], 4*dims[i]), "int": (-2, dims[i]+1)}[k]
        p = c.rng.uniform(lo, max(hi, lo+0.5), pd)
        q = 1 if k == "int" else c.pick(2, 64)
        pos[i] = np.round(p*q)/q
    if order == 0:
        # halfway points have no defined nearest neighbor
        pos = np.where(pos % 1 == 0.5, pos+0.25, pos)
    c.note(nd=nd, mode=mode, order=order, border=border, dims=dims, pre=pre, pd=pd, dt=dt.__name__, deriv=deriv)
    data = c.rng.standard_normal(pre+dims).astype(dt)
    return data, pos, mode, order, border, dt

def tol(dt): return 3e-4 if dt == np.float32 else 1e-9

def weights(c):
    deriv = c.flip(0.35)
    data, pos, mode, order, border, dt = setup(c, deriv)
    d = layout(c, data)
    p = pos.astype(c.pick(np.float64, dt))
    kw = {}
    nd = len(pos); oshape = ((nd,) if deriv else ())+data.shape[:-nd]+pos.shape[1:]
    if c.flip(0.3): kw["odata"] = layout(c, c.rng.standard_normal(oshape).astype(dt))
    with c.keeps("map_coordinates", d, p):
        res = interpol.map_coordinates(d, p, mode=mode, order=order, border=border, deriv=deriv, prefilter=False, **kw)
    ref = apply_ref(data, pos.reshape(nd, -1), mode, order, border, deriv).reshape(oshape)
    c.ok(res.dtype == dt, "dtype %s instead of %s" % (res.dtype, dt))
    c.close(res, ref, "interpolated values", rtol=tol(dt), scale=10.0)
    if "odata" in kw:
        c.ok(res is kw["odata"] or np.shares_memory(res, kw["odata"]), "odata was not used")
        c.same(kw["odata"], res, "odata holds the result")

def spline(c):
    """with the prefilter: exact at the samples, equal to the two steps done separately, matches the dense solution"""
    data, pos, mode, order, border, dt = setup(c)
    mode = "spline"; nd = len(pos)
    d = layout(c, data)
    p = pos.reshape(nd, -1)
    if p.shape[1] == 0: p = np.zeros((nd, 1))
    with c.keeps("map_coordinates", d, p):
        res = interpol.map_coordinates(d, p, order=order, border=border)
        flt = interpol.spline_filter(d, order=order, border=border, ndim=nd)
        two = interpol.map_coordinates(flt, p, order=order, border=border, prefilter=False)
    c.close(res, two, "prefilter inside and outside", rtol=1e-6 if dt == np.float32 else 1e-12, scale=10)
    c.ok(flt.dtype == dt and flt.shape == data.shape, "spline_filter shape or dtype")
    if border in ("cyclic", "mirror", "reflect") or order <= 3:
        fr = filt_ref(data, order, border, nd)
        c.close(flt, fr, "spline coefficients", rtol=tol(dt), scale=np.max(np.abs(fr))+1)
        c.close(res, apply_ref(fr, p, "spline", order, border), "spline values", rtol=tol(dt), scale=np.max(np.abs(fr))+1)
    if border in ("cyclic", "mirror", "reflect") or order < 2:
        shape = data.shape[-nd:]
        g = np.array(np.meshgrid(*[np.arange(n, dtype=float) for n in shape], indexing="ij"))
        rec = interpol.map_coordinates(d, g, order=order, border=border)
        c.close(rec, data, "a spline goes through its samples", rtol=tol(dt), scale=10)

def adjoint(c):
    deriv = c.flip(0.4)
    data, pos, mode, order, border, dt = setup(c, deriv)
    pf = c.flip(); c.note(pf=pf)
    nd = len(pos); oshape = ((nd,) if deriv else ())+data.shape[:-nd]+pos.shape[1:]
    y  = c.rng.standard_normal(oshape).astype(dt)
    kw = dict(mode=mode, order=order, border=border, deriv=deriv, prefilter=pf)
    Ax = interpol.map_coordinates(data, pos, **kw)
    buf = layout(c, c.rng.standard_normal(data.shape).astype(dt))
    yl  = layout(c, y)
    with c.keeps("transpose", yl, pos):
        AtY = interpol.map_coordinates(buf, pos, odata=yl, trans=True, **kw)
    c.ok(AtY.shape == data.shape, "transpose shape")
    c.same(buf, AtY, "transpose writes to idata")
    a, b = np.sum(Ax.astype(float)*y), np.sum(data.astype(float)*AtY)
    sc = np.sqrt(np.sum(Ax.astype(float)**2)*np.sum(y.astype(float)**2))+np.sqrt(np.sum(data.astype(float)**2)*np.sum(AtY.astype(float)**2))+1
    c.close(a, b, "<Ax,y> = <x,A'y>", rtol=1e-4 if dt == np.float32 else 1e-10, scale=sc)
    # each component on its own: the transpose does not mix leading dimensions
    if not pf:
        r = np.zeros(data.shape)
        W = apply_ref(np.eye(int(np.prod(data.shape[-nd:]))).reshape((-1,)+data.shape[-nd:]), pos.reshape(nd, -1), mode, order, border, deriv)
        # W [(nd),ncell,npos]
        yy = y.reshape(((nd,) if deriv else ())+(int(np.prod(data.shape[:-nd])), W.shape[-1])).astype(float)
        r  = np.einsum("dcp,dap->ac", W, yy) if deriv else np.einsum("cp,ap->ac", W, yy)
        c.close(AtY, r.reshape(data.shape), "transposed values", rtol=tol(dt), scale=np.max(np.abs(r), initial=0)+10)

def calculus(c):
    """The reported derivative is the derivative of the interpolated function"""
    nd = c.pick(1, 2); dims = tuple(c.int(2, 12) for i in range(nd))
    mode = c.pick("spline", "spline", "conv", "lanczos")
    order= {"spline": c.int(2, 5), "conv": 3, "lanczos": c.int(1, 3)}[mode]
    border = c.pick("nearest", "cyclic", "mirror", "zero")
    c.note(nd=nd, dims=dims, mode=mode, order=order, border=border)
    data = c.rng.standard_normal(c.pick((), (2,))+dims)
    # away from the knots, where conv and lanczos kernels are not smooth
    pos = np.array([np.floor(c.uni(-3, n+3, 12))+c.pick(0.0, 0.5)+c.uni(0.05, 0.45, 12) for n in dims])
    D = interpol.map_coordinates(data, pos, mode=mode, order=order, border=border, deriv=True)
    h = 1e-4
    for k in range(nd):
        e = np.zeros((nd, 1)); e[k] = h
        f = lambda p: interpol.map_coordinates(data, p, mode=mode, order=order, border=border)
        num = (8*(f(pos+e)-f(pos-e))-(f(pos+2*e)-f(pos-2*e)))/(12*h)
        c.close(D[k], num, "derivative along axis %d" % k, rtol=1e-6, scale=np.max(np.abs(num))+10)

def builder(c):
    nin, nout = c.int(1, 2), c.int(1, 5)
    cls = c.pick(interpol.ip_linear, interpol.ip_ndimage, interpol.ip_grad if nin == 1 else interpol.ip_linear)
    lo  = c.uni(-2, 2, nin); box = np.array([lo, lo+c.uni(0.5, 2, nin)])
    A   = c.rng.standard_normal((nout, nin)); ph = c.uni(0, 6, nout)
    def func(x): return np.array([np.sin(np.tensordot(a, x, 1)+p) for a, p in zip(A, ph)])
    lim = 10**c.uni(-3, -1.5)*np.ones(nout)
    ro, rs = c.flip(), c.flip()
    c.note(nin=nin, nout=nout, cls=cls.__name__, lim=lim[0], ro=ro, rs=rs)
    kw = dict(order=1) if cls is interpol.ip_ndimage else {}
    res = interpol.build(func, cls, box, lim, return_obox=ro, return_status=rs, **kw)
    n = 1+ro+2*rs
    if n == 1: ip = res
    else:
        c.ok(len(res) == n, "number of return values"); ip = res[0]
        if rs: c.ok(res[-2] is True and np.all(res[-1] <= lim), "status %s %s" % (res[-2], res[-1]))
    x = box[0][:, None]+(box[1]-box[0])[:, None]*c.rng.uniform(0, 1, (nin, 400))
    err = np.max(np.abs(ip(x)-func(x)), 1)
    c.ok(np.all(err <= 2*lim), "error %s exceeds limit %s" % (err, lim))
    if ro:
        f = func(utils.grid(box, [30]*nin)).reshape(nout, -1)
        c.close(res[1][0], f.min(1), "output range min", atol=0.1); c.close(res[1][1], f.max(1), "output range max", atol=0.1)
    # multilinear functions are reproduced exactly, at any shape of x
    if cls is not interpol.ip_grad:
        y = lambda x: np.array([a+b*x[0]+(c2*x[-1]*x[0] if nin > 1 else 0) for a, b, c2 in AB])
        AB = c.rng.standard_normal((nout, 3))
        ip = interpol.build(y, cls, box, lim, **kw)
        xx = x[:, :12].reshape(nin, 3, 4)
        c.close(ip(xx), y(xx), "multilinear function", rtol=1e-10, scale=10)

def derivs(c):
    nin = c.int(1, 3); npre = c.int(0, 2)
    y = c.rng.standard_normal(tuple(c.int(1, 3) for i in range(npre))+tuple(c.int(2, 5) for i in range(nin)))
    c.note(shape=y.shape, npre=npre)
    with c.keeps("lin_derivs_forward", y): ys = interpol.lin_derivs_forward(y, npre)
    c.ok(ys.shape == (2,)*nin+y.shape[:npre]+tuple(n-1 for n in y.shape[npre:]), "shape %s" % (ys.shape,))
    for I in np.ndindex(*(2,)*nin):
        ref = y
        for k, i in enumerate(I):
            ref = np.diff(ref, axis=npre+k) if i else np.take(ref, range(ref.shape[npre+k]-1), axis=npre+k)
        c.close(ys[I], ref, "differences %s" % (I,), rtol=1e-12, scale=10)

MONITORS = [("weights", weights, 1500, 15000), ("spline", spline, 700, 7000), ("adjoint", adjoint, 900, 9000), ("calculus", calculus, 300, 2500), ("builder", builder, 120, 800), ("derivs", derivs, 60, 400)]

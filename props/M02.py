"""M02: changing resolution conserves the data: block averages, duplication, fourier resampling."""
import numpy as np
from pixell import enmap, utils, wcsutils, resample as rs
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["block averages are recomputed with explicit loops", "fourier resampling is checked on functions whose frequencies are all below the Nyquist frequency of the coarser grid"]}

def blocks(n, f, off, inclusive):
    """list of (i1,i2) of each output sample"""
    out = []
    if inclusive and off > 0: out.append((0, off))
    i = off
    while i+f <= n: out.append((i, i+f)); i += f
    if inclusive and i < n: out.append((i, n))
    return out

def brute(a, f, off, op, inclusive):
    by, bx = blocks(a.shape[-2], f[0], off[0], inclusive), blocks(a.shape[-1], f[1], off[1], inclusive)
    # the documented operation is separable: first y, then x
    t = np.array([op(a[...,y1:y2,:], -2) for y1,y2 in by]); t = np.moveaxis(t, 0, -2)
    t = np.array([op(t[...,x1:x2], -1) for x1,x2 in bx]);   t = np.moveaxis(t, 0, -1)
    return t, by, bx

def mk(c, nmin=6, nmax=30, dtypes=(np.float64,np.float32), **kw):
    s, w = anygeo(c, nmin=nmin, nmax=nmax, **kw); pre = premul(c); dt = c.choice(dtypes)
    m = enmap.ndmap(arr(c, pre+s, dt), w); note_geo(c, s, w); c.note(pre=pre, dtype=np.dtype(dt).name)
    return m, s, w

def down(c):
    m, s, w = mk(c); f = [c.int(1, min(5, s[0])), c.int(1, min(5, s[1]))]
    if c.flip(0.3): f[1] = f[0] = c.int(1, min(4, *s))
    off = [c.int(0, f[0]-1), c.int(0, f[1]-1)] if c.flip() else [0,0]
    off = [min(off[i], s[i]-f[i]) for i in range(2)]
    opn = c.pick("mean","sum","max","min"); op = getattr(np, opn); inc = c.flip(); how = c.pick("func","method") if not inc else "func"
    c.note(f=f, off=off, op=opn, inc=inc, how=how)
    fa = f[0] if f[0] == f[1] and c.flip() else f
    kw = dict(op=op); 
    if off != [0,0] or c.flip(): kw["off"] = off
    with c.keeps("downgrade", m):
        r = enmap.downgrade(m, fa, inclusive=inc, **kw) if how == "func" else m.downgrade(fa, **kw)
    if f == [1,1]:
        c.same(np.asarray(r), np.asarray(m), "factor 1"); check_positions(c, skygrid(s, r.wcs), skygrid(s, w), "factor 1 position"); return
    want, by, bx = brute(np.asarray(m).astype(np.float64) if opn in ("mean","sum") else np.asarray(m), f, off, op, inc)
    c.close(np.asarray(r), want, "downgraded values", rtol=1e-12 if m.dtype == np.float64 else 1e-5)
    c.ok(isinstance(r, enmap.ndmap), "downgrade returns a map"); c.ok(r.dtype == m.dtype, "dtype kept")
    # whole blocks sit at the centre of the pixels they replace
    iy = [i for i,(a,b) in enumerate(by) if b-a == f[0]]; ix = [i for i,(a,b) in enumerate(bx) if b-a == f[1]]
    if iy and ix:
        yy, xx = np.meshgrid([(by[i][0]+by[i][1]-1)/2 for i in iy], [(bx[i][0]+bx[i][1]-1)/2 for i in ix], indexing="ij")
        oy, ox = np.meshgrid(iy, ix, indexing="ij")
        check_positions(c, np.array(ref_pix2sky(r.wcs, oy, ox)), np.array(ref_pix2sky(w, yy, xx)), "downgraded pixel centre")
    check_positions(c, skygrid(s, m.wcs), skygrid(s, w), "input wcs untouched")
    if opn == "sum" and inc: c.close(np.sum(np.asarray(r, np.float64), (-2,-1)), np.sum(np.asarray(m, np.float64), (-2,-1)), "total conserved", rtol=1e-4 if m.dtype == np.float32 else 1e-10, scale=np.sum(np.abs(m)))

def down_ref(c):
    """cutouts of one map downgraded relative to the same reference point stay pixel-compatible"""
    s, w = patch(c, projs=CYL, nmin=24, nmax=50, maxwidth=20); note_geo(c, s, w)
    m = enmap.ndmap(arr(c, s), w); f = [c.int(2,4), c.int(2,4)]
    ry, rx = c.int(0, s[0]-1), c.int(0, s[1]-1); ref = np.array(ref_pix2sky(w, ry, rx))
    c.note(f=f, ref=[ry,rx])
    seen = {}
    for k in range(3):
        y1, x1 = c.int(0, 8), c.int(0, 8); y2, x2 = c.int(y1+9, s[0]), c.int(x1+9, s[1])
        sub = m[y1:y2,x1:x2]; d = enmap.downgrade(sub, f, ref=ref)
        # compute block membership independently: blocks begin at the pixel of the reference point
        oy, ox = (ry-y1) % f[0], (rx-x1) % f[1]
        want, by, bx = brute(np.asarray(sub), f, [oy,ox], np.mean, False)
        c.close(np.asarray(d), want, "downgrade relative to reference point", rtol=1e-12)
        pos = skygrid(d.shape, d.wcs)
        for (a, b) in np.ndindex(*d.shape):
            key = ((by[a][0]+y1), (bx[b][0]+x1))
            if key in seen:
                c.close(d[a,b], seen[key][0], "same block, same value", rtol=1e-12, scale=1)
                c.ok(angsep(*pos[:,a,b], *seen[key][1]) < 1e-9, "same block, same position")
            seen[key] = (d[a,b], pos[:,a,b])

def up(c):
    m, s, w = mk(c, nmin=3, nmax=12); f = [c.int(1,4), c.int(1,4)]; c.note(f=f)
    with c.keeps("upgrade", m): r = enmap.upgrade(m, f)
    c.same(np.asarray(r), np.repeat(np.repeat(np.asarray(m), f[0], -2), f[1], -1), "upgraded values")
    yy, xx = grid(r.shape)
    check_positions(c, skygrid(r.shape, r.wcs), np.array(ref_pix2sky(w, (yy+0.5)/f[0]-0.5, (xx+0.5)/f[1]-0.5)), "upgraded positions")
    b = enmap.downgrade(r, f)
    c.close(np.asarray(b), np.asarray(m), "upgrade then downgrade", rtol=1e-6 if m.dtype == np.float32 else 1e-13)
    check_positions(c, skygrid(s, b.wcs), skygrid(s, w), "upgrade then downgrade positions")

def down_up(c):
    """an inclusive downgrade followed by the matching upgrade restores the geometry, with each pixel holding its block's value"""
    m, s, w = mk(c, nmin=6); f = [c.int(2,min(5,s[i])) for i in range(2)]; off = [min(c.int(0, f[i]-1), s[i]-f[i]) for i in range(2)]; c.note(f=f, off=off)
    d = enmap.downgrade(m, f, off=off, inclusive=True); u = enmap.upgrade(d, f, off=off, oshape=s, inclusive=True)
    c.ok(u.shape == m.shape, "shape restored")
    check_positions(c, skygrid(s, u.wcs), skygrid(s, w), "geometry restored")
    want, by, bx = brute(np.asarray(m, np.float64), f, off, np.mean, True); full = np.zeros(m.shape)
    for i,(y1,y2) in enumerate(by):
        for j,(x1,x2) in enumerate(bx): full[...,y1:y2,x1:x2] = want[...,i,j][...,None,None]
    c.close(np.asarray(u), full, "values", rtol=1e-5 if m.dtype == np.float32 else 1e-12)
    # non-inclusive: the uncovered margin is zero, the rest identical
    d = enmap.downgrade(m, f, off=off); u = enmap.upgrade(d, f, off=off, oshape=s)
    want, by, bx = brute(np.asarray(m, np.float64), f, off, np.mean, False); full = np.zeros(m.shape)
    for i,(y1,y2) in enumerate(by):
        for j,(x1,x2) in enumerate(bx): full[...,y1:y2,x1:x2] = want[...,i,j][...,None,None]
    c.close(np.asarray(u), full, "values, non-inclusive", rtol=1e-5 if m.dtype == np.float32 else 1e-12)
    check_positions(c, skygrid(s, u.wcs), skygrid(s, w), "geometry restored, non-inclusive")

def blockfun(c):
    nd = c.int(1,3); shape = tuple(c.int(3,15) for _ in range(nd)); ax = c.int(-nd, nd-1); b = c.int(1,6); off = c.int(0, b-1) if b > 1 else 0
    a = arr(c, shape); inc = c.flip(); n = shape[ax]; c.note(shape=shape, ax=ax, b=b, off=off, inc=inc)
    off = min(off, n)
    bl = blocks(n, b, off, inc)
    if not bl: return c.ok(True, "")
    with c.keeps("block_reduce", a): r = utils.block_reduce(a, b, axis=ax, off=off, inclusive=inc)
    am = np.moveaxis(a, ax, -1)
    want = np.moveaxis(np.array([am[...,i:j].mean(-1) for i,j in bl]), 0, -1)
    c.close(np.moveaxis(r, ax, -1), want, "block_reduce", rtol=1e-12)
    u = utils.block_expand(r, b, n, axis=ax, off=off, inclusive=inc)
    full = np.zeros(am.shape)
    for k,(i,j) in enumerate(bl): full[...,i:j] = want[...,k,None]
    c.close(np.moveaxis(u, ax, -1), full, "block_expand", rtol=1e-12)
    if off == 0:
        # linear expansion reproduces linear functions away from the ends
        nb = max(3, n//b); x = np.arange(nb*b); lin = 2.5*x-1; red = utils.block_reduce(lin, b)
        e = utils.block_expand(red, b, nb*b, op="linear"); c.close(e[b:-b], lin[b:-b], "linear block_expand", rtol=1e-10)

def modes(c, n, kmax):
    """random real trigonometric polynomial with |k| <= kmax in each dimension, as function of fractional positions in [0,1)"""
    ks = []
    for _ in range(6): ks.append((c.int(-kmax[0], kmax[0]), c.int(-kmax[1], kmax[1]), c.rng.normal(), c.uni(0, 2*np.pi)))
    ks.append((kmax[0], kmax[1], 1.3, c.uni(0,6)))
    ks.append((0, 0, c.rng.normal(), 0.))
    def f(y, x): return sum(a*np.cos(2*np.pi*(ky*y+kx*x)+p) for ky, kx, a, p in ks)
    return f

def fourier_map(c):
    s = (c.int(3,20), c.int(3,20)); o = (c.int(3,24), c.int(3,24)); corner = c.flip(0.7)
    sh, w = patch(c, projs=("car","cea","tan")); pre = c.pick((), (2,)); off = [0.,0.] if c.flip(0.6) else list(c.uni(-2,2,2))
    c.note(s=s, o=o, corner=corner, off=off, pre=pre); note_geo(c, s, w)
    kmax = [(min(a,b)-1)//2 for a,b in zip(s,o)]
    fs = [modes(c, s, kmax) for _ in range(int(np.prod(pre)))]
    y, x = grid(s); m = enmap.ndmap(np.array([f(y/s[0], x/s[1]) for f in fs]).reshape(pre+s), w)
    if c.flip(0.3): m = m.astype(np.float32); 
    with c.keeps("resample", m): r = m.resample(o, off=off, corner=corner)
    Y, X = grid(o); Y = Y-off[0]; X = X-off[1]
    if corner: yi, xi = (Y+0.5)/o[0]*s[0]-0.5, (X+0.5)/o[1]*s[1]-0.5
    else:      yi, xi = Y/o[0]*s[0], X/o[1]*s[1]
    want = np.array([f(yi/s[0], xi/s[1]) for f in fs]).reshape(pre+o)
    c.close(np.asarray(r), want, "band-limited map resampled exactly", rtol=1e-10 if m.dtype == np.float64 else 1e-4)
    if off == [0.,0.]: check_positions(c, skygrid(o, r.wcs), np.array(ref_pix2sky(w, yi, xi)), "resampled positions")
    # the same thing through fourier space, in every unit
    for norm, nrm in (("pix",True),("phys","phys"),("plain",False)):
        # physical units involve the average pixel size, which is only approximately the same for the two grids
        if norm == "phys" and not (corner and off == [0.,0.] and proj_of(w) in CYL): continue
        fr = enmap.resample_fft(enmap.fft(m, normalize=nrm), o, off=off, corner=corner, norm=norm)
        b = enmap.ifft(fr, normalize=nrm).real
        if norm == "plain": b = b/np.prod(o)
        c.close(np.asarray(b), want, "resample_fft in unit %s" % norm, rtol=0.02 if norm == "phys" else 1e-9 if m.dtype == np.float64 else 1e-4)

def fourier_updown(c):
    s = (c.int(3,16), c.int(3,16)); k = c.int(2,4); sh, w = patch(c, projs=("car","tan")); note_geo(c, s, w); c.note(k=k)
    f = modes(c, s, [(n-1)//2 for n in s]); y, x = grid(s); m = enmap.ndmap(f(y/s[0], x/s[1]), w)
    u = enmap.upgrade_fft(m, k); c.ok(u.shape == (s[0]*k, s[1]*k), "upgrade_fft shape")
    d = enmap.downgrade_fft(u, k); c.close(np.asarray(d), np.asarray(m), "upgrade_fft then downgrade_fft", rtol=1e-10)
    check_positions(c, skygrid(s, d.wcs), skygrid(s, w), "positions")
    c.close(np.mean(u), np.mean(m), "mean conserved", rtol=1e-10, scale=np.max(np.abs(m)))

def spline_map(c):
    s = (c.int(24,40), c.int(24,40)); o = (c.int(12,50), c.int(12,50)); corner = c.flip(); sh, w = patch(c, projs=("car","tan")); note_geo(c, s, w)
    c.note(o=o, corner=corner); f = modes(c, s, (1,1)); y, x = grid(s); m = enmap.ndmap(f(y/s[0], x/s[1]), w)
    r = m.resample(o, method="spline", corner=corner, border="wrap"); Y, X = grid(o)
    yi, xi = ((Y+0.5)/o[0]*s[0]-0.5, (X+0.5)/o[1]*s[1]-0.5) if corner else (Y/o[0]*s[0], X/o[1]*s[1])
    c.close(np.asarray(r), f(yi/s[0], xi/s[1]), "spline-resampled smooth map", rtol=0.02)
    check_positions(c, skygrid(o, r.wcs), np.array(ref_pix2sky(w, yi, xi)), "positions")
    g = enmap.ndmap(arr(c, s), w); q = g.resample(o, method="spline", corner=corner, border="wrap", order=1); a = np.asarray(g); y0, x0 = np.floor(yi).astype(int), np.floor(xi).astype(int); fy, fx = yi-y0, xi-x0; h = lambda i, j: a[i % s[0], j % s[1]]
    c.close(np.asarray(q), (h(y0,x0)*(1-fx)+h(y0,x0+1)*fx)*(1-fy)+(h(y0+1,x0)*(1-fx)+h(y0+1,x0+1)*fx)*fy, "linear resampling", rtol=1e-8)

def fshift(c):
    s = (c.int(3,20), c.int(3,20)); sh, w = patch(c, projs=("car","tan")); note_geo(c, s, w); off = np.array(c.uni(-6,6,2)); c.note(off=off)
    f = modes(c, s, [(n-1)//2 for n in s]); y, x = grid(s); m = enmap.ndmap(f(y/s[0], x/s[1]), w); keep = c.flip()
    with c.keeps("fractional_shift", m): r = enmap.fractional_shift(m, off, keepwcs=keep)
    c.close(np.asarray(r), f((y-off[0])/s[0], (x-off[1])/s[1]), "fractional shift", rtol=1e-10)
    check_positions(c, skygrid(s, m.wcs), skygrid(s, w), "input wcs untouched")
    yy, xx = (y, x) if keep else (y-off[0], x-off[1])
    check_positions(c, skygrid(s, r.wcs), np.array(ref_pix2sky(w, yy, xx)), "shifted positions")

def fourier_arr(c):
    nd = c.int(1,3); shape = [c.int(2,14) for _ in range(nd)]; ax = c.int(-nd, nd-1); nold = shape[ax]; nnew = c.int(2,20)
    cplx = c.flip(0.3); c.note(shape=shape, ax=ax, nnew=nnew, cplx=cplx)
    k = (min(nold,nnew)-1)//2; lead = tuple(shape[:ax % nd]+shape[ax % nd+1:])
    ks = np.arange(-k, k+1); A = c.rng.normal(size=lead+(len(ks),)) + 1j*c.rng.normal(size=lead+(len(ks),))
    def ev(t):
        v = np.sum(A[...,None]*np.exp(2j*np.pi*ks[:,None]*t), -2); return v if cplx else v.real
    d = np.moveaxis(ev(np.arange(nold)/nold), -1, ax); want = np.moveaxis(ev(np.arange(nnew)/nnew), -1, ax)
    how = c.pick("axes","default") if ax in (-1, nd-1) else "axes"
    with c.keeps("resample_fft", d):
        r = rs.resample_fft(d, [nnew], axes=[ax]) if how == "axes" else rs.resample_fft(d, nnew)
    c.close(r, want, "fourier-resampled array", rtol=1e-9, scale=np.max(np.abs(A))*len(ks))
    if ax in (-1, nd-1):
        fac = nnew/nold
        r = rs.resample(d, [fac]); 
        if not abs(fac-1) < 1e-9: c.close(r, want, "resample by factor", rtol=1e-9, scale=np.max(np.abs(A))*len(ks))

def bin_arr(c):
    nd = c.int(1,3); shape = tuple(c.int(2,12) for _ in range(nd)); n = c.int(1,nd); steps = [c.int(1,min(4,shape[nd-n+i])) for i in range(n)]; a = arr(c, shape)
    axes = list(c.rng.permutation(np.arange(-n,0))) if c.flip() else None; c.note(shape=shape, steps=steps, axes=axes)
    st = {}
    for i, s in enumerate(steps): st[int(axes[i]) if axes is not None else i-n] = s
    if any(st[k] > shape[k] for k in st): return c.ok(True, "")
    d = rs.downsample_bin(a, steps, axes); want = a; u = rs.upsample_bin(a, steps, axes); wu = a
    for k, s in st.items():
        want = np.moveaxis(np.moveaxis(want, k, -1)[...,:shape[k]//s*s].reshape(tuple(np.moveaxis(want,k,-1).shape[:-1])+(shape[k]//s,s)).mean(-1), -1, k)
        wu = np.repeat(wu, s, k)
    c.close(d, want, "downsample_bin", rtol=1e-12); c.same(u, wu, "upsample_bin")
    c.close(rs.downsample_bin(u, steps, axes), a, "upsample then downsample", rtol=1e-12)

def geometry_obj(c):
    s, w = patch(c, nmin=8); pre = premul(c); f = [c.int(1,4), c.int(1,4)]; note_geo(c, s, w); c.note(f=f, pre=pre)
    m = enmap.ndmap(arr(c, pre+s), w)
    g = enmap.Geometry(m) if c.flip() else enmap.Geometry(pre+s, w)
    c.ok(tuple(g.shape) == pre+s and g.npix == s[0]*s[1], "geometry of a map")
    d = g.downgrade(f); r = enmap.downgrade(m, f)
    c.ok(tuple(d.shape[-2:]) == r.shape[-2:], "downgraded geometry shape"); check_positions(c, skygrid(d.shape, d.wcs), skygrid(r.shape, r.wcs), "downgraded geometry")
    sl = (slice(c.int(0,2), s[0]-c.int(0,3), c.int(1,2)), slice(c.int(0,2), s[1]-c.int(0,3), c.int(1,3)))
    e = g[sl]; q = m[(Ellipsis,)+sl]; c.ok(tuple(e.shape[-2:]) == q.shape[-2:], "sliced geometry shape"); check_positions(c, skygrid(e.shape, e.wcs), skygrid(q.shape, q.wcs), "sliced geometry")
    u = g.scale(2); q = enmap.upgrade(m, 2); c.ok(tuple(u.shape) == q.shape, "scaled geometry shape"); check_positions(c, skygrid(u.shape, u.wcs), skygrid(q.shape, q.wcs), "scaled geometry")
    cp = g.copy(); cp.wcs.wcs.crpix += 1; check_positions(c, skygrid(s, g.wcs), skygrid(s, w), "copy is independent")
    c.ok(tuple(g.nopre.shape) == s and tuple(g.with_pre((5,)).shape) == (5,)+s, "pre")

def irregular(c):
    """resample_bin and the resampling of irregularly sampled data to a constant rate"""
    from pixell import resample
    shape = tuple(c.int(2, 9) for _ in range(c.int(1, 3))); a = c.rng.standard_normal(shape); k = c.int(1, len(shape))
    axes = None if c.flip() else tuple(c.rng.permutation(len(shape))[:k].tolist()); ax = axes or tuple(range(-k, 0))
    fs = [c.pick(0.5, 1/3., 2, 3, 1) for _ in range(k)]
    if all(f == 1 for f in fs): fs[0] = 2
    c.note(shape=shape, axes=axes, fs=fs)
    with c.keeps("resample_bin", a): r = resample.resample(a, fs, axes=axes, method="bin") if c.flip() else resample.resample_bin(a, fs, axes=axes)
    ref = a
    for f, x in zip(fs, ax):
        n = int(round(1/f)) if f < 1 else 1; ref = np.moveaxis(ref, x, 0)
        if n > 1: m = ref.shape[0]//n; ref = ref[:m*n].reshape((m, n)+ref.shape[1:]).mean(1)
        if f > 1: ref = np.repeat(ref, int(f), 0)
        ref = np.moveaxis(ref, 0, x)
    c.ok(r.shape == ref.shape, "resample_bin shape %s" % (r.shape,)); c.close(r, ref, "resample_bin", rtol=1e-12)
    # irregular sampling
    n = c.int(5, 60); t = np.cumsum(c.uni(0.5, 1.5, n))+c.uni(-100, 100); order = c.pick(1, 3); q = c.pick(0.1, 0.5)
    pre = c.pick((), (2,)); kind = c.pick("lin", "rand"); d = (c.rng.standard_normal(pre)[..., None]*np.arange(n)+1. if kind == "lin" else c.rng.standard_normal(pre+(n,)))
    with c.keeps("make_equispaced", d, t): o, to = resample.make_equispaced(d, t, quantile=q, order=order)
    c.ok(o.shape == pre+to.shape and abs(to[0]-t[0]) < 1e-9 and abs(to[-1]-t[-1]) < 1e-9, "spans the same time")
    dt = np.diff(to); c.ok(np.max(np.abs(dt-dt[0])) < 1e-9, "constant rate")
    c.ok(abs(dt[0]/np.percentile(np.diff(t), 100*q)-1) < 0.5001/(len(to)-1)+1e-6+0.5*dt[0]/(t[-1]-t[0]), "sampling rate")
    if order == 1: c.close(o, np.array([np.interp(to, t, x) for x in d.reshape(-1, n)]).reshape(o.shape), "equispaced values", rtol=1e-9, atol=1e-9)
    if c.flip():
        dn = d.copy(); k = c.int(0, n-1); dn[..., k] = np.nan; on, tn = resample.make_equispaced(np.where(np.isfinite(dn), dn, 0), t, quantile=q, order=order); c.ok(np.all(np.isfinite(on)), "finite data stay finite")
        om = resample.make_equispaced(dn, t, quantile=q, order=1, mask_nan=True)[0]; near = np.argmin(np.abs(to[:, None]-t[None]), 1); clear = np.abs(np.interp(to, t, np.arange(n))-k) > 1.001; hit = np.abs(np.interp(to, t, np.arange(n))-k) < 0.499
        c.ok(np.all(np.isnan(om[..., hit])), "bad samples are masked")
    c.close(o[..., [0, -1]], d[..., [0, -1]], "first and last values", rtol=1e-8, atol=1e-8)

MONITORS = [("down", down, 1000, 10000), ("down_ref", down_ref, 120, 800), ("up", up, 300, 2000), ("down_up", down_up, 400, 3000), ("blockfun", blockfun, 500, 5000),
  ("fourier_map", fourier_map, 400, 4000), ("fourier_updown", fourier_updown, 100, 1000), ("spline_map", spline_map, 60, 500), ("fshift", fshift, 150, 1000),
  ("fourier_arr", fourier_arr, 400, 3000), ("bin_arr", bin_arr, 300, 2000), ("geometry_obj", geometry_obj, 200, 1500), ("irregular", irregular, 150, 1500)]

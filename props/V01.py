"""V01: colors, contours and plots show the value of the pixel they stand for; small array kernels compute what they name."""
import numpy as np, os, warnings
from pixell import enmap, utils, colorize, array_ops, enplot
from gen import *

INFO = {"level": "exploration", "threads": 3, "nproc": 4,
  "assumptions": ["colors are compared to an explicit piecewise linear interpolation, to the nearest integer (either neighbour exactly at a tie)"]}

def scheme(c):
    if c.flip(0.4):
        n = c.choice(sorted(colorize.schemes)); s = colorize.schemes[n]; c.note(scheme=n); return n, np.array(s.vals), np.array(s.cols)
    n = c.int(2, 9); vals = np.sort(np.round(c.uni(-0.5, 1.5, n), 4))
    if len(np.unique(vals)) < n: vals = np.linspace(0,1,n)
    alpha = c.flip(0.4); cols = c.rng.integers(0, 256, (n,4)); cols[:,3] = cols[:,3] if alpha else 255
    toks = ["%.4f:%s" % (v, "".join("%02x" % q for q in col[:(4 if alpha else 3)])) for v, col in zip(vals, cols)]
    vals = np.array([float("%.4f" % v) for v in vals]); order = c.rng.permutation(n) if c.flip() else np.arange(n); c.note(scheme="random", n=n, alpha=alpha)
    return ",".join(toks[i] for i in order), vals, cols.astype(float)
def refcolor(vals, cols, a):
    a = np.asarray(a, float); res = np.zeros(a.shape+(4,)); v = np.clip(a, vals[0], vals[-1]); v = np.where(np.isnan(a), vals[0], v)
    for k in range(4): res[...,k] = np.interp(v, vals, cols[:,k])
    res[np.isnan(a)] = 0; return res
def colclose(c, got, ref, msg):
    got = np.asarray(got); c.ok(got.shape == ref.shape, "%s: shape %s, expected %s" % (msg, got.shape, ref.shape)); c.ok(got.dtype == np.uint8, "%s: dtype %s" % (msg, got.dtype))
    d = np.abs(got.astype(float)-ref); bad = d > 0.5+1e-5
    c.ok(not bad.any(), "%s: %d colors differ, e.g. %s for %s" % (msg, bad.sum(), got[bad][:4], ref[bad][:4]))

def values(c, shape, vals, dtype=np.float64):
    lo, hi = vals[0], vals[-1]; a = c.uni(lo-0.3*(hi-lo), hi+0.3*(hi-lo), shape); m = c.rng.random(shape)
    a[m<0.1] = np.nan; k = (m>0.1)&(m<0.25); a[k] = c.rng.choice(vals, k.sum()); a[(m>0.25)&(m<0.27)] = np.inf; a[(m>0.27)&(m<0.29)] = -np.inf; a[(m>0.29)&(m<0.3)] = 1e30
    return a.astype(dtype)
def layout(c, a):
    k = c.pick("c","f","strided","neg"); c.note(layout=k)
    if k == "f": return np.asfortranarray(a)
    if k == "strided": b = np.zeros(a.shape[:-1]+(2*a.shape[-1],), a.dtype); b[...,::2] = a; return b[...,::2]
    if k == "neg": return a[...,::-1].copy()[...,::-1]
    return a

def scalar(c):
    desc, vals, cols = scheme(c); shape = c.pick((c.int(1,400),), (c.int(1,30), c.int(1,30)), (2, c.int(1,10), c.int(1,20)), (0,), ())
    dt = c.pick(np.float64, np.float64, np.float32); a = values(c, shape, vals, dt) if shape != () else np.array(c.uni(-0.2,1.2), dt); a = layout(c, a) if shape != () else a; form = c.pick("desc","object"); drv = c.pick("auto","fortran","python"); c.note(shape=shape, dtype=dt.__name__, driver=drv, form=form)
    if form == "object": desc = colorize.Colorscheme(desc)
    # steps in a scheme closer together than single precision resolves are left out
    with c.keeps("colorize", a), np.errstate(all="ignore"):
        if drv == "python" and not np.all(np.isfinite(a[~np.isnan(a)])): a = np.where(np.isinf(a), np.sign(a)*1e30, a).astype(dt)
        colclose(c, colorize.colorize(a, desc=desc, driver=drv), refcolor(vals, cols, a), "colorize")
    s = colorize.Colorscheme(desc); r = s.reverse(); x = c.uni(-0.2, 1.2, 20); x = np.concatenate([x, s.vals, 1-s.vals])
    colclose(c, colorize.colorize(x, desc=r), refcolor(1-vals[::-1], cols[::-1], x), "reversed color scheme")
    c.same(s.vals, vals, "color scheme positions"); c.same(s.cols, cols, "color scheme colors")
    one = "".join("%02x" % q for q in c.rng.integers(0,256,3)); ref = np.array([int(one[i:i+2],16) for i in (0,2,4)]+[255]); got = colorize.colorize(x, desc=one); c.ok(np.all(got == ref), "constant color")

def direct(c):
    nc = c.pick(3,4); mode = c.pick("direct","direct_colorcap"); drv = "fortran" if mode != "direct" else c.pick("auto","fortran","python"); shape = c.pick((c.int(1,500),), (c.int(1,40), c.int(1,40)))
    a = c.uni(-0.3, 1.4, (nc,)+shape); m = c.rng.random((nc,)+shape); a[m<0.05] = np.nan; a[(m>0.05)&(m<0.08)] = 0; a[(m>0.08)&(m<0.1)] = 1; k = (m>0.1)&(m<0.14); a[k] = c.pick(1e3,1e7,1e20)*c.rng.choice([-1,1],k.sum())
    if c.flip(0.2): a[:] = np.abs(a)*c.pick(1e-3,1.)
    a = layout(c, a.astype(c.pick(np.float64,np.float64,np.float32))); c.note(mode=mode, driver=drv, shape=shape, nc=nc)
    with c.keeps("colorize direct", a): got = colorize.colorize(a, mode=mode, driver=drv)
    b = np.asarray(a, float).reshape(nc,-1); bad = np.isnan(b).any(0); b = np.where(bad, 0, b)
    if mode == "direct_colorcap":
        amp = np.sqrt((b[:3]**2).sum(0)); f = np.minimum(1, amp)/np.maximum(amp, 1e-200); b = b.copy(); b[:3] *= f
    ref = np.full((b.shape[1],4), 255.); ref[:,:nc] = np.clip(b*256, 0, 255).T; ref[bad] = 0
    colclose(c, got, ref.reshape(shape+(4,)), "colorize "+mode)

def arrops(c):
    dt = c.pick(np.float32, np.float64); k = c.pick("contour","contour","roll","roll","rect","mul","mul","sym"); c.note(op=k, dtype=dt.__name__)
    tol = 1e-5 if dt == np.float32 else 1e-12
    if k == "contour":
        ny, nx = c.int(1,40), c.int(1,40); nv = c.int(1,6); vals = np.sort(c.uni(-2,2,nv)).astype(dt); a = arr(c, (ny,nx)).astype(dt); a = a if c.flip() else np.round(a); vals = np.unique(vals if c.flip() else np.round(vals*2)/2).astype(dt); a[c.rng.random(a.shape)<0.05] = np.nan if c.flip() else 0
        a = layout(c, a) if c.flip() else a; given = c.flip(); c.note(shape=a.shape, given=given)
        with c.keeps("find_contours", a, vals):
            if given: o = np.full(a.shape, 7, np.int32); array_ops.find_contours(a, vals, o)
            else: o = array_ops.find_contours(enmap.enmap(np.ascontiguousarray(a), copy=False) if c.flip() else np.ascontiguousarray(np.nan_to_num(a, nan=-1e9)), vals)
        w = np.where(np.isnan(a), 1, 1+(np.nan_to_num(a)[...,None] >= vals).sum(-1)); c.ok(o.shape == a.shape, "contour shape"); o = np.asarray(o)
        for y in range(ny-1):
            for x in range(nx-1):
                n = [min(w[y,x],q) for q in (w[y,x+1], w[y+1,x]) if q != w[y,x]]
                c.ok(o[y,x] in n if n else o[y,x] == 0, "contour map %d at %d,%d, expected %s" % (o[y,x], y, x, n or 0))
        c.ok(not o[-1].any() and not o[:,-1].any(), "contours on the last row or column")
    elif k == "roll":
        pre = premul(c); ny, nx = c.int(1,20), c.int(1,40); a = arr(c, pre+(ny,nx)).astype(dt); big = c.flip(0.4); off = c.rng.integers(-(5*nx if big else nx), (5*nx if big else nx)+1, ny); off = off.astype(np.int32 if c.flip() else np.int64); given = c.flip(0.4); c.note(shape=a.shape, big=big, given=given)
        a = enmap.ndmap(a, mkwcs("car",[0,0],[-1,1],[1,1])) if c.flip(0.4) else a
        with c.keeps("roll_rows", a, off):
            if given: o = np.full(a.shape, 7, dt); array_ops.roll_rows(a, off, o)
            else: o = array_ops.roll_rows(a, off)
        ref = np.array(a)
        for y in range(ny): ref[...,y,:] = np.roll(ref[...,y,:], off[y], -1)
        c.same(np.asarray(o), ref, "roll_rows")
    elif k == "rect":
        a = c.uni(-7,7,(c.int(1,200),2)).astype(dt); a = layout(c, a)
        with c.keeps("ang2rect", a): o = array_ops.ang2rect(a)
        p, t = a.astype(float).T; c.close(o, np.array([np.cos(p)*np.cos(t), np.sin(p)*np.cos(t), np.sin(t)]).T, "ang2rect", rtol=0, atol=10*tol)
    elif k == "mul":
        pre = c.pick((), (c.int(1,9),), (3,c.int(1,5))); n, m = c.int(1,6), c.int(1,6); A = arr(c, pre+(n,m)).astype(dt); B = arr(c, pre+(m,)).astype(c.pick(np.float32,np.float64))
        where = c.pick("last","first"); c.note(A=A.shape, where=where)
        if where == "last":
            with c.keeps("matmul", A, B): o = array_ops.matmul(A, B)
        else:
            A2 = np.moveaxis(A, (-2,-1), (0,1)).copy(); B2 = np.moveaxis(B, -1, 0).copy()
            with c.keeps("matmul", A2, B2): o = np.moveaxis(array_ops.matmul(A2, B2, axes=[0,1]), 0, -1)
        c.close(o, np.einsum("...ij,...j->...i", A.astype(float), B.astype(float)), "matmul", rtol=0, atol=1e-4 if o.dtype == np.float32 else 1e-5 if dt == np.float32 else 1e-11)
    else:
        pre = c.pick((), (c.int(1,9),), (3,c.int(1,5))); n = c.int(1,6); A = arr(c, pre+(n,n)).astype(dt); A = A+np.swapaxes(A,-1,-2); B = arr(c, pre+(n,)).astype(dt)
        with c.keeps("matmul_sym", A, B): o = array_ops.matmul_sym(A, B)
        c.close(o, np.einsum("...ij,...j->...i", A.astype(float), B.astype(float)), "matmul_sym", rtol=0, atol=1e-4 if dt == np.float32 else 1e-11)

def img(p): return np.array(p.img)
def oriented(m):
    """Pixels with dec upwards and RA to the left, as in the image"""
    a = np.asarray(m); w = m.wcs.wcs.cdelt
    if w[1] > 0: a = a[...,::-1,:]
    if w[0] > 0: a = a[...,:,::-1]
    return a
def plots(c):
    s, w = patch(c, projs=("car","car","cea","tan"), nmin=6, nmax=30); pre = c.pick((), (), (3,), (2,2)); m = enmap.ndmap(arr(c, pre+s)*3, w); m[c.rng.random(m.shape)<0.05] = np.nan
    desc, vals, cols = scheme(c); how = c.pick("range","minmax","auto","ranges"); kw = dict(color=desc, grid=0); n = int(np.prod(pre)) if pre else 1; v1 = np.full(n,-1.); v2 = np.full(n,1.); note_geo(c, s, w)
    if how == "range": r = c.uni(0.5,6); kw["range"] = r; v1[:], v2[:] = -r, r
    elif how == "ranges": r = np.round(c.uni(0.5,6,c.int(1,n)),3); kw["range"] = ":".join("%.3f" % x for x in r); r = np.concatenate([r, np.full(n-len(r), r[-1])]); v1, v2 = -r, r
    elif how == "minmax": v1[:] = c.uni(-5,0); v2[:] = c.uni(0.5,6); kw["min"], kw["max"] = v1[0], v2[0]
    else:
        q = c.pick(0.01, c.uni(0,0.3)); kw["quantile"] = q; f = np.sort(np.asarray(m)[np.isfinite(m)]); i = min(len(f)-1, int(round(len(f)*q))); v1[:], v2[:] = f[i], f[len(f)-1-i]
    ref = m.copy(); extra = c.pick("none","none","none","mask","up","down","op","rev","slice","file","layers","cli")
    if extra == "mask": val = c.pick(0., 1.5); m[...,0,:] = val; ref = m.copy(); ref[np.abs(np.nan_to_num(ref, nan=val+1)-val) < 1e-13] = np.nan; kw["mask"] = val
    if extra == "up":   f = c.int(2,3); kw["upgrade"] = f; ref = enmap.ndmap(np.repeat(np.repeat(np.asarray(m), f, -1), f, -2), w)
    if extra == "down":
        m = enmap.ndmap(np.nan_to_num(np.asarray(m)), w); f = c.int(2,3); kw["downgrade"] = f; t = tuple(q//f for q in s); ref = enmap.ndmap(np.asarray(m)[...,:t[0]*f,:t[1]*f].reshape(pre+(t[0],f,t[1],f)).mean((-3,-1)), w)
    if extra == "op":   kw["op"] = "m*2+1"; ref = m*2+1
    if extra in ("mask","down","op","up") and how == "auto":
        f = np.sort(np.asarray(ref)[np.isfinite(ref)]); i = min(len(f)-1, int(round(len(f)*kw["quantile"]))); v1[:], v2[:] = f[i], f[len(f)-1-i]
    if how == "auto" and v1[0] == v2[0]: return
    if extra == "rev":  kw["reverse_color"] = True
    if extra == "layers": kw["layers"] = True
    src = m
    if extra == "file": src = c.tmpdir()+"/m.fits"; enmap.write_map(src, m)
    c.note(how=how, extra=extra, pre=pre); args = [src]
    if extra == "cli" and how in ("range","ranges"): args.append("-r %s" % kw.pop("range")); args.append("-g --color='%s'" % kw.pop("color")); kw.pop("grid")
    with c.keeps("plot", m): res = enplot.plot(*args, **kw)
    c.ok(len(res) == n, "%d plots for %d fields" % (len(res), n)); o = oriented(ref).reshape((n,)+np.shape(ref)[-2:])
    for i, p in enumerate(res):
        x = (o[i]-v1[i])/(v2[i]-v1[i]); x = 1-x if extra == "rev" else x; colclose(c, img(p), refcolor(vals, cols, x), "plot %d of %d" % (i, n))
    names = [p.name for p in res]; c.ok(len(set(names)) == n, "plots of different fields share a name: %s" % names)
    if c.flip(0.5) and extra != "file":
        import PIL.Image
        d = c.tmpdir(); enplot.write(d+"/q", res)
        for p in res:
            c.same(np.array(PIL.Image.open(d+"/q"+p.name)), img(p), "written plot")

def overlay(c):
    s, w = patch(c, projs=("car",), nmin=70, nmax=110, maxwidth=10.); m = enmap.ndmap(arr(c, s), w); w0 = m.copy(); note_geo(c, s, w)
    base = img(enplot.plot(m, grid=0, range=2)[0]); flat = oriented(m)
    k = c.pick("grid","colorbar","contour","contour","annot"); c.note(kind=k)
    if k == "grid":   # the map image is found unchanged inside the labelled one, apart from the grid lines
        t = c.pick(0.25,0.5,1,1.5,2); res = enplot.plot(m, grid=1, range=2, ticks=t, layers=True); L = {n: np.array(p.img) for n, p in zip(res[0].info.names, res)}; b = res[0].info.bounds
        c.ok("img" in L and "grid" in L, "layers %s" % sorted(L)); y0, x0 = int(-b[0,1]), int(-b[0,0]); c.same(L["img"][y0:y0+s[0], x0:x0+s[1]], base, "map layer of a labelled plot")
        g = L["grid"][y0:y0+s[0], x0:x0+s[1], 3] > 0; pos = skygrid(s, w); pos = pos if w.wcs.cdelt[1] < 0 else pos[:,::-1]; pos = pos if w.wcs.cdelt[0] < 0 else pos[:,:,::-1]
        # every grid pixel is next to a multiple of the tick distance
        st = np.deg2rad(t); res_ = np.deg2rad(np.abs(w.wcs.cdelt[::-1])); d = [np.abs(pos[i]-np.round(pos[i]/st)*st)/res_[i] for i in (0,1)]
        c.ok(np.all((d[0][g] < 2.1)|(d[1][g] < 2.1)), "grid lines away from the tick positions: up to %g pixels" % np.max(np.minimum(d[0],d[1])[g], initial=0))
        # and every multiple of the tick distance that is well inside the map has its line
        for i in (0,1):
            cen = pos[i][:,s[1]//2] if i == 0 else pos[i][s[0]//2]; gi = g if i == 0 else g.T
            for k_ in range(int(np.ceil(cen.min()/st)), int(np.floor(cen.max()/st))+1):
                j = int(np.argmin(np.abs(cen-k_*st)))
                if j < 4 or j > len(cen)-5: continue
                f = gi[j-2:j+3].any(0).mean(); c.ok(f > 0.8, "the grid line at %s=%g deg is missing (%.0f%% drawn)" % (("dec","ra")[i], k_*t, f*100))
    elif k == "colorbar":
        p = enplot.plot(m, grid=0, range=2, colorbar=1)[0]; a = img(p); b = p.info.bounds; y0, x0 = int(-b[0,1]), int(-b[0,0]); c.same(a[y0:y0+s[0],x0:x0+s[1]], base, "map in a plot with a color bar"); c.ok(a.shape[0] > s[0], "no color bar")
    elif k == "contour":
        how = c.pick("text","list","step","basestep","relative","uniform"); lo, hi = c.pick((-2.,2.), (-2.,2.), (-1.,2.), (0.5,2.), (-2.,-0.25)); kw = {}; width = c.pick(1,1,3); c.note(how=how, lo=lo, hi=hi, width=width)
        if how in ("text","list"): lev = [float("%.4f" % v) for v in sorted(c.uni(-1.5,1.5,c.int(1,3)))]; spec = ",".join("%.4f" % v for v in lev)+"," if how == "text" else lev; kw["contour_type"] = "list"
        else:   # evenly spaced levels inside the color range, ends included (all numbers are exact in binary)
            first, step = c.pick(0., 0.25, -0.5, 3., 0.125), c.pick(0.25, 0.5, 1., 0.375); first = 0. if how == "step" else first; nr = c.pick(2,4,8); spec = "%g" % step if how == "step" else "%g:%g" % (first,step) if how == "basestep" else "%g:-%d" % (first,nr) if how == "relative" else [first,step]
            step = (hi-lo)/nr if how == "relative" else step; q = np.arange(-100,100)*step+first; lev = list(q[(q >= lo)&(q <= hi)])
        base = img(enplot.plot(m, grid=0, min=lo, max=hi)[0]); res = enplot.plot(m, grid=0, min=lo, max=hi, contours=spec, contour_color="00ff00", contour_width=width, layers=True, **kw); L = {n: np.array(p.img) for n, p in zip(res[0].info.names, res)}
        cimg = L["cont"][...,3] > 0; b = (flat[...,None] >= np.array(lev)).sum(-1); cross = np.zeros(s, bool); cross[:-1,:-1] = (b[:-1,:-1] != b[:-1,1:])|(b[:-1,:-1] != b[1:,:-1])
        if width == 1: c.same(cimg, cross, "contour pixels")
        else: near = np.zeros(s, bool); P = np.pad(cross, width); [near.__ior__(P[width+dy:width+dy+s[0],width+dx:width+dx+s[1]]) for dy in range(-width,width+1) for dx in range(-width,width+1)]; c.ok(np.all(cimg[cross]) and np.all(near[cimg]), "wide contours do not follow the contour"); c.ok(cimg.sum() > cross.sum() or not cross.any() or cross[:-1,:-1].all(), "contours of width %d are no wider" % width)
        c.same(L["img"], base, "image layer")
    else:
        y, x = c.int(6,s[0]-7), c.int(6,s[1]-7); dec, ra = ref_pix2sky(w, y, x); rad = c.int(2,5)
        res = enplot.plot(m, grid=0, range=2, annotate=[["circle", np.rad2deg(dec), np.rad2deg(ra), 0, 0, rad, 1, "black"]], layers=True); L = {n: np.array(p.img) for n, p in zip(res[0].info.names, res)}; a = L["annot"][...,3] > 0
        yy, xx = (y if w.wcs.cdelt[1] < 0 else s[0]-1-y), (x if w.wcs.cdelt[0] < 0 else s[1]-1-x); Y, X = np.nonzero(a); c.ok(len(Y) > 3, "annotation not drawn")
        c.ok(abs(Y.mean()-yy) < 1.6 and abs(X.mean()-xx) < 1.6, "circle drawn around %g,%g instead of %d,%d" % (Y.mean(), X.mean(), yy, xx)); r = np.hypot(Y-yy, X-xx); c.ok(r.max() < rad*1.5+3 and r.max() > rad-2, "circle of radius %g instead of %d" % (r.max(), rad))
    c.same(np.asarray(m), np.asarray(w0), "plotting changed the map")

def options(c):
    """What the options select, in the order the documentation gives, against plain numpy indexing"""
    s, w = patch(c, projs=("car","car","cea","tan"), nmin=10, nmax=28, maxwidth=10.); pre = c.pick((), (3,), (2,), (2,2), (2,3)); m = enmap.ndmap(arr(c, pre+s)*2, w); note_geo(c, s, w)
    desc, vals, cols = scheme(c); r = round(float(c.uni(0.5,6)), 3); kw = dict(color=desc, grid=0, range=r); k = c.pick("slice","slice2","op2","sub","crop","cropeach","stamps","tile","tile","rgb","masktol","sym","many","fslice","scale2"); c.note(k=k, pre=pre)
    sy, sx = w.wcs.cdelt[1] > 0, w.wcs.cdelt[0] > 0
    def orient(a): a = np.asarray(a); a = a[...,::-1,:] if sy else a; return a[...,:,::-1] if sx else a
    def flat(a): return np.asarray(a).reshape((-1,)+np.shape(a)[-2:])
    def judge(res, exp, ranges=None):
        c.ok(len(res) == len(exp), "%s: %d plots instead of %d" % (k, len(res), len(exp)))
        for i, (p, e) in enumerate(zip(res, exp)): R = r if ranges is None else ranges[i]; colclose(c, img(p), refcolor(vals, cols, (e+R)/(2*R)), "plot %d of %d with %s" % (i, len(exp), k))
    if k in ("slice","fslice"):
        y1, x1 = c.int(0,s[0]//2-1), c.int(0,s[1]//2-1); y2, x2 = c.int(y1+2,s[0]), c.int(x1+2,s[1]); sl = "[...,%d:%d,%d:%d]" % (y1,y2,x1,x2); c.note(sl=sl)
        exp = flat(orient(np.asarray(m)[...,y1:y2,x1:x2]))
        if k == "slice": judge(enplot.plot(m, slice=sl, **kw), exp)
        else: f = c.tmpdir()+"/a.fits"; enmap.write_map(f, m); judge(enplot.plot(f+":"+sl, noglob=True, **kw), exp)
    elif k == "slice2":   # slicing can pick out fields and turn the image around
        a = np.asarray(m); st = (c.pick(1,-1,2,-2), c.pick(1,-1,3,-1)); i = c.int(0,pre[0]-1) if pre else None; sl = "[%s...,::%d,::%d]" % ("" if i is None else "%d," % i, st[0], st[1]); c.note(sl=sl)
        judge(enplot.plot(m, slice=sl, **kw), flat(orient((a if i is None else a[i])[...,::st[0],::st[1]])))
    elif k == "op2": judge(enplot.plot(m, op2="a = m*2; m = a+1", **kw), flat(orient(np.asarray(m)*2+1)))
    elif k == "scale2": f = (c.int(1,3), c.int(1,3)); judge(enplot.plot(m, upgrade="%d,%d" % f, **kw), flat(orient(np.repeat(np.repeat(np.asarray(m), f[0], -2), f[1], -1))))
    elif k == "sub":
        y1, x1 = c.int(0,s[0]//2-1), c.int(0,s[1]//2-1); y2, x2 = c.int(y1+3,s[0]), c.int(x1+3,s[1])
        if w.wcs.ctype[0][-3:] == "TAN": return
        b = [np.rad2deg(ref_pix2sky(w, y, x)) for y, x in ((y1+0.2,x1-0.2),(y2-0.2,x2+0.2))]
        got = enplot.plot(m, sub="%.9f:%.9f,%.9f:%.9f" % (b[0][0],b[1][0],b[0][1],b[1][1]), **kw); judge(got, flat(orient(np.asarray(m)[...,y1:y2,x1:x2])))
    elif k in ("crop","cropeach"):
        a = np.zeros(pre+s); n = int(np.prod(pre)) if pre else 1; f = a.reshape((n,)+s); box = []
        for i in range(n):
            y1, x1 = c.int(0,s[0]//2-1), c.int(0,s[1]//2-1); y2, x2 = c.int(y1+2,s[0]), c.int(x1+2,s[1]); f[i,y1:y2,x1:x2] = c.uni(0.5,2,(y2-y1,x2-x1))*c.rng.choice([-1,1],(y2-y1,x2-x1)); box.append((y1,y2,x1,x2))
        m = enmap.ndmap(a, w)
        if k == "crop":
            nz = np.any(f != 0, 0); Y, X = np.nonzero(nz.any(1))[0], np.nonzero(nz.any(0))[0]; judge(enplot.plot(m, autocrop=True, **kw), orient(f[:,Y[0]:Y[-1]+1,X[0]:X[-1]+1]))
        else: judge(enplot.plot(m, autocrop_each=True, **kw), [orient(f[i,b[0]:b[1],b[2]:b[3]]) for i, b in enumerate(box)])
    elif k == "stamps":
        n = c.int(1,4); size = c.pick(None, c.int(2,9)); nmax = c.pick(None, c.int(1,n)) if size else None; P = np.stack([c.rng.integers(-2,s[0]+2,n), c.rng.integers(-2,s[1]+2,n)], -1).astype(float)+c.uni(-0.2,0.2,(n,2)); sz = size or 16
        q = P-0.5*sz; P = P+np.where(np.abs(q-np.floor(q)-0.5) < 0.05, 0.1, 0); sky = np.array([np.rad2deg(ref_pix2sky(w, y, x)) for y, x in P]); f = c.tmpdir()+"/pos.txt"; np.savetxt(f, sky[:,::-1], fmt="%.10f"); c.note(size=size, nmax=nmax)
        got = enplot.plot(m, stamps=f+("" if size is None else ":%d" % size)+("" if nmax is None else ":%d" % nmax), **kw); exp = []; big = np.full(pre+(s[0]+80,s[1]+80), np.nan); big[...,40:40+s[0],40:40+s[1]] = m
        for y, x in P[:nmax]: cy, cx = [int(np.round(v-0.5*sz))+40 for v in (y,x)]; exp += list(flat(orient(big[...,cy:cy+sz,cx:cx+sz])))
        judge(got, exp)
    elif k == "tile":
        n = int(np.prod(pre)) if pre else 1; f = flat(orient(m)); how = c.pick("rc","r","c","auto"); nr, nc = c.int(1,3), c.int(1,3); tr = c.flip(0.4)
        if how == "rc":  nr = max(nr, -(-n//nc)); t = "%d,%d" % (nr,nc)
        elif how == "r": nc = -(-n//nr); t = c.pick("%d" % nr, "%d,-1" % nr)
        elif how == "c": nr = -(-n//nc); t = "-1,%d" % nc
        else: nc = int(np.ceil(n**0.5-1e-9)); nr = -(-n//nc); t = "-1"
        c.note(tile=t, transpose=tr); H, W = s; exp = np.zeros((nr*H, nc*W))
        for i in range(n): a, b = (i//nc, i%nc) if not tr else (i%nr, i//nr); exp[a*H:(a+1)*H, b*W:(b+1)*W] = f[i]
        judge(enplot.plot(m, tile=t, tile_transpose=tr, **kw), [exp])
    elif k == "rgb":
        pre = c.pick((3,), (2,3)); m = enmap.ndmap(arr(c, pre+s)*2, w); n = int(np.prod(pre)); rs = [round(float(x),3) for x in c.uni(0.5,4,c.pick(1,n))]; kw["range"] = ":".join("%.3f" % x for x in rs); rs = rs+[rs[-1]]*(n-len(rs)); rev = c.flip(0.3); m[c.rng.random(m.shape)<0.02] = np.nan; c.note(pre=pre, rs=len(set(rs)), rev=rev)
        got = enplot.plot(m, rgb=True, reverse_color=rev, **kw); f = flat(orient(m)); c.ok(len(got) == n//3, "%d rgb images from %d fields" % (len(got), n))
        for g in range(n//3):
            x = np.stack([(f[3*g+j]+rs[3*g+j])/(2*rs[3*g+j]) for j in range(3)]); x = 1-x if rev else x; bad = np.isnan(x).any(0); ref = np.full(x.shape[1:]+(4,), 255.); ref[...,:3] = np.moveaxis(np.clip(np.where(bad,0,x)*256,0,255),0,-1); ref[bad] = 0; colclose(c, img(got[g]), ref, "rgb image %d" % g)
    elif k == "masktol":
        tol = c.pick(0.3, 1e-3); v = c.pick(0., 0.7); a = np.asarray(m); a = np.where(np.abs(np.abs(a-v)-tol) < 1e-6, a+1e-4, a); m = enmap.ndmap(a, w); e = np.where(np.abs(a-v) <= tol, np.nan, a); judge(enplot.plot(m, mask=v, mask_tol=tol, **kw), flat(orient(e)))
    elif k == "sym":
        n = c.int(2,3); m = enmap.ndmap(arr(c, (n,n)+s)*2, w); got = enplot.plot(m, symmetric=True, **kw); f = orient(m); judge(got, [f[i,j] for i in range(n) for j in range(i,n)]); c.ok([p.name[-7:-4] for p in got] == ["%d_%d" % (i,j) for i in range(n) for j in range(i,n)], "names of the plots of a symmetric matrix: %s" % [p.name for p in got])
    else:   # several maps, from memory and from disk, each under its own name
        m2 = enmap.ndmap(arr(c, s), w); d = c.tmpdir(); enmap.write_map(d+"/zz.fits", m2); got = enplot.plot((m, "foo/first.fits"), d+"/zz.fits", m2*0.5, suffix="_s", **kw); exp = list(flat(orient(m)))+[orient(m2), orient(m2)*0.5]; judge(got, exp)
        n = len(exp)-2; names = [p.name for p in got]; comps = [""] if not pre else ["_"+"_".join("%d" % q for q in i) for i in np.ndindex(*pre)]
        c.ok(names[:n] == ["foo/first_s%s.png" % q for q in comps], "names of named maps: %s" % names[:n]); c.ok(names[n] == d+"/zz_s.png", "name of the plot of a file: %s" % names[n])

MONITORS = [("scalar", scalar, 600, 4000), ("direct", direct, 500, 3000), ("arrops", arrops, 800, 5000), ("plots", plots, 300, 1500), ("overlay", overlay, 240, 800), ("options", options, 400, 2500)]

"""Map operations act per component, keep coordinates and leave their inputs alone"""
import numpy as np
from gen import *
from pixell import enmap, utils, wcsutils, curvedsky

INFO = {
  "rule": "expected values from numpy on plain arrays or from explicit loops; metamorphic comparison of the same call on other memory layouts and on single components",
  "assumptions": ["arrays in native byte order"]}

def wstate(w): return (w.to_header_string(), tuple(w.wcs.crval), tuple(w.wcs.cdelt), tuple(w.wcs.crpix), tuple(w.wcs.ctype))

def relayout(c, a, kind):
    """an array equal to a, laid out differently in memory"""
    a = np.asarray(a)
    if kind == "C": return np.ascontiguousarray(a)
    if kind == "F": return np.asfortranarray(a)
    if kind == "strided":
        big = np.full(a.shape[:-2]+(2*a.shape[-2], 3*a.shape[-1]), 77, a.dtype); v = big[...,::2,::3]; v[...] = a; return v
    if kind == "reversed":
        r = np.ascontiguousarray(a[...,::-1,::-1]); return r[...,::-1,::-1]
    if kind == "prelast":
        p = np.ascontiguousarray(np.moveaxis(a, (-2,-1), (0,1))); return np.moveaxis(p, (0,1), (-2,-1))
    if kind == "pretrans":
        if a.ndim < 4: return np.asfortranarray(a)
        return np.ascontiguousarray(np.swapaxes(a, 0, 1)).swapaxes(0, 1)
    if kind == "readonly":
        r = a.copy(); r.flags.writeable = False; return r
LAYOUTS = ["C","F","strided","reversed","prelast","pretrans","readonly"]

def _box(c, shape, wcs):
    y = np.sort(c.rng.uniform(0, shape[-2]-1, 2)); x = np.sort(c.rng.uniform(0, shape[-1]-1, 2))
    p = np.array(ref_pix2sky(wcs, y, x)).T
    return p

# name -> setup(c, shape, wcs) -> f(map).  f must act on each leading component alone
def _ops(c, name, shape, wcs):
    ny, nx = shape[-2:]
    pix = np.array([c.uni(1, ny-2, 7), c.uni(1, nx-2, 7)])
    pos = np.array(ref_pix2sky(wcs, pix[0], pix[1]))
    mask = c.rng.random((ny,nx)) < 0.2
    if   name == "smooth":   s = c.uni(0.3,2)*enmap.pixsize(shape, wcs)**0.5; return lambda m: enmap.smooth_gauss(m, s)
    elif name == "window":   p = c.pick(1.0, -1.0, 0.5); o = c.int(0,1); return lambda m: enmap.apply_window(m, p, order=o)
    elif name == "fshift":   off = c.uni(-2,2,2); return lambda m: enmap.fractional_shift(m, off)
    elif name == "resample": os = (c.int(3,ny+5), c.int(3,nx+5)); return lambda m: enmap.resample(m, os, method="fft")
    elif name == "resample_spline": os = (c.int(3,ny+5), c.int(3,nx+5)); return lambda m: enmap.resample(m, os, method="spline")
    elif name == "downgrade": f = (c.int(1,3), c.int(1,3)); op = c.pick(np.mean, np.sum, np.max); return lambda m: enmap.downgrade(m, f, op=op)
    elif name == "upgrade":  f = (c.int(1,3), c.int(1,3)); return lambda m: enmap.upgrade(m, f)
    elif name == "project":  g = patch(c, projs=("car","tan"), nmax=12); o = c.pick(0,1,3); return lambda m: enmap.project(m, g[0], g[1], order=o, border=c_border)
    elif name == "extract":
        w = wcs.deepcopy(); w.wcs.crpix -= [c.int(-3,5), c.int(-3,5)]; os = (c.int(2,ny+3), c.int(2,nx+3)); return lambda m: enmap.extract(m, os, w)
    elif name == "submap":
        if proj_of(wcs) not in CYL: return lambda m: enmap.extract_pixbox(m, [[-1,-2],[ny-2,nx+1]])
        b = _box(c, shape, wcs); return lambda m: enmap.submap(m, b)
    elif name == "pad":      p = (c.int(0,3), c.int(0,3)); v = c.pick(0, 5.0); return lambda m: enmap.pad(m, p, value=v)
    elif name == "padslice": b = [[c.int(-3,1), c.int(-3,1)], [c.int(2,ny+3), c.int(2,nx+3)]]; return lambda m: enmap.padslice(m, b)
    elif name == "apod":
        w = (c.int(0,ny//2), c.int(0,nx//2)); p = c.pick("cos","lin"); f = c.pick("zero","mean","median","crossfade"); return lambda m: enmap.apod(m, w, profile=p, fill=f)
    elif name == "fillbad":  v = c.pick(0, 3.0); return lambda m: enmap.fillbad(m, v)
    elif name == "inpaint":
        if mask.all() or not mask.any(): mask[:] = False; mask[1,1] = True
        return lambda m: enmap.inpaint(m, mask)
    elif name == "fft":      n = c.pick(True, False, "phys"); return lambda m: enmap.fft(m, normalize=n)
    elif name == "ifft":     n = c.pick(True, False, "phys"); return lambda m: enmap.ifft(m+0j, normalize=n)
    elif name == "dct":      return lambda m: enmap.dct(m)
    elif name == "harm":     return lambda m: enmap.harm2map(enmap.map2harm(m, spin=0), spin=0)
    elif name == "laplace":  return lambda m: enmap.laplace(m)
    elif name == "at":       o = c.pick(0,1,3); return lambda m: enmap.at(m, pos, order=o)
    elif name == "shift":    off = (c.int(-4,4), c.int(-4,4)); return lambda m: enmap.shift(m, off)
    elif name == "fftshift": return lambda m: enmap.fftshift(m)
    elif name == "stamps":   return lambda m: np.moveaxis(np.asarray(enmap.stamps(m, np.floor(pix.T[:3]).astype(int), 4, aslist=False)), 0, -3)
    elif name == "lbin":     return lambda m: enmap.lbin(np.abs(enmap.fft(m))**2)[0]
    elif name == "rbin":     ct = ref_pix2sky(wcs, c.uni(0,ny-1), c.uni(0,nx-1)); return lambda m: enmap.rbin(m, center=np.array(ct))[0]
    elif name == "slice":    s = (slice(c.int(0,2), c.int(3,ny)), slice(c.int(0,2), c.int(3,nx), c.int(1,2))); return lambda m: m[(Ellipsis,)+s]
    elif name == "sharp":    return lambda m: enmap.downgrade_fft(enmap.upgrade_fft(m, 2), 2)
    raise ValueError(name)
OPS = ["smooth","window","fshift","resample","resample_spline","downgrade","upgrade","project","extract","submap","pad","padslice","apod","fillbad","inpaint",
  "fft","ifft","dct","harm","laplace","at","shift","fftshift","stamps","lbin","rbin","slice","sharp"]
c_border = "constant"

def opsmeta(c):
    """the same call on other memory layouts, on single components and repeated; inputs and coordinates untouched"""
    name = OPS[c.idx % len(OPS)]
    shape, wcs = patch(c, projs=("car","car","cea","tan","zea"), nmin=6, nmax=24)
    pre = c.pick((), (2,), (3,), (2,3), (1,), (2,1,2))
    dt  = c.pick(np.float64, np.float64, np.float32)
    a   = gen_arr(c, pre+shape, dt)
    note_geo(c, shape, wcs); c.note(op=name, pre=pre, dtype=str(np.dtype(dt)))
    f   = _ops(c, name, shape, wcs)
    m   = enmap.ndmap(a.copy(), wcs); ws = wstate(m.wcs)
    ref = f(m)
    c.same(np.asarray(m), a, "%s changed its input map" % name)
    c.ok(wstate(m.wcs) == ws, "%s changed the coordinates of its input map" % name)
    refv = np.array(ref)
    tol  = 1e-10 if dt == np.float64 else 2e-4
    sc   = max(np.max(np.abs(refv[np.isfinite(refv)])) if np.isfinite(refv).any() else 0, np.max(np.abs(a)))
    # repeat
    c.close(np.asarray(f(m)), refv, "%s called twice" % name, rtol=tol*1e-2, scale=sc)
    # layouts
    for lay in (c.choice(LAYOUTS), c.choice(LAYOUTS)):
        b = relayout(c, a, lay); v = enmap.ndmap(b, wcs)
        r = f(v)
        c.close(np.asarray(r), refv, "%s of the same map with %s memory layout" % (name, lay), rtol=tol, scale=sc)
        c.same(b, a, "%s changed its input (%s layout)" % (name, lay))
        if isinstance(ref, enmap.ndmap) and isinstance(r, enmap.ndmap): c.ok(wstate(r.wcs) == wstate(ref.wcs), "%s: coordinates of the result depend on the memory layout" % name)
    # components
    if pre:
        I = tuple(c.int(0,n-1) for n in pre)
        r = f(enmap.ndmap(a[I], wcs))
        c.close(np.asarray(r), refv[I], "%s of one component vs that component of the result" % name, rtol=tol, scale=sc)
    if dt == np.float32:
        r = f(enmap.ndmap(a.astype(np.float64), wcs))
        c.close(refv, np.asarray(r), "%s in single vs double precision" % name, rtol=1e-3, scale=max(sc, np.max(np.abs(a))))

def gen_arr(c, shape, dt): return (c.rng.standard_normal(shape)+c.pick(0,0,3)).astype(dt)

def arith(c):
    """ufuncs, broadcasting, reductions, type conversion and assignment behave as for arrays and keep the coordinates"""
    shape, wcs = anygeo(c, nmax=16); pre = premul(c)
    a, b = gen_arr(c, pre+shape, np.float64), gen_arr(c, shape, np.float64)
    m, n = enmap.ndmap(a.copy(), wcs), enmap.ndmap(b.copy(), wcs)
    note_geo(c, shape, wcs); ws = wstate(wcs); c.note(pre=pre)
    def chk(r, want, what):
        c.ok(isinstance(r, enmap.ndmap), "%s is not a map" % what)
        c.same(np.asarray(r), want, what); c.ok(wstate(r.wcs) == ws, "%s: coordinates differ" % what)
    chk(m+n, a+b, "map+map"); chk(m*2.5, a*2.5, "map*scalar"); chk(3/(1+m**2), 3/(1+a**2), "scalar/map"); chk(m-b, a-b, "map-array"); chk(b-m, b-a, "array-map")
    chk(np.sin(m), np.sin(a), "sin(map)"); chk(-m, -a, "-map"); chk(m > 0, a > 0, "comparison"); chk((m>0)&(n>0), (a>0)&(b>0), "logical and"); chk(~(m>0), ~(a>0), "not")
    chk(np.maximum(m,n), np.maximum(a,b), "maximum"); chk(np.abs(m+1j*n), np.abs(a+1j*b), "abs(complex)"); chk((m+1j*n).imag, np.broadcast_to(b, a.shape), "imag"); chk((m+1j*n).conj(), (a+1j*b).conj(), "conj")
    chk(m.astype(np.float32), a.astype(np.float32), "astype"); chk(np.where(m>0,1,0)+0*m, np.where(a>0,1,0)+0*a, "where")
    if pre:
        chk(np.sum(m,0), np.sum(a,0), "sum over a leading axis"); chk(m.mean(0), a.mean(0), "mean over a leading axis"); chk(m[::-1], a[::-1], "reversed leading axis")
        i = c.int(0, pre[0]-1); chk(m[i], a[i], "component")
    c.same(np.asarray(np.sum(m,(-2,-1))), np.sum(a,(-2,-1)), "sum over pixels"); c.same(np.asarray(np.std(m)), np.std(a), "std"); c.close(float(np.median(m)), float(np.median(a)), "median", rtol=0)
    c.same(np.asarray(m), a, "arithmetic changed an operand"); c.ok(wstate(m.wcs) == ws, "arithmetic changed the coordinates")
    # in place
    k = m.copy(); k += n; chk(k, a+b, "+="); k *= 2; chk(k, (a+b)*2, "*="); k[k<0] = 0; chk(k, np.maximum((a+b)*2,0), "masked assignment")
    c.same(np.asarray(m), a, "in-place arithmetic on a copy changed the original")
    # copies are independent, views are not
    k = m.copy(); k.wcs.wcs.crval[0] += 1; k[...] = 0
    c.ok(wstate(m.wcs) == ws, "changing the wcs of a copy changed the original"); c.same(np.asarray(m), a, "changing a copy changed the original")
    y0 = c.int(0, shape[0]-2); v = m[...,y0:y0+1,:]; v[...] = 7; a2 = a.copy(); a2[...,y0:y0+1,:] = 7
    c.same(np.asarray(m), a2, "writing to a slice writes to the map"); c.ok(wstate(m.wcs) == ws, "slicing changed the wcs of the original")
    w = enmap.ndmap(a, wcs); w.wcs.wcs.crpix[0] += 5; c.ok(wstate(wcs) == ws, "changing a map's wcs changed the wcs it was built from")

def zeroed(m): m[...] = 0; return m

def construct(c):
    shape, wcs = anygeo(c, nmax=16); pre = premul(c); ws = wstate(wcs); dt = c.pick(np.float64, np.float32, np.int32, np.complex128, bool)
    a = arr(c, pre+shape, dt); note_geo(c, shape, wcs); c.note(dtype=str(np.dtype(dt)))
    for nm, r, want in [("zeros", enmap.zeros(pre+shape, wcs, dt), np.zeros(pre+shape, dt)), ("ones", enmap.ones(pre+shape, wcs, dt), np.ones(pre+shape, dt)),
          ("full", enmap.full(pre+shape, wcs, 3, dt), np.full(pre+shape, 3, dt)), ("enmap", enmap.enmap(a, wcs), a), ("enmap of map", enmap.enmap(enmap.ndmap(a, wcs)), a),
          ("enmap of list", enmap.enmap([enmap.ndmap(a, wcs), enmap.ndmap(a, wcs)]), np.array([a,a])), ("enmap of a list of one", enmap.enmap([enmap.ndmap(a, wcs)]), a[None]), ("samewcs", enmap.samewcs(a, 3, "x", enmap.ndmap(a, wcs)), a), ("zeroed empty", zeroed(enmap.empty(pre+shape, wcs, dt)), np.zeros(pre+shape, dt))]:
        c.ok(isinstance(r, enmap.ndmap) and wstate(r.wcs) == ws, "%s: coordinates" % nm)
        c.same(np.asarray(r), want, nm); c.ok(r.dtype == want.dtype, "%s: dtype %s" % (nm, r.dtype))
    d2 = c.pick(np.float32, np.complex128); e = enmap.enmap(a, wcs, dtype=d2) if d2 == np.complex128 or dt != np.complex128 else None
    if e is not None: c.ok(e.dtype == d2, "enmap(dtype): %s" % e.dtype); c.same(np.asarray(e), a.astype(d2), "enmap with another data type")
    e = enmap.enmap(a, wcs); e[...] = 1; e.wcs.wcs.crval[0] += 1
    c.ok(wstate(wcs) == ws, "enmap() kept a reference to the wcs"); c.ok(np.shares_memory(e, a) == False, "enmap(copy=True) kept a reference")
    c.ok(np.shares_memory(enmap.enmap(a, wcs, copy=False), a), "enmap(copy=False) copied"); c.ok(np.shares_memory(enmap.samewcs(a, enmap.ndmap(a, wcs)), a), "samewcs copied")
    c.ok(enmap.samewcs(a, 1, 2) is a, "samewcs without a map"); 
    m = enmap.ndmap(a, wcs)
    c.ok(m.npix == shape[0]*shape[1] and m.geometry[0] == pre+shape and wstate(m.geometry[1]) == ws, "npix/geometry"); c.same(np.asarray(m.preflat), a.reshape((-1,)+shape), "preflat"); c.ok(not isinstance(m.plain, enmap.ndmap) or m.plain.wcs.wcs.ctype[0] == "", "plain")
    g = enmap.Geometry(pre+shape, wcs)
    c.ok(tuple(g.nopre.shape) == shape and tuple(g.with_pre((5,)).shape) == (5,)+shape and g.npix == shape[0]*shape[1], "Geometry nopre/with_pre/npix")
    sh, w = g; c.ok(tuple(sh) == pre+shape and wstate(w) == ws and len(g) == 2, "Geometry unpacking")
    g2 = g.copy(); g2.wcs.wcs.crval[0] += 1; c.ok(wstate(g.wcs) == ws, "Geometry.copy shares its wcs")

def apodize(c):
    shape, wcs = patch(c, nmin=4); pre = premul(c); a = gen_arr(c, pre+shape, np.float64)
    m = enmap.ndmap(a.copy(), wcs)
    w = (c.int(0, shape[0]//2), c.int(0, shape[1]//2)); prof = c.pick("cos","lin"); fill = c.pick("zero","mean","median","crossfade")
    if c.flip(0.2): w = (min(w),)*2; warg = w[0]
    else: warg = w
    note_geo(c, shape, wcs); c.note(w=w, prof=prof, fill=fill)
    r = enmap.apod(m, warg, profile=prof, fill=fill); c.same(np.asarray(m), a, "apod changed its input"); c.ok(wstate(r.wcs) == wstate(wcs), "apod coordinates")
    c.same(np.asarray(m.apod(warg, profile=prof, fill=fill)), np.asarray(r), "the method")
    r = np.asarray(r)
    inner = (Ellipsis, slice(w[0], shape[0]-w[0]), slice(w[1], shape[1]-w[1]))
    c.close(r[inner], a[inner], "apod changed pixels away from the edge", rtol=1e-12, scale=np.max(np.abs(a)))
    if fill != "crossfade":
        def taper(n, w):
            t = np.ones(n)
            for i in range(w):
                x = (i+1)/(w+1); v = x if prof == "lin" else 0.5*(1-np.cos(np.pi*x)); t[i] = v; t[n-1-i] = v
            return t
        t = taper(shape[0],w[0])[:,None]*taper(shape[1],w[1])[None,:]
        off = 0 if fill == "zero" else (np.mean if fill == "mean" else np.median)(a, (-2,-1))[...,None,None]
        c.close(r, (a-off)*t+off, "apodized values", rtol=1e-11, scale=np.max(np.abs(a)))
    else:
        k = enmap.apod(enmap.ndmap(np.full(shape, 4.0), wcs), warg, profile=prof, fill=fill)
        c.close(np.asarray(k), np.full(shape, 4.0), "crossfade of a constant map", rtol=1e-12)
        # a map with different values along its opposite edges becomes continuous across them
        if w[1] >= 1:
            step = np.zeros(shape); step[:,shape[1]//2:] = 1
            k = np.asarray(enmap.apod(enmap.ndmap(step, wcs), (0,w[1]), profile="lin", fill=fill))
            c.ok(np.max(np.abs(k[:,0]-k[:,-1])) <= 1/(2*w[1]+1)+1e-12, "crossfade leaves a jump across the edge")
    r2 = m.copy(); q = enmap.apod(r2, warg, profile=prof, fill=fill, inplace=True); c.same(np.asarray(r2), r, "in-place apodization"); c.ok(np.shares_memory(q, r2), "inplace returned a copy")

def apodmask(c):
    shape, wcs = patch(c, nmin=6, projs=("car","cea","tan","zea"))
    mask = np.ones(shape, bool)
    for i in range(c.int(1,4)): mask[c.int(0,shape[0]-1):, :][:c.int(1,4), c.int(0,shape[1]-1):][:, :c.int(1,4)] = False
    pixsz = float(enmap.pixsize(shape, wcs)**0.5); width = c.uni(1.5, 6)*pixsz; edge = c.flip()
    m = enmap.ndmap(mask.copy(), wcs); note_geo(c, shape, wcs); c.note(width=width/pixsz, edge=edge)
    prof = c.pick(enmap.apod_profile_cos, enmap.apod_profile_lin)
    r = enmap.apod_mask(m, width, edge=edge, profile=prof); c.same(np.asarray(m), mask, "apod_mask changed its input"); c.ok(wstate(r.wcs) == wstate(wcs), "apod_mask coordinates")
    r = np.asarray(r); bad = ~mask
    if edge: bad = bad.copy(); bad[0] = bad[-1] = True; bad[:,0] = bad[:,-1] = True
    dec, ra = skygrid(shape, wcs)
    by, bx = np.nonzero(bad)
    if bad.all(): return
    d = np.full(shape, np.inf)
    for y, x in zip(by, bx): d = np.minimum(d, angsep(dec, ra, dec[y,x], ra[y,x]))
    c.ok(np.all(r[bad] == 0), "the apodized mask is not zero in the bad region")
    c.ok(np.all((r >= 0)&(r <= 1+1e-12)), "apodization outside [0,1]")
    # brute force distance, up to the pixel-level accuracy of the distance search
    tol = 0.6*max(np.max(enmap.pixshapemap(shape, wcs)), pixsz)/width
    x = np.clip(d/width, 0, 1); P = prof
    lo, hi = P(np.clip(x-tol,0,1)), P(np.clip(x+tol,0,1))
    c.ok(np.all((r >= lo-1e-9)&(r <= hi+1e-9)), "the transition does not follow the profile of the distance: off at %s" % (np.argwhere(~((r >= lo-1e-9)&(r <= hi+1e-9)))[:1].tolist(),))
    c.ok(np.all(np.abs(r[(d >= width*1.001)&~bad]-1) < 1e-6), "the mask is not 1 far inside the good region")

def inpainting(c):
    shape, wcs = patch(c, nmin=5, nmax=25); pre = premul(c); a = unique(c, pre+shape)
    kind = c.pick("random","block","edge","single"); mask = np.zeros(shape, bool)
    if kind == "random": mask = c.rng.random(shape) < c.uni(0.05,0.7)
    elif kind == "block": y,x = c.int(0,shape[0]-3), c.int(0,shape[1]-3); mask[y:y+c.int(1,9),x:x+c.int(1,9)] = True
    elif kind == "edge": mask[:c.int(1,shape[0]-1)] = True
    else: mask[c.int(0,shape[0]-1), c.int(0,shape[1]-1)] = True
    if mask.all() or not mask.any(): mask[:] = False; mask[0,0] = True
    note_geo(c, shape, wcs); c.note(kind=kind, pre=pre, nmask=int(mask.sum()))
    m = enmap.ndmap(a.copy(), wcs); mk = mask.copy()
    r = enmap.inpaint(m, mk); c.same(np.asarray(m), a, "inpaint changed its input"); c.same(mk, mask, "inpaint changed its mask"); c.ok(wstate(r.wcs) == wstate(wcs), "inpaint coordinates")
    r = np.asarray(r); c.same(r[...,~mask], a[...,~mask], "inpaint changed unmasked pixels")
    if kind == "block" and not (mask[0].any() or mask[-1].any() or mask[:,0].any() or mask[:,-1].any()):
        # a plane is restored by linear interpolation
        Y, X = np.mgrid[:shape[0],:shape[1]]; pl = np.broadcast_to(c.uni(-2,2)+c.uni(-1,1)*Y+c.uni(-1,1)*X, pre+shape); hid = pl.copy(); hid[...,mask] = -1000
        c.close(np.asarray(enmap.inpaint(enmap.ndmap(hid, wcs), mask, method="linear")), pl, "linear inpainting of a plane", rtol=0, atol=1e-7)
    gy, gx = np.nonzero(~mask)
    for y, x in list(zip(*np.nonzero(mask)))[:60]:
        d2 = (gy-y)**2+(gx-x)**2; near = d2 == d2.min()
        cand = a[...,gy[near],gx[near]]
        c.ok(np.any(np.all((r[...,y,x][...,None] == cand).reshape(-1, cand.shape[-1]), 0)), "a masked pixel did not get the value of a nearest unmasked pixel")

def fills(c):
    shape, wcs = patch(c); pre = premul(c); a = gen_arr(c, pre+shape, c.pick(np.float64,np.float32))
    bad = c.rng.random(a.shape) < 0.2; a[bad] = c.rng.choice([np.nan, np.inf, -np.inf], int(bad.sum())); v = c.pick(0, 2.5, -1)
    m = enmap.ndmap(a.copy(), wcs); want = a.copy(); want[bad] = v
    note_geo(c, shape, wcs)
    for nm, r in [("function", enmap.fillbad(m, v)), ("method", m.fillbad(v))]:
        c.same(np.asarray(r), want, "fillbad %s" % nm); c.ok(wstate(r.wcs) == wstate(wcs) and r.dtype == a.dtype, "fillbad %s coordinates and type" % nm)
    c.same(np.asarray(m), a, "fillbad changed its input")
    k = m.copy(); enmap.fillbad(k, v, inplace=True); c.same(np.asarray(k), want, "fillbad inplace"); k = m.copy(); k.fillbad(v, inplace=True); c.same(np.asarray(k), want, "fillbad inplace, method")

def blanks(c):
    """blank edges and automatic cropping and padding"""
    shape, wcs = patch(c, nmin=10, nmax=40); pre = premul(c)
    b = [[c.int(0,4), c.int(0,4)], [c.int(0,4), c.int(0,4)]]  # front/back x y/x
    val = c.pick(0., 1e3, np.nan)
    perc = bool(pre) and c.flip(0.4)
    va = (c.rng.integers(1, 50, pre).astype(float) if perc else np.full(pre, val))
    a = c.uni(100, 200, pre+shape)
    m = np.broadcast_to(va[...,None,None], pre+shape).copy(); sl = (Ellipsis, slice(b[0][0], shape[0]-b[1][0]), slice(b[0][1], shape[1]-b[1][1]))
    m[sl] = a[sl]; m0 = m.copy(); m = enmap.ndmap(m, wcs); note_geo(c, shape, wcs); c.note(blank=str(b), pre=pre, perc=perc, val=float(val))
    arg = va if perc else val
    c.same(enmap.find_blank_edges(m, arg), np.array(b), "blank edges")
    c.same(enmap.find_blank_edges(m, "none"), np.zeros((2,2),int), "blank edges with value=none")
    # automatic choice: finds the blank value when the edges are there
    auto = enmap.find_blank_edges(m)
    if all(v > 0 for r in b for v in r): c.same(auto, np.array(b), "blank edges, automatic value")
    for method in ("plain","fft"):
        margin = c.int(0,3); fac = c.pick(None, [2], [2,3], [2,3,5,7])
        value = arg if c.flip() else "none"
        r, info = enmap.autocrop(m, method=method, value=value, margin=margin, factors=fac, return_info=True)
        c.same(np.asarray(m), m0, "autocrop changed its input")
        bb = np.array(b) if not isinstance(value, str) else np.zeros((2,2),int)
        need = np.array(shape)-bb.sum(0)+margin
        if method == "plain": want = need
        else: want = np.array([_good(n, fac or [2,3,5,7,11,13]) for n in need])
        c.same(np.array(r.shape[-2:]), want, "autocrop size (%s, margin %d, factors %s)" % (method, margin, fac))
        # all non-blank content is still there at its position
        full = skygrid(shape, wcs)[:, bb[0][0]:shape[0]-bb[1][0], bb[0][1]:shape[1]-bb[1][1]]
        y0, x0 = (np.round(np.array(r.wcs.wcs.crpix[::-1])-wcs.wcs.crpix[::-1])+bb[0]).astype(int)
        c.ok(y0 >= 0 and x0 >= 0 and y0+full.shape[1] <= r.shape[-2] and x0+full.shape[2] <= r.shape[-1], "autocrop cut away content")
        c.same(np.asarray(r)[...,y0:y0+full.shape[1],x0:x0+full.shape[2]], m0[...,bb[0][0]:shape[0]-bb[1][0], bb[0][1]:shape[1]-bb[1][1]], "autocrop content")
        p = enmap.padcrop(m, info); c.same(np.asarray(p), np.asarray(r), "padcrop repeats autocrop"); c.ok(np.allclose(p.wcs.wcs.crpix, r.wcs.wcs.crpix), "padcrop coordinates")

def _good(n, fac):
    while True:
        k = n
        for f in fac:
            while k % f == 0: k //= f
        if k == 1: return n
        n += 1

def maphelpers(c):
    """matrix multiplication of maps, polarization flips, component rotation helpers keep inputs"""
    shape, wcs = patch(c, nmax=12); n, k = c.int(1,4), c.int(1,4)
    A = gen_arr(c, (n,k)+shape, np.float64); v = gen_arr(c, (k,)+shape, np.float64); note_geo(c, shape, wcs)
    m, w = enmap.ndmap(A.copy(), wcs), enmap.ndmap(v.copy(), wcs)
    r = enmap.map_mul(m, w); c.close(np.asarray(r), np.einsum("abyx,byx->ayx", A, v), "matrix times vector map", rtol=1e-12); c.ok(wstate(r.wcs) == wstate(wcs), "map_mul coordinates")
    s = enmap.map_mul(enmap.ndmap(A[0,0], wcs), w); c.close(np.asarray(s), A[0,0]*v, "scalar times vector map", rtol=1e-12)
    c.same(np.asarray(m), A, "map_mul changed its input"); c.same(np.asarray(w), v, "map_mul changed its input")

def methods(c):
    """a map's methods give what the functions of the same name give, with the same defaults"""
    shape, wcs = c.pick(lambda: patch(c, nmin=6, nmax=16), lambda: band(c, nymax=16)[:2], lambda: fullsky(c, nymin=6, nymax=12)[:2])(); pre = premul(c); note_geo(c, shape, wcs)
    a = gen_arr(c, pre+shape, np.float64); m = enmap.ndmap(a, wcs); S = m.shape; cyl = wcsutils.is_cyl(wcs)
    y, x = c.int(0, shape[0]-1), c.int(0, shape[1]-1)
    pos = np.array(ref_pix2sky(wcs, np.array([y, shape[0]/3]), np.array([x, shape[1]/2])))
    far = pos + np.array([[0.],[2*np.pi*c.int(-1,1)]])
    w2 = wcs.deepcopy(); w2.wcs.crpix -= [c.int(-3,3), c.int(-3,3)]
    w4 = w2.deepcopy(); w4.wcs.crpix -= c.uni(-0.4,0.4,2)
    if cyl and c.flip(): w2.wcs.crval[0] += 360*c.int(-1,1); w4.wcs.crval[0] += 360*c.int(-1,1)
    sub_ = (max(2,shape[0]-2), max(2,shape[1]-2)); pb = [[-2,-3],[shape[0]-1,shape[1]//2+1]]
    mask = enmap.ndmap(c.rng.random(shape) < 0.3, wcs); mask[0,0] = False; mask[-1,-1] = True
    lab  = enmap.ndmap(c.rng.integers(0,3,shape).astype(np.int32), wcs); lab[0,0] = 1; lab[-1,-1] = 0
    G = enmap
    def ins(f):
        o = m.copy(); p = enmap.ndmap(np.ones(pre+sub_), w2); f(o, p); return o
    def bad():
        o = m.copy(); o[...,0,0] = np.nan; o[...,-1,-1] = np.inf; return o
    T = {
      "sky2pix": (lambda: m.sky2pix(far), lambda: G.sky2pix(S, wcs, far)), "pix2sky": (lambda: m.pix2sky([[1,2.5],[-3,40]]), lambda: G.pix2sky(S, wcs, [[1,2.5],[-3,40]])),
      "contains": (lambda: m.contains(pos), lambda: G.contains(S, wcs, pos)), "corners": (lambda: m.corners(), lambda: G.corners(S, wcs)), "box": (lambda: m.box(), lambda: G.box(S, wcs)),
      "pixbox_of": (lambda: m.pixbox_of(sub_, w2), lambda: G.pixbox_of(wcs, sub_, w2)), "posmap": (lambda: m.posmap(), lambda: G.posmap(S, wcs)), "pixmap": (lambda: m.pixmap(), lambda: G.pixmap(S, wcs)),
      "modrmap": (lambda: m.modrmap(), lambda: G.modrmap(S, wcs)), "modrmap ref": (lambda: m.modrmap(ref=pos[:,0]), lambda: G.modrmap(S, wcs, ref=pos[:,0])), "lmap": (lambda: m.lmap(), lambda: G.lmap(S, wcs)), "modlmap": (lambda: m.modlmap(), lambda: G.modlmap(S, wcs)),
      "laxes": (lambda: m.laxes(), lambda: G.laxes(S, wcs)), "lform": (lambda: m.lform(), lambda: G.lform(m)), "modlmap2": (lambda: m.modlmap(2, 5), lambda: G.modlmap(S, wcs, oversample=2, min=5)),
      "area": (lambda: m.area(), lambda: G.area(S, wcs)), "pixsize": (lambda: m.pixsize(), lambda: G.pixsize(S, wcs)), "pixshape": (lambda: m.pixshape(), lambda: G.pixshape(S, wcs)), "pixshape signed": (lambda: m.pixshape(signed=True), lambda: G.pixshape(S, wcs, signed=True)),
      "pixsizemap": (lambda: m.pixsizemap(), lambda: G.pixsizemap(S, wcs)), "pixshapemap": (lambda: m.pixshapemap(), lambda: G.pixshapemap(S, wcs)), "pixshapemap signed": (lambda: m.pixshapemap(signed=True), lambda: G.pixshapemap(S, wcs, signed=True)),
      "lpixsize": (lambda: m.lpixsize(), lambda: G.lpixsize(S, wcs)), "lpixshape": (lambda: m.lpixshape(), lambda: G.lpixshape(S, wcs)), "extent": (lambda: m.extent(), lambda: G.extent(S, wcs)), "extent signed": (lambda: m.extent(signed=True), lambda: G.extent(S, wcs, signed=True)),
      "center": (lambda: m.center(), lambda: G.center(S, wcs)), "lbin": (lambda: m.lbin(), lambda: G.lbin(m)), "rbin": (lambda: m.rbin(center=pos[:,0]), lambda: G.rbin(m, center=pos[:,0])), "rbin0": (lambda: m.rbin(bsize=0.1), lambda: G.rbin(m, bsize=0.1)),
      "project": (lambda: m.project(sub_, w4), lambda: G.project(m, sub_, w4)), "project1": (lambda: m.project(sub_, w4, order=1, cval=3.), lambda: G.project(m, sub_, w4, order=1, cval=3.)),
      "extract": (lambda: m.extract(sub_, w2), lambda: G.extract(m, sub_, w2)), "extract cval": (lambda: m.extract(sub_, w2, cval=7.), lambda: G.extract(m, sub_, w2, cval=7.)), "extract_pixbox": (lambda: m.extract_pixbox(pb), lambda: G.extract_pixbox(m, pb)),
      "insert": (lambda: ins(lambda o,p: o.insert(p)), lambda: ins(lambda o,p: G.insert(o, p))), "insert op": (lambda: ins(lambda o,p: o.insert(p, op=np.add)), lambda: ins(lambda o,p: G.insert(o, p, op=np.add))), "insert_at": (lambda: ins(lambda o,p: o.insert_at(pb[0], p)), lambda: ins(lambda o,p: G.insert_at(o, pb[0], p))),
      "at": (lambda: m.at(far), lambda: G.at(m, far)), "at1": (lambda: m.at(far, order=1, border="cyclic"), lambda: G.at(m, far, order=1, border="cyclic")), "at pix": (lambda: m.at(np.array([[1.],[2.]]), unit="pix"), lambda: G.at(m, np.array([[1.],[2.]]), unit="pix")),
      "argmax": (lambda: m.argmax(), lambda: G.argmax(m)), "autocrop": (lambda: m.autocrop(), lambda: G.autocrop(m)), "autocrop fft": (lambda: m.autocrop(method="fft", value="none", margin=2), lambda: G.autocrop(m, method="fft", value="none", margin=2)),
      "apod": (lambda: m.apod(2), lambda: G.apod(m, 2)), "stamps": (lambda: m.stamps(pos, 3), lambda: G.stamps(m, pos, 3)), "padslice": (lambda: m.padslice(pb), lambda: G.padslice(m, pb)),
      "downgrade": (lambda: m.downgrade(2), lambda: G.downgrade(m, 2)), "downgrade op": (lambda: m.downgrade([2,1], op=np.sum), lambda: G.downgrade(m, [2,1], op=np.sum)), "upgrade": (lambda: m.upgrade(2), lambda: G.upgrade(m, 2)), "upgrade off": (lambda: m.upgrade(3, off=[1,1]), lambda: G.upgrade(m, 3, off=[1,1])),
      "fillbad": (lambda: bad().fillbad(), lambda: G.fillbad(bad())), "fillbad val": (lambda: bad().fillbad(5.), lambda: G.fillbad(bad(), 5.)), "resample": (lambda: m.resample(sub_), lambda: G.resample(m, sub_)), "resample spline": (lambda: m.resample(sub_, method="spline", order=1, corner=False), lambda: G.resample(m, sub_, method="spline", order=1, corner=False)),
      "distance_from": (lambda: m.distance_from(pos), lambda: G.distance_from(S, wcs, pos)), "distance_from domains": (lambda: m.distance_from(pos, domains=True), lambda: G.distance_from(S, wcs, pos, domains=True)), "distance_transform": (lambda: mask.distance_transform(), lambda: G.distance_transform(mask)),
      "distance_transform rmax": (lambda: mask.distance_transform(rmax=0.01), lambda: G.distance_transform(mask, rmax=0.01)), "labeled": (lambda: lab.labeled_distance_transform(), lambda: G.labeled_distance_transform(lab)),
      "submap": (lambda: m.submap(m.box()), lambda: G.submap(m, G.box(S, wcs))),
    }
    # the same with other options than the defaults
    def opt(name, *args, geo=False, post=None, src=None, **kw):
        o = m if src is None else src
        def meth(): k = {q: (v() if callable(v) and q in ("omap","odomains") else v) for q, v in kw.items()}; r = getattr(o, name)(*args, **k); return (list(r) if isinstance(r, tuple) else [r])+[k[q] for q in ("omap","odomains") if q in k]
        def func(): k = {q: (v() if callable(v) and q in ("omap","odomains") else v) for q, v in kw.items()}; f = getattr(G, name); r = f(S, wcs, *args, **k) if geo else f(o, *args, **k); return (list(r) if isinstance(r, tuple) else [r])+[k[q] for q in ("omap","odomains") if q in k]
        T["%s with %s" % (name, "+".join(kw))] = (meth, func)
    out = lambda sh=S, dt=np.float64, w=wcs: (lambda: enmap.ndmap(np.arange(np.prod(sh), dtype=float).reshape(sh).astype(dt), w))
    opt("sky2pix", far, geo=True, corner=True); opt("pix2sky", [[1,2.5],[-3,40]], geo=True, corner=True); opt("sky2pix", far, geo=True, safe=False); opt("contains", [[1,-2],[shape[1],3]], geo=True, unit="pix")
    opt("corners", geo=True, corner=False); opt("corners", geo=True, npoint=3); opt("box", geo=True, corner=False); opt("box", geo=True, npoint=2); opt("posmap", geo=True, corner=True); opt("posmap", geo=True, safe=False); opt("posmap", geo=True, dtype=np.float32); opt("posmap", geo=True, separable=False)
    opt("laxes", geo=True, oversample=2); opt("laxes", geo=True, method="intermediate"); opt("laxes", geo=True, broadcastable=True); opt("lmap", geo=True, oversample=3); opt("lform", method="intermediate"); opt("modrmap", geo=True, corner=True, ref=pos[:,0]); opt("modrmap", geo=True, safe=False)
    opt("lbin", bsize=1000., brel=1.5); opt("lbin", return_nhit=True); opt("lbin", return_bins=True); opt("lbin", lop=lambda l: l**0.5); opt("rbin", center=pos[:,0], bsize=0.05, brel=2.); opt("rbin", center=pos[:,0], return_nhit=True); opt("rbin", center=pos[:,0], return_bins=True); opt("rbin", center=pos[:,0], rop=lambda r: r**2)
    opt("pixsizemap", geo=True, broadcastable=True); opt("lpixsize", geo=True, signed=True); opt("lpixshape", geo=True, signed=True); opt("lpixshape", geo=True, method="intermediate"); opt("lpixsize", geo=True, method="intermediate"); opt("extent", geo=True, method="intermediate"); opt("extent", geo=True, method="subgrid")
    opt("resample", sub_, off=(0.25,-0.5)); opt("resample", sub_, method="spline", border="nearest"); opt("resample", sub_, method="spline", order=2); opt("project", sub_, w4, border="cyclic"); opt("project", sub_, w4, mode="linear"); opt("project", sub_, w4, order=0, cval=-2.); opt("project", sub_, w4, safe=False, order=1)
    opt("extract", sub_, w2, omap=out(pre+sub_, w=w2), op=np.add); opt("extract", sub_, w2, wrap=0, cval=3.); opt("extract", sub_, w2, iwcs=wcs); opt("extract_pixbox", pb, omap=out(pre+(pb[1][0]-pb[0][0], pb[1][1]-pb[0][1])), op=np.maximum); opt("extract_pixbox", pb, wrap=0, cval=-4.)
    for kw in (dict(wrap=0), dict(op=np.multiply)): T["insert with %s" % list(kw)] = (lambda kw=kw: ins(lambda o,p: o.insert(p, **kw)), lambda kw=kw: ins(lambda o,p: G.insert(o, p, **kw))); T["insert_at with %s" % list(kw)] = (lambda kw=kw: ins(lambda o,p: o.insert_at(pb[0], p, **kw)), lambda kw=kw: ins(lambda o,p: G.insert_at(o, pb[0], p, **kw)))
    opt("at", far, mode="linear"); opt("at", far, order=0); opt("at", far+10*deg, cval=9., order=1); opt("at", far, safe=False, order=1); opt("argmax", unit="pix"); T["autocrop with information"] = (lambda: [m.autocrop(value=0, return_info=True)[0]], lambda: [G.autocrop(m, value=0, return_info=True)[0]]); opt("autocrop", method="fft", factors=[2], value="none"); opt("apod", 2, profile="lin"); opt("apod", 2, fill="mean"); opt("apod", 2, fill="median"); opt("apod", 2, fill="crossfade")
    if len(pre) < 2: T["stamps with aslist"] = (lambda: [np.asarray(q) for q in m.stamps(pos, 3, aslist=True)], lambda: [np.asarray(q) for q in G.stamps(m, pos, 3, aslist=True)])
    opt("distance_from", pos, geo=True, omap=out(shape)); opt("distance_from", pos, geo=True, odomains=out(shape, np.int32), domains=True); opt("distance_from", pos, geo=True, rmax=0.02); opt("distance_from", pos, geo=True, method="simple", step=3); opt("distance_transform", src=mask, omap=out(shape)); opt("distance_transform", src=mask, method="simple"); opt("labeled_distance_transform", src=lab, rmax=0.01); opt("labeled_distance_transform", src=lab, omap=out(shape), odomains=out(shape, np.int32))
    opt("padslice", pb, default=-7.); opt("downgrade", 2, off=[1,0]); opt("downgrade", 2, op=np.max); opt("upgrade", 2, inclusive=True); opt("upgrade", 2, off=[1,0], oshape=(2*shape[0]-1, 2*shape[1])); opt("submap", np.array(m.box())*[0.6,1]+[0.01,0], recenter=True); opt("submap", np.array(m.box())*[0.6,1], mode="inclusive")
    T["fillbad in place"] = (lambda: (lambda b: [b.fillbad(2., inplace=True), b])(bad()), lambda: (lambda b: [G.fillbad(b, 2., inplace=True), b])(bad()))
    if wcsutils.is_separable(wcs): T["posaxes"] = (lambda: m.posaxes(), lambda: G.posaxes(S, wcs)); T["posaxes corner"] = (lambda: m.posaxes(corner=True), lambda: G.posaxes(S, wcs, corner=True))
    names = list(T); todo = [names[i] for i in c.rng.permutation(len(names))[:40]]; c.note(methods=todo)
    for nm in todo:
        f, g = T[nm]
        with c.keeps(nm, m):
            try: want = g()
            except Exception as e: want = e
        if isinstance(want, Exception):
            c.raises(type(want), f, "%s: the function refuses this, the method does not" % nm); continue
        with c.keeps(nm+" method", m): got = f()
        if not isinstance(want, (tuple, list)) or nm in ("area",): want, got = [want], [got]
        c.ok(len(want) == len(got), "%s: number of results" % nm)
        for u, v in zip(got, want):
            c.close(np.asarray(u), np.asarray(v), "%s: the method differs from the function" % nm, rtol=1e-10)
            if isinstance(v, enmap.ndmap): c.ok(isinstance(u, enmap.ndmap) and wstate(u.wcs) == wstate(v.wcs), "%s: coordinates" % nm)
    c.ok(m.plain.wcs.naxis == 2, "plain wcs dimension")

MONITORS = [
  ("methods", methods, 150, 2000),
  ("opsmeta", opsmeta, 560, 6000),
  ("arith", arith, 120, 1500),
  ("construct", construct, 100, 1200),
  ("apodize", apodize, 200, 2500),
  ("apodmask", apodmask, 60, 800),
  ("inpainting", inpainting, 100, 1200),
  ("fills", fills, 60, 600),
  ("blanks", blanks, 150, 2000),
  ("maphelpers", maphelpers, 60, 600),
]

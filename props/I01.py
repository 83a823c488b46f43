"""I01: maps survive disk; partial and delayed reads return the same pixels as a full read followed by the same operation."""
import numpy as np, os
from pixell import enmap, utils, wcsutils
from gen import *
from astropy.io import fits

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["astropy.io.fits and h5py are trusted as independent readers of the files"]}

def mk(c, dtypes=(np.float64, np.float32, np.int32, np.int64, np.int16), thin=0.15, **kw):
    s, w = anygeo(c, nmax=20, **kw); pre = premul(c); dt = c.choice(dtypes)
    if c.flip(thin): # one pixel wide or tall maps
        s = (1 if c.flip() else s[0], 1 if c.flip() else s[1])
    m = enmap.ndmap(arr(c, pre+s, dt), w)
    note_geo(c, s, w); c.note(pre=pre, dtype=np.dtype(dt).name)
    return m, s, w, pre

def same_geo(c, m, s, w, msg):
    c.ok(m.shape[-2:] == tuple(s), "%s: shape" % msg)
    check_positions(c, skygrid(s, m.wcs), skygrid(s, w), "%s: sky positions" % msg, tol=1e-9)

def fname(c, ext): return os.path.join(c.tmpdir(), c.pick("a","sub/b")+ext)

def roundtrip(c):
    m, s, w, pre = mk(c); ext = c.pick(".fits",".hdf",".fits.gz"); f = fname(c, ext); c.note(ext=ext)
    if c.flip(0.3): m = m[...,::-1,::-1]; w = m.wcs     # non-contiguous input
    before = np.array(m)
    allow = c.flip(0.2)
    enmap.write_map(f, m, **({"allow_modify": True} if allow and ext != ".hdf" else {}))
    if not allow: c.same(np.asarray(m), before, "writing modified the map")
    r = enmap.read_map(f)
    c.ok(isinstance(r, enmap.ndmap), "type"); c.same(np.asarray(r), before, "values after a round trip"); same_geo(c, r, s, w, "round trip")
    c.ok(r.dtype == before.dtype and r.dtype.isnative, "dtype %s -> %s" % (before.dtype, r.dtype))
    c.ok(r.flags.writeable and r.flags.owndata or r.base is not None, "result usable")
    r += 1  # the result is independent of the file
    c.same(np.asarray(enmap.read_map(f)), before, "second read")
    if ext == ".fits":
        with fits.open(f) as h: c.same(h[0].data, before, "file content seen by astropy")
    # overwriting replaces
    enmap.write_map(f, m*0+5); c.ok(np.all(enmap.read_map(f) == 5), "overwriting a file")

def exact_wcs(c):
    """write/read/write is a fixed point and no precision is lost"""
    m, s, w, pre = mk(c, dtypes=(np.float32,)); f = fname(c, c.pick(".fits",".hdf"))
    enmap.write_map(f, m); r = enmap.read_map(f)
    for a, b, n in [(r.wcs.wcs.crval, w.wcs.crval, "crval"), (r.wcs.wcs.cdelt, w.wcs.cdelt, "cdelt"), (r.wcs.wcs.crpix, w.wcs.crpix, "crpix")]:
        c.close(a, b, n, rtol=1e-11)
    enmap.write_map(f, r); q = enmap.read_map(f)
    c.ok(q.wcs.to_header_string() == r.wcs.to_header_string(), "wcs changes on every round trip")
    r._verif = None

def geometry_only(c):
    m, s, w, pre = mk(c, dtypes=(np.float64, np.float32, np.int32, np.int16, np.int64)); ext = c.pick(".fits",".hdf"); f = fname(c, ext); c.note(ext=ext)
    enmap.write_map(f, m)
    gs, gw = enmap.read_map_geometry(f); c.ok(tuple(gs) == m.shape, "shape %s vs %s" % (gs, m.shape)); check_positions(c, skygrid(s, gw), skygrid(s, w), "geometry read without the data")
    c.ok(np.dtype(enmap.read_map_dtype(f)) == m.dtype, "dtype read without the data: %s vs %s" % (enmap.read_map_dtype(f), m.dtype))
    g = os.path.join(c.tmpdir(), "geo.fits"); enmap.write_map_geometry(g, m.shape, w)
    hs, hw = enmap.read_map_geometry(g); c.ok(tuple(hs) == m.shape, "geometry file shape"); check_positions(c, skygrid(s, hw), skygrid(s, w), "geometry file")

def partial(c):
    m, s, w, pre = mk(c, dtypes=(np.float64, np.float32), projs=CYL); ext = c.pick(".fits",".fits",".hdf"); f = fname(c, ext)
    enmap.write_map(f, m); full = enmap.read_map(f)
    w3 = w.deepcopy(); w3.wcs.crpix += 1.5; o = enmap.read_map(f, wcs=w3); c.same(np.asarray(o), np.asarray(full), "values with another wcs"); c.ok(np.allclose(o.wcs.wcs.crpix, w3.wcs.crpix), "read_map(wcs) must use the given coordinates")
    thr = c.pick(10e6, 0)
    kind = c.pick("sel","pixbox","box","geometry","box+sel"); c.note(kind=kind, threshold=thr, ext=ext)
    ny, nx = s
    y1, x1 = c.int(-3, ny-2), c.int(-3, nx-2); h, w_ = c.int(1, ny), c.int(1, max(1, min(nx, 30)))
    if kind == "sel":
        form = c.pick("e","drop","step","full","full")
        if form == "e": sel = (Ellipsis, slice(max(y1,0), y1+h+3), slice(max(x1,0), x1+w_+3))
        elif form == "drop" and pre: sel = (0,)*len(pre)
        elif form == "full": sel = tuple(c.pick(slice(None), c.int(0,n_-1)) for n_ in pre) + (slice(max(y1,0), y1+h+3), c.pick(slice(max(x1,0), x1+w_+3), slice(None)))
        else: sel = (Ellipsis, slice(None,None,-1), slice(None))
        r, want = enmap.read_map(f, sel=sel, sel_threshold=thr), full[sel]
    elif kind == "pixbox":
        pb = [[y1,x1],[y1+h,x1+w_]]; r, want = enmap.read_map(f, pixbox=pb, sel_threshold=thr), enmap.extract_pixbox(full, pb)
    elif kind == "geometry":
        w2 = w.deepcopy(); w2.wcs.crpix -= [x1,y1]; r, want = enmap.read_map(f, geometry=((h,w_),w2), sel_threshold=thr), full.extract((h,w_), w2)
    else:
        fy = np.array([1.2, ny-2.3]); fx = np.array([0.7, min(nx*0.6, nx-2.)])
        box = np.array(ref_pix2sky(w, fy, fx)).T
        rev = c.flip(0.3)
        if rev: box = box[::-1]
        kw = {"sel": (Ellipsis, slice(0,2))} if kind == "box+sel" else {}
        mode = c.pick(None, None, "inclusive", "ceil") if not rev else None; c.note(mode=mode)
        r = enmap.read_map(f, box=box, mode=mode, sel_threshold=thr, **kw); want = full.submap(box, mode=mode)
        if kw: want = want[kw["sel"]]
        if c.flip(0.3) and proj_of(w) == "car" and not kw:
            q = enmap.read_map(f, box=box, mode=mode, recenter=True); z = full.submap(box, mode=mode, recenter=True); c.same(np.asarray(q), np.asarray(z), "recentered partial read"); c.ok(np.allclose(q.wcs.wcs.crval, z.wcs.wcs.crval, atol=1e-9) and np.allclose(q.wcs.wcs.crpix, z.wcs.wcs.crpix, atol=1e-9), "reference point of a recentered partial read: %s %s, in memory %s %s" % (q.wcs.wcs.crval, q.wcs.wcs.crpix, z.wcs.wcs.crval, z.wcs.wcs.crpix)); same_geo(c, q, want.shape[-2:], want.wcs, "recentered partial read")
    c.same(np.asarray(r), np.asarray(want), "partial read (%s)" % kind)
    c.ok(r.dtype.isnative, "native byte order")
    if isinstance(want, enmap.ndmap): same_geo(c, r, want.shape[-2:], want.wcs, "partial read (%s)" % kind)

def delayed(c):
    """a delayed map object gives the same answer no matter how often and in which order parts are read"""
    m, s, w, pre = mk(c, dtypes=(np.float64, np.float32)); ext = c.pick(".fits",".hdf"); f = fname(c, ext); c.note(ext=ext)
    stokes = ext == ".fits" and pre == (3,) and c.flip()
    extra = {}
    enmap.write_map(f, m)
    want = np.array(m)
    if stokes:
        with fits.open(f, mode="update") as h:
            h[0].header["CTYPE3"] = "STOKES"; h[0].header["CRPIX3"] = 1; h[0].header["CRVAL3"] = 1; h[0].header["CDELT3"] = 1; h[0].header["POLCCONV"] = "IAU"
        want[2] *= -1
    c.note(stokes=stokes)
    p = enmap.read_map(f, delayed=True, sel_threshold=c.pick(10e6, 0)); hist = []
    c.ok(tuple(p.shape) == m.shape, "delayed shape"); c.ok(not isinstance(p, np.ndarray), "a delayed read returned the pixels")
    for k in range(4):
        y1, x1 = c.int(0, s[0]-1), c.int(0, s[1]-1); y2, x2 = c.int(y1+1, s[0]), c.int(x1+1, s[1])
        op = c.pick("slice","pixbox","all"); hist.append(op)
        if op == "slice": r = p[...,y1:y2,x1:x2]; e = want[...,y1:y2,x1:x2]
        elif op == "pixbox": r = enmap.extract_pixbox(p, [[y1,x1],[y2,x2]]); e = want[...,y1:y2,x1:x2]
        else: r = p[:]; e = want
        c.same(np.asarray(r), e, "delayed read number %d (%s)" % (k+1, hist))
        r = np.array(r)
    c.note(hist=hist)

def stokes(c):
    """IAU files are converted to COSMO exactly once, whatever part is read"""
    s, w = patch(c, nmax=15); dt = c.pick(np.float32, np.float64); m = enmap.ndmap(arr(c, (3,)+s, dt), w); note_geo(c, s, w)
    f = fname(c, ".fits"); enmap.write_map(f, m); conv = c.pick("IAU","COSMO","none"); st = c.flip(0.8); key = c.pick("POLCCONV","POLCONV"); c.note(conv=conv, stokes=st)
    with fits.open(f, mode="update") as h:
        if st: h[0].header["CTYPE3"] = "STOKES"; h[0].header["CRPIX3"] = 1; h[0].header["CRVAL3"] = 1; h[0].header["CDELT3"] = 1
        if conv != "none": h[0].header[key] = conv
    flip = st and conv in ("IAU","none")
    want = np.array(m)
    if flip: want[2] *= -1
    thr = c.pick(10e6, 0)
    c.same(np.asarray(enmap.read_map(f, sel_threshold=thr)), want, "polarization convention on a full read")
    for sel in [np.s_[2], np.s_[1:], np.s_[1:,2:5,1:4], np.s_[::-1], np.s_[...,1:3,2:4]]:
        c.same(np.asarray(enmap.read_map(f, sel=sel, sel_threshold=thr)), want[sel], "polarization convention with sel=%s" % (sel,))
    # polarization along another axis than the first
    k = c.int(0,2); pre = [c.int(1,4) for i in range(c.int(max(k,1), 2)+1)]; pre[k] = 3; m = enmap.ndmap(arr(c, tuple(pre)+s, dt), w); f = fname(c, ".fits"); enmap.write_map(f, m); ax = len(pre)-k+2
    with fits.open(f, mode="update") as h:
        h[0].header["CTYPE%d" % ax] = "STOKES"; h[0].header["CRPIX%d" % ax] = 1; h[0].header["CRVAL%d" % ax] = 1; h[0].header["CDELT%d" % ax] = 1; h[0].header["POLCCONV"] = "IAU"
    want = np.array(m); np.moveaxis(want, k, 0)[2] *= -1; c.same(np.asarray(enmap.read_map(f)), want, "polarization along axis %d of %s" % (k, pre))

def hdf_address(c):
    """several maps in one hdf file do not disturb each other"""
    f = fname(c, ".hdf"); ms = {}
    ops = []
    for k in range(c.int(2,5)):
        a = c.pick("x","y","g/z"); s, w = patch(c, nmax=12); m = enmap.ndmap(arr(c, premul(c)+s, c.pick(np.float32, np.float64)), w)
        enmap.write_map(f, m, address=a); ms[a] = m; ops.append(a)
    c.note(ops=ops)
    for a, m in ms.items():
        r = enmap.read_map(f, address=a); c.same(np.asarray(r), np.asarray(m), "map at address %s" % a); same_geo(c, r, m.shape[-2:], m.wcs, a)
        gs, gw = enmap.read_map_geometry(f, address=a); c.ok(tuple(gs) == m.shape, "geometry at %s" % a)
    if c.flip():
        import h5py
        with h5py.File(f, "a") as h:
            enmap.write_hdf(h, m, address="open"); r = enmap.read_hdf(h, address="open"); c.same(np.asarray(r), np.asarray(m), "open handle")

def slicestr(c):
    m, s, w, pre = mk(c, dtypes=(np.float64,), thin=0); f = fname(c, ".fits"); enmap.write_map(f, m)
    a, b = c.int(0, s[0]-2), c.int(1, s[1]-1)
    r = enmap.read_map(f + ":[...,%d:,:%d]" % (a, b)); c.note(a=a,b=b)
    c.same(np.asarray(r), np.asarray(m)[...,a:,:b], "slice in the file name"); same_geo(c, r, r.shape[-2:], m[...,a:,:b].wcs, "slice in the file name")

def pickling(c):
    import pickle, copy
    m, s, w, pre = mk(c)
    r = pickle.loads(pickle.dumps(m, protocol=c.pick(2,4,5))); c.same(np.asarray(r), np.asarray(m), "pickle"); same_geo(c, r, s, w, "pickle"); c.ok(r.dtype == m.dtype, "dtype")
    f = os.path.join(c.tmpdir(), "a.npy"); np.save(f, m); r = enmap.read_map(f, wcs=w); c.same(np.asarray(r), np.asarray(m), "npy")

def extras(c):
    """compressed files, extra header entries, geometry of slices, groups, open files"""
    m, s, w, pre = mk(c, dtypes=(np.float64, np.float32, np.int32)); f = fname(c, ".fits.gz"); enmap.write_map(f, m); gs, gw = enmap.read_map_geometry(f); c.ok(tuple(gs) == m.shape, "shape of a compressed file"); check_positions(c, skygrid(s, gw), skygrid(s, w), "geometry of a compressed file"); c.ok(np.dtype(enmap.read_map_dtype(f)) == m.dtype, "dtype of a compressed file")
    ext = c.pick(".fits",".hdf"); f = fname(c, ext); x = {"MYNUM": c.int(-9,9), "MYSTR": "abc"}; c.note(ext=ext); enmap.write_map(f, m, extra=x); r = enmap.read_map(f); c.same(np.asarray(r), np.asarray(m), "map written with extra entries"); same_geo(c, r, s, w, "map written with extra entries")
    if ext == ".fits":
        with fits.open(f) as h: c.ok(h[0].header["MYNUM"] == x["MYNUM"] and h[0].header["MYSTR"] == "abc", "extra header entries")
    else:
        import h5py
        with h5py.File(f,"r") as h: c.ok(h["MYNUM"][()] == x["MYNUM"], "extra hdf entries")
    y1, x1 = c.int(0,s[0]-1), c.int(0,s[1]-1); y2, x2 = c.int(y1+1,s[0]), c.int(x1+1,s[1]); d = "[%s%d:%d,%d:%d]" % (c.pick("...,",":,"*len(pre)), y1, y2, x1, x2); gs, gw = enmap.read_map_geometry(f+":"+d); want = m[...,y1:y2,x1:x2]; c.ok(tuple(gs[-2:]) == want.shape[-2:], "shape of a sliced file %s: %s" % (d, gs)); check_positions(c, skygrid(want.shape, gw), skygrid(want.shape, want.wcs), "geometry of a sliced file")
    g = fname(c, ".hdf"); ad = c.pick("grp","a/b"); enmap.write_hdf(g, m, address=ad); c.ok(np.dtype(enmap.read_hdf_dtype(g, address=ad)) == m.dtype, "dtype in a group"); gs, gw = enmap.read_hdf_geometry(g, address=ad); c.ok(tuple(gs) == m.shape, "shape in a group"); check_positions(c, skygrid(s, gw), skygrid(s, w), "geometry in a group")
    q = fname(c, c.pick(".dat",".map")); enmap.write_map(q, m, fmt=c.pick(None,"fits")); r = enmap.read_map(q); c.same(np.asarray(r), np.asarray(m), "unknown extensions are fits"); gs, gw = enmap.read_map_geometry(q); c.ok(tuple(gs) == m.shape and np.dtype(enmap.read_map_dtype(q)) == m.dtype, "geometry and type of unknown extensions")
    q = fname(c, ".xyz"); enmap.write_map(q, m, fmt="hdf"); c.same(np.asarray(enmap.read_map(q, fmt="hdf")), np.asarray(m), "explicit format"); c.ok(tuple(enmap.read_map_geometry(q, fmt="hdf")[0]) == m.shape and np.dtype(enmap.read_map_dtype(q, fmt="hdf")) == m.dtype, "explicit format, geometry")
    q = fname(c, ".fits"); enmap.write_map(q, m); import io
    with open(q,"rb") as fo: hd = enmap.read_fits_header(fo); c.ok(hd["NAXIS"] == m.ndim, "header of an open file")
    # headers longer than one block, with the map description anywhere in it
    lots = {"K%d" % i: i for i in range(c.int(0,90))}; late = c.flip(); c.note(nextra=len(lots), late=late); f3 = fname(c, ".fits"); enmap.write_map(f3, m, extra=lots)
    if late:
        with fits.open(f3) as h:
            h0 = h[0].header.copy(); h1 = fits.Header()
            for k, v in lots.items(): h1[k] = v; del h0[k]
            h1.update(h0); f3 = f3.replace(".fits","2.fits"); fits.PrimaryHDU(h[0].data, h1).writeto(f3)
    hd = enmap.read_fits_header(f3); c.ok(all(hd.get(k) == v for k, v in lots.items()), "entries missing from the header"); gs, gw = enmap.read_map_geometry(f3); c.ok(tuple(gs) == tuple(m.shape), "shape with a long header"); same_geo(c, m, gs[-2:], gw, "geometry with a long header")
    # maps in other extensions of the file
    s4, w4 = patch(c, nmin=3, nmax=9); m4 = enmap.ndmap(arr(c, c.pick((), (2,))+s4, np.float32 if m.dtype == np.float64 else np.float64), w4); f4 = fname(c, ".fits").replace(".fits","_4.fits"); enmap.write_map(f4, m4); f5 = f4.replace("_4.","_5."); enmap.write_map(f5, m)
    with fits.open(f4) as h4: h1 = fits.ImageHDU(h4[0].data.copy(), h4[0].header.copy())
    with fits.open(f5, mode="append") as h: h.append(h1)
    r = enmap.read_map(f5, hdu=1); c.same(np.asarray(r), np.asarray(m4), "map in another hdu"); same_geo(c, r, s4, w4, "map in another hdu"); gs, gw = enmap.read_map_geometry(f5, hdu=1); c.ok(tuple(gs) == m4.shape, "shape in another hdu: %s" % (gs,)); same_geo(c, m4, gs[-2:], gw, "geometry in another hdu"); c.ok(np.dtype(enmap.read_map_dtype(f5, hdu=1)) == m4.dtype, "data type in another hdu"); c.ok(enmap.read_fits_header(f5, hdu=1, quick=False)["NAXIS1"] == s4[1], "header of another hdu"); c.same(np.asarray(enmap.read_map(f5)), np.asarray(m), "map in the first hdu")
    hd = enmap.read_fits_header(q, quick=False); c.ok(hd["NAXIS"] == m.ndim and hd["NAXIS1"] == m.shape[-1], "full header")

MONITORS = [("extras", extras, 60, 600), ("roundtrip", roundtrip, 150, 1500), ("exact_wcs", exact_wcs, 80, 800), ("geometry_only", geometry_only, 100, 800), ("partial", partial, 250, 2500),
  ("delayed", delayed, 120, 1000), ("stokes", stokes, 60, 500), ("hdf_address", hdf_address, 50, 400), ("slicestr", slicestr, 50, 300), ("pickling", pickling, 60, 500)]

"""X01: the compiled kernels stay inside their arrays, read nothing uninitialised, hit no undefined behaviour and leak nothing.

The workloads of the functional monitors (coefficients, distances, interpolation, object painting, plotting) are run
on builds of the native code with sanitizers; what the results are is judged elsewhere (A01, D01, N01, P01, V01), here
only the sanitizers, the allocator and the crash status decide."""
import numpy as np, ctypes, gc
from pixell import enmap, utils, curvedsky, interpol, pointsrcs, distances, array_ops, colorize
from gen import *
import harness, A01, D01, N01, P01, V01

INFO = {"level": "exploration", "threads": 3, "nproc": 6, "variant": "asan", "native": True,
  "rule": "Sanitizer stages: AddressSanitizer+UndefinedBehaviourSanitizer build with Fortran bounds checks; allocator stages: normal build.",
  "assumptions": ["numpy, scipy and ducc0 are not instrumented: only accesses made by pixell's own native code are checked", "reads of uninitialised memory are found when they influence a result (two runs with different allocator fill patterns)"]}

def quiet(fn, c):
    """Run a functional workload, leaving its verdict to the property it belongs to"""
    try: fn(c)
    except (harness.Skip, MemoryError): raise
    except (Exception, SystemExit): pass
def sanitized(mod):
    fns = [m[1] for m in mod.MONITORS]
    def run(c):
        import native
        i = c.int(0, len(fns)-1); c.note(workload=mod.MONITORS[i][0], k=c.idx); old = native.snapshot(); quiet(fns[i], c)
        d = native.diff(old); c.nobs = sum(d.values()); c.note(native=sorted(d))
    return run
alm_san, dist_san, interp_san, paint_san, color_san = [sanitized(m) for m in (A01, D01, N01, P01, V01)]

# --- inputs the functional monitors leave out because their result is unspecified: they must still be memory safe
def call(c, fn, *a, **kw):
    import native
    old = native.snapshot()
    try: r = fn(*a, **kw)
    except Exception: r = None
    c.nobs += max(1, sum(native.diff(old).values())); return r
def wild(c, shape, big=1e3):
    """Coordinates with nan, inf, huge, negative and ordinary values"""
    p = c.uni(-big, big, shape); m = c.rng.random(shape); p[m<0.1] = np.nan; p[(m>0.1)&(m<0.15)] = np.inf; p[(m>0.15)&(m<0.2)] = -np.inf
    p[(m>0.2)&(m<0.25)] = 1e300; p[(m>0.25)&(m<0.3)] = -1e19; p[(m>0.3)&(m<0.35)] = 2.**31; p[(m>0.35)&(m<0.4)] = -2.**31-0.5; return p
def hostile(c):
    k = c.pick("interp","interp","interp","dist","edges","alm","objects","radial","color","contour","roll","spline","empty"); c.note(op=k, k=c.idx)
    dt = c.pick(np.float32, np.float64)
    if k == "interp":
        nd = c.int(1,3); s = tuple(c.int(1,7) for _ in range(nd)); pre = c.pick((), (2,)); a = arr(c, pre+s).astype(dt); p = wild(c, (nd, c.int(1,40)), c.pick(10,1e3,1e9)).astype(dt)
        kw = dict(order=c.pick(0,1,3), border=c.pick("zero","nearest","cyclic","mirror","reflect"), mode=c.pick("conv","spline","lanczos")); c.note(**kw); call(c, interpol.map_coordinates, a, p, **kw)
        call(c, interpol.map_coordinates, a, p, deriv=True, **kw); call(c, interpol.map_coordinates, np.zeros(pre+s, dt), p, odata=arr(c, pre+p.shape[1:]).astype(dt), trans=True, **kw)
    elif k == "dist":
        s, w = anygeo(c); n = c.int(1,10); pts = wild(c, (2,n), c.pick(1,10)); meth = c.pick("bubble","cellgrid","simple"); rmax = c.pick(None, 0., 1e-3, 1., -1., np.nan, np.inf); c.note(method=meth, rmax=rmax)
        ok = np.isfinite(pts).all(0) & (np.abs(pts) < 100).all(0); pts = pts[:,ok]; pts[0] = np.clip(pts[0], -np.pi/2, np.pi/2)
        call(c, enmap.distance_from, s, w, pts, rmax=rmax, method=meth, domains=c.flip())
    elif k == "edges":
        s = (c.int(1,9), c.int(1,9)); m = c.rng.random(s) < c.pick(0,0.3,1); call(c, distances.find_edges, m); call(c, distances.find_edges, m, flat=True); call(c, distances.find_edges_labeled, (m*c.rng.integers(-3,9,s)).astype(np.int32))
        nside = c.pick(1,2,4); info = distances.healpix_info(nside); hm = c.rng.random(12*nside**2) < 0.5; call(c, distances.find_edges_healpix, info, hm); call(c, distances.find_edges_labeled_healpix, info, hm.astype(np.int32)*c.int(1,5))
    elif k == "alm":
        lmax = c.int(0,12); mmax = c.int(0,lmax); ai = curvedsky.alm_info(lmax=lmax, mmax=mmax, layout=c.pick("triangular","rectangular")); alm = (arr(c,(2,ai.nelem))+1j*arr(c,(2,ai.nelem))).astype(c.pick(np.complex64,np.complex128))
        n = c.pick(0,1,lmax,lmax+1,3*lmax+2); f = arr(c,(n,)); call(c, ai.lmul, alm, f); call(c, ai.lmul, alm, arr(c,(2,2,n))); call(c, ai.lmul, alm[0], f); call(c, ai.alm2cl, alm); call(c, ai.alm2cl, alm[:,None], alm[None]); call(c, ai.transpose_alm, alm)
        bi = curvedsky.alm_info(lmax=c.int(0,15), layout=c.pick("triangular","rectangular")); call(c, curvedsky.transfer_alm, ai, alm, bi); call(c, curvedsky.transfer_alm, bi, np.zeros((2,bi.nelem), alm.dtype), ai, alm.copy())
        call(c, curvedsky.filter, enmap.zeros((5,8), mkwcs("car",[0,0],[-45,45],[1,3])), f) if n > 1 else None
    elif k == "objects":
        s, w = anygeo(c); n = c.int(0,8); pos = np.array([c.uni(-np.pi/2,np.pi/2,n), c.uni(-10,10,n)]); m = c.rng.random(n); pos[:,m<0.1] = np.pi/2; pos[:,(m>0.1)&(m<0.2)] *= 100; r = np.linspace(0, c.uni(1e-3,3), c.int(2,30)); prof = np.array([r, np.exp(-r)]); amps = arr(c,(n,)); amps[c.rng.random(n)<0.1] = np.nan
        call(c, pointsrcs.sim_objects, s, w, pos, amps, prof, vmin=c.pick(None,0,1e-3,1e9,np.nan), rmax=c.pick(None,0,1e-3,10), op=c.pick("add","max","min"), transpose=False, omap=None)
        call(c, pointsrcs.sim_objects, s, w, pos, arr(c,(3,n)), [prof, prof[:,:2]], prof_ids=c.rng.integers(0,2,n), vmin=1e-2)
    elif k == "radial":
        s, w = anygeo(c); n = c.int(0,8); pos = np.array([c.uni(-np.pi/2,np.pi/2,n), c.uni(-10,10,n)]); bins = np.sort(c.uni(0,c.pick(0.01,0.5,4),c.int(2,12))); m = enmap.ndmap(arr(c,s), w); call(c, pointsrcs.radial_sum, m, pos, bins); call(c, pointsrcs.radial_bin, m, pos, bins)
    elif k == "color":
        a = wild(c, (c.int(1,50),)).astype(dt); n = c.int(1,6); v = ",".join("%g:%06x" % (x, c.int(0,0xffffff)) for x in c.uni(0,1,n)) if n > 1 else "aabbcc"
        call(c, colorize.colorize, a, desc=v); call(c, colorize.colorize, wild(c,(3,c.int(0,40))), mode="direct"); call(c, colorize.colorize, wild(c,(4,c.int(0,40))), mode="direct_colorcap")
    elif k == "contour": call(c, array_ops.find_contours, np.ascontiguousarray(wild(c,(c.int(1,9),c.int(1,9))).astype(dt)), np.sort(c.uni(-1e3,1e3,c.int(1,5))).astype(dt))
    elif k == "roll": ny = c.int(1,9); call(c, array_ops.roll_rows, arr(c,(ny,c.int(1,20))).astype(dt), c.rng.integers(-2**30,2**30,ny))
    elif k == "spline": call(c, interpol.spline_filter, arr(c, tuple(c.int(1,5) for _ in range(c.int(1,3)))).astype(dt), order=c.int(0,5), border=c.pick("zero","nearest","cyclic","mirror","reflect"))
    elif k == "empty":
        s, w = patch(c); z = np.zeros((2,0)); call(c, enmap.distance_from, s, w, z); call(c, interpol.map_coordinates, arr(c,s), z); call(c, pointsrcs.sim_objects, s, w, z, np.zeros(0), np.array([[0,1.],[1,0.]])); call(c, pointsrcs.radial_sum, enmap.zeros(s,w), z, np.array([0,0.1,0.2])); call(c, colorize.colorize, np.zeros(0)); call(c, array_ops.ang2rect, np.zeros((0,2)))
        call(c, enmap.distance_transform, enmap.ndmap(np.ones(s,bool),w)); call(c, enmap.distance_transform, enmap.ndmap(np.zeros(s,bool),w)); call(c, enmap.labeled_distance_transform, enmap.ndmap(np.zeros(s,np.int32),w))

# --- uninitialised memory: the same workload with two allocator fill patterns gives the same observations
libc = ctypes.CDLL(None)
class Recorder(harness.Case):
    def __init__(self, c, fn): super().__init__("X01", "twin-"+c.monitor, c.seed, c.idx, c.tier); self.log = []
    def ok(self, cond, msg): self.log.append((msg.split(":")[0], np.array(bool(cond))))
    def same(self, a, b, msg): self.log.append((msg, np.array(a, copy=True)))
    def close(self, a, b, msg, **kw): self.log.append((msg, np.array(a, copy=True)))
def twin_of(mod):
    fns = [m[1] for m in mod.MONITORS if m[0] not in ("builder",)]
    def run(c):
        i = c.int(0, len(fns)-1); c.note(workload=mod.MONITORS[i][0], k=c.idx); logs = []
        for byte in (0x55, 0xAA):
            libc.mallopt(-6, byte)   # M_PERTURB: fill new memory with the complement of byte, freed memory with byte
            try: r = Recorder(c, fns[i]); quiet(fns[i], r); logs.append(r.log)
            finally: libc.mallopt(-6, 0)
        a, b = logs
        if not a and not b: return
        c.ok(len(a) == len(b), "what is computed depends on uninitialised memory: %d vs %d observations, last %s" % (len(a), len(b), (a or b)[-1][0]))
        for (m1, x), (m2, y) in zip(a, b):
            c.nobs += 1; bad = x.shape != y.shape
            if not bad and x.dtype.kind in "fc":
                f, g = np.isfinite(x), np.isfinite(y); bad = not np.array_equal(f, g) or (f.any() and np.max(np.abs(x[f]-y[f])) > 1e-3*max(np.max(np.abs(x[f])), 1e-300))
            elif not bad: bad = not np.array_equal(x, y)
            c.ok(not bad, "%s depends on uninitialised memory" % m1)
    return run
alm_twin, dist_twin, interp_twin, paint_twin, color_twin = [twin_of(m) for m in (A01, D01, N01, P01, V01)]

# --- leaks: repeating a call does not grow the heap
class Mallinfo2(ctypes.Structure): _fields_ = [(n, ctypes.c_size_t) for n in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
libc.mallinfo2.restype = Mallinfo2
def inuse(): gc.collect(); m = libc.mallinfo2(); return m.uordblks+m.hblkhd
def leaks(c):
    k = c.pick("edges","edges_labeled","edges_hp","dist","dist_sep","cell","dist_hp","transform","alm","interp","spline","objects","objects_t","radial","color","array_ops"); dt = c.pick(np.float32, np.float64); c.note(op=k, k=c.idx)
    ny, nx = c.int(30,60), c.int(40,80); mask = c.rng.random((ny,nx)) < 0.5; n = c.int(200,600); nside = 8
    w = mkwcs("car", [0,0], [-1,1], [nx/2,ny/2]); pts = np.array([c.uni(-0.25,0.25,n), c.uni(-0.3,0.3,n)]); prof = np.array([np.linspace(0,0.1,300), np.exp(-np.linspace(0,9,300))])
    posmap = enmap.posmap((ny,nx), w); pix = np.array(np.round(enmap.sky2pix((ny,nx), w, pts)), np.int32); dec, ra = np.array(posmap[0,:,0]), np.array(posmap[1,0]); pos = np.array(posmap)
    dom = c.flip(); info = distances.healpix_info(nside); hm = c.rng.random(12*nside**2) < 0.5; ai = curvedsky.alm_info(lmax=c.int(20,50), layout=c.pick("triangular","rectangular")); alm = (arr(c,(3,ai.nelem))+1j*arr(c,(3,ai.nelem))).astype(np.complex64 if dt == np.float32 else np.complex128)
    a = arr(c,(ny,nx)).astype(dt); ip = np.array([c.uni(-5,ny+5,n), c.uni(-5,nx+5,n)]).astype(dt); m = enmap.ndmap(a, w); rmax = c.pick(None, 0.1); op = c.int(0,3); mode = c.pick("conv","spline","lanczos"); trans = c.flip(); big = np.array([c.uni(0,1,(3,ny,nx))])[0]
    fns = {"edges": lambda: distances.find_edges(mask), "edges_labeled": lambda: distances.find_edges_labeled((mask*3).astype(np.int32)), "edges_hp": lambda: (distances.find_edges_healpix(info, hm), distances.find_edges_labeled_healpix(info, (hm*2).astype(np.int32))),
      "dist": lambda: (distances.distance_from_points_simple(pos, pts, domains=dom), distances.distance_from_points_bubble(pos, pts, pix, rmax=rmax, domains=dom)),
      "dist_sep": lambda: (distances.distance_from_points_simple_separable(dec, ra, pts, domains=dom), distances.distance_from_points_bubble_separable(dec, ra, pts, pix, rmax=rmax, domains=dom)),
      "cell": lambda: (distances.distance_from_points_cellgrid(dec, ra, pts, pix, rmax=rmax, domains=dom), distances.distance_from_points_cellgrid(pos[0], pos[1], pts, pix, rmax=rmax, domains=dom)),
      "dist_hp": lambda: enmap.distance_from_healpix(nside, pts, rmax=rmax, domains=dom, method=("heap","bubble")[op%2]), "transform": lambda: (enmap.distance_transform(enmap.ndmap(mask,w), rmax=rmax), enmap.labeled_distance_transform(enmap.ndmap((mask*2).astype(np.int32),w), rmax=rmax)),
      "alm": lambda: (ai.alm2cl(alm), ai.alm2cl(alm[:,None], alm[None]), ai.lmul(alm, np.ones(ai.lmax+1)), ai.lmul(alm, np.ones((3,3,ai.lmax+1))), ai.transpose_alm(alm), curvedsky.transfer_alm(ai, alm, curvedsky.alm_info(lmax=30))),
      "interp": lambda: (interpol.map_coordinates(a, ip, mode=mode, order=3), interpol.map_coordinates(a, ip, mode=mode, order=3, deriv=True), interpol.map_coordinates(a.copy(), ip, odata=np.zeros(n, dt), mode=mode, order=3, trans=True)),
      "spline": lambda: (interpol.spline_filter(a, order=3), interpol.spline_filter(a.T, order=5)),
      "objects": lambda: pointsrcs.sim_objects((ny,nx), w, pts, np.ones(n), prof, vmin=1e-3), "objects_t": lambda: pointsrcs.sim_objects((ny,nx), w, pts, np.zeros(n), prof, vmin=1e-3, omap=enmap.ndmap(np.ones((ny,nx)),w), transpose=True), "radial": lambda: pointsrcs.radial_sum(m, pts, np.linspace(0,0.1,200)),
      "color": lambda: (colorize.colorize(a), colorize.colorize(big, mode="direct"), colorize.colorize(big, mode="direct_colorcap")), "array_ops": lambda: (array_ops.find_contours(a, np.array([0,0.5],dt)), array_ops.roll_rows(a, np.arange(ny)), array_ops.ang2rect(ip.T.copy()), array_ops.matmul(np.ones((n,3,3),dt), np.ones((n,3),dt)))}
    def once():
        try: fns[k]()
        except Exception: pass
    for _ in range(4): once()
    nrep = 8; u = [inuse()]
    for rep in range(3):
        for _ in range(nrep): once()
        u.append(inuse())
    g = np.diff(u)/nrep
    # astropy leaks up to a few hundred bytes per coordinate system copied; the buffers that scale with these inputs are larger
    c.ok(not (np.all(g > 1600+(2500 if k == "transform" else 0)) and g.max() < 1.5*g.min()+100), "memory in use grows by %s bytes per call" % [int(x) for x in g])

MONITORS = [("alm_san", alm_san, 300, 4000, "asan"), ("dist_san", dist_san, 300, 4000, "asan"), ("interp_san", interp_san, 400, 6000, "asan"), ("paint_san", paint_san, 250, 3000, "asan"), ("color_san", color_san, 250, 3000, "asan"), ("hostile", hostile, 700, 10000, "asan"),
  ("alm_twin", alm_twin, 150, 2000, "plain"), ("dist_twin", dist_twin, 100, 1500, "plain"), ("interp_twin", interp_twin, 150, 2500, "plain"), ("paint_twin", paint_twin, 80, 1000, "plain"), ("color_twin", color_twin, 100, 1000, "plain"), ("leaks", leaks, 64, 800, "plain")]

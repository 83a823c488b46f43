"""X02: parallel code is free of data races, and results do not depend on the number of threads or on what other threads do.

The native code is built with ThreadSanitizer and run on tools/minigomp.c, an OpenMP runtime whose synchronization
ThreadSanitizer sees; every pair of unordered conflicting accesses made by pixell's code in the runs is reported."""
import numpy as np, ctypes, threading
from pixell import enmap, utils, curvedsky, interpol, pointsrcs, distances, array_ops, colorize, fft
from gen import *
import harness, A01, D01, N01, P01, V01
from X01 import quiet

INFO = {"level": "exploration", "threads": 4, "nproc": 5, "variant": "tsan", "native": True,
  "rule": "Race stages: ThreadSanitizer build, 4 threads with seeded random pauses; invariance stages: normal build.",
  "assumptions": ["numpy, ducc0 and the Python interpreter are not instrumented; races inside them are out of scope", "ThreadSanitizer reports races of the executions it sees (happens-before), not of all possible ones"]}

def raced(mod, names):
    fns = [m[:2] for m in mod.MONITORS if m[0] in names]
    def run(c):
        import native
        n, fn = fns[c.int(0, len(fns)-1)]; c.note(workload=n, k=c.idx); old = native.snapshot(); quiet(fn, c); d = native.diff(old); c.nobs = sum(d.values()); c.note(native=sorted(d))
    return run
alm_race    = raced(A01, ("transpose","spectra","lmul","transfer","layouts"))
dist_race   = raced(D01, ("distfrom","lowlevel","transform","labeled","edges","healpix"))
interp_race = raced(N01, ("weights","spline","adjoint"))
paint_race  = raced(P01, ("paint","srcs","transpose","radial"))
color_race  = raced(V01, ("scalar","direct","arrops"))

def ops(c):
    """One call with enough work for every thread, as (name, function of nothing -> list of arrays, relative tolerance)"""
    k = c.pick("lmul","lmat","cl","transpose","transfer","dist","cell","trans_dist","interp","deriv","itrans","spline","objects","objects_t","radial","color","rgb","cap","array_ops","hp"); dt = c.pick(np.float32, np.float64); tol = 2e-4 if dt == np.float32 else 1e-10
    ny, nx = c.int(20,50), c.int(30,60); n = c.int(30,300); w = mkwcs(c.pick("car","cea","tan"), [c.pick(0,180),0], [-1,1], [nx/2,ny/2]); pix = np.array([c.uni(0,ny-1,n), c.uni(0,nx-1,n)])
    ct = np.complex64 if dt == np.float32 else np.complex128; lmax = c.int(5,60); ai = curvedsky.alm_info(lmax=lmax, mmax=c.int(1,lmax), layout=c.pick("triangular","rectangular")); alm = (arr(c,(3,ai.nelem))+1j*arr(c,(3,ai.nelem))).astype(ct)
    a = arr(c,(ny,nx)).astype(dt); ip = pix.astype(dt) if c.flip() else np.array([c.uni(5,5.5,n), c.uni(5,5.5,n)]).astype(dt); ikw = dict(mode=c.pick("conv","spline","lanczos"), order=c.pick(1,3), border=c.pick("zero","cyclic","nearest"))
    prof = np.array([np.linspace(0,0.2,50), np.exp(-np.linspace(0,5,50))]); c.note(op=k, dtype=dt.__name__, ny=ny, nx=nx, n=n, lmax=lmax)
    if k == "lmul":  f = arr(c,(c.int(1,2*lmax),)).astype(dt); return k, lambda: [ai.lmul(alm, f)], 0
    if k == "lmat":  f = arr(c,(3,3,c.int(1,2*lmax))).astype(dt); return k, lambda: [ai.lmul(alm, f)], 0
    if k == "cl":    return k, lambda: [ai.alm2cl(alm), ai.alm2cl(alm[:,None], alm[None])], tol
    if k == "transpose": return k, lambda: [ai.transpose_alm(alm)], 0
    if k == "transfer": bi = curvedsky.alm_info(lmax=c.int(5,60)); return k, lambda: [curvedsky.transfer_alm(ai, alm, bi)], 0
    pts = np.array(enmap.pix2sky((ny,nx), w, pix)); rmax = c.pick(None, 0.1)
    if k == "dist":  meth = c.pick("simple","bubble"); return k, lambda: list(enmap.distance_from((ny,nx), w, pts, domains=True, method=meth, rmax=rmax)), 0
    if k == "cell":  return k, lambda: list(enmap.distance_from((ny,nx), w, pts, domains=True, method="cellgrid", rmax=rmax)), 0
    if k == "trans_dist": m = enmap.ndmap(c.rng.random((ny,nx)) < 0.7, w); return k, lambda: [enmap.distance_transform(m, rmax=rmax)]+list(enmap.labeled_distance_transform(m.astype(np.int32), rmax=rmax)), 0
    if k == "hp":    nside = c.pick(4,8); meth = c.pick("heap","bubble"); return k, lambda: list(enmap.distance_from_healpix(nside, pts, domains=True, rmax=rmax, method=meth)), 0
    if k == "interp": return k, lambda: [interpol.map_coordinates(a, ip, **ikw)], 0
    if k == "deriv": return k, lambda: [interpol.map_coordinates(a, ip, deriv=True, **ikw)], 0
    if k == "itrans": o = arr(c,(n,)).astype(dt); return k, lambda: [interpol.map_coordinates(np.zeros_like(a), ip, odata=o.copy(), trans=True, **ikw)], tol
    if k == "spline": return k, lambda: [interpol.spline_filter(a, order=3, border="cyclic")], 0
    amps = arr(c,(2,n)).astype(np.float32); same = c.flip(); p2 = pts if same else np.array([np.full(n, pts[0,0])+c.uni(-0.02,0.02,n), np.full(n, pts[1,0])+c.uni(-0.02,0.02,n)])
    if k == "objects": op = c.pick("add","max","min"); return k, lambda: [pointsrcs.sim_objects((2,ny,nx), w, p2, amps, prof, vmin=1e-3, op=op, omap=enmap.zeros((2,ny,nx), w, np.float32))], 2e-4 if op == "add" else 0
    if k == "objects_t": m = enmap.ndmap(arr(c,(2,ny,nx)).astype(np.float32), w); return k, lambda: [pointsrcs.sim_objects((2,ny,nx), w, p2, amps.copy(), prof, vmin=1e-3, omap=m.copy(), transpose=True)], 2e-4
    if k == "radial": m = enmap.ndmap(a.astype(np.float32), w); return k, lambda: [pointsrcs.radial_sum(m, p2, np.linspace(0,0.2,20))], 2e-4
    if k == "color": return k, lambda: [colorize.colorize(a)], 0
    rgb = c.uni(-0.2,1.5,(3,ny,nx))
    if k == "rgb":   return k, lambda: [colorize.colorize(rgb, mode="direct")], 0
    if k == "cap":   return k, lambda: [colorize.colorize(rgb, mode="direct_colorcap")], 0
    A = arr(c,(n,3,3)).astype(dt); A = A+np.swapaxes(A,1,2); v = arr(c,(n,3)).astype(dt); off = c.rng.integers(-90,90,ny)
    return k, lambda: [array_ops.roll_rows(a, off), array_ops.ang2rect(np.ascontiguousarray(ip.T)), array_ops.matmul(A, v), array_ops.matmul_sym(A, v), array_ops.find_contours(a, np.array([-0.5,0.5],dt))], 1e-5 if dt == np.float32 else 1e-12
def big_race(c):
    import native
    k, fn, tol = ops(c); old = native.snapshot(); fn(); d = native.diff(old); c.nobs = max(1, sum(d.values())); c.note(native=sorted(d))

def gomp():
    for n in ("libgomp.so.1",): return ctypes.CDLL(n)
def compare(c, a, b, tol, msg):
    c.ok(len(a) == len(b), msg)
    for x, y in zip(a, b):
        if tol: c.close(x, y, msg, rtol=tol)
        else: c.same(x, y, msg)
def nthreads(c):
    k, fn, tol = ops(c); g = gomp(); res = []
    try:
        for n in (1, 2, 3, 8, 4): g.omp_set_num_threads(n); res.append([np.array(x, copy=True) for x in fn()])
    finally: g.omp_set_num_threads(4)
    for n, r in zip((2,3,8,4), res[1:]): compare(c, r, res[0], tol, "%s with %d threads" % (k, n))
def sht_threads(c):
    s, w = fullsky(c, nymin=6, nymax=30)[:2]; lmax = c.int(2,20); ai = curvedsky.alm_info(lmax=lmax); alm = arr(c,(3,ai.nelem))+1j*arr(c,(3,ai.nelem)); alm[:,:lmax+1] = alm[:,:lmax+1].real; c.note(lmax=lmax); note_geo(c, s, w)
    spin = c.pick([0,2], 0); n = c.pick(2,3,8)
    m = [curvedsky.alm2map(alm, enmap.zeros((3,)+s, w), spin=spin, ainfo=ai, nthread=i) for i in (1, n)]; c.close(m[1], m[0], "alm2map with %d threads" % n, rtol=1e-11)
    b = [curvedsky.map2alm(m[0], lmax=lmax, spin=spin, nthread=i) for i in (1, n)]; c.close(b[1], b[0], "map2alm with %d threads" % n, rtol=1e-11)
    x = arr(c, (c.int(1,3), c.int(1,20), c.int(1,30))); ax = c.pick([-1], [-2,-1], [0]); f = [fft.fft(x, axes=ax, nthread=i) for i in (1, n)]; c.close(f[1], f[0], "fft with %d threads" % n, rtol=1e-12)
    f = [fft.rfft(x, axes=ax, nthread=i) for i in (1, n)]; c.close(f[1], f[0], "rfft with %d threads" % n, rtol=1e-12); r = [fft.irfft(f[0], np.zeros_like(x), axes=ax, nthread=i) for i in (1, n)]; c.close(r[1], r[0], "irfft with %d threads" % n, rtol=1e-12)

# --- callers in several Python threads
def pythreads(c):
    import sys
    old = sys.getswitchinterval(); jobs = []; nj = c.int(2,4)
    for _ in range(nj):
        kind = c.pick("ops","ops","sht","fft","map")
        if kind == "ops": k, fn, tol = ops(c)
        elif kind == "sht":
            s, w = fullsky(c, nymin=6, nymax=20)[:2]; lmax = c.int(2,15); ai = curvedsky.alm_info(lmax=lmax); alm = arr(c,(3,ai.nelem))+1j*arr(c,(3,ai.nelem)); k = "sht"; tol = 1e-10
            fn = lambda s=s,w=w,alm=alm,ai=ai,lmax=lmax: (lambda m: [m, curvedsky.map2alm(m, lmax=lmax)])(curvedsky.alm2map(alm, enmap.zeros((3,)+s, w), ainfo=ai))
        elif kind == "fft": x = arr(c,(c.int(3,30),c.int(3,30))); k = "fft"; tol = 1e-11; fn = lambda x=x: [fft.fft(x, axes=[-2,-1]), fft.rfft(x), fft.shift(x, 1.5)]
        else: s, w = patch(c); m = enmap.ndmap(arr(c,(3,)+s), w); k = "map"; tol = 1e-10; fn = lambda m=m: [m.posmap(), enmap.map2harm(m), m.pixsizemap(), m.modlmap(), enmap.downgrade(m, 2), m.at(np.array(enmap.pix2sky(m.shape, m.wcs, [[1.3,2.2],[1.1,2.7]])))]
        jobs.append((k, fn, tol))
    c.note(jobs=[j[0] for j in jobs]); ref = [[np.array(x, copy=True) for x in fn()] for k, fn, tol in jobs]; got = [[] for _ in jobs]; err = []; bar = threading.Barrier(nj)
    def work(i):
        try:
            bar.wait()
            for _ in range(3): got[i].append([np.array(x, copy=True) for x in jobs[i][1]()])
        except Exception as e: err.append("%s: %r" % (jobs[i][0], e))
    try:
        sys.setswitchinterval(1e-5); th = [threading.Thread(target=work, args=(i,)) for i in range(nj)]; [t.start() for t in th]; [t.join() for t in th]
    finally: sys.setswitchinterval(old)
    c.ok(not err, "calls from several Python threads: %s" % err[:2])
    for (k, fn, tol), r, gs in zip(jobs, ref, got):
        for g in gs: compare(c, g, r, tol, "%s called from several Python threads at once" % k)

MONITORS = [("alm_race", alm_race, 150, 2500, "tsan"), ("dist_race", dist_race, 300, 2500, "tsan"), ("interp_race", interp_race, 200, 3500, "tsan"), ("paint_race", paint_race, 120, 2000, "tsan"), ("color_race", color_race, 120, 2000, "tsan"), ("big_race", big_race, 300, 4000, "tsan"),
  ("nthreads", nthreads, 300, 4000, "plain"), ("sht_threads", sht_threads, 100, 1000, "plain"), ("pythreads", pythreads, 80, 1200, "plain")]

"""K01: matched filters, object finders and modellers recover what is in the map"""
import numpy as np
from scipy import ndimage
from pixell import enmap, utils, analysis, uharm, wavelets, multimap, bunch
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["patches of at most a few degrees near the equator, where the flat-sky treatment is accurate; beams of at least three pixels"]}
am = utils.arcmin

def sky(c, nmin=60, nmax=110, resmin=0.4, resmax=0.6, grid=False):
    ny, nx = c.int(nmin, nmax), c.int(nmin, nmax); res = c.uni(resmin, resmax)
    if grid: res = 180*60./round(180*60/res)
    s, w = enmap.geometry(pos=np.array([c.uni(-0.5,0.5), c.pick(0., c.uni(-170,170), 179.9)])*deg, shape=(ny,nx), res=res*am, proj="car" if grid else c.pick("car","car","cea")); note_geo(c, s, w); return s, w
def gbeam(c, uht, lo=1.6, hi=2.4):
    fw = c.uni(lo,hi)*am; sg = fw/np.sqrt(8*np.log(2)); l = np.asarray(uht.l); return enmap.ndmap(np.exp(-0.5*l**2*sg**2), uht.wcs) if uht.mode == "flat" else np.exp(-0.5*l*(l+1)*sg**2), sg
def blob(s, w, pos, sg): return np.exp(-0.5*np.asarray(enmap.modrmap(s, w, pos))**2/sg**2)/(2*np.pi*sg**2)
def profile(sg, nsig=8, n=600): r = np.linspace(0, nsig*sg, n); return np.array([r, np.exp(-0.5*r**2/sg**2)])
def place(c, s, edge=20): return c.int(edge, s[0]-edge), c.int(edge, s[1]-edge)
def knee(c, l): return 1/(1+((l+0.5)/c.uni(500,3000))**c.uni(-3,-1))

def filters(c):
    """flux and its uncertainty at the position of a source, for every filter"""
    s, w = sky(c); uht = uharm.UHT(s, w, mode="flat"); B, sg = gbeam(c, uht); y, x = place(c, s); pos = enmap.pix2sky(s, w, [y,x]); b = blob(s, w, pos, sg)
    pre = c.pick((),(),(),(2,)); F = c.uni(-5,5,pre) if pre else np.array(c.uni(1,5)); m = enmap.ndmap(F[...,None,None]*b, w); dt = c.pick(np.float64, np.float64, np.float32); m = m.astype(dt)
    px = np.asarray(enmap.pixsizemap(s, w)); base = 10**c.uni(-3,1); area = enmap.area(s, w); kind = c.pick("white","constcov","lowcorr","smoothivar","dual","hiacc"); c.note(kind=kind, pre=pre, sigma=sg/am, dtype=np.dtype(dt).name)
    ivar = enmap.ndmap(np.full(s, base*np.mean(px)), w).astype(dt); l = np.asarray(uht.l); iC = enmap.ndmap(knee(c, l), w).astype(dt); B = B.astype(dt)
    give = uht if c.flip(0.8) or uharm.UHT(s, w).mode != "flat" else None
    with c.keeps("matched filter changed its input", m, B, ivar, iC):
        if   kind == "white":     rho, ka = analysis.matched_filter_white(m, B, ivar, give); iC = iC*0+1
        elif kind == "constcov":  rho, ka = analysis.matched_filter_constcov(m, B, iC*base, give)
        elif kind == "hiacc":     rho, ka = analysis.matched_filter_constcorr_lowcorr(m, B, ivar, iC, give, high_acc=True)
        else:                     rho, ka = getattr(analysis, "matched_filter_constcorr_"+kind)(m, B, ivar, iC, give)
    ka = np.asarray(ka)+np.zeros(s); c.ok(rho.shape == m.shape, "shape of rho"); ka = np.broadcast_to(ka, m.shape)
    want = np.sum(np.asarray(B,float)**2*np.asarray(iC))/area*base; tol = 2e-3
    c.close(ka[...,y,x]/want, np.ones(pre), "%s: inverse variance of the flux" % kind, rtol=tol)
    c.close(np.asarray(rho)[...,y,x]/ka[...,y,x], F, "%s: flux of the source" % kind, rtol=tol, scale=np.max(np.abs(F)))
    # linear in the map, every component alone, peak at the source
    if not pre: c.ok(np.unravel_index(np.argmax(np.asarray(rho)/ka), s) == (y,x), "%s: the flux peaks at the source" % kind)
    else:
        k1 = {"white":lambda a: analysis.matched_filter_white(a,B,ivar,uht), "constcov":lambda a: analysis.matched_filter_constcov(a,B,iC*base,uht), "hiacc":lambda a: analysis.matched_filter_constcorr_lowcorr(a,B,ivar,iC,uht,high_acc=True)}.get(kind, lambda a: getattr(analysis,"matched_filter_constcorr_"+kind)(a,B,ivar,iC,uht))
        c.close(np.asarray(k1(m[0])[0]), np.asarray(rho)[0], "one component alone", rtol=1e-6 if dt == np.float64 else 1e-4)

def uneven(c):
    """position-dependent depth: the white filter is exact, the approximations are close for smooth depth"""
    s, w = sky(c); uht = uharm.UHT(s, w, mode="flat"); B, sg = gbeam(c, uht); y, x = place(c, s); b = blob(s, w, enmap.pix2sky(s, w, [y,x]), sg); px = np.asarray(enmap.pixsizemap(s, w)); F = c.uni(1,5); m = enmap.ndmap(F*b, w)
    smooth = c.flip(); c.note(smooth=smooth, sigma=sg/am)
    if smooth: iv = 1+0.8*np.sin(np.arange(s[1])/s[1]*2*np.pi+c.uni(0,6))[None]*np.cos(np.arange(s[0])/s[0]*2*np.pi+c.uni(0,6))[:,None]
    else: iv = c.uni(0.2,2,s)*(c.uni(0,1,s) > 0.2)
    iv = enmap.ndmap(iv*3., w); want = np.sum(b**2*np.asarray(iv)); wr = np.sum(b*np.asarray(iv)*np.asarray(m))
    rho, ka = analysis.matched_filter_white(m, B, iv, uht); c.close(rho[y,x]/wr, 1., "white: rho", rtol=3e-3); c.close(ka[y,x]/want, 1., "white: kappa", rtol=3e-3); c.close(rho[y,x]/ka[y,x], F, "white: flux", rtol=3e-3)
    B2 = uht.hprof_rpow(B, 2); r2, k2 = analysis.matched_filter_white(m, B, iv, uht, B2=B2); c.close(np.asarray(k2), np.asarray(ka), "given squared beam", rtol=1e-9)
    if smooth:
        iC = enmap.ndmap(knee(c, np.asarray(uht.l)), w); loc = np.asarray(iv)[y,x]/np.mean(px); kk = np.sum(np.asarray(B)**2*np.asarray(iC))/enmap.area(s, w)*loc
        for name, t in (("lowcorr",0.12),("smoothivar",0.12),("dual",0.2)):
            if np.asarray(iv)[y,x] < 1.0: continue
            rho, ka = getattr(analysis,"matched_filter_constcorr_"+name)(m, B, iv, iC, uht); c.close(ka[y,x]/kk, 1., name+": kappa with smoothly varying depth", rtol=t); c.close(rho[y,x]/ka[y,x]/F, 1., name+": flux with smoothly varying depth", rtol=t)

def curved(c):
    """the same in curved mode"""
    s, w = sky(c, 44, 60, 0.8, 1.0, True); uht = uharm.UHT(s, w, mode="curved", lmax=int(np.pi/am)); B, sg = gbeam(c, uht, 3.5, 4.5); y, x = place(c, s, 18); b = blob(s, w, enmap.pix2sky(s, w, [y,x]), sg); F = c.uni(1,5); m = enmap.ndmap(F*b, w); kind = c.pick("white","constcov","lowcorr","smoothivar","dual"); c.note(kind=kind)
    px = np.asarray(enmap.pixsizemap(s, w)); base = 10**c.uni(-3,1); ivar = enmap.ndmap(base*px, w); iC = np.asarray(uht.l)*0+1.
    if   kind == "white":    rho, ka = analysis.matched_filter_white(m, B, ivar, uht)
    elif kind == "constcov": rho, ka = analysis.matched_filter_constcov(m, B, iC*base, uht)
    else: rho, ka = getattr(analysis, "matched_filter_constcorr_"+kind)(m, B, ivar, iC, uht)
    ka = np.asarray(ka)+np.zeros(s); want = base/(4*np.pi*sg**2)
    c.close(ka[y,x]/want, 1., "curved %s: kappa" % kind, rtol=0.02); c.close(rho[y,x]/ka[y,x]/F, 1., "curved %s: flux" % kind, rtol=0.02)

def mknmat(c, s, w, n, kind=None, uht=None):
    """noise model, its exact inverse covariance per mode (1/power units), and the name"""
    kind = kind or c.pick("constcov","constcorr","wavelet"); px = enmap.pixsize(s, w); base = 10**c.uni(-3,1); uht = uht or uharm.UHT(s, w, mode="flat"); l = np.asarray(uht.l)
    A = np.eye(n)*c.uni(0.5,2,n)
    if n > 1 and kind != "wavelet": k = -0.3*np.sqrt(A[0,0]*A[1,1]); A[0,1] = A[1,0] = k
    if kind == "wavelet":
        wt = wavelets.WaveletTransform(uht); W = multimap.zeros([((n,n)+tuple(g[0][-2:]), g[1]) for g in wt.geometries])
        for i in range(wt.nlevel): W.maps[i][:] = (A*base*px)[:,:,None,None]
        return analysis.NmatWavelet(wt, W), A[:,:,None,None]*base*np.ones(s), kind
    prof = knee(c, l); iN = enmap.ndmap(A[:,:,None,None]*prof, w)
    if kind == "constcov": return analysis.NmatConstcov(iN*base, 1), np.asarray(iN)*base, kind
    iv = enmap.ndmap(np.full((n,)+s, base*px), w); return analysis.NmatConstcorr(iN, iv), np.asarray(iN)*base, kind

def nmats(c):
    s, w = sky(c); uht = uharm.UHT(s, w, mode="flat"); n = c.pick(1,2,3); nm, iN, kind = mknmat(c, s, w, n, uht=uht); bs = [gbeam(c, uht) for i in range(n)]; c.note(kind=kind, n=n)
    same = c.flip()
    if same: bs = [bs[0]]*n
    beam = enmap.ndmap(np.array([np.asarray(b) for b, _ in bs]), w); y, x = place(c, s); pos = enmap.pix2sky(s, w, [y,x]); F = c.uni(-4,4,n); m = enmap.ndmap(np.array([F[i]*blob(s, w, pos, bs[i][1]) for i in range(n)]), w)
    with c.keeps("Nmat.matched_filter", m, beam): rho, ka = nm.matched_filter(m, beam)
    c.ok(rho.shape == (n,)+s and ka.shape == (n,n)+s, "shapes of rho and kappa")
    want = np.einsum("ayx,abyx,byx->ab", np.asarray(beam), iN, np.asarray(beam))/enmap.area(s, w)
    exact = kind == "constcov" or same or n == 1; t = 3e-3 if exact else 0.05
    c.close(np.asarray(ka)[:,:,y,x], want, "%s: kappa" % kind, rtol=t)
    fl, dfl = analysis.solve_mapsys(ka, rho)
    if exact: c.close(np.asarray(fl)[:,y,x], F, "%s: flux of each component" % kind, rtol=t); c.close(np.asarray(dfl)[:,y,x]/np.sqrt(np.diag(np.linalg.inv(want))), np.ones(n), "%s: flux uncertainty" % kind, rtol=t)
    cache = {}
    for i in range(2): r2, k2 = nm.matched_filter(m, beam, cache=cache); c.same(np.asarray(r2), np.asarray(rho), "rho with a cache, call %d" % (i+1)); c.same(np.asarray(k2), np.asarray(ka), "kappa with a cache, call %d" % (i+1))
    if c.flip():
        b2 = enmap.ndmap(np.asarray(beam)**1.2, w); c.same(np.asarray(nm.matched_filter(m, b2, cache=cache)[0]), np.asarray(nm.matched_filter(m, b2)[0]), "another beam with the same cache")

def simulate(c):
    s, w = sky(c, 40, 60); n = c.pick(1,2,3); nm, iN, kind = mknmat(c, s, w, n, c.pick("constcov","constcorr")); c.note(kind=kind, n=n); np.random.seed(c.int(0,2**31-1)); uht = uharm.UHT(s, w, mode="flat"); l = np.asarray(uht.l); acc = 0; ns = 24
    for i in range(ns):
        f = np.asarray(enmap.fft(nm.simulate(), normalize="phys")); c.ok(f.shape == (n,)+s, "shape of the simulation"); acc = acc + np.einsum("ayx,byx->abyx", f, np.conj(f)).real/ns
    want = np.linalg.inv(np.moveaxis(iN,(0,1),(-2,-1))); want = np.moveaxis(want,(-2,-1),(0,1)); hi = l > 0.3*l.max()
    for i in range(n):
        for j in range(i+1):
            r = np.mean((acc[i,j]/np.sqrt(want[i,i]*want[j,j]))[hi]); e = np.mean((want[i,j]/np.sqrt(want[i,i]*want[j,j]))[hi]); c.ok(abs(r-e) < 8*(2./(np.sum(hi)*ns))**0.5+1e-3, "%s: simulated noise %d,%d has %.4f of the power instead of %.4f" % (kind, i, j, r, e))

def field(c, s, w, nsrc, sgs, minsep, edge=16):
    """well separated positions"""
    P = []
    for t in range(400):
        if len(P) == nsrc: break
        p = np.array([c.uni(edge, s[0]-1-edge), c.uni(edge, s[1]-1-edge)])
        if all(np.hypot(*(p-q)) > minsep for q in P): P.append(p)
    return np.array(P).reshape(-1,2).T

def match_cat(c, cat, pos, res, what, tol=0.35):
    """pair each catalogue entry with a true position"""
    c.ok(len(cat) == pos.shape[1], "%s: found %d objects out of %d" % (what, len(cat), pos.shape[1]))
    if len(cat) != pos.shape[1] or len(cat) == 0: return None
    d = np.hypot(np.asarray(cat.dec)[:,None]-pos[0][None], ((np.asarray(cat.ra)[:,None]-pos[1][None]+np.pi)%(2*np.pi)-np.pi)); i = np.argmin(d, 1)
    c.ok(len(set(i.tolist())) == len(cat), "%s: each object once" % what); c.ok(np.max(np.min(d,1)) < tol*res, "%s: positions off by %.2f pixels" % (what, np.max(np.min(d,1))/res)); return i

def finder(c):
    s, w = sky(c, 100, 150); uht = uharm.UHT(s, w, mode="flat"); n = c.pick(1,1,2); nm, iN, kind = mknmat(c, s, w, n, uht=uht); B, sg = gbeam(c, uht); beam = enmap.ndmap(np.array([np.asarray(B)]*n), w); res = abs(w.wcs.cdelt[1])*deg
    k0 = np.einsum("ayx,abyx,byx->ab", np.asarray(beam), iN, np.asarray(beam))/enmap.area(s, w); sc = np.ones(n) if c.flip() else c.uni(0.7,1.4,n); dtot = (sc.dot(k0).dot(sc))**-0.5
    pix = field(c, s, w, c.pick(0, 1, 2, 3), [sg], 40); nsrc = pix.shape[1]; pos = np.asarray(enmap.pix2sky(s, w, pix)); sn = c.uni(8, 16, nsrc); F = sn*dtot; c.note(kind=kind, n=n, nsrc=nsrc, sn=sn)
    m = enmap.zeros((n,)+s, w)
    for i in range(nsrc): m += sc[:,None,None]*F[i]*blob(s, w, pos[:,i], sg)
    f = analysis.FinderSimple(nm, beam, scaling=sc if not np.all(sc == 1) or c.flip() else 1)
    with c.keeps("finder", m, beam): r = f(m, snmin=5)
    c.ok(r.snmin == 5 and r.snr.shape == s, "threshold and significance map"); i = match_cat(c, r.cat, pos, res, "FinderSimple")
    if i is None: return
    cat = r.cat; c.ok(np.all(np.diff(cat.snr) <= 0), "catalogue sorted by significance")
    c.close(cat.flux_tot, F[i], "total flux", rtol=0.04); c.close(cat.dflux_tot/dtot, np.ones(nsrc), "uncertainty of the total flux", rtol=0.01); c.close(cat.flux, F[i][:,None]*sc, "flux per component", rtol=0.05); c.ok(np.all(cat.snr <= sn[i]*1.02) and np.all(cat.snr >= sn[i]*0.78), "significance %s instead of %s" % (cat.snr, sn[i]))
    # thresholds
    t = c.uni(5, 20); q = f(m, snmin=t).cat; c.ok(len(q) == np.sum(cat.snr >= t), "threshold %.2f keeps the objects above it" % t)
    q = f(m, snmin=2, snrel=0.9); c.ok(abs(q.snmin-max(2,0.9*cat.snr[0])) < 1e-6*q.snmin and len(q.cat) == np.sum(cat.snr >= q.snmin), "relative threshold")
    pen = enmap.ones(s, w); yy, xx = [int(v) for v in np.round(pix[:,i[0]])]; pen[max(yy-10,0):yy+11,max(xx-10,0):xx+11] = 1e6; q = f(m, snmin=5, penalty=pen).cat; c.ok(len(q) == nsrc-1, "penalized region is not searched")
    for nam, g in c.pick((("FinderSimple", f),), (("FinderMulti", analysis.FinderMulti(nm, [beam], [sc])),), (("FinderMultiSafe", analysis.FinderMultiSafe(nm, [beam], [sc])),)):   # a relative threshold refers to the penalized significance
        pen[pen > 1] = 3; rel = c.uni(0.5,0.95); q = g(m, snmin=3, snrel=rel, penalty=pen); S = np.asarray(q.snr)/np.asarray(pen); lim = max(3, np.max(S)*rel); c.close(q.snmin, lim, nam+": relative threshold with a penalty", rtol=1e-6); c.close(np.zeros(s)+q.snlim, lim*np.asarray(pen), nam+": local threshold", rtol=1e-6); c.ok(len(q.cat) == ndimage.label(S >= lim)[1] or np.any(np.abs(S-lim) < 1e-6*lim), nam+": objects above the relative threshold")
    # measuring at known positions gives the same
    true = cat.copy(); true.dec = pos[0][i]; true.ra = pos[1][i]; true.flux_tot = -1; true.flux = -1
    with c.keeps("measurer", m): q = analysis.MeasurerSimple(nm, beam, scaling=sc)(m, true).cat
    c.close(q.flux_tot, F[i], "measured flux", rtol=0.02); c.close(q.dflux_tot/dtot, np.ones(nsrc), "measured uncertainty", rtol=0.01); c.close(q.flux, F[i][:,None]*sc, "measured flux per component", rtol=0.02); c.ok(np.all(true.flux_tot == -1), "measurer left the catalogue alone")

def mkcat(dec, ra, flux, snr=None, case=None, sc=None):
    n = len(dec); nc = flux.shape[1]; cat = np.zeros(n, [("ra","d"),("dec","d"),("snr","d"),("flux_tot","d"),("dflux_tot","d"),("flux","d",(nc,)),("dflux","d",(nc,)),("case","i")]).view(np.recarray); cat.dec = dec; cat.ra = ra; cat.flux = flux; cat.flux_tot = flux[:,0]; cat.snr = 10 if snr is None else snr; cat.dflux = 1; cat.dflux_tot = 1; cat.case = 0 if case is None else case; return cat

def modeller(c):
    s, w = sky(c); n = c.pick(1,2,3); sgs = c.uni(0.7,1.1,n)*am; profs = [profile(sg) for sg in sgs]; scale = c.uni(0.5,3,n); give = [np.array([p[0], p[1]*k]) for p, k in zip(profs, scale)]; ns = c.pick(0,1,3,6); pix = np.array([c.uni(0,s[0]-1,ns), c.uni(0,s[1]-1,ns)]); pos = np.asarray(enmap.pix2sky(s, w, pix)).reshape(2,ns); flux = c.uni(-3,3,(ns,n)); cat = mkcat(pos[0], pos[1], flux); dt = np.float32; c.note(n=n, ns=ns, dtype=np.dtype(dt).name)
    kind = c.pick("perfreq","scaled","multi"); c.note(kind=kind); sh = (c.pick(7,n),)+s if c.flip() else s; sc = c.uni(0.5,2,n)
    mp, ms = analysis.ModellerPerfreq(sh, w, give, dtype=dt), analysis.ModellerScaled(sh, w, give, sc, dtype=dt)
    if kind == "perfreq": M, amps = mp, flux
    elif kind == "scaled": M, amps = ms, cat.flux_tot[:,None]*sc
    else:
        M = analysis.ModellerMulti([mp, ms]); cat.case = c.rng.integers(0, 2, ns) if c.flip() else c.pick(0,1); amps = np.where(cat.case[:,None] == 0, flux, cat.flux_tot[:,None]*sc)
    keep = cat.copy(); m = M(cat); A = M.amplitudes(cat); c.ok(np.all(keep == cat), "modeller left the catalogue alone"); c.ok(m.shape == (n,)+s and m.dtype == dt, "shape and type of the model")
    area = 2*np.pi*sgs**2; c.close(A, amps/area, "peak amplitudes", rtol=2e-3, scale=np.max(np.abs(amps/area)) if ns else 1)
    want = np.zeros((n,)+s)
    for i in range(ns):
        for j in range(n): want[j] += amps[i,j]*blob(s, w, pos[:,i], sgs[j])
    c.close(np.asarray(m), want, "model map", rtol=4e-3, scale=np.max(np.abs(want)) if ns else 1)

def two_kinds(c):
    """finders and measurers for several kinds of object assign each to the right kind"""
    s, w = sky(c, 120, 160); uht = uharm.UHT(s, w, mode="flat"); n = c.pick(1,2); nm, iN, kind = mknmat(c, s, w, n, c.pick("constcov","constcorr","wavelet"), uht=uht); B1, s1 = gbeam(c, uht, 1.6, 1.9); B2, s2 = gbeam(c, uht, 3.8, 4.5); beams = [enmap.ndmap(np.array([np.asarray(B)]*n), w) for B in (B1, B2)]; sgs = [s1, s2]; res = abs(w.wcs.cdelt[1])*deg
    area = enmap.area(s, w); d = [np.einsum("ayx,abyx,byx->", np.asarray(b), iN, np.asarray(b))/area for b in beams]; pix = np.round(field(c, s, w, 2, sgs, 50, edge=24)); ns = pix.shape[1]; case = c.rng.integers(0, 2, ns) if c.flip() else np.full(ns, c.pick(0,1)); F = np.array([c.uni(9,13)*d[k]**-0.5 for k in case]); pos = np.asarray(enmap.pix2sky(s, w, pix)); c.note(kind=kind, n=n, case=case.tolist())
    if ns < 2: return
    m = enmap.zeros((n,)+s, w)
    for i in range(ns): m += F[i]*blob(s, w, pos[:,i], sgs[case[i]])
    sc = [np.ones(n)]*2 if c.flip(0.7) else None
    safe = c.flip()
    if safe:
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()): f = analysis.FinderMultiSafe(nm, beams, sc)
    else: f = analysis.FinderMulti(nm, beams, sc)
    with c.keeps("multi finder", m): cat = f(m, snmin=6).cat
    what = "FinderMultiSafe" if safe else "FinderMulti"; i = match_cat(c, cat, pos, res, what, tol=0.6)
    if i is None: return
    c.same(np.asarray(cat.case), case[i], "%s: kind of each object" % what); c.ok(np.all(np.diff(cat.snr) <= 0), "%s: sorted" % what)
    c.close(cat.flux_tot/F[i], np.ones(ns), "%s: total flux" % what, rtol=0.08); c.close(cat.dflux_tot/np.array([d[k]**-0.5 for k in case[i]]), np.ones(ns), "%s: uncertainty" % what, rtol=0.02)
    me = analysis.MeasurerMulti([analysis.MeasurerSimple(nm, b) for b in beams]); t = cat.copy(); t.dec, t.ra = pos[:,i]; t.flux_tot = 0; q = me(m, t).cat; c.close(q.flux_tot/F[i], np.ones(ns), "MeasurerMulti: total flux", rtol=0.02); c.same(np.asarray(q.case), case[i], "MeasurerMulti: kinds kept")

def iterative(c):
    """a weak object next to a strong one"""
    s, w = sky(c, 100, 130); uht = uharm.UHT(s, w, mode="flat"); n = 1; kind = c.pick("constcov","constcorr"); iN = enmap.ndmap(np.ones((1,1)+s)*10**c.uni(-2,2), w); px = enmap.pixsize(s, w)
    nm = analysis.NmatConstcov(iN, 1) if kind == "constcov" else analysis.NmatConstcorr(iN*0+1, enmap.ndmap(np.asarray(iN[0])*px, w)); B, sg = gbeam(c, uht); beam = enmap.ndmap(np.asarray(B)[None], w); d = (np.sum(np.asarray(beam)**2*np.asarray(iN))/enmap.area(s, w))**-0.5; res = abs(w.wcs.cdelt[1])*deg
    p0 = np.array([c.uni(40, s[0]-41), c.uni(40, s[1]-41)]); sep = c.uni(5.5,7)*sg/res; a = c.uni(0, 2*np.pi); p1 = p0+sep*np.array([np.sin(a), np.cos(a)]); pix = np.array([p0,p1]).T; pos = np.asarray(enmap.pix2sky(s, w, pix)); F = np.array([c.uni(150,300), c.uni(12,20)])*d; c.note(kind=kind, sep=sep, sigma=sg/am)
    m = enmap.zeros((1,)+s, w)
    for i in range(2): m += F[i]*blob(s, w, pos[:,i], sg)
    np.random.seed(c.int(0,2**31-1)); M = analysis.ModellerPerfreq(s, w, [profile(sg)])
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()), c.keeps("iterative finder", m): r = analysis.FinderIterative(analysis.FinderSimple(nm, beam), M)(m, snmin=6)
    if c.flip(0.3):
        with contextlib.redirect_stdout(io.StringIO()): z = analysis.FinderIterative(analysis.FinderSimple(nm, beam), M, maxiter=1)(m, snmin=6)
        c.ok(len(z.cat) > 0 and np.min(np.hypot(z.cat.dec-pos[0,1], (z.cat.ra-pos[1,1]+np.pi)%(2*np.pi)-np.pi)) > 1.5*res, "a single iteration only finds the strong object"); c.ok(set(z.keys()) == set(r.keys()), "fields of the result")
    c.ok({"cat","snmin","model","hits","bad_mask"} <= set(r.keys()), "fields of the result: %s" % sorted(r.keys()))
    cat = r.cat; dd = np.hypot(cat.dec[:,None]-pos[0], (cat.ra[:,None]-pos[1]+np.pi)%(2*np.pi)-np.pi)
    for j in range(2): c.ok(len(cat) > 0 and np.min(dd[:,j]) < 0.8*res, "object %d not found" % j)
    near = np.sum(cat.flux_tot[np.min(dd,1) < 2*res]); c.close(near/np.sum(F), 1., "total flux found", rtol=0.05); c.ok(np.max(np.abs(np.asarray(m-r.model))) < 0.08*np.max(np.asarray(m)), "the model must explain the map")
    t = mkcat(pos[0], pos[1], F[:,None]*0, snr=F/d); q = analysis.MeasurerIterative(analysis.MeasurerSimple(nm, beam), M)(m, t); c.close(q.cat.flux_tot, F, "iteratively measured fluxes", rtol=0.01, scale=F[0]); c.close(q.cat.flux_tot[1]/F[1], 1., "weak flux next to a strong source", rtol=0.12); c.close(np.asarray(q.model), np.asarray(m), "model of the measured sources", rtol=0.02)
    e = analysis.MeasurerIterative(analysis.MeasurerSimple(nm, beam), M)(m, t[:0]); c.ok(len(e.cat) == 0 and not np.any(np.asarray(e.model)), "empty catalogue")

def helpers(c):
    # snr groups
    n = c.int(1, 30); snr = 10**c.uni(-1,3,n)*c.pick(1,1,-1)**c.rng.integers(0,2,n); tol = c.pick(0.25,0.5,0.1); mn = c.pick(5,0.1,1)
    with c.keeps("snr_split", snr): g = analysis.snr_split(snr, sntol=tol, snmin=mn)
    allg = np.concatenate(g); c.same(np.sort(allg), np.arange(n), "every object in exactly one group"); a = np.abs(snr)
    for i, q in enumerate(g):
        eff = np.maximum(a[q], mn); c.ok(np.min(eff) >= tol*np.max(eff)*(1-1e-6), "group %d spans more than sntol" % i)
        if i: c.ok(np.max(eff) <= np.min(np.maximum(a[g[i-1]], mn))*(1+1e-9), "groups ordered by strength")
    lo = np.where(a < mn)[0]; c.ok(len(lo) == 0 or any(set(lo.tolist()) <= set(np.asarray(q).tolist()) for q in g), "weak objects together")
    # arrays
    k = c.int(0,6); x = np.zeros(k, [("a","d"),("b","i",(2,))]); y = np.zeros(k, [("z","d",(3,))]); x["a"] = c.uni(-1,1,k); x["b"] = c.rng.integers(0,9,(k,2)); y["z"] = c.uni(-1,1,(k,3)); mm = analysis.merge_arrays([x,y]); c.ok(mm.dtype.names == ("a","b","z"), "merged columns"); [c.same(mm[f], o[f], "merged "+f) for o in (x,y) for f in o.dtype.names]
    # systems
    s, w = patch(c, projs=("car",), nmax=8); q = c.pick(1,2,3); A = c.uni(-1,1,(q,q)+s); K = np.einsum("abyx,cbyx->acyx", A, A)+0.5*np.eye(q)[:,:,None,None]; f0 = c.uni(-1,1,(q,)+s); rho = enmap.ndmap(np.einsum("abyx,byx->ayx", K, f0), w); fl, df = analysis.solve_mapsys(enmap.ndmap(K, w), rho); c.close(np.asarray(fl), f0, "solved fluxes", rtol=1e-8); c.close(np.asarray(df)**2, np.einsum("yxaa->ayx", np.linalg.inv(np.moveaxis(K,(0,1),(-2,-1)))), "solved uncertainties", rtol=1e-8)
    k1 = enmap.ndmap(c.uni(0.5,2,s), w); fl, df = analysis.solve_mapsys(k1, rho[0]); c.close(np.asarray(fl), np.asarray(rho[0])/np.asarray(k1), "scalar system"); c.close(np.asarray(df), np.asarray(k1)**-0.5, "scalar uncertainty")
    kk = enmap.ndmap(c.uni(-1,1,(q,q)+s), w); keep = np.array(kk); z = analysis.sanitize_kappa(kk); c.same(np.asarray(kk), keep, "sanitize_kappa left its input alone")
    for i in range(q): c.close(np.asarray(z)[i,i], np.maximum(keep[i,i], keep[i,i].max()*1e-4), "sanitized diagonal")
    # real-space powers of fourier maps
    m1, m2 = [enmap.ndmap(c.uni(-1,1,s), w) for i in range(2)]; sym = lambda a: np.asarray(enmap.ifft(enmap.fft(a).real+0j).real)
    a, b = enmap.ndmap(sym(m1), w), enmap.ndmap(sym(m2), w); norm = enmap.area(s, w)**0.5; fa, fb = [enmap.fft(v, normalize="phys").real*norm for v in (a,b)]
    c.close(np.asarray(analysis.rpow(fa, 2)), np.asarray(enmap.fft(a**2, normalize="phys").real)*norm, "real-space square", rtol=1e-9); c.close(np.asarray(analysis.rmul(fa, fb)), np.asarray(enmap.fft(a*b, normalize="phys").real)*norm, "real-space product", rtol=1e-9); c.close(np.asarray(analysis.rop(fa, fb, op=np.add)), np.asarray(fa+fb), "real-space sum", rtol=1e-9)

MONITORS = [("filters", filters, 160, 3000), ("uneven", uneven, 60, 800), ("curved", curved, 16, 120), ("nmats", nmats, 80, 1200), ("simulate", simulate, 24, 240), ("finder", finder, 60, 600), ("modeller", modeller, 60, 800), ("two_kinds", two_kinds, 40, 400), ("iterative", iterative, 24, 240), ("helpers", helpers, 80, 1500)]

"""D01: distance maps, domains, distance transforms and mask growing give the distance to the nearest point."""
import numpy as np
from pixell import enmap, utils, distances
from gen import *

INFO = {"level": "exploration", "threads": 3, "nproc": 4,
  "assumptions": ["reference: brute force over all points with the positions of the projection equations", "the bubble, cellgrid and heap searches may be off by a pixel diagonal where domains are narrower than a pixel, as documented"]}

def brute(pos, pts):
    """[npix] distance, [npix,npoint] all distances"""
    d = angsep(pos[0][:,None], pos[1][:,None], pts[0][None], pts[1][None]); return d.min(1), d
def pixdiag(s, w):
    p = skygrid(s, w); d = [0.]
    if s[0] > 1 and s[1] > 1: d.append(np.nanmax(angsep(p[0,1:,1:], p[1,1:,1:], p[0,:-1,:-1], p[1,:-1,:-1]))); d.append(np.nanmax(angsep(p[0,1:,:-1], p[1,1:,:-1], p[0,:-1,1:], p[1,:-1,1:])))
    if s[0] > 1: d.append(np.nanmax(angsep(p[0,1:], p[1,1:], p[0,:-1], p[1,:-1])))
    if s[1] > 1: d.append(np.nanmax(angsep(p[0,:,1:], p[1,:,1:], p[0,:,:-1], p[1,:,:-1])))
    return max(d)
def geo(c, maxn=45):
    """Compact maps (a nearly convex patch of sky, or the whole sky), where the searches can reach everything"""
    k = c.pick("patch","patch","full","zen","long")
    if k == "full":
        ny = c.int(6, 20); nx = c.pick(2*ny, c.int(8, 50)); w = mkwcs("car", [c.uni(-180,180), 0], [c.pick(-1,1)*360./nx, c.pick(-1,1)*180./ny], [c.int(1,nx), (ny+1)/2.]); s = (ny, nx)
    elif k == "long": # a strip that needs several search cells
        s = (c.int(1,4), c.int(60,150)); r = c.uni(0.05, 0.3); s = s if c.flip() else s[::-1]; w = mkwcs("car", [c.uni(-180,180), 0], [-r, r], [s[1]/2.+c.uni(-5,5), s[0]/2.+c.uni(-5,5)])
    else:
        s = (c.int(1,maxn), c.int(1,maxn)); r = c.uni(0.05, 0.6)
        if k == "patch": proj = c.pick("car","cea","mer"); w = mkwcs(proj, [c.pick(0.,180.,c.uni(-180,180)), 0], [c.pick(-1,1)*r, c.pick(-1,1)*r*c.uni(0.5,1.5)], [s[1]/2.+c.uni(-20,20), s[0]/2.+c.uni(-30,30)], 1. if proj == "cea" else None)
        else: w = mkwcs(c.pick("tan","zea","arc","sin"), [c.pick(0.,180.,c.uni(-180,180)), c.pick(90.,-90.,c.uni(-90,90))], [c.pick(-1,1)*r*0.7, r*0.7], [s[1]/2.+c.uni(-4,4), s[0]/2.+c.uni(-4,4)])
    note_geo(c, s, w); c.note(kind=k); return s, w, k
def points(c, s, w, k):
    n = c.pick(1, 1, 2, c.int(1,12), c.int(20,60)); where = c.pick("in","in","centers","some-out","same") ; where = "in" if where == "some-out" and k == "full" else where
    y, x = c.uni(-0.45, s[0]-0.55, n), c.uni(-0.45, s[1]-0.55, n)
    if where == "centers": y, x = np.round(y), np.round(x)
    if where == "same": y[1:] = np.round(y[0])+c.uni(-0.3,0.3,n-1); x[1:] = np.round(x[0])+c.uni(-0.3,0.3,n-1); y[0], x[0] = np.round(y[0])+0.1, np.round(x[0])
    if where == "some-out":
        out = c.rng.random(n) < 0.5; y = np.where(out & c.flip(), y+c.pick(-1,1)*(s[0]*c.uni(1,1.5)), y); x = np.where(out, x+c.pick(-1,1)*s[1]*c.uni(1,1.5), x)
    if k == "full": y = np.clip(y, -0.45, s[0]-0.55)
    p = np.array(ref_pix2sky(w, y, x)); c.note(n=n, where=where); c.where = where; return p if np.all(np.isfinite(p)) and np.max(np.abs(p[0])) <= np.pi/2 else None

def judge(c, dist, dom, pos, pts, rmax, slack, exact, msg, frac=True):
    true, all_ = brute(pos, pts); dist = np.asarray(dist, float).reshape(-1); R = np.inf if rmax is None else rmax; tol = 1e-9+1e-7*0
    # 1. never closer than the nearest point, and capped at rmax
    lim = np.minimum(true, R); bad = dist < lim-2e-8; c.ok(not bad.any(), "%s: %d pixels closer than the nearest point, e.g. %g < %g" % (msg, bad.sum(), dist[bad][0] if bad.any() else 0, lim[bad][0] if bad.any() else 0))
    sl = 2e-8 if exact else slack; bad = dist > lim+sl; c.ok(not bad.any(), "%s: %d pixels too far, e.g. %g > %g (+%g)" % (msg, bad.sum(), dist[bad][0] if bad.any() else 0, lim[bad][0] if bad.any() else 0, sl))
    if dom is not None:
        dom = np.asarray(dom).reshape(-1); found = dom >= 0; c.ok(np.all(dom >= -1) and np.all(dom < pts.shape[1]), "%s: domains out of range" % msg)
        c.close(dist[found], all_[found, dom[found]], "%s: distance to the point named in the domain map" % msg, atol=2e-8)
        if rmax is None: c.ok(found.all(), "%s: pixels without a domain" % msg)
        else: c.close(dist[~found], np.full((~found).sum(), float(rmax)), "%s: pixels beyond rmax" % msg, atol=1e-12); c.ok(np.all(true[~found] >= rmax-sl), "%s: pixels within rmax have no domain" % msg)
    # almost all pixels are exact
    far = pts.shape[1] == 1 or np.min(angsep(pts[0][:,None],pts[1][:,None],pts[0],pts[1])+10*np.eye(pts.shape[1])) > 3*slack
    if not exact and frac and far and len(dist) > 20*pts.shape[1]: c.ok(np.mean(dist > lim+2e-8) < 0.25, "%s: %.0f%% of the pixels are inexact" % (msg, 100*np.mean(dist > lim+2e-8)))

def distfrom(c):
    s, w, k = geo(c); pts = points(c, s, w, k)
    if pts is None: return
    pos = skygrid(s, w).reshape(2,-1)
    if not np.all(np.isfinite(pos)) or s == (1,1): return
    meth = c.pick("cellgrid","cellgrid","bubble","simple"); rmax = c.pick(None, None, c.uni(0.3, 6)*pixdiag(s, w)*max(s)/6) if meth != "simple" else None; form = c.pick("new","omap","both"); c.note(method=meth, rmax=rmax, form=form); pre = c.pick((), (2,))
    kw = dict(method=meth, rmax=rmax)
    if form != "new": kw["omap"] = enmap.ndmap(np.full(s, 7.7), w)
    if form == "both": kw["odomains"] = enmap.ndmap(np.full(s, 77, np.int32), w)
    if c.flip(0.3): kw["step"] = c.int(1, s[0]+2)
    dm = form == "both" or c.flip(0.7)
    with c.keeps("distance_from", pts): r = enmap.distance_from(pre+s, w, pts, domains=dm, **kw) if c.flip() else enmap.ndmap(np.zeros(pre+s), w).distance_from(pts, domains=dm, **kw)
    d, dom = r if dm else (r, None)
    if form != "new": c.ok(d is kw["omap"] or np.shares_memory(d, kw["omap"]), "omap is used")
    if form == "both": c.ok(dom is kw["odomains"] or np.shares_memory(dom, kw["odomains"]), "odomains is used")
    c.ok(d.shape == s, "shape"); single = pts.shape[1] == 1
    judge(c, d, dom, pos, pts, rmax, 1.5*pixdiag(s, w)+1e-8, meth == "simple" or (single and rmax is None), meth, c.where != "same")

def lowlevel(c):
    """the compiled functions, with all their block sizes and radius steps"""
    s, w, k = geo(c, 30); pts = points(c, s, w, k)
    if pts is None: return
    P = skygrid(s, w); pos = P.reshape(2,-1)
    if not np.all(np.isfinite(pos)) or s == (1,1): return
    pix = np.round(np.array(enmap.sky2pix(s, w, pts))).astype(int); sep = proj_of(w) in ("CAR","CEA","MER"); bs = c.pick(1, 2, 3, 5, 8, 32, (3,7)); dr = c.pick(np.inf, np.inf, c.uni(1,4)*pixdiag(s,w)); rmax = c.pick(None, None, c.uni(1,10)*pixdiag(s,w)); use = sep and c.flip(); c.note(bsize=str(bs), dr=dr, rmax=rmax, separable=use)
    y, x = (P[0,:,0].copy(), P[1,0].copy()) if use else (P[0].copy(), P[1].copy())
    with c.keeps("cellgrid", y, x, pts, pix): d, dom = distances.distance_from_points_cellgrid(y, x, pts, pix, dr=dr, rmax=rmax, domains=True, bsize=bs)
    judge(c, d, dom, pos, pts, rmax, 1.5*pixdiag(s,w)+1e-8, pts.shape[1] == 1 and rmax is None, "cellgrid", c.where != "same")

def same_any(c):
    """all methods agree for any geometry, also when the map is not convex, in never understating a distance"""
    s, w = anygeo(c); pos = skygrid(s, w)
    if not np.all(np.isfinite(pos)) or s[0]*s[1] > 4000: return
    pos = pos.reshape(2,-1); n = c.int(1,8); pts = rand_points(c, n); simple = enmap.distance_from(s, w, pts, method="simple"); true, all_ = brute(pos, pts); c.close(np.asarray(simple).reshape(-1), true, "simple", atol=2e-8)
    for meth in ("cellgrid","bubble"):
        d, dom = enmap.distance_from(s, w, pts, method=meth, domains=True); d = np.asarray(d).reshape(-1); dom = np.asarray(dom).reshape(-1); c.ok(np.all(d >= true-2e-8), "%s understates distances" % meth); c.ok(np.all(dom >= 0), "%s: no domain" % meth); c.close(d, all_[np.arange(len(d)),dom], "%s: distance to the domain's point" % meth, atol=2e-8)
        if n == 1: c.close(d, true, "%s: single point" % meth, atol=2e-8)

def blobs(c, s, frac=None):
    """random boolean mask with structures of several sizes"""
    frac = c.pick(0.02, 0.3, 0.5, 0.9) if frac is None else frac; from scipy import ndimage
    v = c.rng.normal(size=s); sm = c.pick(0, 0, 1, 3); v = ndimage.gaussian_filter(v, sm) if sm else v; return v < np.quantile(v, frac)
def transform(c):
    s, w, k = geo(c, 24); P = skygrid(s, w); pos = P.reshape(2,-1)
    if not np.all(np.isfinite(pos)) or s[0]*s[1] > 900 or s == (1,1): return
    pre = c.pick((), (2,)); m = np.array([blobs(c, s) for i in range(2)]) if pre else blobs(c, s); mode = c.pick("rand","rand","all","none","one")
    if mode == "all": m[...] = True
    if mode == "none": m[...] = False
    if mode == "one": m[...] = True; m[...,c.int(0,s[0]-1),c.int(0,s[1]-1)] = False
    mask = enmap.ndmap(m, w); meth = c.pick("cellgrid","cellgrid","bubble","simple"); rmax = c.pick(None, None, c.uni(1,6)*pixdiag(s,w)) if meth != "simple" else None; c.note(mode=mode, method=meth, rmax=rmax, pre=pre)
    with c.keeps("distance_transform", mask): d = mask.distance_transform(rmax=rmax, method=meth) if c.flip() else enmap.distance_transform(mask, rmax=rmax, method=meth)
    c.ok(d.shape == mask.shape, "shape"); R = np.inf if rmax is None else rmax
    for mm, dd in zip(m.reshape((-1,)+s), np.asarray(d).reshape((-1,)+s)):
        f = mm.reshape(-1); dd = dd.reshape(-1); c.ok(np.all(dd[~f] == 0), "zero inside the false region")
        if not (~f).any(): c.ok(np.all(dd == R), "no false pixels at all"); continue
        true = np.minimum(brute(pos, pos[:,~f])[0], R); c.ok(np.all(dd >= true-2e-8), "distances understated"); sl = 2e-8 if meth == "simple" else 1.5*pixdiag(s,w); c.ok(np.all(dd <= true+sl), "distances overstated by up to %g (pixel diagonal %g)" % (np.max(dd-true), pixdiag(s,w)))
        if meth == "simple" and k in ("patch","long"): pass
    # growing and shrinking
    r = c.uni(0.5, 5)*pixdiag(s,w); D = [brute(pos, pos[:,~mm.reshape(-1)])[0] if (~mm).any() else np.full(mm.size, np.inf) for mm in m.reshape((-1,)+s)]; sl = 1.5*pixdiag(s,w)
    sh = np.asarray(enmap.shrink_mask(mask, r)).reshape(len(D),-1)
    for a, dd, mm in zip(sh, D, m.reshape((-1,)+s)):
        c.ok(np.all(a[(dd >= r+1e-8)]), "shrink_mask removes pixels further than r from the edge"); c.ok(not np.any(a[dd < r-sl]), "shrink_mask keeps pixels near the edge"); c.ok(not np.any(a & ~mm.reshape(-1)), "shrink_mask adds pixels")
    gr = np.asarray(enmap.grow_mask(mask, r)).reshape(len(D),-1)
    for a, mm in zip(gr, m.reshape((-1,)+s)):
        dd = brute(pos, pos[:,mm.reshape(-1)])[0] if mm.any() else np.full(mm.size, np.inf); c.ok(not np.any(a[dd > r+1e-8]), "grow_mask reaches too far"); c.ok(np.all(a[dd < r-sl]), "grow_mask misses pixels"); c.ok(np.all(a[mm.reshape(-1)]), "grow_mask loses pixels")

def labeled(c):
    s, w, k = geo(c, 24); P = skygrid(s, w); pos = P.reshape(2,-1)
    if not np.all(np.isfinite(pos)) or s[0]*s[1] > 900 or s == (1,1): return
    n = c.int(0, 5); lab = np.where(blobs(c, s, c.pick(0.05,0.3,0.7)), c.rng.integers(1, max(n,1)+1, s) if c.flip(0.4) else np.clip((np.arange(s[0])[:,None]*max(n,1))//s[0]+1, 1, max(n,1)), 0)*(n > 0); lab = enmap.ndmap(lab.astype(c.pick(np.int32, np.int64)), w); meth = c.pick("cellgrid","cellgrid","bubble","simple"); rmax = c.pick(None, None, c.uni(1,6)*pixdiag(s,w)) if meth != "simple" else None; c.note(method=meth, rmax=rmax, nlab=n); R = np.inf if rmax is None else rmax
    with c.keeps("labels", lab): d, dom = lab.labeled_distance_transform(rmax=rmax, method=meth)
    if c.flip(0.3):
        o, q = enmap.zeros(lab.shape, lab.wcs), enmap.zeros(lab.shape, lab.wcs, np.int32); d2, dom2 = lab.labeled_distance_transform(rmax=rmax, method=meth, omap=o, odomains=q); c.same(np.asarray(o), np.asarray(d), "distances written to the given map"); c.same(np.asarray(q), np.asarray(dom), "labels written to the given map"); c.same(np.asarray(d2), np.asarray(d), "distances returned"); c.same(np.asarray(dom2), np.asarray(dom), "labels returned")
    d, dom, l = np.asarray(d).reshape(-1), np.asarray(dom).reshape(-1), np.asarray(lab).reshape(-1)
    if not l.any(): c.ok(np.all(dom == 0) and np.all(d == R), "no labels"); return
    per = np.array([brute(pos, pos[:,l==v])[0] if (l==v).any() else np.full(l.size, np.inf) for v in range(1,n+1)]); true = np.minimum(per.min(0), R); sl = 2e-8 if meth == "simple" else 1.5*pixdiag(s,w)
    c.ok(np.all(d[l!=0] == 0), "zero inside labels"); c.ok(np.all(d >= true-2e-8) and np.all(d <= true+sl), "distance to the nearest label"); f = (dom > 0) & (l == 0); c.close(d[f], per[dom[f]-1, np.where(f)[0]], "distance to the label in the domain map", atol=sl)
    # pixels that fully belong to a label are in its domain. Interior pixels of a label are closest to their own label's edge
    near = per == per.min(0); c.ok(np.all((per[np.maximum(dom,1)-1, np.arange(l.size)] <= per.min(0)+sl) | (dom == 0)), "domain names a label that is not the nearest"); c.ok(np.all(dom[true < R-sl] > 0), "no domain within rmax")

def edges(c):
    s = (c.int(1,12), c.int(1,12)); m = blobs(c, s); dt = c.pick(bool, np.uint8, np.int8, np.int32, np.float64); m2 = m.astype(dt); m2 = m2 if c.flip() else np.asfortranarray(m2); q = np.pad(m, 1, constant_values=True); inter = q[:-2,1:-1]|q[2:,1:-1]|q[1:-1,:-2]|q[1:-1,2:]; want = ~m & inter
    with c.keeps("find_edges", m2): e = distances.find_edges(m2)
    got = np.zeros(s, bool); got[e] = True; c.same(got, want, "edges of the zero region"); f = distances.find_edges(m2, flat=True); g = np.zeros(m.size, bool); g[f] = True; c.same(g.reshape(s), want, "flat edges"); c.note(shape=s, dtype=np.dtype(dt).name)
    l = (c.rng.integers(0,4,s)*blobs(c, s, 0.8)).astype(c.pick(np.int32, np.int64, np.uint32)); q = np.pad(l.astype(int), 1, constant_values=-1); want = (l != 0) & ((q[:-2,1:-1]!=l)|(q[2:,1:-1]!=l)|(q[1:-1,:-2]!=l)|(q[1:-1,2:]!=l)); got = np.zeros(s, bool); got[distances.find_edges_labeled(l)] = True; c.same(got, want, "edges of labeled regions")

def healpix(c):
    import healpy
    ns = c.pick(1,2,3,4,5,8); npix = 12*ns**2; th, ph = healpy.pix2ang(ns, np.arange(npix)); pos = np.array([np.pi/2-th, ph]); res = 2*(4*np.pi/npix)**0.5; meth = c.pick("bubble","heap"); rmax = c.pick(None, None, c.uni(0.1, 1.5)); k = c.pick("points","transform","labels","info","empty","edges"); c.note(nside=ns, kind=k, method=meth, rmax=rmax); R = np.inf if rmax is None else rmax
    if k == "info":
        info = distances.healpix_info(ns); c.ok(info.npix == npix and info.ny == 4*ns-1, "healpix_info size"); y = np.searchsorted(info.off, np.arange(npix), side="right")-1; x = np.arange(npix)-info.off[y]; c.close(info.dec[y], pos[0], "ring declinations", atol=1e-12); c.close((info.ra0[y]+2*np.pi/info.nx[y]*x)%(2*np.pi), ph%(2*np.pi), "pixel ra", atol=1e-12)
        p = c.rng.integers(0,npix,20); u = distances.unravel_healpix(info, p); c.same(u, np.array([y[p],x[p]]), "unravel_healpix"); c.same(distances.ravel_healpix(info, u), p, "ravel_healpix")
        v = np.array(healpy.ang2vec(th, ph))
        for i in p[:6]: # the four neighbours share an edge, so they are among healpy's eight and are reciprocal
            ny, nx = distances.get_healpix_neighs(info, int(y[i]), int(x[i])); nb = info.off[ny]+nx; al = set(healpy.get_all_neighbours(ns, int(i)))-{-1}; c.ok(len(set(nb)) == 4 or ns == 1, "four different neighbours of %d: %s" % (i, nb)); c.ok(set(nb.tolist()) <= {int(q) for q in al}, "neighbours %s of %d not among %s" % (nb, i, al))
        return
    if k == "empty":
        r = enmap.distance_from_healpix(ns, np.zeros((2,0)), domains=True, rmax=rmax, method=meth); c.ok(np.all(r[0] == R) and np.all(r[1] == -1), "no points"); d = enmap.distance_transform_healpix(np.ones(npix, bool), rmax=rmax, method=meth); c.ok(np.all(d == R), "no false pixels"); d, l = enmap.labeled_distance_transform_healpix(np.zeros(npix, np.int32), rmax=rmax, method=meth); c.ok(np.all(d == R) and np.all(l == 0), "no labels"); return
    if k == "points":
        n = c.pick(1, 2, c.int(3,30)); pts = rand_points(c, n); hk = dict(omap=np.full(npix, 7.7), odomains=np.full(npix, 77, np.int32)) if c.flip() else {}; d, dom = enmap.distance_from_healpix(ns, pts, domains=True, rmax=rmax, method=meth, **hk); c.ok(not hk or np.shares_memory(d, hk["omap"]) and np.shares_memory(dom, hk["odomains"]), "given healpix outputs are used"); true, all_ = brute(pos, pts); lim = np.minimum(true, R); c.ok(np.all(d >= lim-2e-8), "distances understated"); c.ok(np.all(d <= lim+res), "distances overstated by %g" % np.max(d-lim)); f = dom >= 0; c.close(d[f], all_[f,dom[f]], "distance to the domain's point", atol=2e-8); c.ok(np.all(f[true < R-res]), "no domain within rmax"); c.same(d[~f], np.full((~f).sum(), R), "beyond rmax")
        if n == 1 and rmax is None: c.close(d, true, "single point", atol=2e-8)
        return
    m = c.rng.random(npix) < c.pick(0.05, 0.5, 0.95); pre = c.flip(0.3)
    if c.flip():   # compact regions, so that most pixels are away from their borders
        cen = rand_points(c, c.int(1,3)); m = brute(pos, cen)[0] < c.uni(0.2,1.2); m = ~m if c.flip(0.3) else m
    if k == "edges":
        info = distances.healpix_info(ns); nb = healpy.get_all_neighbours(ns, np.arange(npix))[[0,2,4,6]]; dt = c.pick(bool, np.uint8, np.int32)
        want = np.nonzero(~m & m[nb].any(0))[0]; e = distances.find_edges_healpix(info, m.astype(dt)); c.same(np.sort(e), want, "edges of the zero region"); y, x = distances.find_edges_healpix(info, m.astype(dt), flat=False); c.same(np.sort(info.off[y]+x), want, "edges as row and column")
        l = (m*(1+(np.arange(npix)*3//npix if c.flip() else c.rng.integers(0,3,npix)))).astype(np.int32); want = np.nonzero((l != 0)&(l[nb] != l).any(0))[0]; c.same(np.sort(distances.find_edges_labeled_healpix(info, l)), want, "edges of labeled regions"); return
    if k == "transform":
        if m.all(): m[0] = False
        M = np.array([m, ~m]) if pre and not (~m).all() else m; d = enmap.distance_transform_healpix(M, rmax=rmax, method=meth); c.ok(d.shape == M.shape, "shape")
        for mm, dd in zip(M.reshape(-1,npix), d.reshape(-1,npix)):
            if mm.all(): c.ok(np.all(dd == R), "no false pixels"); continue
            true = np.minimum(brute(pos, pos[:,~mm])[0], R)*mm; c.ok(np.all(dd >= true-2e-8) and np.all(dd <= true+res), "healpix distance transform")
    else:
        l = (m*c.rng.integers(1,4,npix)).astype(np.int32); d, dom = enmap.labeled_distance_transform_healpix(l, rmax=rmax, method=meth); c.ok(np.issubdtype(dom.dtype, np.integer), "domains are labels")
        if not l.any(): return
        per = np.array([brute(pos, pos[:,l==v])[0] if (l==v).any() else np.full(npix, np.inf) for v in (1,2,3)]); true = np.minimum(per.min(0), R); c.ok(np.all(d >= true-2e-8) and np.all(d <= true+res) and np.all(d[l!=0] == 0), "healpix labeled distances"); f = dom > 0; c.ok(np.all(per[dom[f]-1, np.where(f)[0]] <= per.min(0)[f]+res), "nearest label")

MONITORS = [("distfrom", distfrom, 500, 4000), ("lowlevel", lowlevel, 300, 3000), ("same_any", same_any, 200, 1500), ("transform", transform, 250, 2500), ("labeled", labeled, 250, 2500), ("edges", edges, 300, 2500), ("healpix", healpix, 500, 4000)]

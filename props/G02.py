"""G02: pixel <-> sky conversion follows the FITS projection equations and inverts exactly."""
import numpy as np
from pixell import enmap, utils, wcsutils
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["FITS projection equations (independent implementation in lib/gen.py) define a pixel's sky position"]}

def mk(c, **kw):
    shape, wcs = anygeo(c, **kw); note_geo(c, shape, wcs); return shape, wcs

def randpix(c, shape, over=0., ishape=None):
    ishape = ishape or c.pick((7,), (3,4), (), (1,), (2,1,3))
    c.note(ishape=ishape)
    return np.array([c.uni(-0.49-over, shape[0]-0.51+over, ishape), c.uni(-0.49-over, shape[1]-0.51+over, ishape)])

def forward(c):
    shape, wcs = mk(c)
    pix = randpix(c, shape)
    if c.flip(0.3): pix = np.floor(pix+0.5).astype(int)
    with c.keeps("pix2sky", pix): sky = enmap.pix2sky(shape, wcs, pix)
    check_positions(c, sky, np.array(ref_pix2sky(wcs, pix[0], pix[1])), "pix2sky")
    sky0 = enmap.pix2sky(shape, wcs, pix, safe=False)
    check_positions(c, sky0, sky, "pix2sky safe vs unsafe")
    cor = enmap.pix2sky(shape, wcs, pix+0.5, corner=True)
    check_positions(c, cor, sky, "corner=True is not a half-pixel shift")
    m = enmap.zeros((2,)+shape, wcs)
    c.same(m.pix2sky(pix), sky, "method form of pix2sky")
    c.same(enmap.Geometry(shape, wcs).pix2sky(pix), sky, "Geometry form of pix2sky")

def inverse(c):
    shape, wcs = mk(c)
    pix  = randpix(c, shape)
    sky  = np.array(ref_pix2sky(wcs, pix[0], pix[1]))
    sky[1] += 2*np.pi*c.pick(0, 0, 1, -1, 2)
    with c.keeps("sky2pix", sky): r = enmap.sky2pix(shape, wcs, sky)
    # only pixel coordinates whose distance from the map centre is < half the sky are unambiguous
    nx = 360/abs(wcs.wcs.cdelt[0])
    tol = 1e-6
    if proj_of(wcs) in CYL: amb = np.abs(pix[1]-shape[1]/2.) > nx/2-1e-6
    else: amb = np.zeros(pix[1].shape, bool)
    want = np.array(pix, float)
    d = np.abs(r-want)
    if proj_of(wcs) in CYL: d[1] = np.abs((r[1]-want[1]+nx/2)%nx-nx/2)
    c.ok(np.all(d < tol), "sky2pix does not invert the projection: off by %s pixels" % np.max(d))
    d = np.abs(r-want)[:,~amb]
    c.ok(np.all(d < tol), "sky2pix left the map's branch: %s vs %s" % (r.tolist(), want.tolist()))
    rc = enmap.sky2pix(shape, wcs, sky, corner=True)
    e = rc-r-0.5
    if proj_of(wcs) in CYL: e[1] = (e[1]+nx/2)%nx-nx/2
    c.ok(np.all(np.abs(e) < tol), "corner=True is not a half-pixel shift in sky2pix")
    u = enmap.sky2pix(shape, wcs, sky, safe=False)
    e = u-want
    if proj_of(wcs) in CYL: e[1] = (e[1]+nx/2)%nx-nx/2
    c.ok(np.all(np.abs(e) < tol), "sky2pix safe=False differs by more than whole turns")
    # composition is the identity on the sky
    check_positions(c, enmap.pix2sky(shape, wcs, r), sky, "pix2sky(sky2pix)", tol=1e-8)
    c.same(enmap.zeros(shape, wcs).sky2pix(sky), r, "method form of sky2pix")

def anywhere(c):
    """points anywhere on the sphere, cylindrical maps: pixel returned points back at the position,
    and lies within half a turn of the map centre"""
    shape, wcs = c.pick(lambda: patch(c, projs=CYL), lambda: fullsky(c)[:2])()
    note_geo(c, shape, wcs)
    p = rand_points(c, 30); p[0] = np.clip(p[0], -85*deg, 85*deg); p[1] += 2*np.pi*c.int(-2,2)
    pix = enmap.sky2pix(shape, wcs, p)
    check_positions(c, np.array(ref_pix2sky(wcs, pix[0], pix[1])), p, "sky2pix for points outside the map", tol=1e-8)
    nx = 360/abs(wcs.wcs.cdelt[0])
    c.ok(np.all(np.abs(pix[1]-shape[1]/2.) <= nx/2+1e-6), "pixel more than half the sky from the map centre")

def posmaps(c):
    shape, wcs = mk(c)
    want = skygrid(shape, wcs)
    for sep in c.choice([("auto",), ("auto", False)]):
        r = enmap.posmap(shape, wcs, separable=sep)
        c.ok(r.shape == (2,)+tuple(shape) and wcsutils.equal(r.wcs, wcs), "posmap shape or wcs")
        check_positions(c, r, want, "posmap separable=%s" % sep)
        if proj_of(wcs) in CYL:
            # safe: no jumps along a row
            c.ok(np.all(np.abs(np.diff(np.asarray(r)[1], axis=-1)) < np.pi+1e-6), "posmap has a branch cut inside a row")
    b = enmap.posmap(shape, wcs, separable=False, safe=False, bsize=c.int(1, 5*shape[1]))
    check_positions(c, b, want, "posmap computed in row blocks")
    cor = enmap.posmap(shape, wcs, corner=True)
    y, x = grid(shape); check_positions(c, cor, np.array(ref_pix2sky(wcs, y-0.5, x-0.5)) if proj_of(wcs) != "cea" else np.array(enmap.pix2sky(shape, wcs, [y-0.5,x-0.5])), "corner posmap")
    f32 = enmap.posmap(shape, wcs, dtype=np.float32)
    c.ok(f32.dtype == np.float32, "posmap dtype")
    check_positions(c, f32.astype(float), want, "float32 posmap", tol=2e-6)
    m = enmap.zeros((3,)+shape, wcs)
    check_positions(c, m.posmap(), want, "method posmap with leading dimensions")
    if proj_of(wcs) in CYL:
        dec, ra = enmap.posaxes(shape, wcs)
        check_positions(c, np.array(np.broadcast_arrays(dec[:,None], ra[None])), want, "posaxes")
        d4, r4 = enmap.posaxes(shape, wcs, dtype=np.float32); c.ok(d4.dtype == r4.dtype == np.float32, "precision of posaxes"); check_positions(c, np.array(np.broadcast_arrays(d4[:,None], r4[None])).astype(float), want, "float32 posaxes", tol=2e-6)
    px = enmap.pixmap(shape, wcs); c.same(np.asarray(px), np.array(np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")), "pixmap")

def astropy_agree(c):
    """oblique cylindrical and other projections: agreement with astropy's own transform"""
    proj = c.pick("car","cea","ait","mol","stg","tan","zea")
    ny, nx = c.int(3,20), c.int(3,20)
    w = mkwcs(proj, [c.uni(-180,180), c.uni(-50,50) if proj in ("car","stg","tan","zea") else 0.], [-c.uni(0.1,1), c.uni(0.1,1)], [c.uni(1,nx), c.uni(1,ny)])
    note_geo(c, (ny,nx), w)
    y, x = grid((ny,nx))
    ra, dec = w.wcs_pix2world(x.ravel(), y.ravel(), 0)
    want = np.array([dec,ra]).reshape(2,ny,nx)*deg
    check_positions(c, enmap.posmap((ny,nx), w), want, "posmap vs astropy for %s" % proj, tol=1e-8)
    r = enmap.sky2pix((ny,nx), w, want)
    c.close(r, np.array([y,x]), "sky2pix inverts for %s" % proj, rtol=0, atol=1e-5)

def corners_box(c):
    shape, wcs = mk(c)
    b = enmap.box(shape, wcs); n = enmap.corners(shape, wcs, corner=False)
    e = np.array(ref_pix2sky(wcs, np.array([-0.5, shape[0]-0.5]), np.array([-0.5, shape[1]-0.5]))).T
    f = np.array(ref_pix2sky(wcs, np.array([0, shape[0]-1.]), np.array([0, shape[1]-1.]))).T
    if np.all(np.isfinite(e)): check_positions(c, b.T, e.T, "box corners")
    check_positions(c, n.T, f.T, "box with corner=False")
    if proj_of(wcs) in CYL:
        # corners comparable: width in ra equals the true signed width, never wrapped
        c.close(b[1,1]-b[0,1], shape[1]*wcs.wcs.cdelt[0]*deg, "ra width of the box", rtol=1e-8)
    m = enmap.zeros(shape, wcs)
    c.same(m.box(), b, "method box"); c.same(m.corners(corner=False), n, "method corners")
    cc = enmap.center(shape, wcs)
    check_positions(c, np.asarray(cc)[:,None], np.array(ref_pix2sky(wcs, (shape[0]-1)/2., (shape[1]-1)/2.))[:,None], "center")

def boxes(c):
    shape, wcs = patch(c, projs=CYL); note_geo(c, shape, wcs)
    pb = np.array([[c.uni(0,shape[0]-1), c.uni(0,shape[1]-1)],[c.uni(0,shape[0]-1), c.uni(0,shape[1]-1)]])
    sb = np.array(ref_pix2sky(wcs, pb[:,0], pb[:,1])).T
    r = enmap.skybox2pixbox(shape, wcs, sb)
    c.close(r, pb, "skybox2pixbox", rtol=0, atol=1e-6)
    check_positions(c, enmap.pixbox2skybox(shape, wcs, pb).T, sb.T, "pixbox2skybox")
    d = enmap.skybox2pixbox(shape, wcs, sb, include_direction=True)
    sgn = np.sign(pb[1]-pb[0])
    c.same(d[2], sgn, "direction of the box")

def containing(c):
    shape, wcs = patch(c); note_geo(c, shape, wcs)
    pix = np.array([c.uni(-4, shape[0]+3, 40), c.uni(-4, shape[1]+3, 40)])
    near = (np.abs(pix[0]-np.round(pix[0]))<1e-3)|(np.abs(pix[1]-np.round(pix[1]))<1e-3)
    pix = pix[:,~near]
    sky = np.array(ref_pix2sky(wcs, pix[0], pix[1])); good = np.all(np.isfinite(sky),0); pix, sky = pix[:,good], sky[:,good]
    inside = (pix[0]>=0)&(pix[0]<shape[0])&(pix[1]>=0)&(pix[1]<shape[1])
    r = np.asarray(enmap.contains(shape, wcs, sky)); rp = np.asarray(enmap.contains(shape, wcs, pix, unit="pix"))
    # Points well outside (a pixel or more) are reported outside, points well inside as inside
    def classify(pix):
        well_in  = (pix[0]>=0)&(pix[0]<shape[0]-1)&(pix[1]>=0)&(pix[1]<shape[1]-1)
        well_out = (pix[0]<-0.5)|(pix[0]>=shape[0])|(pix[1]<-0.5)|(pix[1]>=shape[1])
        return well_in, well_out
    wi, wo = classify(pix)
    c.ok(np.all(r[wi]) and np.all(rp[wi]), "a point inside the map is reported outside")
    c.ok(not np.any(r[wo]) and not np.any(rp[wo]), "a point outside the map is reported inside")
    c.same(r, rp, "contains disagrees between sky and pixel coordinates")

def dists(c):
    shape, wcs = mk(c)
    pos = skygrid(shape, wcs)
    r = enmap.modrmap(shape, wcs)
    cen = ref_pix2sky(wcs, (shape[0]-1)/2., (shape[1]-1)/2.)
    c.close(np.asarray(r), angsep(pos[0], pos[1], cen[0], cen[1]), "distance from centre", rtol=0, atol=3e-7)
    ref = [c.uni(-1.5,1.5), c.uni(-3,3)]
    c.close(np.asarray(enmap.modrmap(shape, wcs, ref=ref)), angsep(pos[0], pos[1], ref[0], ref[1]), "distance from a reference", rtol=0, atol=3e-7)

def extrema(c):
    shape, wcs = mk(c); pre = c.pick((), (3,), (2,2)); c.note(pre=pre)
    a = unique(c, pre+shape); m = enmap.ndmap(a, wcs)
    for fn, npf in [(enmap.argmax, np.argmax), (enmap.argmin, np.argmin)]:
        pix = np.asarray(fn(m, unit="pix")); sky = np.asarray(fn(m))
        fl = a.reshape(-1, shape[0]*shape[1])
        want = np.array([np.unravel_index(npf(f), shape) for f in fl]).reshape(pre+(2,))
        c.same(pix, want, "%s in pixels" % fn.__name__)
        s = np.moveaxis(sky, -1, 0).reshape(2,-1); w = want.reshape(-1,2)
        check_positions(c, s, np.array(ref_pix2sky(wcs, w[:,0], w[:,1])), "%s on the sky" % fn.__name__)

def plainwcs(c):
    shape, wcs = patch(c, projs=("plain",)); note_geo(c, shape, wcs)
    pix = randpix(c, shape, over=100)
    want = np.array(ref_pix2sky(wcs, pix[0], pix[1]))
    c.close(enmap.pix2sky(shape, wcs, pix), want, "plain pix2sky", rtol=1e-12)
    c.close(enmap.sky2pix(shape, wcs, want), pix, "plain sky2pix", rtol=0, atol=1e-7)
    b = enmap.box(shape, wcs)
    c.close(b.T, np.array(ref_pix2sky(wcs, np.array([-0.5, shape[0]-0.5]), np.array([-0.5, shape[1]-0.5]))), "plain box", rtol=1e-10)

MONITORS = [
  ("forward", forward, 300, 5000),
  ("inverse", inverse, 400, 6000),
  ("anywhere", anywhere, 150, 2000),
  ("posmaps", posmaps, 250, 3000),
  ("astropy_agree", astropy_agree, 80, 800),
  ("corners_box", corners_box, 200, 2000),
  ("boxes", boxes, 150, 1500),
  ("containing", containing, 150, 1500),
  ("dists", dists, 100, 1000),
  ("extrema", extrema, 80, 800),
  ("plainwcs", plainwcs, 60, 600),
]

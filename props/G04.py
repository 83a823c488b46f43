"""G04: pixel areas and sizes are the true solid angles and add up."""
import numpy as np
from pixell import enmap, utils, wcsutils
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["solid angle of a pixel = integral over its outline, computed here from the projection equations",
                  "non-cylindrical pixel maps are documented as parallelogram approximations: compared at 1% for small pixels away from the poles"]}

def edges(shape, wcs, clip=True):
    y = np.arange(shape[0]+1)-0.5
    p = proj_of(wcs)
    Y = (y+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]
    if p == "car": d = np.clip(Y*deg, -np.pi/2, np.pi/2)
    elif p == "cea":
        pv = wcs.wcs.get_pv(); lam = pv[0][2] if pv else 1.0
        d = np.arcsin(np.clip(Y*deg*lam, -1, 1))
    elif p == "mer": d = 2*np.arctan(np.exp(Y*deg))-np.pi/2
    return d

def cyl(c):
    shape, wcs = c.pick(lambda: patch(c, projs=CYL, maxwidth=100), lambda: fullsky(c)[:2], lambda: band(c)[:2])()
    note_geo(c, shape, wcs)
    e = edges(shape, wcs); dra = abs(wcs.wcs.cdelt[0])*deg
    want = np.abs(np.diff(np.sin(e)))*dra
    got = enmap.pixsizemap(shape, wcs)
    c.ok(got.shape == tuple(shape), "shape")
    c.close(np.asarray(got), np.broadcast_to(want[:,None], shape), "pixel solid angle", rtol=1e-9)
    b = enmap.pixsizemap(shape, wcs, broadcastable=True)
    c.same(np.broadcast_to(b, shape), np.asarray(got), "broadcastable pixel sizes")
    tot = np.sum(want)*shape[1]
    c.close(enmap.area(shape, wcs), tot, "area of the map", rtol=1e-9)
    c.close(enmap.pixsize(shape, wcs), tot/(shape[0]*shape[1]), "mean pixel area", rtol=1e-9)
    ext = enmap.extent(shape, wcs); c.close(np.prod(ext), tot, "extent product", rtol=1e-9)
    c.close(ext[0], abs(e[-1]-e[0]), "height", rtol=1e-9)
    ps = enmap.pixshape(shape, wcs); c.close(ps, ext/np.array(shape), "mean pixel shape", rtol=1e-12)
    sg = enmap.extent(shape, wcs, signed=True)
    c.close(sg, ext*np.sign(wcs.wcs.cdelt[::-1]), "signed extent", rtol=1e-9)
    c.close(enmap.pixshape(shape, wcs, signed=True), sg/shape, "signed pixel shape", rtol=1e-9); c.close(enmap.lpixshape(shape, wcs, signed=True), 2*np.pi/sg, "signed fourier pixel shape", rtol=1e-9); c.close(enmap.lpixsize(shape, wcs, signed=True), np.prod(2*np.pi/sg), "signed fourier pixel size", rtol=1e-9)
    for me in ("intermediate","subgrid"):
        e1, e2 = enmap.extent(shape, wcs, method=me), enmap.extent(shape, wcs, method=me, signed=True); c.ok(np.all(e1 > 0), "extents are positive"); c.close(e2, e1*np.sign(wcs.wcs.cdelt[::-1]), "signed extent (%s)" % me, rtol=1e-9)
    sh = np.asarray(enmap.pixshapemap(shape, wcs))
    c.close(sh[0], np.broadcast_to(np.abs(np.diff(e))[:,None], shape), "pixel heights", rtol=1e-8)
    c.close(sh[0]*sh[1], np.asarray(got), "height*width = area", rtol=1e-8)
    s2 = np.asarray(enmap.pixshapemap(shape, wcs, signed=True))
    c.close(np.abs(s2), sh, "signed shapes", rtol=1e-12)
    c.ok(np.all(np.sign(s2[1]) == np.sign(wcs.wcs.cdelt[0])), "sign of the widths")
    bd = enmap.pixshapebounds(shape, wcs)
    c.close(bd, [[sh[0].min(), sh[1].min()],[sh[0].max(), sh[1].max()]], "bounds of the pixel shape", rtol=1e-8)
    m = enmap.zeros((2,)+shape, wcs)
    c.close(m.area(), tot, "method area", rtol=1e-9); c.same(m.pixsizemap(), got, "method pixsizemap"); c.same(m.pixshape(), ps, "method pixshape"); c.same(m.extent(), ext, "method extent")
    c.close(m.lpixsize(), np.prod(2*np.pi/ext), "fourier pixel size", rtol=1e-9)

def fullsky_sum(c):
    shape, wcs, v = fullsky(c, nymax=80); note_geo(c, shape, wcs)
    c.close(np.sum(np.asarray(enmap.pixsizemap(shape, wcs))), 4*np.pi, "pixel areas of the full sky must add to 4pi", rtol=1e-9)
    c.close(enmap.area(shape, wcs), 4*np.pi, "area of the full sky", rtol=1e-9)
    # parts add up
    k = c.int(1, shape[0]-1); m = enmap.zeros(shape, wcs)
    c.close(m[:k].area()+m[k:].area(), 4*np.pi, "two parts of the sky", rtol=1e-9)
    j = c.int(1, shape[1]-1)
    c.close(m[:,:j].area()+m[:,j:].area(), 4*np.pi, "two parts of the sky (ra)", rtol=1e-9)

def outline_area(wcs, y1, y2, x1, x2, n=40):
    t = np.linspace(0,1,n+1)
    ys = np.concatenate([np.full(n,y1), (y1+(y2-y1)*t)[:-1], np.full(n,y2), (y2+(y1-y2)*t)[:-1]])
    xs = np.concatenate([(x1+(x2-x1)*t)[:-1], np.full(n,x2), (x2+(x1-x2)*t)[:-1], np.full(n,x1)])
    d, r = ref_pix2sky(wcs, ys, xs)
    d2, r2 = np.roll(d,-1), np.roll(r,-1); dr = (r2-r+np.pi)%(2*np.pi)-np.pi
    return abs(np.sum(dr*(np.sin(d)+np.sin(d2))/2))

def zenithal(c):
    proj = c.choice(ZEN); ny, nx = c.int(3,15), c.int(3,15); res = c.uni(0.05,0.8)
    w = mkwcs(proj, [c.pick(c.uni(-180,180), 180., 179.7), c.uni(-55,55)], [-res, res*c.uni(0.7,1.4)], [(nx+1)/2.+c.uni(-2,2), (ny+1)/2.+c.uni(-2,2)])
    note_geo(c, (ny,nx), w)
    got = np.asarray(enmap.pixsizemap((ny,nx), w))
    want = np.array([[outline_area(w, y-.5, y+.5, x-.5, x+.5, 10) for x in range(nx)] for y in range(ny)])
    c.close(got/want, np.ones((ny,nx)), "pixel solid angles", rtol=0, atol=0.01)
    c.close(enmap.pixsizemap((ny,nx), w, bsize=c.int(1,ny)), got, "pixel sizes in row blocks", rtol=1e-9)
    tot = np.sum(want)
    c.close(enmap.area((ny,nx), w), tot, "area", rtol=0.005)
    ext = enmap.extent((ny,nx), w); c.close(np.prod(ext), enmap.area((ny,nx), w), "extent product = area", rtol=1e-6)
    if proj == "zea": c.close(tot, ny*nx*abs(np.prod(w.wcs.cdelt))*deg**2, "reference sanity", rtol=1e-3)
    bd = enmap.pixshapebounds((ny,nx), w); shm = np.asarray(enmap.pixshapemap((ny,nx), w)); c.close(bd, [shm.min((1,2)), shm.max((1,2))], "bounds of the pixel shape", rtol=1e-9)
    # height and width approach the true sizes for small pixels
    c.close(ext/np.array([ny,nx])/(np.abs(w.wcs.cdelt[::-1])*deg), np.ones(2), "pixel shape of a small zenithal patch", rtol=0, atol=0.05)

def plain(c):
    shape, w = patch(c, projs=("plain",)); note_geo(c, shape, w)
    a = abs(np.prod(w.wcs.cdelt))*deg**2
    c.close(np.asarray(enmap.pixsizemap(shape, w)), np.full(shape, a), "plain pixel sizes", rtol=1e-12)
    c.close(enmap.area(shape, w), a*shape[0]*shape[1], "plain area", rtol=1e-12)
    c.close(np.asarray(enmap.pixshapemap(shape, w)), np.broadcast_to((np.abs(w.wcs.cdelt[::-1])*deg)[:,None,None], (2,)+shape), "plain pixel shapes", rtol=1e-12)
    c.close(enmap.extent(shape, w), np.abs(w.wcs.cdelt[::-1])*deg*np.array(shape), "plain extent", rtol=1e-12)

def methods(c):
    """separable shortcut and the general computation agree on cylindrical maps"""
    shape, wcs = patch(c, projs=("car","cea"), maxwidth=15, maxdec=60, resmax=0.7); note_geo(c, shape, wcs)
    a = np.asarray(enmap.pixsizemap(shape, wcs)); b = np.asarray(enmap.pixsizemap(shape, wcs, separable=False))
    c.close(b/a, np.ones(shape), "pixel areas with and without the separable shortcut", rtol=0, atol=0.01)
    a = np.asarray(enmap.pixshapemap(shape, wcs)); b = np.asarray(enmap.pixshapemap(shape, wcs, separable=False, bsize=c.int(2,shape[0]+3)))
    c.close(b/a, np.ones((2,)+shape), "pixel shapes with and without the separable shortcut", rtol=0, atol=0.02)
    A = enmap.area(shape, wcs); c.close(enmap.area(shape, wcs, method="contour"), A, "area by contour", rtol=0.005)
    e1, e2 = enmap.extent(shape, wcs), enmap.extent(shape, wcs, method="subgrid"); c.close(e2/e1, np.ones(2), "extent by subgrid", rtol=0, atol=0.02)

MONITORS = [("cyl", cyl, 400, 5000), ("fullsky_sum", fullsky_sum, 150, 1500), ("zenithal", zenithal, 100, 1200), ("plain", plain, 50, 500), ("methods", methods, 150, 1500)]

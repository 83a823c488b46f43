"""Workload generators: geometries, maps, positions.  WCS objects are filled in
field by field (never through pixell's own geometry builders), and ref_pix2sky
implements the FITS projection equations independently of astropy and pixell."""
import numpy as np
from astropy.wcs import WCS
deg = np.pi/180

CYL  = ("car","cea","mer")
ZEN  = ("tan","zea","arc","sin")

def mkwcs(proj, crval, cdelt, crpix, lam=None):
    """crval, cdelt in degrees (ra,dec order), crpix counting from 1"""
    w = WCS(naxis=2)
    if proj != "plain":
        w.wcs.ctype = ["RA---"+proj.upper(), "DEC--"+proj.upper()]
    if proj in ZEN: w.wcs.lonpole = 180.
    if proj == "cea" and lam is not None: w.wcs.set_pv([(2,1,lam)])
    w.wcs.crval = crval; w.wcs.cdelt = cdelt; w.wcs.crpix = crpix
    w.wcs.set()
    return w

def proj_of(wcs):
    t = wcs.wcs.ctype[0]
    return t[-3:].lower() if "-" in t else "plain"

def patch(c, projs=("car","cea","mer","tan","zea","arc","sin"), nmin=4, nmax=40, maxwidth=30., maxdec=80., flips=True, decmax_center=60, resmin=0.02, resmax=2.0):
    """A patch of sky that does not reach a coordinate pole (for cylindrical ones)"""
    proj = c.choice(projs)
    ny, nx = c.int(nmin, nmax), c.int(nmin, nmax)
    res = np.exp(c.uni(np.log(resmin), np.log(min(resmax, maxwidth/max(ny,nx)))))
    ry  = res*c.pick(1., 1., c.uni(0.6,1.6))
    if proj == "car" and c.flip(0.3): res, ry = c.pick(0.25,0.5,0.125), c.pick(0.25,0.5,0.125)
    sx, sy = (c.pick(-1,-1,-1,1), c.pick(1,1,1,-1)) if flips else (-1,1)
    ra0 = c.pick(0., c.uni(-180,180), c.uni(-180,180), 180., c.uni(-2,2), c.uni(178,182))
    # dec of patch centre
    half = ry*ny/2
    lim  = max(0., min(decmax_center, maxdec-half))
    if half > maxdec: ry = maxdec/ny; half = ry*ny/2; lim = 0
    dec0 = c.uni(-lim, lim)
    if proj in CYL or proj == "plain":
        lam = None
        if proj == "cea": lam = c.pick(1.0, np.cos(dec0*deg)**2)
        if   proj == "car" or proj == "plain": yc = dec0/(sy*ry)
        elif proj == "cea": yc = np.sin(dec0*deg)/lam/deg/(sy*ry)
        elif proj == "mer": yc = np.log(np.tan((45+dec0/2)*deg))/deg/(sy*ry)
        if proj == "cea":
            # keep |sin dec| below sin(maxdec)
            top = np.sin(maxdec*deg)/lam/deg/ry
            yc  = np.clip(yc, -max(0,top-ny/2-1), max(0,top-ny/2-1))
            if top < ny/2+1: ry = ry*top/(ny/2+1); yc = 0
        crval = [ra0 + c.pick(0, 0, c.uni(-40,40)), 0]
        xoff  = (ra0-crval[0])/(sx*res)
        crpix = [(nx+1)/2. - xoff, (ny+1)/2. - yc]
        if c.flip(0.7): crpix = list(np.round(np.array(crpix)*2)/2)
        w = mkwcs(proj, crval, [sx*res, sy*ry], crpix, lam)
    else:
        dec0 = c.pick(c.uni(-85,85), c.uni(-60,60), 90., -90., 0.)
        crpix = [(nx+1)/2. + c.pick(0, 0, c.uni(-3,3)), (ny+1)/2. + c.pick(0, 0, c.uni(-3,3))]
        w = mkwcs(proj, [ra0, dec0], [sx*res, sy*ry], crpix)
    return (ny, nx), w

def fullsky(c, variants=("fejer1","cc"), ny=None, nymin=6, nymax=40, flips=True, rowflip=True, proj="car"):
    """Full-sky CAR with pixel rows ring-aligned: fejer1 (rows at half-integer offsets from the poles),
    cc (rows on the poles)"""
    v  = c.choice(variants)
    ny = ny or c.int(nymin, nymax)
    dy = 180./ny if v == "fejer1" else 180./(ny-1)
    nx = c.pick(2*ny, 2*(ny-1), 2*ny+1, c.int(ny, 3*ny)); nx = max(nx, 8)
    dx = 360./nx
    sx = c.pick(-1,-1,1) if flips else -1
    sy = c.pick(1,1,-1) if flips and rowflip else 1
    # dec of first row: sy>0 -> -90(+dy/2)
    crpix = [nx/2 + 1 + c.pick(0, 0, -0.5, c.int(-5,5)) , (ny+1)/2.]
    crval = [c.pick(0., 0., 180., c.uni(-180,180)), 0.]
    return (ny, nx), mkwcs("car", crval, [sx*dx, sy*dy], crpix), v

def band(c, **kw):
    """a ring band cut of a full sky geometry, all ra"""
    (ny, nx), w, v = fullsky(c, nymin=12, **kw)
    y1 = c.int(0, ny//3); y2 = c.int(max(y1+3, ny//2), ny)
    w = w.deepcopy(); w.wcs.crpix[1] -= y1
    return (y2-y1, nx), w, v

def anygeo(c, **kw):
    k = c.pick("patch","patch","patch","full","band")
    if k == "patch": return patch(c, **kw)
    if k == "full":  return fullsky(c, nymax=kw.get("nmax",30))[:2]
    return band(c, nymax=kw.get("nmax",30))[:2]

def note_geo(c, shape, wcs, name="geo"):
    c.note(**{name: "%s %s %s" % (proj_of(wcs), tuple(shape), ["%.8g" % v for v in list(wcs.wcs.crval)+list(wcs.wcs.cdelt)+list(wcs.wcs.crpix)])})

def ref_pix2sky(wcs, y, x):
    """Projection equations of FITS paper II, for the wcses made above. y, x are 0-based pixel
    coordinates with integers at pixel centres. Returns dec, ra in radians"""
    p = proj_of(wcs)
    X = (np.asarray(x, float)+1-wcs.wcs.crpix[0])*wcs.wcs.cdelt[0]
    Y = (np.asarray(y, float)+1-wcs.wcs.crpix[1])*wcs.wcs.cdelt[1]
    a0, d0 = np.asarray(wcs.wcs.crval, float)*deg
    if p == "plain": return (Y+wcs.wcs.crval[1])*deg, (X+wcs.wcs.crval[0])*deg
    if p in CYL:
        assert d0 == 0
        ra = a0 + X*deg
        if   p == "car": dec = Y*deg + 0*X
        elif p == "cea":
            pv = wcs.wcs.get_pv(); lam = pv[0][2] if pv else 1.0
            dec = np.arcsin(Y*deg*lam) + 0*X
        elif p == "mer": dec = 2*np.arctan(np.exp(Y*deg))-np.pi/2 + 0*X
        return dec, ra + 0*Y
    # zenithal: R, phi
    R   = np.hypot(X, Y)*deg
    phi = np.arctan2(X, -Y)
    if   p == "tan": th = np.arctan2(1., R)
    elif p == "zea": th = np.pi/2-2*np.arcsin(R/2)
    elif p == "arc": th = np.pi/2-R
    elif p == "sin": th = np.arccos(R)
    # native pole at crval, lonpole 180
    phip = np.pi
    dec = np.arcsin(np.clip(np.sin(th)*np.sin(d0)+np.cos(th)*np.cos(d0)*np.cos(phi-phip), -1, 1))
    # use a vector formula that is accurate everywhere
    ra  = a0 + np.arctan2(-np.cos(th)*np.sin(phi-phip), np.sin(th)*np.cos(d0)-np.cos(th)*np.sin(d0)*np.cos(phi-phip))
    z   = np.sin(th)*np.sin(d0)+np.cos(th)*np.cos(d0)*np.cos(phi-phip)
    xy  = np.hypot(np.cos(th)*np.sin(phi-phip), np.sin(th)*np.cos(d0)-np.cos(th)*np.sin(d0)*np.cos(phi-phip))
    return np.arctan2(z, xy), ra

def vec(dec, ra):
    return np.array([np.cos(dec)*np.cos(ra), np.cos(dec)*np.sin(ra), np.sin(dec)+0*ra])

def angsep(dec1, ra1, dec2, ra2):
    dec1, ra1, dec2, ra2 = np.broadcast_arrays(*[np.asarray(v, float) for v in (dec1, ra1, dec2, ra2)])
    a, b = vec(dec1, ra1), vec(dec2, ra2)
    cr = np.cross(a, b, axis=0)
    return np.arctan2(np.sqrt(np.sum(cr**2,0)), np.sum(a*b,0))

def grid(shape, off=0.):
    return np.meshgrid(np.arange(shape[-2])+off, np.arange(shape[-1])+off, indexing="ij")

def skygrid(shape, wcs):
    y, x = grid(shape)
    return np.array(ref_pix2sky(wcs, y, x))

def check_positions(c, a, b, msg, tol=1e-9, plain=False):
    """a, b: [{dec,ra},...]; equal as points on the sphere"""
    a, b = np.asarray(a), np.asarray(b)
    c.ok(a.shape == b.shape, "%s: shape %s vs %s" % (msg, a.shape, b.shape))
    if a.size == 0: return
    d = np.max(np.abs(a-b), 0) if plain else angsep(a[0], a[1], b[0], b[1])
    d = np.where(~np.isfinite(a).all(0) & ~np.isfinite(b).all(0), 0, d) # both off the projection plane
    i = np.unravel_index(np.nanargmax(np.where(np.isfinite(d), d, np.inf)), d.shape)
    c.ok(np.isfinite(d[i]) and d[i] <= tol, "%s: position off by %.3g rad at %s: %s vs %s" % (msg, d[i], i, a[(slice(None),)+i], b[(slice(None),)+i]))

def arr(c, shape, dtype=np.float64, kind="normal"):
    dtype = np.dtype(dtype)
    if dtype.kind == "c": return (c.rng.standard_normal(shape)+1j*c.rng.standard_normal(shape)).astype(dtype)
    if dtype.kind == "f": return c.rng.standard_normal(shape).astype(dtype)
    if dtype.kind == "b": return c.rng.random(shape) < 0.5
    info = np.iinfo(dtype)
    return c.rng.integers(max(info.min,-10**6), min(info.max,10**6), shape).astype(dtype)

def unique(c, shape, dtype=np.float64):
    """every element different and nonzero, so that any misplaced pixel is visible"""
    n = int(np.prod(shape))
    return (c.rng.permutation(n)+1).reshape(shape).astype(dtype)

def premul(c): return c.pick((), (), (3,), (2,), (2,3), (1,))

def rand_points(c, n):
    """isotropic points, [{dec,ra},n]"""
    return np.array([np.arcsin(c.uni(-1,1,n)), c.uni(-np.pi,np.pi,n)])

"""G03: geometry builders deliver the sky coverage, resolution and pixel alignment that was asked for."""
import numpy as np
from pixell import enmap, utils, wcsutils
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8,
  "assumptions": ["FITS projection equations (independent implementation in lib/gen.py) define a pixel's sky position"]}

def rows(shape, wcs): return ref_pix2sky(wcs, np.arange(shape[-2]), np.zeros(shape[-2]))[0]
def cols(shape, wcs): return ref_pix2sky(wcs, np.zeros(shape[-1]), np.arange(shape[-1]))[1]

def fullsky_(c):
    v = c.pick("fejer1","cc")
    n = c.int(4, 200)
    yo = 1 if v == "cc" else 0
    by = c.pick("res","shape","res2")
    pre = c.pick((), (3,))
    if by == "res":
        ny, nx = n+yo, 2*n; args = dict(res=np.pi/n)
    elif by == "res2":
        nx = c.int(5, 300); ny = n+yo; args = dict(res=[np.pi/n, 2*np.pi/nx])
    else:
        ny, nx = c.int(5,200), c.int(5,300); args = dict(shape=(ny,nx))
    c.note(variant=v, args=args, pre=pre)
    shape, wcs = enmap.fullsky_geometry(variant=v, dims=pre, **args)
    c.ok(tuple(shape) == pre+(ny,nx), "full-sky shape %s, expected %s" % (shape, pre+(ny,nx)))
    dec, ra = rows(shape, wcs), cols(shape, wcs)
    if v == "fejer1": want = -np.pi/2+(np.arange(ny)+0.5)*np.pi/ny
    else:             want = -np.pi/2+np.arange(ny)*np.pi/(ny-1)
    c.close(dec, want, "rows of the %s full sky" % v, rtol=0, atol=1e-10)
    c.close(np.diff(ra), np.full(nx-1, -2*np.pi/nx), "columns evenly divide the sky", rtol=1e-9)
    # every ra is covered once, and the positions survive an astropy round trip
    s = np.sort(ra % (2*np.pi)); c.ok(np.min(np.diff(s)) > 0.99*2*np.pi/nx if nx > 1 else True, "two columns share the same ra")
    check_positions(c, enmap.posmap(shape, wcs, safe=False), skygrid(shape, wcs), "full-sky posmap")
    # one column looks at ra=0 (mod pixel), as all compatible maps do
    if nx % 2 == 0: c.ok(np.min(np.abs((ra+np.pi)%(2*np.pi)-np.pi)) < 1e-9, "ra=0 is not a pixel centre")
    c.close(enmap.area(shape, wcs), 4*np.pi, "full-sky area", rtol=1e-9)

def fullsky_equiv(c):
    """the newer builder agrees with the established one"""
    v = c.pick("fejer1","cc"); n = c.int(4,60)
    c.note(variant=v, n=n)
    s1, w1 = enmap.fullsky_geometry(res=np.pi/n, variant=v)
    s2, w2 = enmap.geometry2(res=np.pi/n, variant=v)
    c.ok(tuple(s1) == tuple(s2), "shapes differ: %s vs %s" % (s1, s2))
    check_positions(c, skygrid(s2, w2), skygrid(s1, w1), "geometry2 vs fullsky_geometry", tol=1e-8)

def geometry2_safe(c):
    """'safe' variant: pixel edges at all domain edges, and downgrading a geometry equals building it coarse"""
    n = c.int(3,30); f = c.pick(2,3)
    c.note(n=n, f=f)
    s, w = enmap.geometry2(res=np.pi/(n*f), variant="safe")
    c.ok(tuple(s) == (n*f, 2*n*f), "shape of the safe full sky")
    dec, ra = rows(s, w), cols(s, w)
    c.close(dec, -np.pi/2+(np.arange(n*f)+0.5)*np.pi/(n*f), "rows", rtol=0, atol=1e-9)
    x = (ra/(2*np.pi)*s[1]) % 1
    c.close(x, np.full(len(x), 0.5), "columns half a pixel from the wraparound", rtol=0, atol=1e-6)
    s2, w2 = enmap.downgrade_geometry(s, w, f); s3, w3 = enmap.geometry2(res=np.pi/n, variant="safe")
    c.ok(tuple(s2) == tuple(s3), "downgraded shape %s vs direct %s" % (s2, s3))
    check_positions(c, skygrid(s2, w2), skygrid(s3, w3), "downgraded geometry vs built coarse", tol=1e-8)

def geometry2_forms(c):
    """the ways of asking for a geometry: by shape, by resolution, around a point, in degrees, with leading dimensions, by band"""
    v = c.pick("fejer1","cc","safe", None); n = c.int(3,60); ny = n+1 if v == "cc" else n; res = np.pi/n; pre = c.pick((), (), (3,), (2,1)); dg = c.flip(); u = deg if dg else 1; c.note(variant=v, n=n, pre=pre, deg=dg)
    s, w = enmap.geometry2(res=res/u, variant=v, deg=dg, pre=pre); c.ok(tuple(s) == pre+(ny, 2*n), "full-sky shape %s" % (s,))
    s2, w2 = enmap.geometry2(shape=(ny, 2*n), variant=v, deg=dg, pre=pre); c.ok(tuple(s2) == pre+(ny, 2*n), "shape asked for %s, got %s" % (pre+(ny,2*n), s2)); check_positions(c, skygrid(s2[-2:],w2), skygrid(s[-2:],w), "full sky by shape vs by resolution", tol=1e-8)
    s3, w3 = enmap.fullsky_geometry2(**c.pick(dict(res=res/u), dict(shape=(ny,2*n))), variant=v, deg=dg, **c.pick(dict(pre=pre), dict(dims=pre))); c.ok(tuple(s3) == pre+(ny, 2*n), "fullsky_geometry2 shape"); check_positions(c, skygrid(s3[-2:],w3), skygrid(s[-2:],w), "fullsky_geometry2", tol=1e-8)
    # a resolution per direction, the shape need not be 1:2
    nx = 2*c.int(2,40); s4, w4 = enmap.geometry2(shape=(ny,nx), variant=v); c.ok(tuple(s4) == (ny,nx), "shape asked for %s, got %s" % ((ny,nx), s4)); c.close(rows(s4,w4), rows(s[-2:],w), "rows by shape", rtol=0, atol=1e-8)
    x = cols(s4,w4); dx = (np.diff(np.append(x, x[0]))+np.pi) % (2*np.pi)-np.pi
    if nx > 2: c.close(dx, np.full(nx, -2*np.pi/nx), "columns evenly around the sky, in the usual direction", rtol=0, atol=1e-8)
    # around a point
    if n >= 12:
        pos = np.array([c.uni(-50,50), c.uni(-170,170)])*deg; h, wd = c.int(1, n//6+1), c.int(1, 9); q, Q = enmap.geometry2(pos=pos/u, res=res/u, shape=(h,wd), variant=v, deg=dg, pre=pre); c.ok(tuple(q) == pre+(h,wd), "shape around a point %s" % (q,)); c.note(pos=pos/deg, h=h, wd=wd)
        e = np.array(ref_pix2sky(Q, np.array([(h-1)/2]), np.array([(wd-1)/2])))[:,0]-pos; e[1] = (e[1]+np.pi)%(2*np.pi)-np.pi; c.ok(np.all(np.abs(e) <= 1.01*res), "centre off by %s pixels" % (e/res))
        c.ok(np.all(np.min(np.abs(rows(q[-2:],Q)[:,None]-rows(s[-2:],w)),1) < 1e-8), "rows are not rows of the full sky"); dr = cols(q[-2:],Q)[:,None]-cols(s[-2:],w); dr = (dr+np.pi)%(2*np.pi)-np.pi; c.ok(np.all(np.min(np.abs(dr),1) < 1e-8), "columns are not columns of the full sky")
        dec = np.sort(c.uni(-80,80,2))*deg
        if dec[1]-dec[0] < 4*res: dec = np.array([-4*res, 5*res])
        b, B = enmap.band_geometry2(dec/u, res=res/u, variant=v, deg=dg, pre=pre); c.ok(tuple(b[:-2]) == pre and b[-1] == 2*n, "band_geometry2 shape %s" % (b,)); y = rows(b[-2:],B); fr = rows(s[-2:],w); c.ok(np.all(np.min(np.abs(y[:,None]-fr),1) < 1e-8), "rows of the band are not rows of the full sky"); c.ok(abs(y[0]-res/2-dec[0]) <= 1.01*res and abs(y[-1]+res/2-dec[1]) <= 1.01*res, "range of the band")

def geometry2_crop(c):
    """building from a box: within a pixel of the box, and pixel-compatible with the full sky"""
    v = c.pick("fejer1","cc","safe"); n = c.pick(18,36,45,90,180); res = np.pi/n
    d = np.sort(c.uni(-80,80,2))*deg; r = c.uni(-170,170); wdt = c.uni(5,100)*deg
    if d[1]-d[0] < 4*res: d = np.array([-6*res, 6*res])
    wdt = max(wdt, 4*res)
    ra1, ra2 = r*deg+wdt/2, r*deg-wdt/2
    if c.flip(0.2): ra1, ra2 = ra2, ra1
    box = np.array([[d[0],ra1],[d[1],ra2]])
    c.note(variant=v, n=n, box=box/deg)
    s, w = enmap.geometry2(pos=box, res=res, variant=v)
    e = np.array(ref_pix2sky(w, np.array([-0.5, s[0]-0.5]), np.array([-0.5, s[1]-0.5]))).T
    dd = e-box; dd[:,1] = (dd[:,1]+np.pi)%(2*np.pi)-np.pi
    c.ok(np.all(np.abs(dd) <= 1.01*res), "corners differ from the box by %s pixels" % (dd/res).tolist())
    fs, fw = enmap.geometry2(res=res, variant=v)
    frows, fcols = rows(fs, fw), cols(fs, fw)
    c.ok(np.all(np.min(np.abs(rows(s,w)[:,None]-frows),1) < 1e-8), "rows are not rows of the full sky")
    dr = cols(s,w)[:,None]-fcols; dr = (dr+np.pi)%(2*np.pi)-np.pi
    c.ok(np.all(np.min(np.abs(dr),1) < 1e-8), "columns are not columns of the full sky")
    # cropping by pixel box, and around a point
    pre = c.pick((), (3,)); S, W = pre+fs, fw; y, x, h, wd = c.int(0,fs[0]-2), c.int(0,fs[1]-2), c.int(1,8), c.int(1,8); pb = [[y,x],[y+h,x+wd]]; c.note(pixbox=pb)
    if c.flip(): pb = np.array(pb)
    with c.keeps("crop_geometry", np.asarray(pb)): s, w = enmap.crop_geometry(S, W, pixbox=pb)
    c.ok(tuple(s) == pre+(h,wd), "crop_geometry shape %s" % (s,))
    P = np.array(ref_pix2sky(W, *np.meshgrid(np.arange(y,y+h), np.arange(x,x+wd), indexing="ij"))); check_positions(c, skygrid(s[-2:],w), P, "cropped geometry", tol=1e-8)
    s, w = enmap.crop_geometry(S, W, pixbox=[y,x], oshape=(h,wd)); c.ok(tuple(s) == pre+(h,wd), "crop around a pixel: shape")
    P = np.array(ref_pix2sky(W, *np.meshgrid(np.arange(h)+y-h//2, np.arange(wd)+x-wd//2, indexing="ij"))); check_positions(c, skygrid(s[-2:],w), P, "crop around a pixel", tol=1e-8)
    pt = np.array(ref_pix2sky(W, y+c.uni(-0.45,0.45), x+c.uni(-0.45,0.45)))
    if 1 < y < fs[0]-2:
        s, w = enmap.crop_geometry(S, W, box=pt, oshape=(h,wd)); check_positions(c, skygrid(s[-2:],w), P, "crop around a point", tol=1e-8)
    c.raises(ValueError, lambda: enmap.crop_geometry(S, W, pixbox=[y,x]), "a point without a shape must be refused")
    # a reference point along the equator rotates the pixelization by that much
    r0 = c.uni(-170,170)*deg; s, w = enmap.geometry2(res=res, variant=v, ref=[0,r0]); c.ok(tuple(s) == tuple(fs), "geometry2(ref) shape"); c.note(ref=r0/deg)
    check_positions(c, np.array([rows(s,w)]*1+[0*rows(s,w)]), np.array([frows, 0*frows]), "geometry2(ref) rows")
    dr = (cols(s,w)-r0)[:,None]-fcols; dr = (dr+np.pi)%(2*np.pi)-np.pi; c.ok(np.all(np.min(np.abs(dr),1) < 1e-8), "columns are not those of the full sky moved to the reference point")
    s2, w2 = enmap.geometry2(res=res/deg, variant=v, ref=[0,r0/deg], deg=True); check_positions(c, skygrid(s2,w2), skygrid(s,w), "geometry2(deg)", tol=1e-8)
    sm, wm = enmap.geometry2(pos=box, res=res, variant=v, ref="mid", proj="tan" if 0 else "car")
    if abs(np.mean(box[:,0])) > 1e-9: c.close(wm.wcs.crval, [np.mean(box[:,1])/deg, np.mean(box[:,0])/deg], "ref='mid' puts the reference point in the middle of the box", rtol=0, atol=1e-9)

def band_(c):
    v = c.pick("fejer1","cc"); n = c.int(20,180); res = np.pi/n
    if c.flip(): cut = c.uni(4*res, 80*deg); lo, hi = -cut, cut
    else:
        lo, hi = np.sort(c.uni(-80,80,2))*deg
        if hi-lo < 4*res: lo, hi = -10*deg-2*res, 10*deg+2*res
        cut = (lo, hi)
    c.note(variant=v, n=n, cut=np.array(cut)/deg)
    pre = c.pick((), (2,))
    s, w = enmap.band_geometry(cut, res=res, variant=v, dims=pre)
    fs, fw = enmap.fullsky_geometry(res=res, variant=v)
    c.ok(tuple(s[:-2]) == pre and s[-1] == fs[-1], "band keeps leading dimensions and covers all ra")
    dec = rows(s, w); fdec = rows(fs, fw)
    i = int(np.argmin(np.abs(fdec-dec[0])))
    c.close(dec, fdec[i:i+len(dec)], "band rows are consecutive full-sky rows", rtol=0, atol=1e-9)
    check_positions(c, np.array([0*cols(s,w), cols(s,w)]), np.array([0*cols(fs,fw), cols(fs,fw)]), "band columns")
    c.ok(abs(dec[0]-lo) <= 0.51*res and abs(dec[-1]+res-hi) <= 0.51*res, "band [%.4f,%.4f] does not match the cut [%.4f,%.4f] (pixel %.4f)" % (dec[0]/deg, dec[-1]/deg, lo/deg, hi/deg, res/deg))

def patch_box(c):
    """geometry(box, res): requested resolution, corners within a pixel, standard alignment"""
    proj = c.pick("car","cea","mer","tan","zea","arc","sin")
    res  = c.uni(0.05,1)*deg; dec0 = c.uni(-55,55)*deg; ra0 = c.uni(-180,180)*deg
    h, w_ = c.uni(4,20)*res, c.uni(4,20)*res
    h, w_ = max(h, 4*res), max(w_, 4*res)
    sx = c.pick(1,1,-1); sy = c.pick(1,1,-1)
    box = np.array([[dec0-sy*h/2, ra0+sx*w_/2],[dec0+sy*h/2, ra0-sx*w_/2]])
    mode = c.pick("std","force","ref")
    kw = {}
    if mode == "force": kw["force"] = True
    if mode == "ref" and proj in CYL: kw["ref"] = [0, ra0+c.uni(-1,1)*deg]
    c.note(proj=proj, res=res/deg, box=box/deg, mode=mode)
    pre = c.pick((), (3,))
    with c.keeps("geometry", box): s, w = enmap.geometry(box, res=res, proj=proj, pre=pre, **kw)
    c.ok(tuple(s[:-2]) == pre, "leading dimensions")
    c.close(np.abs(w.wcs.cdelt)*deg, [res,res], "resolution", rtol=1e-9)
    c.ok(np.sign(w.wcs.cdelt[1]) == sy and np.sign(w.wcs.cdelt[0]) == -sx, "axis directions follow the box")
    q = np.array(w.wcs_world2pix(np.array(box)[:,::-1]/deg, 0))[:,::-1]+0.5
    tol = 1e-6 if mode == "force" and proj in CYL else 0.51
    nx = 360/abs(w.wcs.cdelt[0]); q[:,1] -= nx*np.round(q[0,1]/nx)*(proj in CYL)
    c.ok(np.all(np.abs(q[0]) <= tol), "the first corner is at pixel edge %s, expected (0,0)" % q[0].tolist())
    c.ok(np.all(np.abs(q[1]-s[-2:]) <= 1.01), "the last corner is at pixel edge %s, expected %s" % (q[1].tolist(), s[-2:]))
    if mode == "std" and proj in CYL:
        z = np.array(w.wcs_world2pix([[0,0]], 1))[0]
        c.close((z+0.5)%1-0.5, [0,0], "ra=dec=0 is not at an integer pixel", rtol=0, atol=1e-5)
    if mode == "ref" and proj in CYL:
        z = np.array(w.wcs_world2pix([[kw["ref"][1]/deg,0]], 1))[0]
        c.close((z+0.5)%1-0.5, [0,0], "the reference is not at an integer pixel", rtol=0, atol=1e-5)

def patch_compat(c):
    """two patches built with the same resolution are pixel-compatible, so maps on them can be combined"""
    proj = c.pick("car","car","cea"); res = c.pick(0.5,0.25,1.0,0.1)*deg
    kw = {"lam": 1.0} if proj == "cea" else {}
    gs = []
    for i in range(2):
        dec0, ra0 = c.uni(-50,50)*deg, c.uni(-60,60)*deg; h, w_ = c.uni(4,12)*res, c.uni(4,12)*res
        h, w_ = max(h, 4*res), max(w_, 4*res)
        gs.append(enmap.geometry(np.array([[dec0-h/2,ra0+w_/2],[dec0+h/2,ra0-w_/2]]), res=res, proj=proj, **kw))
    c.note(proj=proj, res=res/deg); note_geo(c, *gs[0], name="g1"); note_geo(c, *gs[1], name="g2")
    c.ok(wcsutils.is_compatible(gs[0][1], gs[1][1]), "same-resolution patches are not pixel-compatible")
    w2 = gs[0][1].deepcopy(); how = c.pick("proj","res","dir","off","far"); t = 1e-2
    if how == "proj":
        w2 = wcsutils.WCS(naxis=2); o = {"car":"CEA","cea":"CAR"}[proj]; w2.wcs.ctype = ["RA---"+o, "DEC--"+o]; w2.wcs.crval, w2.wcs.crpix, w2.wcs.cdelt = gs[0][1].wcs.crval, gs[0][1].wcs.crpix, gs[0][1].wcs.cdelt
    elif how == "res": w2.wcs.cdelt = w2.wcs.cdelt*(1+t*c.pick(1,-1))
    elif how == "dir": w2.wcs.cdelt = w2.wcs.cdelt*np.array(c.pick([1,-1],[-1,1]))
    elif how == "off": i = c.int(0,1); p = np.array(w2.wcs.crpix); p[i] += c.uni(0.02,0.98)+c.int(-3,3); w2.wcs.crpix = p
    else: w2.wcs.crpix = np.array(w2.wcs.crpix)+np.array([c.int(-50,50), c.int(-50,50)])
    c.ok(wcsutils.is_compatible(gs[0][1], w2) == (how == "far") and wcsutils.is_compatible(w2, gs[0][1]) == (how == "far"), "compatibility of pixelizations that differ by %s" % how)
    # a cylindrical equal area patch has square pixels at its centre
    dc, rr = c.uni(-60,60)*deg, c.pick(0.1,0.02)*deg; s_, w_ = enmap.geometry(np.array([[dc-2*rr,2*rr],[dc+2*rr,-2*rr]]), res=rr, proj="cea"); y = np.array(enmap.sky2pix(s_, w_, np.array([dc,0.]))); P = np.array(ref_pix2sky(w_, y[0]+np.array([-0.5,0.5,0,0]), y[1]+np.array([0,0,-0.5,0.5]))); asp = abs(P[0,1]-P[0,0])/(abs(P[1,3]-P[1,2])*np.cos(dc)); c.ok(abs(asp-1) < 0.02, "cea pixels at the patch centre have aspect %.4f" % asp)
    # union contains both, pixel by pixel
    us, uw = enmap.union_geometry(gs)
    P = skygrid(us, uw)
    for s, w in gs:
        y, x = (np.array(ref_pix2sky(w, 0, 0))-0) , None
        q = enmap.sky2pix(us, uw, skygrid(s, w))
        c.close(q, np.round(q), "union is not aligned with its members", rtol=0, atol=1e-4)
        c.ok(np.all(q > -0.5) and np.all(q[0] < us[-2]-0.5) and np.all(q[1] < us[-1]-0.5), "union does not contain a member")
    # minimal: every side is touched by some member
    qs = [enmap.sky2pix(us, uw, skygrid(s, w)).reshape(2,-1) for s,w in gs]
    allq = np.concatenate(qs,1)
    c.ok(np.allclose(np.min(allq,1), 0, atol=1e-3) and np.allclose(np.max(allq,1), np.array(us[-2:])-1, atol=1e-3), "union is larger than the bounding box")

def patch_center(c):
    proj = c.pick("car","tan","zea","arc","cea")
    ny, nx = c.int(5,40), c.int(5,40); res = c.uni(0.02,0.5)*deg
    pos = np.array([c.uni(-60,60), c.uni(-180,180)])*deg
    c.note(proj=proj, pos=pos/deg, shape=(ny,nx), res=res/deg)
    s, w = enmap.geometry(pos, res=res, shape=(ny,nx), proj=proj)
    c.ok(tuple(s) == (ny,nx), "shape")
    q = np.array(w.wcs_world2pix([pos[::-1]/deg], 0))[0,::-1]
    c.ok(np.all(np.abs(q-(np.array(s)-1)/2.) <= 0.51), "the centre is at pixel %s of %s" % (q.tolist(), s))
    c.close(w.wcs.cdelt*deg, [-res,res], "resolution", rtol=1e-9)

def patch_shape(c):
    """box + shape: exactly this shape, corners within a pixel"""
    proj = c.pick("car","cea","tan"); ny, nx = c.int(5,40), c.int(5,40)
    dec0, ra0 = c.uni(-50,50)*deg, c.uni(-180,180)*deg; h, w_ = c.uni(2,15)*deg, c.uni(2,15)*deg
    box = np.array([[dec0-h/2,ra0+w_/2],[dec0+h/2,ra0-w_/2]])
    c.note(proj=proj, shape=(ny,nx), box=box/deg)
    force = c.flip()
    s, w = enmap.geometry(box, shape=(ny,nx), proj=proj, force=force)
    c.ok(tuple(s) == (ny,nx), "shape")
    q = np.array(w.wcs_world2pix(box[:,::-1]/deg, 0))[:,::-1]+0.5
    n = 360/abs(w.wcs.cdelt[0]); q[:,1] -= n*np.round(q[0,1]/n)*(proj in CYL)
    tol = 1e-6 if force and proj in CYL else 0.51
    c.ok(np.all(np.abs(q[0]) <= tol) and np.all(np.abs(q[1]-[ny,nx]) <= tol), "corners at pixel edges %s for shape %s" % (q.tolist(), s))

def thumb(c):
    proj = c.pick("tan","car","zea","arc","plain")
    res = c.uni(0.01,0.5)*deg; n = c.int(2,40)
    by = c.pick("r_res","res_shape","r_shape")
    if by == "r_res":       args = dict(r=n*res, res=res)
    elif by == "res_shape": args = dict(res=res, shape=(n, n+c.int(0,5)))
    else:                   args = dict(r=n*res, shape=(2*n+1+c.int(0,1), 2*n+1))
    c.note(proj=proj, **args)
    pre = c.pick((), (3,))
    s, w = enmap.thumbnail_geometry(proj=proj, dims=pre, **args)
    c.ok(tuple(s[:-2]) == pre and all(n % 2 == 1 for n in s[-2:]), "thumbnail shape must be odd: %s" % (s,))
    q = np.array(ref_pix2sky(w, s[-2]//2, s[-1]//2)) 
    check_positions(c, q[:,None], np.zeros((2,1)), "the central pixel is not at (0,0)", tol=1e-10, plain=proj=="plain")
    e = np.array(ref_pix2sky(w, np.array([s[-2]-1., 0, s[-2]//2]), np.array([s[-1]//2, s[-1]//2, 0])))
    if "r" in args:
        # distance from centre to the outermost pixel centre is r to within half a pixel
        R = np.abs(e[0,0]); lim = 0.6*abs(w.wcs.cdelt[1])*deg + 1.2*args["r"]**3
        c.ok(abs(R-args["r"]) <= lim, "thumbnail radius %g vs requested %g" % (R, args["r"]))
    if proj != "plain": c.ok(w.wcs.cdelt[0] < 0 and w.wcs.cdelt[1] > 0, "thumbnails have ra increasing to the left and dec upwards")
    if "res" in args: c.close(np.abs(w.wcs.cdelt)*deg, [res,res], "thumbnail resolution", rtol=1e-9)
    if "shape" in args: c.ok(all(abs(a-b) <= 1 for a,b in zip(s[-2:], args["shape"])), "thumbnail shape %s vs %s" % (s, args["shape"])); c.ok(all(a >= b for a, b in zip(s[-2:], args["shape"])), "thumbnail of shape %s is smaller than asked for: %s" % (s, args["shape"]))

def scaling(c):
    """rescaled / downgraded geometries cover the same sky"""
    shape, wcs = anygeo(c); note_geo(c, shape, wcs)
    f = c.pick(2, 3, (2,1), (1,3)); fy, fx = np.zeros(2,int)+f
    c.note(f=f)
    pre = c.pick((), (2,))
    us, uw = enmap.scale_geometry(pre+shape, wcs, f)
    c.ok(tuple(us) == pre+(shape[0]*fy, shape[1]*fx), "upscaled shape")
    y, x = grid(us)
    a = np.array(ref_pix2sky(uw, y, x)); b = np.array(ref_pix2sky(wcs, (y+0.5)/fy-0.5, (x+0.5)/fx-0.5))
    ok = np.all(np.isfinite(a),0)&np.all(np.isfinite(b),0)
    check_positions(c, a[:,ok], b[:,ok], "upscaled geometry covers other sky", tol=1e-8)
    ug, uwg = enmap.upgrade_geometry(shape, wcs, f)
    c.ok(tuple(ug) == tuple(us[-2:]) and wcsutils.equal(uwg, uw), "upgrade_geometry")
    ds, dw = enmap.downgrade_geometry(shape, wcs, f)
    c.ok(tuple(ds) == (shape[0]//fy, shape[1]//fx), "downgraded shape %s" % (ds,))
    if ds[0]*ds[1]:
        y, x = grid(ds)
        a = np.array(ref_pix2sky(dw, y, x)); b = np.array(ref_pix2sky(wcs, (y+0.5)*fy-0.5, (x+0.5)*fx-0.5))
        check_positions(c, a, b, "downgraded geometry covers other sky", tol=1e-8)

def overlaps(c):
    shape, wcs = patch(c, projs=CYL, nmin=6, maxwidth=60); note_geo(c, shape, wcs)
    y1, x1 = c.int(-10, shape[0]+4), c.int(-10, shape[1]+4); h, w_ = c.int(1,20), c.int(1,20)
    c.note(other=(y1,x1,h,w_))
    w2 = wcs.deepcopy(); w2.wcs.crpix -= [x1, y1]
    s, w = enmap.overlap(shape, wcs, (h,w_), w2)
    Y1, Y2 = max(0,y1), min(shape[0], y1+h); X1, X2 = max(0,x1), min(shape[1], x1+w_)
    want = (max(0,Y2-Y1), max(0,X2-X1))
    if want[0]*want[1] == 0:
        c.ok(s[0]*s[1] == 0 or min(s) <= 0, "disjoint geometries have overlap %s" % (s,)); return
    c.ok(tuple(s) == want, "overlap shape %s, expected %s" % (s, want))
    P = np.array(ref_pix2sky(wcs, *np.meshgrid(np.arange(Y1,Y2), np.arange(X1,X2), indexing="ij")))
    check_positions(c, skygrid(s, w), P, "overlap positions", tol=1e-8)
    pb = np.array([[y1,x1],[y1+h,x1+w_]])
    with c.keeps("overlap", pb): s, w = enmap.overlap(shape, wcs, pb)
    c.ok(tuple(s) == want, "overlap with a pixel box: shape %s, expected %s" % (s, want)); check_positions(c, skygrid(s, w), P, "overlap with a pixel box", tol=1e-8)
    s, w = enmap.overlap(shape, wcs, pb.tolist()); c.ok(tuple(s) == want, "overlap with a pixel box given as a list")
    pb = enmap.pixbox_of(wcs, (h,w_), w2)
    c.same(pb, [[y1,x1],[y1+h,x1+w_]], "pixbox_of")

def overlap_full(c):
    """on maps that go around the sky the horizontal direction wraps, the vertical one does not"""
    nx = c.pick(c.int(12,60), c.int(300,1200)); ny = c.int(3,12); wcs = wcsutils.explicit(naxis=2, ctype=["RA---CAR","DEC--CAR"], crval=[c.uni(-180,180),0], cdelt=[c.pick(-1,1)*360/nx, 10/ny], crpix=[nx//2+1, c.uni(-2,ny)])
    shape = (ny, nx); note_geo(c, shape, wcs)
    y1, x1 = c.int(-6, ny+2), c.pick(c.int(-nx//2, nx-1), c.int(-5,5), nx-c.int(1,5)); h, w_ = c.int(1,14), c.int(1,min(nx,20)); c.note(other=(y1,x1,h,w_))
    w2 = wcs.deepcopy(); w2.wcs.crpix -= [x1, y1]; Y1, Y2 = max(0,y1), min(ny, y1+h)
    for what, a in (("geometry", ((h,w_), w2)), ("pixel box", ([[y1,x1],[y1+h,x1+w_]],))):
        s, w = enmap.overlap(shape, wcs, *a)
        if Y2 <= Y1: c.ok(s[0]*s[1] == 0, "disjoint geometries have overlap %s" % (s,)); continue
        c.ok(s[0] == Y2-Y1, "overlap with a %s: %d rows, expected %d" % (what, s[0], Y2-Y1))
        c.ok(s[1] == w_, "overlap with a %s across the edge of a map that covers all longitudes: %d columns, expected %d" % (what, s[1], w_))
        P = np.array(ref_pix2sky(wcs, *np.meshgrid(np.arange(Y1,Y2), np.arange(x1,x1+w_), indexing="ij"))); check_positions(c, skygrid(s, w), P, "overlap positions", tol=1e-8)

def neigh(c):
    """the boxes returned around points contain every pixel within the radius"""
    shape, wcs = c.pick(lambda: patch(c, projs=("car","cea"), nmin=10), lambda: fullsky(c, nymin=16)[:2])()
    note_geo(c, shape, wcs)
    pos = skygrid(shape, wcs); 
    n = 4; iy, ix = c.rng.integers(0,shape[0],n), c.rng.integers(0,shape[1],n)
    pts = pos[:,iy,ix].T.copy()
    pts = pts[np.abs(pts[:,0]) < 60*deg]
    if len(pts) == 0: pts = np.array([pos[:,shape[0]//2,0]])
    r = c.uni(1,6)*abs(wcs.wcs.cdelt[1])*deg
    r = min(r, 20*deg)
    c.note(r=r/deg, n=len(pts))
    pbs = enmap.neighborhood_pixboxes(shape, wcs, pts, r)
    nphi = int(round(360/abs(wcs.wcs.cdelt[0])))
    for p, b in zip(pts, pbs):
        d = angsep(pos[0], pos[1], p[0], p[1])
        Y, X = np.where(d < r*0.98-1e-9)
        c.ok(np.all((Y>=b[0,0])&(Y<b[1,0])), "a pixel within the radius is outside the box in y: %s" % b.tolist())
        inx = ((X>=b[0,1])&(X<b[1,1]))|((X+nphi>=b[0,1])&(X+nphi<b[1,1]))|((X-nphi>=b[0,1])&(X-nphi<b[1,1]))
        c.ok(np.all(inx), "a pixel within the radius is outside the box in x: %s" % b.tolist())
        d1, d2 = max(p[0]-r,-np.pi/2), min(p[0]+r,np.pi/2); yy = np.asarray(wcs.wcs_world2pix(np.full(2,wcs.wcs.crval[0]), np.array([d1,d2])/deg, 0))[1]; dx = 2*min(r/min(np.cos(d1),np.cos(d2)),np.pi)/deg/abs(wcs.wcs.cdelt[0])
        c.ok(b[1,0]-b[0,0] <= abs(yy[1]-yy[0])+2+1e-6 and b[1,1]-b[0,1] <= dx+2+1e-6, "box %s is larger than the radius needs" % b.tolist())
    cd = np.array([c.pick(1,-1)*c.uni(0.3,3), c.pick(1,-1)*c.uni(0.3,3)]); pw = wcsutils.explicit(crval=c.uni(-5,5,2), cdelt=cd, crpix=c.uni(-5,9,2)); q = np.array([c.uni(0,9,3), c.uni(0,12,3)]); pp = np.array(enmap.pix2sky((10,13), pw, q)); u = enmap.get_unit(pw); rr = c.pick(c.uni(0.5,6)*u, c.uni(0.5,6,3)*u)
    pb = enmap.neighborhood_pixboxes((10,13), pw, pp.T, rr); c.ok(pb.shape == (3,2,2) and np.issubdtype(pb.dtype, np.integer), "boxes of a plain map: shape and type"); h = np.asarray(rr/u+np.zeros(3))[:,None]/np.abs(cd[::-1]); c.ok(np.all(np.abs(pb[:,0]-(q.T-h)) <= 0.5+1e-9) and np.all(np.abs(pb[:,1]-1-(q.T+h)) <= 0.5+1e-9), "boxes of a plain map")

MONITORS = [
  ("fullsky", fullsky_, 200, 2000), ("fullsky_equiv", fullsky_equiv, 60, 400), ("geometry2_safe", geometry2_safe, 60, 400), ("geometry2_forms", geometry2_forms, 80, 800),
  ("geometry2_crop", geometry2_crop, 150, 1500), ("band", band_, 150, 1500), ("patch_box", patch_box, 300, 4000),
  ("patch_compat", patch_compat, 150, 1500), ("patch_center", patch_center, 150, 1500), ("patch_shape", patch_shape, 150, 1500),
  ("thumb", thumb, 150, 1500), ("scaling", scaling, 200, 2000), ("overlaps", overlaps, 200, 2000), ("overlap_full", overlap_full, 100, 1000), ("neigh", neigh, 120, 1200),
]

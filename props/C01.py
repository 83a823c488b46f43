"""Coordinate transformations, angles and times"""
import numpy as np
from gen import arr, vec, angsep
from pixell import coordinates as co, utils, enmap

INFO = {"rule": "rotations of 3-vectors with tangent bases; the galactic and ecliptic frames against astropy and against their published pole directions",
  "assumptions": ["horizontal coordinates need the external enlib package and are not exercised"]}

def basis(ra, dec):
    s, c = np.sin(dec), np.cos(dec); sr, cr = np.sin(ra), np.cos(ra)
    return np.array([-s*cr, -s*sr, c+0*ra]), np.array([-sr+0*dec, cr+0*dec, 0*ra+0*dec])

def V(a): return vec(a[1], a[0])
def sep(a, b): return np.linalg.norm(V(np.asarray(a, float))-V(np.asarray(b, float)), axis=0)
def same_dir(c, a, b, msg, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: c.fail("%s: shape %s != %s" % (msg, a.shape, b.shape))
    d = sep(a, b); c.ok(np.all(d < tol), "%s: off by %.3g rad" % (msg, np.max(d)))

def angles(c, shape=None, maxdec=1.5):
    shape = c.pick((), (1,), (6,), (3,4), (2,1,3)) if shape is None else shape
    return np.array([c.uni(-7, 7, shape), np.arcsin(c.uni(-1,1,shape)) if maxdec > 1.55 else c.uni(-maxdec, maxdec, shape)])

def rotang(M, a, b):
    """angle from the new east to the image of the old east, towards the new north"""
    n0, e0 = basis(*a); n1, e1 = basis(*b); e = np.einsum("ij,j...->i...", M, e0)
    return np.arctan2(np.sum(e*n1,0), np.sum(e*e1,0))

def wrapped(d, per=2*np.pi): return np.abs((d+per/2) % per-per/2)

NAMES = {"icrs": ["equ","equatorial","cel","celestial","icrs","CEL"], "galactic": ["gal","galactic"], "ecl": ["ecl","ecliptic"]}
_M = {}
def frame(kind):
    """rotation matrix icrs -> frame, from the published directions of its axes"""
    if kind not in _M:
        import astropy.coordinates as ac, astropy.units as u
        d = utils.degree
        if kind == "icrs": M = np.eye(3)
        elif kind == "galactic":
            # NGP at (192.85948,27.12825), the NCP is at l=122.93192
            p = vec(27.12825*d, 192.85948*d); ncp = np.array([0,0,1.]); t = ncp-np.dot(ncp,p)*p; t /= np.linalg.norm(t); l = 122.93192*d; e = np.cross(p, t)
            x = np.cos(l)*t-np.sin(l)*e; M = np.array([x, np.cross(p, x), p])
        else:
            v = ac.SkyCoord([0,90,0]*u.deg, [0,0,90]*u.deg, frame="icrs").transform_to("barycentrictrueecliptic"); M = np.array(vec(v.lat.rad, v.lon.rad))
            eps = 23.4393*d; M0 = np.array([[1,0,0],[0,np.cos(eps),np.sin(eps)],[0,-np.sin(eps),np.cos(eps)]]); assert np.max(np.abs(M-M0)) < 1e-3
        _M[kind] = M
    return _M[kind]

def systems(c):
    f, t = c.choice(sorted(NAMES)), c.choice(sorted(NAMES)); a, b = c.choice(NAMES[f]), c.choice(NAMES[t]); M = frame(t)@frame(f).T
    pub = 3e-6 if "galactic" in (f,t) else 1e-9   # accuracy of the published galactic constants
    x = angles(c); c.note(f=a, t=b, shape=x.shape)
    with c.keeps("transform", x): r = co.transform(a, b, x)
    rot = lambda M, x: np.einsum("ij,j...->i...", M, V(x))
    c.ok(r.shape == x.shape, "shape"); c.ok(np.max(np.linalg.norm(V(r)-rot(M, x), axis=0)) < pub, "direction in %s" % b)
    same_dir(c, co.transform(b, a, r), x, "transforming back"); same_dir(c, co.transform_raw(a, b, x), r, "transform_raw"); same_dir(c, co.transform_raw(a, b, x, time=None), r, "transform_raw without time")
    same_dir(c, co.transform_astropy(a, b, x), r, "transform_astropy")
    g = c.choice(NAMES[c.choice(sorted(NAMES))]); same_dir(c, co.transform(g, b, co.transform(a, g, x)), r, "transforming in two steps")
    same_dir(c, co.transform(a, b, x, time=c.uni(50000,60000)), r, "epoch of the transformation")
    i = np.round(x); ii = i.astype(int); same_dir(c, co.transform_raw(a, b, ii), co.transform_raw(a, b, i), "integer coordinates"); same_dir(c, co.transform(a, b, ii), co.transform(a, b, i), "integer coordinates")
    # polarization and magnification
    p = co.transform(a, b, x, pol=True); c.ok(p.shape == (3,)+x.shape[1:], "shape with angle"); same_dir(c, p[:2], r, "direction with angle"); ok = (np.abs(r[1]) < 1.5)&(np.abs(x[1]) < 1.5)
    Mx = M if pub < 1e-8 else np.array([V(co.transform(a, b, np.array(q, float))) for q in ([0,0],[np.pi/2,0],[0,np.pi/2])]).T
    want = rotang(Mx, x, r); c.ok(np.all(wrapped(p[2]-want)[ok] < 1e-5), "rotation of the polarization basis: off by %.3g" % (np.max(wrapped(p[2]-want)[ok]) if np.any(ok) else 0))
    q = co.transform(a, b, x, pol=True, mag=True); c.ok(q.shape == (4,)+x.shape[1:], "shape with angle and magnification"); c.close(np.where(ok, q[3], 0), np.where(ok, np.cos(x[1])/np.cos(r[1]), 0), "apparent magnification", rtol=1e-6)
    m = co.transform(a, b, x, mag=True); c.close(m[2], q[3], "magnification alone")
    base = np.concatenate([x, arr(c, (1,)+x.shape[1:]), 1+arr(c, (1,)+x.shape[1:])**2]); k = c.pick(3,4)
    with c.keeps("transform", base): s = co.transform(a, b, base[:k])
    c.ok(s.shape == (k,)+x.shape[1:], "shape follows the input"); c.ok(np.all(wrapped(s[2]-base[2]-p[2]) < 1e-9), "angle is added to the existing one")
    if k == 4: c.close(s[3], base[3]*q[3], "magnification multiplies the existing one")

def recentered(c):
    shape = c.pick((), (4,), (2,3)); a = angles(c, shape, 1.56); four = c.flip(); restore = c.flip(0.4); vecc = c.flip(0.4) and shape == (4,)
    cs = (lambda *s: np.array([c.uni(-4,4,s), c.uni(-1.5,1.5,s)])); f = cs(*(shape if vecc else ())); t = cs(*(shape if vecc else ())); cen = np.concatenate([f, t]) if four else f
    cen = list(cen) if c.flip(0.3) and not vecc else cen; c.note(shape=shape, four=four, restore=restore, vec=vecc, aslist=isinstance(cen, list))
    with c.keeps("recenter", a, np.asarray(cen) if isinstance(cen, list) else cen): r = co.recenter(a, cen, restore=restore); d = co.decenter(a, cen, restore=restore)
    c.ok(r.shape == a.shape, "shape"); same_dir(c, co.decenter(r, cen, restore=restore), a, "decenter undoes recenter"); same_dir(c, co.recenter(d, cen, restore=restore), a, "recenter undoes decenter")
    o = co.recenter(np.array(f) if vecc else np.asarray(f), cen, restore=restore); to = t if four else np.array([f[0]*0, f[0]*0+np.pi/2]); to = to+np.array([f[0], 0*f[0]])*restore
    same_dir(c, o, to, "the center moves to its target")
    # it is the rotation that turns around z, tilts, turns around z
    n = lambda z: np.broadcast_to(z, shape).reshape(-1); fr, fd, tr, td = n(f[0]), n(f[1]), n(to[0]), n(to[1]); x = a.reshape(2,-1); g = r.reshape(2,-1)
    for i in range(x.shape[1]):
        z = lambda w: np.array([[np.cos(w),-np.sin(w),0],[np.sin(w),np.cos(w),0],[0,0,1]]); y = lambda w: np.array([[np.cos(w),0,np.sin(w)],[0,1,0],[-np.sin(w),0,np.cos(w)]])
        c.close(V(g[:,i]), z(tr[i])@y(fd[i]-td[i])@z(-fr[i])@V(x[:,i]), "recentered direction", atol=1e-9)

def refsystems(c):
    sysn = c.pick("equ","gal","ecl"); f = np.array([c.int(-170,170), c.int(-80,80)]); t = np.array([c.int(-170,170), c.int(-80,80)]); form = c.pick("on","on/at","on:sys","on:sys/at:sys","on:sys/at","list"); s2 = c.pick("equ","gal","ecl"); n = c.int(1,5)
    x = np.array([c.uni(-3,3,n), c.uni(-1.4,1.4,n)]); c.note(sys=sysn, f=f, t=t, form=form, s2=s2, n=n); d = utils.degree; F, T = f*d, t*d
    spec = {"on": "%s:%d_%d" % (sysn,*f), "on/at": "%s:%d_%d/%d_%d" % (sysn,*f,*t), "on:sys": "%s:%d_%d:%s" % (sysn,*f,s2), "on:sys/at:sys": "%s:%d_%d:%s/%d_%d:%s" % (sysn,*f,s2,*t,sysn), "on:sys/at": "%s:%d_%d:%s/%d_%d" % (sysn,*f,s2,*t), "list": [sysn, [np.concatenate([F,T]), False]]}[form]
    on = co.transform(s2, sysn, F) if ":sys" in form else F; at = co.transform(s2, sysn, T) if form == "on:sys/at" else T if "at" in form or form == "list" else np.array([0, np.pi/2])
    r = co.transform(sysn, spec, x); same_dir(c, r, co.recenter(x, np.concatenate([on, at])), "system centered on a point"); same_dir(c, co.transform(spec, sysn, r), x, "and back")
    same_dir(c, co.transform(sysn, spec, on[:,None]), at[:,None]+np.zeros((2,1)), "the point is at its target")
    y = co.transform("gal", spec, co.transform(sysn, "gal", x)); same_dir(c, y, r, "from another system")
    p = co.transform(sysn, spec, x, pol=True); M = np.array([V(co.transform(sysn, spec, np.array(q, float)[:,None]))[:,0] for q in ([0,0],[np.pi/2,0],[0,np.pi/2])]).T; ok = np.abs(r[1]) < 1.5
    c.ok(np.all(wrapped(p[2]-rotang(M, x, r))[ok] < 1e-5), "rotation of the polarization basis")

def telescope(c):
    class site(co.default_site): base_tilt, base_az = c.uni(-5,5), c.uni(-180,180)
    n = c.int(1,5); x = np.array([c.uni(-3,3,n), c.uni(0.1,1.4,n)]); b = np.array([c.uni(-3,3), c.uni(0.3,1.3)]); b = b if c.flip() else b[:,None]+0.1*arr(c, (2,n)); c.note(n=n, tilt=site.base_tilt, multi=b.ndim > 1)
    with c.keeps("tele2hor", x, b): h = co.tele2hor(x, site); r = co.tele2bore(x, b)
    same_dir(c, co.hor2tele(h, site), x, "telescope and horizon"); d = utils.degree; az, t = site.base_az*d, site.base_tilt*d
    z = lambda w: np.array([[np.cos(w),-np.sin(w),0],[np.sin(w),np.cos(w),0],[0,0,1]]); y = lambda w: np.array([[np.cos(w),0,np.sin(w)],[0,1,0],[-np.sin(w),0,np.cos(w)]])
    c.close(V(h), z(az)@y(t)@z(-az)@V(x), "tilted telescope", atol=1e-9); same_dir(c, co.transform("tele","hor",x,site=site), h, "transform tele to hor"); same_dir(c, co.transform("hor","tele",h,site=site), x, "transform hor to tele")
    same_dir(c, co.bore2tele(r, b), x, "boresight and back"); same_dir(c, co.transform("tele","bore",x,site=site,bore=b), r, "transform tele to bore"); same_dir(c, co.transform("bore","hor",r,site=site,bore=b), h, "transform bore to hor")
    bb = b if b.ndim > 1 else b[:,None]; z = co.tele2bore(bb.copy(), b); c.ok(np.all(np.abs(z[1]-np.pi/2) < 1e-7), "the boresight is at the pole of its own system")
    up = bb+np.array([0,0.05])[:,None]; u = co.tele2bore(up, b); c.ok(np.all(wrapped(u[0]-np.pi) < 1e-6), "above the boresight is at 180 degrees"); c.ok(np.all(np.abs(u[1]-(np.pi/2-0.05)) < 1e-7), "distance from the boresight")

def euler(c):
    kind = "".join(c.pick("x","y","z") for i in range(3)) if c.flip() else "zyz"; e = c.uni(-4,4,3); ax = {"x":0,"y":1,"z":2}
    def R(w, k):
        i = ax[k]; M = np.eye(3); a, b = (i+1)%3, (i+2)%3; M[a,a] = M[b,b] = np.cos(w); M[a,b] = -np.sin(w); M[b,a] = np.sin(w); return M
    M = R(e[0],kind[0])@R(e[1],kind[1])@R(e[2],kind[2]); x = angles(c, c.pick((), (5,), (2,3))); c.note(kind=kind, e=e, shape=x.shape)
    c.close(co.euler_mat(e, kind), M, "euler matrix", atol=1e-12); r = co.euler_rot(e, x, kind); c.close(V(r), np.einsum("ij,j...->i...", M, V(x)), "euler rotation", atol=1e-9); c.ok(r.shape == x.shape, "shape")
    w = c.uni(-4,4,c.pick((), (3,), (2,3))); k = c.pick("x","y","z"); m = utils.rotmatrix(w, k if c.flip() else ax[k]); c.ok(m.shape == w.shape+(3,3) if hasattr(w,"shape") else m.shape == (3,3), "shape of the rotation matrices")
    for i in np.ndindex(np.shape(w)): c.close(m[i], R(np.asarray(w)[i], k), "rotation matrix", atol=1e-12)
    if np.ndim(w):
        m0 = utils.rotmatrix(w, k, axis=0); c.close(np.moveaxis(m0, [0,1], [-2,-1]), m, "matrix axes first", atol=1e-12)
    if kind == "zyz":
        b = np.concatenate([x, arr(c, (1,)+x.shape[1:])]); r2 = co.transform_euler(e, b); ok = (np.abs(r[1]) < 1.5)&(np.abs(x[1]) < 1.5); same_dir(c, r2[:2], r, "transform_euler"); c.ok(np.all(wrapped(r2[2]-b[2]-rotang(M, x, r))[ok] < 1e-5), "rotation of the polarization basis"); c.ok(co.transform_euler(e, x).shape == x.shape, "no angle unless asked")
        b4 = np.concatenate([b, c.uni(0.5,2,(1,)+x.shape[1:])]); r4 = co.transform_euler(e, b4); c.ok(r4.shape == b4.shape, "shape with magnification"); c.ok(np.all(wrapped(r4[:3]-r2) < 1e-9), "with magnification"); c.close(np.where(ok, r4[3], 0), np.where(ok, b4[3]*np.cos(x[1])/np.cos(r[1]), 0), "magnification on top of a previous one", rtol=1e-6)
        p = co.transform_euler(e, x, pol=True, mag=True); c.ok(p.shape == (4,)+x.shape[1:], "shape"); c.ok(np.all(wrapped(p[2]-r2[2]+b[2]) < 1e-9), "angle"); c.close(np.where(ok, p[3], 0), np.where(ok, np.cos(x[1])/np.cos(r[1]), 0), "magnification", rtol=1e-6)

def angs(c):
    sh = c.pick((), (5,), (3,4)); z = c.flip(); axis = c.int(0, len(sh)) if c.flip() else 0; a = np.array([c.uni(-7,7,sh), c.uni(0,np.pi,sh) if z else c.uni(-np.pi/2,np.pi/2,sh)]); am = np.moveaxis(a, 0, axis); c.note(shape=sh, zenith=z, axis=axis)
    lat = np.pi/2-a[1] if z else a[1]; want = vec(lat, a[0])
    with c.keeps("ang2rect", am): r = utils.ang2rect(am, zenith=z, axis=axis)
    c.close(np.moveaxis(r, axis, 0), want, "unit vector", atol=1e-12); sc = c.uni(0.1,10); rr = r*sc
    with c.keeps("rect2ang", rr): b = np.moveaxis(utils.rect2ang(rr, zenith=z, axis=axis), axis, 0)
    c.ok(np.all(np.abs(b[0]) <= np.pi+1e-12), "longitude range"); c.close(b[1], a[1], "latitude", atol=1e-7); c.ok(np.all(wrapped(b[0]-a[0])*np.cos(lat) < 1e-9), "longitude")
    d = c.pick(1e-12, 1e-7, 1e-3, 1.0); o = a+d*arr(c, a.shape); o[1] = np.clip(o[1], *((0,np.pi) if z else (-np.pi/2,np.pi/2)))
    if c.flip(0.2): o = np.array([a[0]+np.pi, np.pi-a[1] if z else -a[1]])      # antipodes
    if c.flip(0.1): o = a.copy()
    lo = np.pi/2-o[1] if z else o[1]; v, w = want, vec(lo, o[0]); dd = utils.angdist(np.moveaxis(a, 0, axis), np.moveaxis(o, 0, axis), zenith=z, axis=axis); ref = angsep(lat, a[0], lo, o[0])
    c.close(dd, ref, "angular distance", atol=1e-14, rtol=1e-9); c.close(utils.angdist(np.moveaxis(o, 0, axis), np.moveaxis(a, 0, axis), zenith=z, axis=axis), dd, "distance is symmetric", atol=1e-14)
    k, l = (1, 1) if c.flip() else (c.uni(0.1,10,sh), c.uni(0.1,10,sh)); vd = utils.vec_angdist(np.moveaxis(v*k, 0, axis), np.moveaxis(w*l, 0, axis), axis=axis); c.close(vd, ref, "angle between vectors", atol=3e-7)
    p1 = np.array([c.uni(-3,3,(4,1)), c.uni(-1,1,(4,1))]); p2 = np.array([c.uni(-3,3,(1,3)), c.uni(-1,1,(1,3))]); c.close(utils.angdist(p1, p2), angsep(p1[1], p1[0], p2[1], p2[0]), "distance matrix", atol=1e-12)
    ch = utils.ang2chord(dd); c.close(ch, np.linalg.norm(v-w, axis=0), "chord", atol=1e-9); c.close(utils.chord2ang(np.minimum(ch,2)), dd, "chord to angle", atol=1e-7)

def cyclic(c):
    per = c.pick(2*np.pi, 360., 1., 24.); sh = c.pick((9,), (1,), (2,), (3,8), (2,3,5)); ref = c.pick(0, c.uni(-3,3)*per); a = arr(c, sh)*per*c.pick(0.3,3); c.note(period=per, shape=sh, ref=ref)
    with c.keeps("rewind", a): r = utils.rewind(a, ref, per)
    k = (r-a)/per; c.close(k, np.round(k), "whole periods", atol=1e-9); c.ok(np.all(r >= ref-per/2-1e-9*per) and np.all(r <= ref+per/2+1e-9*per), "within half a period of the reference")
    m = utils.rewind(a, "auto", per); k = (m-a)/per; c.close(k, np.round(k), "whole periods (auto)", atol=1e-9); c.ok(np.max(m)-np.min(m) <= per*(1+1e-9), "within one period (auto)"); q = np.sort(a.reshape(-1)); q = q[[(q.size-1)//2, q.size//2]]; c.ok(np.max(m) <= q[1]+per/2*(1+1e-9) and np.min(m) >= q[0]-per/2*(1+1e-9), "centered on the median (auto)")
    # a continuous track that got wrapped
    n = sh[-1]; tr = np.cumsum(c.uni(-0.45,0.45,sh)*per, -1)+c.uni(-5,5)*per; w = utils.rewind(tr, c.uni(-1,1)*per, per); mode = c.pick("left","middle")
    with c.keeps("unwind", w): u = utils.unwind(w, per, refmode=mode, ref=ref)
    d = u-tr; c.ok(u.shape == tr.shape, "shape"); c.close(d-d[...,:1], np.zeros(sh), "unwound track is continuous", atol=1e-9*per); i = 0 if mode == "left" else n//2; c.close(u[...,i], utils.rewind(w, ref, per)[...,i], "reference sample of the track", atol=1e-9*per)
    if len(sh) > 1:
        v = np.moveaxis(w, -1, 0); c.close(utils.unwind(v, per, axes=[0], refmode=mode, ref=ref), np.moveaxis(u, -1, 0), "unwinding along another axis", atol=1e-9*per)
    if mode == "left" and n > 2:
        w2 = w.copy(); w2[...,n-1] = np.nan; u2 = utils.unwind(w2, per, ref=ref, mask_nan=True); c.close(u2[...,:n-1], u[...,:n-1], "track with missing samples", atol=1e-9*per); c.ok(np.all(np.isnan(u2[...,n-1])), "missing samples stay missing")

def times(c):
    t = c.pick(c.uni(0,2e9), c.uni(0,2e9,4), c.int(0,2000000000)); c.note(t=t if np.ndim(t) == 0 else 4); d = np.asarray(t, float)/86400
    c.close(utils.ctime2mjd(t), d+40587, "modified julian date", atol=1e-10); c.close(utils.ctime2jd(t), d+2440587.5, "julian date", atol=3e-9); c.close(utils.ctime2djd(t), d+2440587.5-2415020, "dublin julian date", atol=3e-9)
    m = utils.ctime2mjd(t); c.close(utils.mjd2ctime(m), t, "ctime from mjd", atol=1e-5); c.close(utils.jd2ctime(utils.ctime2jd(t)), t, "ctime from jd", atol=1e-4); c.close(utils.djd2ctime(utils.ctime2djd(t)), t, "ctime from djd", atol=1e-5)
    c.close(utils.jd2mjd(utils.mjd2jd(m)), m, "mjd and jd", atol=3e-9); c.close(utils.djd2mjd(utils.mjd2djd(m)), m, "mjd and djd", atol=3e-9)
    import astropy.time as at; c.close(utils.ctime2mjd(t), at.Time(t, format="unix", scale="utc").mjd, "astropy", atol=2e-5)
    import datetime
    s = int(np.reshape(t, -1)[0]); c.ok(utils.ctime2date(s, fmt="%Y-%m-%d %H:%M:%S") == datetime.datetime.fromtimestamp(s, datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S"), "calendar date"); z = c.int(-11,11); c.ok(utils.ctime2date(s, tzone=z, fmt="%H") == "%02d" % ((s//3600+z) % 24), "time zone")
    x = c.pick(c.uni(-90,90), c.uni(-90,90,5), c.uni(-0.9,0.9), float(c.int(-90,90))); sg, de, mi, se = utils.to_sexa(x)
    c.ok(np.all((np.asarray(sg) == 1)|(np.asarray(sg) == -1)) and np.all(np.asarray(de) >= 0) and np.all((0 <= np.asarray(mi))&(np.asarray(mi) < 60)) and np.all((0 <= np.asarray(se))&(np.asarray(se) < 60+1e-9)), "sexagesimal digits"); c.close(utils.from_sexa(sg, de, mi, se), x, "sexagesimal round trip", atol=1e-9)
    c.ok(np.array_equal(de, np.floor(np.abs(x))) , "whole degrees")
    y = c.pick(1,-1)*c.uni(1.01,89.9); s = utils.format_sexa(y, "%(deg)+03d:%(min)02d:%(sec)09.5f"); D, M_, S = s.split(":"); c.close((-1 if D[0] == "-" else 1)*(abs(int(D))+int(M_)/60+float(S)/3600), y, "formatted degrees", atol=1e-8)
    ra = c.uni(-360,720); n = utils.jname(ra, y, fmt="%(ra_H)d %(ra_M)d %(ra_S).8f %(dec_d)d %(dec_m)d %(dec_s).8f %(ra_d)d %(ra_m)d %(ra_s).8f", tag="X").split(); c.ok(n[0] == "X", "prefix"); f = [float(q) for q in n[1:]]
    c.close(wrapped((f[0]+f[1]/60+f[2]/3600)*15-ra, 360), 0, "hours of right ascension", atol=1e-5); c.close(np.sign(f[3])*(abs(f[3])+f[4]/60+f[5]/3600), y, "declination", atol=1e-6); c.close(wrapped(f[6]+f[7]/60+f[8]/3600-ra, 360), 0, "degrees of right ascension", atol=1e-6)

MONITORS = [("systems", systems, 60, 600), ("recentered", recentered, 250, 2500), ("refsystems", refsystems, 60, 500), ("telescope", telescope, 120, 1000), ("euler", euler, 250, 2500), ("angs", angs, 400, 4000), ("cyclic", cyclic, 300, 3000), ("times", times, 300, 3000)]

"""F02: flat-sky harmonic analysis of maps: units, wavevectors, E/B, derivatives, filters and spectra."""
import itertools
import numpy as np
from pixell import enmap, utils
from gen import *

INFO = {"level": "exploration", "threads": 2, "nproc": 4,
  "assumptions": ["numpy.fft and explicit plane waves are the reference", "the physical size of a cylindrical patch is the documented one: height in declination, width such that the product is the area"]}

def geo(c, nmin=4, nmax=20, projs=("car","cea","tan","zea"), maxwidth=15.):
    s, w = patch(c, projs=projs, nmin=nmin, nmax=nmax, maxwidth=maxwidth); note_geo(c, s, w); return s, w
def lax(m_or_s, w=None):
    s, w = (m_or_s.shape, m_or_s.wcs) if w is None else (m_or_s, w)
    return enmap.laxes(s, w)
def same_wcs(c, a, w, msg): check_positions(c, skygrid((3,3), a.wcs), skygrid((3,3), w), msg)

def transforms(c):
    s, w = geo(c, nmin=2); pre = premul(c); dt = c.pick(np.float64, np.float32, np.complex128); nrm = c.pick(True, False, "phys", "phy", "physical"); c.note(pre=pre, dtype=np.dtype(dt).name, norm=nrm)
    m = enmap.ndmap(arr(c, pre+s, dt), w); tol = 1e-10 if dt != np.float32 else 1e-4
    k = 1. if nrm is False else (s[0]*s[1])**-0.5; p = m.pixsize()**0.5 if isinstance(nrm, str) else 1.
    with c.keeps("fft", m): f = enmap.fft(m, normalize=nrm)
    want = np.fft.fft2(np.asarray(m, np.complex128))*k*p
    c.close(np.asarray(f), want, "fft", rtol=tol); c.ok(isinstance(f, enmap.ndmap), "fft gives a map"); same_wcs(c, f, w, "fft wcs")
    c.ok(f.dtype == np.result_type(dt, 0j), "fft dtype")
    with c.keeps("ifft", f): b = enmap.ifft(f, normalize=nrm)
    c.close(np.asarray(b), np.asarray(m)*(s[0]*s[1] if nrm is False else 1), "ifft of fft", rtol=tol)
    same_wcs(c, b, w, "ifft wcs")
    # adjoints
    x, y = enmap.ndmap(arr(c, pre+s, np.complex128), w), enmap.ndmap(arr(c, pre+s, np.complex128), w)
    d = lambda a, b: np.sum(np.conj(np.asarray(a))*np.asarray(b))
    sc = np.sum(np.abs(x)**2)**0.5*np.sum(np.abs(y)**2)**0.5*(p+1/p)*(s[0]*s[1])**(0.5 if nrm is False else 0)
    c.close(d(enmap.fft(x, normalize=nrm), y), d(x, enmap.fft_adjoint(y, normalize=nrm)), "<Fx,y> = <x,F'y>", rtol=1e-10, scale=sc)
    c.close(d(enmap.ifft(x, normalize=nrm), y), d(x, enmap.ifft_adjoint(y, normalize=nrm)), "<F\"x,y> = <x,F\"'y>", rtol=1e-10, scale=sc)
    if nrm is True: c.close(np.sum(np.abs(f)**2, dtype=np.float64), np.sum(np.abs(m)**2, dtype=np.float64), "power conserved", rtol=tol)
    if nrm in ("phys",): c.close(np.sum(np.abs(f)**2, dtype=np.float64)*m.lpixsize(), np.sum(np.abs(m)**2, dtype=np.float64)*(2*np.pi)**2/s[0]/s[1], "physical normalization: power times fourier cell area", rtol=max(tol,1e-9))
    r = enmap.ndmap(arr(c, pre+s, np.float64), w)
    if min(s) >= 2:
        t = enmap.idct(enmap.dct(r)); c.close(np.asarray(t), np.asarray(r), "idct of dct", rtol=1e-9)
        for nm in ("dct","idct","fft","ifft","fft_adjoint","ifft_adjoint"):
            F = getattr(enmap, nm); inp = r if "dct" in nm else r.astype(np.complex128); o = enmap.ndmap(np.full(r.shape, 3, inp.dtype), w); want = F(inp, normalize=nrm); t = F(inp, omap=o, normalize=nrm); c.close(np.asarray(o), np.asarray(want), "%s into a given map" % nm, rtol=1e-9); c.close(np.asarray(t), np.asarray(want), "%s, returned map" % nm, rtol=1e-9)
        x, y = [enmap.ndmap(arr(c, pre+s, np.float64), w) for i in range(2)]; sd = np.sum(x**2)**0.5*np.sum(y**2)**0.5*(p+1/p)*(16*s[0]*s[1])**(0.5 if nrm is False else 0)
        with c.keeps("dct_adjoint", y): t = enmap.dct_adjoint(y, normalize=nrm)
        c.close(d(enmap.dct(x, normalize=nrm), y), d(x, t), "<Dx,y> = <x,D'y>", rtol=1e-10, scale=sd); same_wcs(c, t, w, "dct_adjoint wcs")
        with c.keeps("idct_adjoint", y): t = enmap.idct_adjoint(y, normalize=nrm)
        c.close(d(enmap.idct(x, normalize=nrm), y), d(x, t), "<D\"x,y> = <x,D\"'y>", rtol=1e-10, scale=sd); same_wcs(c, t, w, "idct_adjoint wcs")
        t = enmap.idct(enmap.dct(r, normalize=False), normalize=False); c.close(np.asarray(t), np.asarray(r)*4*(s[0]-1)*(s[1]-1), "idct of dct, unnormalized", rtol=1e-9)

def wavevec(c):
    s, w = geo(c); pre = premul(c); m = enmap.ndmap(np.zeros(pre+s), w)
    ext = m.extent(signed=True)
    c.ok(np.all(np.sign(ext) == np.sign(w.wcs.cdelt[::-1])), "sign of the extent follows the axis direction")
    c.close(np.prod(np.abs(ext)), m.area(), "extent gives the area", rtol=1e-6 if proj_of(w) in CYL else 2e-2)
    if proj_of(w) in CYL:
        d = ref_pix2sky(w, np.array([-0.5, s[0]-0.5]), np.zeros(2))[0]; c.close(ext[0], d[1]-d[0], "height", rtol=1e-9)
        mc = (np.sin(d[1])-np.sin(d[0]))/(d[1]-d[0]); c.close(ext[1], s[1]*w.wcs.cdelt[0]*deg*mc, "width", rtol=1e-9)
    ly, lx = 2*np.pi*np.fft.fftfreq(s[0])*s[0]/ext[0], 2*np.pi*np.fft.fftfreq(s[1])*s[1]/ext[1]
    L = m.lmap(); c.close(np.asarray(L), np.array(np.broadcast_arrays(ly[:,None], lx[None])), "lmap", rtol=1e-12); same_wcs(c, L, w, "lmap wcs")
    a, b = m.laxes(); c.close(a, ly, "laxes y", rtol=1e-12); c.close(b, lx, "laxes x", rtol=1e-12)
    a, b = m.laxes(broadcastable=True); c.close(a+0*b, ly[:,None]+0*lx, "broadcastable laxes", rtol=1e-12)
    c.close(np.asarray(m.modlmap()), np.hypot(ly[:,None], lx), "modlmap", rtol=1e-12)
    mn = c.uni(1, 200); c.close(np.asarray(m.modlmap(min=mn)), np.maximum(np.hypot(ly[:,None], lx), mn), "modlmap with a floor", rtol=1e-12)
    c.close(np.asarray(enmap.lrmap(s, w)), np.asarray(L)[...,:s[1]//2+1], "lrmap", rtol=1e-12)
    c.close(m.lpixshape(), np.abs(2*np.pi/ext), "lpixshape", rtol=1e-12); c.close(m.lpixsize(), np.prod(np.abs(2*np.pi/ext)), "lpixsize", rtol=1e-12)
    c.close(m.lpixshape(signed=True), 2*np.pi/ext, "signed lpixshape", rtol=1e-12)
    n = c.int(2,3); Lo = m.lmap(oversample=n); c.ok(Lo.shape == (2,s[0]*n,s[1]*n), "oversampled shape")
    # averaging the n x n subcells of each cell gives the cell's own wavevector, away from the wraparound of the axis
    avg = np.asarray(Lo).reshape(2,s[0],n,s[1],n).mean((2,4)); iy = [i for i in range(s[0]) if i != (s[0]+1)//2 and i != s[0]//2]; ix = [i for i in range(s[1]) if i != (s[1]+1)//2 and i != s[1]//2]
    c.close(avg[:,iy][:,:,ix], np.asarray(L)[:,iy][:,:,ix], "oversampled wavevectors average to the cell's", rtol=1e-9, scale=np.max(np.abs(L)))
    # fourier-space pixel <-> l
    if proj_of(w) == "car":
        P = np.array(np.broadcast_arrays(np.arange(s[0])[:,None], np.arange(s[1])[None])).astype(float); sc = np.max(np.abs(L)); got = enmap.pix2l(m.shape, w, P)
        ps = m.pixshape(signed=True); tol = 1e-9+np.max(np.abs(ext/s/ps-1))
        c.close(np.asarray(got), np.asarray(L), "pix2l at whole pixels", rtol=2*tol, scale=sc); c.close(np.asarray(m.l2pix(got)), P, "l2pix undoes pix2l", rtol=1e-9, atol=1e-9)
    f = m.lform(); c.ok(f.shape == m.shape, "lform shape")
    X = (np.arange(s[1])+1-f.wcs.wcs.crpix[0])*f.wcs.wcs.cdelt[0]; Y = (np.arange(s[0])+1-f.wcs.wcs.crpix[1])*f.wcs.wcs.cdelt[1]
    c.close(X, np.fft.fftshift(lx), "lform x axis", rtol=1e-9); c.close(Y, np.fft.fftshift(ly), "lform y axis", rtol=1e-9)
    t = enmap.ndmap(unique(c, s), w); c.same(np.asarray(t.lform()), np.fft.fftshift(np.asarray(t), (-2,-1)), "lform values")

def spinlist(c): return c.pick(([0,2],3), ([0,2],1), ([0],2), ([2],2), ([0,1],3), ([1],2), ([0,2,0],4), ([0,0,2],4), ([0,3],3), ([0,2],6))
def harm(c):
    s, w = geo(c, nmin=2); spin, n = spinlist(c); pre = c.pick((), (), (2,)); iau = c.flip(0.3); nrm = c.pick(True, "phys", False); dt = c.pick(np.float64, np.float32)
    c.note(spin=spin, n=n, pre=pre, iau=iau, norm=nrm, dtype=np.dtype(dt).name); tol = 1e-9 if dt == np.float64 else 1e-3
    m = enmap.ndmap(arr(c, pre+(n,)+s, dt), w)
    with c.keeps("map2harm", m): h = enmap.map2harm(m, spin=spin, iau=iau, normalize=nrm)
    F = np.asarray(enmap.fft(enmap.ndmap(np.asarray(m, np.float64), w), normalize=nrm)).copy(); ly, lx = lax(m)
    i, k, sp = 0, 0, []
    while i < n:
        v = spin[k % len(spin)]; k += 1
        if v == 0: sp.append((0, i, i)); i += 1
        else: sp.append((v, i, i+1)); i += 2
    phi = np.arctan2(lx[None], ly[:,None])*(-1 if iau else 1)
    want = F.copy()
    for v, i, j in sp:
        if v:
            z = np.cos(v*phi); y = np.sin(v*phi)
            want[...,i,:,:] = z*F[...,i,:,:]-y*F[...,j,:,:]; want[...,j,:,:] = y*F[...,i,:,:]+z*F[...,j,:,:]
    c.close(np.asarray(h), want, "map2harm", rtol=tol)
    with c.keeps("harm2map", h): b = enmap.harm2map(h, spin=spin, iau=iau, normalize=nrm)
    c.close(np.asarray(b), np.asarray(m)*(s[0]*s[1] if nrm is False else 1), "harm2map of map2harm", rtol=tol); c.ok(b.dtype == dt, "harm2map dtype")
    x, y = enmap.ndmap(arr(c, pre+(n,)+s, np.complex128), w), enmap.ndmap(arr(c, pre+(n,)+s, np.complex128), w)
    d = lambda a, b: np.sum(np.conj(np.asarray(a))*np.asarray(b)); kw = dict(spin=spin, iau=iau, normalize=nrm)
    p = m.pixsize()**0.5 if nrm == "phys" else 1.; sc = x.size*(p+1/p)*(s[0]*s[1])**0.5
    c.close(d(enmap.map2harm(x, **kw), y), d(x, enmap.map2harm_adjoint(y, keep_imag=True, **kw)), "map2harm adjoint", rtol=1e-10, scale=sc)
    c.close(d(enmap.harm2map(x, keep_imag=True, **kw), y), d(x, enmap.harm2map_adjoint(y, **kw)), "harm2map adjoint", rtol=1e-10, scale=sc)

def wave(c, s, w, kmax=None):
    """a plane wave below Nyquist: (map, l vector, function of phase offset)"""
    ky, kx = c.int(-((s[0]-1)//2), (s[0]-1)//2), c.int(-((s[1]-1)//2), (s[1]-1)//2); ph = c.uni(0,6); c.note(k=[ky,kx])
    y, x = grid(s); th = 2*np.pi*(ky*y/s[0]+kx*x/s[1])+ph; ly, lx = lax(s, w)
    return th, np.array([ly[ky % s[0]], lx[kx % s[1]]]), ky, kx

def deriv(c):
    s, w = geo(c, nmin=3); th, l, ky, kx = wave(c, s, w); pre = premul(c); A = c.rng.normal(size=pre)[...,None,None]
    m = enmap.ndmap(np.cos(th)*A, w); sc = np.max(np.abs(A))
    with c.keeps("grad", m): g = enmap.grad(m)
    c.close(np.asarray(g), np.array([-np.sin(th)*A*l[0], -np.sin(th)*A*l[1]]), "gradient of a plane wave", rtol=1e-9, scale=sc*(np.max(np.abs(l))+100))
    st = m.extent(signed=True)/np.array(s); c.close(np.asarray(enmap.grad_pix(m)), np.array([-np.sin(th)*A*l[0]/st[0], -np.sin(th)*A*l[1]/st[1]]), "gradient in pixels", rtol=1e-9, scale=sc*np.max(np.abs(l)/np.abs(st)+100/np.min(np.abs(st))))
    with c.keeps("laplace", m): c.close(np.asarray(enmap.laplace(m)), -np.sum(l**2)*np.cos(th)*A, "laplacian of a plane wave", rtol=1e-9, scale=sc*(np.sum(l**2)+1e4))
    with c.keeps("div", g): c.close(np.asarray(enmap.div(g)), -np.sum(l**2)*np.cos(th)*A, "divergence of the gradient", rtol=1e-9, scale=sc*(np.sum(l**2)+1e4))
    same_wcs(c, g, w, "grad wcs")

def filters(c):
    s, w = geo(c, nmin=3); th, l, ky, kx = wave(c, s, w); pre = premul(c); A = c.rng.normal(size=pre)[...,None,None]; m = enmap.ndmap(np.cos(th)*A, w); sc = np.max(np.abs(A))
    sig = c.uni(0.1, 3)*m.pixsize()**0.5; e = np.exp(-0.5*np.sum(l**2)*sig**2)
    with c.keeps("smooth_gauss", m):
        c.close(np.asarray(enmap.smooth_gauss(m, sig)), e*np.asarray(m), "gaussian smoothing", rtol=1e-9, scale=sc)
        c.close(np.asarray(enmap.smooth_gauss(m, -sig)), (1-e)*np.asarray(m), "gaussian highpass", rtol=1e-9, scale=sc)
        c.same(np.asarray(enmap.smooth_gauss(m, 0)), np.asarray(m), "no smoothing")
    order, pw, scl = c.pick(0,1), c.pick(1., 2., -1., 0.5), c.pick(1, 2, 3); c.note(order=order, pow=pw, scale=scl)
    win = lambda f: np.sinc(f) if order == 0 else np.sinc(f)**2*3/(2+np.cos(2*np.pi*f))
    g = (win(ky/s[0]/scl)*win(kx/s[1]/scl))**pw
    with c.keeps("apply_window", m): r = enmap.apply_window(m, pow=pw, order=order, scale=scl)
    c.close(np.asarray(r), g*np.asarray(m), "pixel window", rtol=1e-9, scale=sc*max(1,abs(g)))
    n = enmap.ndmap(arr(c, pre+s), w)
    c.close(np.asarray(enmap.unapply_window(enmap.apply_window(n, pow=pw, order=order, scale=scl), pow=pw, order=order, scale=scl)), np.asarray(n), "unapply undoes apply", rtol=1e-8)
    f = enmap.fft(n); q = f.copy(); r = enmap.ifft(enmap.apply_window(f, pow=pw, order=order, nofft=True)).real
    c.same(np.asarray(f), np.asarray(q), "nofft leaves its input alone"); c.close(np.asarray(r), np.asarray(enmap.apply_window(n, pow=pw, order=order)), "nofft window", rtol=1e-8)

def spectra(c):
    s, w = geo(c, nmin=3); n = c.pick(1,2,3); h = enmap.ndmap(arr(c, (n,)+s, np.complex128), w); g = enmap.ndmap(arr(c, (n,)+s, np.complex128), w); c.note(n=n)
    with c.keeps("calc_ps2d", h, g):
        a = enmap.calc_ps2d(h[:,None], h[None]); x = enmap.calc_ps2d(h[:,None], g[None]); z = enmap.calc_ps2d(h[0]); v = enmap.calc_ps2d(h[0], g[0])
    H, G = np.asarray(h), np.asarray(g)
    c.close(np.asarray(a), (H[:,None]*H[None].conj()).real, "auto spectra", rtol=1e-12); c.close(np.asarray(x), (H[:,None]*G[None].conj()).real, "cross spectra", rtol=1e-12)
    c.close(np.asarray(z), np.abs(H[0])**2, "scalar auto", rtol=1e-12); c.close(np.asarray(v), (H[0]*G[0].conj()).real, "scalar cross", rtol=1e-12)
    same_wcs(c, a, w, "ps wcs")
    # flat spectrum expansion: without smoothing, each fourier pixel holds the spectrum at its l, scaled to pixel units
    ls = np.asarray(enmap.modlmap(s, w)); lmax = int(np.max(ls))+c.pick(3, -int(np.max(ls)//2)); lmax = max(lmax, 4)
    cl = 1./(np.arange(lmax+1)+50.)
    npol = c.int(1,3); B = c.rng.normal(size=(npol,npol)); C = (B@B.T)[:,:,None]*cl; nm = s[0]*s[1]/enmap.area(s, w)
    if c.flip(): r = enmap.spec2flat(s, w, cl, smooth=0); wantC = cl*nm; ex = 1
    else:
        ex = c.pick(1., 0.5, -1.); r = enmap.spec2flat(s, w, C, exp=ex, smooth=0); c.note(exp=ex)
        E, V = np.linalg.eigh(B@B.T)
        if np.min(E) < 1e-6*np.max(E): return
        wantC = (V*E**ex)@V.T; wantC = wantC[:,:,None]*(cl*nm)**ex
    i = np.floor(ls).astype(int); fr = ls-i; pad = np.concatenate([wantC, np.zeros(wantC.shape[:-1]+(2,))], -1); ok = i+1 <= lmax
    got = np.asarray(r); want = np.where(ok, pad[...,np.minimum(i,lmax)]*(1-fr)+pad[...,np.minimum(i+1,lmax+1)]*fr, 0)
    c.close(got[...,ok], want[...,ok], "spectrum at each fourier pixel", rtol=1e-8)
    c.ok(np.all(got[...,i > lmax] == 0), "no power beyond the spectrum")

def smoothspec(c):
    n, nl = c.int(1,3), c.int(5,60); ps = np.abs(c.rng.normal(size=(n,nl)))+1; kern, wt = c.pick("gauss","step"), c.pick("mode","uniform","array"); wid = c.uni(1.5,6); c.note(n=n, nl=nl, kern=kern, wt=wt, wid=wid)
    l = np.arange(nl); W = {"mode": l**2., "uniform": np.ones(nl), "array": c.uni(0.5,2,nl)}[wt]
    with c.keeps("smooth_spectrum", ps): r = enmap.smooth_spectrum(ps, kernel=kern, weight=W if wt == "array" else wt, width=wid)
    K = np.exp(-0.5*(l/wid)**2) if kern == "gauss" else (l < int(wid))*1.
    N = 2*(nl-1); want = np.zeros((n,nl)); ext = lambda a: np.concatenate([a, a[-2:0:-1]])
    Kx, Wx = ext(K), ext(W)
    for k in range(n):
        px = ext(ps[k])
        for i in range(nl):
            sh = Kx[(i-np.arange(N)) % N]; want[k,i] = np.sum(sh*Wx*px)/np.sum(sh*Wx)
    sel = slice(1,None) if kern == "step" and wt == "mode" and wid < 2 else slice(None)
    c.close(r[:,sel], want[:,sel], "smoothed spectrum", rtol=1e-6)

def binning(c):
    s, w = geo(c, nmin=6, projs=("car","tan")); pre = premul(c); m = enmap.ndmap(arr(c, pre+s), w); kind = c.pick("r","l"); br = c.pick(1., 2., 1.7); bs = None; c.note(kind=kind, brel=br, pre=pre)
    if kind == "r":
        cen = np.array(ref_pix2sky(w, c.uni(0,s[0]-1), c.uni(0,s[1]-1))); r = np.asarray(m.modrmap(ref=cen)); b0 = np.min(m.extent()/np.array(s)); f = lambda **k: m.rbin(center=cen, **k)
        check = angsep(*skygrid(s, w), cen[0], cen[1]); c.close(r, check, "distance from the centre", rtol=1e-9, atol=1e-9)
    else: r = np.asarray(m.modlmap()); b0 = min(abs(r[0,1]), abs(r[1,0])); f = m.lbin
    kw = dict(brel=br)
    if c.flip(): bs = c.uni(1.1,3)*b0; kw["bsize"] = bs
    if c.flip(0.3): kw[kind+"op"] = np.sqrt; r = np.sqrt(r); kw["bsize"] = bs = c.uni(0.5,2)*np.sqrt(b0)
    bs = (b0 if bs is None else bs)*br; q = r/bs; idx = np.floor(q).astype(int); amb = (np.abs(q-np.round(q)) < 1e-9)&(q > 0.5); edge = np.round(q).astype(int)   # values on a bin's edge may go either way
    with c.keeps("bin", m): v, rr, nh = f(return_nhit=True, **kw)
    n = v.shape[-1]; c.ok(n in (int(np.max(q)*(1-1e-9)), int(np.max(q)*(1+1e-9))), "number of bins %d, largest value %g bins" % (n, np.max(q))); c.ok(v.shape == pre+(n,), "bin shape %s" % (v.shape,))
    A = np.asarray(m).reshape((-1,)+s)
    for i in range(n):
        sel = (idx == i)&~amb; am = amb&((edge == i)|(edge == i+1)); nd, na = np.sum(sel), np.sum(am)
        if na:
            c.ok(nd <= nh[i] <= nd+na, "hits"); k = int(nh[i]-nd)
            if na <= 9 and nh[i] > 0:
                x = A[-1][am]; got = v.reshape(-1,n)[-1,i]*nh[i]-np.sum(A[-1][sel]); c.ok(min(abs(sum(t)-got) for t in itertools.combinations(x, k)) < 1e-7*(1+np.sum(np.abs(A[-1]))), "bin mean with values on the edges")
            continue
        c.ok(nh[i] == nd, "hits")
        if np.any(sel):
            c.close(v[...,i], np.mean(np.asarray(m)[...,sel], -1), "bin mean", rtol=1e-9, scale=5); c.close(rr[i], np.mean(r[sel]), "bin position", rtol=1e-9)
    v2, rb = f(return_bins=True, **kw); c.close(rb[1], np.arange(n)*bs, "bin edges", rtol=1e-9); c.close(rb[2], np.arange(1,n+1)*bs, "bin edges", rtol=1e-9)

def matrices(c):
    s, w = geo(c, nmin=2, nmax=6); n = c.int(1,4); A = c.rng.normal(size=(n,n)+s); A = np.einsum("abyx,cbyx->acyx", A, A)+0.1*np.eye(n)[:,:,None,None]; M = enmap.ndmap(A, w); e = c.pick(0.5, -1., 2., -0.5, 1.); c.note(n=n, e=e)
    with c.keeps("multi_pow", M): P = enmap.multi_pow(M, e)
    want = np.zeros_like(A)
    for y in range(s[0]):
        for x in range(s[1]):
            E, V = np.linalg.eigh(A[:,:,y,x]); want[:,:,y,x] = (V*E**e)@V.T
    c.close(np.asarray(P), want, "matrix power per pixel", rtol=1e-8); same_wcs(c, P, w, "multi_pow wcs")
    A2 = np.ascontiguousarray(np.moveaxis(np.array([A,2*A]), 0, 1)); P2 = enmap.multi_pow(enmap.ndmap(A2, w), e, axes=[0,2]); c.close(np.asarray(P2), np.moveaxis(np.array([want,2**e*want]), 0, 1), "matrix power over other axes", rtol=1e-8)
    v = enmap.ndmap(c.rng.normal(size=c.pick((), (2,))+(n,)+s), w)
    with c.keeps("map_mul", M, v): r = enmap.map_mul(M, v)
    c.close(np.asarray(r), np.einsum("abyx,...byx->...ayx", A, np.asarray(v)), "map_mul", rtol=1e-10); same_wcs(c, r, w, "map_mul wcs")
    sc = enmap.ndmap(c.rng.normal(size=s), w); c.close(np.asarray(enmap.map_mul(sc, v)), np.asarray(sc)*np.asarray(v), "scalar map_mul", rtol=1e-12)
    ang = c.pick(c.uni(-3,3), c.uni(-3,3,s)); sp = c.pick(2,1,0,3); t = enmap.ndmap(arr(c, c.pick((), (2,))+(3,)+s), w)
    with c.keeps("rotate_pol", t): r = enmap.rotate_pol(t, ang, spin=sp)
    z = (np.asarray(t)[...,1,:,:]+1j*np.asarray(t)[...,2,:,:])*np.exp(1j*sp*np.asarray(ang))
    c.close(np.asarray(r), np.stack([np.asarray(t)[...,0,:,:], z.real, z.imag], -3), "polarization rotation", rtol=1e-10); c.close(np.asarray(enmap.rotate_pol(r, -ang, spin=sp)), np.asarray(t), "rotation undone", rtol=1e-10)

MONITORS = [("transforms", transforms, 500, 4000), ("wavevec", wavevec, 300, 2000), ("harm", harm, 400, 3000), ("deriv", deriv, 300, 2000), ("filters", filters, 300, 2000),
  ("spectra", spectra, 250, 1500), ("smoothspec", smoothspec, 150, 1000), ("binning", binning, 250, 1500), ("matrices", matrices, 200, 1200)]

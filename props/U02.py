"""U02: statistics, linear algebra, iterative solvers, beams, spectra and sky geometry helpers match their definitions"""
import numpy as np, scipy.special, scipy.integrate, os, itertools
from pixell import utils
from gen import *

INFO = {"level": "exploration", "threads": 1, "nproc": 8, "assumptions": []}

def wquant(m, w, q):
    o = np.argsort(m, kind="stable"); m, w = m[o], w[o]; x = (np.cumsum(w)-0.5*w)/np.sum(w); return np.interp(q, x, m)

def stats(c):
    pre = c.pick((),(2,),(2,3)); n = c.int(1,30); ax = c.int(0,len(pre)); sh = pre[:ax]+(n,)+pre[ax:]; gax = ax-len(sh) if c.flip() else ax; c.note(shape=sh, axis=gax)
    m = c.uni(-3,3,sh).astype(c.pick(np.float64,np.float64,np.float32)); iv = c.uni(0.1,2,sh)
    if c.flip(0.3): iv = c.uni(0.1,2,n).reshape((n,)+(1,)*(len(sh)-1-ax))
    q = c.pick(c.uni(0,1), c.uni(0,1,3), c.uni(0,1,(2,2)), 0.5, 0., 1.); wide = np.broadcast_to(iv, sh)
    with c.keeps("weighted_quantile", m, iv): r = utils.weighted_quantile(m, iv, q, axis=gax)
    mm, ww = np.moveaxis(m,ax,-1).reshape(-1,n), np.moveaxis(wide,ax,-1).reshape(-1,n); want = np.stack([wquant(a.astype(float),b,np.asarray(q)) for a, b in zip(mm,ww)],-1).reshape(np.shape(q)+pre); c.close(np.asarray(r), want, "weighted quantile", rtol=1e-5, atol=1e-6)
    c.close(np.asarray(utils.weighted_median(m, iv, axis=gax)), np.stack([wquant(a.astype(float),b,0.5) for a, b in zip(mm,ww)]).reshape(pre), "weighted median", rtol=1e-5, atol=1e-6); c.close(np.asarray(utils.weighted_median(m, axis=gax)), np.median(m,ax), "unweighted median", rtol=1e-5, atol=1e-6)
    if n > 2:
        z = c.int(0,n-1); w2 = np.array(wide); np.moveaxis(w2,ax,-1)[...,z] = 0; mi, wi = np.delete(mm,z,1), np.delete(ww,z,1)
        qq = c.uni(0,1); r = np.asarray(utils.weighted_quantile(m, w2, qq, axis=gax)).reshape(-1); 
        for i in range(len(mi)): lo, hi = mi[i].min(), mi[i].max(); c.ok(min(lo,mm[i,z])-1e-5 <= r[i] <= max(hi,mm[i,z])+1e-5, "quantile within the data")
    f = c.uni(0,0.9); k = int(n*f)//2; r = utils.medmean(m, axis=gax, frac=f); s = np.sort(np.moveaxis(m,ax,-1),-1); c.close(np.asarray(r), np.mean(s[...,k:n-k],-1), "mean of the middle values", rtol=1e-5, atol=1e-6)
    s = np.sort(m.reshape(-1)); k = int(s.size*f)//2; c.close(np.asarray(utils.medmean(m, frac=f)), np.mean(s[k:s.size-k]), "mean of the middle values of everything", rtol=1e-5, atol=1e-6)
    bs = c.int(1,n); r = utils.medmean2(m, axis=ax, bsize=bs); mv = np.moveaxis(m,ax,-1).astype(float); bl = [np.mean(mv[...,i:i+bs],-1) for i in range(0,n,bs)]; c.close(np.asarray(r), np.median(bl,0), "median of block means", rtol=1e-5, atol=1e-5); fr = c.pick(0.1, 0.3, c.uni(0.02,0.9)); b2 = max(1, int(np.round(n*fr))); bl = [np.mean(mv[...,i:i+b2],-1) for i in range(0,n,b2)]; c.close(np.asarray(utils.medmean2(m, axis=ax, frac=fr)), np.median(bl,0), "median of block means, given the fraction", rtol=1e-5, atol=1e-5)
    mk = c.uni(0,1,sh) < 0.6; zz = np.moveaxis(m,ax,-1).reshape(-1,n); mm_ = np.moveaxis(mk,ax,-1).reshape(-1,n); c.close(np.asarray(utils.maskmed(m, mask=mk, axis=gax)).reshape(-1), [np.median(x[k_]) if np.any(k_) else 0 for x, k_ in zip(zz, mm_)], "masked median with a given mask", rtol=1e-5, atol=1e-6)
    z = np.where(c.uni(0,1,sh) < 0.3, 0, m); r = utils.maskmed(z, axis=gax); zz = np.moveaxis(z,ax,-1).reshape(-1,n); c.close(np.asarray(r).reshape(-1), [np.median(x[x!=0]) if np.any(x!=0) else 0 for x in zz], "masked median", rtol=1e-5, atol=1e-6)
    mv9 = c.pick(9, -1); z9 = np.where(z == 0, mv9, z); c.close(np.asarray(utils.maskmed(z9, axis=gax, maskval=mv9)).reshape(-1), [np.median(x[x!=mv9]) if np.any(x!=mv9) else mv9 for x in np.moveaxis(z9,ax,-1).reshape(-1,n)], "masked median with another mask value", rtol=1e-5, atol=1e-6)
    w = c.int(1,max(1,n//2)); v = m.astype(float); keep = v.copy(); r = utils.deslope(v, w, axis=gax) if n > 1 else v; c.same(v, keep, "deslope left its input alone")
    if n > 1:
        mv = np.moveaxis(keep,ax,-1); a, b = mv[...,:w].mean(-1)[...,None], mv[...,-w:].mean(-1)[...,None]; want = np.moveaxis(mv-a-np.arange(n)*(b-a)/(n-1),-1,ax); c.close(np.asarray(r), want, "deslope", atol=1e-10); a9, b9 = np.median(mv[...,:w],-1)[...,None], np.median(mv[...,-w:],-1)[...,None]; c.close(np.asarray(utils.deslope(v, w, axis=gax, avg=np.median)), np.moveaxis(mv-a9-np.arange(n)*(b9-a9)/(n-1),-1,ax), "deslope with another average", atol=1e-10); utils.deslope(v, w, inplace=True, axis=gax); c.close(v, want, "deslope in place", atol=1e-10)
    d = c.uni(-1,1,c.int(1,6)); N = c.int(0,30); cyc = np.concatenate([d,d[::-1]]); c.same(utils.repeat_filler(d, N) if N else np.zeros(0), np.array([cyc[i%len(cyc)] for i in range(N)]), "repeat_filler")
    a = c.uni(-3,3,(3,4)); r = utils.rescale(a, [2,5]); c.close([r.min(), r.max()], [2,5], "rescaled range"); c.close(np.diff(r.reshape(-1)), np.diff(a.reshape(-1))*3/(a.max()-a.min()), "linear rescaling"); c.close(utils.minmax(a), [a.min(), a.max()], "minmax"); c.close(utils.minmax(a,1), [a.min(1), a.max(1)], "minmax along an axis")
    b = a.copy(); b.flat[c.rng.choice(12,3,replace=False)] = [np.nan,np.inf,-np.inf]; keep = b.copy(); good = np.isfinite(b); c.same(utils.tofinite(b, 7.), np.where(good,b,7), "tofinite"); c.ok(utils.tofinite(np.nan) == 0 and utils.tofinite(-np.inf, 3.) == 3 and utils.tofinite(2.5, 3.) == 2.5, "tofinite of a number"); c.same(utils.without_nan(b), np.where(good,b,0), "without_nan"); c.ok(np.array_equal(b, keep, equal_nan=True), "inputs with nans left alone"); r = utils.remove_nan(b); c.same(b, np.where(good,keep,0), "remove_nan in place"); c.ok(r is b, "remove_nan returns its argument"); c.ok(utils.tofinite(np.nan, 3) == 3 and utils.tofinite(2.0) == 2, "tofinite of a number")
    D, N = c.int(1,6), c.int(0,4); r = utils.dicedist(N,D); w = np.zeros(N*D+1)
    for t in itertools.product(range(1,D+1), repeat=N): w[sum(t)] += D**-N
    c.close(r, w, "distribution of dice", atol=1e-12)
    x = c.uni(-9,9,20); per = c.uni(0.5,3); ph = x/per*2*np.pi; c.close(utils.triangle_wave(x, per), 2/np.pi*np.arcsin(np.sin(ph)), "triangle wave", atol=1e-9)
    rg = np.array([c.uni(-9,9)]); rg = np.array([rg[0], rg[0]+c.uni(0.1,6)]); a = c.uni(-20,20,30); k = (a-rg[0])%(2*np.pi); far = (np.abs(k) > 1e-6) & (np.abs(k-(rg[1]-rg[0])) > 1e-6) & (k < 2*np.pi-1e-6); c.same(np.asarray(utils.between_angles(a, rg))[far], (k < rg[1]-rg[0])[far], "between angles")
    v = c.int(-9,9)+0.3; c.ok(bool(utils.hasoff(v, 0.3)) and not bool(utils.hasoff(v, 0.31)) and bool(utils.hasoff(v,-0.7)) and bool(utils.hasoff(v-0.3+1e-9, 0)), "hasoff")
    x = c.uni(-2,5,c.int(2,20)); nm = c.int(0,7); r = utils.build_legendre(x, nm); t = 2*(x-x.min())/(x.max()-x.min())-1; c.ok(r.shape == (nm,len(x)), "legendre shape"); [c.close(r[i], scipy.special.eval_legendre(i,t), "legendre polynomial", atol=1e-10) for i in range(nm)]; r = utils.build_cossin(x, nm); [c.close(r[i], np.cos((i//2+1)*x) if i%2 else np.sin((i//2+1)*x), "harmonics", atol=1e-10) for i in range(nm)]
    L = c.uni(1,1e4); c.close(utils.ang2l(utils.l2ang(L)), L, "multipole to angle and back"); c.close(utils.nside2res(utils.res2nside(1/L)), 1/L, "nside and back")

def spd(c, n, pre=(), cond=30.):
    q = np.linalg.qr(c.rng.standard_normal(pre+(n,n)))[0]; e = np.exp(c.uni(0,np.log(cond),pre+(n,))); A = np.einsum("...ij,...j,...kj->...ik", q, e, q); return 0.5*(A+np.swapaxes(A,-1,-2))

def linalg(c):
    n = c.int(1,4); pre = c.pick((),(3,),(2,3),(2,1,2)); A = spd(c, n, pre); nd = A.ndim; c.note(n=n, pre=pre)
    ax = c.pick([-2,-1],[0,1],[nd-2,nd-1],[-nd,-nd+1]); A2 = np.ascontiguousarray(np.moveaxis(A, [-2,-1], ax)); c.note(axes=ax)
    e = c.pick(-1,0.5,-0.5,2,1,3,0.3); E, V = np.linalg.eigh(A); want = np.moveaxis(np.einsum("...ij,...j,...kj->...ik",V,E**e,V),[-2,-1],ax)
    with c.keeps("eigpow", A2): r = utils.eigpow(A2, e, axes=ax)
    c.close(np.asarray(r), want, "matrix power", rtol=1e-8, atol=1e-9)
    if n > 1: # rank-deficient and indefinite matrices
        q = np.linalg.qr(c.rng.standard_normal(pre+(n,n)))[0]; ev = c.uni(1,2,pre+(n,)); ev[...,0] = 0; S = np.einsum("...ij,...j,...kj->...ik",q,ev,q); ie = ev.copy(); ie[...,0] = np.inf; c.close(np.asarray(utils.eigpow(0.5*(S+np.swapaxes(S,-1,-2)), -1)), np.einsum("...ij,...j,...kj->...ik",q,1/ie,q), "inverse power of a singular matrix", atol=1e-7)
        ev[...,0] = -1.5; S = np.einsum("...ij,...j,...kj->...ik",q,ev,q); S = 0.5*(S+np.swapaxes(S,-1,-2)); c.close(np.asarray(utils.eigpow(S,0.5)), np.einsum("...ij,...j,...kj->...ik",q,np.maximum(ev,0)**0.5,q), "negative eigenvalues removed for fractional powers", atol=1e-7); c.close(np.asarray(utils.eigpow(S,-1)), np.einsum("...ij,...j,...kj->...ik",q,1/ev,q), "inverse of an indefinite matrix", atol=1e-7)
    b = c.uni(-1,1,pre+(n,)); bm = c.uni(-1,1,pre+(n,2))
    if nd > 2 or True:
        b2 = np.ascontiguousarray(np.moveaxis(b,-1,ax[0] if ax[0] >= 0 else (ax[0]+1 if ax[0] == -2 else 0))) if pre else b
        with c.keeps("solve", A2, b2): x = utils.solve(A2, b2, axes=ax)
        w = np.linalg.solve(A, b[...,None])[...,0]; w = np.moveaxis(w,-1,0) if pre and ax[0] in (0,-nd) else w; c.close(np.asarray(x), w, "solution of a linear system", rtol=1e-8, atol=1e-9)
        if ax == [-2,-1]:
            bq = c.uni(-1,1,pre+(n,n)); c.close(np.asarray(utils.solve(A, bq)), np.linalg.solve(A,bq), "solution for matrices", rtol=1e-8, atol=1e-9)
            if pre:
                z = A.copy(); hole = c.uni(0,1,pre) < 0.4; z[hole] = 0
                with c.keeps("masked solve", z, b): x = utils.solve(z, b, masked=True)
                c.close(np.asarray(x), np.where(hole[...,None],0,np.linalg.solve(A,b[...,None])[...,0]), "masked solution", rtol=1e-8, atol=1e-9)
    n = c.int(2,5); S = spd(c, n); K = np.sort(c.rng.choice(n, c.int(1,n-1), replace=False)); U = [i for i in range(n) if i not in K]; a, cov = utils.build_conditional(S, K); g = np.linalg.inv(S[np.ix_(K,K)]); c.close(np.asarray(a), S[np.ix_(U,K)] @ g, "conditional mean", rtol=1e-8, atol=1e-9); c.close(np.asarray(cov), S[np.ix_(U,U)]-S[np.ix_(U,K)] @ g @ S[np.ix_(K,U)], "conditional covariance", rtol=1e-8, atol=1e-9)
    M = spd(c, n, (3,)); M2 = np.moveaxis(M,0,-1).copy(); a, cov = utils.build_conditional(M2, K)
    for i in range(3): g = np.linalg.inv(M[i][np.ix_(K,K)]); c.close(np.asarray(a)[...,i], M[i][np.ix_(U,K)] @ g, "conditional mean of many", rtol=1e-8, atol=1e-9); c.close(np.asarray(cov)[...,i], M[i][np.ix_(U,U)]-M[i][np.ix_(U,K)] @ g @ M[i][np.ix_(K,U)], "conditional covariance of many", rtol=1e-8, atol=1e-9)
    with c.keeps("cov2corr", S): C, sd = utils.cov2corr(S)
    c.close(np.diag(C), np.ones(n), "correlation matrix"); c.close(sd, np.sqrt(np.diag(S)), "standard deviations"); c.close(utils.corr2cov(C, sd), S, "covariance from correlation"); c.close(C, S/np.outer(sd,sd), "correlations")
    ev, V = utils.eigsort(S); c.ok(np.all(np.diff(ev) <= 0), "sorted eigenvalues"); c.close(S @ V, V*ev, "eigenvectors", atol=1e-9, scale=np.max(np.abs(S))); k = c.int(1,n); q = utils.eigsort(S, k, merged=True); c.close(q @ q.T, (V[:,:k]*ev[:k]) @ V[:,:k].T, "merged eigenvectors", atol=1e-9); keep = S.copy(); z = utils.nodiag(S); c.same(S, keep, "nodiag input"); c.same(z, np.where(np.eye(n),0,S), "nodiag")
    R = c.uni(-1,1,(c.int(1,4),n)); c.close(utils.ubash(lambda v: R @ v, n), R, "matrix of a linear function"); B = c.uni(-1,1,(2,6)); co = c.uni(-1,1,(3,2)); c.close(utils.decomp_basis(B, co @ B), co, "coefficients in a basis", rtol=1e-6, atol=1e-7)
    xp = np.cumsum(c.uni(0.1,1,6)); fp = c.uni(-1,1,pre+(6,)); x = c.uni(-1,5,c.pick((),(4,),(2,2))); r = utils.interp(x, xp, fp); c.close(np.asarray(r).reshape((-1,)+np.shape(x)), [np.interp(x,xp,f) for f in fp.reshape(-1,6)], "interp")

def solvers(c):
    n = c.int(1,12); A = spd(c, n, (), 50.); b = c.uni(-1,1,n); want = np.linalg.solve(A,b); x0 = None if c.flip() else c.uni(-1,1,n); pc = c.flip(); M = (lambda v: v/np.diag(A)) if pc else utils.default_M; d = c.tmpdir(); kb = b.copy(); k0 = None if x0 is None else x0.copy(); c.note(n=n, start=x0 is not None, precond=pc); calls = []
    dot = utils.default_dot if c.flip() else (lambda x, y: (calls.append(1), float(np.sum(x*y)))[1])
    mk = lambda: utils.CG(lambda v: A @ v, b, x0=x0, M=M, dot=dot); s = mk(); errs = []; en = lambda x: (x-want) @ A @ (x-want); prev = en(np.zeros(n) if x0 is None else x0); e0 = max(prev,1e-3); cut = c.int(0,n-1)
    for i in range(n+4):
        if i == cut: f = os.path.join(d,"cg.hdf"); s.save(f); s = mk(); s.load(f); c.ok(int(s.i) == i, "iteration count restored")
        if s.rz < 1e-24: break
        s.step(); now = en(s.x); c.ok(now <= prev*(1+1e-6)+1e-18*e0, "error grew in a conjugate gradient step"); prev = now; c.ok(int(s.i) == i+1, "iteration count"); res = b - A @ s.x; z = M(res); c.close(float(s.err)*float(s.rz0), float(res @ z), "reported error is the preconditioned residual", rtol=1e-5, atol=1e-14)
    c.close(np.asarray(s.x), want, "conjugate gradients reach the solution in about n steps", rtol=1e-5, atol=1e-6); c.same(b, kb, "right hand side left alone"); 
    if x0 is not None: c.same(x0, k0, "starting point left alone")
    # degrees of freedom stored several times, with a dot product that counts each once
    ix = np.repeat(np.arange(n), c.rng.integers(1,4,n)); fi = np.searchsorted(ix, np.arange(n)); wt = 1/np.bincount(ix)[ix]; P = utils.CG(lambda v: A @ v, b, x0=x0, M=M); Q = utils.CG(lambda v: (A @ v[fi])[ix], b[ix], x0=None if x0 is None else x0[ix], M=lambda v: M(v[fi])[ix], dot=lambda x, y: float(np.sum(x*y*wt)))
    for i in range(min(n, 3)):
        if P.rz < 1e-16: break
        P.step(); Q.step(); c.close(np.asarray(Q.x), np.asarray(P.x)[ix], "conjugate gradients with a dot product of one's own, step %d" % (i+1), rtol=1e-6, atol=1e-7)
    ref = mk(); oth = mk(); m = c.int(1,4)
    for i in range(m):
        if oth.rz < 1e-20: break
        ref.step(); oth.step(); oth.save(os.path.join(d,"x.hdf")); oth = mk(); oth.load(os.path.join(d,"x.hdf"))
    c.same(np.asarray(oth.x), np.asarray(ref.x), "interrupted and uninterrupted iterations agree exactly")
    q = np.linalg.qr(c.rng.standard_normal((n,n)))[0]; ev = c.uni(1,9,n); S = (q*ev) @ q.T; S = 0.5*(S+S.T); want = np.linalg.solve(S,b); s = utils.Minres(lambda v: S @ v, b, x0=x0, dot=dot); pr = np.linalg.norm(b if x0 is None else b-S @ x0)
    for i in range(n+4):
        if np.abs(s.rz) < 1e-24: break
        s.step(); now = np.linalg.norm(b-S @ s.x); c.ok(now <= pr*(1+1e-6)+1e-12, "residual grew in a minres step"); pr = now
    k = 10**c.uni(-3,3); s1, s2 = [utils.Minres(lambda v: S @ v, b*q_, dot=dot) for q_ in (1., k)]
    for i in range(min(2,n)):
        if np.abs(s1.rz) < 1e-12: break
        s1.step(); s2.step(); c.close(float(s2.err), float(s1.err), "the error minres reports does not depend on the units", rtol=1e-6, scale=max(1e-6, abs(float(s1.err))))
    c.close(np.asarray(s.x), want, "minres reaches the solution in about n steps", rtol=1e-5, atol=1e-6); c.same(b, kb, "right hand side left alone by minres")
    if x0 is not None: c.same(x0, k0, "starting point left alone by minres")

H, KB, CL = 6.62607015e-34, 1.380649e-23, 299792458.
def spectra(c):
    f = c.uni(20e9,900e9,c.pick((),(5,))); T = c.pick(utils.T_cmb, c.uni(1,40)); c.note(T=T); x = H*f/(KB*T); I = 2*H*f**3/CL**2/np.expm1(x)*1e26; c.close(utils.planck(f, T), I, "planck spectrum", rtol=1e-4); c.close(utils.iplanck_T(f, utils.planck(f,T)), T*np.ones(np.shape(f)), "temperature from intensity", rtol=1e-8)
    d = T*1e-4; num = (2*H*f**3/CL**2*1e26)*(1/np.expm1(H*f/(KB*(T+d)))-1/np.expm1(H*f/(KB*(T-d))))/(2*d); c.close(utils.dplanck(f,T), num, "derivative of the planck spectrum", rtol=1e-4); be = c.uni(0,2); c.close(utils.graybody(f,T,be), I*f**be, "graybody", rtol=1e-4)
    g = num*T*(x/np.tanh(x/2)-4); c.close(utils.tsz_spectrum(f,T), g, "tsz spectrum", rtol=5e-4, scale=np.max(np.abs(num*T))); om = c.uni(1e-8,1e-6); c.close(utils.flux_factor(om, f, T), num*om, "flux factor", rtol=1e-4); c.close(utils.noise_flux_factor(om, f, T), num*(2*om)**0.5, "noise flux factor", rtol=1e-4)
    s = c.uni(0.5,5)*utils.arcmin; r = np.linspace(0,8*s,401); c.close(utils.calc_beam_area([r,np.exp(-0.5*(r/s)**2)]), 2*np.pi*s**2, "beam area", rtol=1e-4)
    # beams
    sig = np.sort(c.uni(0.5,5,2))[::-1]; phi = c.uni(0,np.pi); ir = utils.compress_beam(sig, phi); v = c.uni(-3,3,2); u = [np.cos(phi)*v[0]+np.sin(phi)*v[1], -np.sin(phi)*v[0]+np.cos(phi)*v[1]]; c.close(ir[0]*v[0]**2+ir[1]*v[1]**2+2*ir[2]*v[0]*v[1], (u[0]/sig[0])**2+(u[1]/sig[1])**2, "elliptical beam", rtol=1e-8); sg, ph = utils.expand_beam(ir); c.close(sg, sig, "beam widths recovered", rtol=1e-7); 
    if sig[0]/sig[1] > 1.05: c.ok(abs((ph-phi+np.pi/2)%np.pi-np.pi/2) < 1e-6, "beam angle recovered")
    lm = c.int(200,2000); l = np.arange(lm+1); bs = c.uni(0.2,1)*60/lm; bm = np.exp(-0.5*(l*bs)**2)*c.pick(1.,c.uni(0.5,3)); cut = c.pick(1e-2,1e-3,0.1); keep = bm.copy(); nl = c.pick(None, lm+1, c.int(lm//2,2*lm)); nrm = c.flip(); r = utils.regularize_beam(bm, cut, nl, normalize=nrm); c.same(bm, keep, "regularize_beam left its input alone"); N = nl or lm+1; ref = keep/(keep.max() if nrm else 1); c.ok(len(r) == N, "length of the regularized beam")
    hi = np.where(ref <= ref.max()*cut)[0]; lc = hi[0] if len(hi) else lm+1
    k = min(lc, N, lm); c.close(r[:k], ref[:k], "beam kept where it is well above the cutoff", rtol=1e-10); c.ok(np.all(r > 0) and np.all(np.diff(r) <= 1e-12*ref.max()), "regularized beam falls off without reaching zero")
    if lc < min(N,lm)-3: q = np.arange(lc+1,N); c.close(r[q], ref.max()*cut*(q/lc)**(2*np.log(cut)), "extrapolation", rtol=1e-8)
    f = c.uni(-0.5,0.5,5); c.close(utils.pixwin_1d(f), np.sinc(f), "pixel window"); c.close(utils.pixwin_1d(f,1), np.sinc(f)**2/((2+np.cos(2*np.pi*f))/3), "linear pixel window"); c.close(utils.pixwin_1d(f,None), np.ones(5), "no pixel window")
    x = c.uni(0,30,5); xs, ws = np.polynomial.legendre.leggauss(200); ll = 1+xs; want = [np.sum(ws*ll*utils.lairy(ll/2)*4*np.pi*scipy.special.j0(ll*r))/(2*np.pi) for r in x]; c.close(utils.airy(x), want, "airy beam and its transform", atol=2e-4); c.close(utils.airy(x), (2*scipy.special.j1(x)/x)**2, "airy beam", atol=1e-9); c.ok(abs(utils.airy(np.zeros(1))[0]-1) < 1e-12 and abs(utils.lairy(0.)-1) < 1e-12 and utils.lairy(1.5) == 0, "airy limits")
    # transforms of profiles
    s = 10**c.uni(-4,-2); ht = utils.RadialFourierTransform(**c.pick({}, {"lrange":[0.1/s*1e-3,1e5/s]}, {"rrange":[s*1e-5,s*1e4]}, {"n":600,"pad":200})); r, lv = ht.unpad(ht.r, ht.l); c.close(ht.r*ht.l[::-1], np.ones(len(ht.r)), "radii are inverse multipoles")
    g = lambda q: np.exp(-0.5*(q/s)**2); G = lambda q: 2*np.pi*s**2*np.exp(-0.5*(q*s)**2); inp = g if c.flip() else g(ht.r); F = ht.real2harm(inp); c.close(ht.unpad(F), G(lv), "transform of a gaussian", scale=2*np.pi*s**2, rtol=2e-3); c.close(ht.unpad(ht.harm2real(F)), g(r), "back again", scale=1, rtol=2e-3); c.close(ht.unpad(ht.harm2real(G if c.flip() else G(ht.l))), g(r), "inverse transform of a gaussian", scale=1, rtol=2e-3); c.close(ht.unpad(ht.real2harm(np.array([g(ht.r),2*g(ht.r)]))), np.array([G(lv),2*G(lv)]), "transform along the last axis", scale=2*np.pi*s**2, rtol=2e-3); i = c.int(0,len(ht.l)-1); c.close([ht.lind(ht.l[i]), ht.rind(ht.r[i])], [i,i], "sample index", atol=1e-6); lq, bq = utils.profile_to_tform_hankel(g); c.close(bq, G(lq), "harmonic profile", scale=2*np.pi*s**2, rtol=2e-3)
    lm = c.int(5,60); bl = c.uni(-1,1,lm+1); th = c.uni(0,np.pi,4); w = sum(bl[i]*(2*i+1)/(4*np.pi)*scipy.special.eval_legendre(i,np.cos(th)) for i in range(lm+1)); c.close(utils.tform_to_profile(bl, th), w, "profile from harmonics", scale=np.sum(np.abs(bl)*(2*np.arange(lm+1)+1)), rtol=1e-9); bl = np.abs(bl); c.close(utils.tform_to_profile(bl, np.zeros(1), normalize=True), [1.], "normalized profile")
    a = c.uni(0.5,2); fl = utils.FFTLog(n=512, pad=256, **c.pick({"xrange":[1e-5,1e3]}, {"krange":[1e-3,1e5]})); x, kk = fl.unpad(fl.x, fl.k); c.ok(np.all(np.diff(x) > 0) and np.all(np.diff(kk) > 0), "increasing samples"); F = fl.fft((lambda q: q*np.exp(-a*q)) if c.flip() else fl.x*np.exp(-a*fl.x)); w = 1/(a+1j*kk)**2; c.close(fl.unpad(F), w, "logarithmic fourier transform", scale=1/a**2, rtol=3e-3); c.close(fl.unpad(fl.ifft(F)), x*np.exp(-a*x), "inverse logarithmic fourier transform", scale=1/a, rtol=3e-3); c.close([x[0],x[-1],kk[0],kk[-1]], [1e-5,1e3,1e-3,1e5], "range of the samples", rtol=1e-6)

def tsz(c):
    kw = c.pick({}, {"xc":c.uni(0.3,0.8)}, {"beta":-c.uni(4.2,6)}, {"gamma":-c.uni(0.1,0.5),"alpha":c.uni(0.8,1.2)}); x = 10**c.uni(-3,0.7,4); c.note(kw=kw); ex = utils.tsz_profile_los_exact(x, **kw); P = dict(xc=0.497,alpha=1.,beta=-4.65,gamma=-0.3); P.update(kw); raw = lambda r: (r/P["xc"])**P["gamma"]*(1+(r/P["xc"])**P["alpha"])**((P["beta"]-P["gamma"])/P["alpha"]); c.close(utils.tsz_profile_raw(x,**kw), raw(x), "pressure profile", rtol=1e-9)
    t = np.linspace(np.log(1e-9),np.log(1e5),40001); z = np.exp(t); w = [2*np.trapezoid(raw((z**2+q**2)**0.5)*z, t) for q in x]
    for i in range(4): c.close(ex[i], w[i], "integral along the line of sight", rtol=1e-3, atol=1e-7); c.close(utils.tsz_profile_los(x[i], **kw), w[i], "interpolated line of sight profile", rtol=3e-3, atol=3e-6)
    if c.flip(0.2): xx = np.array([0.5,1.3,2])*1e-6; q = utils.tsz_profile_los(xx, x1=1e-6, **kw); c.close(q[0], q[1], "flat core inside the tabulated range", rtol=0.02); xx = np.array([40,55.,80]); c.close(utils.tsz_profile_los(xx, x2=50, **kw)/utils.tsz_profile_los_exact(xx, **kw), np.ones(3), "profile outside the tabulated range", rtol=0.05)
    c.close(np.asarray(utils.tsz_profile_los(x, cache={}, **kw)), np.asarray(utils.tsz_profile_los(x, **kw)), "does not depend on the cache", rtol=1e-9)
    r2 = c.uni(0.5,5)*utils.arcmin; l = np.array([1,300,3000,10000.]); b = utils.tsz_tform(r2, l, **kw); t = np.linspace(np.log(1e-6),np.log(3e3),60001); r = np.exp(t)*r2; pr = np.interp(t, np.linspace(t[0],t[-1],3000), np.log(utils.tsz_profile_los(np.exp(np.linspace(t[0],t[-1],3000)),**kw)))
    w = [np.trapezoid(2*np.pi*r*r*np.exp(pr)*scipy.special.j0(q*np.minimum(r,1e4/q)), t) for q in l[:3]]; c.close(b[:3], w, "harmonic cluster profile", rtol=1.5e-2, scale=abs(w[0])); c.ok(utils.tsz_tform(r2, lmax=20, **kw).shape == (21,), "multipoles up to lmax"); c.close(utils.tsz_tform(r2, lmax=20, **kw)[1], b[0], "default multipoles", rtol=1e-9)

def sky(c):
    # polygons
    nv = c.int(3,7); ang = np.sort(c.uni(0,2*np.pi,nv)); rad = c.uni(0.3,1,nv); cen = c.uni(-1,1,2); poly = np.stack([np.cos(ang)*rad,np.sin(ang)*rad],-1)+cen; pts = c.uni(-2,2,c.pick((2,),(6,2),(3,4,2))); c.note(nv=nv, pts=pts.shape)
    def inside(p, poly):
        wn = 0.
        for i in range(len(poly)): a, b = poly[i-1]-p, poly[i]-p; wn += np.arctan2(a[0]*b[1]-a[1]*b[0], a @ b)
        return abs(round(wn/(2*np.pi)))%2 == 1
    r = np.asarray(utils.point_in_polygon(pts, poly)); c.ok(r.shape == pts.shape[:-1], "shape of the answer"); w = np.array([inside(p, poly) for p in pts.reshape(-1,2)]).reshape(pts.shape[:-1]); c.same(r.astype(bool), w, "point in polygon"); many = poly+c.uni(-1,1,(6,1,2)); p1 = c.uni(-2,2,2); c.same(np.asarray(utils.point_in_polygon(p1, many)).astype(bool), np.array([inside(p1,q) for q in many]), "point in many polygons")
    R = c.uni(0.05,0.6); cd = np.array([c.uni(-np.pi,np.pi), c.uni(-0.6,0.6)]); sp = cd+R*np.stack([np.cos(ang)*rad,np.sin(ang)*rad],-1); q = cd+c.uni(-1,1,c.pick((2,),(5,2),(2,3,2)))
    rect = lambda p: np.stack([np.cos(p[...,1])*np.cos(p[...,0]),np.cos(p[...,1])*np.sin(p[...,0]),np.sin(p[...,1])],-1); V = rect(sp); seg = []
    for i in range(nv): a, b = V[i], V[(i+1)%nv]; om = np.arccos(np.clip(a@b,-1,1)); t = np.linspace(0,1,2001)[:,None]; seg.append((np.sin((1-t)*om)*a+np.sin(t*om)*b)/np.sin(om))
    seg = np.concatenate(seg); ds = np.arccos(np.clip(rect(q) @ seg.T,-1,1)).min(-1); c.close(np.asarray(utils.poly_edge_dist(q, sp)), ds, "distance from the edges of a polygon", atol=2e-3, rtol=0)
    # overlaps of disks
    R = c.uni(0.01,1.2); d = c.uni(0,2.2)*R; R1 = 5*R; d1 = c.uni(0,2.2)*R1; w = 4*scipy.integrate.quad(lambda x: np.sqrt(max(R1*R1-x*x,0)), min(d1/2,R1), R1)[0]; c.close(float(utils.disk_overlap(d1,R1)), w, "overlap of flat disks", atol=1e-6*R1**2)
    def fint(th): return 2*np.sin(th)*np.arccos(np.clip((np.cos(R)-np.cos(th)*np.cos(d))/max(np.sin(th)*np.sin(d),1e-300),-1,1))
    w = scipy.integrate.quad(fint, 0, R, limit=500, points=[abs(R-d)] if 0 < abs(R-d) < R else None)[0]; c.close(np.asarray(utils.disk_overlap_curved(np.array([d]), R))[0], w, "overlap of disks on the sphere", atol=1e-5*R**2); c.close(np.asarray(utils.disk_overlap_curved(np.array([0.,2*R+0.1,1e-12]),R)), [2*np.pi*(1-np.cos(R)),0,2*np.pi*(1-np.cos(R))], "overlap limits", atol=1e-9)
    # matching catalogues
    n1, n2 = c.int(0,8), c.int(0,8); mode = c.pick("all","closest","first"); co = c.pick("radec","phitheta","cartesian","auto"); nd = c.pick(2,3) if co == "cartesian" else 2; rm = c.uni(0.02,0.5)
    if co == "phitheta": P = lambda n: np.stack([c.uni(-4,4,n),c.uni(0,np.pi,n)],-1)
    elif co == "cartesian": P = lambda n: c.uni(-0.5,0.5,(n,nd))
    else: P = lambda n: np.stack([np.pi+c.uni(-0.3,0.3,n)-2*np.pi*c.rng.integers(0,2,n), c.uni(-0.3,0.3,n)],-1)
    a, b = P(n1), P(n2); c.note(match=(n1,n2,mode,co))
    if n1 and n2:
        with c.keeps("crossmatch", a, b): r = utils.crossmatch(a, b, rm, mode=mode, coords=co)
        if co == "cartesian": D = np.sqrt(((a[:,None]-b[None])**2).sum(-1))
        else: z = (lambda p: rect(np.stack([p[...,0],np.pi/2-p[...,1]],-1))) if co == "phitheta" else rect; x, y = z(a), z(b); D = 2*np.arcsin(np.clip(np.sqrt(((x[:,None]-y[None])**2).sum(-1))/2,0,1))
        al = [(i,j) for i in range(n1) for j in range(n2) if D[i,j] <= rm]
        if np.all(np.abs(D-rm) > 1e-9):
            if mode == "all": c.ok(sorted((int(i),int(j)) for i, j in r) == al, "all close pairs")
            else:
                seq = al if mode == "first" else sorted(al, key=lambda p: D[p]); u, v, w = set(), set(), []
                for i, j in seq:
                    if i in u or j in v: continue
                    u.add(i); v.add(j); w.append((i,j))
                c.ok(sorted((int(i),int(j)) for i, j in r) == sorted(w), "unique matches (%s)" % mode)
    # sweeps
    per = c.int(40,200); N = c.int(2*per,6*per); ph = c.int(0,per-1); tt = np.arange(N)+ph; az = c.uni(-2,2)+c.uni(0.3,2)*(1-4*np.abs(((tt/per)%1)-0.5)); sw = utils.find_sweeps(az); c.ok(sw[0,0] == 0 and sw[-1,1] == N and np.all(sw[1:,0] == sw[:-1,1]) and np.all(sw[:,1] > sw[:,0]), "sweeps follow each other")
    for i, (x, y) in enumerate(sw):
        s = np.sign(np.diff(az[x:y])); s = s[1:-1]; c.ok(len(s) == 0 or abs(s.sum()) >= len(s)-1, "each sweep goes one way")
    c.ok(abs(len(sw)-(N/(per/2))) <= 3.01, "number of sweeps")

MONITORS = [("stats", stats, 2000, 16000), ("linalg", linalg, 2000, 16000), ("solvers", solvers, 1000, 8000), ("spectra", spectra, 1000, 8000), ("tsz", tsz, 32, 200), ("sky", sky, 1200, 8000)]

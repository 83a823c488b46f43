"""Spherical harmonics from their definition (explicit Wigner-d sums), independent of ducc and healpy."""
import numpy as np
from math import factorial as F, lgamma

def wigner_d(l, m, n, th):
    """d^l_{mn}(theta), explicit sum"""
    th = np.asarray(th, float); c, s = np.cos(th/2), np.sin(th/2)
    pre = (F(l+m)*F(l-m)*F(l+n)*F(l-n))**0.5; out = np.zeros(th.shape)
    for k in range(max(0, n-m), min(l+n, l-m)+1):
        out = out + (-1)**(m-n+k)/(F(l+n-k)*F(k)*F(m-n+k)*F(l-m-k)) * c**(2*l+n-m-2*k) * s**(m-n+2*k)
    return pre*out

def sYlm(s, l, m, th, ph):
    if l < abs(s) or l < abs(m): return np.zeros(np.shape(th), complex)
    return (-1)**s*((2*l+1)/(4*np.pi))**0.5*wigner_d(l, m, -s, th)*np.exp(1j*m*ph)

def synth(alms, lm, spin, dec, ra):
    """alms: [1 or 2, n] coefficients with (l,m) given by lm[n,2], m>=0, of a real field. Returns [1 or 2, npos]."""
    th, ph = np.pi/2-np.asarray(dec, float), np.asarray(ra, float); n = 1 if spin == 0 else 2
    out = np.zeros((n,)+th.shape); ex = [np.exp(1j*m*ph) for m in range(int(lm[:,1].max())+1)]
    for i, (l, m) in enumerate(lm):
        l, m = int(l), int(m)
        if l < abs(spin): continue
        if spin == 0:
            y = ((2*l+1)/(4*np.pi))**0.5*wigner_d(l, m, 0, th); t = alms[0,i] if m else alms[0,i].real
            out[0] += (1 if m == 0 else 2)*(t*ex[m]).real*y
        else:
            N = ((2*l+1)/(4*np.pi))**0.5*(-1)**spin
            yp = N*wigner_d(l, m, -spin, th); ym = N*(-1)**(2*spin)*wigner_d(l, m, spin, th)
            # (Q +- iU) = -sum_{lm} (E +- iB) {+-s}Y_lm over all m; combined for +-m of real fields
            E, B = alms[0,i], alms[1,i]
            if m == 0: E, B = E.real, B.real
            f = 1 if m == 0 else 2
            W, X = (yp+(-1)**spin*ym)/2, (yp-(-1)**spin*ym)/2
            sg = -1
            out[0] += sg*f*((E*W+1j*B*X)*ex[m]).real
            out[1] += sg*f*((B*W-1j*E*X)*ex[m]).real
    return out

def grad(alm, lm, dec, ra, eps=1e-5):
    """(d/ddec, 1/cos(dec) d/dra) of the scalar field"""
    f = lambda d, r: synth(alm[None], lm, 0, d, r)[0]
    dd = (8*(f(dec+eps, ra)-f(dec-eps, ra))-(f(dec+2*eps, ra)-f(dec-2*eps, ra)))/(12*eps)
    # analytic in ra
    th = np.pi/2-np.asarray(dec, float); dr = np.zeros(th.shape)
    for i, (l, m) in enumerate(lm):
        if m == 0: continue
        y = ((2*l+1)/(4*np.pi))**0.5*wigner_d(int(l), int(m), 0, th)
        dr += 2*(1j*m*alm[i]*np.exp(1j*m*np.asarray(ra))).real*y
    return np.array([dd, dr/np.cos(dec)])

def ymat(lm, spin, pos, deriv=False):
    """Explicit synthesis operator as a function pair (Y, YT): Y maps [ncomp,n] alms to [ncomp,npos]; YT is its adjoint under
    the inner product that counts m>0 twice (as harmonic analysis with unit weights)."""
    th, ph = np.pi/2-np.asarray(pos[0], float), np.asarray(pos[1], float); n = len(lm); N = len(th)
    e = np.exp(1j*np.outer(lm[:,1], ph)); f = np.where(lm[:,1] == 0, 1, 2)[:,None]
    if deriv:
        eps = 1e-4
        Lm = lambda t: np.array([((2*l+1)/(4*np.pi))**0.5*wigner_d(int(l), int(m), 0, t) for l, m in lm])
        L = Lm(th); D = -(8*(Lm(th+eps)-Lm(th-eps))-(Lm(th+2*eps)-Lm(th-2*eps)))/(12*eps)
        K = np.array([D*e, 1j*lm[:,1][:,None]*L/np.sin(th)*e]) # [2,n,N]
        def Y(a): return np.einsum("n,cnp->cp", a[0]*f[:,0], K).real
        def YT(m): r = np.einsum("cp,cnp->n", m, K.conj())[None]; return fix0(r, lm)
        return Y, YT
    if spin == 0:
        L = np.array([((2*l+1)/(4*np.pi))**0.5*wigner_d(int(l), int(m), 0, th) for l, m in lm])*e
        def Y(a): return (np.einsum("cn,np->cp", a*f[:,0], L)).real
        def YT(m): return fix0(np.einsum("cp,np->cn", m, L.conj()), lm)
        return Y, YT
    W = np.zeros((n,N)); X = np.zeros((n,N))
    for i, (l, m) in enumerate(lm):
        l, m = int(l), int(m)
        if l < spin: continue
        k = ((2*l+1)/(4*np.pi))**0.5*(-1)**spin; yp = k*wigner_d(l, m, -spin, th); ym = k*wigner_d(l, m, spin, th)
        W[i] = -(yp+(-1)**spin*ym)/2; X[i] = -(yp-(-1)**spin*ym)/2
    W = W*e; X = X*e
    def Y(a):
        E, B = fix0(a, lm)*f[:,0]
        return np.array([(E@W+1j*(B@X)).real, (B@W-1j*(E@X)).real])
    def YT(m):
        Q, U = m
        return fix0(np.array([W.conj()@Q+1j*(X.conj()@U), -1j*(X.conj()@Q)+W.conj()@U]), lm)
    return Y, YT
def fix0(a, lm):
    a = np.array(a, complex); s = lm[:,1] == 0; a[...,s] = a[...,s].real; return a

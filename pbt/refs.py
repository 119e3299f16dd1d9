"""Reference models, written from the documented equations and independent of the code under test."""

import numpy as np
import scipy.signal


def fir(b, x, s=None):
    """y[n] = sum b[i] x[n-i]; s: initial recent inputs, newest first.  Returns y and a bound of the magnitude of terms."""
    b, x = np.asarray(b), np.asarray(x)
    if s is None:
        s = np.zeros(0)
    s = np.asarray(s)
    n = max(len(b), len(s))
    h = np.concatenate((np.asarray(s)[::-1], np.zeros(0)))  # oldest first
    pad = np.concatenate((np.zeros(max(0, len(b) - len(h))), h, x))
    y, m = np.convolve(pad, b), np.convolve(np.abs(pad), np.abs(b))
    k = len(pad) - len(x)
    return y[k : k + len(x)], m[k : k + len(x)]


def iir(a, b, x):
    """y[n] = sum_{i>=1} a[i] y[n-i] + sum b[i] x[n-i] from rest, in extended precision, and a rigorous running error
    bound of a double precision direct form II evaluation (in units of machine epsilon)."""
    cplx = np.iscomplexobj(a) or np.iscomplexobj(b) or np.iscomplexobj(x)
    L = np.clongdouble if cplx else np.longdouble
    n = max(len(a), len(b))
    a = np.concatenate((a, np.zeros(n - len(a)))).astype(L)
    b = np.concatenate((b, np.zeros(n - len(b)))).astype(L)
    xs = np.asarray(x).astype(L)
    N = len(xs)
    y, w, g, u = np.zeros(N, L), np.zeros(N, L), np.zeros(N, L), np.zeros(N, np.longdouble)
    ra, rb, aa, ab = a[1:], b, np.abs(a[1:]), np.abs(b)
    v = np.zeros(N, np.longdouble)
    yb = np.zeros(n - 1, L)
    xb = np.zeros(n, L)
    wb = np.zeros(n, L)
    gb = np.zeros(n - 1, L)
    for k in range(N):
        xb[1:] = xb[:-1]
        xb[0] = xs[k]
        t = rb.dot(xb) + (ra.dot(yb) if n > 1 else 0)
        y[k] = t
        if n > 1:
            yb[1:] = yb[:-1]
            yb[0] = t
        ww = xs[k] + (ra.dot(wb[: n - 1]) if n > 1 else 0)
        u[k] = abs(xs[k]) + (aa.dot(np.abs(wb[: n - 1])) if n > 1 else 0)
        wb[1:] = wb[:-1]
        wb[0] = ww
        w[k] = ww
        v[k] = ab.dot(np.abs(wb)) + abs(b[0]) * (aa.dot(np.abs(wb[1:])) if n > 1 else 0) + abs(b[0]) * abs(xs[k])
        gg = (1.0 if k == 0 else 0.0) + (ra.dot(gb) if n > 1 else 0)
        g[k] = gg
        if n > 1:
            gb[1:] = gb[:-1]
            gb[0] = gg
    if N > 5000:
        gf, uf = np.abs(g).astype(float), u.astype(float)
        werr = scipy.signal.fftconvolve(gf, uf)[:N]
        werr = np.maximum(werr, 0.0) + 1e-12 * werr.max()
    else:
        werr = np.convolve(np.abs(g), u)[:N]
    yerr = np.convolve(ab, werr)[:N] + v
    return y.astype(complex if cplx else float), (n + 2) * yerr.astype(float)


def analytic(x):
    """Analytic signal of a real signal: positive frequencies doubled, negative removed (by the definition of the DFT)."""
    x = np.asarray(x, float)
    n = len(x)
    X = np.fft.fft(x)
    h = np.zeros(n)
    h[0] = 1.0
    for k in range(1, n):
        h[k] = 2.0 if 2 * k < n else 1.0 if 2 * k == n else 0.0
    return np.fft.ifft(X * h)

"""Independent reference model of the tidal analysis that UTide documents.

Nothing here imports utide.  Constants come from the committed snapshot
data/constants.json.  Astronomical polynomials are evaluated in long double,
the least squares problems are set up with real cosine/sine columns (not the
complex exponentials of the code under test), spectra come from the textbook
formulas.  Conventions (tables of Codiga 2011, UTide documentation):

  scalar:  h(t) = mean + slope (t-tref) + sum F_k(t) A_k cos(phi_k(t) - g_k)
  vector:  u+iv = mean + slope (t-tref)
                  + sum F_k e^{i theta} [Lsmaj cos(phi-g) + i Lsmin sin(phi-g)]
  phi = 2 pi (V + U); V, U, F by the `phase` and `nodal` options.
"""

import json
import os

import numpy as np

LD = np.longdouble
_here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(_here, "data", "constants.json")) as _f:
    CONST = json.load(_f)

_c, _sat, _sh = CONST["const"], CONST["sat"], CONST["shallow"]
NAMES = list(_c["name"])
INDEX = {n: i for i, n in enumerate(NAMES)}
NC = len(NAMES)
FREQ = np.array([np.nan if f is None else f for f in _c["freq"]], dtype=float)
DF = np.array([np.nan if f is None else f for f in _c["df"]], dtype=float)
DOOD = np.array([[np.nan if x is None else x for x in r] for r in _c["doodson"]], float)
SEMI = np.array([np.nan if x is None else x for x in _c["semi"]], float)
IS_SHALLOW = np.isnan(DOOD[:, 0])

# shallow-water constituents as {index: [(parent index, coefficient)]}
SHALLOW = {}
for _ic, _in, _co in zip(_sh["iconst"], _sh["iname"], _sh["coef"]):
    SHALLOW.setdefault(int(_ic) - 1, []).append((int(_in) - 1, float(_co)))
# satellites as {index: [(deldood, phcorr, amprat, ilatfac)]}
SATS = {}
for _ic, _dd, _pc, _ar, _il in zip(
    _sat["iconst"], _sat["deldood"], _sat["phcorr"], _sat["amprat"], _sat["ilatfac"]
):
    SATS.setdefault(int(_ic) - 1, []).append((_dd, float(_pc), float(_ar), int(_il)))
MS_DAY = 86400000

_POLY = {
    "s": (270.434164, 13.1763965268, -0.0000850, 0.000000039),
    "h": (279.696678, 0.9856473354, 0.00002267, 0.000000000),
    "p": (334.329556, 0.1114040803, -0.0007739, -0.00000026),
    "np": (-259.183275, 0.0529539222, -0.0001557, -0.000000050),
    "pp": (281.220844, 0.0000470684, 0.0000339, 0.000000070),
}


def ms_to_days(ms):
    """Days with 1 on 0001-01-01 from (integer) milliseconds since 1970."""
    return np.asarray(ms, dtype=np.int64) / MS_DAY + 719163.0


def astro(t):
    """tau,s,h,p,np,pp in cycles (6,n) and their rates in cycles/day (6,n)."""
    t = np.atleast_1d(np.asarray(t, dtype=LD))
    d = t - LD(693595.5)
    D = d / LD(10000)
    rows, rates = [], []
    for k in ("s", "h", "p", "np", "pp"):
        a, b, c, e = (LD(x) for x in _POLY[k])
        rows.append((a + b * d + c * D * D + e * D**3) / LD(360))
        rates.append((b + 2 * c * D / LD(10000) + 3 * e * D * D / LD(10000)) / LD(360))
    tau = (t - np.floor(t)) + rows[1] - rows[0]
    dtau = LD(1) + rates[1] - rates[0]
    return np.array([tau] + rows), np.array([dtau] + rates)


def lin_freqs(tref):
    """Frequencies (cph) of all constituents at the reference time."""
    _, r = astro(tref)
    r = r[:, 0]
    out = np.empty(NC, dtype=LD)
    for k in range(NC):
        if not IS_SHALLOW[k]:
            out[k] = sum(LD(DOOD[k, i]) * r[i] for i in range(6)) / LD(24)
    for k, parts in SHALLOW.items():
        out[k] = sum(LD(co) * out[j] for j, co in parts)
    return out


def varg(t, idx, m7_wrapped=False):
    """Greenwich astronomical argument V (cycles, reduced to [0,1)) (n, len(idx))."""
    a, _ = astro(t)
    cache = {}

    def base(k):
        if k not in cache:
            cache[k] = sum(LD(DOOD[k, i]) * a[i] for i in range(6)) + LD(SEMI[k])
        return cache[k]

    out = np.empty((a.shape[1], len(idx)), dtype=float)
    for col, k in enumerate(idx):
        if k in SHALLOW:
            V = 0
            for j, co in SHALLOW[k]:
                b = base(j)
                if co != round(co):
                    if m7_wrapped:
                        # known finding: UTide drops whole cycles of the
                        # parent before multiplying by 3.5
                        tt = np.atleast_1d(np.asarray(t, dtype=float))
                        h = np.fmod(a[2], 1)
                        s = np.fmod(a[1], 1)
                        b = np.fmod(2 * ((tt % 1) + h - s), 1)
                V = V + LD(co) * b
        else:
            V = base(k)
        out[:, col] = (V - np.floor(V)).astype(float)
    return out


def nodal_fu(t, idx, lat):
    """Nodal amplitude factor and phase (cycles) (n, len(idx))."""
    a, _ = astro(t)
    if abs(lat) < 5:
        lat = 5.0 if lat >= 0 else -5.0
    sl = np.sin(np.radians(lat))
    fac = {0: 1.0, 1: 0.36309 * (1.0 - 5.0 * sl * sl) / sl, 2: 2.59808 * sl}
    n = a.shape[1]
    cache = {}

    def one(k):
        if k not in cache:
            re = np.ones(n)
            im = np.zeros(n)
            for dd, pc, ar, il in SATS.get(k, ()):
                ph = LD(dd[0]) * a[3] + LD(dd[1]) * a[4] + LD(dd[2]) * a[5] + LD(pc)
                ph = (ph - np.floor(ph)).astype(float) * 2 * np.pi
                re = re + ar * fac[il] * np.cos(ph)
                im = im + ar * fac[il] * np.sin(ph)
            cache[k] = (np.hypot(re, im), np.arctan2(im, re) / (2 * np.pi))
        return cache[k]

    F = np.empty((n, len(idx)))
    U = np.empty((n, len(idx)))
    for col, k in enumerate(idx):
        if k in SHALLOW:
            f, u = 1.0, 0.0
            for j, co in SHALLOW[k]:
                fj, uj = one(j)
                f = f * fj ** abs(co)
                u = u + co * uj
        else:
            f, u = one(k)
        F[:, col], U[:, col] = f, u
    return F, U


def columns(t, tref, names, lat, phase="Greenwich", nodal=True, m7_wrapped=False):
    """F and phi (radians), each (n, nc), for the documented options."""
    idx = [INDEX[n] for n in names]
    t = np.atleast_1d(np.asarray(t, dtype=float))
    n = len(t)
    if nodal is False:
        F, U = np.ones((n, len(idx))), np.zeros((n, len(idx)))
    elif nodal == "linear_time":
        F, U = nodal_fu(np.array([tref]), idx, lat)
        F, U = np.repeat(F, n, 0), np.repeat(U, n, 0)
    else:
        F, U = nodal_fu(t, idx, lat)
    if phase == "Greenwich":
        V = varg(t, idx, m7_wrapped)
    else:
        fr = lin_freqs(tref)[idx]
        lin = LD(24) * (t.astype(LD) - LD(tref))[:, None] * fr[None, :]
        V = (lin - np.floor(lin)).astype(float)
        if phase == "linear_time":
            V = V + varg(np.array([tref]), idx, m7_wrapped)
    return F, 2 * np.pi * (U + V)


def predict1(t, tref, names, lat, A, g, mean=0.0, slope=0.0, **kw):
    F, phi = columns(t, tref, names, lat, **kw)
    h = (F * np.asarray(A)[None, :] * np.cos(phi - np.radians(g)[None, :])).sum(axis=1)
    return h + mean + slope * (np.asarray(t, float) - tref)


def predict2(t, tref, names, lat, Lsmaj, Lsmin, theta, g, um=0.0, vm=0.0, us=0.0, vs=0.0, **kw):
    F, phi = columns(t, tref, names, lat, **kw)
    th = np.radians(theta)[None, :]
    p = phi - np.radians(g)[None, :]
    a = F * np.asarray(Lsmaj)[None, :] * np.cos(p)
    b = F * np.asarray(Lsmin)[None, :] * np.sin(p)
    u = (a * np.cos(th) - b * np.sin(th)).sum(axis=1)
    v = (a * np.sin(th) + b * np.cos(th)).sum(axis=1)
    dt = np.asarray(t, float) - tref
    return u + um + us * dt, v + vm + vs * dt


# --- parameter conversions -------------------------------------------------


def xy_of_Ag(A, g):
    A, g = np.asarray(A, float), np.radians(np.asarray(g, float))
    return A * np.cos(g), A * np.sin(g)


def xy_of_ellipse(Lsmaj, Lsmin, theta, g):
    """Cosine/sine coefficients Xu,Yu,Xv,Yv of an ellipse."""
    M, m = np.asarray(Lsmaj, float), np.asarray(Lsmin, float)
    th, g = np.radians(theta), np.radians(g)
    Xu = M * np.cos(th) * np.cos(g) + m * np.sin(th) * np.sin(g)
    Yu = M * np.cos(th) * np.sin(g) - m * np.sin(th) * np.cos(g)
    Xv = M * np.sin(th) * np.cos(g) - m * np.cos(th) * np.sin(g)
    Yv = M * np.sin(th) * np.sin(g) + m * np.cos(th) * np.cos(g)
    return Xu, Yu, Xv, Yv


def ellipse_of_xy(Xu, Yu, Xv, Yv):
    """Ellipse by singular values of [[Xu,Yu],[Xv,Yv]] (not by rotary phasors)."""
    Xu, Yu, Xv, Yv = (np.atleast_1d(np.asarray(q, float)) for q in (Xu, Yu, Xv, Yv))
    M = np.stack([np.stack([Xu, Yu], -1), np.stack([Xv, Yv], -1)], -2)
    S = np.linalg.svd(M, compute_uv=False)
    sign = np.sign(np.linalg.det(M))
    Lsmaj, Lsmin = S[:, 0], S[:, 1] * np.where(sign == 0, 1, sign)
    theta = 0.5 * np.degrees(
        np.arctan2(2 * (Xu * Xv + Yu * Yv), Xu**2 + Yu**2 - Xv**2 - Yv**2)
    )
    th = np.radians(theta)
    # along-axis component: Lsmaj cos(phi-g)
    X = Xu * np.cos(th) + Xv * np.sin(th)
    Y = Yu * np.cos(th) + Yv * np.sin(th)
    g = np.degrees(np.arctan2(Y, X))
    k = np.floor(theta / 180)
    theta, g = theta - 180 * k, g - 180 * k
    return Lsmaj, Lsmin, theta % 180, g % 360


# --- least squares ---------------------------------------------------------


class Fit:
    pass


def record_geometry(t_all, t_good, equi):
    """reference time, length of record, effective length of record (days)."""
    tt = t_all if equi else t_good
    lor = float(np.max(tt) - np.min(tt))
    n = len(tt)
    return 0.5 * float(np.min(tt) + np.max(tt)), lor, lor * n / (n - 1)


def design(t, tref, lor, names, lat, trend, infer=None, **kw):
    """Real design matrix for one scalar series: [cos..., sin..., 1, trend].

    `names` lists the directly fitted constituents (with references last);
    infer maps reference name -> [(inferred name, r, zeta_degrees)] and makes
    the exact inference columns (g_inferred = g_reference - zeta).
    """
    F, phi = columns(t, tref, names, lat, **kw)
    C, S = F * np.cos(phi), F * np.sin(phi)
    if infer:
        for k, n in enumerate(names):
            for iname, r, z in infer.get(n, ()):
                Fi, phii = columns(t, tref, [iname], lat, **kw)
                z = np.radians(z)
                C[:, k] += r * Fi[:, 0] * np.cos(phii[:, 0] + z)
                S[:, k] += r * Fi[:, 0] * np.sin(phii[:, 0] + z)
    cols = [C, S, np.ones((len(t), 1))]
    if trend:
        cols.append(((np.asarray(t, float) - tref) / lor)[:, None])
    return np.hstack(cols)


def lsq(X, y, w=None):
    """Weighted least squares by QR (minimises sum (w r)^2)."""
    if w is not None:
        X = X * w[:, None]
        y = y * w if y.ndim == 1 else y * w[:, None]
    Q, R = np.linalg.qr(X)
    try:
        return np.linalg.solve(R, Q.T @ y)
    except np.linalg.LinAlgError:
        return np.full((X.shape[1],) + y.shape[1:], np.nan)  # singular: the caller skips it by its condition


def cond(X):
    """Condition number, the larger one of the matrix as it is and with columns of equal length."""
    out = 0
    for M in (X, X / np.maximum(np.sqrt((X**2).sum(axis=0)), 1e-300)):
        s = np.linalg.svd(M, compute_uv=False)
        out = max(out, s[0] / s[-1] if s[-1] > 0 else np.inf)
    return out


# --- spectra ---------------------------------------------------------------

BANDS = np.array(
    [
        [0.00010, 0.00417],
        [0.03192, 0.04859],
        [0.07218, 0.08884],
        [0.11243, 0.12910],
        [0.15269, 0.16936],
        [0.19295, 0.20961],
        [0.23320, 0.25100],
        [0.26000, 0.29000],
        [0.30000, 0.50000],
    ]
)


def hann(n):
    return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / n)


def periodogram(x, y, dt):
    """One-sided Hann-windowed periodograms and cospectrum (even n), per cph."""
    n = len(x)
    w = hann(n)
    X = np.fft.fft((x - x.mean()) * w)[: n // 2 + 1]
    Y = np.fft.fft((y - y.mean()) * w)[: n // 2 + 1]
    two = np.full(n // 2 + 1, 2.0)
    two[0] = two[-1] = 1.0
    nrm = two * dt / (w**2).sum()
    f = np.arange(n // 2 + 1) / (n * dt)
    return f, (abs(X) ** 2) * nrm, (abs(Y) ** 2) * nrm, (np.conj(X) * Y).real * nrm


def lomb(t, x, y, f):
    """Lomb-Scargle spectra (normalised as in Scargle 1982) and cospectrum (Scargle 1989) of x and y, times in hours."""
    px, py, pxy = [], [], []
    for fk in f:
        om = 2 * np.pi * fk
        tau = np.arctan2(np.sin(2 * om * t).sum(), np.cos(2 * om * t).sum()) / (2 * om)
        c, s = np.cos(om * (t - tau)), np.sin(om * (t - tau))
        cc, ss = (c * c).sum(), (s * s).sum()
        px.append(0.5 * ((x @ c) ** 2 / cc + (x @ s) ** 2 / ss))
        py.append(0.5 * ((y @ c) ** 2 / cc + (y @ s) ** 2 / ss))
        pxy.append(0.5 * ((x @ c) * (y @ c) / cc + (x @ s) * (y @ s) / ss))
    return np.array(px), np.array(py), np.array(pxy)


class Tie(Exception):
    """Rounding decides which bin is meant: no definite expectation."""


def band_means(P, f, cfreq):
    """Mean of P per band, leaving out the bin nearest to each constituent.

    A band holds the bins from its lower edge up to and including the first
    bin at or above its upper edge (one bin more than the published band).
    """
    keep = np.ones(len(f), bool)
    if cfreq is not None:
        for fc in np.atleast_1d(cfreq):
            dist = np.abs(f - fc)
            near = np.sort(dist)[:2]
            if near[1] - near[0] < 1e-6 * (f[-1] - f[0]) / len(f):
                raise Tie
            keep[int(np.argmin(dist))] = False
    out = np.full(len(BANDS), np.nan)
    for b, (lo, hi) in enumerate(BANDS):
        if min(np.abs(f - lo).min(), np.abs(f - hi).min()) < 1e-10:
            raise Tie
        i0 = int((f < lo).sum())
        i1 = int((f < hi).sum()) + 1
        sel = np.zeros(len(f), bool)
        sel[i0:i1] = True
        if (sel & keep).any():
            out[b] = P[sel & keep].mean()
    return out


def lomb_freqs(t):
    n = len(t)
    reclen = n * (t[-1] - t[0]) / (n - 1)
    f = np.arange(1, n // 2) / reclen
    out = []
    for lo, hi in BANDS:
        if min(np.abs(f - lo).min(), np.abs(f - hi).min()) < 1e-10:
            raise Tie
        i0 = int((f < lo).sum())
        i1 = min(len(f), int((f < hi).sum()) + 1)
        if i1 - i0 > 500:
            out.append(np.linspace(f[i0], f[i1 - 1], 500))
        else:
            out.append(f[i0:i1])
    return np.hstack(out)


def band_power(t, x, y, cfreq, equi):
    """Band means of the spectra of x and y (t in days); x, y real."""
    n = len(x) // 2 * 2
    t, x, y = t[:n], x[:n], y[:n]
    if equi:
        f, px, py, pxy = periodogram(x, y, 24 * (t[1] - t[0]))
        return band_means(px, f, cfreq), band_means(py, f, cfreq), band_means(pxy, f, cfreq)
    th = t * 24
    f = lomb_freqs(th)
    w = np.interp(th, np.linspace(th.min(), th.max(), n), hann(n))
    px, py, pxy = lomb(th, (x - x.mean()) * w, (y - y.mean()) * w, f)
    dt = (th[-1] - th[0]) / (n - 1)
    nrm = 2 * dt * n / (w**2).sum()
    return band_means(px * nrm, f, cfreq), band_means(py * nrm, f, cfreq), band_means(pxy * nrm, f, cfreq)


def spectral_tie(t, cfreq, equi):
    """Would rounding of the times decide which spectral lines are used?"""
    n = len(t) // 2 * 2
    th = 24 * np.asarray(t[:n], float)
    try:
        f = np.arange(n // 2 + 1) / (n * (th[1] - th[0])) if equi else lomb_freqs(th)
        band_means(np.zeros(len(f)), f, cfreq)
    except Tie:
        return True
    return False


def power_at(bandP, cfreq, elor):
    """Noise variance attributed to each constituent."""
    out = np.zeros(len(cfreq))
    for b, (lo, hi) in enumerate(BANDS):
        out[(cfreq >= lo) & (cfreq <= hi)] = bandP[b] / (24 * elor)
    return out


# --- linear error propagation ------------------------------------------------


def prop1(X, Y, vX, vY):
    """First-order standard errors of A and g (degrees)."""
    A2 = X**2 + Y**2
    sA = np.sqrt((X**2 * vX + Y**2 * vY) / A2)
    sg = np.degrees(np.sqrt((Y**2 * vX + X**2 * vY)) / A2)
    return sA, sg


def _ell4(p):
    """Lsmaj, Lsmin, 2 theta, 2 g as smooth functions of Xu,Yu,Xv,Yv."""
    Xu, Yu, Xv, Yv = p
    ap = complex(Xu + Yv, Xv - Yu) / 2
    am = complex(Xu - Yv, Xv + Yu) / 2
    pr = ap * am
    qu = am * ap.conjugate()
    return abs(ap), abs(am), pr, qu


def prop2(Xu, Yu, Xv, Yv, vXu, vYu, vXv, vYv):
    """First-order standard errors of Lsmaj, Lsmin, theta, g (numeric Jacobian)."""
    p0 = np.array([Xu, Yu, Xv, Yv], float)
    v = np.array([vXu, vYu, vXv, vYv], float)
    scale = np.max(np.abs(p0))
    h = 1e-5 * scale
    out = np.zeros(4)
    for i in range(4):
        d = np.zeros(4)
        d[i] = h
        a = _ell4(p0 + d)
        b = _ell4(p0 - d)
        dM = ((a[0] + a[1]) - (b[0] + b[1])) / (2 * h)
        dm = ((a[0] - a[1]) - (b[0] - b[1])) / (2 * h)
        dth = np.angle(a[2] * np.conj(b[2])) / 2 / (2 * h)
        dg = np.angle(a[3] * np.conj(b[3])) / 2 / (2 * h)
        out += np.array([dM, dm, np.degrees(dth), np.degrees(dg)]) ** 2 * v[i]
    return np.sqrt(out)


def PE2(E):
    E = np.asarray(E, float)
    return 100 * E / E.sum()


# --- robust weights ----------------------------------------------------------

WEIGHTS = {
    # name: (tune default, weight of normalised residual magnitude)
    "andrews": (1.339, lambda r: np.where(r < np.pi, np.sinc(r / np.pi), 0.0)),
    "bisquare": (4.685, lambda r: np.where(r < 1, (1 - r * r) ** 2, 0.0)),
    "cauchy": (2.385, lambda r: 1 / (1 + r * r)),
    "fair": (1.400, lambda r: 1 / (1 + r)),
    "huber": (1.345, lambda r: np.where(r <= 1, 1.0, 1 / np.maximum(r, 1e-300))),
    "logistic": (1.205, lambda r: np.where(r < 1e-7, 1.0, np.tanh(r) / np.maximum(r, 1e-300))),
    "ols": (1.0, lambda r: np.ones_like(r)),
    "talwar": (2.795, lambda r: (r < 1).astype(float)),
    "welsch": (2.985, lambda r: np.exp(-(r * r))),
}

"""Robust solutions are iteratively reweighted least squares with the stated weights."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import check_coef_shape, close, recon_all, rows, solve
from core import call, need
from props import c02

ID = "C18"
EXAMPLES = {"quick": 1800, "thorough": 15000}
RULE = (
    "Random noisy record (white, red, spiky, or with a step that leaves cut-off weights nothing to fit) (one in ten with constituents hardly separated) analysed with method='robust' and drawn weight function (all nine and the "
    "default), tuning constant, tolerance and iteration limit, 1-D or 2-D. Oracle: an independent real-column "
    "implementation of the documented iteration (weights from residuals normalised by tune, leverage and median scale; "
    "stop rule), plus consistency of the reported weights, residuals and leverages with the returned solution and "
    "equivariance under scaling, adding a tide and moving the zero. Non-trivial: the weights differ from one."
)
TIE = 1e-7


@st.composite
def sparse(draw, lo=4, per=2.5):
    """Few samples for the number of parameters."""
    r = {"start": draw(gen.starts()), "step": draw(st.sampled_from([10800000, 14400000, 13000000])), "n": draw(st.integers(50, 90)),
         "kind": draw(st.sampled_from(["equi", "jitter", "subset"])), "seed": draw(gen.seeds)}
    names = draw(gen.constituents(r, lo, 13))
    r["n"] = max(30, min(r["n"], int(per * (2 * len(names) + 2))))
    td = draw(st.booleans())
    return {"rec": r, "names": names, "lat": draw(gen.lats()), "twodim": td, "p": draw(gen.params(names, td)), "opts": draw(gen.model_opts())}


@st.composite
def strategy_(draw):
    kind = draw(st.integers(0, 9))
    if kind == 5:
        c = draw(c02.crowded())
        c["rec"]["n"] = min(c["rec"]["n"], 1200)
    elif kind in (3, 8):
        # few samples for the parameters: high leverages
        c = draw(sparse())
    else:
        c = draw(gen.base_case(lo=200, hi=500, k=(1, 6), many=30))
    c["noise"] = draw(st.sampled_from(["white", "red", "spiky", "spiky", "step"]))
    c["nseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.01, 0.3, 3.0]))
    c["wf"] = draw(st.sampled_from(sorted(ref.WEIGHTS) + [None]))
    c["tune"] = draw(st.sampled_from([None, None, None, 0.8, 1.5, 3.0, 8.0]))
    c["tol"] = draw(st.sampled_from([None, None, 1e-6, 0.05]))
    c["maxit"] = draw(st.sampled_from([None, None, 1, 2, 3, 7]))
    c["conf"] = draw(st.sampled_from(["none", "linear"]))
    c["white"] = draw(st.booleans())
    c["gap"] = draw(st.sampled_from([0.0, 0.0, 0.15]))
    c["mid"] = draw(st.integers(0, 12))
    if c["noise"] == "step" and draw(st.integers(0, 2)):
        # nearly all samples lose their weight
        c["wf"] = "talwar"
        c["tune"] = draw(st.sampled_from([None, 0.8, 1.5]))
        c["maxit"] = None
        c["opts"]["trend"] = False
        c["mid"] = draw(st.integers(0, 4))
    c["still"] = draw(st.sampled_from([None, None, None, 0, 1])) if c["twodim"] else None
    c["meta"] = draw(st.sampled_from(["none", "scale", "add", "level"]))
    return c


def strategy():
    return strategy_()


def irls(X, Y, wf, tune, tol, maxit, note):
    """Documented iteration; Y is (n, 1 or 2).  Returns B, w, iterations, OLS B."""
    default, fn = ref.WEIGHTS[wf]
    tune = default if tune is None else tune
    n = len(Y)
    Q, _ = np.linalg.qr(X)
    lev = (Q**2).sum(axis=1)
    w = np.ones(n)
    prev = None
    first = None
    if wf == "ols":
        B = ref.lsq(X, Y)
        return B, w, None, B, lev
    for i in range(maxit):
        B = ref.lsq(X, Y, w)
        R = Y - X @ B
        if i == 0:
            first = B
        ms = ((w[:, None] * R) ** 2).sum() / w.sum()
        if prev is not None:
            gain = (prev[2] - ms) / prev[2]
            if abs(gain) < TIE or abs(gain - tol) < TIE:
                raise ref.Tie
            if gain < 0:
                return prev[0], prev[1], i, first, lev
            if gain < tol:
                return B, w, i + 1, first, lev
        prev = (B, w, ms)
        dev = np.sqrt(((R - np.median(R, axis=0)) ** 2).sum(axis=1))
        sigma = np.median(dev) / 0.6745
        z = np.sqrt((R**2).sum(axis=1)) / (tune * np.sqrt(1 - lev) * sigma)
        w = fn(z)
        # indicator weights: residuals at the threshold are decided by rounding
        if wf == "talwar" and np.any(np.abs(z - 1) < 1e-6):
            raise ref.Tie
        if (w > 0).sum() < X.shape[1] and not np.any((w > 0) & (w < 1e-9)):
            # nothing left to fit: the solution stays
            note.append("no weight left" if not np.any(w) else "few with weight left")
            return prev[0], prev[1], i + 1, first, lev
        if (w > 1e-6).sum() < 2 * X.shape[1] or ref.cond(X * w[:, None]) > 1e3 or w.sum() < 1e-3 * n:
            raise ref.Tie
    return prev[0], prev[1], maxit, first, lev


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    good = np.random.default_rng(c["nseed"] + 5).uniform(size=len(ms)) >= c["gap"]
    t, (tref, lor, _) = gen.geometry(c, good)
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    s = c["p"]["s"]
    if c["noise"] == "step":
        # a gauge that shifted: most residuals are far from zero
        at = np.random.default_rng(c["nseed"] + 9).uniform(0.35, 0.65)
        e = np.where(np.arange(len(t)) < at * len(t), -1.0, 1.0)
        if c.get("mid"):  # few samples between the levels
            e[np.random.default_rng(c["nseed"] + 10).integers(0, len(t), c["mid"])] = e.mean()
        x = [y + s * c["namp"] * (e + 0.02 * gen.noise(c["nseed"] + j, "white", len(t))) for j, y in enumerate(x)]
    else:
        x = [y + s * c["namp"] * gen.noise(c["nseed"] + j, c["noise"], len(t)) for j, y in enumerate(x)]
    if c.get("still") is not None:  # a current along one axis
        x[c["still"]] = np.zeros(len(t))
        rec.label("along one axis")
    names, nc = c["names"], len(c["names"])
    X = gen.model_columns(t[good], tref, lor, names, c)
    kappa = ref.cond(X)
    if 100 <= kappa < 1e7 and X.shape[0] >= 4 * X.shape[1] + 10:
        crowded(c, rec, X, x, ms, good)
        return
    if not kappa < 100 or X.shape[0] < 1.5 * X.shape[1] + 10:
        rec.label("ill-conditioned (skipped)")
        return
    Y = np.stack([y[good] for y in x], -1)
    wf = c["wf"] or "cauchy"
    tol = 0.001 if c["tol"] is None else c["tol"]
    maxit = 50 if c["maxit"] is None else c["maxit"]
    rk = {k: c[k] for k in ("tune", "tol", "maxit") if c[k] is not None}
    if c["wf"]:
        rk["weight_function"] = c["wf"]
    if c["wf"] is None and rk:
        # without a name robustfit's own default applies
        wf = "bisquare"
    over = {"robust_kw": rk} if rk else {}
    try:
        B, w, its, B0, lev = irls(X, Y, wf, c["tune"], tol, maxit, rec.labels)
    except ref.Tie:
        rec.label("decided by rounding (skipped)")
        return
    rec.label("wf=" + (c["wf"] or "default"), "2d" if td else "1d", f"iterations={its and min(its, 9)}", "conf=" + c["conf"])
    rec.nontrivial = bool(np.ptp(w) > 1e-3)
    T = gen.dt64(ms)
    dat = [np.where(good, y, np.nan) for y in x]
    kw = dict(method="robust", conf_int=c["conf"], white=c["white"], **over)
    coef = solve(c, T, *dat, **kw)
    check_coef_shape(coef, nc, td, o["trend"])
    idx = rows(coef, names)
    scale = np.abs(Y).max()
    tl = 1e-6 * scale
    close(gen.xy_of_coef(coef, idx), gen.fit_xy(B, nc), tl, f"robust coefficients ({wf})")
    gw = np.asarray(coef["weights"])
    close(gw, w, 1e-5, f"weights ({wf})")
    rf = coef["rf"]
    close(rf["w"], gw, 0, "weights of the fit")
    need(its is None or rf["iterations"] == its, lambda: f"{rf['iterations']} iterations instead of {its}")
    close(rf["leverage"], lev, 1e-7, "leverage")
    # the returned solution is the weighted least squares solution for the returned weights
    fit = np.stack(recon_all(T[good], coef), -1)
    R = Y - fit
    grad = (X * (gw**2)[:, None]).T @ R / (np.linalg.norm(X, axis=0)[:, None] * np.linalg.norm(Y - Y.mean(axis=0)) + 1e-300)
    need(np.all(np.abs(grad) < 1e-6), lambda: f"weighted residual not orthogonal to the model ({np.abs(grad).max():.3g})")
    rms = np.sqrt((R**2).sum() / len(R))
    need(abs(rf["rms_resid"] - rms) <= 1e-6 * max(rms, scale * 1e-3), lambda: f"rms_resid {rf['rms_resid']} of a fit with rms residual {rms}")
    R0 = Y - X @ B0
    rms0 = np.sqrt((R0**2).sum() / len(R))
    need(abs(rf["ols_rms_resid"] - rms0) <= 1e-6 * max(rms0, scale * 1e-3), "ols_rms_resid")
    if wf == "ols" or maxit == 1:
        plain = solve(c, T, *dat, conf_int=c["conf"], white=c["white"])
        close(gen.xy_of_coef(coef, idx), gen.xy_of_coef(plain, rows(plain, names)), 1e-9 * scale, "unit weights are OLS")
        if c["conf"] == "linear":
            f = "Lsmaj_ci" if td else "A_ci"
            a, b = np.asarray(coef[f])[idx], np.asarray(plain[f])[rows(plain, names)]
            ok = np.isfinite(b)
            need(np.array_equal(ok, np.isfinite(a)) and np.allclose(a[ok], b[ok], rtol=1e-5), "limits with unit weights are those of OLS")
    # equivariance
    if c["meta"] == "scale":
        k = 2.0 ** [7, -60, 80][c["nseed"] % 3]
        oth = solve(c, T, *[y * k for y in dat], **kw)
        close(gen.xy_of_coef(oth, rows(oth, names)) / k, gen.xy_of_coef(coef, idx), tl, "scaled data")
        close(oth["weights"], gw, 1e-5, "weights of scaled data")
    elif c["meta"] == "add":
        tide = gen.signal(dict(c, p=dict(c["p"], s=3 * s)), t, tref)
        tide = list(tide) if td else [tide]
        oth = solve(c, T, *[y + q for y, q in zip(dat, tide)], **kw)
        want = gen.xy_of_coef(coef, idx) + 3 * gen.truth_xy(c)
        close(gen.xy_of_coef(oth, rows(oth, names)), want, tl * 5, "data plus a tide")
        close(oth["weights"], gw, 1e-4, "weights of data plus a tide")
    elif c["meta"] == "level":
        # another zero of the gauge, far from the data
        R0 = Y - X @ B0
        sigma = np.median(np.sqrt(((R0 - np.median(R0, axis=0)) ** 2).sum(axis=1))) / 0.6745
        level = 2.0 ** np.round(np.log2(6e6 * sigma))
        if level < 1e-290:
            return
        lev2 = [level, -3 * level][: len(dat)]
        moved = [y + q for y, q in zip(dat, lev2)]
        oth = solve(c, T, *moved, **kw)
        close(oth["weights"], gw, 1e-4, "weights of data plus a level")
        # equal to the rounding of the moved data
        close(gen.xy_of_coef(oth, rows(oth, names)), gen.xy_of_coef(coef, idx), tl + 1e-12 * level, "data plus a level")


def crowded(c, rec, X, x, ms, good):
    """Constituents that are hardly separated: only what rounding leaves well defined."""
    rec.label("hardly separated")
    rk = {"weight_function": c["wf"]} if c["wf"] else {}
    coef = solve(c, gen.dt64(ms), *[np.where(good, y, np.nan) for y in x], method="robust", conf_int="none", **({"robust_kw": rk} if rk else {}))
    Q, _ = np.linalg.qr(X)
    close(coef["rf"]["leverage"], (Q**2).sum(axis=1), 1e-6, "leverage of a model with constituents hardly separated")
    w = np.asarray(coef["weights"], float)
    if ref.cond(X * w[:, None]) > 1e8:
        return
    rec.nontrivial = True
    # no better fit with these weights
    Y = np.stack([y[good] for y in x], -1)
    fit = np.stack(recon_all(gen.dt64(ms)[good], coef), -1)
    Q, _ = np.linalg.qr(X * w[:, None])
    R = w[:, None] * (Y - fit)
    size = np.linalg.norm(w[:, None] * Y) + 1e-300
    need(np.linalg.norm(Q.T @ R) <= 1e-5 * size, lambda: f"another parameter set fits better (by {np.linalg.norm(Q.T @ R) / size:.3g})")
    need(abs(np.sqrt((np.abs(Y - fit) ** 2).sum() / len(Y)) - coef["rf"]["rms_resid"]) <= 1e-6 * np.abs(Y).max(), "rms_resid")

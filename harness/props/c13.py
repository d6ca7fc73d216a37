"""Linearised confidence limits are first-order propagation of the residual variance."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import close, rows, solve
from core import need
from props.c18 import sparse

ID = "C13"
EXAMPLES = {"quick": 2000, "thorough": 15000}
RULE = (
    "Random noisy record (white, red, walk or spiky residual; different variances in u and v, or one of them constant), OLS or robust, linear limits with "
    "white or band-averaged residual spectrum, regular / gappy / irregular times, scalar and vector. The oracle is an "
    "independent computation: residual variance times the inverse normal matrix of the real design, rescaled by the "
    "independently computed band-averaged Hann periodogram or Lomb-Scargle spectrum, propagated to A, g or the ellipse "
    "(numerical Jacobian), times 1.96. One case in eight has hardly more samples than parameters. Non-trivial: the limits of at least one constituent are compared."
)


@st.composite
def strategy_(draw):
    few = draw(st.integers(0, 7)) == 5
    c = draw(sparse(4, draw(st.sampled_from([1.15, 1.4, 2.5])))) if few else draw(gen.base_case(lo=300, hi=620, min_hours=300, kinds=("equi", "equi", "equi", "equi", "jitter", "subset", "slight"), many=25))
    c["few"] = few
    c["method"] = draw(st.sampled_from(["ols", "ols", "ols", "robust"]))
    c["wf"] = draw(st.sampled_from(["cauchy", "huber", "fair", "logistic", "welsch", "bisquare"]))
    c["nseed"] = draw(gen.seeds)
    c["noise"] = draw(st.sampled_from(gen.NOISE))
    c["namp"] = draw(st.sampled_from([1e-3, 0.1, 1.0]))
    c["vratio"] = draw(st.sampled_from([1.0, 0.2, 3.0]))
    c["corr"] = draw(st.sampled_from([0.0, 0.8, -0.8]))
    c["white"] = draw(st.booleans())
    c["gap"] = draw(st.sampled_from([0.0, 0.0, 0.1, 0.3]))
    # the instrument deployed late or recovered early
    c["ends"] = draw(st.sampled_from([[0, 0]] * 6 + [[0.25, 0], [0, 0.25], [0.1, 0.2]])) if not few else [0, 0]
    # one component of the current exactly constant
    c["silent"] = draw(st.sampled_from([None] * 7 + [[0, 0.0], [1, 0.0], [1, 2.5]])) if c["twodim"] else None
    return c


def strategy():
    return strategy_()


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"])
    good = rng.uniform(size=len(ms)) >= c["gap"]
    if any(c.get("ends", [0])):
        # (the first and last times are kept in the record, without values)
        at = np.arange(len(ms)) / len(ms)
        good &= (at >= c["ends"][0]) & (at < 1 - c["ends"][1])
        rec.label("nothing at the ends")
    equi = r["kind"] == "equi"
    t, (tref, lor, elor) = gen.geometry(c, good)
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    s = c["p"]["s"] * c["namp"]
    e1 = gen.noise(c["nseed"], c["noise"], len(t))
    e2 = c["corr"] * e1 + np.sqrt(1 - c["corr"] ** 2) * gen.noise(c["nseed"] + 1, c["noise"], len(t))
    x[0] = x[0] + s * e1
    if td:
        x[1] = x[1] + s * c["vratio"] * e2
        if c["silent"]:
            x[c["silent"][0]] = np.full(len(t), c["silent"][1])
            rec.label("constant component")
    names, nc = c["names"], len(c["names"])
    tg = t[good]
    X, B = gen.ref_fit(c, tg, tref, lor, [y[good] for y in x])
    kappa = ref.cond(X)
    if not kappa < 200 or len(tg) < X.shape[1] + 2 or (not c.get("few") and len(tg) < 2 * X.shape[1] + 50):
        rec.label("ill-conditioned (skipped)")
        return
    robust = c.get("method") == "robust"
    over = {"method": "robust", "robust_kw": {"weight_function": c["wf"]}} if robust else {}
    coef = solve(c, gen.dt64(ms), *[np.where(good, y, np.nan) for y in x], conf_int="linear", white=c["white"], **over)
    idx = rows(coef, names)
    for f in ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if td else ("A_ci", "g_ci"):
        need(f in coef and np.asarray(coef[f]).shape == (nc,), f"missing or misshapen {f}")
    # covariance of the cosine and sine coefficients
    w = np.ones(len(tg))
    if robust:
        # the fit with the reported weights
        w = np.asarray(coef["weights"], float)
        X, B = gen.ref_fit(c, tg, tref, lor, [y[good] for y in x], w)
        if not ref.cond(X * w[:, None]) < 200:
            rec.label("ill-conditioned (skipped)")
            return
        rec.label("robust")
    Xw = X * w[:, None]
    Ninv = np.linalg.inv(Xw.T @ Xw)
    xy = gen.fit_xy(B, nc)
    res = [w * (y[good] - X @ B[:, j]) for j, y in enumerate(x)]
    # the residual variance is computed as a difference of sums of squares of the data
    cancel = 2.3e-16 * max(((w * y[good]) ** 2).sum() / max((e @ e), 1e-300) for y, e in zip(x, res) if np.ptp(y[good]) > 0) if any(np.ptp(y[good]) > 0 for y in x) else 0
    var = []
    for e in res:
        s2 = (e @ e) / (len(tg) - X.shape[1])
        var.append(np.stack([s2 * np.diag(Ninv)[:nc], s2 * np.diag(Ninv)[nc : 2 * nc]], -1))
    if not c["white"]:
        fr = ref.lin_freqs(tref)[[ref.INDEX[n] for n in names]].astype(float)
        try:
            if equi:
                full = [np.interp(t, tg, e) if not good.all() else e for e in res]
                pb = ref.band_power(t, full[0], full[-1], fr, True)
            else:
                pb = ref.band_power(tg, res[0], res[-1], fr, False)
        except ref.Tie:
            rec.label("bin decided by rounding (skipped)")
            return
        for j in range(len(res)):
            P = ref.power_at(pb[j], fr, elor)
            tot = var[j].sum(axis=1, keepdims=True)
            var[j] = np.where(tot > 0, P[:, None] * var[j] / np.where(tot > 0, tot, 1), P[:, None] * 0)
    rec.label("white" if c["white"] else "coloured", "equi" if equi else "uneven", "2d" if td else "1d", "noise=" + c["noise"])
    if c.get("few"):
        rec.label("few samples per parameter")
    n = 0
    for k, nm in enumerate(names):
        i = idx[k]
        if td:
            v4 = [var[0][k, 0], var[0][k, 1], var[1][k, 0], var[1][k, 1]]
            if not np.all(np.isfinite(v4)):
                need(not np.isfinite(coef["Lsmaj_ci"][i]), f"limit of {nm} without any residual spectrum in its band")
                continue
            M, m, _, _ = ref.ellipse_of_xy(*xy[k])
            # the ellipse parameters are not differentiable for circles and lines through zero
            if M[0] - abs(m[0]) < 0.02 * M[0]:
                continue
            # coefficients are only defined to rounding of the data
            if np.sqrt(max(v4)) < 1e-9 * np.abs(xy).max():
                continue
            w = 1.96 * ref.prop2(*xy[k], *v4)
            got = [coef[f][i] for f in ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci")]
            fs = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci")
        else:
            v2 = var[0][k]
            if not np.all(np.isfinite(v2)):
                need(not np.isfinite(coef["A_ci"][i]), f"limit of {nm} without any residual spectrum in its band")
                continue
            if np.sqrt(max(v2)) < 1e-9 * np.abs(xy).max():
                continue
            w = 1.96 * np.array(ref.prop1(xy[k, 0], xy[k, 1], v2[0], v2[1]))
            got = [coef[f][i] for f in ("A_ci", "g_ci")]
            fs = ("A_ci", "g_ci")
        n += 1
        for f, a, b in zip(fs, got, w):
            rt = (1e-3 if td else 1e-4) + 10 * cancel
            # the residual variance is a difference of sums of squares of the data
            fuzz = 0
            if td and c["silent"]:
                fuzz = 1e-7 * max(np.abs(y).max() for y in x) * (1 if f[0] == "L" else 60 / (M[0] - abs(m[0])))
            need(abs(a - b) <= rt * abs(b) + 1e-6 * max(w) + fuzz, lambda: f"{f} of {nm} is {a:.6g}, expected {b:.6g}")
    rec.nontrivial = n > 0

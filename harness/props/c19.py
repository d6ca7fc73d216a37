"""A few gross outliers do not carry a robust solution away."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import recon_all, rows, solve
from core import need

ID = "C19"
EXAMPLES = {"quick": 1600, "thorough": 12000}
RULE = (
    "Random tide plus white noise; up to 10 percent of the samples (at least one, at drawn places, in a burst, or "
    "periodic) are replaced by outliers from 20 to 1e7 noise standard deviations, on both sides or all on one side "
    "(default, cauchy, fair, huber, logistic weights; andrews, bisquare, welsch only scattered and on both sides); the rms error of the robust hindcast and of the coefficients "
    "must stay within a few standard errors of an outlier-free fit, outliers must get small weights, and white "
    "confidence limits stay near those of the clean record. Non-trivial: the ordinary least squares error is at least "
    "10 times the robust bound (the outliers matter)."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=260, hi=800, k=(1, 6), sep=1.6, many=30))
    c["nseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([1e-3, 0.05, 1.0]))
    c["frac"] = draw(st.sampled_from([0.0, 0.01, 0.03, 0.06, 0.1]))
    c["size"] = draw(st.sampled_from([20.0, 100.0, 1e3, 1e5, 1e7]))
    c["how"] = draw(st.sampled_from(["both", "both", "one", "same"]))
    c["place"] = draw(st.sampled_from(["random", "random", "burst", "ends"]))
    c["comp"] = draw(st.sampled_from(["both", "u", "v"]))
    wf = [None, None, "cauchy", "fair", "huber", "logistic"]
    if c["how"] == "both" and c["place"] == "random":
        wf += ["andrews", "bisquare", "welsch"]
    c["wf"] = draw(st.sampled_from(wf))
    return c


def strategy():
    return strategy_()


def check(c, rec):
    r, td = c["rec"], c["twodim"]
    ms = gen.times_ms(r)
    t, (tref, lor, _) = gen.geometry(c)
    s = c["p"]["s"]
    sig = s * c["namp"]
    truth = gen.signal(c, t, tref)
    truth = list(truth) if td else [truth]
    rng = np.random.default_rng(c["nseed"])
    n = len(t)
    clean = [y + sig * rng.standard_normal(n) for y in truth]
    m = max(1, int(c["frac"] * n))
    if c["place"] == "random":
        where = rng.choice(n, m, replace=False)
    elif c["place"] == "burst":
        # bursts no longer than 2 percent of the record
        m = min(m, max(1, n // 50))
        k = rng.integers(0, n - m)
        where = np.arange(k, k + m)
    else:
        m = min(m, max(2, n // 50))
        where = np.concatenate([np.arange(m // 2), n - 1 - np.arange(m - m // 2)])
    y = [q.copy() for q in clean]
    for j, q in enumerate(y):
        if td and c["comp"] != "both" and c["comp"] != "uv"[j]:
            continue
        d = np.ones(m)
        if c["how"] == "both":
            d = rng.uniform(0.5, 1.5, m) * np.where(np.arange(m) % 2, 1, -1)
            rng.shuffle(d)
        elif c["how"] == "one":
            d = rng.uniform(0.5, 1.5, m)
        q[where] += sig * c["size"] * d
    names = c["names"]
    X = gen.model_columns(t, tref, lor, names, c)
    p = X.shape[1]
    if not ref.cond(X) < 15 or n < 10 * p:
        rec.label("ill-conditioned (skipped)")
        return
    T = gen.dt64(ms)
    over = {} if c["wf"] is None else {"robust_kw": {"weight_function": c["wf"]}}
    rec.label("wf=" + str(c["wf"]), c["how"], c["place"], f"size={c['size']:g}", "2d" if td else "1d")
    coef = solve(c, T, *y, method="robust", conf_int="linear", white=True, **over)
    fit = recon_all(T, coef)
    unit = sig * np.sqrt(p / n)
    K = 10 if c["how"] == "both" else 20
    floor = 1e-9 * max(np.abs(q).max() for q in y)
    ols = solve(c, T, *y)
    eo = max(np.sqrt(np.mean((a - b) ** 2)) for a, b in zip(recon_all(T, ols), truth))
    rec.nontrivial = eo > 3 * K * unit
    for a, b in zip(fit, truth):
        e = np.sqrt(np.mean((a - b) ** 2))
        need(
            e <= K * unit + floor,
            lambda: f"robust ({c['wf']}) hindcast is off by {e / unit:.3g} standard errors (OLS: {eo / unit:.3g}) "
            f"with {m} outliers in {n}",
        )
    w = np.asarray(coef["weights"])
    need(w.shape == (n,) and np.all(w >= 0) and np.all(w <= 1 + 1e-12), "weights outside 0..1")
    if c["size"] >= 1000 and c["comp"] == "both":
        rest = np.delete(w, where)
        top = w[where].max()
        need(np.median(rest) > 3 * top, lambda: f"ordinary samples have median weight {np.median(rest):.3g}, outliers up to {top:.3g}")
        need(w[where].max() < 0.05, lambda: f"an outlier of {c['size']} sigma has weight {w[where].max():.3g}")
    cln = solve(c, T, *clean, conf_int="linear", white=True)
    i, j = rows(coef, names), rows(cln, names)
    for f in ["Lsmaj_ci"] if td else ["A_ci"]:
        ratio = np.asarray(coef[f])[i] / np.asarray(cln[f])[j]
        need(np.all(np.isfinite(ratio)), f"{f} not finite")
        if c["size"] >= 100:
            need(ratio.max() < 6 and ratio.min() > 0.15, lambda: f"{f} is {ratio.min():.3g}..{ratio.max():.3g} times that of the clean record")

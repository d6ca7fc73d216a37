"""Every well-posed request on finite data is answered with finite numbers."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import check_coef_shape, close, fields, recon, rows, series, solve
from core import call, need

ID = "C31"
EXAMPLES = {"quick": 3000, "thorough": 40000}
RULE = (
    "Degenerate and extreme but finite data (all zero, constant, ramps, a spike, steps, two levels, exact tides, "
    "quantised, 1e-300 to 1e30, one component zero or equal to the other, alternating signs, sawtooth, few distinct "
    "samples, isolated or blocked gaps) on well-conditioned models with every combination of options. The analysis and "
    "the predictions must be finite and of the documented form, least squares must still be least squares, limits must "
    "be missing or non-negative, and nothing may come from nothing. Non-trivial: every case."
)
KINDS = ["zeros", "const", "ramp", "spike", "exact", "huge", "tiny", "denormal", "quant", "step", "noise", "binary", "alternate",
         "sawtooth", "clipped", "parabola", "rare", "bigmean", "mostly", "one_tide", "burst"]


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=40, hi=300, k=(1, 5), scale=False, min_hours=60, small=25))
    c["nseed"] = draw(gen.seeds)
    c["u"] = draw(st.sampled_from(KINDS))
    c["v"] = draw(st.sampled_from(KINDS + ["zeros", "zeros", "same", "opposite"]))
    c["conf"] = draw(st.sampled_from(["none", "linear", "linear", "MC"]))
    c["white"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(["ols", "robust"]))
    c["wf"] = draw(st.sampled_from(sorted(ref.WEIGHTS) + [None]))
    c["tune"] = draw(st.sampled_from([None, None, None, 0.5, 20.0]))
    c["order"] = draw(st.sampled_from([None, "PE", "frequency", "SNR", "list"]))
    c["infer"] = draw(st.booleans()) and c["conf"] != "MC"
    c["approx"] = draw(st.booleans())
    c["gap"] = draw(st.sampled_from(["", "", "isolated", "block", "ends"]))
    c["loud"] = draw(st.booleans())
    return c


def strategy():
    return strategy_()


def degenerate(kind, c, j, t, tide):
    rng = np.random.default_rng(c["nseed"] + 17 * j)
    n = len(t)
    e = rng.standard_normal(n)
    k = np.arange(n)
    s = np.std(tide) or 1.0
    return {
        "zeros": lambda: np.zeros(n), "const": lambda: np.full(n, round(rng.uniform(-9, 9), 2)), "ramp": lambda: (t - t[0]) * 0.37,
        "spike": lambda: np.where(k == rng.integers(n), 5.0, 0.0), "exact": lambda: tide, "huge": lambda: 1e30 * (tide + 0.1 * s * e),
        "tiny": lambda: 1e-200 * (tide + 0.1 * s * e), "denormal": lambda: 1e-300 * (tide + 0.1 * s * e),
        "quant": lambda: np.round(tide / s + 0.3 * e), "step": lambda: 1.0 * (k > rng.integers(1, n - 1)), "noise": lambda: e,
        "binary": lambda: rng.integers(0, 2, n) * 1.0, "alternate": lambda: (-1.0) ** k, "sawtooth": lambda: k % 7 * 1.0,
        "clipped": lambda: np.clip(tide, -0.2 * s, 0.1 * s), "parabola": lambda: (t - t[n // 2]) ** 2,
        "rare": lambda: np.where(rng.uniform(size=n) < 0.05, e, 0.0), "bigmean": lambda: 1e9 + tide + 0.1 * s * e,
        "mostly": lambda: np.where(rng.uniform(size=n) < 0.7, 3.0, tide), "one_tide": lambda: tide + 1e-9 * s * e,
        "burst": lambda: tide + 0.1 * s * e + np.where(k % 50 < 3, 1e4 * s, 0),
    }[kind]()


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    n = len(ms)
    rng = np.random.default_rng(c["nseed"] + 1)
    good = np.ones(n, bool)
    if c["gap"] == "isolated":
        good = rng.uniform(size=n) > 0.1
    elif c["gap"] == "block":
        i = rng.integers(1, n - n // 4)
        good[i : i + n // 6] = False
    elif c["gap"] == "ends":
        good[: n // 12] = good[-(n // 15) - 1 :] = False
    t, (tref, lor, _) = gen.geometry(c, good)
    tide = gen.signal(c, t, tref)
    tide = list(tide) if td else [tide]
    x = [degenerate(c["u"], c, 0, t, tide[0])]
    if td:
        x.append({"same": lambda: x[0].copy(), "opposite": lambda: -x[0]}.get(c["v"], lambda: degenerate(c["v"], c, 1, t, tide[1]))())
    names = list(c["names"])
    infer = None
    fit = list(names)
    allnames = list(names)
    kw = {"conf_int": c["conf"], "white": c["white"], "method": c["method"], "verbose": c["loud"]}
    if c["infer"]:
        pool = [q for q in ref.NAMES if q not in names and q not in ("M7", "Z0")]
        b = pool[c["nseed"] % len(pool)]
        a = names[c["nseed"] % len(names)]
        m = 2 if td else 1
        kw["infer"] = {"inferred_names": [b], "reference_names": [a], "amp_ratios": [0.3] * m, "phase_offsets": [25.0] * m,
                       "approximate": c["approx"]}
        allnames.append(b)
        infer = b
    X = gen.model_columns(t[good], tref, lor, fit, c)
    if not ref.cond(X) < 1e3 or good.sum() < 2 * X.shape[1] + 10:
        rec.label("ill-conditioned (skipped)")
        return
    if c["method"] == "robust":
        rk = {k: v for k, v in (("weight_function", c["wf"]), ("tune", c["tune"])) if v is not None}
        if rk:
            kw["robust_kw"] = rk
    order = "PE" if c["order"] == "SNR" and c["conf"] == "none" else c["order"]
    if order == "list":
        order = [allnames[i] for i in rng.permutation(len(allnames))]
    if order:
        kw["order_constit"] = order
    rec.nontrivial = True
    rec.label("u=" + c["u"], "2d, v=" + c["v"] if td else "1d", c["method"], "conf=" + c["conf"], "infer" if infer else "plain")
    T = gen.dt64(ms)
    dat = [np.where(good, y, np.nan) for y in x]
    coef = solve(c, T, *dat, **kw)
    check_coef_shape(coef, len(allnames), td, o["trend"])
    idx = rows(coef, allnames)
    lim = max(np.abs(y[good]).max() for y in x)
    top = np.abs(gen.xy_of_coef(coef, idx)).max()
    need(top <= 1e4 * lim, lambda: f"coefficients of up to {top} from data of at most {lim}")
    for f in fields(coef) if c["conf"] != "none" else []:
        ci = np.asarray(coef[f + "_ci"])
        need(ci.shape == (len(allnames),) and not np.any(ci < 0), lambda: f"{f}_ci is {ci}")
    if c["conf"] != "none":
        need(not np.any(np.asarray(coef["SNR"]) < 0), "negative signal-to-noise ratio")
    # predictions
    S = series(recon(T, coef, min_SNR=0))
    for y, q in zip(S, x):
        need(np.all(np.isfinite(y)), "prediction is not finite")
        need(np.abs(y[good]).max() <= 1e4 * lim, "prediction out of proportion to the data")
    for y in series(recon(T, coef)) + series(recon(T, coef, min_SNR=5, min_PE=1, verbose=c["loud"])):
        need(np.all(np.isfinite(y)), "prediction with filters is not finite")
    # nothing from nothing
    for j, q in enumerate(x):
        if np.all(q[good] == 0):
            need(np.abs(S[j]).max() <= 1e-12 * lim, f"tide of {np.abs(S[j]).max()} in a component that is zero throughout")
    w = np.asarray(coef["weights"])
    need(w.shape == (int(good.sum()),) and np.all(np.isfinite(w)) and np.all((w >= 0) & (w <= 1 + 1e-12)) and np.any(w > 0), "weights")
    # least squares whatever the data
    if not infer and lim > 1e-290:
        scaled = [q[good] / lim for q in x]
        Y = np.stack(scaled, -1)
        fitted = np.stack([y[good] / lim for y in S], -1)
        R = Y - fitted
        g = (X * (w**2)[:, None]).T @ R / (np.linalg.norm(X, axis=0)[:, None] * np.sqrt(len(Y)))
        need(np.abs(g).max() < 1e-6, lambda: f"(weighted) residual not orthogonal to the model: {np.abs(g).max():.3g}")
        if c["method"] == "ols":
            B = ref.lsq(X, Y)
            close(fitted, X @ B, 1e-7, "least-squares fit relative to the largest value")

"""Confidence limits cover the truth at the stated rate (white noise)."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import angle_diff, fields, rows, solve
from core import need
from props.c18 import sparse

ID = "C15"
EXAMPLES = {"quick": 240, "thorough": 4000}
BATCH = 20
RULE = (
    "A drawn configuration (record, constituents, options, linear or Monte Carlo limits, white spectrum, scalar or "
    "vector with its own noise level per component, optional exact inference) is simulated (every sixth with two to four samples per parameter) with 24-80 drawn "
    "realisations of Gaussian white noise; the errors of all parameters against the known truth, divided by the "
    "standard errors (limit/1.96), are pooled. Non-trivial: at least 300 normalised errors pooled."
)


@st.composite
def strategy_(draw):
    short = draw(st.integers(0, 5)) == 4
    c = draw(sparse(9, draw(st.sampled_from([1.45, 1.9])))) if short else draw(gen.base_case(lo=250, hi=420, k=(3, 7), min_hours=300, scale=True))
    c["nseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.05, 0.2, 0.5]))
    c["vratio"] = draw(st.sampled_from([1.0, 1.0, 0.4]))
    c["conf"] = draw(st.sampled_from(["linear", "linear", "MC"]))
    c["infer"] = draw(st.integers(0, 3)) == 0 and not c["twodim"] and c["conf"] == "linear"
    c["gap"] = draw(st.sampled_from([0.0, 0.2]))
    if short:
        c.update(short=True, namp=0.05, gap=0.0, infer=False)
    return c


def strategy():
    return strategy_()


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"])
    good = rng.uniform(size=len(ms)) >= c["gap"]
    t, (tref, lor, _) = gen.geometry(c, good)
    # keep away from small amplitudes and near-circular ellipses, where the
    # limits are first-order only
    p = dict(c["p"])
    if td:
        p["ratio"] = [max(-0.6, min(0.6, q)) for q in p["ratio"]]
        p["Lsmaj"] = [max(1.0, q) for q in p["Lsmaj"]]
    else:
        p["A"] = [max(1.0, q) for q in p["A"]]
    c = dict(c, p=p)
    s = p["s"]
    X = gen.model_columns(t[good], tref, lor, c["names"], c)
    sig = np.sqrt(np.diag(np.linalg.inv(X.T @ X)).max()) * c["namp"] if ref.cond(X) < 20 else np.inf
    if not sig < 0.08:
        rec.label("poorly determined (skipped)")
        return
    names = list(c["names"])
    over = {"conf_int": c["conf"], "white": True}
    h = gen.signal(c, t, tref)
    h = list(h) if td else [h]
    truth = {f: (np.array(p["Lsmaj"]) * s if f == "Lsmaj" else np.array(p["Lsmaj"]) * np.array(p["ratio"]) * s if f == "Lsmin"
                 else np.array(p["A"]) * s if f == "A" else np.array(p[f])) for f in (["Lsmaj", "Lsmin", "theta", "g"] if td else ["A", "g"])}
    if c["infer"]:
        cand = [q for q in ("H1", "PI1", "T2") if q not in names][0]
        over["infer"] = {"inferred_names": [cand], "reference_names": [names[0]], "amp_ratios": [0.6], "phase_offsets": [40.0]}
        h[0] = h[0] + ref.predict1(t, tref, [cand], c["lat"], np.array([0.6 * p["A"][0] * s]), np.array([p["g"][0] - 40.0]), **gen.kw(o))
        names.append(cand)
        truth["A"] = np.append(truth["A"], 0.6 * p["A"][0] * s)
        truth["g"] = np.append(truth["g"], p["g"][0] - 40.0)
    np_per = len(truth) * len(names)
    K = int(min(80, max(24, np.ceil(300 / np_per))))
    tails, sds = 1.0, 10
    if c.get("short"):
        # few degrees of freedom: Student's distribution
        nu = len(t) - X.shape[1]
        if nu < 12:
            rec.label("too few degrees of freedom (skipped)")
            return
        tails, sds, K = np.sqrt(nu / (nu - 2)), 7, 80
        rec.label("few samples per parameter")
    Z = {f: [] for f in truth}
    for k in range(K):
        x = [y + s * c["namp"] * (c["vratio"] if j else 1) * rng.standard_normal(len(t)) for j, y in enumerate(h)]
        np.random.seed((c["nseed"] + k) % (2**31))
        co = solve(c, gen.dt64(ms), *[np.where(good, y, np.nan) for y in x], **over)
        i = rows(co, names)
        th_flip = np.zeros(len(names))
        if td:
            # (theta, g) and (theta+180, g+180) are the same ellipse
            d = np.asarray(co["theta"])[i] - truth["theta"]
            th_flip = np.rint(d / 180)
        for f in truth:
            est = np.asarray(co[f])[i]
            if f == "theta":
                d = est - truth[f] - 180 * th_flip
            elif f == "g":
                d = angle_diff(est - 180 * th_flip, truth[f])
            else:
                d = est - truth[f]
            ci = np.asarray(co[f + "_ci"])[i]
            need(np.all(np.isfinite(ci)) and np.all(ci > 0), lambda: f"{f}_ci is {ci}")
            Z[f].append(d / (ci / 1.96))
    allz = np.concatenate([np.concatenate(v) for v in Z.values()]) / tails
    rec.nontrivial = len(allz) >= 300
    rec.label("conf=" + c["conf"], "2d" if td else "1d", "infer" if c["infer"] else "plain", r["kind"])
    rms = np.sqrt(np.mean(allz**2))
    cover = np.mean(np.abs(allz) <= 1.96)
    # the two coefficients of a constituent share one estimated variance; errors of
    # different parameters are nearly independent, so the pooled rms has a relative
    # standard deviation near 1/sqrt(2 N); ten of them (seven) are allowed
    lim = sds / np.sqrt(2 * len(allz)) + 0.05
    need(
        1 - lim < rms < 1 + lim,
        lambda: f"normalised errors have rms {rms:.3f} (N={len(allz)}); coverage of the 95% limits {cover:.3f}",
    )
    for f, v in Z.items():
        v = np.concatenate(v) / tails
        q = np.sqrt(np.mean(v**2))
        lim = 10 / np.sqrt(2 * len(v)) + 0.05
        need(1 / (1 + lim) - 0.05 < q < 1 + lim, lambda: f"normalised errors of {f} have rms {q:.3f} (N={len(v)})")

"""Analysing a prediction gives back the solution it was made from."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import background, check_coef_shape, close, recon, recon_all, rows, series, solve
from core import need
from props.c17 import PAIRS

ID = "C28"
EXAMPLES = {"quick": 900, "thorough": 20000}
RULE = (
    "A random noisy record is analysed (least squares or robust, exact inference now and then, gaps, any options); the "
    "predicted tide, at the record's times or (for phases and nodal corrections at exact times) on another grid, is "
    "analysed again with the same model and must return the same cosine/sine coefficients, mean and slope; the residual "
    "must return none; a prediction limited to some constituents must return those only; missing prediction times are "
    "passed on as they come. Non-trivial: at least 2 constituents and a design with condition number < 300."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(big=8000, small=30, many=25))
    c["noise"] = draw(st.sampled_from(gen.NOISE))
    c["nseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.01, 0.3, 3.0]))
    c["method"] = draw(st.sampled_from(["ols", "ols", "robust"]))
    c["conf"] = draw(st.sampled_from(["none", "none", "linear", "MC"]))
    c["order"] = draw(st.sampled_from([None, "PE", "frequency", "list"]))
    c["gap"] = draw(st.sampled_from([0.0, 0.0, 0.1]))
    c["nat"] = draw(st.booleans())
    c["keep"] = draw(st.lists(st.booleans(), min_size=3, max_size=8))
    c["shift"] = draw(st.one_of(st.none(), st.integers(-200000, 200000)))
    c["inf"] = draw(st.one_of(st.none(), st.none(), st.tuples(st.floats(0.05, 0.8), st.floats(-180, 180))))
    return c


def strategy():
    return strategy_()


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"] + 3)
    good = rng.uniform(size=len(ms)) >= c["gap"]
    t, (tref, lor, _) = gen.geometry(c, good)
    names, nc = c["names"], len(c["names"])
    infer, allnames = None, list(names)
    if c["inf"] and c["conf"] != "MC":
        pair = [(a, b) for a, b in PAIRS if a in names and b not in names]
        if pair:
            a, b = pair[c["nseed"] % len(pair)]
            m = 2 if td else 1
            infer = {"inferred_names": [b], "reference_names": [a], "amp_ratios": [c["inf"][0]] * m,
                     "phase_offsets": [c["inf"][1]] * m}
            allnames = allnames + [b]
    X = gen.model_columns(t[good], tref, lor, names, c)
    kappa = ref.cond(X)
    if not kappa < 300 or X.shape[0] < 3 * X.shape[1] + 10:
        rec.label("ill-conditioned (skipped)")
        return
    rec.nontrivial = nc > 1
    rec.label(c["method"], "inference" if infer else "plain", "2d" if td else "1d", "phase=" + o["phase"], f"nodal={o['nodal']}")
    s = c["p"]["s"]
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    x = [y + s * c["namp"] * gen.noise(c["nseed"] + j, c["noise"], len(t)) for j, y in enumerate(x)]
    x = [np.where(good, y, np.nan) for y in x]
    T = gen.dt64(ms)
    order = allnames if c["order"] == "list" else c["order"]
    kw = {"infer": infer} if infer else {}
    coef = solve(c, T, *x, method=c["method"], conf_int=c["conf"], order_constit=order, **kw)
    check_coef_shape(coef, len(allnames), td, o["trend"])
    idx = rows(coef, allnames)
    want = gen.xy_of_coef(coef, idx)
    bg, sl = background(coef, o["trend"])
    scale = np.abs(want).sum() + max(np.abs(y[good]).max() for y in x)
    tol = 1e-8 * kappa * scale

    def same(other, W, B, S, what, f=1.0, L=lor):
        check_coef_shape(other, len(allnames), td, o["trend"])
        close(gen.xy_of_coef(other, rows(other, allnames)), W, tol * f, f"{what}: coefficients")
        m2, s2 = background(other, o["trend"])
        close(m2, B, tol * f, f"{what}: mean")
        if o["trend"]:
            close(np.array(s2) * L, np.array(S) * L, tol * f, f"{what}: slope over the record")

    # the same times; some of them may be missing
    Tn = T.copy()
    lost = ~good
    if c["nat"] and (r["kind"] != "equi"):
        Tn[lost] = np.datetime64("NaT")
    p = recon_all(Tn, coef)
    if c["nat"] and (r["kind"] != "equi"):
        for y in p:
            need(np.array_equal(np.isnan(y), lost), "prediction is not missing where the times are, and only there")
    else:
        p = [np.where(good, y, np.nan) for y in p]
    again = solve(c, Tn, *p, order_constit=order, **kw)
    same(again, want, bg, sl, "prediction analysed again")
    # what is left contains no tide
    if c["method"] == "ols":
        left = [a - b for a, b in zip(x, p)]
        zero = solve(c, T, *left, **kw)
        same(zero, np.zeros_like(want), np.zeros(len(bg)), np.zeros(len(bg)), "residual analysed")
    # some constituents only
    if not infer:
        keep = [n for i, n in enumerate(allnames) if c["keep"][i % len(c["keep"])]]
        q = series(recon(T, coef, constit=keep))
        part = solve(c, T, *[np.where(good, y, np.nan) for y in q])
        W = want * np.array([n in keep for n in allnames])[:, None]
        same(part, W, bg, sl, f"prediction of {keep} analysed")
    # another time grid: the model is the same there if nothing is linearised about the record
    if c["shift"] is not None and o["phase"] == "Greenwich" and o["nodal"] != "linear_time":
        r2 = dict(r, start=r["start"] + c["shift"] * 61001, kind="equi")
        t2, (tref2, lor2, _) = gen.geometry(r2)
        X2 = gen.model_columns(t2, tref2, lor2, names, c)
        k2 = ref.cond(X2)
        if k2 < 300:
            rec.label("another grid")
            T2 = gen.dt64(gen.times_ms(r2))
            p2 = recon_all(T2, coef)
            far = 1 + abs(tref2 - tref) / max(lor, 1e-9)
            moved = [b + v * (tref2 - tref) for b, v in zip(bg, sl)]
            same(solve(c, T2, *p2, **kw), want, moved, sl, "prediction on another grid", f=max(1.0, k2 / kappa) * far * 3, L=lor2)

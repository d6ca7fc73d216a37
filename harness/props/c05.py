"""Missing samples are ignored by solve, however they are marked."""

import datetime

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from common import background, close, fields, recon_all, rows, solve
from core import need

ID = "C05"
EXAMPLES = {"quick": 700, "thorough": 15000}
RULE = (
    "Random record and model with a drawn set of missing samples (scattered, blocks, at the edges) in u, in v or in "
    "the times, marked as NaN, inf, mask over garbage, NaT, missing or infinite day number or masked time; compared with the other markings (must be "
    "identical), with the record without those rows and with the independent least squares solution. Non-trivial: at "
    "least one sample is missing."
)
MARKS = ["nan", "mask_garbage", "inf", "mask_nan", "neginf", "mixed"]


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=200, hi=500, big=12000, many=25))
    c["nseed"] = draw(gen.seeds)
    c["mark"] = draw(st.sampled_from(MARKS))
    c["mark2"] = draw(st.sampled_from(MARKS))
    c["tmark"] = draw(st.sampled_from(["nat", "nan", "masked", "masked_dt", "inf", "mixed", "masked_matlab", "nan_date", "masked_date", "datetimes", "pd_tz", "index_tz"]))
    hole = st.tuples(st.integers(0, 480), st.integers(1, 25))
    c["uholes"] = draw(st.lists(hole, max_size=5))
    c["vholes"] = draw(st.lists(hole, max_size=4))
    c["tholes"] = draw(st.one_of(st.just([]), st.lists(hole, max_size=3)))
    c["edge"] = draw(st.booleans())
    c["frac"] = draw(st.sampled_from([0.0, 0.05, 0.3]))
    # now and then a single missing sample, in one component
    c["only"] = draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from("uv"), st.integers(0, 400))))
    c["conf"] = draw(st.sampled_from(["none", "linear", "linear"]))
    c["white"] = draw(st.booleans())
    return c


def strategy():
    return strategy_()


def apply_mark(x, miss, mark, seed):
    rng = np.random.default_rng(seed)
    y = x.copy()
    if mark == "nan":
        y[miss] = np.nan
    elif mark == "inf":
        y[miss] = np.inf
    elif mark == "neginf":
        y[miss] = -np.inf
    elif mark == "mask_garbage":
        y[miss] = rng.choice([1e30, -7e5, 0.0, 1e300], miss.sum())
        return np.ma.array(y, mask=miss)
    elif mark == "mask_nan":
        y[miss] = np.nan
        return np.ma.array(y, mask=miss)
    else:
        part = miss & (rng.uniform(size=len(x)) < 0.5)
        y[miss] = np.nan
        y[part] = 1e25
        return np.ma.array(y, mask=part)
    return y


def mark_time(ms, bad, how):
    """(times, epoch)"""
    if how == "nat":
        t = gen.dt64(ms)
        t[bad] = np.datetime64("NaT")
        return t, None
    if how == "datetimes":
        return [(None, float("nan"))[i % 2] if m else x for i, (x, m) in enumerate(zip(gen.dt64(ms).astype(object), bad))], None
    if how in ("pd_tz", "index_tz"):
        t = gen.dt64(ms).astype("datetime64[ns]")
        t[bad] = np.datetime64("NaT")
        t = pd.DatetimeIndex(t).tz_localize("UTC").tz_convert(datetime.timezone(datetime.timedelta(minutes=-210)))
        return (pd.Series(t) if how == "pd_tz" else t), None
    t = ref.ms_to_days(ms)
    if how == "nan":
        t[bad] = np.nan
        return t, "python"
    if how in ("inf", "mixed"):
        t[bad] = np.resize([np.inf, -np.inf] if how == "inf" else [np.nan, -np.inf, np.inf, np.nan], bad.sum())
        return t, "python"
    if how == "masked_matlab":
        t = t + 366
        t[bad] = 3.0
        return np.ma.array(t, mask=bad), "matlab"
    if how == "nan_date":
        t = t - 730120
        t[bad] = np.nan
        return t, "2000-01-01"
    if how == "masked_date":
        t = t - 730120
        t[bad] = np.inf
        return np.ma.array(t, mask=bad), np.datetime64("2000-01-01")
    if how == "masked":
        t[bad] = 12345.0
        return np.ma.array(t, mask=bad), "python"
    t = gen.dt64(ms)
    t[bad] = np.datetime64("1970-01-01")
    return np.ma.array(t, mask=bad), None


def compare(a, b, names, trend, conf, rtol, what, t=None):
    ia, ib = rows(a, names), rows(b, names)
    xa, xb = gen.xy_of_coef(a, ia), gen.xy_of_coef(b, ib)
    scale = np.abs(xb).max() + np.abs(background(b, trend)[0]).max()
    close(xa, xb, rtol * scale, what + ": coefficients")
    close(background(a, trend)[0], background(b, trend)[0], rtol * scale, what + ": mean")
    close(background(a, trend)[1], background(b, trend)[1], rtol * scale, what + ": slope")
    if conf != "none":
        for f in fields(a):
            ca, cb = np.asarray(a[f + "_ci"])[ia], np.asarray(b[f + "_ci"])[ib]
            close(ca, cb, np.nan_to_num(np.abs(cb)) * rtol * 100 + 1e-300, what + f": {f}_ci")


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    n = len(ms)
    rng = np.random.default_rng(c["nseed"])

    def holes(hs, frac):
        m = np.zeros(n, bool)
        for i, k in hs:
            m[i : i + k] = True
        return m | (rng.uniform(size=n) < frac)

    mu = holes(c["uholes"], c["frac"])
    mv = holes(c["vholes"], c["frac"] / 2)
    if c["edge"]:
        mu[:3] = True
        mu[-2:] = True
    mt = holes(c["tholes"], 0.0)
    if c.get("only"):
        mu[:] = mv[:] = mt[:] = False
        (mv if td and c["only"][0] == "v" else mu)[c["only"][1] % n] = True
    if mt.any():
        # a missing time makes the row disappear; keep the rest irregular or regular as it falls
        mt[:1] = False
    keep = ~mt
    miss = mu | mv if td else mu
    t = ref.ms_to_days(ms)
    tk = t[keep]
    dd = np.diff(ms[keep])
    equi = len(np.unique(dd)) == 1
    good = keep & ~miss
    if good.sum() < 60:
        rec.label("too few left (skipped)")
        return
    tref, lor, _ = ref.record_geometry(tk, t[good], equi)
    X = gen.model_columns(t[good], tref, lor, c["names"], c)
    kappa = ref.cond(X)
    if not kappa < 300:
        rec.label("ill-conditioned (skipped)")
        return
    rec.nontrivial = bool(miss.any() or mt.any())
    rec.label("mark=" + c["mark"], "time=" + (c["tmark"] if mt.any() else "complete"), "equi" if equi else "uneven")
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    s = c["p"]["s"]
    x = [y + s * 0.5 * gen.noise(c["nseed"] + 5 + j, "red", n) for j, y in enumerate(x)]
    masks = [mu, mv]
    tt, ep = mark_time(ms, mt, c["tmark"]) if mt.any() else (gen.dt64(ms), None)
    ek = {} if ep is None else {"epoch": ep}
    k = dict(conf_int=c["conf"], white=c["white"])
    A = solve(c, tt, *[apply_mark(y, m, c["mark"], 1) for y, m in zip(x, masks)], **ek, **k)
    B = solve(c, tt, *[apply_mark(y, m, c["mark2"], 2) for y, m in zip(x, masks)], **ek, **k)
    compare(A, B, c["names"], o["trend"], c["conf"], 1e-12, f"marking {c['mark']} vs {c['mark2']}")
    need(np.asarray(A["weights"]).shape == (good.sum(),), "one weight per used sample")
    # the values at the missing times do not matter: same as rows removed before
    if mt.any():
        C = solve(c, gen.dt64(ms[keep]), *[apply_mark(y[keep], m[keep], "nan", 1) for y, m in zip(x, masks)], **k)
        # day numbers and dates differ in the last digits
        cf = np.array([float(ref.lin_freqs(tref)[ref.INDEX[q]]) for q in c["names"]])
        tie = not c["white"] and ref.spectral_tie(tk if equi else t[good], cf, equi)
        compare(A, C, c["names"], o["trend"], "none" if tie else c["conf"], 1e-7 * kappa, "rows with missing time")
    if not equi and miss.any():
        D = solve(c, gen.dt64(ms[good]), *[y[good] for y in x], **k)
        d2 = np.unique(np.diff(ms[good]))
        if len(d2) > 1:
            compare(A, D, c["names"], o["trend"], c["conf"], 1e-7 * kappa, "uneven record with the rows removed")
    # agreement with the least squares solution over the good rows
    B_ = ref.lsq(X, np.stack([y[good] for y in x], axis=-1))
    scale = max(np.abs(y[good]).max() for y in x)
    tol = (1e-7 if ep else 1e-9) * kappa * scale
    nc = len(c["names"])
    close(gen.xy_of_coef(A, rows(A, c["names"])), gen.fit_xy(B_, nc), tol, "coefficients from the good rows")
    close(background(A, o["trend"])[0], B_[2 * nc], tol, "mean from the good rows")
    if o["trend"]:
        close(np.array(background(A, True)[1]) * lor, B_[2 * nc + 1], tol, "trend from the good rows")
    # and every missing sample can be predicted
    out = recon_all(gen.dt64(ms), A)
    need(all(np.all(np.isfinite(y)) for y in out), "prediction at missing samples is not finite")

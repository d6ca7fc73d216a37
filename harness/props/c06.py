"""reconstruct is pointwise in time; missing times give missing values."""

import datetime

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from common import close, recon, series, solve
from core import need

ID = "C06"
EXAMPLES = {"quick": 900, "thorough": 15000}
RULE = (
    "A solution of a random record, and a drawn list of prediction times (duplicates, unsorted, missing as NaT / NaN / "
    "masked, scalar, any length from 1) in a drawn representation, evaluated as a whole, reordered, split and one by "
    "one; every number of times to 129 and those next to round numbers to 70000. Non-trivial: at least two times."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(hi=300, k=(1, 6), many=25))
    c["nseed"] = draw(gen.seeds)
    h = st.integers(-20000, 20000)
    c["hours"] = draw(st.lists(h, min_size=1, max_size=25))
    c["missing"] = draw(st.lists(st.integers(0, 24), max_size=6))
    c["perm"] = draw(gen.seeds)
    c["repr"] = draw(st.sampled_from(["dt64", "python", "matlab", "epoch", "masked", "series", "list", "inf", "masked_dt", "masked_matlab",
                                      "masked_date", "datetimes", "datetimes_nan", "pd_tz", "index_tz", "index", "tz_list", "float_list"]))
    c["conf"] = draw(st.sampled_from(["none", "linear"]))
    c["min_SNR"] = draw(st.sampled_from([0, 2, 50]))
    c["min_PE"] = draw(st.sampled_from([0, 0, 5]))
    c["sub"] = draw(st.one_of(st.none(), st.integers(1, 6)))
    c["long"] = draw(st.one_of(*[st.none()] * 9, st.tuples(gen.long_sizes(), st.sampled_from([10, 60, 61, 1440, 1600]),
                                                           st.booleans())))
    return c


def strategy():
    return strategy_()


SWEEP = list(range(130)) + gen.round_sizes(130, 70000)


def fixed_cases(tier):
    """Every small number of prediction times and those next to round ones, against one long prediction."""
    out = []
    for i in range(16):
        names = ["M2", "K1", "O1", "MM", "M4"][i % 3 :: 2]
        n = len(names)
        p = {"s": 1.0, "mean": 0.5, "slope": 0.01, "A": [0.7] * n, "g": [40.0] * n}
        if i % 2:
            p = {"s": 1.0, "um": 0.5, "vm": -1.0, "us": 0.01, "vs": 0.0, "Lsmaj": [0.7] * n, "ratio": [0.3] * n, "theta": [20.0] * n, "g": [40.0] * n}
        o = {"phase": ["Greenwich", "raw", "linear_time", "Greenwich"][i // 2 % 4], "nodal": [True, False, "linear_time"][i % 3], "trend": bool(i // 4 % 2)}
        out.append({"rec": {"start": 1500000000000 + i * 86400000 * 100, "step": 3600000, "n": 700 + i, "kind": "equi"}, "names": names,
                    "lat": 20.0 * (i % 7) - 60, "twodim": bool(i % 2), "p": p, "opts": o, "sweep": SWEEP[i::16]})
    # many constituents times many times
    for i, (n, step) in enumerate([(30000, 9000), (75000, 3600), (110000, 600)]):
        names = [q for q in gen.MAJOR if q not in ("MF", "MM", "MSF", "S1", "MU2", "NU2", "2N2")][i:] + ["M10", "2MN6", "MK4", "ETA2", "2Q1"]
        k = len(names)
        p = {"s": 1.0, "mean": 0.5, "slope": 0.01, "A": [0.7] * k, "g": [40.0] * k}
        o = {"phase": "Greenwich", "nodal": True, "trend": True}
        out.append({"rec": {"start": 1400000000000 + i * 86400000 * 100, "step": 7200000, "n": 1600 + i, "kind": "equi"}, "names": names,
                    "lat": 20.0 * i - 30, "twodim": False, "p": p, "opts": o, "sweep": [n], "every": step})
    return out


def sweep(c, rec):
    ms = gen.times_ms(c["rec"])
    t, (tref, _, _) = gen.geometry(c)
    x = gen.signal(c, t, tref)
    coef = solve(c, gen.dt64(ms), *(x if c["twodim"] else [x]))
    big = max(c["sweep"])
    pm = c["rec"]["start"] + 1000 * c.get("every", 3600) * np.arange(big, dtype=np.int64)
    rec.nontrivial = True
    rec.label("every size")
    T = gen.dt64(pm)
    whole = [np.concatenate(q) for q in zip(*[series(recon(T[i : i + 700], coef, min_SNR=0)) for i in range(0, big, 700)])]
    for n in c["sweep"]:
        for lo in {0, big - n}:
            for y, q in zip(series(recon(T[lo : lo + n], coef, min_SNR=0)), whole):
                need(y.shape == (n,), lambda: f"{y.shape} values for {n} times")
                close(y, q[lo : lo + n], 1e-9 * (1 + np.abs(q).max()), f"{n} times at once or in pieces of 700")


def rep(ms, miss, kind):
    """Times with the flagged ones missing, and the epoch."""
    miss = np.asarray(miss, bool)
    if kind in ("pd_tz", "index_tz", "index", "tz_list", "series") and (ms.min() < -9.2e12 or ms.max() > 9.2e12):
        kind = "dt64"  # beyond pandas' nanoseconds
    t = gen.dt64(ms)
    d = ref.ms_to_days(ms)
    if kind in ("datetimes", "datetimes_nan"):
        gap = None if kind == "datetimes" else float("nan")
        return [gap if m else x for x, m in zip(t.astype(object), miss)], None
    if kind in ("pd_tz", "index_tz", "index", "tz_list"):
        t = t.astype("datetime64[ns]")
        t[miss] = np.datetime64("NaT")
        i = pd.DatetimeIndex(t)
        if kind != "index":
            i = i.tz_localize("UTC").tz_convert(datetime.timezone(datetime.timedelta(minutes=330)))
        return (pd.Series(i) if kind == "pd_tz" else list(i) if kind == "tz_list" else i), None
    if kind == "masked_dt":
        t[miss] = np.datetime64("1970-01-01")
        return np.ma.array(t, mask=miss), None
    if kind in ("dt64", "list"):
        t[miss] = np.datetime64("NaT")
        return (t if kind == "dt64" else list(t)), None
    if kind == "series":
        t = t.astype("datetime64[ns]")
        t[miss] = np.datetime64("NaT")
        return pd.Series(t), None
    if kind == "masked":
        d[miss] = 5.0
        return np.ma.array(d, mask=miss), "python"
    if kind in ("masked_matlab", "masked_date"):
        d = d + 366 if kind == "masked_matlab" else d - 730120
        d[miss] = 1e6
        return np.ma.array(d, mask=miss), "matlab" if kind == "masked_matlab" else "2000-01-01"
    if kind == "inf":
        d[miss] = np.resize([np.inf, -np.inf, np.nan], miss.sum())
        return d, "python"
    d[miss] = np.nan
    if kind == "float_list":
        return list(d), "python"
    if kind == "python":
        return d, "python"
    if kind == "matlab":
        return d + 366, "matlab"
    return d - 730120, "2000-01-01"


def check(c, rec):
    if "sweep" in c:
        return sweep(c, rec)
    r, td = c["rec"], c["twodim"]
    ms = gen.times_ms(r)
    t, (tref, lor, _) = gen.geometry(c)
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    x = [y + c["p"]["s"] * 0.3 * gen.noise(c["nseed"] + j, "white", len(t)) for j, y in enumerate(x)]
    coef = solve(c, gen.dt64(ms), *x, conf_int=c["conf"])
    pm = r["start"] + np.array(c["hours"], dtype=np.int64) * 3600000
    if c.get("long"):
        k, step, desc = c["long"]
        rec.label("long prediction")
        more = r["start"] + 60000 * step * np.arange(k, dtype=np.int64)
        pm = np.concatenate([pm, more[::-1] if desc else more])
    n = len(pm)
    miss = np.zeros(n, bool)
    miss[[i for i in c["missing"] if i < n]] = True
    rec.nontrivial = n > 1
    rec.label("repr=" + c["repr"], f"missing={'some' if miss.any() else 'none'}", "2d" if td else "1d")
    sel = {"min_SNR": c["min_SNR"], "min_PE": c["min_PE"]}
    if c["sub"] is not None:
        sel["constit"] = c["names"][: c["sub"]]
    tt, ep = rep(pm, miss, c["repr"])
    ek = {} if ep is None else {"epoch": ep}
    out = recon(tt, coef, **ek, **sel)
    S = series(out)
    need(len(S) == 1 + td, "number of output series")
    scale = max(np.abs(y).max() for y in x) + 1e-300
    amp = scale * 10 * (1 + np.abs(pm - ms[0]).max() / (ms[-1] - ms[0]))
    tol = 1e-8 * amp
    for y in S:
        need(isinstance(y, np.ndarray) and y.dtype == np.float64 and y.shape == (n,), "output is not a float array of the time's length")
        need(np.array_equal(np.isnan(y), miss), "missing values are not exactly at the missing times")
    # documented copies of the input
    need(out["t_in"] is tt or np.shape(out["t_in"]) == (n,), "t_in")
    need(out["epoch"] == ep and out["min_SNR"] == c["min_SNR"] and out["min_PE"] == c["min_PE"], "input options are not in the output")
    tm = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(dict.__getitem__(out, "t_mpl"))).astype(float), np.nan)
    want = ref.ms_to_days(pm)
    want[miss] = np.nan
    if c["repr"] not in ("masked",):
        close(tm, want, 1e-8, "t_mpl (days since 0000-12-31)")
    # permutation
    perm = np.random.default_rng(c["perm"]).permutation(n)
    tt2, _ = rep(pm[perm], miss[perm], c["repr"])
    for a, b in zip(series(recon(tt2, coef, **ek, **sel)), S):
        close(a, b[perm], tol, "reordered times")
    # a few of them on their own
    some = np.unique(np.linspace(0, n - 1, 7).astype(int))
    tt5, _ = rep(pm[some], miss[some], c["repr"])
    for a, b in zip(series(recon(tt5, coef, **ek, **sel)), S):
        close(a, b[some], tol, "a few of the times")
    # split
    k = n // 2
    if k:
        for lo, hi in ((0, k), (k, n)):
            tt3, _ = rep(pm[lo:hi], miss[lo:hi], c["repr"])
            for a, b in zip(series(recon(tt3, coef, **ek, **sel)), S):
                close(a, b[lo:hi], tol, "times in two calls")
    # one by one, scalar and dt64
    for i in range(min(n, 3)):
        one = gen.dt64(pm[i : i + 1])[0]
        if miss[i]:
            one = np.datetime64("NaT")
        for a, b in zip(series(recon(one, coef, **sel)), S):
            need(a.shape == (1,), "scalar time must give one value")
            close(a, b[i : i + 1], tol * 10, "single time")
    # all missing: all NaN, not an error
    tt4, _ = rep(pm, np.ones(n, bool), c["repr"])
    for a in series(recon(tt4, coef, **ek, **sel)):
        need(a.shape == (n,) and np.all(np.isnan(a)), "all times missing must give all missing values")

"""A prediction describes itself."""

import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from common import close, recon, series, solve
from core import call, need
from props.c04 import TIMES, as_time
from props.c21 import leaves

ID = "C30"
EXAMPLES = {"quick": 1200, "thorough": 20000}
RULE = (
    "A solution of a random record and a list of prediction times in a drawn representation (every one of C04, missing "
    "times as NaN, NaT or mask, scalars), predicted with drawn filters, epoch, verbosity, keyword or positional. The "
    "result must hold the arguments themselves, the times as days since 0000-12-31 (the same object for "
    "epoch='python'), and new float series of the right dimension that can be predicted again from t_mpl. "
    "Non-trivial: every case."
)
UNSET = "unset"


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(hi=260, k=(1, 5), many=40))
    c["nseed"] = draw(gen.seeds)
    c["conf"] = draw(st.sampled_from(["none", "linear"]))
    c["time"] = draw(st.sampled_from(TIMES + ["scalar"]))
    c["epochday"] = draw(st.integers(-60000, 60000))
    c["missing"] = draw(st.sampled_from([0.0, 0.0, 0.2, 1.0]))
    unit = 86400000 if c["time"] in ("intdays", "int32days", "f4days") else draw(st.sampled_from([60000, 3600000, 1]))
    lim = 40000 if unit == 86400000 else 10**7
    if c["time"] in ("intdays", "int32days", "f4days", "m", "s"):
        c["rec"]["start"] = c["rec"]["start"] // 86400000 * 86400000
    c["unit"] = unit
    c["offs"] = draw(st.lists(st.integers(-lim, lim), min_size=1, max_size=12))
    if draw(st.integers(0, 7)) == 0:
        c["many"] = draw(gen.long_sizes(100))
    c["snr"] = draw(st.sampled_from([UNSET, 0, 2, 2.0, 3.7, -1, 1e9]))
    c["pe"] = draw(st.sampled_from([UNSET, 0, 0.0, 5, 101]))
    c["constit"] = draw(st.sampled_from([UNSET, None, "list", "tuple", "array", "empty"]))
    c["none_epoch"] = draw(st.booleans())
    c["verbose"] = draw(st.sampled_from([UNSET, False, True]))
    c["positional"] = draw(st.booleans())
    return c


def strategy():
    return strategy_()


def with_missing(tt, miss):
    """The same representation with some times missing, or None if it cannot."""
    if not miss.any():
        return tt
    if isinstance(tt, pd.DatetimeIndex):
        return pd.DatetimeIndex(np.where(miss, np.datetime64("NaT"), tt.values))
    if isinstance(tt, pd.Series):
        out = tt.copy()
        out.iloc[np.nonzero(miss)[0]] = np.nan if out.dtype.kind == "f" else pd.NaT
        return out
    if isinstance(tt, np.ma.MaskedArray):
        out = tt.copy()
        out[miss] = np.ma.masked
        return out
    if isinstance(tt, np.ndarray) and tt.dtype.kind in "fM":
        out = tt.copy()
        out[miss] = np.nan if tt.dtype.kind == "f" else np.datetime64("NaT")
        return out
    if isinstance(tt, list) and isinstance(tt[0], (float, np.floating)):
        return [np.nan if m else x for x, m in zip(tt, miss)]
    if isinstance(tt, list) and isinstance(tt[0], np.datetime64):
        return [np.datetime64("NaT") if m else x for x, m in zip(tt, miss)]
    return None


def image(t):
    if isinstance(t, list):
        return [str(x) for x in t]
    if isinstance(t, (pd.Series, pd.DatetimeIndex)):
        return [str(x) for x in t], list(getattr(t, "index", []))
    a = np.ma.getdata(np.ma.asarray(t)) if isinstance(t, np.ma.MaskedArray) else np.asarray(t)
    return str(a.dtype), a.shape, [str(x) for x in a.ravel()], np.ma.getmaskarray(t).tolist() if isinstance(t, np.ma.MaskedArray) else None


def check(c, rec):
    import utide

    r, td = c["rec"], c["twodim"]
    ms = gen.times_ms(r)
    t, (tref, _, _) = gen.geometry(c)
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    x = [y + c["p"]["s"] * 0.2 * gen.noise(c["nseed"] + j, "white", len(t)) for j, y in enumerate(x)]
    coef = solve(c, gen.dt64(ms), *x, conf_int=c["conf"])
    pm = r["start"] + np.array(c["offs"], dtype=np.int64) * c["unit"]
    if c.get("many"):
        pm = r["start"] + c["unit"] * np.arange(c["many"], dtype=np.int64)
    pm = np.clip(pm, -8520336000000, 7258118400000)
    rng = np.random.default_rng(c["nseed"])
    kind = c["time"]
    if kind == "scalar":
        pm = pm[:1]
    n = len(pm)
    miss = rng.uniform(size=n) < c["missing"]
    if kind == "scalar":
        d = ref.ms_to_days(pm)[0]
        tt, ep = [(gen.dt64(pm)[0], None), (float(d), "python"), (d + 366, "matlab"), (gen.dt64(pm)[0].item(), None)][c["nseed"] % 4]
        miss[:] = False
    else:
        rep = as_time(pm, kind, c["epochday"])
        if rep is None:
            kind = "ms"
            rep = as_time(pm, kind, c["epochday"])
        tt, ep = rep
        tm = with_missing(tt, miss)
        if tm is None:
            miss[:] = False
        else:
            tt = tm
    rec.nontrivial = True
    rec.label("time=" + kind, "2d" if td else "1d", "missing" if miss.any() else "complete")
    kw = {}
    if ep is not None or c["none_epoch"]:
        kw["epoch"] = ep
    if c["snr"] != UNSET:
        kw["min_SNR"] = c["snr"]
    if c["pe"] != UNSET:
        kw["min_PE"] = c["pe"]
    names = [str(q) for q in coef["name"]]
    some = names[: 1 + c["nseed"] % len(names)]
    if c["constit"] != UNSET:
        kw["constit"] = {None: None, "list": list(some), "tuple": tuple(some), "array": np.array(some), "empty": []}[c["constit"]]
    if c["verbose"] != UNSET:
        kw["verbose"] = c["verbose"]
    given = dict(kw)
    filters = {k: v for k, v in kw.items() if k not in ("verbose", "epoch")}
    was = leaves([coef, filters])
    tcopy = copy.deepcopy(tt)
    if c["positional"]:
        order = ["epoch", "verbose", "constit", "min_SNR", "min_PE"]
        dflt = {"epoch": None, "verbose": True, "constit": None, "min_SNR": 2, "min_PE": 0}
        last = max([i for i, k in enumerate(order) if k in kw], default=-1)
        out = call(utide.reconstruct, tt, coef, *[kw.get(k, dflt[k]) for k in order[: last + 1]])
    else:
        out = call(utide.reconstruct, tt, coef, **kw)
    # what was asked
    for k, dv in (("epoch", None), ("constit", None), ("min_SNR", 2), ("min_PE", 0)):
        need(k in out, f"{k} is not in the result")
        want = given.get(k, dv)
        need(out[k] is want or leaves([out[k]]) == leaves([want]), lambda: f"{k} of the result is {out[k]!r}, the argument was {want!r}")
    need("t_in" in out and out["t_in"] is tt, "t_in is not the time argument")
    need(image(tt) == image(tcopy), "the time argument was changed")
    need(was == leaves([coef, filters]), "an argument was changed")
    # times
    need("t_mpl" in out, "t_mpl is not in the result")
    tm = dict.__getitem__(out, "t_mpl")
    if isinstance(ep, str) and ep == "python":
        need(tm is tt, "t_mpl is not the time argument although epoch is 'python'")
    flat = np.ma.filled(np.ma.masked_invalid(np.ma.atleast_1d(np.ma.asarray(tm)).astype(float)), np.nan)
    want = ref.ms_to_days(pm)
    want[miss] = np.nan
    close(flat, want, 2e-9, "t_mpl (days since 0000-12-31)")
    # values
    need(set(out) >= ({"u", "v"} if td else {"h"}) and not set(out) & ({"h"} if td else {"u", "v"}),
         lambda: f"a {'vector' if td else 'scalar'} prediction holds {sorted(out)}")
    S = series(out)
    for y, f in zip([out["u"], out["v"]] if td else [out["h"]], "uv" if td else "h"):
        need(isinstance(y, np.ndarray) and not isinstance(y, np.ma.MaskedArray) and y.dtype == np.float64 and y.shape == (n,),
             lambda: f"{f} is not a plain float array with one value per time")
        need(np.array_equal(np.isnan(y), miss), f"values missing in {f} are not those at the missing times")
        need(not np.isinf(y).any(), f"infinite values in {f}")
    need(not td or not np.shares_memory(out["u"], out["v"]), "u and v share their memory")
    if isinstance(tt, np.ndarray):
        need(not any(np.shares_memory(y, np.ma.getdata(tt)) for y in S), "the prediction shares memory with the times")
    # again, from what the first one says
    again = {k: out[k] for k in ("constit", "min_SNR", "min_PE")}
    t2 = np.ma.masked_invalid(np.ma.asarray(flat)) if c["nseed"] % 3 == 0 else flat
    amp = max(np.abs(y).max() for y in x) * 10 * (1 + np.abs(pm - ms[0]).max() / (ms[-1] - ms[0])) + 1e-300
    for a, b in zip(series(recon(t2, coef, epoch="python", **again)), S):
        close(a, b, 1e-8 * amp, "prediction for t_mpl with epoch 'python' and the same filters")
    # and the result is not overwritten by later predictions
    keep = [y.copy() for y in S]
    recon(gen.dt64(pm[::-1]), coef, min_SNR=0)
    for y in S:
        y_ = y.copy()
        y[:] = 7.0
        need(was == leaves([coef, filters]), "writing to the prediction changes the arguments")
        y[:] = y_
    for y, k in zip(S, keep):
        close(y, k, 0, "an earlier prediction after a later one")

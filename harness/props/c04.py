"""Equivalent representations of the same input give the same answer."""

import datetime

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from common import background, close, recon_all, rows, solve
from core import call, need

ID = "C04"
EXAMPLES = {"quick": 1800, "thorough": 15000}
RULE = (
    "One random record and model, analysed once with datetime64[ms] times and float64 arrays, then again in a drawn "
    "time representation (datetime64 of any unit, datetime objects, pandas index/series, day numbers with the default epoch or "
    "python/matlab/date string/date/datetime/datetime64, masked, integer day numbers) and drawn containers (list, "
    "tuple, float32, integers, masked, pandas Series, strided, read-only, big-endian) for u, v, lat, constit; the "
    "prediction uses a third representation. Non-trivial: any of them differs from the baseline."
)
TIMES = [
    "s", "ms", "us", "ns", "m", "datetime", "datetime_list", "pdindex", "pdseries", "pdts_list", "python", "matlab",
    "isostr", "date", "datetime_epoch", "dt64_epoch", "python_list", "python_masked", "intdays", "dt64_list",
    "iso_strings", "python_series", "isostr_t", "datetime_epoch_t", "dt64_epoch_t", "timestamp_epoch", "pdseries_idx",
    "int32days", "f4days", "pd_utc", "pd_tz", "strings", "default", "default_list", "default_int", "uintdays", "default_uint",
]
DATA = ["array", "list", "tuple", "f4", "int", "masked", "series", "strided", "readonly", "bigendian", "reversed_view",
        "object_free", "i4", "series_idx", "f2d_row", "memview"]


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(hi=400, scale=False, many=40))
    # all values exactly representable in float32 and scaled to integers
    c["nseed"] = draw(gen.seeds)
    c["time"] = draw(st.sampled_from(TIMES))
    c["time2"] = draw(st.sampled_from(TIMES))
    c["ud"] = draw(st.sampled_from(DATA))
    c["vd"] = draw(st.sampled_from(DATA))
    c["epochday"] = draw(st.integers(-60000, 60000))
    c["latd"] = draw(st.sampled_from(["py", "np64", "np32", "int", "0d"]))
    c["cd"] = draw(st.sampled_from(["list", "tuple", "array", "objarray"]))
    c["conf"] = draw(st.sampled_from(["none", "linear"]))
    c["od"] = draw(st.sampled_from(["py", "py", "np", "int"]))
    c["none"] = draw(st.sampled_from(["omitted", "None", "none"]))
    if draw(st.integers(0, 5)) == 0:
        c["time"] = draw(st.sampled_from(["intdays", "int32days", "f4days", "default_int", "uintdays", "default_uint"]))
        c["rec"] = {"start": c["rec"]["start"] // 86400000 * 86400000, "step": 86400000, "n": draw(st.integers(200, 400)), "kind": "equi"}
        c["names"] = ["MF", "MM"]
        c["p"] = draw(gen.params(c["names"], c["twodim"], False))
    elif c["time"] in ("s", "datetime64") or draw(st.booleans()):
        c["rec"]["start"] = c["rec"]["start"] // 60000 * 60000
    c["values"] = draw(st.sampled_from(["f4", "int"]))
    c["unit"] = draw(st.sampled_from([1, 1000, 1000, 10**6, 10**10]))
    return c


def strategy():
    return strategy_()


def as_time(ms, kind, epochday):
    """(times, epoch) or None when this representation cannot hold these times."""
    d = gen.dt64(ms)
    if kind in ("s", "ms", "us", "ns", "m"):
        x = d.astype(f"datetime64[{kind}]")
        return (x, None) if np.array_equal(x.astype("datetime64[ms]"), d) else None
    if kind == "dt64_list":
        return list(d), None
    if kind == "iso_strings":
        return np.array([str(x) for x in d]), None
    dts = [datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=int(m)) for m in ms]
    if kind == "datetime":
        return np.array(dts, dtype=object), None
    if kind == "datetime_list":
        return dts, None
    if kind == "pdindex":
        return pd.DatetimeIndex(d.astype("datetime64[ns]")), None
    if kind == "pd_utc":
        return pd.DatetimeIndex(d.astype("datetime64[ns]")).tz_localize("UTC"), None
    if kind == "pd_tz":
        # the same instants on the clock of another time zone
        zone = datetime.timezone(datetime.timedelta(minutes=epochday % 1440 - 720))
        return pd.Series(d.astype("datetime64[ns]")).dt.tz_localize("UTC").dt.tz_convert(zone), None
    if kind == "strings":
        return [str(x).replace("T", " ") for x in d], None
    if kind == "pdseries":
        return pd.Series(d.astype("datetime64[ns]")), None
    if kind == "pdseries_idx":
        return pd.Series(d.astype("datetime64[ns]"), index=np.arange(len(ms))[::-1] * 3), None
    if kind == "pdts_list":
        return [pd.Timestamp(x) for x in dts], None
    days = ref.ms_to_days(ms)
    if kind == "python":
        return days, "python"
    if kind == "default":
        return days, None
    if kind == "default_list":
        return list(days), None
    if kind == "default_int":
        return None if np.any(ms % 86400000) else (days.astype(int), None)
    if kind in ("uintdays", "default_uint"):
        if np.any(ms % 86400000):
            return None
        u = days.astype(["uint32", "uint64"][int(ms[0] // 86400000) % 2])
        return u, "python" if kind == "uintdays" else None
    if kind == "python_list":
        return list(days), "python"
    if kind == "python_series":
        return pd.Series(days), "python"
    if kind == "python_masked":
        return np.ma.array(days), "python"
    if kind == "matlab":
        return days + 366, "matlab"
    ep = datetime.date(2000, 1, 1) + datetime.timedelta(days=int(epochday))
    rel = (ms - (epochday + 10957) * 86400000) / 86400000
    if kind == "isostr":
        return rel, ep.isoformat()
    if kind == "date":
        return rel, ep
    if kind == "datetime_epoch":
        return rel, datetime.datetime(ep.year, ep.month, ep.day)
    if kind == "dt64_epoch":
        return rel, np.datetime64(ep.isoformat())
    if kind in ("intdays", "int32days", "f4days"):
        if np.any(ms % 86400000):
            return None
        x = ms // 86400000 - epochday - 10957
        return x.astype({"intdays": int, "int32days": "i4", "f4days": "f4"}[kind]), ep.isoformat()
    # epochs with a time of day
    sec = abs(epochday) * 37 % 86400
    et = datetime.datetime(ep.year, ep.month, ep.day) + datetime.timedelta(seconds=sec)
    rel = (ms - (epochday + 10957) * 86400000 - sec * 1000) / 86400000
    if epochday % 3 == 0:
        et += datetime.timedelta(milliseconds=epochday * 53 % 1000)
        rel = rel - (epochday * 53 % 1000) / 86400000
    if kind == "isostr_t":
        return rel, et.isoformat()
    if kind == "datetime_epoch_t":
        return rel, et
    if kind == "dt64_epoch_t":
        return rel, np.datetime64(et)
    if kind == "timestamp_epoch":
        return rel, pd.Timestamp(et)
    raise ValueError(kind)


def as_data(x, kind):
    if kind == "list":
        return [float(v) for v in x]
    if kind == "tuple":
        return tuple(float(v) for v in x)
    if kind == "f4":
        return x.astype("f4")
    if kind == "int":
        return x.astype(int) if np.array_equal(x, np.rint(x)) else x.copy()
    if kind == "i4":
        return x.astype("i4") if np.array_equal(x, np.rint(x)) and np.abs(x).max() < 2**31 else x.copy()
    if kind == "series_idx":
        return pd.Series(x, index=np.arange(len(x))[::-1] * 2 + 5)
    if kind == "f2d_row":
        return np.stack([x * 0, x, x * 2])[1]
    if kind == "memview":
        return memoryview(np.ascontiguousarray(x))
    if kind == "masked":
        return np.ma.array(x, mask=np.zeros(len(x), bool))
    if kind == "series":
        return pd.Series(x)
    if kind == "strided":
        b = np.full(2 * len(x), 1e9)
        b[::2] = x
        return b[::2]
    if kind == "reversed_view":
        return np.ascontiguousarray(x[::-1])[::-1]
    if kind == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if kind == "bigendian":
        return x.astype(">f8")
    return x.copy()


def check(c, rec):
    r, td = c["rec"], c["twodim"]
    ms = gen.times_ms(r)
    t = ref.ms_to_days(ms)
    t, (tref, lor, _) = gen.geometry(c)
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    for j in range(len(x)):
        y = x[j] + gen.noise(c["nseed"] + j, "white", len(t))
        x[j] = np.rint(y * c.get("unit", 1000)) if c["values"] == "int" else y.astype("f4").astype(float)
    X = gen.model_columns(t, tref, lor, c["names"], c)
    kappa = ref.cond(X)
    if not kappa < 300:
        rec.label("ill-conditioned (skipped)")
        return
    base = solve(c, gen.dt64(ms), *x, conf_int=c["conf"])
    tt = as_time(ms, c["time"], c["epochday"])
    if tt is None:
        tt = (gen.dt64(ms), None)
        rec.label("time=fallback")
    else:
        rec.label("time=" + c["time"])
    rec.label("u=" + c["ud"])
    rec.nontrivial = True
    dat = [as_data(x[0], c["ud"])] + ([as_data(x[1], c["vd"])] if td else [])
    lat = c["lat"]
    lat = {"py": lambda: lat, "np64": lambda: np.float64(lat), "0d": lambda: np.array(float(lat)),
           "np32": lambda: np.float32(lat) if float(np.float32(lat)) == lat else lat,
           "int": lambda: int(lat) if int(lat) == lat else lat}[c["latd"]]()
    names = {"list": list, "tuple": tuple, "array": np.array, "objarray": lambda z: np.array(z, dtype=object)}[c["cd"]](c["names"])
    over = {} if tt[1] is None else {"epoch": tt[1]}
    # options as numpy or integer truth values; no inference in all ways of saying so
    form = {"py": lambda q: q, "np": np.bool_, "int": int}[c.get("od", "py")]
    over.update({f: form(v) for f, v in dict(c["opts"], white=False).items() if isinstance(v, bool)})
    if c.get("none", "omitted") != "omitted":
        over["infer"] = {"None": None, "none": "none"}[c["none"]]
    coef = solve(dict(c, lat=lat), tt[0], *dat, conf_int=c["conf"], constit=names, **over)
    scale = max(np.abs(y).max() for y in x)
    tol = 1e-7 * kappa * scale
    i0, i1 = rows(base, c["names"]), rows(coef, c["names"])
    what = f"(time={c['time']}, u={c['ud']}, v={c['vd']})"
    close(gen.xy_of_coef(coef, i1), gen.xy_of_coef(base, i0), tol, "coefficients " + what)
    for k in (0, 1):
        close(
            np.array(background(coef, c["opts"]["trend"])[k]) * (lor if k else 1),
            np.array(background(base, c["opts"]["trend"])[k]) * (lor if k else 1),
            tol, "mean/trend " + what,
        )
    need(abs(float(coef["aux"]["reftime"]) - float(base["aux"]["reftime"])) < 1e-6, "reference time " + what)
    cf = np.array([float(ref.lin_freqs(tref)[ref.INDEX[q]]) for q in c["names"]])
    if c["conf"] == "linear" and not ref.spectral_tie(t, cf, r["kind"] == "equi"):
        f = "Lsmaj_ci" if td else "A_ci"
        a, b = np.asarray(coef[f])[i1], np.asarray(base[f])[i0]
        close(a, b, 1e-5 * np.nanmax(np.abs(b), initial=0) + 1e-300, f + " " + what)
    # prediction in yet another representation, from either solution
    ms2 = ms[:: max(1, len(ms) // 40)] + (86400000 * 40 if c["time2"] in ("intdays", "int32days", "f4days", "default_int", "uintdays", "default_uint") else 123456000)
    p0 = recon_all(gen.dt64(ms2), base)
    t2 = as_time(ms2, c["time2"], c["epochday"] + 13)
    if t2 is not None:
        k = {} if t2[1] is None else {"epoch": t2[1]}
        for s in (base, coef):
            for a, b in zip(recon_all(t2[0], s, **k), p0):
                close(a, b, 3 * tol, f"prediction with times as {c['time2']} {what}")

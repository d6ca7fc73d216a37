"""Malformed requests are refused, not answered."""

import contextlib
import copy
import io

import numpy as np
from hypothesis import strategies as st

import gen
from common import close, recon, solve
from core import need

ID = "C20"
EXAMPLES = {"quick": 3500, "thorough": 40000}
RULE = (
    "A valid random call of solve or reconstruct is damaged in one drawn way (shape, latitude, option name, option "
    "value, order, inference keys and lengths, constituent names, epoch, time type, weight function); the damaged call "
    "must raise the documented kind of error and leave its arguments alone, while the valid call it was made from must "
    "succeed. Non-trivial: every damaged call."
)

words = st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=8)
KINDS = [
    "no lat", "t short", "u short", "v short", "t 2d", "all 2d", "u 2d", "v column", "option", "conf_int", "order", "order snr",
    "order unknown", "infer key", "infer names", "infer ratios", "infer offsets", "infer unknown", "constit", "epoch",
    "epoch datetime", "string times", "MC infer", "weight", "r 2d", "r epoch", "r epoch datetime", "r string times", "scalar",
    "order name", "order int", "columns", "u column", "robust key", "r option", "t long", "u long", "v long", "v row", "u one", "v one", "constit type",
    "method", "phase", "nodal", "order part", "infer twice",
]


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=160, hi=200, k=(1, 3), rare=False))
    c["kind"] = draw(st.sampled_from(KINDS))
    c["word"] = draw(words)
    c["k"] = draw(st.integers(0, 50))
    c["conf"] = draw(st.sampled_from(["none", "linear"]))
    c["method"] = draw(st.sampled_from(["ols", "robust"]))
    return c


def strategy():
    return strategy_()


def fixed_cases(tier):
    r = {"start": 0, "step": 3600000, "n": 200, "kind": "equi"}
    for kind in KINDS:
        for td in (False, True):
            p = {"s": 1.0, "um": 0.1, "vm": 0.2, "us": 0.0, "vs": 0.0, "Lsmaj": [1.0], "ratio": [0.3], "theta": [30.0],
                 "g": [50.0], "A": [1.0], "mean": 0.3, "slope": 0.0}
            yield {"rec": r, "names": ["M2"], "lat": 40, "twodim": td, "p": p, "kind": kind, "word": "xx", "k": 1,
                   "opts": {"phase": "Greenwich", "nodal": True, "trend": True}, "conf": "none", "method": "ols"}


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def refused(exc, fn, args, kw, what):
    before = copy.deepcopy((args, kw))
    try:
        quiet(fn, *args, **kw)
    except exc:
        pass
    except Exception as err:
        need(False, f"{what}: raised {type(err).__name__}: {str(err)[:120]}, expected {exc}")
    else:
        need(False, f"{what}: accepted")
    for a, b in zip(before[0], args):
        if isinstance(a, np.ndarray) and a.dtype.kind != "O":
            need(a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), f"{what}: argument changed")
    need(sorted(before[1]) == sorted(kw), f"{what}: options changed")
    inf = before[1].get("infer")
    if inf is not None:
        need(dict(inf) == dict(kw["infer"]), f"{what}: infer changed")


def check(c, rec):
    import utide

    r, td, kind, w = c["rec"], c["twodim"], c["kind"], c["word"]
    ms = gen.times_ms(r)
    t, (tref, lor, _) = gen.geometry(c)
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    x = [q + 0.05 * c["p"]["s"] * gen.noise(c["k"] + j, "white", len(t)) for j, q in enumerate(x)]
    T = gen.dt64(ms)
    kw = dict(c["opts"], lat=c["lat"], constit=list(c["names"]), conf_int=c["conf"], verbose=False)
    if c["method"] == "robust":
        kw["method"] = "robust"
    n = len(T)
    k = 1 + c["k"] % (n // 2)
    rec.label(kind, "2d" if td else "1d")
    rec.nontrivial = True
    args = [T] + x
    fn = utide.solve
    exc = ValueError
    m = 2 if td else 1
    inferred = [z for z in ("PI1", "H1", "SIG1") if z != c["names"][0]][:2]
    inf = {"inferred_names": inferred, "reference_names": [c["names"][0], c["names"][0]],
           "amp_ratios": [0.1, 0.2] * m, "phase_offsets": [1.0, 2.0] * m}
    valid = None
    if kind == "no lat":
        valid = dict(kw)
        if c["k"] % 2:
            kw["lat"] = None
        else:
            del kw["lat"]
    elif kind == "t short":
        args[0] = T[:-k]
    elif kind == "u short":
        args[1] = x[0][:-k]
    elif kind == "v short":
        args = [T, x[0], x[-1][k:]]
    elif kind == "t long":
        args[0] = gen.dt64(np.concatenate([ms, ms[-1] + r["step"] * np.arange(1, k + 1)]))
    elif kind == "u long":
        args[1] = np.concatenate([x[0], x[0][:k]])
    elif kind == "v long":
        args = [T, x[0], np.concatenate([x[-1], x[-1][:k]])]
    elif kind == "v row":
        args = [T, x[0], x[-1][None, :]]
    elif kind == "u one":
        args[1] = [x[0][:1], float(x[0][0])][c["k"] % 2]
    elif kind == "v one":
        args = [T, x[0], [x[-1][:1], float(x[-1][0])][c["k"] % 2]]
    elif kind == "t 2d":
        args[0] = T[:, None]
    elif kind == "u 2d":
        args[1] = x[0][None, :]
    elif kind == "v column":
        args = [T, x[0], x[-1][:, None]]
    elif kind == "columns":
        args = [T] + [q[:, None] for q in x]
    elif kind == "u column":
        args[1] = x[0][:, None]
    elif kind == "all 2d":
        args = [q[: 2 * (n // 2)].reshape(2, -1) for q in args]
    elif kind == "scalar":
        args = [T[0]] + [q[0] for q in x]
    elif kind == "option":
        name = w if w.isidentifier() and w not in ("t", "u", "v", "lat") else "x" + str(c["k"])
        name = ["order_constituents", "confint", "Phase", "cnstit", "rmin", "nodsatlint", "ordercnstit", "notrend", name, name][c["k"] % 10]
        if name in ("constit", "order_constit", "conf_int", "method", "trend", "phase", "nodal", "infer", "MC_n", "Rayleigh_min",
                    "robust_kw", "white", "verbose", "epoch"):
            return
        kw[name] = [None, True, "auto"][c["k"] % 3]
        exc = KeyError
    elif kind == "conf_int":
        bad = [w, "", "Linear", "mc", True, None, 0.95][c["k"] % 7]
        if bad in ("linear", "MC", "none"):
            return
        kw["conf_int"] = bad
    elif kind in ("order", "order name", "order int"):
        bad = [w, "pe", "snr", "Frequency", "", "M2"][c["k"] % 6] if kind == "order" else (c["names"][0] if kind == "order name" else 3)
        if bad in ("PE", "SNR", "frequency"):
            return
        kw["order_constit"] = bad
    elif kind == "order snr":
        valid = dict(kw, conf_int="linear", order_constit="SNR")
        kw["order_constit"], kw["conf_int"] = "SNR", "none"
    elif kind == "order unknown":
        kw["order_constit"] = list(c["names"]) + [[w + "?", "m2", 5, None, 0, ("M2",)][c["k"] % 6]]
    elif kind == "infer key":
        valid = dict(kw, infer=dict(inf))
        bad = dict(inf)
        bad.pop(sorted(inf)[c["k"] % 4])
        kw["infer"] = bad
    elif kind == "infer names":
        valid = dict(kw, infer=dict(inf))
        kw["infer"] = dict(inf, reference_names=[c["names"][0]] * [1, 3][c["k"] % 2])
    elif kind in ("infer ratios", "infer offsets"):
        valid = dict(kw, infer=dict(inf))
        f = "amp_ratios" if kind == "infer ratios" else "phase_offsets"
        right = 2 * m
        wrong = [q for q in (0, 1, 2, 3, 4, 5, 6) if q != right][c["k"] % 6]
        kw["infer"] = dict(inf, **{f: [0.1] * wrong})
    elif kind == "infer unknown":
        valid = dict(kw, infer=dict(inf))
        f = ["inferred_names", "reference_names"][c["k"] % 2]
        kw["infer"] = dict(inf, **{f: [inf[f][0], w + "?"]})
        exc = KeyError
    elif kind in ("method", "phase", "nodal"):
        good = {"method": ("ols", "robust"), "phase": ("Greenwich", "linear_time", "raw"), "nodal": ("linear_time",)}[kind]
        bad = [w, "", good[0].upper(), good[-1] + " ", good[0][:-1], "none", "linear"][c["k"] % 7]
        if bad in good:
            return
        valid = dict(kw)
        kw[kind] = bad
    elif kind == "order part":
        valid = dict(kw, order_constit=list(c["names"]))
        q = c["names"][c["k"] % len(c["names"])]
        other = next(z for z in ("M2", "S2", "K1", "O1") if z not in c["names"])
        kw["order_constit"] = [[z for z in c["names"] if z != q], list(c["names"]) + [q], [q] * (len(c["names"]) + 1),
                               [z if z != q else other for z in c["names"]], [],
                               [z if z != q else c["names"][c["names"].index(q) - 1] for z in c["names"]] if len(c["names"]) > 1 else []][c["k"] % 6]
        if c["k"] % 2:
            kw["order_constit"] = np.array(kw["order_constit"], dtype=object)
    elif kind == "infer twice":
        valid = dict(kw, infer=dict(inf))
        q = c["names"][0]
        a, b = inferred
        new = [([a, a], [q, q]), ([a, q], [q, q]), ([a, b], [q, a]), ([q, b], [q, q])][c["k"] % 4]
        kw["infer"] = dict(inf, inferred_names=new[0], reference_names=new[1])
    elif kind == "constit":
        kw["constit"] = list(c["names"]) + [[w + "?", "m2", "M 2", "", "S22"][c["k"] % 5]]
        if c["k"] % 3 == 0:
            kw["constit"] = ["M2", "Auto", "all", "M2,S2", "frequency", "none"][c["k"] // 3 % 6]
        exc = KeyError
    elif kind == "constit type":
        kw["constit"] = list(c["names"]) + [[None, 5, 0, ("M2",), b"M2", 1.5][c["k"] % 6]]
        exc = (KeyError, TypeError, ValueError)
    elif kind == "epoch":
        args[0] = t
        valid = dict(kw, epoch="python")
        kw["epoch"] = [w + "!", "Python", "MATLAB", "01/02/2003", "2000-13-01", "2000-02-30", "epoch"][c["k"] % 7]
    elif kind == "epoch datetime":
        kw["epoch"] = ["python", "matlab", "2000-01-01"][c["k"] % 3]
    elif kind == "string times":
        args[0] = np.array([w + "?"] * n, dtype=[object, str][c["k"] % 2])
        if c["k"] % 3:
            kw["epoch"] = "python"
    elif kind == "MC infer":
        valid = dict(kw, infer=dict(inf), conf_int="linear")
        kw["infer"], kw["conf_int"] = dict(inf), "MC"
        exc = NotImplementedError
    elif kind == "robust key":
        kw["method"] = "robust"
        valid = dict(kw)
        kw["robust_kw"] = {["weightfunction", "tuning", "max_iter", "weights"][c["k"] % 4]: 3}
        exc = TypeError
    elif kind == "weight":
        kw["method"] = "robust"
        valid = dict(kw)
        kw["robust_kw"] = {"weight_function": w + "?"}
        exc = KeyError
    else:
        coef = solve(c, T, *x, conf_int="linear")
        # the valid call
        want = recon(T, coef)
        args, kw2 = [T, coef], {"verbose": False}
        fn = utide.reconstruct
        if kind == "r option":
            kw2[["minsnr", "min_snr", "constits", "lat", "minPE"][c["k"] % 5]] = 3
            exc = TypeError
        elif kind == "r 2d":
            args[0] = T.reshape(1, -1) if c["k"] % 2 else T[:, None]
        elif kind == "r epoch":
            args[0] = t
            kw2["epoch"] = [w + "!", "Python", "2000-13-01"][c["k"] % 3]
        elif kind == "r epoch datetime":
            kw2["epoch"] = ["python", "matlab", "2000-01-01"][c["k"] % 3]
        elif kind == "r string times":
            args[0] = np.array([w + "?"] * n)
            if c["k"] % 2:
                kw2["epoch"] = "python"
        refused(exc, fn, args, kw2, kind)
        again = recon(T, coef)
        for f in ("h", "u", "v"):
            if f in want:
                close(again[f], want[f], 1e-12 * np.abs(want[f]).max(), "prediction after a refused one")
        return
    refused(exc, fn, args, kw, kind)
    # the undamaged call works
    good = valid or {q: v for q, v in dict(c["opts"], lat=c["lat"], constit=list(c["names"]), conf_int=c["conf"], verbose=False).items()}
    targ = t if good.get("epoch") == "python" else T
    try:
        coef = quiet(utide.solve, targ, *x, **good)
    except Exception as err:
        need(False, f"{kind}: the valid call raised {type(err).__name__}: {err}")
    need(len(coef["name"]) >= 1, "no constituents")

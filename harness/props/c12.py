"""Constituent filters of reconstruct."""

import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import gen
import ref
from common import background, close, recon, series, solve
from core import need

ID = "C12"
EXAMPLES = {"quick": 1600, "thorough": 15000}
RULE = (
    "One random noisy solution with linear limits and drawn thresholds min_SNR, min_PE (including values between, at "
    "and beyond those of the constituents) or constit subset (list, tuple, array; with names that are absent or repeated), thresholds exactly equal to a value; the "
    "prediction is compared with background plus the sum of the separately predicted constituents that the documented "
    "rule keeps. Non-trivial: the rule keeps some but not all constituents."
)


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 7)) == 5:
        # bands with no residual spectrum but at constituents, which get no limits
        c = draw(gen.base_case(lo=40, hi=120, k=(2, 5), min_hours=40, max_hours=130, sep=1.1, rare=False))
    else:
        c = draw(gen.base_case(lo=250, hi=450, k=(4, 9), min_hours=400, many=25))
    c["rep"] = draw(st.sampled_from([0, 0, 1, 2]))
    c["nseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.3, 1.0, 4.0, 20.0]))
    c["noise"] = draw(st.sampled_from(["white", "red"]))
    c["white"] = draw(st.booleans())
    c["conf"] = draw(st.sampled_from(["linear", "linear", "MC"]))
    c["sub"] = draw(st.lists(st.integers(0, 9), max_size=6))
    c["absent"] = draw(st.lists(st.sampled_from(["SA", "M12", "xx", "M10", "m2", "", "M"]), max_size=2))
    # names that resemble those of the solution, or are other constituents
    c["alike"] = draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["2", "M", "head", "tail", "low", "blank"])),
                               max_size=2))
    c["other"] = draw(st.lists(st.sampled_from(ref.NAMES), max_size=3))
    c["as"] = draw(st.sampled_from(["list", "tuple", "array", "uarray", "series", "index", "set"]))
    rank = st.tuples(st.integers(0, 40), st.sampled_from([0.999, 0.9, 1.001]))
    c["snr"] = draw(st.one_of(rank, rank, rank, st.none(), st.sampled_from([0, 0.5, 10, 1e12])))
    c["pe"] = draw(st.one_of(st.none(), st.none(), rank, st.sampled_from([0, 1, 10, 101])))
    return c


def strategy():
    return strategy_()


def exact(c, coef, names, Tf, bg):
    """Thresholds equal to a value, which is exact: powers of two (and 100 percent of equal parts)."""
    rng = np.random.default_rng(c["nseed"])
    n = len(names)
    co = copy.deepcopy(coef)
    same = bool(c["nseed"] % 2)
    a = 2.0 ** (np.full(n, 1) if same else rng.integers(-3, 4, n))
    s = 2.0 ** rng.integers(-3, 3, n)
    if "A" in co:
        co["A"], co["A_ci"] = a, 1.96 * s
    else:
        co["Lsmaj"], co["Lsmin"], co["Lsmaj_ci"], co["Lsmin_ci"] = a, 0 * a, 1.96 * s, 0 * s
    snr = co["SNR"] = a**2 / s**2
    pe = co["PE"] = 100 * a**2 / (a**2).sum()
    j = np.argsort(-pe, kind="stable")
    co["diagn"] = {"name": co["name"][j], "PE": pe[j], "SNR": snr[j]}
    i = c["nseed"] % n
    k, keep = ({"min_SNR": 0.0, "min_PE": pe[i]}, pe >= pe[i]) if same and n in (1, 2, 4, 5, 8) else ({"min_SNR": snr[i]}, snr >= snr[i])
    got = series(recon(Tf, co, **k))
    want = series(recon(Tf, co, constit=[q for q, z in zip(names, keep) if z]))
    for x, y, z in zip(got, want, bg):
        close(x, y, 1e-9 * (a.sum() + np.abs(z).max()), f"thresholds equal to a constituent's value: {k}")


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    t, (tref, lor, _) = gen.geometry(c)
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    x = [y + c["p"]["s"] * c["namp"] * gen.noise(c["nseed"] + j, c["noise"], len(t)) for j, y in enumerate(x)]
    T = gen.dt64(ms)
    coef = solve(c, T, *x, conf_int=c["conf"], white=c["white"])
    names = [str(q) for q in coef["name"]]
    tf = np.concatenate([ms[::11], [ms[-1] + 86400000 * 9 + 12345678]])
    Tf = gen.dt64(tf)
    scale = max(np.abs(y).max() for y in x) * 5 + sum(np.abs(gen.xy_of_coef(coef)).ravel())
    tol = 1e-9 * scale * 10
    # background only, and each constituent alone
    m, s = background(coef, o["trend"])
    dt = ref.ms_to_days(tf) - float(coef["aux"]["reftime"])
    bg = [a + b * dt for a, b in zip(m, s)]
    none = series(recon(Tf, coef, constit=["no such"]))
    for a, b in zip(none, bg):
        close(a, b, tol, "prediction without any constituent is mean + trend")
    each = {}
    for q in names:
        each[q] = [a - b for a, b in zip(series(recon(Tf, coef, constit=[q])), bg)]

    def total(keep):
        out = [b.copy() for b in bg]
        for q in keep:
            for k in range(len(out)):
                out[k] = out[k] + each[q][k]
        return out

    def test(keep, what, **k):
        for a, b in zip(series(recon(Tf, coef, **k)), total(keep)):
            close(a, b, tol, what)

    # each constituent alone is right, too
    kwm = gen.kw(o)
    for i, q in enumerate(names):
        if td:
            w = ref.predict2(ref.ms_to_days(tf), tref, [q], c["lat"], coef["Lsmaj"][i : i + 1], coef["Lsmin"][i : i + 1],
                             coef["theta"][i : i + 1], coef["g"][i : i + 1], **kwm)
        else:
            w = (ref.predict1(ref.ms_to_days(tf), tref, [q], c["lat"], coef["A"][i : i + 1], coef["g"][i : i + 1], **kwm),)
        for a, b in zip(each[q], w):
            close(a, b, tol * 10, f"contribution of {q}")
    test(names, "all constituents (min_SNR=0)", min_SNR=0)
    test(names, "all constituents by name", constit=names)
    sub = list(dict.fromkeys(names[i % len(names)] for i in c["sub"]))
    alike = []
    for i, how in c["alike"]:
        q = names[i % len(names)]
        alike.append({"2": "2" + q, "M": "M" + q, "head": q[:-1], "tail": q[1:], "low": q.lower(), "blank": q + " "}[how])
    extra = [q for q in c["absent"] + alike + c["other"] if q not in names]
    cl = sub + extra
    cl = cl + cl[: c["rep"]]
    arg = {"list": list, "tuple": tuple, "array": lambda z: np.array(z, dtype=object), "uarray": lambda z: np.array(z, dtype="U5"),
           "series": lambda z: pd.Series(z, index=np.arange(len(z)) + 7, dtype=object), "index": lambda z: pd.Index(z, dtype=object), "set": set}[c["as"]](cl)
    test([q for q in names if q in cl], f"constit={cl}", constit=arg)
    test([q for q in names if q in cl], f"constit={cl} overrides the thresholds", constit=arg, min_SNR=1e9, min_PE=99)
    # thresholds
    if td:
        E = np.asarray(coef["Lsmaj"]) ** 2 + np.asarray(coef["Lsmin"]) ** 2
        N = (np.asarray(coef["Lsmaj_ci"]) / 1.96) ** 2 + (np.asarray(coef["Lsmin_ci"]) / 1.96) ** 2
    else:
        E, N = np.asarray(coef["A"]) ** 2, (np.asarray(coef["A_ci"]) / 1.96) ** 2
    snr, pe = E / N, 100 * E / E.sum()

    exact(c, coef, names, Tf, bg)

    def thr(spec, vals, default):
        if spec is None:
            return default
        if isinstance(spec, (int, float)):
            return spec
        v = np.sort(vals[np.isfinite(vals)])
        if len(v) == 0:
            return default
        f = spec[1]
        return float(v[spec[0] % len(v)] * f)

    a, b = thr(c["snr"], snr, 2), thr(c["pe"], pe, 0)
    if a == 0 and b == 0:
        keep = names
    elif a == 0 and not np.all(np.isfinite(snr)):
        rec.label("no SNR to compare with a threshold of zero (skipped)")
        return
    else:
        # thresholds that coincide with a value are decided by rounding: exclude
        for v, th, spec in ((snr, a, c["snr"]), (pe, b, c["pe"])):
            if np.any(np.abs(v - th) <= 1e-9 * max(th, 1e-300)) and th > 0:
                rec.label("threshold within rounding (skipped)")
                return
        keep = [q for q, y, z in zip(names, snr, pe) if y >= a and z >= b]
    k = {}
    if c["snr"] is not None:
        k["min_SNR"] = a
    if c["pe"] is not None:
        k["min_PE"] = b
    rec.nontrivial = 0 < len(keep) < len(names)
    if not np.all(np.isfinite(snr)):
        rec.label("constituents without SNR")
    rec.label(f"kept={'all' if len(keep)==len(names) else 'none' if not keep else 'some'}", "conf=" + c["conf"], "2d" if td else "1d")
    test(keep, f"min_SNR={a}, min_PE={b}", **k)

"""A solution describes itself."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import check_coef_shape, close, rows, solve
from core import need

ID = "C29"
EXAMPLES = {"quick": 900, "thorough": 20000}
RULE = (
    "Random records analysed with every combination of options (dimension, trend, limits, method, inference, selection, "
    "order, phase, nodal, gaps). The solution must hold one entry per constituent in every field of its dimension, "
    "limits / energies / signal-to-noise ratios and the slope exactly when asked for, one weight per sample used, and "
    "the latitude, reference time, frequencies, table indices and options of the analysis. Non-trivial: every case."
)
PER = {"none": [], "linear": ["g_ci"], "MC": ["g_ci"]}


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=160, hi=320, big=4000, many=40))
    c["nseed"] = draw(gen.seeds)
    c["conf"] = draw(st.sampled_from(["none", "linear", "MC", None]))
    c["white"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(["ols", "ols", "robust"]))
    c["order"] = draw(st.sampled_from([None, "PE", "frequency", "SNR", "list"]))
    c["auto"] = draw(st.integers(0, 3)) == 0
    c["rmin"] = draw(st.sampled_from([None, 1, 0.8, 2.0]))
    c["infer"] = draw(st.booleans())
    c["gap"] = draw(st.sampled_from([0.0, 0.0, 0.05]))
    c["lost"] = draw(st.booleans())
    c["rf"] = draw(st.sampled_from([None, {"weight_function": "huber"}, {"weight_function": "cauchy", "tune": 3.0}]))
    return c


def strategy():
    return strategy_()


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], dict(c["opts"])
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"] + 3)
    good = rng.uniform(size=len(ms)) >= c["gap"]
    t, (tref, lor, _) = gen.geometry(c, good)
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    s = c["p"]["s"]
    x = [y + s * gen.noise(c["nseed"] + j, "white", len(t)) for j, y in enumerate(x)]
    x[0] = np.where(good, x[0], np.nan)
    conf = c["conf"] or "linear"
    order = c["order"]
    if order == "SNR" and conf == "none":
        order = "PE"
    kw = {"white": c["white"], "method": c["method"]}
    if c["conf"]:
        kw["conf_int"] = c["conf"]
    else:
        kw["conf_int"] = "linear"
    names = list(c["names"])
    T = gen.dt64(ms)
    if c["auto"]:
        rmin = 1 if c["rmin"] is None else c["rmin"]
        names = [n for n, d in zip(ref.NAMES, ref.DF) if d >= rmin / (24 * lor)]
        kw["constit"] = "auto"
        if c["rmin"] is not None:
            kw["Rayleigh_min"] = c["rmin"]
        if len(names) * 2 + 2 > good.sum() / 3 or order == "list" or not names:
            rec.label("skipped")
            return
    nin = nref = 0
    allnames = list(names)
    if c["infer"] and conf != "MC":
        pool = [n for n in ref.NAMES if n not in names and n not in ("M7", "Z0")]
        k = [1, 2, 2, 3, 6][c["nseed"] % 5]
        b = [pool[(c["nseed"] // (1 + 6 * i) + i) % len(pool)] for i in range(k)]
        b = list(dict.fromkeys(b))
        a = [names[(c["nseed"] // (1 + 2 * i)) % len(names)] for i in range(len(b))]
        nin, nref = len(b), len(set(a))
        m = 2 if td else 1
        kw["infer"] = {"inferred_names": b, "reference_names": a, "amp_ratios": [0.2, 0.3, 0.1, 0.4, 0.05, 0.15][:nin] * m,
                       "phase_offsets": [20.0, -50.0, 0.0, 90.0, 170.0, -10.0][:nin] * m}
        allnames += b
    if order == "list":
        order = [allnames[i] for i in rng.permutation(len(allnames))]
    if order is not None:
        kw["order_constit"] = order
    if c["method"] == "robust" and c["rf"]:
        kw["robust_kw"] = c["rf"]
    X = gen.model_columns(t[good], tref, lor, names, c)
    if not ref.cond(X) < 1e4 or X.shape[0] < 3 * X.shape[1] + 10:
        rec.label("ill-conditioned (skipped)")
        return
    rec.nontrivial = True
    rec.label("conf=" + conf, "2d" if td else "1d", c["method"], "infer" if nin else "plain", "auto" if c["auto"] else "list")
    coef = solve(dict(c, opts=o), T, *x, **kw)
    n = len(allnames)
    check_coef_shape(coef, n, td, o["trend"])
    idx = rows(coef, allnames)
    est = ["Lsmaj", "Lsmin", "theta", "g"] if td else ["A", "g"]
    for f in est:
        if conf == "none":
            need(f + "_ci" not in coef, f"{f}_ci though no limits were asked for")
        else:
            need(f + "_ci" in coef and np.shape(coef[f + "_ci"]) == (n,), f"{f}_ci: one limit per constituent expected")
            ci = np.asarray(coef[f + "_ci"])
            need(np.all(np.isnan(ci) | (ci >= 0)), f"{f}_ci: negative limit")
    for f in ("SNR", "diagn"):
        need((f in coef) == (conf != "none"), f"{f} present: {f in coef}, limits: {conf}")
    if conf != "none":
        need(np.shape(coef["SNR"]) == (n,), "SNR: one per constituent")
        dn = [str(q) for q in coef["diagn"]["name"]]
        need(sorted(dn) == sorted(allnames), lambda: f"diagnostics of {dn}")
        need(np.shape(coef["diagn"]["PE"]) == (n,) and np.shape(coef["diagn"]["SNR"]) == (n,), "diagnostics: one per constituent")
    if conf != "none" or order in (None, "PE"):
        need("PE" in coef and np.shape(coef["PE"]) == (n,), "PE: one per constituent")
        need(abs(np.sum(coef["PE"]) - 100) < 1e-6, "percent energies do not add up to 100")
    for f in ("uslope", "vslope") if td else ("slope",):
        need((f in coef) == bool(o["trend"]), f"{f} present: {f in coef}, trend: {o['trend']}")
    for f in ("mean", "slope") if td else ("umean", "vmean", "uslope", "vslope", "theta_ci", "Lsmin"):
        need(f not in coef, f"{f} in a {'vector' if td else 'scalar'} solution")
    w = np.asarray(coef["weights"])
    need(w.shape == (int(good.sum()),), lambda: f"{w.shape} weights for {int(good.sum())} samples used")
    need(np.all((w >= 0) & (w <= 1 + 1e-12)), "weights outside 0..1")
    if c["method"] == "ols":
        need(np.all(w == 1), "weights of ordinary least squares are not one")
        need("rf" not in coef, "robust-fit report in an ordinary least-squares solution")
    else:
        need("rf" in coef, "no robust-fit report")
        rk = c["rf"] or {"weight_function": "cauchy"}
        for k, v in rk.items():
            need(coef["rf"][k] == v, f"rf.{k} is {coef['rf'][k]!r}, asked for {v!r}")
    need((int(coef["nI"]), int(coef["nR"]), int(coef["nNR"])) == (nin, nref, len(names) - nref),
         lambda: f"counts nI, nR, nNR = {coef['nI']}, {coef['nR']}, {coef['nNR']}")
    aux = coef["aux"]
    need(float(aux["lat"]) == float(c["lat"]), "aux.lat is not the latitude given")
    need(abs(float(aux["reftime"]) - tref) < 1e-6, lambda: f"aux.reftime {aux['reftime']} instead of {tref}")
    lin = ref.lin_freqs(tref)
    want = np.array([float(lin[ref.INDEX[q]]) for q in allnames])
    close(np.asarray(aux["frq"], float)[idx], want, 1e-12, "aux.frq (frequencies at the reference time, in the solution's order)")
    need([int(q) for q in np.asarray(aux["lind"])[idx]] == [ref.INDEX[q] for q in allnames], "aux.lind (table indices, in the solution's order)")
    opt = aux["opt"]
    need(bool(opt["twodim"]) == td, "aux.opt.twodim")
    if "equi" in opt:
        need(bool(opt["equi"]) == (r["kind"] == "equi"), "aux.opt.equi")
    new = opt["newopts"] if "newopts" in opt else {}
    given = dict(o, **{k: v for k, v in kw.items() if k not in ("infer", "order_constit", "constit")})
    for k, v in given.items():
        need(k not in new or new[k] == v, lambda: f"aux.opt records {k}={new[k]!r}, given {v!r}")

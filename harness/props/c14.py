"""Diagnostics follow their definitions; limits scale with the data."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import close, fields, rows, solve
from core import need

ID = "C14"
EXAMPLES = {"quick": 800, "thorough": 15000}
RULE = (
    "Random noisy record, OLS or robust, linear limits (white or coloured), with inference or not. PE, SNR and the "
    "diagn table are recomputed from the returned parameters and limits; the analysis is repeated with data scaled by "
    "a drawn factor of either sign, shifted by a constant, with a trend added (when modelled), with known tide added "
    "(OLS), and with the noise alone amplified; one case in forty checks the definitions for all constituents (up to 67) that a year of data resolves. Non-trivial: at least 2 constituents with finite limits."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=250, hi=500, min_hours=300, k=(2, 8), many=30))
    if draw(st.integers(0, 39)) == 17:
        # every constituent that a long record resolves
        c["rec"] = {"start": draw(gen.starts()), "step": 3600000, "n": draw(st.integers(6000, 10000)), "kind": "equi"}
        c["wide"] = True
    c["nseed"] = draw(gen.seeds)
    c["noise"] = draw(st.sampled_from(gen.NOISE))
    c["namp"] = draw(st.sampled_from([0.1, 1.0, 3.0, 0.1, 1.0, 3.0, 1e-5]))
    if draw(st.integers(0, 3)) == 2:
        # constituents that hardly count
        c["p"]["Lsmaj" if c["twodim"] else "A"][0] *= draw(st.sampled_from([1e-2, 1e-5, 1e-7]))
    c["white"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(["ols", "ols", "robust"]))
    c["factor"] = draw(st.sampled_from([-1.0, 2.0, 1e-4, -250.0, 1e6, 0.3048]))
    c["off"] = draw(st.sampled_from([1.0, -30.0, 500.0]))
    c["addseed"] = draw(gen.seeds)
    c["gap"] = draw(st.sampled_from([0.0, 0.15]))
    c["infer"] = draw(st.integers(0, 3)) == 0
    return c


def strategy():
    return strategy_()


def check_diag(co, td, what=""):
    E = np.asarray(co["Lsmaj"]) ** 2 + np.asarray(co["Lsmin"]) ** 2 if td else np.asarray(co["A"]) ** 2
    if td:
        N = (np.asarray(co["Lsmaj_ci"]) / 1.96) ** 2 + (np.asarray(co["Lsmin_ci"]) / 1.96) ** 2
    else:
        N = (np.asarray(co["A_ci"]) / 1.96) ** 2
    pe = np.asarray(co["PE"], float)
    close(pe, ref.PE2(E), 1e-9 * ref.PE2(E), "PE from the definition " + what)
    need(abs(pe.sum() - 100) < 1e-9 * 100, "PE does not sum to 100")
    snr = E / N
    close(co["SNR"], snr, 1e-9 * np.nan_to_num(np.abs(snr)), "SNR from the definition " + what)
    d = co["diagn"]
    names = [str(q) for q in co["name"]]
    j = [names.index(str(q)) for q in d["name"]]
    need(sorted(j) == list(range(len(names))), "diagn lists each constituent once")
    close(np.asarray(d["PE"], float), pe[j], 1e-9 * pe[j], "diagn PE")
    close(np.asarray(d["SNR"], float), snr[j], 1e-9 * np.nan_to_num(np.abs(snr[j])), "diagn SNR")
    need(np.all(np.diff(np.asarray(d["PE"], float)) <= 1e-9), "diagn is not sorted by decreasing PE")
    for f in fields(co):
        ci = np.asarray(co[f + "_ci"], float)
        need(ci.shape == (len(names),), f"{f}_ci has shape {ci.shape}")
        need(np.all(ci[np.isfinite(ci)] >= 0), f"{f}_ci is negative")


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"])
    good = rng.uniform(size=len(ms)) >= c["gap"]
    t, (tref, lor, _) = gen.geometry(c, good)
    h = gen.signal(c, t, tref)
    h = list(h) if td else [h]
    s = c["p"]["s"]
    e = [s * c["namp"] * gen.noise(c["nseed"] + j, c["noise"], len(t)) for j in range(1 + td)]
    x = [a + b for a, b in zip(h, e)]
    if c.get("wide"):
        co = solve(c, gen.dt64(ms), *[np.where(good, q, np.nan) for q in x], constit="auto", conf_int="linear", white=c["white"])
        rec.label("wide", "more than 50 constituents" if len(co["name"]) > 50 else "at most 50")
        rec.nontrivial = True
        check_diag(co, td)
        return
    names = list(c["names"])
    over = {"conf_int": "linear", "white": c["white"], "method": c["method"]}
    if c["infer"]:
        m = 2 if td else 1
        ri = [q for q in ("H1", "PI1", "T2") if q not in names][:1]
        over["infer"] = {"inferred_names": ri, "reference_names": [names[0]], "amp_ratios": [0.3] * m, "phase_offsets": [25.0] * m}
        names = names + ri
    kappa = ref.cond(gen.model_columns(t[good], tref, lor, c["names"], c))
    if not kappa < 100:
        rec.label("ill-conditioned (skipped)")
        return
    T = gen.dt64(ms)
    run = lambda y: solve(c, T, *[np.where(good, q, np.nan) for q in y], **over)  # noqa: E731
    base = run(x)
    check_diag(base, td)
    F = fields(base)
    ib = rows(base, names)
    ci0 = {f: np.asarray(base[f + "_ci"], float)[ib] for f in F}
    a0 = np.asarray(base["Lsmaj" if td else "A"])[ib]
    fin = np.isfinite(ci0[F[0]])
    rec.nontrivial = int(fin.sum()) >= 2
    rec.label("white" if c["white"] else "coloured", c["method"], "2d" if td else "1d", "infer" if c["infer"] else "plain")
    dimful = {"A", "Lsmaj", "Lsmin"}
    if c["namp"] < 1e-3:
        # limits of a residual far below the signal are subject to rounding
        rec.label("hardly any noise")
        return
    # the robust iteration stops on a relative criterion and may take one step more or less after rounding
    rt = 1e-6

    def cmp(co, factor, what, rt=rt, angles=True):
        check_diag(co, td, what)
        ic = rows(co, names)
        for f in F:
            if f not in dimful and not angles:
                continue
            a = np.asarray(co[f + "_ci"], float)[ic]
            b = ci0[f] * (factor if f in dimful else 1)
            # rectilinear or circular ellipses have ill-defined derivatives
            ok = np.isfinite(b)
            if td:
                ok &= np.abs(a0) - np.abs(np.asarray(base["Lsmin"])[ib]) > 0.02 * np.abs(a0)
            close(a[ok], b[ok], rt * np.abs(b[ok]) + 1e-9 * np.nanmax(b, initial=0) * (1 if f in dimful else 0), f"{f}_ci {what}")
            need(np.array_equal(np.isfinite(a), np.isfinite(b)), f"{f}_ci {what}: missing values differ")

    k = c["factor"]
    co = run([k * y for y in x])
    cmp(co, abs(k), f"with data times {k}")
    close(np.asarray(co["PE"])[rows(co, names)], np.asarray(base["PE"])[ib], 1e-5, f"PE with data times {k}")
    cmp(run([y + c["off"] * s for y in x]), 1, "with a constant added", rt=1e-5)
    if o["trend"]:
        cmp(run([y + 3 * s * (t - t[0]) / lor for y in x]), 1, "with a trend added", rt=1e-5)
    if c["method"] == "ols":
        # limits of the amplitudes depend on the residual, not on the tide; angles scale with 1/amplitude
        ag = dict(c, p=dict(c["p"]))
        rng2 = np.random.default_rng(c["addseed"])
        q = {kk: ([float(z) for z in rng2.uniform(0.2, 1, len(v)) * 360] if kk == "g" else v) for kk, v in c["p"].items() if isinstance(v, list)}
        ag["p"].update(q)
        h2 = gen.signal(ag, t, tref)
        h2 = list(h2) if td else [h2]
        co = run([a + b for a, b in zip(h2, e)])
        check_diag(co, td, "other tide")
        if not td and not c["infer"]:
            # same residual: variances of the coefficients are the same, so the limits obey
            # A_ci^2 + (A g_ci)^2 = 1.96^2 (varX + varY) before and after
            ic = rows(co, names)
            f = lambda z, i: np.asarray(z["A_ci"])[i] ** 2 + (np.asarray(z["A"])[i] * np.radians(np.asarray(z["g_ci"])[i])) ** 2  # noqa: E731
            a, b = f(co, ic), f(base, ib)
            ok = np.isfinite(b)
            close(a[ok], b[ok], 1e-5 * b[ok], "total variance with another tide and the same residual")
        # same tide, noise doubled: twice the dimensional limits up to first order in the coefficients
        if c["namp"] <= 0.1:
            pass
        fit = [y - z for y, z in zip(x, _hind(base, T))]
        x2 = [z + 2 * w for z, w in zip(_hind(base, T), fit)]
        cmp2 = run(x2)
        ic = rows(cmp2, names)
        for f in F:
            a, b = np.asarray(cmp2[f + "_ci"], float)[ic], 2 * ci0[f]
            ok = np.isfinite(b)
            if td:
                ok &= np.abs(a0) - np.abs(np.asarray(base["Lsmin"])[ib]) > 0.02 * np.abs(a0)
            close(a[ok], b[ok], 1e-5 * np.abs(b[ok]), f"{f}_ci with twice the residual")


def _hind(coef, T):
    from common import recon_all

    return recon_all(T, coef)

"""Ordinary least squares solution is the least squares solution."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import background, check_coef_shape, close, recon_all, rows, solve
from core import need

ID = "C02"
EXAMPLES = {"quick": 1300, "thorough": 20000}
RULE = (
    "Random record, constituents and options as in C01, plus unexplained energy (white, red, spiky, random walk or "
    "uniform noise, drawn amplitude), 1-D or 2-D, with conf_int none/linear/MC; compared with an independent QR "
    "solution on real columns and with perturbed parameter sets. Non-trivial: condition number < 1000 and the noise "
    "is at least 1 percent of the signal; above that (up to 1e8) the size of the residual must be the least."
)


@st.composite
def crowded(draw):
    """Neighbouring constituents that the record hardly separates."""
    r = {"start": draw(gen.starts()), "step": draw(st.sampled_from([600000, 1800000, 3600000])), "n": draw(st.integers(200, 2500)),
         "kind": draw(st.sampled_from(["equi", "equi", "jitter", "subset"])), "seed": draw(gen.seeds)}
    by = sorted(range(ref.NC), key=lambda i: ref.FREQ[i])
    T = gen.hours_span(r)
    names = []
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.sampled_from([by.index(ref.INDEX[m]) for m in ("M2", "S2", "K1", "N2", "O1", "P1", "MU2", "M4")]))
        names += [ref.NAMES[j] for j in by[i : i + draw(st.integers(2, 4))]]
    sep = draw(st.sampled_from([0.02, 0.05, 0.1, 0.3])) / T
    out = []
    for nm in names:
        f = ref.FREQ[ref.INDEX[nm]]
        if nm not in out and all(abs(f - ref.FREQ[ref.INDEX[o]]) >= sep for o in out):
            out.append(nm)
    td = draw(st.booleans())
    return {"rec": r, "names": out, "lat": draw(gen.lats()), "twodim": td, "p": draw(gen.params(out, td)), "opts": draw(gen.model_opts())}


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 4)) == 2:
        c = draw(crowded())
    else:
        c = draw(gen.base_case(big=12000, small=30, many=15))
    c["noise"] = draw(st.sampled_from(gen.NOISE))
    c["nseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.01, 0.3, 1.0, 10.0, 1000.0]))
    c["gapseed"] = draw(st.one_of(st.none(), gen.seeds))
    c["conf"] = draw(st.sampled_from(["none", "none", "none", "linear", "MC"]))
    c["white"] = draw(st.booleans())
    c["explicit"] = draw(st.sampled_from(["names", "names", "auto"]))
    return c


def strategy():
    return strategy_()


def fixed_cases(tier):
    """Every record length in a range, and those next to round numbers."""
    out = []
    for i, n in enumerate(list(range(20, 300)) + gen.round_sizes(300, 9000)):
        td = bool(i % 2)
        names = [["M2"], ["M2", "K1"], ["O1", "M4"]][i % 3] if n > 60 else ["M2"]
        k = len(names)
        p = {"s": 1.0, "mean": 0.5, "slope": 0.01, "A": [0.7] * k, "g": [40.0] * k}
        if td:
            p = {"s": 1.0, "um": 0.5, "vm": -1.0, "us": 0.01, "vs": 0.0, "Lsmaj": [0.7] * k, "ratio": [0.3] * k, "theta": [20.0] * k, "g": [40.0] * k}
        o = {"phase": ["Greenwich", "raw", "linear_time"][i % 3], "nodal": [True, False, "linear_time"][i // 3 % 3], "trend": bool(i // 2 % 2)}
        r = {"start": 1500000000000 + i * 86400000 * 30, "step": [3600000, 5400000][i // 5 % 2], "n": n, "kind": ["equi", "jitter"][i // 7 % 2], "seed": i}
        out.append({"rec": r, "names": names, "lat": 10.0 * (i % 17) - 80, "twodim": td, "p": p, "opts": o, "noise": "white", "nseed": i,
                    "namp": 0.5, "gapseed": i if i % 11 == 3 else None, "conf": "linear" if i % 4 == 1 else "none", "white": True, "explicit": "names"})
    # large models
    for i, n in enumerate([26000, 40000, 52000, 70000][: 2 if tier == "quick" else 4]):
        td = bool(i % 2)
        names = ["M2", "S2", "N2", "K2", "K1", "O1", "P1", "Q1", "M4", "MS4", "MN4", "M6", "MK3", "M3", "L2", "NO1", "J1", "OO1", "SK3", "2MS6", "M8", "2N2", "NU2",
                 "MF", "MM", "MSF", "2MN6", "MK4", "2Q1", "2MK5", "S4", "SO3", "MO3", "EPS2", "LDA2", "CHI1", "SO1", "3MK7", "M10", "SK4"]
        k = len(names)
        p = {"s": 1.0, "mean": 0.5, "slope": 0.01, "A": [0.7] * k, "g": [40.0] * k}
        if td:
            p = {"s": 1.0, "um": 0.5, "vm": -1.0, "us": 0.01, "vs": 0.0, "Lsmaj": [0.7] * k, "ratio": [0.3] * k, "theta": [20.0] * k, "g": [40.0] * k}
        o = {"phase": "Greenwich", "nodal": True, "trend": bool(i // 2 == 0)}
        out.append({"rec": {"start": 1200000000000, "step": 3600000, "n": n, "kind": "equi", "seed": i}, "names": names, "lat": 33.0, "twodim": td, "p": p,
                    "opts": o, "noise": "white", "nseed": i, "namp": 0.5, "gapseed": None, "conf": "none", "white": True, "explicit": "names"})
    return out


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    t, (tref, lor, _) = gen.geometry(c)
    good = np.ones(len(t), bool)
    if c["gapseed"] is not None:
        good = np.random.default_rng(c["gapseed"]).uniform(size=len(t)) > 0.15
        t, (tref, lor, _) = gen.geometry(c, good)
    s = c["p"]["s"]
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    for j in range(len(x)):
        x[j] = x[j] + s * c["namp"] * gen.noise(c["nseed"] + j, c["noise"], len(t))
    if c["explicit"] == "auto":
        names = [n for n, d in zip(ref.NAMES, ref.DF) if d >= 1 / (24 * lor)]
        c = dict(c, names=names)
        over = {"constit": "auto"}
    else:
        names, over = c["names"], {}
    rec.label("constit=" + c["explicit"], "noise=" + c["noise"], "conf=" + c["conf"], r["kind"])
    X = gen.model_columns(t[good], tref, lor, names, c)
    kappa = ref.cond(X)
    dat = [np.where(good, y, np.nan) for y in x]
    if not kappa < 1e8 or X.shape[0] < 3 * X.shape[1]:
        rec.label("ill-conditioned (skipped)")
        return
    B = ref.lsq(X, np.stack([y[good] for y in x], axis=-1))
    rec.nontrivial = c["namp"] >= 0.3
    if kappa >= 1000:
        # the coefficients are sensitive, the quality of the fit is not
        rec.label(f"crowded 1e{int(np.log10(kappa))}")
        T = gen.dt64(gen.times_ms(r))
        coef = solve(c, T, *dat, conf_int="none", **over)
        scale = max(max(np.abs(y[good]).max() for y in x), np.abs(B).max())
        for j, (y, f) in enumerate(zip(x, recon_all(T[good], coef))):
            got = np.linalg.norm(y[good] - f)
            want = np.linalg.norm(y[good] - X @ B[:, j])
            need(got <= want * (1 + 1e-7) + 1e-9 * scale * np.sqrt(len(f)), lambda: f"residual {got:.12g}, least squares {want:.12g} (condition number {kappa:.2g})")
        return
    coef = solve(c, gen.dt64(gen.times_ms(r)), *dat, conf_int=c["conf"], white=c["white"], **over)
    nc = len(names)
    check_coef_shape(coef, nc, td, o["trend"])
    # nearly degenerate models can have coefficients much larger than the data
    scale = max(max(np.abs(y[good]).max() for y in x), np.abs(B).max())
    tol = 5e-9 * kappa * scale
    idx = rows(coef, names)
    close(gen.xy_of_coef(coef, idx), gen.fit_xy(B, nc), tol, "least squares coefficients")
    m, sl = background(coef, o["trend"])
    close(m, B[2 * nc], tol, "mean")
    if o["trend"]:
        close(np.array(sl) * lor, B[2 * nc + 1], tol, "trend")
    need(np.all(np.asarray(coef["weights"]) == 1), "OLS weights are not one")
    need(np.asarray(coef["weights"]).shape == (good.sum(),), "one weight per used sample")
    # hindcast: residual orthogonal to the model space, no better neighbour
    fit = recon_all(gen.dt64(gen.times_ms(r)[good]), coef)
    rng = np.random.default_rng(c["nseed"] + 77)
    for j, y in enumerate(x):
        res = y[good] - fit[j]
        dots = (X * res[:, None]).sum(axis=0) / (np.linalg.norm(X, axis=0) * np.sqrt(len(res)))
        need(
            np.all(np.abs(dots) <= 1e-8 * kappa * scale),
            lambda: f"residual not orthogonal to the model: {np.abs(dots).max():.3g}",
        )
        rss = (res**2).sum()
        for _ in range(3):
            d = X @ rng.standard_normal(X.shape[1]) * scale * 10.0 ** rng.integers(-5, 0)
            need(((res - d) ** 2).sum() >= rss * (1 - 1e-10), "a perturbed solution fits better")

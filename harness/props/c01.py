"""Known tide in, known tide out."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import background, check_coef_shape, close, recon_all, rows, solve
from core import need
ID = "C01"
EXAMPLES = {"quick": 1800, "thorough": 30000}
RULE = (
    "Random record (16 min..3 h steps, equally spaced / jittered / holed, 1700-2200), latitude, 1-8 resolvable "
    "constituents out of all 145, scalar or vector, every phase x nodal x trend option, NaN gaps; the noise-free "
    "signal comes from the independent reference model. Non-trivial: the design matrix has condition number < 300 "
    "and there are at least 2 constituents or the record is not a plain gap-free equally spaced one."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(big=20000, small=24, many=15))
    c["gapseed"] = draw(st.one_of(st.none(), gen.seeds))
    c["order"] = draw(st.sampled_from([None, "PE", "frequency", "list"]))
    c["conf_int"] = draw(st.sampled_from(["none", "none", "linear"]))
    c["fc"] = draw(st.lists(st.integers(-3650 * 24, 3650 * 24), min_size=1, max_size=12))
    return c


def strategy():
    return strategy_()


def fixed_cases(tier):
    # every constituent once, scalar and vector, resolvable record
    step, n = 3600000, 700
    out = []
    for i, nm in enumerate(ref.NAMES):
        f = ref.FREQ[i]
        if nm in ("Z0", "M7"):
            continue
        r = {"start": 1000000000000 + 86400000 * 37 * i, "step": step, "n": n, "kind": "equi"}
        if f < 0.004:
            r["step"] = 10800000 * 8 if f < 0.0005 else 10800000
        out.append(
            {
                "rec": r, "names": [nm], "lat": [-52.0, 0, 33.25, 4.0][i % 4], "twodim": i % 2 == 0,
                "p": {"s": 1.0, "Lsmaj": [1.5], "ratio": [-0.4], "theta": [150.0], "g": [200.0], "um": 0.1,
                      "vm": 0.2, "us": 0.001, "vs": 0.0} if i % 2 == 0
                else {"s": 1.0, "A": [1.25], "g": [300.0], "mean": -0.3, "slope": 0.001},
                "opts": {"phase": "Greenwich", "nodal": True, "trend": True}, "gapseed": None,
                "order": None, "conf_int": "none", "fc": [100, -40000],
            }
        )
    # records of hours
    for i in range(60):
        hours = [2.5, 4, 6.5, 9, 11.5, 12.5, 16, 23, 25, 30][i % 10]
        fit = [nm for nm in ("M2", "S2", "M3", "SK3", "M4", "S4", "2MK5", "M6", "2SM6", "3MK7", "M8") if ref.FREQ[ref.INDEX[nm]] * hours > 1.1]
        if not fit:
            fit = ["M8"]
        nm = fit[i // 10 % len(fit)]
        step = [60000, 300000, 600000][i // 3 % 3]
        td = i // 2 % 2 == 0
        out.append(
            {
                "rec": {"start": 900000000000 + 86400000 * 51 * i, "step": step, "n": int(hours * 3600000 / step), "kind": ["equi", "jitter", "equi"][i % 3], "seed": i},
                "names": [nm], "lat": [45.0, -20.0, 71.0][i % 3], "twodim": td,
                "p": {"s": 1.0, "Lsmaj": [0.8], "ratio": [0.5], "theta": [35.0], "g": [320.0], "um": 1.5, "vm": -0.5, "us": 0.3, "vs": -0.2} if td
                else {"s": 1.0, "A": [0.8], "g": [110.0], "mean": 2.0, "slope": 0.4},
                "opts": {"phase": ["Greenwich", "raw", "linear_time"][i // 5 % 3], "nodal": [True, False, "linear_time"][i // 7 % 3], "trend": i % 5 != 4}, "gapseed": None,
                "order": None, "conf_int": "none", "fc": [2, -5],
            }
        )
    # known finding: see known_findings.txt
    for k, ph in enumerate(("Greenwich", "linear_time")):
        out.append(
            {
                "rec": {"start": 1400000000000, "step": 3600000, "n": 500 + k, "kind": "equi"},
                "names": ["M7"], "lat": 40.0, "twodim": False,
                "p": {"s": 1.0, "A": [1.0], "g": [60.0], "mean": 0.0, "slope": 0.0},
                "opts": {"phase": ph, "nodal": True, "trend": False}, "gapseed": None,
                "order": None, "conf_int": "none", "fc": [10],
            }
        )
    return out


def m7(c, rec):
    """M7 in Greenwich phase: right, or exactly the recorded finding, or wrong."""
    rec.label("M7")
    t, (tref, lor, _) = gen.geometry(c)
    h = gen.signal(c, t, tref)
    coef = solve(c, gen.dt64(gen.times_ms(c["rec"])), h)
    got = gen.xy_of_coef(coef, rows(coef, ["M7"]))
    if np.allclose(got, gen.truth_xy(c), atol=1e-6):
        return
    F, phi = ref.columns(t, tref, ["M7"], c["lat"], m7_wrapped=True, **gen.kw(c["opts"]))
    X = np.hstack([F * np.cos(phi), F * np.sin(phi), np.ones((len(t), 1))])
    close(got[0], ref.lsq(X, h)[:2], 1e-6, "M7 coefficients (neither M7 nor the recorded finding)")
    rec.finding(
        "M7-half-cycle",
        f"M7 alone with phase={c['opts']['phase']!r}: a noise-free 1 m M7 tide comes back as {np.hypot(*got[0]):.3f} m, "
        f"phase {np.degrees(np.arctan2(got[0][1], got[0][0])) % 360:.1f} instead of 60",
    )


def check(c, rec):
    if c["names"] == ["M7"]:
        return m7(c, rec)
    r, td, o = c["rec"], c["twodim"], c["opts"]
    t, (tref, lor, _) = gen.geometry(c)
    good = np.ones(len(t), bool)
    if c["gapseed"] is not None:
        rng = np.random.default_rng(c["gapseed"])
        good = rng.uniform(size=len(t)) > 0.15
        i = rng.integers(0, len(t))
        good[i : i + len(t) // 10] = False
        t, (tref, lor, _) = gen.geometry(c, good)
        rec.label("gaps")
    rec.label(r["kind"], "2d" if td else "1d", "phase=" + o["phase"], f"nodal={o['nodal']}")
    X = gen.model_columns(t[good], tref, lor, c["names"], c)
    kappa = ref.cond(X)
    if not kappa < 300:
        rec.label("ill-conditioned (skipped)")
        return
    rec.nontrivial = len(c["names"]) > 1 or r["kind"] != "equi" or c["gapseed"] is not None
    full = gen.signal(c, t, tref)
    full = list(full) if td else [full]
    dat = [np.where(good, x, np.nan) for x in full]
    order = c["names"] if c["order"] == "list" else c["order"]
    coef = solve(c, gen.dt64(gen.times_ms(r)), *dat, order_constit=order, conf_int=c["conf_int"])
    check_coef_shape(coef, len(c["names"]), td, o["trend"])
    s = c["p"]["s"]
    scale = s * (5 + 5 * len(c["names"]) + 0.05 * lor)
    tol = 1e-9 * kappa * scale
    idx = rows(coef, c["names"])
    got, want = gen.xy_of_coef(coef, idx), gen.truth_xy(c)
    for k, nm in enumerate(c["names"]):
        # a constituent whose nodal factor is small is determined less well
        close(got[k], want[k], tol * 10, f"cosine/sine coefficients of {nm}")
    p = c["p"]
    m, sl = background(coef, o["trend"])
    wm, ws = ([p["um"], p["vm"]], [p["us"], p["vs"]]) if td else ([p["mean"]], [p["slope"]])
    close(m, np.array(wm) * s, tol * 10, "mean")
    if o["trend"]:
        close(np.array(sl) * lor, np.array(ws) * s * lor, tol * 10, "trend over the record")
    # hindcast and forecast
    tf = np.concatenate([gen.times_ms(r), r["start"] + np.array(c["fc"], dtype=np.int64) * 3600000])
    td_ = ref.ms_to_days(tf)
    want = gen.signal(c, td_, tref)
    want = list(want) if td else [want]
    far = np.abs(td_ - tref) / max(lor, 1e-9)
    out = recon_all(gen.dt64(tf), coef)
    need(len(out) == len(want), "scalar/vector output mismatch")
    for a, b in zip(out, want):
        close(a, b, tol * 20 * (1 + far), "predicted tide")

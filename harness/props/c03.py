"""Prediction equals the documented harmonic sum."""

import copy

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import background, close, recon_all, rows, solve, total_scale
from core import need

ID = "C03"
EXAMPLES = {"quick": 1300, "thorough": 20000}
RULE = (
    "solve() on a random record with 1-12 constituents drawn from all 146 (not necessarily resolvable), any latitude "
    "and phase x nodal x trend x dimension; reconstruct() at drawn times up to centuries away is compared with the "
    "harmonic sum of the documentation evaluated from the returned coefficients by the independent model. "
    "Non-trivial: at least 2 constituents."
)


@st.composite
def strategy_(draw):
    r = draw(gen.record(100, 400, big=12000, small=40))
    pool = [n for n in ref.NAMES if n not in ("Z0", "M7")]
    names = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=12, unique=True))
    o = draw(gen.model_opts())
    if o["phase"] == "raw" and draw(st.booleans()) and "M7" not in names:
        names = names + ["M7"]
    return {
        "rec": r, "names": names, "lat": draw(gen.lats()), "twodim": draw(st.booleans()), "opts": o,
        "nseed": draw(gen.seeds),
        # a solution changed by the user, or put together from published constants
        "edit": draw(st.one_of(st.none(), st.none(), gen.seeds)), "lat2": draw(gen.lats()),
        "ft": draw(st.lists(st.one_of(gen.starts(), st.integers(-40000, 40000).map(lambda h: r["start"] + h * 1800000)),
                            min_size=1, max_size=20)),
        # now and then a long list of times: [number, step in minutes]
        "long": draw(st.one_of(*[st.none()] * 9, st.tuples(gen.long_sizes(), st.sampled_from([10, 60, 61, 1440, 1600])))),
    }


def strategy():
    return strategy_()


def fixed_cases(tier):
    out = []
    combos = [(p, n) for p in ("Greenwich", "linear_time", "raw") for n in (True, False, "linear_time")]
    allnames = [n for n in ref.NAMES if n not in ("Z0", "M7")]
    for i, (p, n) in enumerate(combos):
        for td in (False, True):
            out.append(
                {
                    "rec": {"start": 1234567890123, "step": 3600000, "n": 400, "kind": "equi"},
                    "names": allnames, "lat": [-61.5, 0, 12.0, 78.25, -4.0][(2 * i + td) % 5], "twodim": td,
                    "opts": {"phase": p, "nodal": n, "trend": bool(i % 2)}, "nseed": 5 + i,
                    "ft": [1234567890123 + 3600000 * k * k * k for k in range(-30, 60)],
                }
            )
    # known finding
    for p in ("Greenwich", "linear_time"):
        out.append(
            {
                "rec": {"start": 1400000000000, "step": 3600000, "n": 300 + len(p), "kind": "equi"}, "names": ["M7"],
                "lat": 40.0, "twodim": False, "opts": {"phase": p, "nodal": True, "trend": False}, "nseed": 1,
                "ft": [1400000000000 + 3600000 * k for k in range(60)],
            }
        )
    return out


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"])
    x = [rng.standard_normal(len(ms)) for _ in range(1 + td)]
    coef = solve(c, gen.dt64(ms), *x)
    idx = rows(coef, c["names"])
    rec.nontrivial = len(c["names"]) > 1
    rec.label("phase=" + o["phase"], f"nodal={o['nodal']}", "2d" if td else "1d", f"nc={len(c['names'])//4*4}+")
    tms = np.array(c["ft"], dtype=np.int64)
    if c.get("long"):
        rec.label("long prediction")
        tms = np.concatenate([tms, r["start"] + 60000 * c["long"][1] * np.arange(c["long"][0], dtype=np.int64)])
    lat = c["lat"]
    if c.get("edit") is not None:
        coef = copy.deepcopy(coef)
        e = np.random.default_rng(c["edit"])
        n = len(c["names"])
        some = e.uniform(size=n) < 0.5
        for f, lo, hi in (("Lsmaj", 1, 3), ("Lsmin", -1, 1), ("theta", 0, 180), ("g", 0, 360)) if td else (("A", 0, 3), ("g", 0, 360)):
            coef[f] = np.where(some, e.uniform(lo, hi, n), coef[f])
        for f in ("umean", "vmean") if td else ("mean",):
            coef[f] = e.uniform(-3, 3)
        if o["trend"]:
            coef["vslope" if td else "slope"] = e.uniform(-0.1, 0.1) * e.choice([1, 1, 1e-3, 1e-6])
        unit = e.choice([1, 1, 1, 1e-8, 1e6])
        for f in ("A", "Lsmaj", "Lsmin", "mean", "umean", "vmean", "slope", "uslope", "vslope"):
            if f in coef:
                coef[f] = coef[f] * unit
        lat = coef["aux"]["lat"] = c["lat2"]
        rec.label("edited solution")
    m, s = background(coef, o["trend"])
    out = recon_all(gen.dt64(tms), coef)
    t = ref.ms_to_days(tms)
    tref = 0.5 * (ref.ms_to_days(ms[0]) + ref.ms_to_days(ms[-1]))
    need(abs(float(coef["aux"]["reftime"]) - tref) < 1e-6, "reference time is not the middle of the record")

    def expected(**k):
        if td:
            return ref.predict2(
                t, tref, c["names"], lat, coef["Lsmaj"][idx], coef["Lsmin"][idx], coef["theta"][idx],
                coef["g"][idx], m[0], m[1], s[0], s[1], **gen.kw(o), **k,
            )
        return (
            ref.predict1(t, tref, c["names"], lat, coef["A"][idx], coef["g"][idx], m[0], s[0], **gen.kw(o), **k),
        )

    far = np.abs(t - tref)
    tol = 1e-8 * (total_scale(coef) * (1 + far * 1e-5) + np.abs(m).max() + np.abs(s).max() * (1 + far))
    for a, b in zip(out, expected()):
        if c["names"] == ["M7"] and o["phase"] != "raw" and not np.all(np.abs(a - b) <= tol):
            w = expected(m7_wrapped=True)[0]
            close(a, w, tol, "M7 prediction (neither M7 nor the recorded finding)")
            rec.finding(
                "M7-half-cycle",
                f"prediction of M7 alone with phase={o['phase']!r} is off by up to {np.abs(a - b).max():.2f} "
                f"for amplitude {coef['A'][0]:.2f}: whole cycles of M2 are dropped before multiplying by 3.5",
            )
            continue
        close(a, b, tol, "predicted value")

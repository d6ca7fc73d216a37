"""Band-averaged residual spectra."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import call, need

ID = "C23"
EXAMPLES = {"quick": 1400, "thorough": 30000}
RULE = (
    "Random series (white, red, walk, sinusoids; real or complex, odd or even length 40-900, steps 15 min - 3 h, "
    "regular or irregular times, drawn offset) and drawn constituent frequencies passed to band_psd; compared with an "
    "independent FFT / Lomb-Scargle computation band by band, plus relations: quadratic scaling, independence of the "
    "offset and of the time origin, u/v exchange, real vs complex, sinusoid power in its band. Non-trivial: at least 3 "
    "bands hold spectral estimates."
)


@st.composite
def strategy_(draw):
    size = draw(st.integers(0, 24))
    if size == 3:  # long and regular
        r = draw(gen.record(4000, 30001, ("equi",), 30))
    elif size == 4:  # many frequencies in the highest band of an uneven record
        r = {"start": draw(gen.starts()), "step": draw(st.sampled_from([3000000, 3600000])), "n": draw(st.integers(2520, 3000)),
             "kind": "jitter", "seed": draw(gen.seeds)}
    else:
        r = draw(gen.record(40, 900, ("equi", "equi", "jitter", "subset", "warped"), 30))
    return {
        "rec": r,
        "complex": draw(st.booleans()),
        "noise": draw(st.sampled_from(gen.NOISE)),
        "seed": draw(gen.seeds),
        "mean": draw(st.sampled_from([0.0, 1.0, -20.0])),
        "amp": draw(st.sampled_from([1e-3, 1.0, 1e4])),
        "names": draw(st.lists(st.sampled_from([n for n in ref.NAMES if n != "Z0"]), max_size=12, unique=True)),
        "line": draw(st.one_of(st.none(), st.sampled_from(["M2", "K1", "M4", "M3", "M6"]))),
        "corr": draw(st.sampled_from([0.0, 0.9, -0.9])),
    }


def strategy():
    return strategy_()


def check(c, rec):
    from utide.periodogram import band_psd

    r = c["rec"]
    ms = gen.times_ms(r)
    t = ref.ms_to_days(ms)
    n = len(t)
    equi = r["kind"] == "equi"
    e1 = gen.noise(c["seed"], c["noise"], n)
    e2 = c["corr"] * e1 + gen.noise(c["seed"] + 1, c["noise"], n)
    if c["line"]:
        om = 2 * np.pi * 24 * ref.FREQ[ref.INDEX[c["line"]]]
        e1 = e1 + 5 * np.cos(om * (t - t[0]) + 1)
        e2 = e2 + 3 * np.cos(om * (t - t[0]) - 1)
    x, y = c["amp"] * (e1 + c["mean"]), c["amp"] * (e2 - 2 * c["mean"])
    f = np.array([ref.FREQ[ref.INDEX[q]] for q in c["names"]])
    if not np.all(np.isfinite(f)):
        return
    rec.label("equi" if equi else "uneven", f"n<{10 ** len(str(n))}", "complex" if c["complex"] else "real", "noise=" + c["noise"], f"odd={n % 2}")

    def run(tt, z, **k):
        before = tt.copy(), z.copy(), f.copy()
        P = call(band_psd, tt, z, f, equi=equi, **k)
        need(np.array_equal(before[0], tt) and np.array_equal(before[1], z) and np.array_equal(before[2], f), "arguments changed")
        return P

    z = x + 1j * y if c["complex"] else x
    try:
        pu, pv, puv = ref.band_power(t, x, y if c["complex"] else x, f, equi)
    except ref.Tie:
        rec.label("bin decided by rounding (skipped)")
        return
    P = run(t, z)
    rec.nontrivial = bool(np.isfinite(pu).sum() >= 3)
    need(np.array_equal(np.asarray(P["fbnd"]), ref.BANDS), "band limits")

    def agree(a, b, what, rel, scale=None, floor=None):
        a, b = np.asarray(a), np.asarray(b)
        need(a.shape == (9,), f"{what}: shape {a.shape}")
        need(np.array_equal(np.isnan(a), np.isnan(b)), lambda: f"{what}: bands without estimates differ: {a} {b}")
        s = np.nanmax(np.abs(b)) if np.isfinite(b).any() else 0.0
        if scale is not None:
            s = max(s, scale)
        d = np.abs(a - b)
        tol = rel * np.maximum(np.abs(b), 0 if floor is None else floor) + 1e-10 * s
        need(np.all((d <= tol) | np.isnan(d)), lambda: f"{what}: {a} instead of {b}")

    top = c["amp"] ** 2 * (c["mean"] ** 2 + 1) * 10
    agree(P["Puu"], pu, "Puu", 1e-6, top)
    need(np.all(~(np.asarray(P["Puu"]) < 0)), "negative power")
    if c["complex"]:
        agree(P["Pvv"], pv, "Pvv", 1e-6, top)
        Puv = np.asarray(P["Puv"])
        need(Puv.shape == (9,) and Puv.dtype.kind == "f", "Puv")
        # the terms of a co-spectrum may cancel
        agree(Puv, puv, "Puv", 1e-6, top, np.sqrt(pu * pv))
        # Cauchy-Schwarz for band averages
        with np.errstate(invalid="ignore"):
            lim = np.sqrt(P["Puu"] * P["Pvv"])
            need(not np.any(np.abs(Puv) > lim * (1 + 1e-6) + 1e-10 * top), "co-spectrum larger than the geometric mean of the spectra")
        # components
        agree(run(t, y.copy())["Puu"], P["Pvv"], "spectrum of v alone", 1e-9, top)
        Q = run(t, y + 1j * x)
        agree(Q["Puu"], P["Pvv"], "exchanged components", 1e-9, top)
        agree(Q["Pvv"], P["Puu"], "exchanged components", 1e-9, top)
        agree(Q["Puv"], P["Puv"], "co-spectrum of exchanged components", 1e-6, top, np.sqrt(pu * pv))
    Q = run(t, 4 * z)
    agree(np.asarray(Q["Puu"]) / 16, P["Puu"], "scaled series", 1e-9, top)
    Q = run(t, z + 3.0 * c["amp"])
    agree(Q["Puu"], P["Puu"], "offset series", 1e-6, top * 10)
    if c["line"] and not c["names"] and c["mean"] == 0 and c["noise"] == "white" and n > 200:
        fl = ref.FREQ[ref.INDEX[c["line"]]]
        b = [i for i, (lo, hi) in enumerate(ref.BANDS) if lo <= fl <= hi]
        # a line stands out in its own band whenever it is below the Nyquist frequency
        if b and fl < 0.3 * (n - 1) / ((t[-1] - t[0]) * 24):
            P0 = np.asarray(P["Puu"])
            others = [i for i in range(9) if abs(i - b[0]) > 1 and np.isfinite(P0[i])]
            need(all(P0[b[0]] > P0[i] for i in others), lambda: f"line at {c['line']} does not stand out: {P0}")

"""The ordinary least squares analysis is linear in the data."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import background, check_coef_shape, close, recon_all, rows, solve
from core import need

ID = "C07"
EXAMPLES = {"quick": 1600, "thorough": 15000}
RULE = (
    "Random record, constituents, options; two drawn series x and y (tides and noise of drawn kind, independent of "
    "the fitted constituents), drawn factors a, b (either sign, 1e-6..1e6), offset and slope; the analysis of "
    "a x + b y + offset + slope t is compared with the combination of the analyses, in cosine/sine coefficients, "
    "mean, slope and prediction; vector series also with complex factors. Non-trivial: b != 0."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(hi=400, scale=False, big=12000, small=30, many=20))
    f = st.one_of(
        st.sampled_from([1.0, -1.0, 2.0, 0.5, -3.0, 1e-6, 1e6, -1e3, 0.0, 1e-12, -1e12]),
        st.floats(-10, 10).map(lambda x: round(x, 4)),
    )
    c["a"], c["b"] = draw(f), draw(f)
    c["unit"] = draw(st.sampled_from([1.0, 1.0, 1e-9, 1e-5, 1e8]))
    c["ai"], c["bi"] = (draw(gen.signed()), draw(gen.signed())) if draw(st.booleans()) else (0.0, 0.0)
    c["off"] = draw(st.sampled_from([0.0, 1.0, -50.0, 1000.0]))
    c["slope"] = draw(gen.signed(2.0))
    c["kx"], c["ky"] = draw(st.sampled_from(gen.NOISE)), draw(st.sampled_from(gen.NOISE))
    c["nseed"] = draw(gen.seeds)
    c["gap"] = draw(st.booleans())
    return c


def strategy():
    return strategy_()


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"])
    good = rng.uniform(size=len(ms)) > (0.1 if c["gap"] else -1)
    t, (tref, lor, _) = gen.geometry(c, good)
    X = gen.model_columns(t[good], tref, lor, c["names"], c)
    kappa = ref.cond(X)
    if not kappa < 300:
        rec.label("ill-conditioned (skipped)")
        return
    rec.nontrivial = c["b"] != 0
    rec.label("2d" if td else "1d", "complex factor" if td and c["ai"] else "real factor", r["kind"])
    h = gen.signal(c, t, tref)
    x = (h[0] + 1j * h[1]) if td else h
    n = len(t)
    x = x + gen.noise(c["nseed"], c["kx"], n) + (1j * gen.noise(c["nseed"] + 1, c["kx"], n) if td else 0)
    y = gen.noise(c["nseed"] + 2, c["ky"], n) + (1j * gen.noise(c["nseed"] + 3, c["ky"], n) if td else 0)
    w = c.get("unit", 1.0)
    a = (c["a"] + (1j * c["ai"] if td else 0)) * w
    b = (c["b"] + (1j * c["bi"] if td else 0)) * w
    off = c["off"] * (1 - 2j if td else 1) * w
    sl = c["slope"] * (0.5 + 1j if td else 1) * w
    z = a * x + b * y + off
    if o["trend"]:
        z = z + sl * (t - tref)
    names, nc = c["names"], len(c["names"])

    def run(q):
        q = np.where(good, q, np.nan * (1 + 1j) if td else np.nan)
        coef = solve(c, gen.dt64(ms), *([q.real.copy(), q.imag.copy()] if td else [q]))
        check_coef_shape(coef, nc, td, o["trend"])
        v = gen.xy_of_coef(coef, rows(coef, names))
        m, s = background(coef, o["trend"])
        if td:
            v = v[:, :2] + 1j * v[:, 2:]
            m, s = complex(*m), complex(*s)
        else:
            m, s = m[0], s[0]
        return coef, v, m, s

    cx, vx, mx, sx = run(x)
    cy, vy, my, sy = run(y)
    cz, vz, mz, sz = run(z)
    scale = abs(a) * np.abs(x).max() + abs(b) * np.abs(y).max() + abs(off) + abs(sl) * lor
    tol = 1e-11 * kappa * scale + 1e-300
    both = lambda q: np.stack([np.real(q), np.imag(q)])  # noqa: E731
    close(both(vz), both(a * vx + b * vy), tol, "coefficients of the combination")
    close(both(mz), both(a * mx + b * my + off), tol, "mean of the combination")
    if o["trend"]:
        close(both(sz) * lor, both(a * sx + b * sy + sl) * lor, tol, "slope of the combination")
    tf = np.concatenate([ms[::17], [ms[0] - 86400000 * 11, ms[-1] + 86400000 * 45]])
    P = [recon_all(gen.dt64(tf), q) for q in (cx, cy, cz)]
    P = [q[0] + 1j * q[1] if td else q[0] for q in P]
    dtf = ref.ms_to_days(tf) - tref
    want = a * P[0] + b * P[1] + off + (sl * dtf if o["trend"] else 0)
    far = 1 + np.abs(dtf) / lor
    close(both(P[2]), both(want), tol * 10 * far, "prediction of the combination")

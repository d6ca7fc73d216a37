"""Phase reference and nodal options are related as documented."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import angle_diff, background, close, recon_all, rows, solve
from core import need

ID = "C09"
EXAMPLES = {"quick": 1200, "thorough": 15000}
RULE = (
    "One random noisy record (scalar or vector) analysed under all 3 x 3 phase and nodal options. raw -> linear_time "
    "shifts every phase by the Greenwich argument at the reference time; nodal False -> linear_time rescales "
    "amplitudes by 1/F and shifts phases by U at the reference time; these change no hindcast; exact-time options "
    "agree with linearised ones to first order in the record length. Frequencies are the astronomical ones at the "
    "reference time under every option. Non-trivial: some F differs from 1 by 1 percent."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(hi=300, max_hours=1500))
    c["nseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.0, 0.3]))
    return c


def strategy():
    return strategy_()


def check(c, rec):
    r, td = c["rec"], c["twodim"]
    ms = gen.times_ms(r)
    t, (tref, lor, _) = gen.geometry(c)
    names = c["names"]
    idx = [ref.INDEX[n] for n in names]
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    x = [y + c["p"]["s"] * c["namp"] * gen.noise(c["nseed"] + j, "white", len(t)) for j, y in enumerate(x)]
    kap = 0
    for ph in ("raw", "Greenwich"):
        for no in (False, True):
            q = dict(c, opts=dict(c["opts"], phase=ph, nodal=no))
            kap = max(kap, ref.cond(gen.model_columns(t, tref, lor, names, q)))
    if not kap < 300:
        rec.label("ill-conditioned (skipped)")
        return
    F, U = ref.nodal_fu(np.array([tref]), idx, c["lat"])
    F, U = F[0], U[0] * 360
    V = ref.varg(np.array([tref]), idx)[0] * 360
    rec.nontrivial = bool(np.abs(F - 1).max() > 0.01)
    rec.label("2d" if td else "1d", r["kind"])
    scale = max(np.abs(y).max() for y in x)
    tol = 1e-9 * kap * scale
    T = gen.dt64(ms)
    sol = {}
    for ph in ("Greenwich", "linear_time", "raw"):
        for no in (True, False, "linear_time"):
            co = solve(dict(c, opts=dict(c["opts"], phase=ph, nodal=no)), T, *x)
            sol[ph, no] = (co, rows(co, names))
            got = np.asarray(co["aux"]["frq"], float)[sol[ph, no][1]]
            close(got, ref.lin_freqs(tref)[idx].astype(float), 1e-12, f"frequencies with phase={ph}, nodal={no}: those at the reference time")

    def rot(coef_idx, factor, dphase):
        """coefficients with amplitude divided by factor and phase lag increased by dphase"""
        co, i = coef_idx
        xy = gen.xy_of_coef(co, i)
        d = np.radians(dphase)
        out = np.empty_like(xy)
        for j in range(0, xy.shape[1], 2):
            X, Y = xy[:, j], xy[:, j + 1]
            out[:, j] = (X * np.cos(d) - Y * np.sin(d)) / factor
            out[:, j + 1] = (X * np.sin(d) + Y * np.cos(d)) / factor
        return out

    one = np.ones(len(names))

    def same_hindcast(a, b, what):
        for p, q in zip(recon_all(T, a[0]), recon_all(T, b[0])):
            close(p, q, tol * 20, "hindcast of " + what)
        close(background(a[0], c["opts"]["trend"])[0], background(b[0], c["opts"]["trend"])[0], tol * 10, "mean of " + what)

    for no in (True, False, "linear_time"):
        a, b = sol["raw", no], sol["linear_time", no]
        close(gen.xy_of_coef(*b), rot(a, one, V), tol * 10, f"linear_time phases are raw + V(tref) (nodal={no})")
        same_hindcast(a, b, f"phase raw/linear_time, nodal={no}")
    for ph in ("Greenwich", "linear_time", "raw"):
        a, b = sol[ph, False], sol[ph, "linear_time"]
        close(gen.xy_of_coef(*b), rot(a, F, U), tol * 10 / F.min(), f"linear nodal correction divides by F and adds U (phase={ph})")
        same_hindcast(a, b, f"nodal False/linear_time, phase={ph}")
    # exact-time versus linearised: V has rates constant to 1e-7 cph, U and F move slowly
    Fa, Ua = ref.nodal_fu(t, idx, c["lat"])
    amp = np.abs(gen.xy_of_coef(*sol["linear_time", "linear_time"])).sum()
    dV = 0.0
    for k, i in enumerate(idx):
        Vt = ref.varg(t[[0, -1]], [i])[:, 0]
        lin = 24 * (t[[0, -1]] - tref) * float(ref.lin_freqs(tref)[i]) + V[k] / 360
        dV = max(dV, np.abs((Vt - lin + 0.5) % 1 - 0.5).max())
    for no in (True, False, "linear_time"):
        a, b = sol["Greenwich", no], sol["linear_time", no]
        lim = tol * 10 + 20 * kap * 2 * np.pi * dV * (amp + scale)
        close(gen.xy_of_coef(*a), gen.xy_of_coef(*b), lim, f"Greenwich vs linear_time phases over a short record (nodal={no})")
    dN = np.abs(Fa * np.exp(2j * np.pi * Ua) - F * np.exp(1j * np.radians(U))).max() / F.min()
    for ph in ("Greenwich", "raw"):
        a, b = sol[ph, True], sol[ph, "linear_time"]
        lim = tol * 10 + 20 * kap * dN * (amp + scale) / F.min()
        close(gen.xy_of_coef(*a), gen.xy_of_coef(*b), lim, f"exact vs linear nodal corrections over a short record (phase={ph})")

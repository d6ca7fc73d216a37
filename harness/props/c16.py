"""Monte Carlo confidence limits."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import background, close, fields, rows, solve
from core import need

ID = "C16"
EXAMPLES = {"quick": 1200, "thorough": 12000}
RULE = (
    "Either (a) a random noisy record, phases and orientations drawn with emphasis on the wrap-around points (0/360, 0/180), "
    "scalar or vector, white or coloured; Monte Carlo limits under a drawn numpy seed are compared with the linear "
    "limits of 1-6, or tens of, constituents (factor 2; for coloured vectors at most 2.3 times), repeated with the same seed (identical) and another seed (factor 2), and with the linear run's "
    "estimates (identical). Or (b) a record with strongly correlated coefficients (short, uneven, sampled part of the day, "
    "correlated components): the mean of the limits over 24 random states is compared with the spread of 20000 draws "
    "of an independently computed covariance (15 %). Non-trivial: (a) the signal-to-noise ratio of some constituent "
    "exceeds 50, (b) at least one limit is compared."
)
REPS, DRAWS = 24, 20000


@st.composite
def strategy_b(draw):
    c = draw(gen.base_case(lo=60, hi=220, k=(1, 3), min_hours=60, kinds=("equi", "equi", "jitter", "subset"), sep=0.9))
    c["part"] = "b"
    c["nseed"] = draw(gen.seeds)
    c["mcseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.02, 0.3, 1.0]))
    c["vratio"] = draw(st.sampled_from([1.0, 0.3, 2.0]))
    c["corr"] = draw(st.sampled_from([0.0, 0.9, -0.9]))
    c["noise"] = draw(st.sampled_from(["white", "white", "red"]))
    c["white"] = draw(st.sampled_from([True, True, False]))
    c["window"] = draw(st.sampled_from([0.0, 0.35, 0.5, 0.7]))
    if c["twodim"] and draw(st.sampled_from([False, False, True])):
        # nearly circular ellipses, whose orientation and phase are poorly determined
        n = len(c["names"])
        c["p"]["ratio"] = draw(st.lists(st.sampled_from([0.99, -0.99, 0.9, -0.9, 1.0, -1.0]), min_size=n, max_size=n))
    return c


def ellipses(p):
    """Lsmaj, Lsmin, theta, g (degrees, theta and g not wrapped) of rows Xu, Yu, Xv, Yv."""
    ap = ((p[:, 0] + p[:, 3]) + 1j * (p[:, 2] - p[:, 1])) / 2
    am = ((p[:, 0] - p[:, 3]) + 1j * (p[:, 2] + p[:, 1])) / 2
    ep, em = np.degrees(np.angle(ap)), np.degrees(np.angle(am))
    return np.abs(ap) + np.abs(am), np.abs(ap) - np.abs(am), (ep + em) / 2, (em - ep) / 2


def near(x, x0, period):
    return x0 + (x - x0 + period / 2) % period - period / 2


def mad_limit(x):
    return 1.96 * np.median(np.abs(x - np.median(x))) / 0.6744897501960817


def check_b(c, rec):
    r, td = c["rec"], c["twodim"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"])
    good = np.ones(len(ms), bool)
    if c["window"]:
        good = ((ms - ms[0]) % 86400000) / 86400000 <= c["window"]
        good[0] = good[-1] = True
    t, (tref, lor, elor) = gen.geometry(c, good)
    tg = t[good]
    names, nc = c["names"], len(c["names"])
    if len(tg) < 4 * nc + 20:
        rec.label("too short (skipped)")
        return
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    s = c["p"]["s"] * c["namp"]
    e1 = gen.noise(c["nseed"], c["noise"], len(t))
    e2 = c["corr"] * e1 + np.sqrt(1 - c["corr"] ** 2) * gen.noise(c["nseed"] + 1, c["noise"], len(t))
    x[0] = x[0] + s * e1
    if td:
        x[1] = x[1] + s * c["vratio"] * e2
    X, B = gen.ref_fit(c, tg, tref, lor, [y[good] for y in x])
    kappa = ref.cond(X)
    if not kappa < 50:
        rec.label("ill-conditioned (skipped)")
        return
    xy = gen.fit_xy(B, nc)
    res = [y[good] - X @ B[:, j] for j, y in enumerate(x)]
    dof = len(tg) - X.shape[1]
    K = np.linalg.inv(X.T @ X)
    suu = res[0] @ res[0] / dof
    svv = suv = 0.0
    if td:
        svv, suv = res[1] @ res[1] / dof, res[0] @ res[1] / dof
    equi = r["kind"] == "equi"
    if not c["white"]:
        fr = ref.lin_freqs(tref)[[ref.INDEX[n] for n in names]].astype(float)
        try:
            if equi:
                full = [np.interp(t, tg, e) if not good.all() else e for e in res]
                pb = ref.band_power(t, full[0], full[-1], fr, True)
            else:
                pb = ref.band_power(tg, res[0], res[-1], fr, False)
        except ref.Tie:
            rec.label("bin decided by rounding (skipped)")
            return
        P = [ref.power_at(q, fr, elor) for q in pb]
    T = gen.dt64(ms)
    data = [np.where(good, y, np.nan) for y in x]
    F = ["Lsmaj", "Lsmin", "theta", "g"] if td else ["A", "g"]
    acc = np.zeros((REPS, len(F), nc))
    for q in range(REPS):
        np.random.seed((c["mcseed"] + 7919 * q) % 2**31)
        M = solve(c, T, *data, conf_int="MC", white=c["white"])
        i = rows(M, names)
        acc[q] = [np.asarray(M[f + "_ci"], float)[i] for f in F]
    rec.label("b", "white" if c["white"] else "coloured", "2d" if td else "1d", "window" if c["window"] else "whole days")
    for k, nm in enumerate(names):
        j = [k, nc + k]
        Kk = K[np.ix_(j, j)]
        if c["white"]:
            C = np.kron([[suu, suv], [suv, svv]], Kk) if td else suu * Kk
        else:
            if not np.isfinite(P[0][k]):
                need(not np.isfinite(acc[0][0][k]), f"limit of {nm} without any residual spectrum in its band")
                continue
            C = P[0][k] * Kk / np.trace(Kk)
            if td:
                # published normalisation of the cross terms
                D = suv * Kk
                D = P[2][k] * D / np.abs(D).sum() if np.abs(D).sum() > 0 else 0 * D
                C = np.block([[C, D], [D.T, P[1][k] * Kk / np.trace(Kk)]])
                w, Q = np.linalg.eigh(C)
                C = (Q * np.maximum(w, 0)) @ Q.T
        w, Q = np.linalg.eigh(C)
        sd = np.sqrt(np.maximum(w, 0))
        if not sd.max() > 1e-9 * np.abs(xy).max():
            continue
        p = xy[k] + rng.standard_normal((DRAWS, len(xy[k]))) @ (Q * sd).T
        if td:
            M0, m0, th0, g0 = ref.ellipse_of_xy(*xy[k])
            M0, m0 = M0[0], abs(m0[0])
            if M0 < 3 * sd.max():
                continue
            rec.label("circle" if M0 - m0 < 4 * sd.max() else "ellipse")
            a, b, th, g = ellipses(p)
            e0 = ellipses(xy[k][None])
            th1 = near(th, e0[2][0], 180)
            g1 = near(g + (th1 - th), e0[3][0], 360)
            want = [mad_limit(a), mad_limit(b), mad_limit(th1), mad_limit(g1)]
        else:
            if np.hypot(*xy[k]) < 2 * sd.max():
                continue
            want = [mad_limit(np.hypot(p[:, 0], p[:, 1])),
                    mad_limit(near(np.degrees(np.arctan2(p[:, 1], p[:, 0])), np.degrees(np.arctan2(xy[k, 1], xy[k, 0])), 360))]
        rec.nontrivial = True
        for q, f in enumerate(F):
            got = acc[:, q, k].mean()
            need(
                0.85 < got / want[q] < 1.15,
                lambda: f"{f}_ci of {nm}: Monte Carlo limits average {got:.5g}, the covariance of the fit gives {want[q]:.5g}",
            )


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=250, hi=420, k=(1, 6), min_hours=300, many=14))
    n = len(c["names"])
    near = st.sampled_from([0.0, 0.01, 359.99, 180.0, 179.99, 90.0, 270.0, 45.0])
    c["p"]["g"] = draw(st.lists(st.one_of(near, gen.angle()), min_size=n, max_size=n))
    if c["twodim"]:
        nt = st.sampled_from([0.0, 0.01, 179.99, 179.9, 90.0])
        c["p"]["theta"] = draw(st.lists(st.one_of(nt, gen.angle(180)), min_size=n, max_size=n))
    c["nseed"] = draw(gen.seeds)
    c["mcseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.05, 0.3, 0.6]))
    c["white"] = draw(st.booleans())
    c["gap"] = draw(st.sampled_from([0.0, 0.15]))
    return c


def strategy():
    return st.one_of(strategy_(), strategy_b())


def check(c, rec):
    if c.get("part") == "b":
        return check_b(c, rec)
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"])
    good = rng.uniform(size=len(ms)) >= c["gap"]
    t, (tref, lor, _) = gen.geometry(c, good)
    names = c["names"]
    kappa = ref.cond(gen.model_columns(t[good], tref, lor, names, c))
    if not kappa < 20:
        rec.label("ill-conditioned (skipped)")
        return
    h = gen.signal(c, t, tref)
    h = list(h) if td else [h]
    s = c["p"]["s"]
    x = [np.where(good, y + s * c["namp"] * rng.standard_normal(len(t)), np.nan) for y in h]
    T = gen.dt64(ms)

    def mc(seed):
        np.random.seed(seed)
        return solve(c, T, *x, conf_int="MC", white=c["white"])

    L = solve(c, T, *x, conf_int="linear", white=c["white"])
    M1, M2, M3 = mc(c["mcseed"] % 2**31), mc(c["mcseed"] % 2**31), mc((c["mcseed"] + 1) % 2**31)
    il, i1, i2, i3 = (rows(q, names) for q in (L, M1, M2, M3))
    F = fields(L)
    for f in F:
        top = np.abs(np.asarray(L[f])).max()
        close(np.asarray(M1[f])[i1], np.asarray(L[f])[il], 1e-12 * top, f"{f} with MC and linear limits")
        close(np.asarray(M2[f + "_ci"])[i2], np.asarray(M1[f + "_ci"])[i1],
              1e-9 * np.nan_to_num(np.asarray(M1[f + "_ci"])).max(), f"{f}_ci repeated with the same seed")
    close(background(M1, o["trend"])[0], background(L, o["trend"])[0], 1e-12 * sum(np.abs(y[good]).max() for y in x), "mean with MC and linear limits")
    a = np.asarray(L["Lsmaj" if td else "A"])[il]
    ca = np.asarray(L[("Lsmaj" if td else "A") + "_ci"])[il]
    strong = np.isfinite(ca) & (a > 12 * ca)
    if td:
        b = np.abs(np.asarray(L["Lsmin"])[il])
        strong &= (a - b) > 10 * ca
    rec.nontrivial = bool(strong.any())
    rec.label("white" if c["white"] else "coloured", "2d" if td else "1d", f"strong={int(strong.sum())}")
    # the coherence of the components' residuals, which only the Monte Carlo limits of coloured vectors
    # use, can shrink a limit to nothing and stretch it by sqrt(2): part b computes those
    partial = td and not c["white"]
    if strong.sum() >= 12:
        # two medians of 200 deviations: logarithms differ by 0.12 (sd)
        d = np.concatenate([np.log(np.asarray(M1[f + "_ci"], float)[i1] / np.asarray(M3[f + "_ci"], float)[i3])[strong] for f in F])
        need(d.std() < 0.25, lambda: f"logarithms of limits with different seeds differ by {d.std():.3f} (sd of {len(d)})")
        rec.label("many strong")
    if strong.any():
        one, two = (np.concatenate([np.asarray(q[f + "_ci"], float)[i][strong] for f in F]) for q, i in ((M1, i1), (M3, i3)))
        need(np.any(one != two), "the state of the random generator makes no difference")
    for f in F:
        l = np.asarray(L[f + "_ci"], float)[il]
        m = np.asarray(M1[f + "_ci"], float)[i1]
        m3 = np.asarray(M3[f + "_ci"], float)[i3]
        need(np.array_equal(np.isfinite(l), np.isfinite(m)), f"{f}_ci: MC limits are missing where linear ones are not")
        need(np.all(m[np.isfinite(m)] >= 0), f"{f}_ci negative")
        for k in np.nonzero(strong)[0]:
            need(
                (0.0 if partial else 0.5) < m[k] / l[k] < (2.3 if partial else 2.0),
                lambda: f"{f}_ci of {names[k]}: Monte Carlo {m[k]:.4g}, linear {l[k]:.4g} (phase {np.asarray(L['g'])[il][k]:.2f})",
            )
            need(0.5 < m[k] / m3[k] < 2.0, lambda: f"{f}_ci of {names[k]}: {m[k]:.4g} and {m3[k]:.4g} with different seeds")
        if strong.sum() >= 3:
            q = np.exp(np.mean(np.log(m[strong] / l[strong])))
            need((0.1 if partial else 0.7) < q < (1.7 if partial else 1.4), lambda: f"{f}_ci: Monte Carlo limits are {q:.3f} times the linear ones on average")

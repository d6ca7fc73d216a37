"""Vector analysis: components, ellipses and rotations of axes are consistent."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import angle_diff, background, check_coef_shape, close, recon_all, rows, solve
from core import need

ID = "C08"
EXAMPLES = {"quick": 1000, "thorough": 15000}
RULE = (
    "Random velocity record (ellipses of any shape including near-rectilinear, near-circular and axis-aligned ones) "
    "plus noise; its vector analysis is compared with the scalar analyses of u and v, with the ellipse obtained from "
    "them by singular values, and with the analyses of the axes rotated by a drawn angle, quarter turns, reflections "
    "and a swap of u and v; a current along an axis is compared with the scalar analysis, limits included. Non-trivial: at least one constituent is neither circular nor rectilinear."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(hi=400, twodim=True, big=12000, small=30, many=20))
    c["nseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.0, 0.05, 0.5, 3.0]))
    c["alpha"] = draw(st.one_of(st.floats(-360, 360).map(lambda x: round(x, 3)), st.sampled_from([90, 180, 270, 45, -30])))
    c["shape"] = draw(st.sampled_from(["any", "any", "any", "line", "circle", "axis"]))
    c["conf"] = draw(st.sampled_from(["none", "linear"]))
    c["white"] = draw(st.booleans())
    return c


def strategy():
    return strategy_()


def ellipse_of(coef, idx):
    return [np.asarray(coef[f])[idx] for f in ("Lsmaj", "Lsmin", "theta", "g")]


def check(c, rec):
    r, o = c["rec"], c["opts"]
    ms = gen.times_ms(r)
    t, (tref, lor, _) = gen.geometry(c)
    p = dict(c["p"])
    n = len(c["names"])
    if c["shape"] == "line":
        p["ratio"] = [0.0] * n
    elif c["shape"] == "circle":
        p["ratio"] = [0.999 * (-1) ** k for k in range(n)]
    elif c["shape"] == "axis":
        p["theta"] = [[0.0, 90.0, 179.999999, 1e-7][k % 4] for k in range(n)]
    c = dict(c, p=p)
    s = p["s"]
    u, v = gen.signal(c, t, tref)
    u = u + s * c["namp"] * gen.noise(c["nseed"], "red", len(t))
    v = v + s * c["namp"] * 0.7 * gen.noise(c["nseed"] + 1, "white", len(t))
    kappa = ref.cond(gen.model_columns(t, tref, lor, c["names"], c))
    if not kappa < 300:
        rec.label("ill-conditioned (skipped)")
        return
    rec.nontrivial = any(0.02 < abs(q) < 0.98 for q in p["ratio"])
    rec.label("shape=" + c["shape"], "conf=" + c["conf"])
    T = gen.dt64(ms)
    names = c["names"]
    k = dict(conf_int=c["conf"], white=c["white"])
    scale = max(np.abs(u).max(), np.abs(v).max())
    tol = 1e-10 * kappa * scale
    W = solve(c, T, u, v, **k)
    check_coef_shape(W, n, True, o["trend"])
    iw = rows(W, names)
    # components
    cu, cv = solve(c, T, u, **k), solve(c, T, v, **k)
    xy = np.hstack([gen.xy_of_coef(cu, rows(cu, names)), gen.xy_of_coef(cv, rows(cv, names))])
    close(gen.xy_of_coef(W, iw), xy, tol, "ellipses vs scalar analyses of the components")
    bu, bv, bw = (background(q, o["trend"]) for q in (cu, cv, W))
    close(bw[0], [bu[0][0], bv[0][0]], tol, "means of the components")
    close(np.array(bw[1]) * lor, np.array([bu[1][0], bv[1][0]]) * lor, tol, "slopes of the components")
    # conventions of the ellipse, from singular values
    M, m, th, g = ellipse_of(W, iw)
    M2, m2, th2, g2 = ref.ellipse_of_xy(*xy.T)
    close(M, M2, tol, "Lsmaj vs singular values")
    close(m, m2, tol, "Lsmin vs singular values (sign: positive is counterclockwise)")
    for j in range(n):
        if M2[j] - abs(m2[j]) > 1e-4 * scale:
            dth = angle_diff(th[j], th2[j], 180)
            need(abs(dth) < 1e-3, lambda: f"theta of {names[j]} is {th[j]}, expected {th2[j]}")
    tf = np.concatenate([ms[::23], [ms[0] - 86400000 * 3, ms[-1] + 86400000 * 30]])
    P = recon_all(gen.dt64(tf), W)
    pu, pv = recon_all(gen.dt64(tf), cu)[0], recon_all(gen.dt64(tf), cv)[0]
    close(P[0], pu, tol * 20, "predicted u vs scalar prediction")
    close(P[1], pv, tol * 20, "predicted v vs scalar prediction")

    # rotation of the axes by alpha: (u,v) -> e^{i alpha} (u + i v)
    def check_same_ellipse(q, alpha, what, flip=False, ci=False):
        iq = rows(q, names)
        Mq, mq, thq, gq = ellipse_of(q, iq)
        close(Mq, M, tol * 10, f"Lsmaj after {what}")
        close(mq, -m if flip else m, tol * 10, f"Lsmin after {what}")
        z = np.hstack([gen.xy_of_coef(W, iw)])
        X, Y = z[:, 0] + 1j * z[:, 2], z[:, 1] + 1j * z[:, 3]
        if flip:
            X, Y = np.conj(X), np.conj(Y)
        e = np.exp(1j * np.radians(alpha))
        X, Y = X * e, Y * e
        close(gen.xy_of_coef(q, iq), np.stack([X.real, Y.real, X.imag, Y.imag], -1), tol * 10, f"coefficients after {what}")
        if ci and c["conf"] == "linear" and c["namp"] > 0:
            for f in ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci"):
                a, b = np.asarray(q[f])[iq], np.asarray(W[f])[iw]
                ok = np.isfinite(b) & (M - np.abs(m) > 1e-3 * scale)
                close(a[ok], b[ok], 1e-5 * np.abs(b[ok]) + 1e-12 * scale, f"{f} after {what}")

    al = c["alpha"]
    z = (u + 1j * v) * np.exp(1j * np.radians(al))
    check_same_ellipse(solve(c, T, z.real.copy(), z.imag.copy(), **k), al, f"rotation by {al}")
    check_same_ellipse(solve(c, T, -v, u, **k), 90, "a quarter turn", ci=True)
    check_same_ellipse(solve(c, T, -u, -v, **k), 180, "a half turn", ci=True)
    check_same_ellipse(solve(c, T, u, -v, **k), 0, "reflection of v", flip=True, ci=True)
    check_same_ellipse(solve(c, T, v, u, **k), 90, "exchange of u and v", flip=True, ci=True)

    # a current along an axis is the scalar analysis of that component
    j = c["nseed"] % 2
    h, q = ((u, cu), (v, cv))[j]
    rot = 90.0 * j
    L = solve(c, T, *[(h, 0 * h), (0 * h, h)][j], **k)
    il, iq = rows(L, names), rows(q, names)
    A, gq = np.asarray(q["A"])[iq], np.asarray(q["g"])[iq]
    Ml, ml, tl, gl = ellipse_of(L, il)
    close(Ml, A, tol, f"Lsmaj of a current along {'uv'[j]}")
    close(ml, 0 * A, tol, f"Lsmin of a current along {'uv'[j]}")
    bl, bq = background(L, o["trend"]), background(q, o["trend"])
    for e in range(2 if o["trend"] else 1):
        want = np.zeros(2)
        want[j] = bq[e][0]
        close(np.array(bl[e]) * [1, lor][e], want * [1, lor][e], tol, f"{['mean', 'slope'][e]} of a current along {'uv'[j]}")
    big = A > 1e-6 * scale + 100 * tol
    half = np.round((tl - rot) / 180)
    close(tl[big] - rot - 180 * half[big], 0 * A[big], 1e-4, f"theta of a current along {'uv'[j]}")
    close(angle_diff(gl[big] + 180 * half[big], gq[big]), 0 * A[big], 1e-3, f"g of a current along {'uv'[j]}")
    if c["conf"] == "linear" and c["namp"] > 0:
        for f, f1 in (("Lsmaj_ci", "A_ci"), ("g_ci", "g_ci")):
            a, b = np.asarray(L[f])[il], np.asarray(q[f1])[iq]
            ok = big & np.isfinite(b)
            need(np.all(np.isfinite(a[ok])), lambda: f"{f} of a current along {'uv'[j]}: {a}, scalar analysis: {b}")
            close(a[ok], b[ok], 1e-4 * np.abs(b[ok]), f"{f} of a current along {'uv'[j]}")

"""Inferred constituents keep the prescribed relation and the rest is fitted with it."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import angle_diff, background, check_coef_shape, close, recon_all, rows, solve
from core import need

ID = "C17"
EXAMPLES = {"quick": 1400, "thorough": 15000}
RULE = (
    "Random record, constituents, options, plus a drawn inference: 1-3 references, 1-4 inferred constituents (any in "
    "the table, usually unresolvable from their reference), random amplitude ratios and phase offsets (2-D: different "
    "ones for the two rotary senses), exact or approximate, given as dict / Bunch, lists / tuples / arrays, drawn entry "
    "order; with or without noise and missing samples, least squares or robust (then the oracle uses the returned weights), conf_int none/linear. Oracles: the inference relation itself, the generating "
    "parameters (exact, no noise), an independent stacked real least squares solution, the published formula of the "
    "approximate method, and bounds on the limits. Non-trivial: well conditioned, at least one inferred constituent."
)

PAIRS = [("K1", "P1"), ("K1", "PI1"), ("K1", "PHI1"), ("K1", "PSI1"), ("S2", "K2"), ("S2", "T2"), ("S2", "R2"),
         ("M2", "H1"), ("M2", "H2"), ("N2", "NU2"), ("O1", "TAU1"), ("O1", "RHO1"), ("M2", "L2"), ("N2", "2N2"),
         ("M4", "SN4"), ("Q1", "RHO1"), ("2N2", "MU2"), ("M6", "MSN2")]


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=260, hi=620, k=(2, 7), min_hours=300, many=25))
    names = c["names"]
    nref = draw(st.integers(1, min(3, len(names))))
    if draw(st.integers(0, 9)) == 0:
        nref = len(names)
    refs = names[:nref]
    known = [b for a, b in PAIRS if a in refs and b not in names]
    pool = [n for n in ref.NAMES if n not in names and n not in ("M7", "Z0")]
    s = st.sampled_from(pool)
    if known:
        s = st.one_of(st.sampled_from(known), st.sampled_from(known), s)
    inf = draw(st.lists(s, min_size=1, max_size=draw(st.sampled_from([4, 4, 4, 4, 14])), unique=True))
    n2 = len(inf) * (2 if c["twodim"] else 1)
    rof = []
    for nm in inf:
        pref = [a for a, b in PAIRS if b == nm and a in refs]
        rof.append(pref[0] if pref else draw(st.sampled_from(refs)))
    c["inf"] = {
        "inferred_names": inf,
        "reference_names": rof,
        "amp_ratios": draw(st.lists(st.floats(0.02, 0.9).map(lambda x: round(x, 4)), min_size=n2, max_size=n2)),
        "phase_offsets": draw(st.lists(st.one_of(st.floats(-360, 360).map(lambda x: round(x, 3)),
                                                 st.sampled_from([0, 0.0, 90, 180, -45])), min_size=n2, max_size=n2)),
    }
    if c["twodim"] and draw(st.booleans()):
        for k in ("amp_ratios", "phase_offsets"):
            c["inf"][k] = c["inf"][k][: len(inf)] * 2
    c["approx"] = draw(st.sampled_from([False, False, True]))
    c["noise"] = draw(st.sampled_from([0.0, 0.0, 0.2, 1.0]))
    c["nseed"] = draw(gen.seeds)
    c["nkind"] = draw(st.sampled_from(["white", "white"] + list(gen.NOISE)))
    c["list"] = draw(st.sampled_from(["refs in", "refs out", "all in", "auto"]))
    c["as"] = draw(st.sampled_from(["dict", "bunch"]))
    c["seq"] = draw(st.sampled_from(["list", "tuple", "array"]))
    c["perm"] = draw(gen.seeds)
    c["conf"] = draw(st.sampled_from(["none", "linear"]))
    c["white"] = draw(st.booleans())
    c["gap"] = draw(st.sampled_from([0.0, 0.0, 0.1, 0.3]))
    if c["noise"] and not c["approx"]:
        c["method"] = draw(st.sampled_from(["ols", "ols", "robust"]))
        if c["twodim"] and draw(st.integers(0, 2)) == 0:
            c["still"] = draw(st.sampled_from([0, 1, 1]))
            c["conf"] = "linear"
            n = len(inf)
            c["inf"]["amp_ratios"] = c["inf"]["amp_ratios"][:n] * 2
            c["inf"]["phase_offsets"] = [draw(st.sampled_from([0.0, 0.0, 0, 90.0, -45.0]))] * (2 * n)
    return c


def strategy():
    return strategy_()


def rotary(M, m, th, g):
    """Complex coefficients of exp(+i phi) and exp(-i phi) in u + iv."""
    th, g = np.radians(th), np.radians(g)
    return 0.5 * (M + m) * np.exp(1j * (th - g)), 0.5 * (M - m) * np.exp(1j * (th + g))


def coef_rotary(coef, i):
    if "Lsmaj" in coef:
        return rotary(coef["Lsmaj"][i], coef["Lsmin"][i], coef["theta"][i], coef["g"][i])
    return rotary(coef["A"][i], 0.0, 0.0, coef["g"][i])


def check(c, rec):
    import utide

    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    good = np.random.default_rng(c["perm"] + 2).uniform(size=len(ms)) >= c.get("gap", 0.0)
    tall, (tref, lor, _) = gen.geometry(c, good)
    t = tall[good]
    elor = gen.geometry(c, good)[1][2]
    inf = c["inf"]
    nI = len(inf["inferred_names"])
    rp = np.array(inf["amp_ratios"][:nI]) * np.exp(1j * np.radians(inf["phase_offsets"][:nI]))
    if td:
        rm = np.array(inf["amp_ratios"][nI:]) * np.exp(-1j * np.radians(inf["phase_offsets"][nI:]))
    else:
        rm = rp.conj()
    names = list(c["names"])
    if c["list"] == "auto":
        names = [n for n, d in zip(ref.NAMES, ref.DF) if d >= 1 / (24 * lor) and n not in inf["inferred_names"]]
        names += [n for n in dict.fromkeys(inf["reference_names"]) if n not in names]
    refs = list(dict.fromkeys(inf["reference_names"]))
    nonref = [n for n in names if n not in refs]
    direct = nonref + refs
    allnames = direct + inf["inferred_names"]
    # truth: the drawn parameters for the directly fitted, the relation for the inferred
    p, s = c["p"], c["p"]["s"]
    n0 = len(c["names"])
    ap, am = np.zeros(len(direct), complex), np.zeros(len(direct), complex)
    for k, n in enumerate(direct):
        j = c["names"].index(n) if n in c["names"] else None
        if j is None:
            continue
        if td:
            M = p["Lsmaj"][j] * s
            ap[k], am[k] = rotary(M, M * p["ratio"][j], p["theta"][j], p["g"][j])
        else:
            ap[k], am[k] = rotary(p["A"][j] * s, 0, 0, p["g"][j])
    del n0
    F, phi = ref.columns(t, tref, allnames, c["lat"], **gen.kw(o))
    E = F * np.exp(1j * phi)
    nd = len(direct)
    EP, EM = E[:, :nd].copy(), E[:, :nd].conj()
    for q in range(nI):
        k = direct.index(inf["reference_names"][q])
        EP[:, k] += rp[q] * E[:, nd + q]
        EM[:, k] += rm[q] * E[:, nd + q].conj()
    w = EP @ ap + EM @ am
    if td:
        bg = (p["um"] + 1j * p["vm"]) * s + ((p["us"] + 1j * p["vs"]) * s * (t - tref) if o["trend"] else 0)
    else:
        bg = p["mean"] * s + (p["slope"] * s * (t - tref) if o["trend"] else 0)
    w = w + bg
    if c["noise"]:
        def noise(k):
            return gen.noise(c["nseed"] + k, c.get("nkind", "white"), len(t))

        w = w + s * c["noise"] * (noise(0) + (1j * noise(1) if td else 0))
    x = [w.real, w.imag] if td else [w.real]
    if "still" in c:  # a current along one axis
        x[c["still"]] = np.zeros(len(t))
        rec.label("along one axis")
    scale = max(np.abs(y).max() for y in x) + np.abs(ap).max() + np.abs(am).max()

    # independent solution: real unknowns, u and v stacked
    def solve_ref(EP, EM, wt=None):
        cols = []
        for k in range(nd):
            if td:
                for q in (EP[:, k], 1j * EP[:, k], EM[:, k], 1j * EM[:, k]):
                    cols.append(np.concatenate([q.real, q.imag]))
            else:
                for q in (EP[:, k] + EM[:, k], 1j * (EP[:, k] - EM[:, k])):
                    cols.append(q.real)
        z, one = np.zeros(len(t)), np.ones(len(t))
        tr = (t - tref) / lor
        for q in [one] + ([tr] if o["trend"] else []):
            if td:
                cols += [np.concatenate([q, z]), np.concatenate([z, q])]
            else:
                cols.append(q)
        X = np.stack(cols, -1)
        if wt is not None and td:
            wt = np.concatenate([wt, wt])
        return X, ref.lsq(X, np.concatenate(x), wt)

    if c["approx"]:
        # the references are fitted as if alone
        X, b = solve_ref(E[:, :nd], E[:, :nd].conj())
    else:
        X, b = solve_ref(EP, EM)
    kappa = ref.cond(X)
    if not kappa < 500 or X.shape[0] < 2 * X.shape[1] + 20:
        rec.label("ill-conditioned (skipped)")
        return

    def split(b):
        if td:
            return b[0 : 4 * nd : 4] + 1j * b[1 : 4 * nd : 4], b[2 : 4 * nd : 4] + 1j * b[3 : 4 * nd : 4]
        bp = b[0 : 2 * nd : 2] + 1j * b[1 : 2 * nd : 2]
        return bp, bp.conj()

    bp, bm = split(b)
    if c["approx"]:
        n = len(t)
        fr = ref.lin_freqs(tref).astype(float)
        F0, phi0 = ref.columns(np.array([tref]), tref, allnames, c["lat"], **gen.kw(o))
        E0 = (F0 * np.exp(1j * phi0))[0]
        for k, nm in enumerate(direct):
            dp = dm = 1.0
            for q in range(nI):
                if inf["reference_names"][q] != nm:
                    continue
                # mean of the ratio of the two harmonics over the record
                df = fr[ref.INDEX[inf["inferred_names"][q]]] - fr[ref.INDEX[nm]]
                beta = np.sinc(lor * 24 * df * (n + 1) / n) if df else 1.0
                Q = E0[nd + q] / E0[k]
                dp = dp + rp[q] * Q * beta
                dm = dm + rm[q] * np.conj(Q) * beta
            if min(abs(dp), abs(dm)) < 0.15:
                rec.label("inferred cancels reference (skipped)")
                return
            if abs(dp) != 1.0:
                bp[k] /= dp
                bm[k] /= dm
    if nI == 0:
        return
    rec.nontrivial = True
    rec.label("approximate" if c["approx"] else "exact", "2d" if td else "1d", "noisy" if c["noise"] else "noise-free",
              "list=" + c["list"], f"inferred={nI}", "conf=" + c["conf"])

    # call
    perm = np.random.default_rng(c["perm"]).permutation(nI)

    def arg(order, seq, kind):
        sq = {"list": list, "tuple": tuple, "array": lambda z: np.array(z)}[seq]
        d = {}
        for k, v in inf.items():
            vals = [v[i] for i in order]
            if len(v) == 2 * nI:
                vals += [v[nI + i] for i in order]
            d[k] = sq(vals)
        if c["approx"]:
            d["approximate"] = [True, 1, np.True_][c["perm"] % 3]
        elif c["as"] == "bunch":
            d["approximate"] = [False, 0, np.False_][c["perm"] % 3]
        return utide.utilities.Bunch(d) if kind == "bunch" else d

    if c["list"] == "auto":
        con = "auto"
    else:
        con = {"refs in": direct, "refs out": nonref, "all in": allnames}[c["list"]]
        con = list(np.array(con, dtype=object)[np.random.default_rng(c["perm"] + 1).permutation(len(con))])
    T = gen.dt64(ms)
    dat = [np.full(len(ms), np.nan) for _ in x]
    for a, y in zip(dat, x):
        a[good] = y
    kw = dict(constit=con, conf_int=c["conf"], white=c["white"])
    robust = c.get("method") == "robust"
    if robust:
        kw["method"] = "robust"
        rec.label("robust")
    coef = solve(c, T, *dat, infer=arg(range(nI), c["seq"], c["as"]), **kw)
    if robust:
        wt = np.asarray(coef["weights"], float)
        need(wt.shape == (len(t),) and np.all(wt >= 0), "weights")
        X, b = solve_ref(EP, EM, wt)
        kappa *= np.sqrt(wt.max() / np.quantile(wt, 0.05))
        if not kappa < 2000:
            return
        bp, bm = split(b)
    check_coef_shape(coef, len(allnames), td, o["trend"])
    idx = rows(coef, allnames)
    gp, gm = coef_rotary(coef, np.array(idx))
    tol = 1e-9 * kappa * scale * 10
    # relation
    for q in range(nI):
        k = direct.index(inf["reference_names"][q])
        nm = f"{inf['inferred_names'][q]} from {inf['reference_names'][q]}"
        need(abs(gp[nd + q] - rp[q] * gp[k]) <= 1e-9 * scale + tol * 1e-3, lambda: f"inferred {nm}: relation of the + part broken")
        if td:
            need(abs(gm[nd + q] - rm[q] * gm[k]) <= 1e-9 * scale + tol * 1e-3, lambda: f"inferred {nm}: relation of the - part broken")
        else:
            i, j = idx[nd + q], idx[k]
            a = inf["amp_ratios"][q]
            need(abs(coef["A"][i] - a * coef["A"][j]) <= 1e-9 * scale, lambda: f"amplitude of inferred {nm}")
            if coef["A"][j] > 1e-3 * scale:
                d = abs(angle_diff(coef["g"][i], coef["g"][j] - inf["phase_offsets"][q]))
                need(d < 1e-5, lambda: f"phase of inferred {nm} is off by {d}")
    # solution
    tl = tol * (10 if c["approx"] else 1)
    isref = np.array([n in refs for n in direct])
    tt = np.where(isref, tl, tol)
    d = np.maximum(np.abs(gp[:nd] - bp), np.abs(gm[:nd] - (bm if td else bp.conj())) if td else 0)
    need(np.all(d <= tt), lambda: f"coefficients of {direct[int(np.argmax(d / tt))]} differ by {np.max(d):.3g} from the independent solution")
    if not c["approx"]:
        if not c["noise"]:
            need(np.all(np.abs(gp[:nd] - ap) <= tol), "generating parameters not recovered")
        fit = recon_all(T[good], coef)
        Xb = X @ b
        mod = [Xb[: len(t)], Xb[len(t) :]] if td else [Xb]
        for a, e in zip(fit, mod):
            close(a, e, tol * 3, "hindcast with inferred constituents")
    m, sl = background(coef, o["trend"])
    nb = (4 if td else 2) * nd
    if td:
        close(m, b[nb : nb + 2], tol, "mean")
        if o["trend"]:
            close(np.array(sl) * lor, b[nb + 2 : nb + 4], tol, "trend")
    else:
        close(m, b[nb : nb + 1], tol, "mean")
        if o["trend"]:
            close(np.array(sl) * lor, b[nb + 1 : nb + 2], tol, "trend")
    # the same inference written differently
    other = solve(c, T, *dat, infer=arg(perm, "list", "dict"), **kw) if not robust else coef
    oi = rows(other, allnames)
    op, om = coef_rotary(other, np.array(oi))
    need(np.all(np.abs(op - gp) <= tol) and np.all(np.abs(om - gm) <= tol), "order or container of the inference entries matters")
    # confidence limits
    if c["conf"] == "linear":
        fs = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if td else ("A_ci", "g_ci")
        for f in fs:
            need(f in coef and np.asarray(coef[f]).shape == (len(allnames),), f"missing or misshapen {f}")
        if c["noise"] and not c["approx"] and not robust:
            cov = np.linalg.inv(X.T @ X)
            per = 4 if td else 2
            for q in range(nI):
                k = direct.index(inf["reference_names"][q])
                i, j = idx[nd + q], idx[k]
                a = inf["amp_ratios"][q]
                if not all(np.isfinite(coef[f][j]) for f in fs):
                    continue
                for f in fs:
                    need(np.isfinite(coef[f][i]) and coef[f][i] > 0, lambda: f"{f} of inferred {inf['inferred_names'][q]} is {coef[f][i]}")
                if td:
                    if abs(rp[q] - rm[q].conj()) > 1e-12 or not c["white"]:
                        continue
                    # residual variances of u and v enter differently
                    res = np.concatenate(x) - X @ b
                    vu, vv = (res[: len(t)] ** 2).mean(), (res[len(t) :] ** 2).mean()
                    if abs(coef["Lsmin"][j]) > 0.98 * coef["Lsmaj"][j] or abs(coef["Lsmin"][j]) < 1e-6 * coef["Lsmaj"][j]:
                        continue
                    spread = max(vu, vv) / min(vu, vv)
                else:
                    spread = 1.0
                v = np.diag(cov)[per * k : per * k + per]
                spread = np.sqrt(spread * v.max() / v.min()) * 1.05
                for f in fs:
                    want = coef[f][j] * (a if f in ("A_ci", "Lsmaj_ci", "Lsmin_ci") else 1)
                    ratio = coef[f][i] / want
                    need(
                        1 / spread / 1.02 <= ratio <= spread * 1.02,
                        lambda: f"{f} of inferred {inf['inferred_names'][q]}: {coef[f][i]:.4g}, from its reference {want:.4g} (spread {spread:.3g})",
                    )
                rec.label("limits of inferred compared")
        if "still" in c:
            # the limits across the axis are those of a current that hardly leaves it, whatever the last bits of the fit
            for k in range(6):
                y = [a.copy() for a in dat]
                y[1 - c["still"]][good] += s * c["noise"] * gen.noise(c["nseed"] + 2 + k, "white", len(t))
                again = coef if k == 0 else solve(c, T, *y, infer=arg(range(nI), "list", "dict"), **kw)
                i = rows(again, allnames)[nd:]
                M, m, th = (np.asarray(again[f])[i] for f in ("Lsmaj_ci", "Lsmin_ci", "theta_ci"))
                ok = np.isfinite(M) & (M > 1e-9 * scale)
                need(np.all(m[ok] > 1e-6 * M[ok]) and np.all(th[ok] > 0), lambda: f"limits of inferred constituents across the axis: {m}, {th}")
        if c["noise"] and not c["approx"] and (not td or np.all(np.abs(rp - rm.conj()) < 1e-12)):
            exact_limits(c, rec, EP, t, tall, good, tref, lor, elor, x, direct, inf, rp, rm if td else rp.conj(), coef, idx)


def exact_limits(c, rec, e, t, tall, good, tref, lor, elor, x, direct, inf, rp, rm, coef, idx):
    """Limits of all constituents when u and v are fitted with the same real columns."""
    td, nd = c["twodim"], len(direct)
    w = np.asarray(coef["weights"], float)
    tr = [(t - tref) / lor] if c["opts"]["trend"] else []
    X = np.column_stack([e.real, e.imag, np.ones(len(t))] + tr)
    Xw = X * w[:, None]
    if len(t) < X.shape[1] + 2 or not ref.cond(Xw) < 200:
        return
    B = ref.lsq(X, np.stack(x, -1), w)
    d = np.diag(np.linalg.inv(Xw.T @ Xw))
    res = [w * (y - X @ B[:, j]) for j, y in enumerate(x)]
    var = [(r @ r) / (len(t) - X.shape[1]) * np.stack([d[:nd], d[nd : 2 * nd]], -1) for r in res]
    if not c["white"]:
        fr = ref.lin_freqs(tref)[[ref.INDEX[n] for n in direct + inf["inferred_names"]]].astype(float)
        equi = c["rec"]["kind"] == "equi"
        try:
            if equi:
                full = [np.interp(tall, t, r) if not good.all() else r for r in res]
                pb = ref.band_power(tall, full[0], full[-1], fr, True)
            else:
                pb = ref.band_power(t, res[0], res[-1], fr, False)
        except ref.Tie:
            rec.label("bin decided by rounding (limits skipped)")
            return
        for j in range(len(res)):
            if np.any(res[j]):
                var[j] = ref.power_at(pb[j], fr, elor)[:nd, None] * var[j] / var[j].sum(axis=1, keepdims=True)
    xy = gen.fit_xy(B, nd)
    fs = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci") if td else ("A_ci", "g_ci")

    def compare(i, nm, xy, v):
        if not np.all(np.isfinite(v)) or np.sqrt(max(v)) < 1e-9 * np.abs(B).max():
            return
        if td:
            M, m, _, _ = ref.ellipse_of_xy(*xy)
            if M[0] - abs(m[0]) < 0.02 * M[0]:
                return
            want = 1.96 * ref.prop2(*xy, *v)
        else:
            want = 1.96 * np.array(ref.prop1(*xy, *v))
        for f, b in zip(fs, want):
            a = coef[f][i]
            need(abs(a - b) <= 1e-3 * abs(b) + 1e-6 * max(want), lambda: f"{f} of {nm} is {a:.6g}, expected {b:.6g}")
        rec.label("limits of " + ("inferred" if nm in inf["inferred_names"] else "fitted") + " exact")

    for k, nm in enumerate(direct):
        compare(idx[k], nm, xy[k], np.concatenate([v[k] for v in var]))
    for q, nm in enumerate(inf["inferred_names"]):
        k = direct.index(inf["reference_names"][q])
        if not td:
            X1, Y1 = xy[k]
            z = rp[q] * (X1 - 1j * Y1)
            a, b = rp[q].real ** 2, rp[q].imag ** 2
            compare(idx[nd + q], nm, [z.real, -z.imag], np.array([a * var[0][k, 0] + b * var[0][k, 1], b * var[0][k, 0] + a * var[0][k, 1]]))
            continue
        # rotary coefficients of the reference, their parts taken as independent
        Xu, Yu, Xv, Yv = xy[k]
        ap, am = ((Xu + Yv) + 1j * (Xv - Yu)) / 2, ((Xu - Yv) + 1j * (Xv + Yu)) / 2
        vre, vim = (var[0][k, 0] + var[1][k, 1]) / 4, (var[0][k, 1] + var[1][k, 0]) / 4
        ap, am = rp[q] * ap, rm[q] * am
        a, b = abs(rp[q].real) ** 2 + abs(rm[q].real) ** 2, abs(rp[q].imag) ** 2 + abs(rm[q].imag) ** 2
        v1, v2 = a * vre + b * vim, a * vim + b * vre
        compare(idx[nd + q], nm, [(ap + am).real, -(ap - am).imag, (ap + am).imag, (ap - am).real], np.array([v1, v2, v2, v1]))

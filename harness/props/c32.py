"""The order of the samples carries no information."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import background, close, fields, recon_all, rows, solve
from core import need

ID = "C32"
EXAMPLES = {"quick": 900, "thorough": 15000}
RULE = (
    "A random noisy record with missing samples and any options is analysed in chronological order and with its rows "
    "in a drawn other order (reversed, shuffled, rotated, two halves exchanged or interleaved, neighbours exchanged, "
    "one stray sample, blocks reversed), some with several samples at the same time; parameters, mean, trend, limits, "
    "reference time, automatic selection, weights (sample by sample) and predictions must agree. Non-trivial: the order "
    "is not chronological."
)
ORDERS = ["reversed", "reversed", "shuffled", "shuffled", "rotated", "interleaved", "neighbours", "stray", "blocks", "last first",
          "odd even"]


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=200, hi=500, big=9000, small=40, many=25))
    c["nseed"] = draw(gen.seeds)
    c["noise"] = draw(st.sampled_from(gen.NOISE))
    c["namp"] = draw(st.sampled_from([0.05, 0.3, 1.0]))
    c["order"] = draw(st.sampled_from(ORDERS))
    c["pseed"] = draw(gen.seeds)
    c["repeat"] = draw(st.sampled_from([0, 0, 0, 0, 3, 40, 10**6]))
    c["miss"] = draw(st.sampled_from([0.0, 0.0, 0.1]))
    c["tmiss"] = draw(st.sampled_from([0, 0, 0, 4]))
    c["conf"] = draw(st.sampled_from(["none", "linear", "linear", "linear", "MC"]))
    c["white"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(["ols", "ols", "robust"]))
    c["auto"] = draw(st.integers(0, 9)) == 0
    c["infer"] = draw(st.sampled_from([None, None, None, "exact", "approx"]))
    c["epoch"] = draw(st.sampled_from([None, None, "python", "matlab"]))
    return c


def strategy():
    return strategy_()


def other_order(n, how, seed):
    rng = np.random.default_rng(seed)
    i = np.arange(n)
    if how == "reversed":
        return i[::-1]
    if how == "shuffled":
        return rng.permutation(n)
    if how == "rotated":
        return np.roll(i, rng.integers(1, n))
    if how == "interleaved":
        h = n // 2
        out = np.empty(n, int)
        out[0::2], out[1::2] = i[: n - h], i[n - h :]
        return out
    if how == "odd even":
        return np.concatenate([i[::2], i[1::2]])
    if how == "last first":
        return np.roll(i, 1)
    if how == "neighbours":
        k = rng.integers(0, n - 1)
        i[[k, k + 1]] = i[[k + 1, k]]
        return i
    if how == "stray":
        k, m = rng.integers(0, n, 2)
        return np.insert(np.delete(i, k), min(m, n - 1), k)
    size = int(rng.integers(2, max(3, n // 3)))
    return np.concatenate([i[a : a + size][::-1] for a in range(0, n, size)])


def check(c, rec):
    r, td, o = c["rec"], c["twodim"], c["opts"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["pseed"] + 1)
    if c["repeat"]:
        k = min(c["repeat"], len(ms))
        ms = np.sort(np.concatenate([ms, ms[rng.choice(len(ms), k, replace=False)]]))
    n = len(ms)
    t = ref.ms_to_days(ms)
    tref, lor = 0.5 * (t[0] + t[-1]), t[-1] - t[0]
    X = gen.model_columns(t, tref, lor, c["names"], c)
    kappa = ref.cond(X)
    if not kappa < 100 or n < 2.5 * X.shape[1]:
        rec.label("ill-conditioned (skipped)")
        return
    s = c["p"]["s"]
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    x = [y + s * c["namp"] * gen.noise(c["nseed"] + j, c["noise"], n) for j, y in enumerate(x)]
    for y in x:
        y[rng.uniform(size=n) < c["miss"]] = np.nan
    T = gen.dt64(ms)
    k = dict(conf_int=c["conf"], white=c["white"], method=c["method"])
    if c["epoch"]:
        T = t + (366 if c["epoch"] == "matlab" else 0)
        k["epoch"] = c["epoch"]
    if c["tmiss"]:
        # never the ends: the record keeps its window
        T[rng.integers(1, n - 1, c["tmiss"])] = np.nan if c["epoch"] else np.datetime64("NaT")
    names = list(c["names"])
    if c["auto"]:
        k["constit"] = "auto"
        names = [q for q, d in zip(ref.NAMES, ref.DF) if d >= 1 / (24 * lor)]
        plain = len(names) * 4 + 4 < n and np.linalg.cond(gen.model_columns(t, tref, lor, names, c)) < 100
        names = None
        if not plain:
            k.update(method="ols", conf_int="none")
            c = dict(c, method="ols", conf="none")
    elif c["infer"] and c["conf"] != "MC":
        m = 2 if td else 1
        k["infer"] = {"inferred_names": ["PI1"], "reference_names": [names[0]], "amp_ratios": [0.3] * m,
                      "phase_offsets": [15.0] * m, "approximate": c["infer"] == "approx"}
        if "PI1" in names:
            del k["infer"]
        else:
            names.append("PI1")
    p = other_order(n, c["order"], c["pseed"])
    rec.nontrivial = bool(np.any(np.diff(ms[p]) < 0))
    rec.label("order=" + c["order"], "repeated times" if c["repeat"] else r["kind"], "conf=" + c["conf"], c["method"])
    np.random.seed(7)
    A = solve(c, T, *x, **k)
    np.random.seed(7)
    B = solve(c, T[p], *[y[p] for y in x], **k)
    if names is None:
        names = [str(q) for q in A["name"]]
        if not plain:
            need(sorted(names) == sorted(str(q) for q in B["name"]), "automatic selection")
            rec.label("ill-conditioned (selection only)")
            return
    robust = c["method"] == "robust"
    if robust and A["rf"]["iterations"] != B["rf"]["iterations"]:
        rec.label("stop rule decided by rounding (skipped)")
        return
    what = f"order {c['order']}"
    scale = max(np.nanmax(np.abs(y)) for y in x)
    rtol = (1e-6 if robust else 1e-9) * kappa
    ia, ib = rows(A, names), rows(B, names)
    close([B["aux"]["reftime"]], [A["aux"]["reftime"]], 1e-9, f"{what}: reference time")
    close(gen.xy_of_coef(B, ib), gen.xy_of_coef(A, ia), rtol * scale, f"{what}: coefficients")
    for f, a, b, q in zip(("mean", "trend"), background(A, o["trend"]), background(B, o["trend"]), (1, lor)):
        close(np.array(b) * q, np.array(a) * q, rtol * scale, f"{what}: {f}")
    # weights belong to the samples as given
    used = ~np.isnan(T) if c["epoch"] else ~np.isnat(T)
    for y in x:
        used = used & ~np.isnan(y)
    full = np.full(n, np.nan)
    full[used] = np.asarray(A["weights"])
    close(np.asarray(B["weights"]), full[p][used[p]], 1e-5 if robust else 0, f"{what}: weights")
    if robust:
        full[used] = np.asarray(A["rf"]["leverage"])
        close(np.asarray(B["rf"]["leverage"]), full[p][used[p]], 1e-6, f"{what}: leverage")
    # of an odd number of samples the spectra leave out the last, which is either of two at the same time
    ends = ms[used][-2:]
    if c["conf"] != "none" and (c["white"] or ends[0] != ends[1]):
        snr = np.asarray(A["SNR"])[ia]
        for f in fields(A):
            ca, cb = np.asarray(A[f + "_ci"])[ia], np.asarray(B[f + "_ci"])[ib]
            if c["conf"] == "linear":
                close(cb, ca, np.nan_to_num(np.abs(ca)) * (1e-4 if robust else 1e-6) + 1e-12 * (scale if f[0] in "AL" else 1), f"{what}: {f}_ci")
            else:
                # equal seeds, but a factor of the covariance may come out with another sign
                need(np.array_equal(np.isnan(ca), np.isnan(cb)), f"{what}: missing limits")
                ok = (snr > 20) & np.isfinite(ca) & (ca > 1e-9 * (scale if f[0] in "AL" else 1))
                q = cb[ok] / ca[ok]
                if f in ("A", "Lsmaj"):
                    need(np.all((q < 2.5) & (q > 0.4)), lambda: f"{what}: Monte Carlo {f}_ci by factors {q}")
    # default predictions: the same constituents pass
    M = 40
    tp = gen.dt64(ms[0] + (ms[-1] - ms[0]) // M * np.arange(-3, M + 3))
    for a, b in zip(recon_all(tp, A), recon_all(tp, B)):
        close(b, a, rtol * scale * 10, f"{what}: prediction")
    if c["conf"] == "linear" and (c["white"] or ends[0] != ends[1]):
        sa = np.asarray(A["SNR"])
        if not np.any(np.abs(sa - 2) < 1e-3):
            for a, b in zip(recon_all(tp, A, min_SNR=2), recon_all(tp, B, min_SNR=2)):
                close(b, a, rtol * scale * 10, f"{what}: prediction of significant constituents")

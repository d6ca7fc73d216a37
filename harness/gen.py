"""Generators: JSON-able cases drawn by Hypothesis, and their materialisation."""

import numpy as np
from hypothesis import strategies as st

import ref

MS_H = 3600000
STEPS = [900000, 1200000, 1800000, 3600000, 3600000, 3600000, 4000000, 5400000, 7200000, 10800000]
RARE_STEPS = [60000, 300000, 600000, 21600000, 86400000]
MAJOR = "M2 S2 N2 K2 K1 O1 P1 Q1 M4 MS4 MN4 M6 MK3 M3 L2 NO1 J1 OO1 S1 SK3 2MS6 M8 2N2 MU2 NU2 MF MM MSF".split()
# 1700-01-01 .. 2200-01-01 in ms since 1970
T_LO, T_HI = -8520336000000, 7258118400000

seeds = st.integers(0, 2**31 - 1)


def round_sizes(lo, hi):
    """Numbers next to powers of 2 and 10 and their multiples, where an implementation may switch."""
    out = set()
    for b in [2**k for k in range(3, 17)] + [10, 100, 1000, 10000]:
        for m in (1, 2, 3, 4, 5, 6, 7) if b >= 1000 else (1, 2, 3, 5):
            out |= {b * m + d for d in (-1, 0, 1)}
    return sorted(n for n in out if lo <= n <= hi)


def long_sizes(lo=1000, hi=30000):
    return st.one_of(st.integers(lo, hi), st.sampled_from(round_sizes(lo, hi)))


def starts():
    day = 86400000
    return st.one_of(
        st.integers(T_LO // day, T_HI // day).map(lambda d: d * day),
        st.integers(T_LO // 1000, T_HI // 1000).map(lambda s: s * 1000),
        st.integers(T_LO, T_HI),
        st.sampled_from(
            [0, -2208988800000, 946684800000, 951782400000, 1467331200000, -86400000 * 25567 - 43200000]
        ),
    )


LAT_EDGE = [0, 0.0, 5, -5, 4.999, -4.999, 3, -3, 90, -90, 45, -45, 30.0, 5.001, -0.5, 1e-9, 26.565]


def lats():
    return st.one_of(
        st.floats(-90, 90).map(lambda x: round(x, 4)), st.sampled_from(LAT_EDGE)
    )


@st.composite
def record(draw, lo=160, hi=700, kinds=("equi", "equi", "jitter", "subset"), min_hours=150, max_hours=None, big=0,
           small=0, rare=True):
    """`big`, `small`: a few records reach that many samples (size-dependent code paths)."""
    step = draw(st.sampled_from(STEPS * 2 + [
        x for x in RARE_STEPS if rare and (max_hours is None or x * lo <= max_hours * MS_H)
        and min_hours * MS_H / x < 3000
    ]))
    size = draw(st.integers(0, 19)) if big or small else 0
    if big and size == 7:
        n = int(hi * (big / hi) ** (draw(st.integers(0, 12)) / 12)) + draw(st.integers(0, 60))
        if draw(st.booleans()):
            n = min(round_sizes(lo, 1.2 * big), key=lambda q: abs(q - n)) + draw(st.integers(-1, 1))
    elif small and size in (11, 12):
        n = draw(st.integers(small, lo))
        min_hours = min(min_hours, 40)
    else:
        n = draw(st.integers(lo, hi))
    n = max(n, int(np.ceil(min_hours * MS_H / step)) + 2)
    if max_hours is not None:
        n = min(n, max(lo, int(max_hours * MS_H / step)))
    kind = draw(st.sampled_from(list(kinds)))
    r = {"start": draw(starts()), "step": step, "n": n, "kind": kind}
    if kind != "equi":
        r["seed"] = draw(seeds)
    return r


def times_ms(r):
    n, step = r["n"], r["step"]
    if r["kind"] == "equi":
        return r["start"] + step * np.arange(n, dtype=np.int64)
    rng = np.random.default_rng(r["seed"])
    if r["kind"] == "jitter":
        d = np.rint(step * rng.uniform(0.3, 1.7, n)).astype(np.int64)
        return r["start"] + np.cumsum(d)
    if r["kind"] == "slight":
        # nearly regular: a clock that is seconds off
        return r["start"] + step * np.arange(n, dtype=np.int64) + rng.integers(-20000, 20001, n)
    if r["kind"] == "warped":
        # irregular inside, regular ends
        d = np.rint(step * rng.uniform(-0.2, 0.2, n)).astype(np.int64)
        d[[0, -1]] = 0
        return r["start"] + step * np.arange(n, dtype=np.int64) + d
    # irregular subset of a regular grid, with a few longer holes
    keep = rng.uniform(size=int(n * 1.4) + 2) > 0.25
    for _ in range(rng.integers(0, 3)):
        i = rng.integers(0, len(keep))
        keep[i : i + rng.integers(2, max(3, n // 12))] = False
    keep[:2] = True
    keep[3] = True
    keep[2] = False  # make sure it is not equally spaced
    idx = np.nonzero(keep)[0][:n]
    return r["start"] + step * idx.astype(np.int64)


def dt64(ms):
    return np.asarray(ms, dtype=np.int64).astype("datetime64[ms]")


def days(r):
    return ref.ms_to_days(times_ms(r))


def hours_span(r):
    t = times_ms(r)
    return (t[-1] - t[0]) / MS_H


def candidates(r, include=(), exclude=("M7", "Z0"), fmin=1.3, nyq=0.85):
    """Constituents resolvable from the mean and trend and below the Nyquist frequency."""
    T = hours_span(r)
    fmax = nyq * 0.5 / ((times_ms(r)[-1] - times_ms(r)[0]) / MS_H / (len(times_ms(r)) - 1))
    return [
        nm
        for i, nm in enumerate(ref.NAMES)
        if nm not in exclude and ref.FREQ[i] >= fmin / T and ref.FREQ[i] <= fmax
    ]


@st.composite
def constituents(draw, r, lo=1, hi=8, sep=1.25, exclude=("M7", "Z0")):
    """Names that the record separates by at least `sep` Rayleigh units."""
    T = hours_span(r)
    pool = candidates(r, exclude=exclude)
    major = [m for m in MAJOR if m in pool]
    want = draw(st.integers(lo, hi))
    first = st.sampled_from(major) if major else st.sampled_from(pool)
    picks = draw(
        st.lists(st.one_of(first, st.sampled_from(pool)), min_size=want, max_size=want + 6, unique=True)
    )
    out = []
    for nm in picks:
        f = ref.FREQ[ref.INDEX[nm]]
        if all(abs(f - ref.FREQ[ref.INDEX[o]]) >= sep / T for o in out):
            out.append(nm)
        if len(out) == want:
            break
    return out


def angle(top=360):
    return st.one_of(
        st.floats(0, top, exclude_max=True).map(lambda x: round(x, 6)),
        st.integers(0, top // 15 - 1).map(lambda k: 15.0 * k),
    )


def amp():
    return st.floats(0.05, 5).map(lambda x: round(x, 5))


def signed(m=5.0):
    return st.floats(-m, m).map(lambda x: round(x, 5))


@st.composite
def params(draw, names, twodim, scale=True):
    n = len(names)
    L = lambda s: draw(st.lists(s, min_size=n, max_size=n))  # noqa: E731
    p = {"s": draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-3, 100.0, 1e5, 1e-8])) if scale else 1.0}
    if twodim:
        p["Lsmaj"] = L(amp())
        p["ratio"] = L(
            st.one_of(st.floats(-0.95, 0.95).map(lambda x: round(x, 4)), st.sampled_from([0.0, 0.5, -0.5]))
        )
        p["theta"] = L(angle(180))
        p["g"] = L(angle())
        p["um"], p["vm"] = draw(signed()), draw(signed())
        p["us"], p["vs"] = draw(signed(0.05)), draw(signed(0.05))
    else:
        p["A"] = L(amp())
        p["g"] = L(angle())
        p["mean"] = draw(signed())
        p["slope"] = draw(signed(0.05))
    return p


@st.composite
def model_opts(draw):
    return {
        "phase": draw(st.sampled_from(["Greenwich", "Greenwich", "linear_time", "raw"])),
        "nodal": draw(st.sampled_from([True, True, False, "linear_time"])),
        "trend": draw(st.booleans()),
    }


@st.composite
def base_case(draw, lo=160, hi=700, kinds=("equi", "equi", "jitter", "subset"), k=(1, 8), twodim=None,
              sep=1.25, scale=True, min_hours=150, max_hours=None, big=0, small=0, rare=True, many=0):
    """`many`: in one case of that number, years of data and tens of constituents."""
    if many and draw(st.integers(0, many)) in (3, many - 2):
        r = {"start": draw(starts()), "step": draw(st.sampled_from([3600000, 7200000, 9000000, 10800000])),
             "n": draw(st.integers(2600, 6500)), "kind": draw(st.sampled_from(list(kinds)))}
        if r["kind"] != "equi":
            r["seed"] = draw(seeds)
        k = (12, 45)
    else:
        r = draw(record(lo, hi, kinds, min_hours, max_hours, big, small, rare))
    names = draw(constituents(r, k[0], k[1], sep))
    td = draw(st.booleans()) if twodim is None else twodim
    return {
        "rec": r,
        "names": names,
        "lat": draw(lats()),
        "twodim": td,
        "p": draw(params(names, td, scale)),
        "opts": draw(model_opts()),
    }


def kw(opts):
    """Reference-model keyword arguments from solve options."""
    return {"phase": opts.get("phase", "Greenwich"), "nodal": opts.get("nodal", True)}


def truth_xy(case):
    """Cosine/sine coefficients of the generated signal, scaled: (nc, 2 or 4)."""
    p = case["p"]
    s = p["s"]
    if case["twodim"]:
        M = np.array(p["Lsmaj"]) * s
        xy = ref.xy_of_ellipse(M, M * np.array(p["ratio"]), p["theta"], p["g"])
    else:
        xy = ref.xy_of_Ag(np.array(p["A"]) * s, p["g"])
    return np.stack(xy, axis=-1)


def signal(case, t, tref):
    """Noise-free signal of the case at t (days): h, or (u, v)."""
    p, s, o = case["p"], case["p"]["s"], case["opts"]
    tr = 1.0 if o.get("trend", True) else 0.0
    if case["twodim"]:
        M = np.array(p["Lsmaj"]) * s
        return ref.predict2(
            t, tref, case["names"], case["lat"], M, M * np.array(p["ratio"]), p["theta"], p["g"],
            p["um"] * s, p["vm"] * s, p["us"] * s * tr, p["vs"] * s * tr, **kw(o),
        )
    return ref.predict1(
        t, tref, case["names"], case["lat"], np.array(p["A"]) * s, p["g"],
        p["mean"] * s, p["slope"] * s * tr, **kw(o),
    )


NOISE = ["white", "red", "spiky", "walk", "uniform"]


def noise(seed, kind, n):
    """Unit-scale noise series from a drawn seed."""
    rng = np.random.default_rng(seed)
    e = rng.standard_normal(n)
    if kind == "white":
        return e
    if kind == "red":
        out = np.empty(n)
        a = 0.0
        for i in range(n):
            a = 0.8 * a + e[i]
            out[i] = a
        return out
    if kind == "spiky":
        return e + (rng.uniform(size=n) < 0.04) * rng.standard_normal(n) * 15
    if kind == "walk":
        return np.cumsum(e) * 0.3
    return rng.uniform(-2, 2, n)


def xy_of_coef(coef, i=slice(None)):
    """(nc, 2 or 4) cosine/sine coefficients of a solution."""
    if "Lsmaj" in coef:
        return np.stack(
            ref.xy_of_ellipse(coef["Lsmaj"][i], coef["Lsmin"][i], coef["theta"][i], coef["g"][i]), axis=-1
        )
    return np.stack(ref.xy_of_Ag(coef["A"][i], coef["g"][i]), axis=-1)


def by_name(coef):
    """{name: row} index of a solution; names must be unique."""
    names = [str(x) for x in coef["name"]]
    return {n: i for i, n in enumerate(names)}


def geometry(case_or_rec, good=None):
    r = case_or_rec.get("rec", case_or_rec)
    t = days(r)
    tg = t if good is None else t[good]
    return t, ref.record_geometry(t, tg, r["kind"] == "equi")


def model_columns(t, tref, lor, names, case, infer=None):
    return ref.design(t, tref, lor, names, case["lat"], case["opts"].get("trend", True), infer, **kw(case["opts"]))


def ref_fit(case, t, tref, lor, series, w=None):
    """Reference least squares; returns X, B (p, nseries)."""
    X = model_columns(t, tref, lor, case["names"], case)
    Y = np.stack(series, axis=-1)
    return X, ref.lsq(X, Y, w)


def fit_xy(B, nc):
    """(nc, 2 or 4) coefficients from a reference solution."""
    cols = []
    for j in range(B.shape[1]):
        cols += [B[:nc, j], B[nc : 2 * nc, j]]
    return np.stack(cols, axis=-1)

"""Constituent tables and astronomical quantities are consistent."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import call, need

ID = "C27"
EXAMPLES = {"quick": 4000, "thorough": 40000}
RULE = (
    "Random epochs 1700-2200, latitudes and option flags: the six astronomical variables and their rates, and the nodal "
    "factors, nodal phases and Greenwich arguments of all 146 constituents at once, against the long double reference, "
    "rates against finite differences, and vectorised against single evaluation; the public tables against the "
    "committed snapshot and against each other (index, frequency, period, Doodson numbers). Non-trivial: every case."
)


@st.composite
def strategy_(draw):
    return {
        "ms": draw(st.lists(gen.starts(), min_size=1, max_size=6)),
        "lat": draw(gen.lats()),
        "flags": draw(st.sampled_from([[0, 0, 0, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [1, 0, 1, 0], [0, 1, 1, 0],
                                       [0, 0, 0, 1], [1, 0, 0, 1]])),
        "pick": draw(st.lists(st.integers(0, ref.NC - 1), min_size=1, max_size=8)),
        "off": draw(st.floats(-4000, 4000).map(lambda x: round(x, 3))),
        # a long, uneven and unordered series of times
        "long": draw(st.sampled_from([0] * 30 + [700, 2500, 6000])),
    }


def strategy():
    return strategy_()


def fixed_cases(tier):
    yield {"tables": True}


def wrap(d):
    return np.abs((d + 0.5) % 1 - 0.5)


def tables(rec):
    import utide

    rec.nontrivial = True
    names = [str(q) for q in utide.ut_constants.const.name]
    need(names == ref.NAMES, "constituent names")
    need(dict(utide.constit_index_dict) == {n: i for i, n in enumerate(names)}, "constit_index_dict")
    for tab in (utide.cycles_per_hour, utide.hours_per_cycle):
        need(sorted(tab) == sorted(names), "keys of the frequency tables")
    for n in names:
        f = float(utide.cycles_per_hour[n])
        i = ref.INDEX[n]
        need(f == ref.FREQ[i], f"cycles_per_hour.{n}")
        need(getattr(utide.cycles_per_hour, n) == f if n.isidentifier() else True, f"attribute {n}")
        h = float(utide.hours_per_cycle[n])
        need(h == np.inf if f == 0 else abs(h * f - 1) < 1e-12, f"hours_per_cycle.{n}")
    # frequencies follow from the Doodson numbers (epoch of the table: 2000)
    lin = ref.lin_freqs(730120.0).astype(float)
    d = np.abs(lin - ref.FREQ)
    need(np.nanmax(d) < 2e-7, lambda: f"table frequency of {names[int(np.nanargmax(d))]} does not follow from its Doodson numbers")
    c = utide.ut_constants.const
    need(np.array_equal(np.asarray(c.doodson, float), ref.DOOD, equal_nan=True), "Doodson numbers")
    need(np.array_equal(np.asarray(c.semi, float), ref.SEMI, equal_nan=True), "semi")
    need(np.array_equal(np.asarray(c.df, float), ref.DF, equal_nan=True), "df")
    # resolution needed by each constituent (Rayleigh comparison)
    for q, n in ((0.0, "M7"),):
        need(ref.DF[ref.INDEX[n]] == q, "df of " + n)


def check(c, rec):
    if c.get("tables"):
        tables(rec)
        return
    from utide.astronomy import ut_astron
    from utide.harmonics import FUV

    rec.nontrivial = True
    t = ref.ms_to_days(np.array(c["ms"], dtype=np.int64))
    if c.get("long"):
        t = np.concatenate([t, t[0] + 9000 * np.random.default_rng(len(t)).uniform(-1, 1, c["long"]) ** 3])
    rec.label("flags=" + "".join(map(str, c["flags"])), "long" if c.get("long") else f"n={len(t)}")
    a, d = call(ut_astron, t)
    need(a.shape == (6, len(t)) and d.shape == (6, len(t)), f"shapes {a.shape} {d.shape}")
    ra, rd = ref.astro(t)
    need(np.all(wrap((a - ra).astype(float)) < 1e-9), lambda: f"astronomical variables off by {wrap((a - ra).astype(float)).max():.3g} cycles")
    need(np.all(np.abs((d - rd).astype(float)) < 1e-12), "rates of the astronomical variables")
    for i in range(min(len(t), 6)):
        x, y = call(ut_astron, float(t[i]))
        need(np.array_equal(x[:, 0], a[:, i]) or np.all(wrap(x[:, 0] - a[:, i]) < 1e-12), "scalar time")
    # rates are the derivatives
    h = 0.25
    lo, hi = call(ut_astron, t - h)[0], call(ut_astron, t + h)[0]
    num = hi - lo
    num = num - np.round(num - 2 * h * d)
    need(np.all(np.abs(num / (2 * h) - d) < 1e-8), "rates are not the derivatives of the variables")
    # nodal corrections and astronomical arguments of every constituent
    tref = float(t[0] + c["off"])
    lind = np.arange(ref.NC)
    F, U, V = call(FUV, t, tref, lind, c["lat"], [bool(q) for q in c["flags"]])
    fl = c["flags"]
    idx = list(range(ref.NC))
    n = len(t)
    if fl[1]:
        rF, rU = np.ones((n, ref.NC)), np.zeros((n, ref.NC))
    elif fl[0]:
        rF, rU = ref.nodal_fu(np.array([tref]), idx, c["lat"])
    else:
        rF, rU = ref.nodal_fu(t, idx, c["lat"])
    need(np.asarray(F).shape[1:] == (ref.NC,) and np.asarray(V).shape == (n, ref.NC), f"shapes {F.shape} {V.shape}")
    e = np.abs(F - rF) / np.maximum(rF, 1)
    need(np.all(e < 1e-9), lambda: f"nodal factor of {ref.NAMES[int(np.argmax(e.max(axis=0)))]} off by {e.max():.3g}")
    # the phase is only defined where the factor is not zero
    e = np.where(rF > 1e-6, wrap(U - rU), 0)
    need(np.all(e < 1e-7), lambda: f"nodal phase of {ref.NAMES[int(np.argmax(e.max(axis=0)))]} off by {e.max():.3g} cycles")
    if fl[3]:
        rV = (24 * (t.astype(np.longdouble) - tref)[:, None] * ref.lin_freqs(tref)[None, :])
        rV = (rV - np.floor(rV)).astype(float)
    elif fl[2]:
        rV = ref.varg(np.array([tref]), idx, True)
        lin = 24 * (t.astype(np.longdouble) - tref)[:, None] * ref.lin_freqs(tref)[None, :]
        rV = rV + (lin - np.floor(lin)).astype(float)
    else:
        rV = ref.varg(t, idx, True)
    e = wrap(V - rV)
    ok = np.arange(ref.NC) != ref.INDEX["M7"]  # known finding of C01/C03
    e = e[:, ok]
    need(np.all(e < 1e-7), lambda: f"astronomical argument of {np.array(ref.NAMES)[ok][int(np.argmax(e.max(axis=0)))]} off by {e.max():.3g} cycles")
    # a few constituents, repeated and in any order
    p = np.array(c["pick"])
    f2, u2, v2 = call(FUV, t, tref, p, c["lat"], [bool(q) for q in fl])
    need(np.allclose(f2, F[:, p], 1e-13, 1e-13) and np.allclose(u2, U[:, p], 1e-13, 1e-13), "nodal corrections depend on the selection")
    need(np.all(wrap(v2 - V[:, p]) < 1e-9), "arguments depend on the selection")

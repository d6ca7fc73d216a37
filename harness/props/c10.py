"""Constituent selection."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import rows, solve
from core import need

ID = "C10"
EXAMPLES = {"quick": 2500, "thorough": 20000}
RULE = (
    "Records from 2 days to 6 years (regular, holed or jittered, with missing data), Rayleigh_min from 0.3 to 3, "
    "constit automatic or an explicit list in a drawn order, with or without inference; the set, the counts and the "
    "frequencies are compared with the Rayleigh table of the snapshot and the reference-time astronomy. Non-trivial: "
    "automatic selection of at least 2 constituents, or an explicit list of at least 2."
)


@st.composite
def strategy_(draw):
    hours = draw(st.one_of(st.integers(48, 3000), st.sampled_from([355, 660, 708, 4383, 8767, 20000, 52600])))
    n = draw(st.integers(150, 450))
    r = {"start": draw(gen.starts()), "step": max(600000, int(hours * 3600000 / n)), "n": n,
         "kind": draw(st.sampled_from(["equi", "equi", "jitter", "subset"]))}
    if r["kind"] != "equi":
        r["seed"] = draw(gen.seeds)
    pool = [n for n in ref.NAMES if n not in ("Z0",)]
    c = {"rec": r, "lat": draw(gen.lats()), "twodim": draw(st.booleans()), "opts": draw(gen.model_opts()),
         "rmin": draw(st.one_of(st.just(1), st.just(1.0), st.floats(0.3, 3).map(lambda x: round(x, 4)), st.just(0.5))),
         "gap": draw(st.sampled_from([0.0, 0.0, 0.2])), "cut": draw(st.booleans()), "nseed": draw(gen.seeds)}
    c["explicit"] = draw(st.one_of(st.none(), st.none(), st.lists(st.sampled_from(pool), min_size=1, max_size=30, unique=True)))
    c["again"] = draw(st.one_of(st.just([]), st.just([]), st.lists(st.integers(0, 60), min_size=1, max_size=4)))
    # inference: a reference and inferred constituents, inside or outside the list
    if draw(st.integers(0, 2)) == 0:
        refs = draw(st.lists(st.sampled_from(["K1", "S2", "M2", "O1", "N2"]), min_size=1, max_size=2, unique=True))
        infs = draw(st.lists(st.sampled_from(["P1", "K2", "NU2", "T2", "PI1", "RHO1", "SIG1"]), min_size=1, max_size=4, unique=True))
        c["infer"] = [[i, refs[k % len(refs)]] for k, i in enumerate(infs)]
    else:
        c["infer"] = None
    c["order"] = draw(st.sampled_from(["PE", "frequency"]))
    # the criterion just above or below that of a constituent
    c["edge"] = draw(st.one_of(st.none(), st.tuples(st.integers(1, len(ref.NAMES) - 1), st.sampled_from([1e-5, -1e-5, 1e-3, -1e-3]))))
    return c


def strategy():
    return strategy_()


def check(c, rec):
    r, td = c["rec"], c["twodim"]
    ms = gen.times_ms(r)
    rng = np.random.default_rng(c["nseed"])
    good = rng.uniform(size=len(ms)) >= c["gap"]
    if c["cut"]:
        good[: len(ms) // 6] = False
        good[-(len(ms) // 5) :] = False
    t, (tref, lor, _) = gen.geometry(c, good)
    x = [np.where(good, rng.standard_normal(len(ms)), np.nan) for _ in range(1 + td)]
    if c["edge"]:
        k, d = c["edge"]
        if 0.02 < ref.DF[k] * 24 * lor < 20:
            c = dict(c, rmin=float(ref.DF[k] * 24 * lor * (1 + d)))
    rmin = c["rmin"] / (24 * lor)
    if np.any(np.abs(ref.DF[1:] / rmin - 1) < 1e-6):
        return  # on the edge of the criterion
    over = {}
    inf = c["infer"]
    nI = 0
    RI = []
    if inf:
        nI = len(inf)
        m = 2 if td else 1
        over["infer"] = {
            "inferred_names": [i for i, _ in inf], "reference_names": [q for _, q in inf],
            "amp_ratios": [0.2 + 0.01 * k for k in range(nI * m)], "phase_offsets": [5.0 * k for k in range(nI * m)],
        }
        RI = list(dict.fromkeys(q for _, q in inf)) + [i for i, _ in inf]
    if c["explicit"] is None:
        base = [n for n, d in zip(ref.NAMES, ref.DF) if d >= rmin]
        over["constit"] = "auto"
    else:
        base = list(c["explicit"])
        over["constit"] = list(base)
        for k in c.get("again", []):
            # named repeatedly
            over["constit"].insert(k // 2 % (len(base) + 1), base[k % len(base)])
    want = [n for n in base if n not in RI] + RI
    if not want or len(want) * 2 + 2 >= good.sum():
        return
    rec.nontrivial = len(want) > 1
    rec.label("auto" if c["explicit"] is None else "explicit", "infer" if inf else "no infer", f"n={len(want)//10*10}+")
    coef = solve(c, gen.dt64(ms), *x, Rayleigh_min=c["rmin"], order_constit=c["order"], **over)
    idx = rows(coef, want)
    nR = len(dict.fromkeys(q for _, q in inf)) if inf else 0
    need(coef["nR"] == nR and coef["nI"] == nI and coef["nNR"] == len(want) - nR - nI, "constituent counts nNR, nR, nI")
    frq = np.asarray(coef["aux"]["frq"])[idx]
    lf = ref.lin_freqs(tref)[[ref.INDEX[n] for n in want]].astype(float)
    need(np.all(np.abs(frq - lf) < 1e-12 + 1e-9 * lf), lambda: f"frequencies differ by {np.abs(frq - lf).max():.3g} cph")
    lind = np.asarray(coef["aux"]["lind"])[idx]
    need([int(k) for k in lind] == [ref.INDEX[n] for n in want], "constituent table indices")
    for f in ("Lsmaj", "Lsmin", "theta", "g") if td else ("A", "g"):
        need(np.asarray(coef[f]).shape == (len(want),), f"{f} does not have one entry per constituent")
    if c["explicit"] is None and not inf:
        # a stricter criterion or a shorter record never adds a constituent
        c2 = solve(c, gen.dt64(ms), *x, Rayleigh_min=c["rmin"] * 1.7, constit="auto")
        need(set(map(str, c2["name"])) <= set(want), "stricter Rayleigh criterion added a constituent")
        k = len(ms) * 2 // 3
        if good[:k].sum() > 60:
            c3 = solve(c, gen.dt64(ms[:k]), *[y[:k] for y in x], Rayleigh_min=c["rmin"], constit="auto")
            need(set(map(str, c3["name"])) <= set(want), "shorter record added a constituent")

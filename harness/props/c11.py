"""Ordering of the constituents only permutes the results."""

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from common import close, fields, recon_all, solve
from core import need

ID = "C11"
EXAMPLES = {"quick": 900, "thorough": 15000}
RULE = (
    "One random noisy record analysed with the orders PE, SNR, frequency, default and a drawn permutation of the "
    "names, with linear or no confidence limits, with or without inference, automatic or explicit constituents; every "
    "per-constituent field must be the same permutation. Non-trivial: at least 3 constituents."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(hi=400, k=(3, 9), min_hours=400, rare=False, many=25))
    c["nseed"] = draw(gen.seeds)
    c["namp"] = draw(st.sampled_from([0.1, 1.0]))
    c["conf"] = draw(st.sampled_from(["linear", "linear", "none"]))
    c["white"] = draw(st.booleans())
    c["auto"] = draw(st.booleans())
    c["infer"] = draw(st.booleans())
    c["perm"] = draw(gen.seeds)
    return c


def strategy():
    return strategy_()


def check(c, rec):
    r, td = c["rec"], c["twodim"]
    ms = gen.times_ms(r)
    t, (tref, lor, _) = gen.geometry(c)
    x = gen.signal(c, t, tref)
    x = list(x) if td else [x]
    x = [y + c["p"]["s"] * c["namp"] * gen.noise(c["nseed"] + j, "white", len(t)) for j, y in enumerate(x)]
    over = {"conf_int": c["conf"], "white": c["white"]}
    if c["auto"]:
        over["constit"] = "auto"
    if c["infer"]:
        m = 2 if td else 1
        over["infer"] = {"inferred_names": ["PI1", "H1"], "reference_names": ["K1", "M2"],
                         "amp_ratios": [0.3, 0.2] * m, "phase_offsets": [10.0, -20.0] * m}
    T = gen.dt64(ms)
    base = solve(c, T, *x, **over)
    names = [str(q) for q in base["name"]]
    rec.nontrivial = len(names) > 2
    rec.label("conf=" + c["conf"], "auto" if c["auto"] else "explicit", "infer" if c["infer"] else "plain", "2d" if td else "1d")
    need(len(set(names)) == len(names), "a constituent appears twice")
    perm = [names[i] for i in np.random.default_rng(c["perm"]).permutation(len(names))]
    orders = {"PE": "PE", "frequency": "frequency", "list": perm, "tuple": tuple(perm[::-1]), "array": np.array(perm)}
    if c["conf"] != "none":
        orders["SNR"] = "SNR"
    F = fields(base)
    keys = F + ["PE"]
    if c["conf"] != "none":
        keys += [f + "_ci" for f in F] + ["SNR"]
    pe = np.asarray(base["PE"], float)
    need(np.all(np.diff(pe) <= 1e-9), "default order is not by decreasing percent energy")
    P0 = recon_all(T[::13], base)
    scale = max(np.abs(y).max() for y in x)
    for o, arg in orders.items():
        s = solve(c, T, *x, order_constit=arg, **over)
        got = [str(q) for q in s["name"]]
        need(sorted(got) == sorted(names), f"order {o} changed the set of constituents")
        ib = [names.index(q) for q in got]
        for k in keys:
            if k == "PE" and c["conf"] == "none" and k not in s:
                continue  # without limits PE is only computed where the order needs it
            a, b = np.asarray(s[k], float), np.asarray(base[k], float)[ib]
            close(a, b, 1e-7 * np.nan_to_num(np.abs(b)) + 1e-300, f"{k} with order {o}")
        for k in ("frq", "lind"):
            close(np.asarray(s["aux"][k], float), np.asarray(base["aux"][k], float)[ib], 1e-15, f"aux.{k} with order {o}")
        need([ref.NAMES[int(k)] for k in s["aux"]["lind"]] == got, f"aux.lind does not match name with order {o}")
        if o == "frequency":
            need(np.all(np.diff(s["aux"]["frq"]) >= 0), "frequency order")
        elif o == "PE":
            need(np.all(np.diff(np.asarray(s["PE"], float)) <= 1e-9), "PE order")
            need(abs(np.asarray(s["PE"], float).sum() - 100) < 1e-6, "PE does not sum to 100")
        elif o == "SNR":
            q = np.asarray(s["SNR"], float)
            q = q[np.isfinite(q)]
            need(np.all(np.diff(q) <= 1e-9 * np.abs(q[:-1])), "SNR order")
        else:
            need(got == [str(q) for q in arg], f"explicit order ({o}) not honoured")
        for a, b in zip(recon_all(T[::13], s), P0):
            close(a, b, 1e-9 * scale, f"prediction with order {o}")
        if "diagn" in s:
            dn = [str(q) for q in s["diagn"]["name"]]
            need(sorted(dn) == sorted(names), "diagn names")
            dpe = np.asarray(s["diagn"]["PE"], float)
            need(np.all(np.diff(dpe) <= 1e-9), "diagn is not sorted by energy")
            j = [got.index(q) for q in dn]
            close(dpe, np.asarray(s["PE"], float)[j], 1e-9, f"diagn PE with order {o}")
            b = np.asarray(s["SNR"], float)[j]
            close(np.asarray(s["diagn"]["SNR"], float), b, 1e-7 * np.nan_to_num(np.abs(b)), f"diagn SNR with order {o}")

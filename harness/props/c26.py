"""verbose=False is silent and verbosity never changes results."""

import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import need
from props.c21 import leaves, same

ID = "C26"
EXAMPLES = {"quick": 900, "thorough": 10000}
RULE = (
    "Random analyses over all option combinations (1-D/2-D, gaps, robust, inference, Monte Carlo, every ordering and "
    "confidence option, epochs) run with verbose False, True and default; nothing may be written to stdout or stderr "
    "when verbose is False (nor numerical warnings unless the model is hopeless), something must be otherwise, and solutions and predictions must be the same. "
    "Non-trivial: every case."
)


@st.composite
def strategy_(draw):
    c = draw(gen.base_case(lo=160, hi=260, k=(1, 4), rare=False, big=9000))
    c["conf"] = draw(st.sampled_from(["none", "linear", "MC"]))
    c["white"] = draw(st.booleans())
    c["method"] = draw(st.sampled_from(["ols", "robust"]))
    c["rkw"] = draw(st.sampled_from([{}, {}, {"maxit": 1}, {"maxit": 2, "tol": 1e-9}, {"maxit": 4, "tol": 0.0}, {"weight_function": "huber", "maxit": 3, "tol": 1e-12},
                                     {"weight_function": "bisquare", "tune": 9.0}, {"weight_function": "ols"}, {"weight_function": "fair", "maxit": 200, "tol": 1e-7}]))
    c["infer"] = draw(st.booleans()) and c["conf"] != "MC"
    c["auto"] = draw(st.booleans())
    c["order"] = draw(st.sampled_from([None, "PE", "frequency", "SNR"]))
    if draw(st.sampled_from([False, False, False, True])):
        # whatever the record can tell about them
        c["wild"] = draw(st.lists(st.integers(1, ref.NC - 1), min_size=1, max_size=4, unique=True))
    c["gap"] = draw(st.booleans())
    if draw(st.integers(0, 11)) == 0:
        c["rec"]["n"] = draw(st.integers(1000, 7000))
    c["epoch"] = draw(st.booleans())
    c["nseed"] = draw(gen.seeds)
    c["snr"] = draw(st.sampled_from([0, 2, 1e9]))
    return c


def strategy():
    return strategy_()


def loud(fn, *a, **k):
    """Result, standard output, standard error, and numpy's remarks on numbers, which go to standard error too."""
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = fn(*a, **k)
        except np.linalg.LinAlgError:
            raise
        except Exception as err:
            need(False, f"{fn.__name__} raised {type(err).__name__}: {err}")
    num = [f"{fn.__name__}: {q.message}" for q in w if issubclass(q.category, RuntimeWarning)]
    oth = [f"{fn.__name__}: {q.message}" for q in w if not issubclass(q.category, RuntimeWarning)]
    return r, o.getvalue(), e.getvalue() + "".join(oth), num


def check(c, rec):
    import utide

    ms = gen.times_ms(c["rec"])
    good = np.ones(len(ms), bool)
    if c["gap"]:
        good[20:24] = False
    t, (tref, lor, _) = gen.geometry(c, good)
    x = gen.signal(c, t, tref)
    x = list(x) if c["twodim"] else [x]
    x = [y + 0.2 * c["p"]["s"] * gen.noise(c["nseed"] + j, "white", len(t)) for j, y in enumerate(x)]
    if c["gap"]:
        x[-1][20:24] = np.nan
    T = t if c["epoch"] else gen.dt64(ms)
    ep = {"epoch": "python"} if c["epoch"] else {}
    k = dict(c["opts"], lat=c["lat"], conf_int=c["conf"], white=c["white"], method=c["method"],
             constit="auto" if c["auto"] else list(c["names"]), **ep)
    k["order_constit"] = "PE" if c["order"] == "SNR" and c["conf"] == "none" else c["order"]
    if c["method"] == "robust" and c["rkw"]:
        k["robust_kw"] = dict(c["rkw"])
    if c["infer"]:
        m = 2 if c["twodim"] else 1
        k["infer"] = {"inferred_names": ["PI1" if c["names"][0] != "PI1" else "PHI1"], "reference_names": [c["names"][0]], "amp_ratios": [0.3] * m, "phase_offsets": [1.0] * m}
    if "wild" in c:
        k["constit"] = [ref.NAMES[i] for i in c["wild"]]
        k.pop("infer", None)
    rec.nontrivial = True
    rec.label(c["conf"], c["method"], "infer" if c["infer"] else "plain", "2d" if c["twodim"] else "1d")
    out = {}
    for how, kw in (("quiet", {"verbose": [False, 0, np.False_][c["nseed"] % 3]}), ("verbose", {"verbose": [True, 1][c["nseed"] % 2]}), ("default", {})):
        np.random.seed(3)
        try:
            co, o, e, w = loud(utide.solve, T, *x, **k, **kw)
        except np.linalg.LinAlgError:
            need("wild" in c, f"{how}: singular system")
            rec.label("singular (skipped)")
            rec.nontrivial = False
            return
        np.random.seed(3)
        p, o2, e2, w2 = loud(utide.reconstruct, T, co, min_SNR=c["snr"], **ep, **kw)
        need(not e and not e2, f"{how}: wrote to stderr: {(e + e2)[:200]}")
        if w or w2:
            # numbers of a hopeless model are nobody's fault
            kappa = ref.cond(gen.model_columns(t[good], tref, lor, [str(q) for q in co.name if q not in ("PI1", "PHI1")], c))
            need(kappa > 1e4, lambda: f"{how}: warnings for a well-conditioned model ({kappa:.1f}): {(w + w2)[0]}")
        if how == "quiet":
            need(o == "", lambda: f"solve(verbose=False) printed {o[:200]!r}")
            need(o2 == "", lambda: f"reconstruct(verbose=False) printed {o2[:200]!r}")
        else:
            need(o.strip() and o2.strip(), f"{how}: no message (solve: {o!r}, reconstruct: {o2!r})")
        fields = {f: v for f, v in co.items() if f != "aux"}
        out[how] = (leaves(fields), leaves({f: p[f] for f in ("h", "u", "v") if f in p}))
        if how != "default":
            need("opt" in co["aux"], "options are not kept")
    for how in ("verbose", "default"):
        same(out[how][0], out["quiet"][0], f"solution with {how} and with verbose=False")
        same(out[how][1], out["quiet"][1], f"prediction with {how} and with verbose=False")

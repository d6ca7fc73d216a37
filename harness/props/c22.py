"""Solutions can be stored and used elsewhere; results do not depend on the process."""

import copy
import datetime
import io
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import core
import gen
from core import call, need
from props.c21 import leaves
from props.c21 import same as same_leaves

ID = "C22"
EXAMPLES = {"quick": 96, "thorough": 2400}
BATCH = 8
RULE = (
    "Two to four drawn analyses (any options, inference, robust, Monte Carlo with fixed seed) per case; each solution "
    "goes through pickle (all protocols), deepcopy, copy and an .npz file, and must predict the same values; a fresh "
    "process with another hash seed, time zone and working directory must predict the same from the pickle and get the "
    "same solution from the data. Non-trivial: every case (a fresh process ran)."
)


@st.composite
def strategy_(draw):
    items = []
    for _ in range(draw(st.integers(2, 4))):
        c = draw(gen.base_case(lo=160, hi=300, k=(1, 5), rare=False))
        c["conf"] = draw(st.sampled_from(["none", "linear", "linear", "MC"]))
        c["white"] = draw(st.booleans())
        c["method"] = draw(st.sampled_from(["ols", "robust"]))
        c["infer"] = draw(st.booleans()) and c["conf"] != "MC"
        c["auto"] = draw(st.booleans())
        c["times"] = draw(st.sampled_from(["dt64", "datetime", "python"]))
        c["order"] = draw(st.sampled_from([None, "frequency", "PE"]))
        c["nseed"] = draw(gen.seeds)
        items.append(c)
    return {
        "items": items,
        "hash": draw(st.integers(1, 4000)),
        "tz": draw(st.sampled_from(["UTC", "America/New_York", "Pacific/Auckland", "XYZ+5:30"])),
        "protocol": draw(st.integers(0, pickle.HIGHEST_PROTOCOL)),
    }


def strategy():
    return strategy_()


def times(c, ms):
    if c["times"] == "dt64":
        return gen.dt64(ms)
    if c["times"] == "datetime":
        e = datetime.datetime(1970, 1, 1)
        return [e + datetime.timedelta(milliseconds=int(q)) for q in ms]
    return gen.ref.ms_to_days(ms)


def epoch(c):
    return {"epoch": "python"} if c["times"] == "python" else {}


def run(utide, c):
    ms = gen.times_ms(c["rec"])
    t, (tref, lor, _) = gen.geometry(c)
    x = gen.signal(c, t, tref)
    x = list(x) if c["twodim"] else [x]
    x = [y + 0.2 * c["p"]["s"] * gen.noise(c["nseed"] + j, "white", len(t)) for j, y in enumerate(x)]
    m = 2 if c["twodim"] else 1
    k = dict(c["opts"], lat=c["lat"], verbose=False, white=c["white"], method=c["method"], conf_int=c["conf"],
             order_constit=c["order"], constit="auto" if c["auto"] else list(c["names"]), **epoch(c))
    if c["infer"]:
        names = [c["names"][0], "M2"] if "M2" not in c["names"][:1] else ["M2", "M2"]
        k["infer"] = {"inferred_names": [q for q in ("PI1", "H1", "PHI1") if q != names[0]][:2], "reference_names": names, "amp_ratios": [0.3, 0.2] * m,
                      "phase_offsets": [10.0, -20.0] * m}
    return call(utide.solve, times(c, ms), *x, **k)


def predictions(co, c):
    import utide

    ms = gen.times_ms(c["rec"])[::5] + 987654321
    out = []
    for kw in ({"min_SNR": 0}, {}, {"constit": [str(q) for q in co["name"]][::2]}):
        p = call(utide.reconstruct, times(c, ms), co, verbose=False, **epoch(c), **kw)
        out.append({f: np.asarray(p[f]) for f in ("h", "u", "v") if f in p})
    return out


def plain(co):
    """Numerical fields and names of a solution."""
    out = {}
    for f, v in co.items():
        a = np.asarray(v) if not isinstance(v, (dict, list)) else None
        if a is not None and a.dtype.kind in "fic":
            out[f] = a
    out["name"] = [str(q) for q in co["name"]]
    return out


def same(a, b, what, tol):
    need(len(a) == len(b), what)
    for x, y in zip(a, b):
        need(sorted(x) == sorted(y), f"{what}: fields {sorted(y)} instead of {sorted(x)}")
        for f in x:
            u, v = x[f], y[f]
            need(u.shape == v.shape and np.allclose(u, v, rtol=tol, atol=tol * (np.abs(u).max() if u.size else 0), equal_nan=True), f"{what}: {f} differs")


def check(c, rec):
    import utide

    rec.nontrivial = True
    want, coefs = [], []
    scratch = tempfile.mkdtemp(prefix="c22-", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        for q in c["items"]:
            np.random.seed(4)
            co = run(utide, q)
            coefs.append(co)
            want.append(predictions(co, q))
            rec.label(q["conf"], q["method"], q["times"], "infer" if q["infer"] else "plain", "auto" if q["auto"] else "explicit")
        items = []
        for i, (q, co, w) in enumerate(zip(c["items"], coefs, want)):
            p = os.path.join(scratch, f"{i}.pkl")
            with open(p, "wb") as f:
                f.write(call(pickle.dumps, co, c["protocol"]))
            items.append({"pickle": p, "case": q})
            before = leaves(co)
            buf = io.BytesIO()
            call(np.savez, buf, coef=np.array(co, dtype=object))
            buf.seek(0)
            for how, z in (
                ("pickle", call(pickle.load, open(p, "rb"))),
                ("deepcopy", call(copy.deepcopy, co)),
                ("copy", call(copy.copy, co)),
                ("npz", call(lambda: np.load(buf, allow_pickle=True)["coef"].item())),
            ):
                need(isinstance(z, dict) and sorted(z) == sorted(co), f"{how}: {type(z).__name__} with other fields")
                same_leaves(leaves(z), before, how)
                if how != "copy":
                    need(type(z) is type(co), f"{how}: became {type(z).__name__}")
                    need(float(z.aux.reftime) == float(co.aux.reftime), f"{how}: attribute access")
                same(predictions(z, q) if how != "copy" else predictions(utide.utilities.Bunch(z), q), w, f"prediction after {how}", 1e-12)
                if how != "copy":
                    # names as other file formats give them
                    fixed = call(copy.deepcopy, co)
                    fixed["name"] = np.array([str(q) for q in co["name"]]) if c["protocol"] % 2 else np.array([str(q) for q in co["name"]], dtype=np.dtypes.StringDType()) if hasattr(np.dtypes, "StringDType") and c["hash"] % 2 else [str(q) for q in co["name"]]
                    same(predictions(fixed, q), w, "prediction from a solution with plain names", 1e-12)
                    # the two have nothing in common
                    for d in (z, z["aux"]):
                        for f, v in d.items():
                            if isinstance(v, np.ndarray) and v.dtype.kind in "fi" and v.size:
                                v[...] = 3
                    z["aux"]["opt"]["twodim"] = None
                    z["name"][:] = "?"
                    same_leaves(leaves(co), before, f"solution after overwriting its {how}")
        job = os.path.join(scratch, "job.json")
        outp = os.path.join(scratch, "out.pkl")
        json.dump({"items": items, "out": outp}, open(job, "w"))
        env = dict(os.environ, PYTHONHASHSEED=str(c["hash"]), TZ=c["tz"], VERIF_SCRATCH=scratch)
        child = os.path.join(core.HERE, "c22_child.py")
        r = subprocess.run([sys.executable, child, job], env=env, cwd=scratch, capture_output=True, text=True, timeout=200)
        if r.returncode:
            if "Violation" in r.stderr:
                need(False, "in a fresh process: " + r.stderr.strip().splitlines()[-1][:300])
            need(False, "fresh process failed: " + r.stderr[-400:])
        res = pickle.load(open(outp, "rb"))
        for q, co, w, d in zip(c["items"], coefs, want, res):
            same(w, d["pred"], "prediction in a fresh process", 1e-9)
            a, b = plain(co), d["coef"]
            need(a.pop("name") == b.pop("name"), "constituents or their order in a fresh process")
            need(sorted(a) == sorted(b), "fields in a fresh process")
            for f in a:
                ok = a[f].shape == b[f].shape and a[f].dtype == b[f].dtype
                ok = ok and np.allclose(a[f], b[f], rtol=1e-8, atol=1e-9 * np.max(np.abs(a[f]), initial=0, where=np.isfinite(a[f])), equal_nan=True)
                need(ok, f"{f} differs in a fresh process")
    finally:
        for f in os.listdir(scratch):
            os.remove(os.path.join(scratch, f)) if os.path.isfile(os.path.join(scratch, f)) else None
        import shutil

        shutil.rmtree(scratch, ignore_errors=True)

"""Calls neither remember earlier calls nor touch their arguments."""

import concurrent.futures
import contextlib
import io
import locale
import logging
import os
import pickle
import random
import signal
import struct
import sys
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

import gen
from core import call, need

ID = "C21"
EXAMPLES = {"quick": 600, "thorough": 8000}
BATCH = 20
RULE = (
    "A drawn history of 4-12 operations over 2-3 drawn records: solve with different options (1-D/2-D, robust, "
    "inference, Monte Carlo), reconstruct (plain, subset, thresholds), refused calls, overwriting of returned arrays, "
    "printing, and concurrent execution in threads; records and prediction times often come as twins that differ in one "
    "thing only (inner times, latitude, data, options, length). Every operation must give the result it gives alone in "
    "a process that never called the package before, arguments (including nested options, read-only arrays and the solution handed to reconstruct) and the "
    "public constant tables must stay as they were, only Monte Carlo may advance the random generator, and the "
    "settings of the process (floating-point errors, warnings, print options, streams, locale, ...) stay as found. "
    "Non-trivial: some operation ran at least twice with another operation in between."
)


TWINS = ["inner times", "inner times", "lat", "-lat", "data", "n", "start", "trend", "phase", "nodal", "names", "twodim"]


@st.composite
def strategy_(draw):
    recs = draw(st.lists(gen.base_case(lo=160, hi=260, k=(1, 4), rare=False), min_size=2, max_size=2))
    for _ in range(draw(st.integers(0, 2))):
        recs.append({"twin": draw(st.integers(0, 1)), "of": draw(st.sampled_from(TWINS)), "seed": draw(gen.seeds)})
    specs = []
    for _ in range(draw(st.integers(2, 4))):
        if specs and draw(st.booleans()):
            # as an earlier one but with another record
            specs.append(dict(draw(st.sampled_from(specs)), rec=draw(st.integers(0, len(recs) - 1))))
            continue
        specs.append(
            {
                "rec": draw(st.integers(0, len(recs) - 1)),
                "conf": draw(st.sampled_from(["none", "linear", "linear", "MC"])),
                "white": draw(st.booleans()),
                "method": draw(st.sampled_from(["ols", "ols", "robust", "robust"])),
                "rkw": draw(st.sampled_from([None, None, {}, {"weight_function": "huber"}, {"weight_function": "bisquare", "tune": 5.0},
                                             {"weight_function": "talwar", "tune": 3.0, "maxit": 40}, {"tune": 2.0}, {"tol": 0.01, "maxit": 3}])),
                # options left out of the call
                "omit": draw(st.lists(st.sampled_from(["trend", "phase", "nodal", "white", "method", "conf_int", "order_constit"]), max_size=3)),
                "extra": draw(st.sampled_from([{}, {}, {}, {"MC_n": 30}, {"Rayleigh_min": 0.8}, {"MC_n": 60, "Rayleigh_min": 1.4}])),
                "infer": draw(st.sampled_from([None, None, "exact", "approx"])),
                "as": draw(st.sampled_from(["list", "arrays", "all arrays"])),
                "order": draw(st.sampled_from([None, "PE", "frequency", "list"])),
                "auto": draw(st.booleans()),
                "mask": draw(st.sampled_from(["none", "nan", "ma"])),
                "lat": draw(st.sampled_from([None, 0, 10, -60])),
                "epoch": draw(st.sampled_from([None, None, None, "python", "python", "matlab", "2000-01-01", "2000-01-01T06:00:00", "2000-01-01T06:00:40"])),
            }
        )
    ops = draw(
        st.lists(
            st.tuples(
                st.sampled_from(["solve", "solve", "recon", "recon", "recon2", "threshold", "threshold", "subset", "bad", "smash", "print", "threads"]),
                st.integers(0, 3),
            ),
            min_size=4,
            max_size=12,
        )
    )
    return {"recs": recs, "specs": specs, "ops": [list(o) for o in ops]}


def strategy():
    return strategy_()


def leaves(x, path="", out=None):
    """Flat list of (path, comparable value); arrays as dtype, shape and bytes."""
    out = [] if out is None else out
    if isinstance(x, dict):
        out.append((path, "dict", tuple(sorted(map(str, x)))))
        for k in sorted(x, key=str):
            leaves(x[k], f"{path}.{k}", out)
    elif isinstance(x, np.ma.MaskedArray):
        out.append((path, "ma", str(x.dtype), x.shape, np.ma.getmaskarray(x).tobytes(), x.filled(0).tobytes()))
    elif isinstance(x, np.ndarray):
        if x.dtype.kind == "O":
            out.append((path, "obj", x.shape, tuple(map(str, x.ravel()))))
        else:
            out.append((path, "arr", str(x.dtype), x.shape, x.tobytes()))
    elif isinstance(x, (list, tuple)):
        out.append((path, type(x).__name__, len(x)))
        for i, y in enumerate(x):
            leaves(y, f"{path}[{i}]", out)
    elif isinstance(x, (float, np.floating)):
        out.append((path, "float", np.float64(x).tobytes()))
    else:
        out.append((path, "val", str(x)))
    return out


def alike(p, q):
    """Equal, or floating point values equal to rounding (memory alignment may change sums)."""
    if p == q:
        return True
    if p is None or q is None or p[:-1] != q[:-1] or p[1] not in ("float", "arr"):
        return False
    dt = np.dtype(p[2]) if p[1] == "arr" else np.dtype(float)
    if dt.kind not in "fc":
        return False
    x, y = np.frombuffer(p[-1], dt), np.frombuffer(q[-1], dt)
    with np.errstate(all="ignore"):
        return bool(np.allclose(x, y, rtol=1e-8, atol=1e-9 * np.nanmax(np.abs(x)) if np.isfinite(x).any() else 0, equal_nan=True))


def same(a, b, what):
    if a == b:
        return
    da, db = {q[0]: q for q in a}, {q[0]: q for q in b}
    bad = sorted(k for k in set(da) | set(db) if not alike(da.get(k), db.get(k)))
    need(not bad, f"{what}: {', '.join(bad[:6])} differ")


def twin(q, how, seed):
    """The record q with one thing changed."""
    q = json_copy(q)
    r = q["rec"]
    if how == "inner times":
        r.update(kind="warped", seed=seed)
    elif how == "lat":
        q["lat"] = q["lat"] + 10 if q["lat"] < 0 else q["lat"] - 10
    elif how == "-lat":
        q["lat"] = -q["lat"]
    elif how == "data":
        q["p"]["s"] = 3.0
    elif how == "n":
        r["n"] -= 1
    elif how == "start":
        r["start"] += 1 + seed % 1000
    elif how == "trend":
        q["opts"]["trend"] = not q["opts"]["trend"]
    elif how == "phase":
        q["opts"]["phase"] = "raw" if q["opts"]["phase"] == "linear_time" else "linear_time"
    elif how == "nodal":
        q["opts"]["nodal"] = "linear_time" if q["opts"]["nodal"] is True else True
    elif how == "names":
        q["names"] = q["names"][::-1]
    elif how == "twodim":
        p = q["p"]
        if q["twodim"]:
            q["p"] = {"s": p["s"], "A": p["Lsmaj"], "g": p["g"], "mean": p["um"], "slope": p["us"]}
        else:
            q["p"] = {"s": p["s"], "Lsmaj": p["A"], "ratio": [0.3] * len(p["A"]), "theta": [30.0] * len(p["A"]), "g": p["g"],
                      "um": p["mean"], "vm": 0.1, "us": p["slope"], "vs": 0.0}
        q["twodim"] = not q["twodim"]
    return q


def json_copy(q):
    import json

    return json.loads(json.dumps(q))


class Pristine:
    """A process forked before the package was ever used; it runs each call in a fork of its own."""

    def __init__(self):
        r1, self.w = os.pipe()
        self.r, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(self.w)
                os.close(self.r)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)

    @staticmethod
    def read(fd, n):
        out = b""
        while len(out) < n:
            x = os.read(fd, n - len(out))
            if not x:
                raise EOFError
            out += x
        return out

    @staticmethod
    def write(fd, data):
        data = struct.pack("q", len(data)) + data
        while data:
            data = data[os.write(fd, data) :]

    def serve(self, r, w):
        while True:
            try:
                job = self.read(r, struct.unpack("q", self.read(r, 8))[0])
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        name, a, k, mc = pickle.loads(job)
                        import utide

                        if mc:
                            np.random.seed(99)
                        with contextlib.redirect_stdout(io.StringIO()):
                            out = getattr(utide, name)(*a, **k)
                        if name == "reconstruct":
                            out = {f: out[f] for f in ("h", "u", "v") if f in out}
                        res = ("ok", leaves(out))
                    except Exception as err:
                        res = ("error", f"{type(err).__name__}: {err}")
                    self.write(w, pickle.dumps(res))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def run(self, name, a, k, mc=False):
        self.write(self.w, pickle.dumps((name, a, k, mc)))
        n = struct.unpack("q", self.read(self.r, 8))[0]
        kind, out = pickle.loads(self.read(self.r, n))
        need(kind == "ok", f"{name} in a fresh process raised {out}")
        return out


_pristine = []


def alone(*a):
    return _pristine[0].run(*a)


def tables():
    import utide

    return leaves(
        {"uc": utide.ut_constants, "ix": utide.constit_index_dict, "cph": utide.cycles_per_hour, "hpc": utide.hours_per_cycle}
    )


def settings():
    """Settings of the process that a call has no business with."""
    return {
        "floating-point error handling": (np.geterr(), str(np.geterrcall())),
        "print options": str(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": [str(f) for f in warnings.filters],
        "warning display": (id(warnings.showwarning), id(warnings.formatwarning)),
        "python's random generator": hash(random.getstate()),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "locale": locale.setlocale(locale.LC_ALL),
        "recursion limit": sys.getrecursionlimit(),
        "import path": list(sys.path),
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "root logger": (logging.root.level, logging.root.disabled, len(logging.root.handlers), logging.root.manager.disable),
        "threads": threading.active_count(),
        "signal handlers": [str(signal.getsignal(q)) for q in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM)],
        "pandas options": pandas_options(),
    }


def pandas_options():
    pd = sys.modules.get("pandas")
    return None if pd is None else (pd.get_option("mode.copy_on_write"), pd.get_option("display.precision"))


def settled(before, what):
    now = settings()
    bad = [k for k in before if now[k] != before[k]]
    need(not bad, lambda: f"{what} changes the {', '.join(bad)} of the process")


def check(c, rec):
    if not _pristine:
        _pristine.append(Pristine())
    # settings that a call cannot leave by accident
    with np.errstate(divide="warn", over="ignore", under="ignore", invalid="warn"), warnings.catch_warnings():
        warnings.resetwarnings()
        warnings.filterwarnings("ignore", message=".*", module=".*")
        history(c, rec)


def history(c, rec):
    import utide

    c = dict(c, recs=[twin(c["recs"][q["twin"]], q["of"], q["seed"]) if "twin" in q else q for q in c["recs"]])
    data = []
    for q in c["recs"]:
        ms = gen.times_ms(q["rec"])
        t, (tref, lor, _) = gen.geometry(q)
        x = gen.signal(q, t, tref)
        x = list(x) if q["twodim"] else [x]
        x = [y + 0.1 * q["p"]["s"] * gen.noise(7 + j, "white", len(t)) for j, y in enumerate(x)]
        data.append((gen.dt64(ms), t, x))
    tab0 = tables()
    set0 = settings()

    def arguments(i):
        sp = c["specs"][i % len(c["specs"])]
        q = c["recs"][sp["rec"]]
        T, t, x = data[sp["rec"]]
        a = [(t if sp["epoch"] else T).copy()]
        for y in x:
            y = y.copy()
            if sp["mask"] == "nan":
                y[5:9] = np.nan
            elif sp["mask"] == "ma":
                y = np.ma.array(y, mask=np.arange(len(y)) % 11 == 3)
            if not np.ma.isMA(y):
                y.flags.writeable = False
            a.append(y)
        a[0].flags.writeable = False
        k = dict(q["opts"], lat=q["lat"] if sp["lat"] is None else sp["lat"], verbose=False, white=sp["white"], method=sp["method"])
        k["constit"] = "auto" if sp["auto"] else list(q["names"])
        k["conf_int"] = sp["conf"]
        if sp["epoch"]:
            k["epoch"] = sp["epoch"]
        if sp["method"] == "robust":
            if sp.get("rkw") is not None:
                k["robust_kw"] = dict(sp["rkw"])
            elif "rkw" not in sp:
                k["robust_kw"] = {"weight_function": "huber"}
        if sp["infer"] and not sp["auto"]:
            m = 2 if q["twodim"] else 1
            k["infer"] = {"inferred_names": ["PI1" if q["names"][0] != "PI1" else "PHI1"], "reference_names": [q["names"][0]], "amp_ratios": [0.3] * m,
                          "phase_offsets": [10.0] * m, "approximate": sp["infer"] == "approx"}
            off = [10.0, -50.0, 400.0, 359.0][i % 4]
            k["infer"]["phase_offsets"] = [off] * m
            if sp.get("as", "list") != "list":
                # the caller's own arrays
                for f in ("amp_ratios", "phase_offsets"):
                    k["infer"][f] = np.array(k["infer"][f])
                if sp["as"] == "all arrays":
                    for f in ("inferred_names", "reference_names"):
                        k["infer"][f] = np.array(k["infer"][f])
            if sp["conf"] == "MC":
                k["conf_int"] = "linear"
        k["order_constit"] = sp["order"]
        if sp["order"] == "list":
            if sp["auto"] or "infer" in k:
                k["order_constit"] = "frequency"
            else:
                k["order_constit"] = list(q["names"])[::-1]
        for f in sp.get("omit", []):
            if not (f == "conf_int" and k.get("order_constit") == "SNR"):
                k.pop(f, None)
        k.update(sp.get("extra", {}))
        return a, k

    coefs = {}  # spec -> (live solution, its leaves)
    first = {}
    trace = []

    def guarded(fn, a, k, what, mc=False):
        before = leaves([a, k])
        state = np.random.get_state() if not mc else None
        out = call(fn, *a, **k)
        same(leaves([a, k]), before, f"{what}: arguments")
        if state is not None:
            s2 = np.random.get_state()
            need(state[2] == s2[2] and np.array_equal(state[1], s2[1]), f"{what}: random generator was advanced")
        return out

    def do_solve(i):
        a, k = arguments(i)
        mc = k.get("conf_int") == "MC"
        if mc:
            np.random.seed(99)
        return guarded(utide.solve, a, k, f"solve {i}", mc)

    def fresh(i):
        i %= len(c["specs"])
        if i not in coefs:
            co = do_solve(i)
            coefs[i] = [co, leaves(co)]
            same(coefs[i][1], baseline(i), f"solve {i}: result depends on history")
        return i, coefs[i]

    def baseline(i):
        if ("solve", i) not in first:
            a, k = arguments(i)
            first[("solve", i)] = alone("solve", a, k, k.get("conf_int") == "MC")
        return first[("solve", i)]

    for n, (op, i) in enumerate(c["ops"]):
        i %= len(c["specs"])
        what = f"step {n} ({op} {i})"
        if op == "solve":
            co = do_solve(i)
            lv = leaves(co)
            same(lv, baseline(i), f"{what}: result depends on history")
            coefs[i] = [co, lv]
        elif op in ("recon", "recon2", "subset", "threshold"):
            i, (co, lv) = fresh(i)
            sp = c["specs"][i]
            T, t, _ = data[sp["rec"]]
            a = [(t[::3] if sp["epoch"] else T[::3]).copy(), co]
            if op == "recon2":
                # same number and ends of times
                a[0][1:-1:2] = a[0][2::2][: len(a[0][1:-1:2])] if sp["epoch"] is None else a[0][1:-1:2] + 0.01
            k = {"verbose": False}
            if sp["epoch"]:
                k["epoch"] = sp["epoch"]
            if op == "subset":
                k["constit"] = [str(co["name"][0]), "XX"]
            elif op == "threshold":
                k["min_PE"] = [0, 1][i % 2]  # and the default min_SNR
            else:
                k["min_SNR"] = 0
            out = guarded(utide.reconstruct, a, k, what)
            key = (op, i)
            got = leaves({f: out[f] for f in ("h", "u", "v") if f in out})
            if key not in first:
                first[key] = alone("reconstruct", a, k)
            same(got, first[key], f"{what}: result depends on history")
            if n % 2:
                # the prediction belongs to the caller
                for f in ("h", "u", "v"):
                    if f in out:
                        out[f][:] = -1.0
            same(leaves(co), lv, f"{what}: solution")
        elif op == "bad":
            a, k = arguments(i)
            bad = [dict(k, conf_int="x"), dict(k, constit=["NOPE"]), dict(k, lat=None), dict(k, zzz=1),
                   dict(k, method="robust", robust_kw={"weight_function": "nope", "tune": 9.0}),
                   dict(k, infer={"inferred_names": ["P1"], "reference_names": ["K1"]}), dict(k, order_constit="x", trend=False)][(n + i) % 7]
            before = leaves([a, bad])
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    utide.solve(*a, **bad)
            except Exception:
                pass
            else:
                need(False, f"{what}: invalid call accepted")
            same(leaves([a, bad]), before, f"{what}: arguments")
        elif op == "smash":
            # overwrite everything the caller got back
            i, (co, lv) = fresh(i)
            for f, v in co.items():
                if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable:
                    v[...] = 7.0
            co["aux"]["frq"][:] = 0.1
            co["aux"]["lind"][:] = 0
            co["aux"]["opt"]["newopts"]["robust_kw"].update(weight_function="huber", tune=0.3, maxit=1)
            co["name"][:] = "?"
            del coefs[i]
        elif op == "print":
            i, (co, lv) = fresh(i)
            str(co), repr(co)
            same(leaves(co), lv, f"{what}: printing")
        else:
            jobs = [j for j in range(len(c["specs"])) if arguments(j)[1].get("conf_int") != "MC"]
            if not jobs:
                continue
            work = (jobs * 4)[:6]
            argl = [arguments(j) for j in work]
            for _, k in argl:
                k["verbose"] = False
            try:
                with concurrent.futures.ThreadPoolExecutor(4) as ex:
                    res = list(ex.map(lambda q: utide.solve(*q[0], **q[1]), argl))
            except Exception as err:
                need(False, f"{what}: concurrent solve raised {type(err).__name__}: {err}")
            for j, co in zip(work, res):
                lv = leaves(co)
                same(lv, baseline(j), f"{what}: concurrent result")
        trace.append((op, i))
        rec.label(op)
        same(tables(), tab0, f"{what}: constant tables")
        if op != "threads":
            settled(set0, what)
        set0 = settings()  # warnings.catch_warnings of the standard library is not made for threads
    rec.nontrivial = any(
        trace[a] == trace[b] and any(trace[m] != trace[a] for m in range(a + 1, b))
        for a in range(len(trace))
        for b in range(a + 2, len(trace))
    )


"""Matlab and npz files load into the structures they were saved from."""

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from core import need

ID = "C25"
EXAMPLES = {"quick": 4000, "thorough": 40000}
BATCH = 60
RULE = (
    "A drawn nested structure (depth up to 3: float arrays with and without NaN, integer and complex arrays, scalars, "
    "strings, column and row vectors, lists of strings) is saved as a Matlab 5 file with scipy, loaded with loadbunch "
    "(masked or not) and compared leaf by leaf with the saved structure; the same structures as .npz object arrays; "
    "showmatbunch lists every leaf; convert_unicode_arrays strips trailing blanks only. Files live in a scratch "
    "directory. Non-trivial: at least 3 leaves."
)

name = st.text("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_", min_size=1, max_size=9).map(lambda s: "v" + s)
fl = st.one_of(st.floats(-1e6, 1e6).map(lambda x: round(x, 4)), st.just(None))
text = st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=12)
long = st.integers(30, 90).flatmap(lambda n: text.map(lambda s: (s * 90)[:n]))
leaf = st.one_of(
    st.fixed_dictionaries({"k": st.just("float"), "v": st.lists(fl, min_size=2, max_size=7), "shape": st.sampled_from(["row", "col", "1d"])}),
    st.fixed_dictionaries({"k": st.just("mat"), "v": st.lists(fl, min_size=6, max_size=6)}),
    st.fixed_dictionaries({"k": st.just("int"), "v": st.lists(st.integers(-1000, 1000), min_size=2, max_size=6)}),
    st.fixed_dictionaries({"k": st.just("cplx"), "v": st.lists(st.integers(-9, 9), min_size=2, max_size=5)}),
    st.fixed_dictionaries({"k": st.just("cube"), "v": st.lists(fl, min_size=12, max_size=12), "dt": st.sampled_from(["f4", "f8"])}),
    st.fixed_dictionaries({"k": st.just("small"), "v": st.lists(st.integers(0, 99), min_size=2, max_size=6), "dt": st.sampled_from(["u1", "i2", "u4", "i8"])}),
    st.fixed_dictionaries({"k": st.just("num"), "v": st.floats(-1e3, 1e3)}),
    st.fixed_dictionaries({"k": st.just("inum"), "v": st.integers(-99, 99)}),
    st.fixed_dictionaries({"k": st.just("str"), "v": st.one_of(text, text, long)}),
    st.fixed_dictionaries({"k": st.just("strs"), "v": st.lists(text, min_size=2, max_size=5)}),
)
node = st.recursive(leaf, lambda ch: st.dictionaries(name, ch, min_size=1, max_size=3).map(lambda d: {"k": "struct", "v": d}), max_leaves=8)


def strategy():
    return st.fixed_dictionaries(
        {"top": st.dictionaries(name, node, min_size=1, max_size=4), "masked": st.booleans(), "how": st.sampled_from(["mat", "mat", "npz", "conv"])}
    )


def arr(v):
    return np.array([np.nan if q is None else q for q in v], float)


def build(d, npz=False):
    """Python side of a drawn node."""
    k, v = d["k"], d["v"]
    if k == "struct":
        return {n: build(x, npz) for n, x in v.items()}
    if k == "float":
        a = arr(v)
        return a[:, None] if d["shape"] == "col" else a[None, :] if d["shape"] == "row" else a
    if k == "cube":
        return np.round(arr(v), 1).astype(d["dt"]).reshape(2, 3, 2)
    if k == "small":
        return np.array(v, dtype=d["dt"])
    if k == "mat":
        return arr(v).reshape(2, 3)
    if k == "int":
        return np.array(v)
    if k == "cplx":
        return np.array(v) * (1 + 2j)
    if k in ("num", "inum"):
        return v
    if k == "str":
        return v
    a = np.empty(len(v), dtype=object)
    a[:] = v
    return np.array(v) if k == "strs" else a


def leaves(d):
    return sum(leaves(x) for x in d["v"].values()) if d["k"] == "struct" else 1


def same(got, d, path, masked):
    k, v = d["k"], d["v"]
    if k == "struct":
        from utide.utilities import Bunch

        need(isinstance(got, Bunch), lambda: f"{path}: {type(got).__name__} instead of a structure")
        need(sorted(got) == sorted(v), f"{path}: fields {sorted(got)} instead of {sorted(v)}")
        for n in v:
            same(got[n], v[n], f"{path}.{n}", masked)
        return
    if k in ("num", "inum"):
        need(np.ndim(got) == 0 and got == v, lambda: f"{path}: {got!r} instead of {v!r}")
        return
    if k == "str":
        need(str(got) == v, lambda: f"{path}: {got!r} instead of {v!r}")
        return
    if k == "strs":
        # matlab pads to a common length
        need([str(q).rstrip() for q in np.asarray(got).ravel()] == list(v), lambda: f"{path}: {got!r} instead of {v!r}")
        return
    want = build(d)
    if isinstance(want, np.ndarray):
        want = want.squeeze()
    need(np.shape(got) == want.shape, lambda: f"{path}: shape {np.shape(got)} instead of {want.shape}")
    if k in ("float", "mat", "cube"):
        bad = np.isnan(want)
        if masked and bad.any():
            need(np.ma.isMA(got), f"{path}: invalid values not masked")
            need(np.array_equal(np.ma.getmaskarray(got), bad), f"{path}: wrong mask")
        else:
            need(not np.ma.isMA(got), f"{path}: masked array without invalid values")
            need(np.array_equal(np.isnan(got), bad), f"{path}: NaN lost")
        need(np.array_equal(np.ma.getdata(got)[~bad], want[~bad]), f"{path}: values")
    else:
        need(np.array_equal(got, want), lambda: f"{path}: {got!r} instead of {want!r}")
        if k == "small":
            need(np.asarray(got).dtype == d["dt"], lambda: f"{path}: {got.dtype} instead of {d['dt']}")
        if k == "cplx":
            need(np.asarray(got).dtype.kind == "c", f"{path}: dtype {got.dtype}")


def listing(b, path=""):
    """(path, description) of every leaf of a loaded structure, as showmatbunch documents them."""
    out = []
    for k, v in b.items():
        p = f"{path}.{k}" if path else k
        if isinstance(v, dict):
            out += listing(v, p)
        elif isinstance(v, str):
            out.append((p, v if len(v) < 50 else f"string, {len(v)} characters"))
        elif isinstance(v, np.ndarray):
            out.append((p, f"{'masked array' if np.ma.isMA(v) else 'ndarray'}, shape {v.shape}, dtype {v.dtype}"))
        else:
            out.append((p, f"{type(v).__name__} {v}"))
    return sorted(out)


def nested(x):
    """Matlab-like nested (1,1) structured arrays, as in UTide's own npz files."""
    if isinstance(x, dict):
        a = np.empty((1, 1), dtype=[(n, object) for n in x])
        for n in x:
            a[0, 0][n] = nested(x[n])
        return a
    if isinstance(x, str):
        return np.array([x])
    return np.atleast_1d(x)


def check(c, rec):
    from scipy.io import savemat

    from core import call
    from utide.utilities import Bunch, convert_unicode_arrays, loadbunch, showmatbunch

    n = sum(leaves(d) for d in c["top"].values())
    rec.nontrivial = n >= 3
    rec.label(c["how"], "masked" if c["masked"] else "plain", f"leaves={min(n, 9)}")
    if c["how"] == "npz" and n % 2:
        # any name can be saved in an archive
        c = dict(c, top={"_" + k if i % 2 == 0 else k: d for i, (k, d) in enumerate(c["top"].items())})
    data = {k: build(d) for k, d in c["top"].items()}
    if c["how"] == "conv":
        b = Bunch(u=np.array(["ab  ", " c ", "d"]), o=np.array([np.array(["x "]), "y", None, 3, np.array([" z  "]), np.array([""])], dtype=object), one=np.array(["only  "]), n=np.arange(3.0),
                  s="keep  ", sub=Bunch(w=np.array(["q  ", "rr"]), k=1))
        for k, d in c["top"].items():
            if d["k"] == "strs":
                b[k] = np.array([q + "   " for q in d["v"]])
        out = call(convert_unicode_arrays, b)
        need(isinstance(out, Bunch) and sorted(out) == sorted(b), "fields after conversion")
        need(list(out.u) == ["ab", " c", "d"] and out.u.dtype == object and all(type(q) is str for q in out.u), f"strings {list(out.u)}")
        need(list(out.o) == ["x", "y", None, 3, " z", ""], f"objects {list(out.o)}")
        need(np.array_equal(out.n, np.arange(3.0)) and out.s == "keep  " and list(out.sub.w) == ["q", "rr"] and out.sub.k == 1, "other entries")
        need(type(out.one) is str and out.one == "only", lambda: f"a single string became {out.one!r}")
        need(list(b.u) == ["ab  ", " c ", "d"], "argument changed")
        for k, d in c["top"].items():
            if d["k"] == "strs":
                need(list(out[k]) == list(d["v"]), f"strings of {k}")
        return
    scratch = tempfile.mkdtemp(prefix="c25-", dir=os.environ.get("VERIF_SCRATCH"))
    try:
        p = os.path.join(scratch, "f." + c["how"])
        if c["how"] == "mat":
            savemat(p, data)
        else:
            np.savez(p, **{k: nested(v) for k, v in data.items()})
        got = call(loadbunch, p, masked=c["masked"])
        need(sorted(got) == sorted(data), lambda: f"variables {sorted(got)} instead of {sorted(data)}")
        for k, d in c["top"].items():
            if c["how"] == "npz" and d["k"] == "mat":
                continue
            same(got[k], d, k, c["masked"])
        if c["how"] == "mat":
            text = call(showmatbunch, got)
            want = listing(got)
            need(len(want) == n and len(text.splitlines()) == n, lambda: f"{len(text.splitlines())} lines for {n} leaves")
            lines = dict(q.split(" : ", 1) for q in text.splitlines())
            need({k.rstrip(" "): v for k, v in lines.items()} == dict(want), lambda: f"listing {lines} of {want}")
            need(list(lines) == sorted(lines), "listing is not sorted")
            if c["masked"]:
                need(call(showmatbunch, p) == text, "showmatbunch of the file and of its contents")
        need(call(showmatbunch, Bunch()) == "", "listing of nothing")
        bad = os.path.join(scratch, "f.txt")
        open(bad, "w").write("x")
        try:
            loadbunch(bad)
        except ValueError:
            pass
        else:
            need(False, "unknown file type accepted")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

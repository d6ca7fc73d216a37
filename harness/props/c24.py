"""Bunch behaves as a dictionary with attribute access."""

import copy
import pickle
import shutil
import tempfile
import os

from hypothesis import strategies as st

from core import need

ID = "C24"
EXAMPLES = {"quick": 9000, "thorough": 200000}
BATCH = 200
RULE = (
    "Drawn histories of 1-25 operations on a Bunch (construction from dicts / pairs / keywords, item and attribute "
    "assignment, reading, deletion, update, update_values and update_None with and without strict, copies, pickling, "
    "from_pyfile, printing) replayed on a plain dict model; contents, exceptions and untouched state on refusal must "
    "agree after every step. Non-trivial: at least 4 operations that change or refuse to change the contents."
)

key = st.sampled_from(["a", "b", "c", "d", "x1", "keys_", "strict2", "name", "umean", "t_mpl", "t_in"])
val = st.one_of(st.none(), st.integers(-5, 5), st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=45),
                st.booleans(), st.floats(-10, 10))
dct = st.dictionaries(key, val, max_size=4)
op = st.one_of(
    st.tuples(st.just("setitem"), key, val),
    st.tuples(st.just("setattr"), key, val),
    st.tuples(st.just("get"), key),
    st.tuples(st.just("del"), key),
    st.tuples(st.just("pop"), key),
    st.tuples(st.just("update"), dct, dct),
    st.tuples(st.just("values"), st.lists(dct, max_size=3), dct, st.booleans()),
    st.tuples(st.just("values"), st.lists(dct, max_size=3), dct, st.booleans()),
    st.tuples(st.just("none"), st.lists(dct, max_size=3), dct, st.booleans()),
    st.tuples(st.just("none"), st.lists(dct, max_size=3), dct, st.booleans()),
    st.tuples(st.just("copy"), st.sampled_from(["pickle", "deepcopy", "bunch", "dict"])),
    st.tuples(st.just("print")),
    st.tuples(st.just("pyfile"), dct, st.integers(0, 5), st.lists(st.text("ab #\t=:'()[]", max_size=12), max_size=5)),
    st.tuples(st.just("setdefault"), key, val),
)


def strategy():
    return st.fixed_dictionaries(
        {"init": st.lists(dct, max_size=3), "kw": dct, "pairs": st.booleans(), "ops": st.lists(op, min_size=1, max_size=25)}
    )




def _code(style, lines):
    """Further code for the file, and the variables it makes."""
    text = "\n".join(lines)
    if style == 0:  # a string of several lines
        return f'_doc = """{text}"""\n', {"_doc": text}
    if style == 1:  # a list over several lines, comments, no newline at the end
        body = "".join(f"{x!r},  # {i}\n" for i, x in enumerate(lines))
        return f"# values\n_lst = [\n{body}]\n_cnt = len(_lst)  # used again", {"_lst": list(lines), "_cnt": len(lines)}
    if style == 2:  # conditions and loops, indented with tabs
        return f"_s = 0\nif {len(lines)} > 1:\n\tfor _k in range({len(lines)}):\n\t\t_s += _k\nelse:\n\t_s = _k = -1\n", {
            "_s": sum(range(len(lines))) if len(lines) > 1 else -1,
            "_k": len(lines) - 1 if len(lines) > 1 else -1,
        }
    if style == 3:  # a string continued on the next line
        return f'_c = "begin\\\n{len(text)} end"\n', {"_c": f"begin{len(text)} end"}
    if style == 4:  # a function of the file's own variables, used in a comprehension
        return f"_n = {len(text)}\ndef _f(x):\n    return x + _n\n_r = [_f(q) for q in (1, 2)]\ndel _f\n", {
            "_n": len(text),
            "_r": [1 + len(text), 2 + len(text)],
        }
    return "", {}


def check(c, rec):
    from utide.utilities import Bunch

    args = [list(d.items()) if c["pairs"] and i % 2 else d for i, d in enumerate(c["init"])]
    before = copy.deepcopy(args)
    b = Bunch(*args, **c["kw"])
    m = {}
    for a in args:
        m.update(a)
    m.update(c["kw"])
    changes = 0

    def agree(what):
        need(isinstance(b, dict) and dict(b) == m, lambda: f"{what}: {dict(b)} instead of {m}")
        need(list(b) == list(m) and len(b) == len(m), lambda: f"{what}: order {list(b)} instead of {list(m)}")
        for k in m:
            need(getattr(b, k) == m[k] and b[k] == m[k] and k in b, lambda: f"{what}: attribute {k}")
        need(args == before, f"{what}: argument changed")

    agree("construction")
    for o in c["ops"]:
        kind = o[0]
        rec.label(kind)
        if kind == "setitem":
            b[o[1]] = o[2]
            m[o[1]] = o[2]
            changes += 1
        elif kind == "setattr":
            setattr(b, o[1], o[2])
            m[o[1]] = o[2]
            changes += 1
        elif kind == "get":
            need(hasattr(b, o[1]) == (o[1] in m), f"hasattr {o[1]}")
            need(getattr(b, o[1], "?") == m.get(o[1], "?") and b.get(o[1]) == m.get(o[1]), f"value of {o[1]}")
            if o[1] not in m:
                try:
                    b[o[1]]
                except KeyError:
                    pass
                else:
                    need(False, "missing item found")
        elif kind in ("del", "pop"):
            if o[1] in m:
                if kind == "del":
                    del b[o[1]]
                else:
                    need(b.pop(o[1]) == m[o[1]], "popped value")
                del m[o[1]]
                changes += 1
        elif kind == "update":
            b.update(o[1], **o[2])
            m.update(o[1], **o[2])
            changes += 1
        elif kind == "setdefault":
            need(b.setdefault(o[1], o[2]) == m.setdefault(o[1], o[2]), "setdefault")
        elif kind in ("values", "none"):
            # any number of dictionaries, of which the later take precedence
            ds, d2, strict = o[1], o[2], o[3]
            k1 = copy.deepcopy(ds)
            new = {}
            for d in ds:
                new.update(d)
            new.update(d2)
            fn = b.update_values if kind == "values" else b.update_None
            kw = dict(d2, strict=True) if strict else (dict(d2) if len(d2) % 2 else dict(d2, strict=False))
            bad = set(new) - set(m)
            refused = False
            try:
                fn(*ds, **kw)
            except KeyError as err:
                refused = True
                need(all(q in str(err) for q in bad), f"refused keys {bad} not named in {err}")
            need(refused == bool(strict and bad), f"{kind} strict={strict} new keys {bad}: {'refused' if refused else 'accepted'}")
            if not refused:
                for k, v in new.items():
                    if k in m and (kind == "values" or m[k] is None):
                        m[k] = v
            need(ds == k1, "update argument changed")
            changes += 1
        elif kind == "copy":
            if o[1] == "pickle":
                b2 = pickle.loads(pickle.dumps(b))
            elif o[1] == "deepcopy":
                b2 = copy.deepcopy(b)
            elif o[1] == "bunch":
                b2 = Bunch(b)
            else:
                b2 = Bunch(dict(b))
            need(type(b2) is Bunch, "type of the copy")
            b2["only in copy"] = 1
            need("only in copy" not in b, "copy shares contents")
            del b2["only in copy"]
            b = b2
        elif kind == "print":
            s = str(b)
            lines = s.splitlines()
            need(s == "" if not m else s.endswith("\n"), "printing")
            need(len(lines) == len(m), lambda: f"{len(lines)} lines for {len(m)} entries: {s!r}")
            for k, line in zip(sorted(m), lines):
                need(line.startswith(k) and line.rstrip().endswith(str(m[k]).rstrip()), lambda: f"line {line!r} for {k}: {m[k]!r}")
                left = line[len(k):].lstrip(" ")
                need(left.startswith(":"), lambda: f"line {line!r}")
            f = b.formatted(types=True).splitlines()
            need(len(f) == len(m), "formatted")
            for k, line in zip(sorted(m), f):
                need(line.startswith(k) and line.endswith(type(m[k]).__name__), lambda: f"line {line!r} for the type of {k}")
            need(b.formatted(fmt="{0}={1};") == "".join(f"{k}={m[k]};" for k in sorted(m)), "custom format")
        elif kind == "pyfile":
            d = tempfile.mkdtemp(prefix="c24-", dir=os.environ.get("VERIF_SCRATCH"))
            try:
                p = os.path.join(d, "opts.py")
                with open(p, "w") as fh:
                    for k, v in o[1].items():
                        fh.write(f"{k} = {v!r}\n")
                    fh.write("_zz = [q for q in range(3)]\n")
                    extra, want = _code(o[2], o[3])
                    fh.write(extra)
                need(b.from_pyfile(p) is b, "from_pyfile returns the Bunch")
            finally:
                shutil.rmtree(d, ignore_errors=True)
            m.update(o[1])
            m["_zz"] = [0, 1, 2]
            need(b["_zz"] == [0, 1, 2], "variables of the file")
            b.pop("_zz"), m.pop("_zz")
            for k, v in want.items():
                need(k in b and b[k] == v, lambda: f"{k} of the file is {b.get(k)!r} instead of {v!r}")
                b.pop(k)
            changes += 1
        agree(kind)
    rec.nontrivial = changes >= 4

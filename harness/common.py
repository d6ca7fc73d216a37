"""Helpers shared by the checks (after core.setup_imports())."""

import numpy as np
import utide

import gen
import ref
from core import call, need


def solve(case, t, u, v=None, **over):
    o = dict(case.get("opts", {}))
    o.setdefault("verbose", False)
    if "names" in case:
        o.setdefault("constit", list(case["names"]))
    o.setdefault("conf_int", "none")
    o.update(over)
    if v is None:
        return call(utide.solve, t, u, lat=case["lat"], **o)
    return call(utide.solve, t, u, v, lat=case["lat"], **o)


def recon(t, coef, **k):
    k.setdefault("verbose", False)
    return call(utide.reconstruct, t, coef, **k)


def recon_all(t, coef, **k):
    """Reconstruct with every constituent; list of one or two series."""
    k.setdefault("min_SNR", 0)
    out = recon(t, coef, **k)
    return series(out)


def series(out):
    if "u" in out:
        need("v" in out and "h" not in out, "vector reconstruction must have u and v only")
        return [np.asarray(out["u"]), np.asarray(out["v"])]
    need("h" in out and "v" not in out, "scalar reconstruction must have h only")
    return [np.asarray(out["h"])]


def close(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    need(a.shape == b.shape, lambda: f"{what}: shape {a.shape} instead of {b.shape}")
    if a.size == 0:
        return
    na, nb = np.isnan(a), np.isnan(b)
    need(np.array_equal(na, nb), lambda: f"{what}: missing values differ ({na.sum()} vs {nb.sum()})")
    d = np.abs(a - b)
    d[na] = 0
    d[(a == b)] = 0
    need(
        not np.isnan(d).any() and np.all(d <= tol),
        lambda: f"{what}: differs by {np.nanmax(d):.3g} (tolerance {np.max(tol):.3g}); "
        f"got {a.ravel()[np.argmax(d / (tol if np.ndim(tol) == 0 else 1))]!r} "
        f"expected {b.ravel()[np.argmax(d / (tol if np.ndim(tol) == 0 else 1))]!r}",
    )


def angle_diff(a, b, period=360.0):
    return (np.asarray(a, float) - np.asarray(b, float) + period / 2) % period - period / 2


def rows(coef, names):
    """Row numbers of `names` in a solution, which must hold exactly those names."""
    got = [str(x) for x in coef["name"]]
    need(
        sorted(got) == sorted(names),
        lambda: f"constituents {got} instead of {list(names)}",
    )
    return [got.index(n) for n in names]


CI_1D = ("A_ci", "g_ci")
CI_2D = ("Lsmaj_ci", "Lsmin_ci", "theta_ci", "g_ci")


def fields(coef):
    return ["Lsmaj", "Lsmin", "theta", "g"] if "Lsmaj" in coef else ["A", "g"]


def background(coef, trend):
    """[mean...] and [slope...] of a solution."""
    if "umean" in coef:
        m = [coef["umean"], coef["vmean"]]
        s = [coef["uslope"], coef["vslope"]] if trend else [0.0, 0.0]
    else:
        m = [coef["mean"]]
        s = [coef["slope"]] if trend else [0.0]
    return [float(x) for x in m], [float(x) for x in s]


def check_coef_shape(coef, n, twodim, trend):
    """Documented fields with one finite entry per constituent, angles in range."""
    for f in ["Lsmaj", "Lsmin", "theta", "g"] if twodim else ["A", "g"]:
        need(f in coef, f"missing field {f}")
        x = np.asarray(coef[f])
        need(x.shape == (n,), lambda: f"{f} has shape {x.shape}, expected ({n},)")
        need(np.all(np.isfinite(x)), f"{f} not finite")
    need(np.all((coef["g"] >= 0) & (coef["g"] <= 360)), "g outside 0..360")
    if twodim:
        need(np.all((coef["theta"] >= 0) & (coef["theta"] <= 180)), "theta outside 0..180")
        need(np.all(coef["Lsmaj"] >= np.abs(coef["Lsmin"]) * (1 - 1e-12)), "Lsmaj < |Lsmin|")
        need("A" not in coef, "A in a vector solution")
    else:
        need(np.all(coef["A"] >= 0), "negative amplitude")
        need("Lsmaj" not in coef, "Lsmaj in a scalar solution")
    m = ["umean", "vmean"] if twodim else ["mean"]
    s = ["uslope", "vslope"] if twodim else ["slope"]
    for f in m + (s if trend else []):
        need(f in coef and np.ndim(coef[f]) == 0 and np.isfinite(coef[f]), f"bad {f}")


def total_scale(coef):
    a = np.abs(coef["Lsmaj"]) + np.abs(coef["Lsmin"]) if "Lsmaj" in coef else np.abs(coef["A"])
    return float(a.sum()) if len(a) else 0.0

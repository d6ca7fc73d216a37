"""Driver: sharded Hypothesis search, shrinking, replay, evidence."""

import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("UTIDE_REPO", "/repo")
NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


class Violation(Exception):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself cannot run (never a verdict about the property)."""


def setup_imports():
    """Import utide from /repo's working tree and hypothesis from the tool venv."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    extra = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(extra)
        import hypothesis  # noqa: F401
    import utide

    f = os.path.realpath(utide.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"utide imported from {f}, not from {REPO}")
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def _short_tb():
    tb = traceback.format_exc().strip().splitlines()
    return " | ".join(x.strip() for x in tb[-5:])


def call(fn, *a, **k):
    """Call the code under test; an exception on valid input is a violation."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return fn(*a, **k)
    except Exception as err:
        name = getattr(fn, "__name__", str(fn))
        raise Violation(
            f"{name} raised {type(err).__name__}: {str(err)[:300]} on valid input ({_short_tb()})"
        ) from None


def need(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Rec:
    """What one case was: labels, whether it was non-trivial, known findings hit."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.known = []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def finding(self, key, text):
        self.known.append((key, text))


def load_prop(pid):
    mod = importlib.import_module("props." + pid.lower())
    assert mod.ID == pid
    return mod


def known_findings(pid):
    """{key: text} of the open findings recorded for this property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def run_case(mod, case):
    """Run one case; returns (Rec, None | failure text)."""
    import numpy as np

    rec = Rec()
    np.random.seed(12345)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            mod.check(case, rec)
    except Violation as v:
        return rec, str(v)
    except (MemoryError, HarnessError):
        raise
    except Exception as err:
        # The check walks over outputs of the code under test: what it cannot
        # even read (missing field, wrong shape or type) is a violation.
        return rec, f"unusable result: {type(err).__name__}: {err} ({_short_tb()})"
    known = known_findings(mod.ID) if rec.known else {}
    for key, text in rec.known:
        if key not in known:
            return rec, f"[{key}] {text}"
    return rec, None


def canon(case):
    return json.dumps(case, sort_keys=True)


# --- worker ------------------------------------------------------------------


def worker(pid, tier, seed, shard, nshards, budget, outdir):
    setup_imports()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = load_prop(pid)
    out = open(os.path.join(outdir, f"shard{shard}.jsonl"), "a", buffering=1)

    def emit(kind, **kw):
        out.write(json.dumps(dict(kind=kind, **kw)) + "\n")

    stats = collections.Counter()
    labels = collections.Counter()
    known = {}
    hashes = set()
    samples = []
    t0 = time.time()
    state = {"failed": None}

    passed = set()

    def execute(case, origin):
        # Hypothesis starts every batch with the same simplest cases
        key = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
        if key in passed:
            stats["repeated"] += 1
            return
        rec, fail = run_case(mod, case)
        if fail is None:
            passed.add(key)
        stats["evaluations"] += 1
        for lab in rec.labels:
            labels[lab] += 1
        known.update(rec.known)
        if rec.nontrivial:
            if key not in hashes:
                hashes.add(key)
                if len(samples) < 3:
                    samples.append(case)
                elif len(hashes) in (8 + 3 * shard, 30 + 5 * shard):
                    samples.insert(0, case)  # the first ones are the simplest
        if fail is not None:
            emit("fail", case=case, text=fail, origin=origin)
            state["failed"] = fail
            raise Violation(fail)

    def summary(done):
        emit(
            "summary",
            stats=dict(stats),
            labels=dict(labels),
            known=known,
            hashes=sorted(hashes),
            samples=samples,
            done=done,
            wall=time.time() - t0,
        )

    total = mod.EXAMPLES[tier]
    mine = total // nshards + (1 if shard < total % nshards else 0)
    fixed = list(mod.fixed_cases(tier)) if hasattr(mod, "fixed_cases") else []
    try:
        for i, case in enumerate(fixed):
            if i % nshards == shard:
                execute(json.loads(canon(case)), ["fixed", i])
        batch = 0
        per = getattr(mod, "BATCH", 40)
        while mine > 0 and time.time() - t0 < budget:
            k = min(per, mine)
            mine -= k
            hseed = (seed * 1000003 + shard * 7919 + batch * 104729) % (2**63)

            @hypothesis.seed(hseed)
            @settings(
                max_examples=k,
                database=None,
                deadline=None,
                derandomize=False,
                print_blob=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=list(HealthCheck),
            )
            @given(mod.strategy())
            def prop(case):
                execute(json.loads(canon(case)), ["batch", shard, batch])

            with contextlib.redirect_stdout(io.StringIO()):
                prop()
            batch += 1
        stats["skipped_by_budget"] += mine
        summary(True)
    except Exception as err:
        if state["failed"] is not None:
            summary(True)
            sys.exit(0)
        emit("error", text=f"{type(err).__name__}: {err}\n{traceback.format_exc()}")
        sys.exit(3)


# --- parent ------------------------------------------------------------------


def child_env():
    env = dict(os.environ)
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MPLBACKEND="Agg",
        TZ="UTC",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(env["VERIF_SCRATCH"], "hyp"),
        PYTHONPYCACHEPREFIX=os.path.join(env["VERIF_SCRATCH"], "pyc"),
    )
    return env


def replay_once(pid, path):
    """Fresh process; returns (0 held | 1 violated | 2 error, text)."""
    cmd = [sys.executable, os.path.join(HERE, "run.py"), pid, "--replay-worker", path]
    try:
        r = subprocess.run(cmd, env=child_env(), cwd=HERE, capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        return 2, "replay timed out"
    last = [x for x in r.stdout.splitlines() if x.startswith("REPLAY ")]
    if not last:
        return 2, (r.stdout + r.stderr)[-2000:]
    kind, _, text = last[-1][7:].partition(" ")
    return {"held": 0, "violated": 1}.get(kind, 2), text


def replay_worker(pid, path):
    setup_imports()
    mod = load_prop(pid)
    data = json.load(open(path))
    if data.get("mode") == "batch":
        # history-dependent failure: run the recorded cases one after another
        for case in data["cases"]:
            _, fail = run_case(mod, case)
            if fail:
                print("REPLAY violated " + fail.replace("\n", " "))
                return
        print("REPLAY held")
        return
    _, fail = run_case(mod, data["case"])
    print("REPLAY held" if fail is None else "REPLAY violated " + fail.replace("\n", " "))


def parent(pid, tier, seed):
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET_S", "300" if tier == "quick" else "3000"))
    grace = 20.0 if tier == "quick" else 90.0
    outdir = os.path.join(os.environ["VERIF_SCRATCH"], "out")
    os.makedirs(outdir, exist_ok=True)
    mod = load_prop(pid)
    stale = os.path.join(VERIF, "evidence", "replays", f"{pid}.json")
    if os.path.exists(stale):
        os.remove(stale)
    procs = []
    for s in range(NSHARDS):
        cmd = [sys.executable, os.path.join(HERE, "run.py"), pid, "--worker", str(s)]
        cmd += [str(NSHARDS), tier, str(seed), str(budget), outdir]
        err = open(os.path.join(outdir, f"shard{s}.err"), "w")
        procs.append(
            subprocess.Popen(
                cmd, env=child_env(), cwd=HERE, stdout=subprocess.DEVNULL, stderr=err
            )
        )

    def read():
        fails, sums, errors = [], [], []
        for s in range(NSHARDS):
            p = os.path.join(outdir, f"shard{s}.jsonl")
            if not os.path.exists(p):
                continue
            for line in open(p):
                if not line.endswith("\n"):
                    continue
                d = json.loads(line)
                {"fail": fails, "summary": sums, "error": errors}[d["kind"]].append(d)
        return fails, sums, errors

    deadline = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        if deadline is None:
            if read()[0]:
                deadline = time.time() + grace
        elif time.time() > deadline:
            break
        # stop early once a shard has finished shrinking its failure
        elif any(p.poll() is not None for p in procs):
            f, sm, _ = read()
            if f and any(
                p.poll() is not None and os.path.exists(os.path.join(outdir, f"shard{i}.jsonl"))
                and '"kind": "fail"' in open(os.path.join(outdir, f"shard{i}.jsonl")).read()
                for i, p in enumerate(procs)
            ):
                break
        if time.time() - t0 > budget + 400:
            break
    for p in procs:
        if p.poll() is None:
            p.kill()
    codes = [p.wait() for p in procs]
    fails, sums, errors = read()
    stuck = time.time() - t0 > budget + 400 and not fails

    stats, labels, known, hashes, samples = (
        collections.Counter(), collections.Counter(), {}, set(), [],
    )
    for d in sums:
        stats.update(d["stats"])
        labels.update(d["labels"])
        known.update(d["known"])
        hashes.update(d["hashes"])
        samples.extend(d["samples"][:1])

    status, violation = 0, None
    if fails:
        repdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(repdir, exist_ok=True)
        rp = os.path.join(repdir, f"{pid}.json")
        order = sorted(fails, key=lambda d: len(canon(d["case"])))
        tried = [order[0], fails[0]] + order[1:4]
        for d in tried:
            json.dump({"property": pid, "case": d["case"], "text": d["text"]}, open(rp, "w"), indent=1)
            r, text = replay_once(pid, rp)
            if r == 1:
                violation = text
                break
        if violation is None:
            d = fails[0]
            violation = d["text"] + " [did not fail again alone in a fresh process: depends on earlier calls]"
            json.dump(
                {"property": pid, "case": d["case"], "text": violation, "origin": d["origin"],
                 "note": "failed during the run of shard/batch `origin` at seed %d" % seed},
                open(rp, "w"), indent=1,
            )
        status = 1
        print(f"{pid}: {violation[:1500]}")
        print(f"VIOLATION property={pid} replay={rp}")
    elif errors or stuck or any(codes):
        status = 2
        for e in errors:
            print("HARNESS ERROR:", e["text"], file=sys.stderr)
        for s in range(NSHARDS):
            txt = open(os.path.join(outdir, f"shard{s}.err")).read()
            if txt or codes[s]:
                print(f"shard {s} rc={codes[s]}: {txt[-1500:]}", file=sys.stderr)
        if stuck:
            print("HARNESS ERROR: time budget exhausted", file=sys.stderr)
    listed = known_findings(pid)
    for key, text in sorted(known.items()):
        if key in listed:
            print(f"KNOWN-FINDING: property={pid} [{key}] {text}")

    evaluations = int(stats["evaluations"]) or len(fails)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": mod.RULE,
            "samples": samples[:6] or [d["case"] for d in fails[:1]],
            "labels": dict(sorted(labels.items(), key=lambda x: -x[1])[:60]),
            "repeated_cases_not_run_again": int(stats["repeated"]),
            "not_run_within_time_budget": int(stats["skipped_by_budget"]),
            "known_findings_seen": sorted(known),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if status == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))
    print(
        f"{pid} {tier} seed={seed}: {evaluations} cases, {len(hashes)} distinct non-trivial, "
        f"{ev['wall_s']} s, exit {status}"
    )
    return status

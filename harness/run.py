#!/usr/bin/env python3
"""Decide one property.

run.py <ID> [--tier quick|thorough] [--replay FILE]
exit 0: held on everything explored; 1: VIOLATION line; 2: the check could not run.
"""

import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"


def main():
    args = sys.argv[1:]
    pid = args[0]
    sys.path.insert(0, HERE)
    if "--worker" in args or "--replay-worker" in args:
        import core

        if args[1] == "--worker":
            s, n, tier, seed, budget, outdir = args[2:8]
            core.worker(pid, tier, int(seed), int(s), int(n), float(budget), outdir)
        else:
            core.replay_worker(pid, args[2])
        return 0
    if os.path.realpath(sys.executable) != os.path.realpath(VENV) or sys.prefix == sys.base_prefix:
        if os.path.exists(VENV) and not os.environ.get("VERIF_REEXEC"):
            os.environ["VERIF_REEXEC"] = "1"
            os.execv(VENV, [VENV, os.path.abspath(__file__)] + args)
    # no byte code of ours or of /repo is written next to the sources
    sys.dont_write_bytecode = True
    if pid == "--selftest":
        # setup: nothing to build, but fail early when a dependency is missing
        import core

        core.setup_imports()
        for name in sorted(os.listdir(os.path.join(HERE, "props"))):
            if name.startswith("c") and name.endswith(".py"):
                core.load_prop(name[:-3].upper()).strategy()
        print("harness ready")
        return 0
    scratch = tempfile.mkdtemp(prefix="verif-")
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        import core

        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in args:
            tier = args[args.index("--tier") + 1]
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        if "--replay" in args:
            path = args[args.index("--replay") + 1]
            r, text = core.replay_once(pid, path)
            if r == 1:
                print(f"{pid}: {text[:1500]}")
                print(f"VIOLATION property={pid} replay={path}")
            else:
                print("held" if r == 0 else "error: " + text)
            return r
        core.setup_imports()
        return core.parent(pid, tier, seed)
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())

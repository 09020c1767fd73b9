"""python -m mc.run <property-id>            runs the check of one property
python -m mc.run replay <replay-file>        re-executes one recorded violation"""
from __future__ import annotations

import importlib
import json
import os
import shutil
import sys
import tempfile
import traceback


def main() -> int:
    import mc.core as core
    args = sys.argv[1:]
    if args and args[0] == "replay":
        data = json.loads(open(args[1]).read())
        mod = importlib.import_module(f"mc.checks.{data['property'].lower()}")
        if isinstance(data["case"], dict) and set(data["case"]) == {"exception"}:  # outside of a single case: run all
            ck = core.Check(mod.PROPERTY, mod.LEVEL, mod.RULE)
            mod.run(ck)
            err = ck.violations.get(data["key"])
        else:
            err = mod.replay(data["case"])
        print("reproduced:" if err else "not reproduced", err or "")
        return 1 if err else 0

    mod = importlib.import_module(f"mc.checks.{args[0].lower()}")
    ck = core.Check(mod.PROPERTY, mod.LEVEL, mod.RULE)
    try:
        mod.run(ck)
    except Exception as e:  # noqa
        if not core.raised_by_repo(e):
            raise
        core.exception_violation(ck, e)
    return ck.finish()


if __name__ == "__main__":
    # pkm keeps its home under XDG_DATA_HOME: a scratch one for every run
    scratch = tempfile.mkdtemp(prefix="mc-")
    os.environ["XDG_DATA_HOME"] = os.path.join(scratch, "data")
    os.environ["TMPDIR"] = os.path.join(scratch, "tmp")
    os.makedirs(os.environ["TMPDIR"])
    tempfile.tempdir = None
    os.environ["MC_SCRATCH"] = scratch
    owner = os.getpid()
    rc = 2
    try:
        rc = main()
    except BaseException:  # noqa
        traceback.print_exc()
        rc = 2
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)
    os._exit(rc)

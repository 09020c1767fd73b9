"""Runs commands of a scratch environment the way its interpreter would (with the interpreter running the checks):
    python -I -S -c "(this file)" SITE < requests (json: [[kind, argument, argv, environment], ...])
kind 'script' executes a generated script, 'probe' tells what a plain interpreter of the environment can import."""
import json
import os
import sys
import traceback

PROBE = """
import json, sys, importlib
out = {}
for m in NAMES:
    try:
        mod = importlib.import_module(m)
        out[m] = [getattr(mod, "V", None), getattr(mod, "__file__", None)]
    except ImportError as e:
        out[m] = None
print(json.dumps(out))
"""


def start(site_dir, first):
    """what the interpreter does before it runs anything"""
    import site
    sys.dont_write_bytecode = True
    site.addsitedir(site_dir)
    sys.path.insert(0, first)


def child(site_dir, kind, argument, argv, environment):
    os.environ.clear()
    os.environ.update(environment)
    if kind == "script":
        with open(argument, encoding="utf-8") as fd:
            code = fd.read()
        start(site_dir, os.path.dirname(argument))
        sys.argv = [argument, *argv]
    else:
        code = PROBE.replace("NAMES", repr(argv))
        start(site_dir, "")
        sys.argv = ["-c"]
    exec(compile(code, argument, "exec"), {"__name__": "__main__", "__builtins__": __builtins__})


def run(site_dir, kind, argument, argv, environment):
    r, w = os.pipe()
    er, ew = os.pipe()
    pid = os.fork()
    if not pid:
        status = 0
        try:
            os.dup2(w, 1)
            os.dup2(ew, 2)
            for fd in (r, w, er, ew):
                os.close(fd)
            try:
                child(site_dir, kind, argument, argv, environment)
            except SystemExit as e:
                status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
                if e.code is not None and not isinstance(e.code, int):
                    print(e.code, file=sys.stderr)
            except BaseException:  # noqa
                traceback.print_exc()
                status = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(status & 0xff)
    os.close(w)
    os.close(ew)
    with open(r, encoding="utf-8", errors="replace") as fd:
        out = fd.read()
    with open(er, encoding="utf-8", errors="replace") as fd:
        err = fd.read()
    return [os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]), out, err[-400:]]


if __name__ == "__main__":
    print(json.dumps([run(sys.argv[1], *request) for request in json.load(sys.stdin)]))

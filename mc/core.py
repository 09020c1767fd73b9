"""Shared machinery of every check: case accounting, violations, known findings, evidence.

A check module (mc/checks/<id>.py) defines
    PROPERTY, LEVEL, RULE      constants
    run(ck)                    enumerates its whole bounded space, calling ck.case(...) for every execution and
                               ck.violation(key, case, message) for every one that breaks the property
    replay(case)               optional: re-executes one stored case alone, returns the error text or None
"""
from __future__ import annotations

import hashlib
import json
import os
import signal
import sys
import time
import traceback
from contextlib import contextmanager
from pathlib import Path
from typing import Any, Callable, Dict, Iterable, List, Optional

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
REPLAYS = VERIF / "replays"
KNOWN = VERIF / "known_findings.txt"


class CaseTimeout(BaseException):
    """raised inside a case that exceeds its time limit (BaseException: not swallowed by `except Exception`)"""


@contextmanager
def time_limit(seconds: float, what: str = "case"):
    def on_alarm(signum, frame):
        raise CaseTimeout(f"{what} did not finish within {seconds} s")

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def attempt(func: Callable[[], Any], seconds: float = 20.0):
    """runs func -> ('ok', value) | ('err', ExceptionTypeName, text) | ('timeout', text)"""
    try:
        with time_limit(seconds):
            return "ok", func()
    except CaseTimeout as e:
        return "timeout", "CaseTimeout", str(e)
    except RecursionError as e:
        return "err", "RecursionError", str(e)[:200]
    except Exception as e:  # noqa
        return "err", type(e).__name__, str(e)[:400]


def load_known(prop: str) -> Dict[str, str]:
    result = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            body = line[len("finding: "):]
            head, _, desc = body.partition(" | ")
            p, _, key = head.partition(" key=")
            if p.strip() == f"property={prop}":
                result[key.strip()] = desc.strip()
    return result


class Check:
    MAX_REPORT = 10

    def __init__(self, prop: str, level: str, rule: str):
        self.prop, self.level, self.rule = prop, level, rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.evaluations = 0
        self._distinct = set()
        self.samples: List[Any] = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra: Dict[str, Any] = {}
        self.outcomes: Dict[str, int] = {}
        self.violations: Dict[str, dict] = {}
        self.assumptions: List[str] = []
        self.known = load_known(prop)
        self.known_hit = set()
        self.exhaustive = True

    # -- accounting
    def case(self, key: Any = None, nontrivial: bool = True, sample: Any = None, n: int = 1, outcome: str = None):
        self.evaluations += n
        if nontrivial and key is not None:
            self._distinct.add(hashlib.blake2b(repr(key).encode("utf8", "surrogatepass"), digest_size=8).digest())
        if sample is not None and len(self.samples) < 5:
            self.samples.append(sample)
        if outcome is not None:
            self.outcomes[outcome] = self.outcomes.get(outcome, 0) + 1

    def merge(self, part: "Part"):
        self.evaluations += part.evaluations
        self._distinct |= part.distinct
        self.states += part.states
        self.transitions += part.transitions
        self.traces += part.traces
        for s in part.samples:
            if len(self.samples) < 5:
                self.samples.append(s)
        for k, v in part.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in part.violations:
            self.violation(k, v["case"], v["message"])

    def violation(self, key: str, case: Any, message: str):
        key = " ".join(str(key).split())
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print(f"KNOWN-FINDING: property={self.prop} {key} -- {self.known[key]}", flush=True)
            return
        if key not in self.violations:
            self.violations[key] = {"key": key, "case": case, "message": message}

    # -- end
    def finish(self) -> int:
        wall = time.time() - self.t0
        cov: Dict[str, Any] = {}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
            cov["evaluations"] = self.evaluations
        else:
            cov.update(evaluations=self.evaluations)
            if self.states:
                cov.update(states=self.states, transitions=self.transitions)
        cov["distinct_nontrivial"] = len(self._distinct)
        cov["rule"] = self.rule
        cov["samples"] = self.samples or ["(no sample recorded)"]
        cov["exhaustive"] = self.exhaustive
        if self.outcomes:
            cov["outcomes"] = dict(sorted(self.outcomes.items(), key=lambda kv: -kv[1])[:40])
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 3), "violations": len(self.violations)}
        EVIDENCE.mkdir(exist_ok=True)
        tmp = EVIDENCE / f".{self.prop}.{os.getpid()}.tmp"
        tmp.write_text(json.dumps(ev, indent=1, default=str) + "\n")
        os.replace(tmp, EVIDENCE / f"{self.prop}.json")

        for i, v in enumerate(list(self.violations.values())[:self.MAX_REPORT]):
            REPLAYS.mkdir(exist_ok=True)
            path = REPLAYS / f"{self.prop}-{i}.json"
            path.write_text(json.dumps({"property": self.prop, **v}, indent=1, default=str) + "\n")
            print(f"  key: {v['key']}\n  {v['message']}"[:3000], flush=True)
            print(f"VIOLATION property={self.prop} replay={path.relative_to(VERIF)}", flush=True)
        if len(self.violations) > self.MAX_REPORT:
            print(f"  ... and {len(self.violations) - self.MAX_REPORT} more violations", flush=True)
        print(f"{self.prop}: {self.evaluations} evaluations, {len(self._distinct)} distinct non-trivial, "
              f"{self.states} states, {self.transitions} transitions, {len(self.violations)} violations, "
              f"{wall:.1f} s", flush=True)
        return 1 if self.violations else 0


class StopShard(BaseException):
    """enough violations were found: the rest of the shard is not explored"""


class Part:
    """the share of one worker process; merged into the Check by the parent"""
    MAXV = 40

    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.states = self.transitions = self.traces = 0
        self.samples: List[Any] = []
        self.outcomes: Dict[str, int] = {}
        self.violations: List[Any] = []
        self._vkeys = set()
        self.stoppable = False

    def case(self, key: Any = None, nontrivial: bool = True, sample: Any = None, n: int = 1, outcome: str = None):
        self.evaluations += n
        if nontrivial and key is not None:
            self.distinct.add(hashlib.blake2b(repr(key).encode("utf8", "surrogatepass"), digest_size=8).digest())
        if sample is not None and len(self.samples) < 2:
            self.samples.append(sample)
        if outcome is not None:
            self.outcomes[outcome] = self.outcomes.get(outcome, 0) + 1

    def violation(self, key: str, case: Any, message: str):
        key = " ".join(str(key).split())
        if key not in self._vkeys:
            self._vkeys.add(key)
            self.violations.append((key, {"case": case, "message": message}))
            if self.stoppable and len(self.violations) >= self.MAXV:
                raise StopShard()


def raised_by_repo(e: BaseException) -> bool:
    """did the code under test raise e, where the harness did not expect it to raise anything?"""
    for frame, _ in reversed(list(traceback.walk_tb(e.__traceback__))):
        f = os.path.realpath(frame.f_code.co_filename)
        if f.startswith("/repo/"):
            return isinstance(e, Exception) and not isinstance(e, MemoryError)
        if f.startswith(str(VERIF)):
            return False
    return False


def exception_violation(target, e: BaseException):
    where = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith("/repo/")][-1]
    target.violation(f"exception {type(e).__name__} in {where.name}", {"exception": repr(e)[:500]},
                     f"an operation that should succeed raised {type(e).__name__}: {e}\n" +
                     "".join(traceback.format_exception(type(e), e, e.__traceback__)[-12:]))


def _run_shard(func, shard):
    part = Part()
    part.stoppable = True
    try:
        func(shard, part)
    except StopShard:
        pass
    except BaseException as e:  # noqa
        if raised_by_repo(e):
            part.stoppable = False
            exception_violation(part, e)
            return part, None
        return part, f"{type(e).__name__}: {e}\n{traceback.format_exc()}"
    return part, None


def _worker_loop(conn, func, shards):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    while True:
        try:
            i = conn.recv()
        except EOFError:
            break
        if i is None:
            break
        conn.send(_run_shard(func, shards[i]))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def parallel(ck: Check, func: Callable[[Any, Part], None], shards: Iterable[Any], procs: Optional[int] = None):
    """runs func(shard, part) for every shard in forked workers and merges the parts into ck (in shard order);
    stops early when there are many violations (the workers are killed: nothing waits for them)"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    shards = list(shards)
    procs = procs or min(8, os.cpu_count() or 1, max(1, len(shards)))
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    sys.stderr.flush()
    workers = {}
    todo = list(range(len(shards)))[::-1]
    results: Dict[int, Any] = {}
    merged = 0
    try:
        for _ in range(procs):
            mine, theirs = ctx.Pipe()
            p = ctx.Process(target=_worker_loop, args=(theirs, func, shards), daemon=True)
            p.start()
            theirs.close()
            workers[mine] = [p, None]
        for conn in workers:
            if todo:
                workers[conn][1] = todo.pop()
                conn.send(workers[conn][1])
        while merged < len(shards):
            for conn in wait([c for c, w in workers.items() if w[1] is not None]):
                i = workers[conn][1]
                try:
                    results[i] = conn.recv()
                except (EOFError, ConnectionError):
                    raise RuntimeError(f"a worker died on shard {i}") from None
                workers[conn][1] = None
                if todo:
                    workers[conn][1] = todo.pop()
                    conn.send(workers[conn][1])
            while merged in results:
                part, err = results.pop(merged)
                if err is not None:
                    raise RuntimeError(f"worker failed: {err}")
                ck.merge(part)
                merged += 1
                if len(ck.violations) >= 30 and merged < len(shards):
                    ck.exhaustive = False
                    return
    finally:
        for conn, (p, _) in workers.items():
            if p.is_alive():
                p.kill()
        for conn, (p, _) in workers.items():
            p.join()
            conn.close()


def shard_list(items: List[Any], n: int) -> List[List[Any]]:
    return [s for s in (items[i::n] for i in range(n)) if s]

"""Shared plumbing of the concrete contract harness (runs under /opt/venv/bin/python).

A *case* is a JSON value.  A property module provides

    families() -> {name: (generate(rng, size) -> case, check(case) -> None | str, exhaustive() -> iter(case))}

`check` returns a message when the real code, run on the case, breaks the contract.
"""
import json, os, random, sys, time, traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Fail(Exception):
    """The contract under test is broken."""


def jkey(case):
    return json.dumps(case, sort_keys=True, default=repr)


def run_check(check, case):
    """None, or the message of the violation."""
    try:
        return check(case)
    except Fail as e:
        return str(e)
    except RecursionError as e:
        return "RecursionError: " + str(e)[:200]
    except Exception as e:  # the code under test raised
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, REPO)}:{f.name}" for f in tb if f.filename.startswith(REPO)]
        if not where:
            # The harness itself is at fault: never reported as a violation
            raise
        return f"{type(e).__name__}: {e} (raised in {where[-1]})"


def _candidates(v):
    """Smaller variants of a JSON value (one reduction each)."""
    if isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
        for i, x in enumerate(v):
            for y in _candidates(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, dict):
        for k in v:
            if k not in ("k", "t"):
                w = dict(v)
                del w[k]
                yield w
        for k, x in v.items():
            for y in _candidates(x):
                w = dict(v)
                w[k] = y
                yield w


def shrink(check, case, budget_s=8.0):
    """Greedy: keeps removing parts as long as some violation remains."""
    end = time.time() + budget_s
    msg = run_check(check, case)
    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in _candidates(case):
            if time.time() > end:
                break
            try:
                m = run_check(check, cand)
            except Exception:
                continue
            if m and m.split(":")[0] == (msg or "").split(":")[0]:
                case, msg, progress = cand, m, True
                break
    return case, msg

"""C17 (and the matching part of C02): the edit script on lists of keys."""
import itertools
from collagraph.collagraph import apply_op, compare, create_ops, first, indexOf
from collagraph.types import OpType

KEYS = [0, 1, "", "a", False, (), "b", 2.5, -1, "c"]


def script(case):
    cur, fut = case["a"], case["b"]
    cur0, fut0 = list(cur), list(fut)
    ops = create_ops(cur, fut)
    if cur != cur0 or fut != fut0:
        return "script: create_ops changed its arguments"
    wip = list(cur)
    seen = []
    for op in ops:
        kind, v = op["op"], op["value"]
        present = any(x is v or x == v for x in wip)
        if kind is OpType.ADD:
            if present:
                return f"script: {cur} -> {fut}: addition of {v!r} that is present"
        elif not present:
            return f"script: {cur} -> {fut}: {kind.value} of {v!r} that is not present"
        if "anchor" in op and op["anchor"] not in wip:
            return f"script: {cur} -> {fut}: anchor {op['anchor']!r} is not present"
        if "anchor" in op and op["anchor"] is not None and op["anchor"] == v:
            return f"script: {cur} -> {fut}: {v!r} is anchored on itself"
        if kind is OpType.MOVE and (v not in cur or v not in fut):
            return f"script: {cur} -> {fut}: {v!r} is moved"
        before = list(wip)
        apply_op(op, wip)
        # independent meaning of one operation
        want = [x for x in before if x != v] if kind is not OpType.ADD else list(before)
        if kind is not OpType.DEL:
            if "anchor" in op:
                want.insert(want.index(op["anchor"]), v)
            else:
                want.append(v)
        if wip != want:
            return f"script: applying {op} to {before} gave {wip} instead of {want}"
        seen.append((kind, v))
    if wip != fut:
        return f"script: {cur} -> {fut}: the operations give {wip}"
    if sorted(map(repr, [v for k, v in seen if k is OpType.DEL])) != sorted(repr(x) for x in cur if x not in fut):
        return f"script: {cur} -> {fut}: deletions {seen}"
    if sorted(map(repr, [v for k, v in seen if k is OpType.ADD])) != sorted(repr(x) for x in fut if x not in cur):
        return f"script: {cur} -> {fut}: additions {seen}"


def rnd(rng, size=None):
    ks = list(range(20)) if rng.random() < 0.3 else ["", "a", 2, "b", 2.5, -1, "c", 0, (), "d"]
    return {"a": rng.sample(ks, rng.randrange(0, min(12, len(ks)))), "b": rng.sample(ks, rng.randrange(0, min(12, len(ks))))}


def norm(case):
    t = lambda x: tuple(x) if isinstance(x, list) else x
    return {"a": [t(x) for x in case["a"]], "b": [t(x) for x in case["b"]]}


def check(case):
    return script(norm(case)) or script(fresh(norm(case)))


def fresh(case):
    """The keys of the second list are equal to those of the first, but not the same objects."""
    return {n: [("key", x) for x in case[n]] for n in ("a", "b")}


def ex(tier):
    n = 4 if tier == "quick" else 5
    for universe in ([0, "", "b", "c", 4, 5],):
        for la in range(n + 1):
            a = universe[:la]
            for lb in range(n + 1):
                for b in itertools.permutations(universe, lb):
                    yield {"a": a, "b": list(b)}


class K:
    def __init__(self, key, n):
        self.key, self.n = key, n


def matching(case):
    """compare(): the i-th item with a key is matched with the i-th old item with that key."""
    a = [K(k, i) for i, k in enumerate(case["a"])]
    b = [K(k, i) for i, k in enumerate(case["b"])]
    b0 = list(b)
    m, rem = compare(a, b, match=lambda x, y: x.key == y.key)
    if b != b0:
        return "matching: the old list was changed"
    if len(m) != len(a):
        return "matching: wrong number of matches"
    pool = list(b)
    for x, y in zip(a, m):
        want = next((z for z in pool if z.key == x.key), None)
        if want is not None:
            pool.remove(want)
        if y is not want:
            return f"matching: {case}: key {x.key!r} matched with the wrong item"
    if len(rem) != len(pool) or any(p is not q for p, q in zip(rem, pool)):
        return f"matching: {case}: wrong removals"
    for key in set(map(repr, case["a"])):
        pass


def match_rnd(rng, size=None):
    ks = [None, None, 0, "", "a", "b", 1]
    return {"a": [rng.choice(ks) for _ in range(rng.randrange(7))], "b": [rng.choice(ks) for _ in range(rng.randrange(7))]}


def match_ex(tier):
    n = 3 if tier == "quick" else 4
    for la in range(n + 1):
        for lb in range(n + 1):
            for a in itertools.product([None, "a", 0], repeat=la):
                for b in itertools.product([None, "a", 0], repeat=lb):
                    yield {"a": list(a), "b": list(b)}


def families(pid):
    f = {}
    if pid == "C17":
        f["short lists"] = (None, check, ex)
        f["random lists"] = (rnd, check, None)
    f["matching short"] = (None, matching, match_ex)
    f["matching random"] = (match_rnd, matching, None)
    return f

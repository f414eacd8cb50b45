"""Random and exhaustive cases for core.py."""
import itertools

EV = ("click", "Key_Up", "change", "position_changed", "on_On_x")
TYPES = ["aa", "b", "icon"]
VALS = [0, 1, "xx", 1000, "", None, False, True, [], {"$": "odd1"}, {"$": "odd2"}, {"$": "tuple"}, 1.5]
KEYS = ["pp", "qq", "r", 0, 1, "", "ss", 1000]


def attrs(rng):
    return {k: rng.choice(VALS) for k in rng.sample(["t", "u", "on", "only", "v"], rng.choice([0, 0, 1, 1, 2, 3]))}


def events(rng, names=EV):
    return {e: rng.choice((0, 0, 1, 1, 2, rng.randrange(8))) for e in rng.sample(list(names), rng.choice([0, 0, 0, 1, 1, 2]))}


def desc(rng, depth, inside=False, slots=()):
    r = rng.random()
    if depth <= 0 or r < 0.45:
        return el(rng, depth, inside, slots)
    if r < 0.52:
        return {"k": "text", "s": rng.choice(["", "t", "u"])}
    if r < 0.62:
        return {"k": "tpl", "c": kids(rng, depth - 1, inside, slots)}
    if r < 0.70:
        return {"k": "fn", "t": rng.choice(["F0", "F1"]), "c": kids(rng, depth - 1, False)}
    if r < 0.78 and inside:
        return {"k": "slot", "n": rng.choice(["default", "x"]), "c": kids(rng, depth - 1, inside, slots)}
    return cls(rng, depth, inside)


def el(rng, depth, inside=False, slots=()):
    return {"k": "el", "t": rng.choice(TYPES), "p": attrs(rng), "ev": events(rng),
            "c": kids(rng, depth - 1, inside, slots) if depth > 0 else []}


def cls(rng, depth, inside=False):
    d = {"k": "cls", "t": rng.choice(["C0", "C0", "C1"]), "p": {k: v for k, v in attrs(rng).items()},
         "d": desc(rng, depth - 1, True), "prov": {k: rng.choice([0, None, "v", 1, ""]) for k in rng.sample(["a", "b"], rng.choice([0, 0, 1, 2]))}}
    if rng.random() < 0.4:
        d["ev"] = events(rng, ("ping", "pong", "Save"))
    if rng.random() < 0.5:
        d["slots"] = {n: kids(rng, depth - 1, inside) for n in rng.sample(["default", "x"], rng.choice([1, 2]))}
    return d


def kids(rng, depth, inside=False, slots=()):
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 4])
    out = [desc(rng, depth, inside) for _ in range(n)]
    if rng.random() < 0.5:
        for d, k in zip(out, rng.sample(KEYS, len(out))):
            if d["k"] not in ("text", "slot") and rng.random() < 0.85:
                d["key"] = k
    return out


def mutate(rng, d, inside=False, depth=2):
    """A variant of a description: most of it stays."""
    d = dict(d)
    if rng.random() < 0.08:
        return desc(rng, depth, inside)
    if d["k"] == "text":
        if rng.random() < 0.3:
            d["s"] = rng.choice(["", "t", "u"])
        return d
    for f in ("c",):
        if f in d:
            d[f] = mutkids(rng, d[f], inside and d["k"] != "fn", depth - 1)
    if d["k"] in ("el", "cls"):
        if rng.random() < 0.35:
            d["p"] = mutmap(rng, d.get("p") or {}, lambda: attrs(rng))
        if rng.random() < 0.35:
            d["ev"] = mutmap(rng, d.get("ev") or {}, lambda: events(rng, ("ping", "pong", "Save") if d["k"] == "cls" else EV))
        if d["k"] == "el" and rng.random() < 0.06:
            d["t"] = rng.choice(TYPES)
    if d["k"] == "cls":
        if rng.random() < 0.5:
            d["d"] = mutate(rng, d["d"], True, depth - 1)
        if "slots" in d and rng.random() < 0.5:
            d["slots"] = {n: mutkids(rng, c, inside, depth - 1) for n, c in d["slots"].items() if rng.random() < 0.9}
        if rng.random() < 0.06:
            d["t"] = rng.choice(["C0", "C1"])
    if d["k"] == "fn" and rng.random() < 0.05:
        d["t"] = rng.choice(["F0", "F1"])
    return d


def mutmap(rng, m, fresh):
    m = dict(m)
    if m and rng.random() < 0.5:
        del m[rng.choice(list(m))]
    if rng.random() < 0.7:
        m.update(fresh())
    return m


def mutkids(rng, c, inside, depth):
    c = [mutate(rng, d, inside, depth) if rng.random() < 0.5 else d for d in c]
    if c and rng.random() < 0.25:
        del c[rng.randrange(len(c))]
    if rng.random() < 0.25:
        used = {repr(d.get("key")) for d in c}
        new = desc(rng, min(depth, 2), inside)
        keys = [k for k in KEYS if repr(k) not in used]
        if new["k"] not in ("text", "slot") and keys and any(d.get("key") is not None for d in c) and rng.random() < 0.8:
            new["key"] = rng.choice(keys)
        c.insert(rng.randrange(len(c) + 1), new)
    if len(c) > 1 and rng.random() < 0.25:
        if rng.random() < 0.5:
            rng.shuffle(c)
        else:
            c.insert(rng.randrange(len(c)), c.pop(rng.randrange(len(c))))
    return c


def history(rng, size=None):
    depth = rng.choice([1, 2, 2, 3])
    d = desc(rng, depth) if rng.random() < 0.3 else {"k": "el", "t": "app", "c": kids(rng, depth)}
    steps = [d]
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        r = rng.random()
        if r < 0.08:
            steps.append({"k": "poke", "i": rng.randrange(4)})
        elif r < 0.12:
            steps.append({"k": "render"})
        elif r < 0.25 and len(steps) > 1:
            d = rng.choice([s for s in steps if s["k"] not in ("poke", "render")])
            steps.append(d)
        else:
            d = mutate(rng, d, False, depth)
            steps.append(d)
    case = {"steps": steps}
    if rng.random() < 0.25:
        case["opts"] = rng.choice([["falsy"], ["eq"], ["falsy", "eq"]])
    return case


def keyed(perm, wrap, t="i"):
    """One list of children; wrap: how each child is represented."""
    c = []
    for k in perm:
        d = {"k": "el", "t": t, "key": k, "p": {"t": k}}
        if wrap == "tpl":
            d = {"k": "tpl", "key": k, "c": [{"k": "el", "t": t, "p": {"t": k}}, {"k": "text", "s": str(k)}]}
        if wrap == "cls":
            d = {"k": "cls", "t": "C0", "key": k, "d": {"k": "el", "t": t, "p": {"t": k}}}
        if wrap == "fn":
            d = {"k": "fn", "t": "F0", "key": k, "c": [{"k": "el", "t": t, "p": {"t": k}}]}
        c.append(d)
    return {"k": "el", "t": "app", "c": c}


def exhaustive_keyed(n=3, universe=("p", "q", "r", "s")):
    """All pairs of duplicate-free key lists up to length n, per kind of child."""
    lists = [p for k in range(n + 1) for p in itertools.permutations(universe, k)]
    for wrap in ("el", "tpl", "cls"):
        for a in lists:
            for b in lists:
                if set(a) | set(b) == set(universe[: len(set(a) | set(b))]):
                    yield {"steps": [keyed(a, wrap), keyed(b, wrap), keyed(a, wrap)]}

"""C05: pairs of callables that differ in one respect, or in none that matters.

A case is {"a": spec, "b": spec}.  `spec` describes a callable; two callables made from
specs are interchangeable exactly when their specs are equal up to the fields in IRRELEVANT."""
import functools, types
from collagraph.compare import equivalent_functions

# A spec: {"kind": "fn", body, argname, defaults, kwdefaults, caps, glob, name}
#         {"kind": "partial", "f": spec, "args", "kw"} {"kind": "method", "cls", "self"} {"kind": "obj", ...}
BODIES = [
    "return {c}", "return x + {c}", "return cap0", "return (cap0, cap1)", "return print",
    "return x.attr", "return x.other", "return len(x)", "return max(x)", "return [q for q in x if q == {c}]",
    "try:\n            return x[0]\n        except {exc}:\n            return {c}",
    "return (lambda y: y + {c})(x)", "return (cap0)(x)", "return not cap0", "return -x", "return {c} in x", "return x in ({c}, 2)",
    "return x in {{{c}, 3}}", "yield {c}", "return glob_var", "return {c} if x else cap1",
]
CONSTS = ["1", "True", "1.0", "0", "False", "0.0", "-0.0", "'a'", "b'a'", "None", "(1, 2)", "(1, True)", "()", "2", "1j", "...", "'1'", "(1.0, 2)", "frozenset((1,))"]
CAPS = [["v", 1], ["v", 2], ["v", "s"], ["v", True], ["v", [1]], ["v", [2]], ["v", None], ["v", 0],
        ["fn", {"kind": "fn", "body": 0, "c": "1"}], ["fn", {"kind": "fn", "body": 0, "c": "2"}], ["self"]]
GLOBS = [{"glob_var": 1, "id": 0}, {"glob_var": 1, "id": 1}, {"glob_var": 2, "id": 2}]
GLOBALS = [{"glob_var": g["glob_var"], "__name__": "g"} for g in GLOBS]


class Obj:
    def __init__(self, v):
        self.v = v

    def m(self, x=None):
        return self.v

    def n(self, x=None):
        return self.v


class Call:
    def __init__(self, v):
        self.v = v

    def __call__(self, x=None):
        return self.v


class CallEq(Call):
    def __eq__(self, o):
        return isinstance(o, CallEq) and self.v == o.v
    __hash__ = None


OBJS = [Obj(0), Obj(0), Obj(1)]
CALLS = [Call(0), Call(0), CallEq(0), CallEq(0), CallEq(1)]


def make(s, depth=0):
    if s["kind"] == "fn":
        ncap = 2
        body = BODIES[s["body"] % len(BODIES)].format(c=s.get("c", "1"), exc=s.get("exc", "ValueError"))
        arg = s.get("arg", "x")
        body = body.replace("x", arg) if arg != "x" and "exc" not in body and "max" not in body and "except" not in body else body
        if arg != "x" and ("except" in body or "max" in body):
            arg = "x"
        sig = arg + ("=D0" if s.get("def") is not None else "=0")
        kw = ", *, k=K0" if s.get("kwdef") is not None else ""
        src = (f"def outer(cap0, cap1, D0, K0):\n    def {s.get('name', 'f')}({sig}{kw}):\n        {body}\n    return {s.get('name', 'f')}\n")
        g = GLOBALS[s.get("glob", 0)]
        ns = {}
        code = compile("\n" * s.get("line", 0) + src, "<c05>", "exec")
        exec(code, g, ns)
        caps, me = [], []
        for c in (s.get("caps") or [["v", 0], ["v", 0]]):
            if c[0] == "v":
                caps.append(list(c[1]) if isinstance(c[1], list) else c[1])
            elif c[0] == "fn":
                caps.append(make(c[1], depth + 1))
            else:
                caps.append(me)
        f = ns["outer"](caps[0], caps[1], list(s["def"]) if isinstance(s.get("def"), list) else s.get("def"), s.get("kwdef"))
        for cell in f.__closure__ or ():
            if cell.cell_contents is me:
                cell.cell_contents = f
        return f
    if s["kind"] == "partial":
        return functools.partial(make(s["f"]), *s.get("args", []), **s.get("kw", {}))
    if s["kind"] == "method":
        return getattr(OBJS[s["o"]], s["m"])
    if s["kind"] == "obj":
        return CALLS[s["i"]]
    if s["kind"] == "builtin":
        return {"len": len, "max": max, "append": [].append}[s["n"]]
    raise AssertionError


def fingerprint(f, seen=()):
    """What can be observed of a callable, computed independently of the code under test."""
    if isinstance(f, functools.partial):
        return ("partial", fingerprint(f.func, seen), value(f.args, seen), value(f.keywords, seen))
    if isinstance(f, types.MethodType):
        return ("method", id(f.__self__), fingerprint(f.__func__, seen))
    if isinstance(f, types.FunctionType):
        if any(f is x for x in seen):
            return ("self", [i for i, x in enumerate(seen) if x is f])
        seen = (*seen, f)
        return ("fn", code(f.__code__), id(f.__globals__), value(f.__defaults__ or (), seen), value(f.__kwdefaults__ or {}, seen),
                tuple(value(c.cell_contents, seen) for c in f.__closure__ or ()))
    if isinstance(f, CallEq):
        return ("calleq", f.v)
    return ("id", id(f))


def value(v, seen):
    if callable(v):
        return fingerprint(v, seen)
    if isinstance(v, (tuple, list)):
        return (len(v), [value(x, seen) for x in v])
    if isinstance(v, dict):
        return {k: value(x, seen) for k, x in v.items()}
    return ("v", v)


def const(c):
    if isinstance(c, types.CodeType):
        return code(c)
    if isinstance(c, tuple):
        return ("tuple", tuple(const(x) for x in c))
    if isinstance(c, frozenset):
        return ("frozenset", frozenset(const(x) for x in c))
    return (type(c).__name__, repr(c))


def code(c):
    """The code without the names of locals, its position and its own name."""
    return (c.co_code, tuple(const(x) for x in c.co_consts if not (isinstance(x, str) and x.startswith("outer."))), c.co_names, c.co_argcount,
            c.co_kwonlyargcount, c.co_posonlyargcount, c.co_flags, c.co_exceptiontable, len(c.co_varnames), len(c.co_freevars))


def check(case):
    a, b = make(case["a"]), make(case["b"])
    same = bool(equivalent_functions(a, b))
    want = fingerprint(a) == fingerprint(b)
    if same and not want:
        return f"equivalence: judged equivalent although they can be told apart: {case}"
    if not same and want and strict(case):
        return f"equivalence: unchanged callables judged different: {case}"
    if not equivalent_functions(a, a):
        return "equivalence: not reflexive"
    if case["a"] == case["b"] and not same and strict(case):
        return f"equivalence: unchanged callables judged different: {case}"


def strict(case):
    return case["a"] == case["b"]


def again(case):
    """A judgement does not depend on earlier ones, and is about the values of this moment."""
    a, b, c = make(case["a"]), make(case["b"]), make(case["a"])
    pairs = [(a, b), (b, a), (a, c), (c, a), (b, c), (c, b)]
    first = [bool(equivalent_functions(x, y)) for x, y in pairs]
    for rounds in (1, 2):
        for (x, y), f in zip(pairs, first):
            if bool(equivalent_functions(x, y)) != f:
                return f"equivalence: judged {f} at first and {not f} later: {case}"
    for what in ("cell", "list", "default", "kwdefault", "keywords"):
        if not change(b, what):
            continue
        for x, y in ((a, b), (b, a), (c, b)):
            if equivalent_functions(x, y) and fingerprint(x) != fingerprint(y):
                return f"equivalence: judged equivalent although they can be told apart since {what} changed: {case}"


def change(f, what):
    """Change a value that the function refers to."""
    if isinstance(f, functools.partial):
        if what == "keywords" and f.keywords:
            f.keywords[next(iter(f.keywords))] = "changed"
            return True
        return change(f.func, what)
    if not isinstance(f, types.FunctionType):
        return False
    if what == "cell":
        for c in f.__closure__ or ():
            if not callable(c.cell_contents):
                c.cell_contents = "changed"
                return True
    if what == "list":
        for v in [c.cell_contents for c in f.__closure__ or ()] + list(f.__defaults__ or ()):
            if isinstance(v, list):
                v.append("changed")
                return True
    if what == "default" and f.__defaults__:
        f.__defaults__ = ("changed default",)
        return True
    if what == "kwdefault" and f.__kwdefaults__:
        f.__kwdefaults__["k"] = "changed"
        return True
    return False


def rspec(rng, depth=2):
    r = rng.random()
    if depth and r < 0.12:
        return {"kind": "partial", "f": rspec(rng, depth - 1), "args": [rng.choice([1, 2, True, "x"]) for _ in range(rng.randrange(3))], "kw": {k: rng.randrange(2) for k in rng.sample(["p", "q"], rng.randrange(2))}}
    if r < 0.2:
        return {"kind": "method", "o": rng.randrange(3), "m": rng.choice("mn")}
    if r < 0.27:
        return {"kind": "obj", "i": rng.randrange(5)}
    if r < 0.3:
        return {"kind": "builtin", "n": rng.choice(["len", "max"])}
    return {"kind": "fn", "body": rng.randrange(len(BODIES)), "c": rng.choice(CONSTS), "exc": rng.choice(["ValueError", "TypeError", "KeyError"]),
            "caps": [rng.choice(CAPS), rng.choice(CAPS)], "def": rng.choice([None, 0, 1, 2, "s", [1], True]), "kwdef": rng.choice([None, None, 0, 1, "s"]),
            "glob": rng.choice([0, 0, 0, 1, 2]), "name": rng.choice(["f", "g"]), "line": rng.choice([0, 3]), "arg": rng.choice(["x", "x", "zz"])}


def pair(rng, size=None):
    a = rspec(rng)
    b = dict(a)
    if rng.random() < 0.3:
        return {"a": a, "b": b}
    other = rspec(rng)
    if other["kind"] == a["kind"]:
        for k in rng.sample(sorted(k for k in other if k != "kind"), 1):
            b[k] = other[k]
    else:
        b = other if rng.random() < 0.5 else b
    if a["kind"] == "partial" and rng.random() < 0.5:
        b = {**a, "f": pair_inner(rng, a["f"])}
    return {"a": a, "b": b} if rng.random() < 0.5 else {"a": b, "b": a}


def pair_inner(rng, a):
    o = rspec(rng)
    if o["kind"] != a["kind"]:
        return o
    k = rng.choice(sorted(k for k in o if k != "kind"))
    return {**a, k: o[k]}


def exhaustive(tier):
    base = {"kind": "fn", "body": 3, "c": "1", "exc": "ValueError", "caps": [["v", 0], ["v", 0]], "def": None, "kwdef": None, "glob": 0, "name": "f", "line": 0, "arg": "x"}
    for body in range(len(BODIES)):
        b0 = {**base, "body": body}
        for c in CONSTS:
            for c2 in CONSTS:
                yield {"a": {**b0, "c": c}, "b": {**b0, "c": c2}}
        for cap in CAPS:
            for cap2 in CAPS:
                yield {"a": {**b0, "caps": [cap, ["v", 0]]}, "b": {**b0, "caps": [cap2, ["v", 0]]}}
                yield {"a": {**b0, "caps": [["v", 0], cap]}, "b": {**b0, "caps": [["v", 0], cap2]}}
        for f, vals in {"def": [None, 0, 1, "s", [1], True], "kwdef": [None, 0, 1, "s"], "glob": [0, 1, 2], "exc": ["ValueError", "TypeError"], "name": ["f", "g"], "line": [0, 3], "arg": ["x", "zz"]}.items():
            for v in vals:
                for w in vals:
                    yield {"a": {**b0, f: v}, "b": {**b0, f: w}}
        for body2 in range(len(BODIES)):
            yield {"a": b0, "b": {**base, "body": body2}}
    for o in range(3):
        for m in "mn":
            for o2 in range(3):
                for m2 in "mn":
                    yield {"a": {"kind": "method", "o": o, "m": m}, "b": {"kind": "method", "o": o2, "m": m2}}
                yield {"a": {"kind": "method", "o": o, "m": m}, "b": {"kind": "obj", "i": 0}}
    for i in range(5):
        for j in range(5):
            yield {"a": {"kind": "obj", "i": i}, "b": {"kind": "obj", "i": j}}
    P = lambda f, *args, **kw: {"kind": "partial", "f": f, "args": list(args), "kw": kw}
    fs = [{**base, "body": 0, "c": c} for c in ("1", "2", "True")]
    ps = [P(f, *a, **k) for f in fs for a in ((), (1,), (2,), (1, 2)) for k in ({}, {"p": 1}, {"p": 2}, {"q": 1})] + [P(P(fs[0], 1), 2), P(fs[0], 1, 2)]
    for a in ps:
        for b in ps + fs:
            yield {"a": a, "b": b}
            yield {"a": b, "b": a}


SIGS = ["", "x", "*x", "**x", "*, x", "x, /", "x, y", "x=1", "x=2", "*, x=1", "*, x=2", "x, *y", "x, **y", "*x, y", "x, *, y", "x, /, y", "x, y, /", "*, x, y", "*x, **y", "x, *y, **z", "x, y=1", "x=1, y=1", "x, /, y=1", "x, *, y=1"]
KINDS = ["def f({}):\n    return {}", "async def f({}):\n    return {}", "def f({}):\n    yield {}", "async def f({}):\n    yield {}"]


def signatures(case):
    """Functions of another signature or kind are not interchangeable, even when the code of their body is the same."""
    fs = []
    for k in "ab":
        kind, sig = case[k]
        ns = {"__name__": "g"}
        exec(compile(KINDS[kind].format(SIGS[sig], "x" if "x" in SIGS[sig] and case.get("use") else "0"), "<case>", "exec"), GLOBALS[0], ns)
        fs.append(ns["f"])
    got, want = equivalent_functions(*fs), case["a"] == case["b"]
    if bool(got) != want:
        return f"signatures: {KINDS[case['a'][0]].split('(')[0]}({SIGS[case['a'][1]]}) and {KINDS[case['b'][0]].split('(')[0]}({SIGS[case['b'][1]]}) are judged {'equivalent' if got else 'different'}"


def all_signatures(tier):
    for use in (1, 0):
        for i in range(len(SIGS)):
            for j in range(len(SIGS)):
                yield {"a": [0, i], "b": [0, j], "use": use}
            for k in range(len(KINDS)):
                for l in range(len(KINDS)):
                    yield {"a": [k, i], "b": [l, i], "use": use}


def loops(case):
    """Functions that refer to themselves (or to each other) through closures or defaults are compared as well, without an end in sight."""
    def build(c):
        ns = {"__name__": "g"}
        exec(compile(LOOPS[case["how"]], "<case>", "exec"), GLOBALS[0], ns)
        return ns["make"](c)
    fs = build(case["a"]), build(case["b"])
    try:
        got = bool(equivalent_functions(*fs))
    except Exception as e:
        return f"loops: comparing two functions that refer to themselves raises {type(e).__name__}"
    if got and case["a"] != case["b"]:
        return "loops: functions that refer to themselves and return other values are judged equivalent"


LOOPS = [
    "def make(c):\n    def f(x=0):\n        return f, c\n    return f\n",
    "def make(c):\n    def f(x=0):\n        return x, c\n    f.__defaults__ = (f,)\n    return f\n",
    "def make(c):\n    def f(*, x=0):\n        return x, c\n    f.__kwdefaults__ = {'x': f}\n    return f\n",
    "def make(c):\n    def g():\n        return f(), c\n    def f():\n        return g()\n    return f\n",
    "def make(c):\n    def g(*, y=0):\n        return c\n    def f(x=0):\n        return g\n    f.__defaults__ = (g,)\n    g.__kwdefaults__ = {'y': f}\n    return f\n",
    "def make(c):\n    def g(*, y=0):\n        return c\n    def f(*, x=g):\n        return x\n    g.__kwdefaults__ = {'y': f, 'z': 1}\n    return f\n",
    "def make(c):\n    f = lambda *, x=0: (h, c)\n    h = lambda: f\n    f.__kwdefaults__ = {'x': h}\n    return f\n",
]


def all_loops(tier):
    for how in range(len(LOOPS)):
        for a in range(2):
            for b in range(2):
                yield {"how": how, "a": a, "b": b}


def families(pid):
    return {"signatures": (None, signatures, all_signatures), "functions that refer to themselves": (None, loops, all_loops), "single differences": (None, check, exhaustive), "random pairs": (pair, check, None), "repeated judgements": (pair, again, None)}

"""C11-C16: templates against an independent interpretation of the same template.

A case is {"root": node, "props": {...}, "state": {...}, "attrs": {...}, "steps": [{...state changes}], "inner": [node...]}.
node: {"k":"e","tag","a":[[kind,name,value],...],"c":[...],"if":["if"|"elif",src]|["else"],"for":[[names],src],"slot":name}
      {"k":"t","parts":[str|{"x":src}]}   {"k":"cm","s":str}   {"k":"slot","name":str|None,"c":[...]}
`inner` holds the children of the root of the component `Comp` (with its slots)."""
import builtins, html, itertools, json, random, re, warnings
warnings.simplefilter("ignore")
import collagraph as cg
from collagraph import h
from collagraph.cgx import cgx
from common import Fail
from observ import reactive, to_raw

cgx.CGX_RUNTIME_WARNINGS = False
SCRIPT = """
import collagraph as cg
from os.path import basename as name, join
import os.path as osp
import email.message
if True:
    import string as blockimp
LOGGED = []
g0 = 'global0'
g1 = [10, 20]
g2 = 'global2'
shared = 'global-shared'
def p(ident, value):
    LOGGED.append(ident)
    return value
class NS:
    import bisect as nested
class C(cg.Component):
    import bisect as clsimp
    clsimp = clsimp.__name__
    cls_attr = 'class attribute'
    def __getattr__(self, attr):
        if attr == 'dynamic':
            return 'made on demand'
        raise AttributeError(attr)
    @property
    def prop_attr(self):
        return ['property', len(self.state)]
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.state.update(INIT_STATE)
        for k, v in INIT_ATTRS.items():
            setattr(self, k, v)
    def meth(self, x=0):
        import json as within, json as g2
        return ['meth', x]
async def later():
    from json import dumps as nested, loads as only_g
"""
GLOBALS = {"g0": "global0", "g1": [10, 20], "g2": "global2", "shared": "global-shared"}


# ---------------------------------------------------------------- source
def attr_src(kind, name, value):
    q = lambda v: '"' + html.escape(v, quote=True).replace("&#x27;", "'") + '"'
    if kind == "static":
        return f"{name}={q(value)}"
    if kind == "bare":
        return name
    if kind == "bind":
        return f":{name}={q(value)}"
    if kind == "vbind":
        return f"v-bind:{name}={q(value)}"
    if kind == "map":
        return f"v-bind={q(value)}"
    if kind == "on":
        return f"@{name}={q(value)}"
    if kind == "von":
        return f"v-on:{name}={q(value)}"
    raise AssertionError(kind)


def src(n):
    if n["k"] == "t":
        return "".join(p if isinstance(p, str) else "{{" + p["x"] + "}}" for p in n["parts"])
    if n["k"] == "cm":
        return f"<!--{n['s']}-->"
    parts = [attr_src(*a) for a in n.get("a") or []]
    if n["k"] == "slot":
        tag = "slot"
        if n.get("name") is not None:
            parts.append(f'name="{n["name"]}"')
    else:
        tag = n["tag"]
    d = []
    if n.get("if"):
        w = {"if": "v-if", "elif": "v-else-if", "else": "v-else"}[n["if"][0]]
        d.append(w if w == "v-else" else f'{w}="{html.escape(n["if"][1])}"')
    if n.get("for"):
        d.append(f'v-for="{html.escape(n["for"][1])}"')
    if n.get("slot") is not None:
        d.append({"": "v-slot", "#": "#default"}.get(n["slot"], f"v-slot:{n['slot']}" if n.get("slotform") != "#" else f"#{n['slot']}"))
    k = n.get("dirpos", 0) % (len(parts) + 1)
    parts = parts[:k] + d + parts[k:]
    inner = "".join(src(c) for c in n.get("c") or [])
    start = ("\n    " if n.get("dirpos", 0) == 3 else " ").join([tag, *parts])
    return f"<{start}/>" if not inner and n.get("selfclose") else f"<{start}>{inner}</{tag}>"


# ---------------------------------------------------------------- meaning
class Scope:
    def __init__(self, inst, props, state, attrs, logged, extra=None):
        self.d = (inst, props, state, attrs, logged)
        self.inst, self.props, self.state, self.attrs, self.logged = inst, props, state, attrs, logged
        self.local = extra or {}

    def with_(self, names):
        return Scope(*self.d, {**self.local, **names})

    def env(self):
        e = dict(GLOBALS)
        e.update(self.inst)
        e.update(self.attrs)
        e.update(self.state)
        e.update(self.props)
        for n in dir(builtins):
            e.pop(n, None)
        import email, os.path, string
        e.update(name=os.path.basename, join=os.path.join, osp=os.path, email=email, blockimp=string)
        logged = self.logged

        def p(ident, value):
            logged.append(ident)
            return value
        e["p"] = p
        e.update(self.local)
        return e

    def eval(self, s):
        return eval(s.strip(), self.env())


class X(Exception):
    pass


def attrs_of(n, sc):
    out = {}
    for kind, name, value in n.get("a") or []:
        if kind == "static":
            new = {name: value}
        elif kind == "bare":
            new = {name: True}
        elif kind in ("bind", "vbind"):
            new = {name: sc.eval(value)}
        elif kind == "map":
            new = dict(sc.eval(value))
        else:
            new = {f"on_{name}": sc.eval(value)}
        for k, v in new.items():
            out[k] = v
    return out


def merge_text(children):
    """Text that is separated by nothing is one text; blank text is nothing."""
    out = []
    for c in children:
        if c["k"] == "t" and out and out[-1]["k"] == "t":
            out[-1] = {"k": "t", "parts": out[-1]["parts"] + c["parts"]}
        else:
            out.append(c)
    return [c for c in out if c["k"] != "t" or src(c).strip()]


def children_of(children, sc, case, slots):
    out, taken = [], None   # taken: None no chain, False not taken yet, True taken
    for c in merge_text(children):
        if c["k"] == "cm":
            continue
        if c["k"] == "t":
            out.append(text_of(c, sc))
            continue
        if c.get("for"):
            names, s = c["for"]
            for env in sc.eval(f"[dict({', '.join(f'{x}={x}' for x in names)}) for {s}]"):
                out.extend(element(c, sc.with_(env), case, slots))
            continue
        d = c.get("if")
        if d is None:
            taken = None
            out.extend(element(c, sc, case, slots))
        elif d[0] == "if":
            taken = bool(sc.eval(d[1]))
            if taken:
                out.extend(element(c, sc, case, slots))
        elif taken is False:
            if d[0] == "else" or sc.eval(d[1]):
                taken = True
                out.extend(element(c, sc, case, slots))
        if d and d[0] == "else":
            taken = None
    return out


def text_of(c, sc):
    s = html.unescape  # text in the template is HTML
    return {"type": "TEXT_ELEMENT", "text": "".join(s(p) if isinstance(p, str) else str(sc.eval(p["x"])) for p in c["parts"])}


def element(n, sc, case, slots):
    if n["k"] == "slot":
        name = n.get("name") or "default"
        if name in slots:
            return slots[name]()
        return children_of(n.get("c") or [], sc, case, slots)
    tag = n["tag"]
    if tag in ("Comp", "NS.Comp"):
        given, rest = {}, []
        for c in merge_text(n.get("c") or []):
            if c.get("slot") is not None:
                given[{"": "default", "#": "default"}.get(c["slot"], c["slot"])] = c
            elif c["k"] != "cm":
                rest.append(c)
        fns = {k: (lambda c=c: element({**c, "slot": None}, sc, case, slots)) for k, c in given.items()}
        if rest and "default" not in fns:
            fns["default"] = lambda: children_of(rest, sc, case, slots)
        props = attrs_of(n, sc)
        inner = Scope({}, {k: v for k, v in props.items()}, {}, {}, sc.logged)
        # an on_ prop of a component is an event handler of the component
        return element({"k": "e", "tag": "comp", "a": [["bind", "from_props", "sorted(pk)"]], "c": case["inner"]},
                       inner.with_({"pk": [k for k in props]}), case, fns)
    a = attrs_of(n, sc)
    kids = children_of(n.get("c") or [], sc, case, slots)
    if tag == "template":
        return kids
    el = {"type": tag, "attrs": {k: v for k, v in a.items() if not k.startswith("on_") and v is not None}, "children": kids,
          "handlers": {k[3:].lower(): v for k, v in a.items() if k.startswith("on_")}}
    return [el]


# ---------------------------------------------------------------- comparison
def diff(want, have, path):
    if want["type"] != have.get("type"):
        return f"{path}: element type {have.get('type')!r} instead of {want['type']!r}"
    if want["type"] == "TEXT_ELEMENT":
        if want["text"] != have.get("text"):
            return f"{path}: text {have.get('text')!r} instead of {want['text']!r}"
        return None
    wa, ha = want["attrs"], {k: v for k, v in have.get("attrs", {}).items() if v is not None}
    if set(wa) != set(ha) or any(norm(wa[k]) != norm(ha[k]) for k in wa):
        return f"{path}: {want['type']}: attributes {norm(ha)} instead of {norm(wa)}"
    hh = {k: list(v) for k, v in have.get("handlers", {}).items() if v}
    wh = want["handlers"]
    if set(hh) != set(wh) or any(len(v) != 1 for v in hh.values()):
        return f"{path}: {want['type']}: listens to {sorted(hh)} instead of {sorted(wh)}"
    for k in wh:
        for args in ((), (7,), (7, 8)):
            w, g = call(wh[k], args), call(hh[k][0], args)
            if w != g and not (g[0] == "NameError" and g[1:] and SOURCE[0].count(g[1]) > 1):
                return f"{path}: {want['type']}: handler of {k} called with {args} gives {g} instead of {w}"
    wc, hc = join_text(want["children"]), join_text(have.get("children", []))
    if len(wc) != len(hc):
        return f"{path}: {want['type']}: children {[x.get('type') for x in hc]} instead of {[x['type'] for x in wc]}"
    for i, (w, g) in enumerate(zip(wc, hc)):
        if d := diff(w, g, f"{path}/{i}"):
            return d


def join_text(cs):
    out = []
    for c in cs:
        if c["type"] == "TEXT_ELEMENT" and out and out[-1]["type"] == "TEXT_ELEMENT":
            out[-1] = {**c, "text": out[-1].get("text", "") + c.get("text", "")}
        else:
            out.append(c)
    return out


def call(f, args):
    try:
        return ("ok", norm(f(*args)))
    except TypeError:
        return ("TypeError",)
    except NameError as e:
        return ("NameError", *cpython_bug(e))


SOURCE = [""]


def cpython_bug(e):
    """CPython 3.12.3 loses the cell of a name that a comprehension and an enclosing one both bind (PEP 709 inlining)."""
    m = re.match(r"cannot access free variable '(\w+)'", str(e))
    return (m.group(1),) if m else ()


def norm(v):
    v = to_raw(v)
    if callable(v):
        return "callable"
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, *map(norm, v)]
    if isinstance(v, (bool, int, float)):
        return ("number", v)    # equal values may stand for each other: observ sees no change
    return (type(v).__name__, v)


class FakeMeth:
    pass


def valid(n, top=True):
    """Templates with a meaning: a chain starts with v-if, ..."""
    if not isinstance(n, dict) or n.get("k") not in ("e", "t", "cm", "slot") or (n["k"] == "e" and not n.get("tag")):
        return False
    if n["k"] in ("e", "slot"):
        if top and (n["k"] == "slot" or n.get("if") or n.get("for") or n.get("slot") is not None or n.get("tag") == "template"):
            return False
        if n.get("if") is not None and (not n["if"] or (n["if"][0] != "else") != (len(n["if"]) == 2)):
            return False
        if n.get("for") is not None and (len(n["for"]) != 2 or n.get("if")):
            return False
        if any(len(a) != 3 for a in n.get("a") or []):
            return False
        names = [a[1] for a in n.get("a") or [] if a[0] in ("on", "von")]
        if sum(a[0] == "map" for a in n.get("a") or []) > 1 or len(set(names)) != len(names):
            return False
        open_ = False
        for c in n.get("c") or []:
            if not valid(c, False):
                return False
            if c["k"] == "cm":
                if not str(c.get("s", "")).strip():
                    return False
                continue
            if c["k"] == "t":
                open_ = open_ and not src(c).strip()
                continue
            d = c.get("if")
            if d and d[0] != "if" and not open_:
                return False
            open_ = bool(d) and d[0] != "else"
    return n["k"] != "t" or isinstance(n.get("parts"), list)


def check(case):
    if not isinstance(case.get("root"), dict) or not valid(case["root"]) or not valid({"k": "e", "tag": "x", "c": case.get("inner") or []}):
        return None
    root = case["root"]
    source = f"<template>{src(root)}</template>\n<script>\n{SCRIPT}\n</script>\n"
    if case.get("script_first"):
        source = f"<script>\n{SCRIPT}\n</script>\n<template>{src(root)}</template>\n"
    inner_src = ("<template><comp :from_props=\"sorted(k for k in self.props.keys())\">" + "".join(src(c) for c in case.get("inner") or []) +
                 "</comp></template>\n<script>\nimport collagraph as cg\nclass Comp(cg.Component):\n    pass\n</script>\n")
    case = {**case, "inner": case.get("inner") or []}
    SOURCE[0] = source
    C, ns = cgx.load_from_string(source)
    Inner, _ = cgx.load_from_string(inner_src)
    ns["INIT_STATE"], ns["INIT_ATTRS"] = case.get("state") or {}, case.get("attrs") or {}
    ns["Comp"] = Inner
    ns["NS"].Comp = Inner
    props = reactive(dict(case.get("props") or {}))
    # another instance of the same class, with other contents, is rendered first
    if case.get("twin"):
        twin = C({k: f"twin {k}" for k in ("n0", "n1", "xs", "flag", "shared")}, None)
        try:
            twin.render()
        except Exception:
            pass
    gui = cg.Collagraph(cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
    box = {"type": "root"}
    state = dict(case.get("state") or {})
    made = []

    class Top(C):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(self)
    for i, step in enumerate([{}] + (case.get("steps") or [])):
        state.update(step)
        log = ns["LOGGED"]
        del log[:]
        logged = []
        inst = {"cls_attr": "class attribute", "clsimp": "bisect", "dynamic": "made on demand", "prop_attr": ["property", len(case.get("state") or {})], "meth": lambda x=0: ["meth", x]}
        want = None
        try:
            class SelfView:
                pass
            sv = SelfView()
            sv.state, sv.props = state, dict(case.get("props") or {})
            for k, v in (case.get("attrs") or {}).items():
                setattr(sv, k, v)
            sv.cls_attr = "class attribute"
            sc = Scope(inst, dict(case.get("props") or {}), dict(state), case.get("attrs") or {}, logged, {"self": sv})
            sc.inst["state"], sc.inst["props"] = state, dict(case.get("props") or {})
            want = element(root, sc, case, {})
        except (NameError, TypeError, KeyError, IndexError) as e:
            want = e
        got = None
        try:
            if i == 0:
                gui.render(h(Top, props), box)
            else:
                made[0].state.update(step)
        except Exception as e:
            got = e
        if isinstance(want, Exception):
            if not case.get("strict"):
                return None     # which of several failing expressions is evaluated first is not specified
            if got is None:
                if i == 0:
                    return f"template: {src(root)}: expected {type(want).__name__} ({want}) but it rendered"
                return None
            if type(got) is not type(want) or (isinstance(want, NameError) and str(want).split("'")[1] not in str(got)):
                return f"template: {src(root)}: expected {want!r} but got {got!r}"
            return None
        if isinstance(got, NameError) and cpython_bug(got) and len(re.findall(rf"\b{cpython_bug(got)[0]}\b", SOURCE[0])) > 1:
            return None
        if got is not None:
            raise got
        have = box.get("children", [])
        if len(have) != len(want):
            return f"template: {src(root)}: {len(have)} elements instead of {len(want)}"
        for w, g in zip(want, have):
            if d := diff(w, g, ""):
                return f"template: {src(root)} (props {case.get('props')}, state {state}, step {i}): {d}"
        if i == 0 and set(map(str, log)) != set(map(str, logged)):
            return f"template: {src(root)}: evaluated {sorted(set(map(str, log)))} instead of {sorted(set(map(str, logged)))}"
    return None


# ---------------------------------------------------------------- generation
EXPRS = ["n0", "n1", "xs", "g0", "flag", "cls_attr", "dynamic", "prop_attr[0]", "meth(3)", "n0 if flag else n1", "[q for q in xs]", "[n0 for n0 in xs]", "{q: n0 for q in xs}", "len(xs)",
         "self.state['n1']", "sorted(xs)", "(lambda n0: [n0, n1])(5)", "(lambda *a, **k: [a, k, n0])(1, z=2)", "[(q, r) for q in xs for r in [q, n1]]", "name('a/b')",
         "osp.basename('x/y')", "str(n0) + 'x'", "f'{n0}-{n1!r}'", "shared", "n0 == n1", "not flag", "xs[0] if xs else None", "{'a': n0, 'b': [n1]}", "max([1, 2])", "join('a', 'b')",
         "1 < 2 and n0", "{q for q in xs} == set(xs)", "list(x for x in xs if x != n0)", "'}' + \"{\"", "only_g", "{n0: q for q in xs}", "{(q, n1): [n0, q] for q in range(2)}", "{'k': n0}['k']", "{n1}", "[{n1: {n0: 1} }]", "[[z for z in [y, n0]] for y in xs]"]
EVENTS = ["lambda: n0", "lambda ev: [ev, n1]", "lambda n0: n0", "lambda ev, n1=n0: [ev, n1]", "lambda *args: args", "meth", "lambda a, b=2: (lambda c: [a, b, c, n0])(1)",
          "lambda: [e for e in xs]", "lambda ev: p('h', ev)", "lambda *, k=n1: k", "lambda **kw: [kw, n0]", "lambda ev=shared: ev"]
MAPS = ["{'x': 5, 'z': n0}", "{}", "m0", "{'y': 1, 'x': None}", "dict(a=n1)", "{'title': g0}", "{**m0, 'y': n1}", "m0 | {'title': n0}", "{'x': 1} if flag else {'z': 2}", "m0 or {'y': 3}",
        "{q: n0 for q in ('x', 'y')}", "[{'x': 1}, {'a_b': 2}][0]", "(lambda q: {'z': q})(n0)", "dict([('x', n1)])"]
LOOPS = [[["i"], "i in range(2)"], [["i", "v"], "i, v in enumerate(xs)"], [["v"], "v in xs"], [["k", "a", "b"], "k, (a, b) in pairs"], [["v"], "v in xs if v"],
         [["n0"], "n0 in xs"], [["a", "b"], "a in xs for b in range(2)"], [["i", "rest"], "i, *rest in [(1, 2, 3), (4,)]"], [["x"], "x in [q for q in xs]"], [["y", "x"], "x, y in zip(xs, xs)"],
         [["n1"], "n1 in []"], [["i"], "i in xs if i != n0 if flag"], [["i", "j"], "i in xs if n1 for j in range(3) if j != n0"], [["i"], "i in p('loop', [1])"], [["shared"], "shared in (1, 2)"], [["q"], "q in {'k': 1}"], [["zip"], "zip in xs"], [["props"], "props in xs"], [["globals", "str"], "globals, str in enumerate(xs)"], [["a", "b"], "[a, b] in pairs2"], [["a", "b"], "(a, [b]) in [(1, [2]), (3, [4])]"], [["k", "a", "b"], "[k, (a, *b)] in pairs"],
         [["t0", "t1", "t2"], "t0, t1, t2 in triples"], [["t0", "t1", "t2", "t3", "t4"], "t0, (t1, t2, t3), t4 in [(1, (2, 3, 4), 5)]"], [["t0", "t1", "t2", "t3"], "t0, t1, *t2, t3 in [range(6), 'abc']"],
         [["xs"], "xs in xs"], [["n0", "n1"], "n0, n1 in [(n1, n0), (n0, xs)]"], [["B", "a"], "B, a in pairs2"], [["aB", "Ab", "ab", "AB"], "aB, Ab, ab, AB in [(1, 2, 3, 4), (n0, n1, xs, 0)]"], [["Zz", "z", "i"], "i, (Zz, z) in enumerate(pairs2)"],
         [["q", "v"], "q in xs for v in {q: n0 for q in range(2)}"]]
TEXTS = ["hello", " a < b ", "x &amp; y", "  spaced  text ", "line\nbreak", "100%", "a } b", "{ single }", "é ü", "'\"", "&lt;tag&gt;", "a > b", "0", "{}", "{ }", "}", "0 "]
# values of which str(), repr() and format() differ
OBJECTS = ["type('F', (), dict(__str__=lambda s: 'text', __repr__=lambda s: 'repr', __format__=lambda s, f: 'format'))()", "type('F', (int,), dict(__str__=lambda s: 'text'))(5)", "type('F', (str,), dict(__str__=lambda s: 'text', __format__=lambda s, f: 'format'))('s')"]
TAGS = ["a", "b", "item", "myTag", "with-dash", "under_score", "h1", "camelCaseTag"]


def expr(rng, local=()):
    if local and rng.random() < 0.6:
        v = rng.choice(list(local))
        return rng.choice([v, f"[{v}, n1]", f"str({v})", f"(lambda z: [z, {v}])(1)", f"[w for w in [{v}]]"])
    return rng.choice(EXPRS)


def text_node(rng, local):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < 0.5:
            parts.append(rng.choice(TEXTS))
        elif r < 0.92:
            e = expr(rng, local)
            if "}" in e or "{" in e:
                e = "n0" if "}}" in e or rng.random() < 0.5 else e
            if rng.random() < 0.05:
                e = rng.choice(OBJECTS)
            parts.append({"x": rng.choice([" {} ", "{}", "\n {}\n"] if not e.endswith("}") else [" {} "]).replace("{}", e)})
        else:
            parts.append(rng.choice([" ", "\n"]))
    return {"k": "t", "parts": parts}


def attr_list(rng, local, focus):
    out, names = [], ["x", "y", "z", "title", "data-v", "a_b", "a:b"]
    n = rng.choice([0, 1, 2, 4] if rng.random() < 0.97 else [9]) if focus != "C14" else rng.choice([1, 2, 3, 5, 7])
    hasmap, seen = False, set()
    for _ in range(n):
        kind = rng.choice(["static", "bare", "bind", "bind", "vbind", "map", "on", "von"])
        if kind == "map":
            if hasmap:
                continue
            hasmap = True
            out.append([kind, "", rng.choice(MAPS)])
        elif kind in ("on", "von"):
            nm = rng.choice(["click", "key_up", "change", "update:v", "a@b", "position_changed", "on_zap", "button_on_top", "on"])
            e = rng.choice(EVENTS)
            if local and rng.random() < 0.6:
                v = rng.choice(list(local))
                e = rng.choice([f"lambda: {v}", f"lambda ev: [ev, {v}]", f"lambda {v}: {v}", f"lambda ev, z={v}: z"])
            if nm in seen:
                continue
            seen.add(nm)
            out.append([kind, nm, e])
        elif kind == "static":
            out.append([kind, rng.choice(names), rng.choice(["", "v", "a b", "x &amp; <y>", "{{ n0 }}", "1", "'q'"])])
        elif kind == "bare":
            out.append([kind, rng.choice(names + ["nowrap", "no", "x-no", "not"]), None])
        else:
            out.append([kind, rng.choice(names), expr(rng, local)])
    if hasmap:
        # the listener of an event is given by one attribute
        pass
    return out


def node(rng, depth, local, focus, comp=True, slots=False):
    r = rng.random()
    if slots and r < 0.3:
        return {"k": "slot", "name": rng.choice([None, "default", "x", "y", "x:y", "y#x"]), "c": kids(rng, depth - 1, local, focus, comp, slots) if depth > 0 and rng.random() < 0.6 else []}
    pc = 0.5 if focus == "C11" else 0.12
    if comp and depth > 0 and r < 0.3 + pc and r > 0.3:
        n = {"k": "e", "tag": rng.choice(["Comp", "NS.Comp"]), "a": attr_list(rng, local, focus)[:2], "c": []}
        n["a"] = [a for a in n["a"] if a[0] not in ("map", "on", "von")]
        names = rng.sample(["x", "y", "default", "x:y", "y#x"], rng.choice([0, 0, 1, 2]))
        for s in names:
            n["c"].append({"k": "e", "tag": rng.choice(["template", "template", "item"]), "a": [], "slot": s, "slotform": "v", "c": kids(rng, depth - 1, local, focus, comp, False)})
            if rng.random() < 0.4:
                n["c"][-1]["slotform"] = "#"
            if s == "default" and rng.random() < 0.6:
                n["c"][-1]["slot"] = rng.choice(["", "#"])
        if "default" not in names:
            if rng.random() < 0.7:
                n["c"] += kids(rng, depth - 1, local, focus, comp, False)
        return n
    return {"k": "e", "tag": rng.choice(TAGS + ["template"]) if rng.random() < 0.9 else "template", "a": attr_list(rng, local, focus), "selfclose": rng.random() < 0.3, "dirpos": rng.randrange(4),
            "c": kids(rng, depth - 1, local, focus, comp, slots) if depth > 0 else []}


CONDS = ["flag", "not flag", "n0", "n1", "xs", "n0 == n1", "False", "True", "0", "''", "c0", "c1", "c2", "None"]


def kids(rng, depth, local, focus, comp=True, slots=False):
    out, i = [], 0
    for _ in range(rng.choice([0, 1, 2, 2, 3, 4])):
        r = rng.random()
        i += 1
        if r < (0.35 if focus == "C16" else 0.12):
            out.append(text_node(rng, local) if rng.random() < 0.8 else {"k": "cm", "s": rng.choice([" comment ", "n0 {{ nope }}", " <b/> "])})
        elif r < (0.75 if focus == "C12" else 0.3):
            cid = rng.randrange(10**6)
            mk = lambda d: {**fix(node(rng, depth, local, focus, comp, slots)), "if": d}
            cond = lambda: f"p({rng.randrange(10**6)}, {rng.choice(CONDS if not local else CONDS + list(local))})"
            out.append(mk(["if", cond()]))
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                out.append(mk(["elif", cond()]))
            if rng.random() < 0.5:
                out.append(mk(["else"]))
        elif r < (0.85 if focus == "C13" else 0.42):
            names, s = rng.choice(LOOPS)
            n = node(rng, depth, tuple(set(local) | set(names)), focus, comp, False)
            out.append({**fix(n), "for": [names, s]})
        else:
            out.append(node(rng, depth, local, focus, comp, slots))
    return out


def fix(n):
    return n


def scopes(rng):
    vals = {"n0": [1, 0, "s", None, [1]], "n1": [2, "", "t", False], "xs": [[1, 2], [], [3], ["u", 0, "v"]], "flag": [True, False], "m0": [{"x": 9}, {}, {"on_zap": None, "w": 1}],
            "pairs": [[(1, (2, 3))], [("a", ("b", "c")), (0, (0, 1))]], "pairs2": [[(1, 2)], []], "triples": [[(1, 2, 3), "xyz"], []], "c0": [True, False], "c1": [True, False], "c2": [0, 1], "shared": ["sh"], "max": ["no"], "name": ["no"], "only_g": [5]}
    props, state, attrs = {}, {}, {}
    for k, opts in vals.items():
        if k in ("shared", "max", "name", "only_g"):
            if rng.random() < 0.5:
                continue
        v = rng.choice(opts)
        if k == "m0":
            v = {a: b for a, b in v.items() if not a.startswith("on_")}
        where = rng.choice(["props", "state", "state", "attrs"])
        {"props": props, "state": state, "attrs": attrs}[where][k] = v
        if rng.random() < 0.25:
            {"props": props, "state": state, "attrs": attrs}[rng.choice(["props", "state", "attrs"])][k] = rng.choice(opts) if k != "m0" else {}
    if "n1" not in state:
        state["n1"] = "st"
    return props, state, attrs


def case_for(focus):
    def gen(rng, size=None):
        props, state, attrs = scopes(rng)
        root = {"k": "e", "tag": rng.choice(["app", "Comp"]) if focus == "C11" and rng.random() < 0.3 else "app", "a": attr_list(rng, (), focus), "c": []}
        if root["tag"] == "Comp":
            root["a"] = []
        root["c"] = kids(rng, rng.choice([1, 2, 2, 3]), (), focus)
        inner = [node(rng, 1, (), "inner", False, True) for _ in range(rng.randrange(1, 4))]
        inner = kids(rng, 1, (), "inner", False, True) + [{"k": "slot", "name": rng.choice([None, "x"]), "c": []}]
        inner = strip(inner)
        steps = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            steps.append({k: rng.choice({"n0": [1, 2, "w"], "n1": [3, ""], "flag": [True, False], "c0": [True, False], "c1": [True, False]}.get(k, [state[k]])) for k in state if rng.random() < 0.4})
        return {"root": root, "props": props, "state": state, "attrs": attrs, "steps": steps, "inner": inner, "twin": rng.random() < 0.3, "script_first": rng.random() < 0.2}
    return gen


def strip(nodes):
    """The inner component has no data of its own: keep structure, slots and constants."""
    out = []
    for n in nodes:
        if n["k"] == "t":
            n = {"k": "t", "parts": [p if isinstance(p, str) else {"x": " 1 + 1 "} for p in n["parts"]]}
        elif n["k"] != "cm":
            n = dict(n)
            n["a"] = [a for a in n.get("a") or [] if a[0] in ("static", "bare")] if n["k"] == "e" else []
            n["c"] = strip(n.get("c") or [])
            if n.get("if"):
                n["if"] = [n["if"][0]] + (["True"] if len(n["if"]) > 1 and hash(n["if"][1]) % 2 else ["False"])[: len(n["if"]) - 1]
                n["if"] = [n["if"][0]] + (["1 == 1" if len(repr(n)) % 2 else "1 == 2"] if len(n["if"]) > 1 else [])
            if n.get("for"):
                n["for"] = [["i"], "i in range(2)"]
        out.append(n)
    return out


# exhaustive small chains (C12): every sequence of siblings x truth assignment
def chains(tier):
    kinds = ["if", "elif", "else", "none", "for", "text", "cm"]
    length = 3 if tier == "quick" else 4
    long = [("if",) + ("elif",) * k + e + rest for k in (2, 3, 4, 6) for e in ((), ("else",)) for rest in ((), ("none",), ("if", "else"))]
    for n in range(0, length + 1):
        for seq in itertools.product(kinds, repeat=n) if n else long:
            open_ = False
            ok = True
            for s in seq:
                if s in ("elif", "else") and not open_:
                    ok = False
                    break
                if s == "if":
                    open_ = True
                elif s in ("else", "none", "for", "text"):
                    open_ = False
            if not ok:
                continue
            conds = [i for i, s in enumerate(seq) if s in ("if", "elif")]
            for truth in itertools.product([False, True], repeat=len(conds)) if n else [tuple(i in on for i in range(len(conds))) for on in [(), *[(i,) for i in range(len(conds))], (1, 2), (0, 2)]]:
                t = dict(zip(conds, truth))
                c = []
                for i, s in enumerate(seq):
                    if s == "text":
                        c.append({"k": "t", "parts": [f"t{i}"]})
                        continue
                    if s == "cm":
                        c.append({"k": "cm", "s": "c"})
                        continue
                    e = {"k": "e", "tag": f"e{i}", "a": [], "c": []}
                    if s in ("if", "elif"):
                        e["if"] = [s, f"p({i}, c{i})"]
                    if s == "else":
                        e["if"] = ["else"]
                    if s == "for":
                        e["for"] = [["i"], "i in range(2)"]
                    c.append(e)
                yield {"root": {"k": "e", "tag": "app", "a": [], "c": c}, "state": {f"c{i}": v for i, v in t.items()}, "steps": [{f"c{i}": not v for i, v in t.items()}]}
    # directives after (and between) any number of attributes
    for k in (1, 2, 3, 5, 8, 13, 21):
        for pos in (k, k // 2):
            for truth in itertools.product([False, True], repeat=2):
                c = [{"k": "e", "tag": f"e{i}", "a": [["static", f"a{j}", f"v{j}"] for j in range(k)], "c": [], "dirpos": pos, "if": [s] + ([f"p({i}, c{i})"] if s != "else" else [])} for i, s in enumerate(("if", "elif", "else"))]
                yield {"root": {"k": "e", "tag": "app", "a": [], "c": c}, "state": {f"c{i}": v for i, v in enumerate(truth)}, "steps": [{f"c{i}": not v for i, v in enumerate(truth)}]}


def attr_orders(tier):
    base = [["static", "x", "s"], ["bare", "x", None], ["bind", "x", "n0"], ["vbind", "x", "n1"], ["map", "", "{'x': 5, 'y': 6}"], ["static", "y", "q"], ["bind", "y", "n1"], ["on", "click", "lambda: n0"], ["von", "click", "lambda: n1"], ["on", "key_up", "meth"], ["on", "k:u@p", "meth"], ["bind", "x:y:z", "n1"], ["vbind", "x:y:z", "n0"], ["von", "k:u@p", "meth"], ["map", "", "{'on_click': None, 'z': 1}"]]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for combo in itertools.permutations(base, n):
            if sum(a[0] == "map" for a in combo) > 1 or sum(a[0] in ("on", "von") and a[1] == "click" for a in combo) and any("on_click" in str(a[2]) for a in combo):
                continue
            if any("on_click" in str(a[2]) for a in combo):
                continue
            yield {"root": {"k": "e", "tag": "app", "a": [list(a) for a in combo], "c": []}, "state": {"n0": 1, "n1": 2}}


def resolution(tier):
    for mask in range(8):
        for nm in ("nm", "g0", "max", "name", "meth", "cls_attr", "state", "self", "email", "blockimp", "clsimp", "within", "nested", "g2"):
            sc = {"props": {}, "state": {}, "attrs": {}}
            for i, w in enumerate(sc):
                if mask >> i & 1 and not (w == "attrs" and nm in ("state", "self", "props")):
                    sc[w][nm] = w
            if nm in ("self",):
                continue
            if nm == "state" and mask:
                continue
            for form in ("{}", "[{}]", "(lambda z={}: z)()", "[{} for z in (1,)]", "(lambda: {})()"):
                e = form.format(nm if nm not in ("email", "blockimp") else f"{nm}.__name__")
                if "=" in form and "." in e:
                    continue
                yield {"root": {"k": "e", "tag": "app", "a": [["bind", "v", e]] if nm not in ("max", "name", "meth") else [["bind", "v", f"callable({nm})"]], "c": []}, **sc, "twin": True, "strict": True}


def loops(tier):
    for l1 in LOOPS:
        for l2 in [None, *LOOPS]:
            names = l1[0]
            inner = {"k": "e", "tag": "b", "a": [["bind", "v", f"[{', '.join(names)}]"], ["on", "click", f"lambda ev: [ev, {names[0]}]"]], "c": [{"k": "t", "parts": ["n ", {"x": f" {names[-1]} "}]}]}
            if l2:
                both = list(dict.fromkeys(names + l2[0]))
                inner["c"].append({"k": "e", "tag": "c", "a": [["bind", "v", f"[{', '.join(both)}]"], ["on", "click", f"lambda: [{', '.join(both)}]"]], "c": [], "for": l2})
            yield {"root": {"k": "e", "tag": "app", "a": [], "c": [{**inner, "for": l1}, {"k": "e", "tag": "after", "a": [["bind", "v", "[n0, n1, shared]"]], "c": []}]},
                   "state": {"n0": "S0", "n1": "S1", "xs": [1, 0, 2], "pairs": [[1, [2, 3]], [4, [5, 6]]], "pairs2": [[1, 2], [3, 4]], "triples": [[7, 8, 9], ["u", "v", "w"]]}, "steps": [{"xs": [7, 1]}, {"xs": []}]}


def slots(tier):
    contents = [None, "x", "default", "v-slot", "plain", "both"]
    inners = [[{"k": "slot", "name": "x", "c": []}], [{"k": "slot", "name": None, "c": [{"k": "e", "tag": "fb", "a": [], "c": []}]}],
              [{"k": "slot", "name": "x", "c": [{"k": "t", "parts": ["fallback"]}]}, {"k": "slot", "name": None, "c": []}, {"k": "slot", "name": "x", "c": []}],
              [{"k": "e", "tag": "wrap", "a": [], "c": [{"k": "slot", "name": "default", "c": []}]}, {"k": "slot", "name": "y", "c": [{"k": "e", "tag": "fy", "a": [], "c": []}]}],
              [{"k": "slot", "name": None, "c": [], "if": ["if", "True"]}, {"k": "e", "tag": "el", "a": [], "c": [], "if": ["else"]}],
              [{"k": "slot", "name": "x", "c": [], "if": ["if", "False"]}, {"k": "slot", "name": "x", "c": [{"k": "e", "tag": "fz", "a": [], "c": []}], "if": ["else"]}],
              [{"k": "slot", "name": None, "c": [], "for": [["i"], "i in range(2)"]}], []]
    payload = [[{"k": "e", "tag": "p1", "a": [["bind", "v", "n0"]], "c": []}], [{"k": "t", "parts": ["txt ", {"x": "n0"}]}], [{"k": "e", "tag": "p2", "a": [["bind", "v", "i"]], "c": [], "for": [["i"], "i in xs"]}],
               [{"k": "e", "tag": "p3", "a": [], "c": [], "if": ["if", "flag"]}, {"k": "e", "tag": "p4", "a": [], "c": [], "if": ["else"]}], [{"k": "cm", "s": "nothing"}], []]
    for inner in inners:
        for kind in contents:
            for pl in payload:
                for wrap in ("app", "root", "loop"):
                    c = []
                    if kind in ("x", "both"):
                        c.append({"k": "e", "tag": "template", "a": [], "slot": "x", "c": pl})
                    if kind == "default":
                        c.append({"k": "e", "tag": "template", "a": [], "slot": "default", "c": pl})
                    if kind == "v-slot":
                        c.append({"k": "e", "tag": "template", "a": [], "slot": "", "c": pl})
                    if kind in ("plain", "both"):
                        c += pl
                    comp = {"k": "e", "tag": "Comp", "a": [], "c": c}
                    root = comp if wrap == "root" else {"k": "e", "tag": "app", "a": [], "c": [comp, {"k": "e", "tag": "z", "a": [], "c": []}]}
                    if wrap == "loop":
                        root["c"][0] = {**comp, "for": [["j"], "j in range(2)"]}
                    yield {"root": root, "inner": inner, "state": {"n0": 1, "xs": [1, 2], "flag": True}, "steps": [{"flag": False, "n0": 2}, {"xs": []}]}


EX = {"C12": ("chains of up to 3 siblings", chains), "C14": ("orders of attributes", attr_orders), "C15": ("scopes of one name", resolution), "C13": ("loops in loops", loops), "C11": ("slot content x places", slots)}


def families(pid):
    f = {"random templates": (case_for(pid), check, None)}
    if pid in EX:
        f[EX[pid][0]] = (None, check, EX[pid][1])
    return f

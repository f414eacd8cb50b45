"""C18 (dict renderer) and C19 (browser and pygfx renderers) against models of the trees they operate on."""
import itertools, random, sys, types
from common import Fail

# ------------------------------------------------------------------ a small browser
class Node:
    def __init__(self, tag, text=None):
        self.tag, self.childNodes, self.parentNode, self.attrs, self.listeners, self._text = tag, [], None, {}, [], text

    @property
    def textContent(self):
        return self._text if self.tag == "#text" else "".join(c.textContent for c in self.childNodes)

    @textContent.setter
    def textContent(self, v):
        if self.tag != "#text":
            self.childNodes = []
        self._text = v

    def _detach(self):
        if self.parentNode is not None:
            self.parentNode.childNodes = [c for c in self.parentNode.childNodes if c is not self]
            self.parentNode = None

    def insertBefore(self, el, ref):
        if ref is not None and not any(c is ref for c in self.childNodes):
            raise RuntimeError("NotFoundError")
        el._detach()
        i = len(self.childNodes) if ref is None else [c is ref for c in self.childNodes].index(True)
        self.childNodes.insert(i, el)
        el.parentNode = self
        return el

    def appendChild(self, el):
        return self.insertBefore(el, None)

    append = appendChild

    def before(self, el):
        self.parentNode.insertBefore(el, self)

    def remove(self):
        self._detach()

    def removeChild(self, el):
        if el.parentNode is not self:
            raise RuntimeError("NotFoundError")
        el._detach()
        return el

    def replaceChild(self, new, old):
        self.insertBefore(new, old)
        self.removeChild(old)

    def setAttribute(self, k, v):
        self.attrs[k] = v

    def removeAttribute(self, k):
        self.attrs.pop(k, None)

    def addEventListener(self, t, f, *a):
        if (t, f) not in self.listeners:
            self.listeners.append((t, f))

    def removeEventListener(self, t, f, *a):
        if (t, f) in self.listeners:
            self.listeners.remove((t, f))


class Document:
    def createElement(self, t):
        return Node(t)

    def createTextNode(self, s):
        return Node("#text", s)


def dom_renderer():
    if "js" not in sys.modules:
        js = types.ModuleType("js")
        js.document = Document()
        js.window = types.SimpleNamespace(document=js.document)
        sys.modules["js"] = js
    from collagraph.renderers.dom_renderer import DomRenderer
    return DomRenderer()


# ------------------------------------------------------------------ histories of tree calls
HANDLERS = [lambda *a: 1, lambda *a: 2, print, lambda *a: 1]
VALUES = ["v", "", 0, None, False, 1, [1], {"a": 1}, "v2"]
ATTRS = ["x", "y", "class", "data-z"]
EVENTS = ["click", "key_up", "x", "on_y", "z", "0"]


def gen(rng, size=None):
    n = rng.randrange(3, 7)
    ops = []
    busy = rng.random() < 0.3  # Many listeners and attributes on one element
    for _ in range(rng.randrange(1, 22)):
        k = rng.choice(["set", "unset", "on", "on", "on", "off"] if busy else ["ins", "ins", "ins", "rem", "text", "set", "set", "unset", "on", "on", "off"])
        a, b, c = 0 if busy else rng.randrange(n), rng.randrange(n), rng.randrange(n)
        ops.append([k, a, b, c if rng.random() < 0.6 else None, rng.randrange(99)])
    return {"n": n, "twins": rng.random() < 0.6, "ops": ops}


def small(tier):
    """Every insertion/removal history of equal-looking siblings below one parent."""
    for n in (3, 4) if tier == "quick" else (3, 4, 5):
        for order in itertools.permutations(range(1, n)):
            for anchors in itertools.product(*[[None, *order[:i]] for i in range(n - 1)]):
                for rem in range(1, n):
                    for again in [None, *[x for x in range(1, n) if x != rem]]:
                        ops = [["ins", e, 0, a, 0] for e, a in zip(order, anchors)] + [["rem", rem, 0, None, 0], ["ins", rem, 0, again, 0]]
                        yield {"n": n, "twins": True, "ops": ops}


class Model:
    def __init__(self, n):
        self.kids = [[] for _ in range(n)]
        self.up = [None] * n
        self.text, self.attrs, self.on = {}, [{} for _ in range(n)], [{} for _ in range(n)]

    def below(self, a, b):
        return a == b or any(self.below(c, b) for c in self.kids[a])


def play(case, make, r, show, texts=True, same=lambda got, want: got == want):
    n = case["n"]
    m = Model(n)
    els = [make(i) for i in range(n)]
    for op in case["ops"]:
        if len(op) != 5:
            return None
        k, a, b, c, x = op
        if max(a, b, c or 0) >= n:
            return None
        if k == "ins":
            if m.up[a] is not None or m.below(a, b):
                continue
            c = c if c is not None and m.up[c] == b else None
            r.insert(els[a], els[b], anchor=None if c is None else els[c]) if x % 2 or c is not None else r.insert(els[a], els[b])
            m.kids[b].insert(m.kids[b].index(c) if c is not None else len(m.kids[b]), a)
            m.up[a] = b
        elif k == "rem":
            if m.up[a] is None:
                continue
            b = m.up[a]
            r.remove(els[a], els[b])
            m.kids[b].remove(a)
            m.up[a] = None
        elif k == "text" and texts:
            if m.kids[a]:
                continue
            r.set_element_text(els[a], f"t{x}")
            m.text[a] = f"t{x}"
        elif k == "set":
            at, v = ATTRS[x % 4], VALUES[x % len(VALUES)]
            r.set_attribute(els[a], at, v)
            m.attrs[a][at] = v
        elif k == "unset":
            at = ATTRS[x % 4]
            if at not in m.attrs[a]:
                continue
            r.remove_attribute(els[a], at, m.attrs[a].pop(at))
        elif k == "on":
            e, h = EVENTS[x % len(EVENTS)], x % len(HANDLERS)
            if h in m.on[a].get(e, ()):
                continue
            r.add_event_listener(els[a], e, HANDLERS[h])
            m.on[a].setdefault(e, set()).add(h)
        elif k == "off":
            e, h = EVENTS[x % len(EVENTS)], x % len(HANDLERS)
            if h not in m.on[a].get(e, ()):
                continue
            r.remove_event_listener(els[a], e, HANDLERS[h])
            m.on[a][e].discard(h)
        for i in range(n):
            got = show(els[i])
            want = ([els[j] for j in m.kids[i]], m.attrs[i], {e: {HANDLERS[h] for h in hs} for e, hs in m.on[i].items() if hs}, m.text.get(i))
            if [id(e) for e in got[0]] != [id(e) for e in want[0]]:
                return f"tree: after {op}: element {i} has children {[next((j for j in range(n) if els[j] is e), '?') for e in got[0]]} instead of {m.kids[i]}"
            if got[1] != want[1] or {k: type(v) for k, v in got[1].items()} != {k: type(v) for k, v in want[1].items()}:
                return f"attributes: after {op}: element {i} has {got[1]} instead of {want[1]}"
            if got[2] != want[2]:
                return f"listeners: after {op}: element {i} has {got[2]} instead of {want[2]}"
            if texts and got[3] != want[3]:
                return f"text: after {op}: element {i} has {got[3]!r} instead of {want[3]!r}"


def check_dict(case):
    import collagraph as cg
    r = cg.DictRenderer()

    def show(e):
        return e.get("children", []), e.get("attrs", {}), {k: set(v) for k, v in e.get("handlers", {}).items() if v}, e.get("text")
    return play(case, lambda i: r.create_element("a" if case.get("twins") else f"e{i}"), r, show)


def check_dom(case):
    r = dom_renderer()

    def show(e):
        ls = {}
        for t, f in e.listeners:
            ls.setdefault(t, set()).add(f)
        return e.childNodes, e.attrs, ls, e._text

    def mk(i):
        e = r.create_element("a")
        if e.tag != "a":
            raise Fail("tree: wrong element")
        if r.create_text_element().tag != "#text":
            raise Fail("tree: wrong text node")
        return e
    return play(case, mk, r, show)


def check_text_node(case):
    r = dom_renderer()
    t = r.create_text_element()
    for s in case["texts"]:
        r.set_element_text(t, s)
        if t.textContent != s:
            return f"text: {t.textContent!r} instead of {s!r}"


# ------------------------------------------------------------------ pygfx
def gfx():
    import pygfx
    return pygfx


def check_gfx_tree(case):
    g = gfx()
    from collagraph.renderers import PygfxRenderer
    r = PygfxRenderer()
    names = ["Group", "scene", "world-object", "mesh"]
    case = {**case, "ops": [o for o in case["ops"] if len(o) == 5 and (o[0] == "rem" or o[0] == "ins" and o[2] < o[1])]}
    # (pygfx 0.1.17 itself can't turn a child into the parent of its former parent)

    def show(e):
        return list(e.children), {}, {}, None
    return play(case, lambda i: r.create_element(names[i % 4]), r, show, texts=False)


class Probe:
    """An object with attributes, some of them on the class, some nested."""
    klass = [1, 2]

    def __init__(self):
        self.a, self.none, self.zero, self.lst, self.sub = 1, None, 0, [1, [2]], Sub()


class Sub:
    def __init__(self):
        self.q, self.d, self.sub = "q", {"k": 1}, Sub2()


class Sub2:
    def __init__(self):
        self.z = {3}


PATHS = ["a", "none", "zero", "lst", "new", "sub.q", "sub.d", "sub.new", "sub.sub.z", "klass", "sub.sub.new"]
PVALUES = [1, 2, None, 0, "s", [9], {"z": 1}, (1,), False]


def gen_attrs(rng, size=None):
    return {"ops": [[rng.choice(["set", "set", "set", "unset", "poke", "new"]), rng.randrange(3), rng.choice(PATHS), rng.randrange(len(PVALUES))] for _ in range(rng.randrange(1, 14))]}


def all_attrs(tier):
    for p in PATHS:
        for seq in itertools.product(["set", "unset", "poke", "other"], repeat=5 if tier == "quick" else 6):
            yield {"ops": [[{"other": "set"}.get(k, k), 1 if k == "other" else 0, p, (i * 5) % len(PVALUES)] for i, k in enumerate(seq)]}


def resolve(o, path):
    *pre, last = path.split(".")
    for x in pre:
        o = getattr(o, x)
    return o, last


def check_gfx_attrs(case):
    import copy
    import collagraph.renderers.pygfx_renderer as pr
    r = pr.PygfxRenderer()
    # classes of their own for each run: nothing is remembered about them
    P = type("Probe", (Probe,), {})
    Q = type("Probe", (Probe,), {"__init__": lambda s: (Probe.__init__(s), setattr(s, "a", "Q"), setattr(s, "lst", ["Q"]), None)[-1]})
    objs = [P(), P(), Q()]
    pristine = {P: P(), Q: Q()}
    first, live = {}, {}
    MISSING = "<missing>"
    for k, i, path, v in case["ops"]:
        o = objs[i]
        h, name = resolve(o, path)
        if k == "set":
            val = copy.deepcopy(PVALUES[v])
            if (type(o), path) not in first:
                # what it was before it was first set on an object of that class
                first[type(o), path] = copy.deepcopy(getattr(h, name, MISSING))
            r.set_attribute(o, path, val)
            live[i, path] = val
            if getattr(h, name, MISSING) is not val:
                return f"set: {path} of object {i} is {getattr(h, name, MISSING)!r} instead of {val!r}"
        elif k == "unset":
            if (i, path) not in live:
                continue
            want = first[type(o), path]
            r.remove_attribute(o, path, live.pop((i, path)))
            got = getattr(h, name, MISSING)
            if got != want or type(got) is not type(want):
                return f"restore: {path} of object {i} is {got!r} instead of {want!r} ({case['ops']})"
        elif k == "poke":
            # the application changes the (mutable) value in place
            cur = getattr(h, name, MISSING)
            if isinstance(cur, list) and name != "klass":
                cur.append("poked")
            elif isinstance(cur, dict):
                cur["poked"] = 1
            elif isinstance(cur, set):
                cur.add("poked")


GFX = [("group", "local.position", (1, 2, 3)), ("group", "visible", False), ("mesh", "render_order", 5), ("mesh", "name", "n"), ("scene", "local.scale", (2, 2, 2)), ("mesh", "custom", 4), ("group", "local.rotation", (0, 0, 1, 0)), ("mesh", "cast_shadow", True)]


def gen_gfx(rng, size=None):
    return {"ops": [[rng.choice(["set", "unset"]), rng.randrange(4), rng.randrange(len(GFX))] for _ in range(rng.randrange(1, 14))]}


def check_gfx_real(case):
    import collagraph.renderers.pygfx_renderer as pr
    r = pr.PygfxRenderer()
    objs, live = {}, set()

    def read(o, path):
        h, name = resolve(o, path)
        x = getattr(h, name, "<missing>")
        return tuple(float(q) for q in x) if hasattr(x, "__len__") and not isinstance(x, str) else x
    cache = {}

    def fresh(t, path):
        if t not in cache:
            e = r.create_element(t)
            cache[t] = {q: read(e, q) for tt, q, _ in GFX if tt == t}
        return cache[t][path]
    for t in {t for t, _, _ in GFX}:
        fresh(t, next(q for tt, q, _ in GFX if tt == t))
    for k, i, gi in case["ops"]:
        t, path, v = GFX[gi]
        o = objs.setdefault((t, i), r.create_element(t))
        if k == "set":
            r.set_attribute(o, path, v)
            live.add((t, i, path))
            if read(o, path) != (tuple(map(float, v)) if isinstance(v, tuple) else v):
                return f"set: {path} of {t} is {read(o, path)} instead of {v}"
        elif (t, i, path) in live:
            r.remove_attribute(o, path, v)
            live.discard((t, i, path))
            if read(o, path) != fresh(t, path):
                return f"restore: {path} of {t} is {read(o, path)} instead of {fresh(t, path)}"
        for (t2, i2), o2 in objs.items():
            for t3, p3, v3 in GFX:
                if t3 == t2:
                    want = (tuple(map(float, v3)) if isinstance(v3, tuple) else v3) if (t2, i2, p3) in live else fresh(t2, p3)
                    if read(o2, p3) != want:
                        return f"others: {p3} of another {t2} is {read(o2, p3)} instead of {want}"


def gen_names(rng, size=None):
    base = ["Group", "Scene", "Mesh", "WorldObject", "Line", "Points", "Background", "AmbientLight", "PointLight", "GridHelper", "Text", "NoSuchThing", "Gro", "Groups"]

    def spell(n):
        return "".join(("-" if i and rng.random() < 0.2 else "") + (c.upper() if rng.random() < 0.3 else c.lower() if rng.random() < 0.4 else c) for i, c in enumerate(n))
    return {"names": [spell(rng.choice(base)) for _ in range(rng.randrange(1, 6))]}


def check_gfx_names(case):
    """Each name gives a new object of the pygfx class of that name."""
    g = gfx()
    from collagraph.renderers import PygfxRenderer
    r = PygfxRenderer()
    seen = []
    for n in case["names"]:
        want = [getattr(g, a) for a in dir(g) if a.lower() == n.lower().replace("-", "")]
        want = want[0] if want and isinstance(want[0], type) else None
        try:
            got = r.create_element(n)
        except ValueError:
            if want is not None:
                return f"create: {n!r} is not found"
            continue
        except Exception as e:
            if want is None or type(e) is TypeError:
                continue        # (a class with arguments)
            return f"create: {n!r} raises {e!r}"
        if want is None or type(got) is not want:
            return f"create: {n!r} gives a {type(got).__name__}"
        if any(got is o for o in seen):
            return f"create: {n!r} gives the same object again"
        seen.append(got)


def gen_events(rng, size=None):
    return {"ops": [[rng.choice(["on", "off", "fire"]), rng.randrange(2), rng.randrange(3), rng.randrange(3)] for _ in range(rng.randrange(1, 12))]}


def check_gfx_events(case):
    g = gfx()
    from collagraph.renderers import PygfxRenderer
    r = PygfxRenderer()
    objs = [r.create_element("group") for _ in range(2)]
    calls = []

    def mk(i):
        def f(ev):
            calls.append(i)
        return f
    hs = [mk(i) for i in range(3)]
    types_ = ["click", "pointer_down", "key_up"]
    on = set()
    for k, o, e, h in case["ops"]:
        if k == "on" and (o, e, h) not in on:
            r.add_event_listener(objs[o], types_[e], hs[h])
            on.add((o, e, h))
        elif k == "off" and (o, e, h) in on:
            r.remove_event_listener(objs[o], types_[e], hs[h])
            on.discard((o, e, h))
        elif k == "fire":
            del calls[:]
            objs[o].handle_event(g.objects.Event(types_[e], target=objs[o]) if hasattr(g.objects, "Event") else g.Event(types_[e]))
            want = sorted(x for a, b, x in on if (a, b) == (o, e))
            if sorted(calls) != want:
                return f"events: {types_[e]} called {sorted(calls)} instead of {want}"


def families(pid):
    if pid == "C18":
        return {"histories of calls": (gen, check_dict, None), "equal siblings": (None, check_dict, small)}
    return {"browser histories": (gen, check_dom, None), "browser siblings": (None, check_dom, small),
            "text nodes": (None, check_text_node, lambda tier: iter([{"texts": ["a", "", "b<", "a"]}])),
            "pygfx tree": (gen, check_gfx_tree, None), "pygfx attribute histories": (None, check_gfx_attrs, all_attrs),
            "pygfx attributes": (gen_attrs, check_gfx_attrs, None), "pygfx objects": (gen_gfx, check_gfx_real, None), "pygfx events": (gen_events, check_gfx_events, None), "pygfx names": (gen_names, check_gfx_names, None)}

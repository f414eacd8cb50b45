"""Reference semantics of a history of descriptions, and its comparison with the real code.

A case is {"steps": [root_desc, ...], "mode": ...}.  A description (JSON):
  {"k":"el","t":type,"key":key?,"p":{attr:value},"ev":{event:hid},"c":[...]}
  {"k":"text","s":str}
  {"k":"tpl","key":?,"c":[...]}                     virtual template
  {"k":"fn","t":"F0","key":?,"c":[...]}             function component (renders a template, or its only child)
  {"k":"cls","t":"C0","key":?,"p":{..},"ev":{..},"d":desc,"slots":{name:[...]},"prov":{k:v}}
  {"k":"slot","n":name,"c":[fallback...]}           only inside "d"
The reference below predicts, per update round, the tree, the identity of every instance,
the renderer calls, the hooks, the props, parent and first element.
"""
import itertools, json
from functools import partial
from common import Fail

import collagraph as cg
from collagraph import h, Component, Collagraph, EventLoopType
from collagraph.renderers import Renderer
from observ import reactive, to_raw

LOG = []          # events of the current run
INSTANCES = []    # all class component instances, in order of creation


class El:
    """Strict element."""
    def __init__(self, type, opts):
        self.type, self.attrs, self.listeners = type, {}, []
        self.children, self.parent, self.text = [], None, None
        self.opts = opts

    def __bool__(self):
        return "falsy" not in self.opts

    def __eq__(self, other):
        if "eq" in self.opts:
            return isinstance(other, El) and self.type == other.type
        return self is other

    __hash__ = None

    def __repr__(self):
        return f"<{self.type} {self.attrs}>"


def idx(children, el):
    for i, c in enumerate(children):
        if c is el:
            return i
    raise Fail(f"tree: {el} is not a child where the renderer was told it is")


class Rec(Renderer):
    """Strict recording renderer."""
    def __init__(self, opts=()):
        self.opts, self.calls = opts, []

    def create_element(self, type):
        el = El(type, self.opts)
        self.calls.append(("create", el, type))
        return el

    def create_text_element(self):
        el = El("TEXT_ELEMENT", self.opts)
        self.calls.append(("create", el, "TEXT_ELEMENT"))
        return el

    def insert(self, el, parent, anchor=None):
        self.calls.append(("insert", el, parent, anchor))
        if el.parent is not None:
            raise Fail(f"tree: {el} is inserted while it still is in the tree")
        i = idx(parent.children, anchor) if anchor is not None else len(parent.children)
        parent.children.insert(i, el)
        el.parent = parent

    def remove(self, el, parent):
        self.calls.append(("remove", el, parent))
        del parent.children[idx(parent.children, el)]
        el.parent = None

    def set_element_text(self, el, value):
        self.calls.append(("text", el, value))
        if el.type != "TEXT_ELEMENT":
            raise Fail("tree: text set on an element that is not a text element")
        el.text = value

    def set_attribute(self, el, attr, value):
        self.calls.append(("set", el, attr, value))
        el.attrs[attr] = value

    def remove_attribute(self, el, attr, value):
        self.calls.append(("unset", el, attr, value))
        el.attrs.pop(attr, None)

    def add_event_listener(self, el, event_type, value):
        self.calls.append(("listen", el, event_type, value))
        el.listeners.append((event_type, value))

    def remove_event_listener(self, el, event_type, value):
        self.calls.append(("unlisten", el, event_type, value))
        for i, (e, v) in enumerate(el.listeners):
            if e == event_type and v == value:
                del el.listeners[i]
                return
        raise Fail(f"handler: removal of a {event_type} listener that {el} does not have")


CALLED = []


class Call:
    """Callable objects, equal by value (and without code)."""
    def __hash__(self): return hash(self.hid)
    def __init__(self, hid): self.hid = hid
    def __call__(self, *args): CALLED.append((self.hid, args))
    def __eq__(self, o): return isinstance(o, Call) and self.hid == o.hid
    def bound(self, *args): CALLED.append((self.hid, args))


def called(hid, *args):
    CALLED.append((hid, args))


BOUND = [Call(i) for i in range(9)]


def make_handler(hid):
    """Anew for each description: closures, partials, callable objects, bound methods, functions with defaults."""
    def handler(*args):
        CALLED.append((hid, args))
    return {3: lambda: partial(called, hid), 4: lambda: Call(hid), 5: lambda: BOUND[hid].bound, 6: lambda: partial(partial(called, hid)),
            7: lambda: lambda *args, of=hid: CALLED.append((of, args))}.get(hid, lambda: handler)()


def const(v):
    """Attribute values of JSON; {"$": name} stands for special values."""
    if isinstance(v, dict) and set(v) == {"$"}:
        return SPECIAL[v["$"]]
    return v


class Odd:
    """Unhashable, falsy, equal by value."""
    __hash__ = None
    def __init__(self, v): self.v = v
    def __bool__(self): return False
    def __eq__(self, o): return isinstance(o, Odd) and self.v == o.v
    def __repr__(self): return f"Odd({self.v})"


SPECIAL = {"odd1": Odd(1), "odd2": Odd(2), "obj": object(), "nan0": 0.0, "tuple": (1, 2)}


def fresh(v):
    """An equal value that is another object, where that is possible."""
    if type(v) is str:
        return (v + " ")[:-1]
    if type(v) is int:
        return int(str(v))
    return v


def props_of(d):
    props = {}
    if d.get("key") is not None:
        props["key"] = fresh(d["key"])
    for k, v in (d.get("p") or {}).items():
        props[k] = fresh(const(v))
    for e, hid in (d.get("ev") or {}).items():
        props[f"on_{e}"] = make_handler(hid)
    return props


def build(d, comp=None):
    """The VNodes (a list) of one description."""
    k = d["k"]
    if k == "text":
        return [d["s"]]
    if k == "el":
        return [h(fresh(d["t"]), props_of(d), *buildall(d.get("c"), comp))]
    if k == "tpl":
        return [h(fresh("template"), props_of(d), *buildall(d.get("c"), comp))]
    if k == "fn":
        return [h(FNS[d["t"]], {**props_of(d), "d": d.get("c") or []})]
    if k == "cls":
        props = {**props_of(d), "d": d["d"], "prov": d.get("prov") or {}}
        slots = {n: slot_fn(c, comp) for n, c in (d.get("slots") or {}).items()}
        if slots:
            return [h(CLS[d["t"]], props, slots)]
        return [h(CLS[d["t"]], props)]
    if k == "slot":
        if d["n"] in comp._slots:
            r = comp.render_slot(d["n"])
            return r if len(r) == 1 and r[0].type == "template" else [h("template", {}, *r)]
        return [h("template", {}, *buildall(d.get("c"), comp))]
    raise AssertionError(k)


def slot_fn(content, comp):
    # `comp` is the component that gives the content
    def slot(props):
        nodes = buildall(content, comp)
        # a slot may give one element, or several
        return nodes if len(nodes) > 1 else h("template", {}, *nodes)
    return slot


def buildall(c, comp):
    out = []
    for d in c or []:
        out.extend(build(d, comp))
    return out


def make_fn(name):
    def fn(props):
        c = to_raw(props["d"])
        nodes = buildall(c, None)
        if len(nodes) == 1 and not isinstance(nodes[0], str):
            return nodes[0]
        return h("template", {}, *nodes)
    fn.__name__ = name
    return fn


FNS = {n: make_fn(n) for n in ("F0", "F1")}


class Base(Component):
    falsy = False

    def __init__(self, props=None, parent=None):
        super().__init__(props, parent)
        self.uid = len(INSTANCES)
        self.hooks = []
        self.injected = {}
        INSTANCES.append(self)
        for k, v in (to_raw(self.props).get("prov") or {}).items():
            self.provide(k, const(v))
        self.state["n"] = 0

    def render(self):
        LOG.append(("render", self.uid))
        self.state["n"]
        # Every prop is read, so that a change of any of them has an effect
        props = {k: self.props[k] for k in self.props}
        d = to_raw(props["d"])
        if d["k"] in ("text", "slot"):
            return h("template", {}, *build(d, self))
        return build(d, self)[0]

    def mounted(self):
        LOG.append(("mounted", self.uid, self._el_state()))

    def updated(self):
        LOG.append(("updated", self.uid))

    def before_unmount(self):
        LOG.append(("before_unmount", self.uid, self._el_state()))

    def _el_state(self):
        el = self.element
        first = el
        while el is not None and el.parent is not None:
            el = el.parent
        return (first, el is not None and el.type == "ROOT")


class C0(Base):
    pass


class C1(Base):
    pass


class C2(Base):
    pass


CLS = {"C0": C0, "C1": C1, "C2": C2}


# --------------------------------------------------------------- reference

class N:
    """Instance of the reference tree."""
    __slots__ = ("kind", "type", "key", "desc", "children", "el", "inst", "props", "pend", "slots", "owner", "fresh", "changed", "giver", "uid", "provided")


def key_of(d):
    return d.get("key") if d["k"] != "text" and d["k"] != "slot" else None


def rtype(d):
    if d["k"] == "text":
        return "TEXT_ELEMENT"
    if d["k"] == "tpl":
        return "template"
    return d["t"]


def cprops(d):
    """The props of a class component (without handlers)."""
    p = {k: const(v) for k, v in (d.get("p") or {}).items()}
    if d.get("key") is not None:
        p["key"] = d["key"]
    p["d"], p["prov"] = d["d"], d.get("prov") or {}
    return p


def hattrs(d):
    if d["k"] == "text":
        return {}
    p = {k: const(v) for k, v in (d.get("p") or {}).items()}
    if d.get("key") is not None:
        p["key"] = d["key"]
    return p


def events_of(d):
    return {e.lower(): hid for e, hid in (d.get("ev") or {}).items()}


def differs(a, b):
    try:
        return not (a is b or a == b) if (a is None) == (b is None) else True
    except Exception:
        return True


def childdescs(n):
    """The descriptions below an instance (uses the props that are in effect)."""
    d = n.desc
    if n.kind in ("el", "tpl"):
        return expand(d.get("c"), n.giver)
    if n.kind == "fn":
        c = d.get("c") or []
        e = expand(c, None)
        if len(e) == 1 and e[0][0]["k"] != "text":
            return e
        return [({"k": "tpl", "c": c}, None)]
    if n.kind == "cls":
        dd = n.props["d"]
        if dd["k"] in ("text", "slot"):
            return [({"k": "tpl", "c": [dd]}, n)]
        return expand([dd], n)
    return []


def expand(c, giver):
    """Resolves slots; giver: the instance whose description this is."""
    out = []
    for d in c or []:
        if d["k"] == "slot":
            slots = giver.slots
            if d["n"] in slots:
                content, g = slots[d["n"]]
                out.append(({"k": "tpl", "c": content}, g))
            else:
                out.append(({"k": "tpl", "c": d.get("c") or []}, giver))
        else:
            out.append((d, giver))
    return out


class Round:
    def __init__(self, uids):
        self.uids = uids
        self.removed = []    # instances (N) of class components that leave
        self.sets = []       # (N, attr, value)
        self.unsets = []
        self.texts = []
        self.listens = []    # (N, event, hid)
        self.unlistens = []
        self.hooks = []      # ("mounted"|"updated", N)
        self.kept_in_place = []   # N of host elements that must not be inserted or removed
        self.moved_ok = set()
        self.removed_hosts = []
        self.changed = False


def match(old, descs):
    """For each new child the index of the old child it matches."""
    res, used = [], set()
    for d, _ in descs:
        hit = None
        for i, o in enumerate(old):
            if i not in used and o.key == key_of(d):
                hit = i
                break
        if hit is not None:
            used.add(hit)
            if old[hit].type != rtype(d):
                hit = None
        res.append(hit)
    return res


def update(rd, old, descs, owner, in_place):
    """Children of one parent; returns the new instances."""
    m = match(old, descs)
    kept = [i for i in m if i is not None]
    out = []
    for (d, giver), i in zip(descs, m):
        if i is None:
            out.append(create(rd, d, giver, owner))
        else:
            stays = all((a < i) == (kept.index(a) < kept.index(i)) for a in kept if a != i)
            out.append(patch(rd, old[i], d, giver, owner, in_place and stays))
    for i, o in enumerate(old):
        if i not in kept:
            drop(rd, o)
    return out


def drop(rd, n):
    if n.kind == "cls":
        rd.removed.append(n)
    if n.kind in ("el", "text"):
        rd.removed_hosts.append(n)
    for c in n.children:
        drop(rd, c)


def setslots(n, d, giver):
    n.slots = {name: (content, giver) for name, content in (d.get("slots") or {}).items()}


def create(rd, d, giver, owner):
    n = N()
    n.kind, n.type, n.key, n.desc = d["k"], rtype(d), key_of(d), d
    n.el = n.inst = None
    n.owner, n.giver, n.fresh, n.changed = owner, giver, True, False
    n.props, n.slots, n.uid = None, {}, None
    if n.kind == "cls":
        # instances are made parents first, in document order
        n.uid = rd.uids[0]
        rd.uids[0] += 1
        n.props = cprops(d)
        setslots(n, d, giver)
    if n.kind == "el":
        for k, v in hattrs(d).items():
            if v is not None:
                rd.sets.append((n, k, v))
        for e, hid in events_of(d).items():
            rd.listens.append((n, e, hid))
        if owner is not None and (events_of(d) or any(v is not None for v in hattrs(d).values())):
            owner.changed = True
    if n.kind == "text":
        rd.texts.append((n, d["s"]))
    n.pend = n.props
    n.provided = d.get("prov") or {}
    n.children = update(rd, [], childdescs(n), n if n.kind == "cls" else owner, False)
    return n


def patch(rd, n, d, giver, owner, in_place):
    old = n.desc
    n.desc, n.giver, n.fresh, n.changed = d, giver, False, False
    n.owner = owner
    if n.kind in ("el", "text") and in_place:
        rd.kept_in_place.append(n)
    if n.kind == "text" and old["s"] != d["s"]:
        rd.texts.append((n, d["s"]))
    if n.kind == "el":
        a, b = hattrs(old), hattrs(d)
        ch = False
        for k in a:
            if k not in b:
                rd.unsets.append((n, k))
                ch = True
        for k in b:
            if differs(a.get(k), b[k]):
                rd.sets.append((n, k, b[k]))
                ch = True
        ea, eb = events_of(old), events_of(d)
        for e in ea:
            if ea[e] != eb.get(e):
                rd.unlistens.append((n, e, ea[e]))
                ch = True
        for e in eb:
            if eb[e] != ea.get(e):
                rd.listens.append((n, e, eb[e]))
                ch = True
        if ch and owner is not None:
            owner.changed = True
    if n.kind == "cls":
        new = cprops(d)
        n.pend = new
        if differs(n.props, new) or events_of(old) != events_of(d):
            n.changed = True
            rd.changed = True
        setslots(n, d, giver)
    # the class component still renders from the props it has
    n.children = update(rd, n.children, childdescs(n), n if n.kind == "cls" else owner, in_place if n.kind not in ("el",) else True)
    return n


def hooks(rd, n):
    for c in n.children:
        hooks(rd, c)
    if n.kind == "cls":
        if n.fresh:
            rd.hooks.append(("mounted", n))
        elif n.changed:
            rd.hooks.append(("updated", n))
        n.props = n.pend


def walk(n):
    yield n
    for c in n.children:
        yield from walk(c)


def hosts(nodes):
    """Top-level host instances in document order."""
    for n in nodes:
        if n.kind in ("el", "text"):
            yield n
        else:
            yield from hosts(n.children)


def rounds(tree, desc, uids):
    """Runs the update rounds of one new description; yields Round."""
    while True:
        rd = Round(uids)
        new = update(rd, tree, [(desc, None)], None, True)
        for n in new:
            hooks(rd, n)
        tree[:] = new
        yield rd
        if not rd.changed:
            return


# --------------------------------------------------------------- comparison

def show(d):
    if d is None:
        return "-"
    if isinstance(d, El):
        t = repr(d.text) if d.type == "TEXT_ELEMENT" else d.type
        a = dict(d.attrs)
        s = t + (str(a) if a else "")
        if d.listeners:
            s += "@" + ",".join(sorted(e for e, _ in d.listeners))
        return s + ("[" + " ".join(map(show, d.children)) + "]" if d.children else "")
    return repr(d)


def expected(n):
    a = {k: v for k, v in hattrs(n.desc).items()}
    t = repr(n.desc["s"]) if n.kind == "text" else n.type
    s = t + (str(a) if a else "")
    return s + ("[" + " ".join(expected(c) for c in hosts(n.children)) + "]" if n.children else "")


def bind_tree(nodes, children, where, bound):
    """Pairs reference hosts with real elements; raises Fail on a different shape."""
    hs = list(hosts(nodes))
    if len(hs) != len(children) or any(n.type != c.type for n, c in zip(hs, children)):
        raise Fail(f"tree: below {where} expected [{' '.join(expected(n) for n in hs)}] but found [{' '.join(map(show, children))}]")
    for n, c in zip(hs, children):
        bound.append((n, c))
        bind_tree(n.children, c.children, c.type, bound)


class Sim:
    """Runs one case.  `aspects`: which contracts to check."""

    def __init__(self, case, aspects):
        self.case, self.aspects = case, set(aspects)

    def fail(self, aspect, msg):
        if aspect in self.aspects:
            raise Fail(f"{aspect}: step {self.i}: {msg}")

    def run(self):
        LOG.clear(), INSTANCES.clear(), CALLED.clear()
        steps, opts = self.case["steps"], self.case.get("opts") or ()
        self.r, self.root = Rec(opts), El("ROOT", opts)
        state = reactive({"i": 0})

        def app(props):
            nodes = build(steps[state["i"]])
            return nodes[0] if not isinstance(nodes[0], str) else h("template", {}, *nodes)

        gui = Collagraph(self.r, event_loop_type=EventLoopType.SYNC)
        self.tree, uids, started, last = [], [0], False, None
        for i, step in enumerate(steps):
            self.i = i
            self.r.calls.clear()
            LOG.clear()
            self.before = list(self.nodes())
            self.listeners = {id(n): list(n.el.listeners) for n in self.before if n.kind == "el"}
            if step["k"] == "poke":
                live = [n for n in self.before if n.kind == "cls"]
                if not live:
                    continue
                INSTANCES[live[step["i"] % len(live)].uid].state["n"] += 1
                rds = list(rounds(self.tree, last, uids))
            elif step["k"] == "render":
                if not started:
                    continue
                gui.render(h(app, {}), self.root)
                rds = list(rounds(self.tree, last, uids))
            else:
                if started:
                    state["i"] = i
                else:
                    state["i"] = i
                    gui.render(h(app, {}), self.root)
                    started = True
                last = {"k": "tpl", "c": [step]} if step["k"] == "text" else step
                rds = list(rounds(self.tree, last, uids))
            bound = []
            try:
                bind_tree(self.tree, self.root.children, "the container", bound)
            except Fail as e:
                self.unbound()
                if "tree" in self.aspects:
                    raise Fail(f"{e} (step {i})")
                self.instances(rds, False)
                return None
            self.elements(bound)
            if "calls" in self.aspects:
                self.calls(rds)
            self.instances(rds, True)

    def nodes(self):
        for t in self.tree:
            yield from walk(t)

    def unbound(self):
        """The tree has another shape than expected: check what is independent of it."""
        present = []

        def rec(e):
            for c in e.children:
                present.append(c)
                rec(c)
        rec(self.root)
        for n in self.nodes():
            if n.el is not None and not any(p is n.el for p in present):
                self.fail("identity", f"an element that is matched ({n.type}) was replaced or removed")
        kept = {id(n) for n in self.nodes()}
        for n in self.before:
            if n.el is not None and id(n) not in kept and any(p is n.el for p in present):
                self.fail("identity", f"an element that is not matched any more ({n.type}) is still there")

    def elements(self, bound):
        seen = {}
        new_els = [c[1] for c in self.r.calls if c[0] == "create"]
        for n, c in bound:
            if id(c) in seen:
                self.fail("identity", "the same element stands in two places")
            seen[id(c)] = n
            fresh = n.el is None
            if not fresh and n.el is not c:
                self.fail("identity", f"expected the very same {n.type} element to be kept")
            if fresh and not any(x is c for x in new_els):
                self.fail("identity", f"the element for a new child ({n.type}) is not a fresh one")
            n.el = c
            want, have = hattrs(n.desc), c.attrs
            for k in set(want) | set(have):
                if differs(want.get(k), have.get(k)):
                    self.fail("tree", f"attribute {k} of {n.type} should be {want.get(k)!r} but is {have.get(k)!r}")
            if n.kind == "text" and c.text != n.desc["s"]:
                self.fail("tree", f"text should be {n.desc['s']!r} but is {c.text!r}")
            self.handlers(n, c, fresh)

    def handlers(self, n, c, fresh):
        aspect = "handlers" if "handlers" in self.aspects else "tree"
        want = events_of(n.desc) if n.kind == "el" else {}
        if sorted(e for e, _ in c.listeners) != sorted(want):
            self.fail(aspect, f"{n.type} should listen once to {sorted(want)} but listens to {sorted(e for e, _ in c.listeners)}")
            return
        for e, f in c.listeners:
            CALLED.clear()
            f(7)
            if CALLED != [(want[e], (7,))]:
                self.fail(aspect, f"the {e} handler of {n.type} should be {want[e]} but is {CALLED}")
        if not fresh:
            for e, f in self.listeners.get(id(n), []):
                CALLED.clear()
                f(7)
                if want.get(e) == CALLED[0][0] and not any(f is g for _, g in c.listeners):
                    self.fail("handlers", f"the equivalent {e} handler of {n.type} was replaced")

    def calls(self, rds):
        real = self.r.calls
        known = [n for n in self.before if n.el is not None]

        def cmp(name, tag, lists, width):
            want = [(n.el, *rest[: width - 1]) for l in lists for n, *rest in l if any(n is k for k in known)]
            have = [c[1 : 1 + width] for c in real if c[0] == tag and any(c[1] is k.el for k in known)]
            for w in list(want):
                for j, x in enumerate(have):
                    if x[0] is w[0] and not any(differs(p, q) for p, q in zip(x[1:], w[1:])):
                        del have[j]
                        want.pop(next(q for q, y in enumerate(want) if y is w))
                        break
            if want or have:
                self.fail("calls", f"renderer calls `{name}`: missing {[(w[0].type, *w[1:]) for w in want]}, superfluous {[(x[0].type, *x[1:]) for x in have]}")
        cmp("set_attribute", "set", [r.sets for r in rds], 3)
        cmp("remove_attribute", "unset", [r.unsets for r in rds], 2)
        cmp("set_element_text", "text", [r.texts for r in rds], 2)
        cmp("add_event_listener", "listen", [r.listens for r in rds], 2)
        cmp("remove_event_listener", "unlisten", [r.unlistens for r in rds], 2)
        for c in real:
            if c[0] in ("insert", "remove"):
                if all(any(n.el is c[1] for n in rd.kept_in_place) for rd in rds):
                    self.fail("calls", f"{c[1]} keeps its place but the renderer was asked to {c[0]} it")

    def instances(self, rds, complete):
        made = [type(c).__name__ for c in INSTANCES]
        if rds and len(INSTANCES) != rds[0].uids[0]:
            for a in ("identity", "hooks", "props", "inject"):
                self.fail(a, f"{rds[0].uids[0]} component instances should have been made so far, but found {len(INSTANCES)}")
            return
        for n in self.nodes():
            if n.kind == "cls" and made[n.uid] != n.type:
                self.fail("identity", f"instance of {n.type} expected, found {made[n.uid]}")
                return
        self.hooks(rds)
        if not complete:
            return
        for n in self.nodes():
            if n.kind == "cls":
                self.instance(n, INSTANCES[n.uid])

    def instance(self, n, c):
        want = dict(n.props)
        have = {k: v for k, v in to_raw(c.props).items() if not k.startswith("on_")}
        if differs(want, have) or any(differs(to_raw(c.props[k]), want[k]) for k in want):
            self.fail("props", f"props of {n.type} should be {want} but are {have}")
        par = INSTANCES[n.owner.uid] if n.owner is not None else None
        if c.parent is not par:
            self.fail("props", f"the parent of {n.type} is not the nearest enclosing component")
        first = next(hosts(n.children), None)
        if first is not None and c.element is not first.el:
            self.fail("props", f"the element of {n.type} should be its first element {first.el} but is {c.element}")
        if "inject" in self.aspects:
            for k in ("a", "b", "z"):
                want, o = "DEFAULT", n.owner
                while o is not None:
                    if k in o.provided:
                        want = const(o.provided[k])
                        break
                    o = o.owner
                got = c.inject(k, "DEFAULT")
                if got is not want and (got is None or want is None or got != want):
                    self.fail("inject", f"inject({k!r}) of {n.type} gave {got!r} instead of {want!r}")
        if "handlers" in self.aspects:
            want = events_of(n.desc)
            for e in ("ping", "pong", "save"):
                CALLED.clear()
                c.emit(e, 5)
                if CALLED != ([(want[e], (5,))] if e in want else []):
                    self.fail("handlers", f"emit({e!r}) of {n.type} called {CALLED}, described handlers: {want}")

    def hooks(self, rds):
        log = [e for e in LOG if e[0] != "render"]
        p = 0
        for rd in rds:
            gone = sorted(n.uid for n in rd.removed)
            got = []
            while p < len(log) and log[p][0] == "before_unmount" and len(got) < len(gone):
                got.append(log[p][1])
                if log[p][2][0] is not None and not log[p][2][1]:
                    self.fail("hooks", "before_unmount called after the element was removed")
                p += 1
            if sorted(got) != gone:
                self.fail("hooks", f"before_unmount should be called once for {gone} but was for {got}")
            for what, n in rd.hooks:
                got = log[p][:2] if p < len(log) else None
                if got != (what, n.uid):
                    self.fail("hooks", f"expected {what} of instance {n.uid} ({n.type}) next but got {got} (all: {[e[:2] for e in log]})")
                    return
                if what == "mounted" and log[p][2][0] is not None and not log[p][2][1]:
                    self.fail("hooks", "mounted called before the elements were inserted")
                p += 1
        if p != len(log):
            self.fail("hooks", f"superfluous hook calls {[e[:2] for e in log[p:]]}")

"""renderers/dict_renderer.py, dom_renderer.py, pygfx_renderer.py (C18, C19)."""
from base import *
import engine as E
from contracts.lists import DList, base_list, inserted, removed, St
UNITS = []
I = z3.IntSort()
B = z3.BoolSort()
ELT = Kind("elt", truthy="always")


class EqList(DList):
    """A list of distinct elements, of which several may be equal (`==`): searches by equality find the first equal one."""
    def find(self, x):
        S, s = E.S, self.s
        if S.choose(2, "find") == 0:
            p = S.fresh("p", I)
            S.assume(z3.And(p >= 0, p < s.n))
            S.assume(z3.Or(s.at(p) == tov(x), uf("py_eq", V, V, B)(s.at(p), tov(x))))
            S.assume(z3.Implies(s.mem(tov(x)), p <= s.pos(tov(x))))
            return p
        S.assume(z3.Not(s.mem(tov(x))))
        return None

    def __contains__(self, x):
        return self.find(x) is not None

    def index(self, x, *a):
        if a:
            raise E.Unsupported("index with bounds")
        p = self.find(x)
        if p is None:
            E.throw(ValueError("x not in list"))
        return mki(p)

    def remove(self, x):
        p = self.find(x)
        if p is None:
            E.throw(ValueError("list.remove(x): x not in list"))
        self.set(removed(self.s, p))


class RSpec(Spec):
    key_is_str = False

    def iterable(self, S, it, where):
        return it.seq() if isinstance(it, DList) else it

    def index(self, S, seq):
        return S.notes.get("I")

    def tracked(self, S, d):
        return [S.notes["K"]]


def element(S, name, **known):
    """A rendered element: a dict with the given entries and any others."""
    h, v = uf("has_" + name, V, B), uf("val_" + name, V, V)
    d = SDict(base=Base(lambda k: mkb(z3.And(h(tov(k)), z3.And([tov(k) != tov(x) for x in ("children", "attrs", "handlers", "text")]))), lambda k: SV(v(tov(k)), "any")), name=name)
    for k, x in known.items():
        if x is not None:
            d.entries.append([k, x])
    return d


def module(S):
    M = load("collagraph/renderers/dict_renderer.py",
             {"collagraph.renderers": ns(Renderer=object), "collections": ns(defaultdict=lambda f=None: SDict(factory=f))}, name="collagraph.renderers.dict_v")
    return M, M.DictRenderer.__new__(M.DictRenderer)


def others_same(S, name, d, known, K):
    """Every entry apart from the named one is as before."""
    h, v = uf("has_" + name, V, B), uf("val_" + name, V, V)
    k = K.zt__
    for x in ("children", "attrs", "handlers", "text"):
        if x in known:
            S.oblige("other_parts_of_the_element_stay", x in d and d[x] is known[x], x)
    if S.branch(z3.And([k != tov(x) for x in ("children", "attrs", "handlers", "text")])):
        S.oblige("other_entries_stay", z3.BoolVal(K in d) == h(k))
        if K in d:
            S.oblige("other_entries_stay", tov(d[K]) == v(k))


def child_list(S, d):
    c = d["children"] if "children" in d else None
    if isinstance(c, list):
        vals = [tov(x) for x in c]

        def at(t):
            r = NONE
            for q, x in enumerate(vals):
                r = z3.If(t == q, x, r)
            return r
        return c, St(z3.IntVal(len(vals)), at, None, None)
    return c, c.s if isinstance(c, DList) else None


@unit(UNITS, "dict_insert", ["C18", "C01"], ["collagraph/renderers/dict_renderer.py:DictRenderer.insert", "collagraph/renderers/dict_renderer.py:DictRenderer.index"], spec=RSpec, covers=["anchor", "end", "first child"],
      assumes=["an element stands at most once below its parent (the caller's obligation)"])
def dict_insert(S):
    """for all elements, parents and anchors: the element stands directly before the anchor (at the end without one), all other children keep
    their order, nothing else of the parent or of the element changes"""
    M, R = module(S)
    empty = S.choose(2) == 0
    L = None if empty else EqList(base_list(S, "children"), "elt")
    old = St(z3.IntVal(0), lambda t: NONE, None, None) if empty else L.s
    parent, el = element(S, "parent", children=L, attrs=SDict(), handlers=SDict()), element(S, "el", attrs=SDict())
    known = dict((k, v) for k, v in parent.entries if k != "children")
    if not empty:
        S.assume(z3.Not(old.mem(tov(el))))
    a = S.obj("anchor", "elt") if not empty and S.choose(2) else None
    if a is not None:
        S.cover("anchor")
        S.assume(old.mem(a.zt__))
        S.notes["I"] = old.pos(a.zt__)
        at = old.pos(a.zt__)
    else:
        S.cover("end" if not empty else "first child")
        at = old.n
    m0 = el.mutated
    kind, r = outcome(R.insert, el, parent, a) if a is not None or S.choose(2) else outcome(R.insert, el, parent)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    c, new = child_list(S, parent)
    S.oblige("the_parent_has_children", new is not None)
    if new is None:
        return
    t = S.fresh("t", I)
    want = z3.If(t < at, old.at(t), z3.If(t == at, tov(el), old.at(t - 1)))
    S.oblige("one_child_more", new.n == old.n + 1)
    S.oblige("directly_before_the_anchor_or_at_the_end", z3.Implies(z3.And(t >= 0, t <= old.n), new.at(t) == want))
    S.oblige("the_element_itself_is_unchanged", el.mutated == m0)
    K = SV(S.fresh("K"), "key")
    others_same(S, "parent", parent, known, K)


@unit(UNITS, "dict_remove", ["C18", "C01"], ["collagraph/renderers/dict_renderer.py:DictRenderer.remove", "collagraph/renderers/dict_renderer.py:DictRenderer.index"], spec=RSpec, covers=["removed"])
def dict_remove(S):
    """for every child: exactly that object is taken out (also when other children are equal to it), all others keep their order"""
    M, R = module(S)
    L = EqList(base_list(S, "children"), "elt")
    old = L.s
    parent, el = element(S, "parent", children=L, attrs=SDict(), handlers=SDict()), element(S, "el", attrs=SDict())
    known = dict((k, v) for k, v in parent.entries if k != "children")
    S.assume(old.mem(tov(el)))
    S.notes["I"] = p = old.pos(tov(el))
    m0 = el.mutated
    kind, r = outcome(R.remove, el, parent)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.cover("removed")
    c, new = child_list(S, parent)
    if new is None:
        raise E.Unsupported("the list of children is gone")
    t = S.fresh("t", I)
    S.oblige("one_child_less", new.n == old.n - 1)
    S.oblige("exactly_that_child_is_gone", z3.Implies(z3.And(t >= 0, t < old.n - 1), new.at(t) == z3.If(t < p, old.at(t), old.at(t + 1))))
    S.oblige("the_element_itself_is_unchanged", el.mutated == m0)
    others_same(S, "parent", parent, known, SV(S.fresh("K"), "key"))


@unit(UNITS, "dict_attributes", ["C18", "C01"], ["collagraph/renderers/dict_renderer.py:DictRenderer.set_attribute", "collagraph/renderers/dict_renderer.py:DictRenderer.remove_attribute"], spec=RSpec, covers=["set", "remove", "no attrs"])
def dict_attributes(S):
    """setting stores exactly that value under exactly that name; removing takes exactly that name away; every other attribute and part stays"""
    M, R = module(S)
    has = S.choose(2)
    attrs = sym_dict("attrs") if has else None
    kids = EqList(base_list(S, "children"), "elt")
    el = element(S, "el", children=kids, attrs=attrs, handlers=SDict())
    known = dict((k, v) for k, v in el.entries if k != "attrs")
    a, v, K = S.str("a"), S.sym("v"), S.str("K")
    h, w = uf("has_attrs", V, B), uf("val_attrs", V, V)
    setting = S.choose(2)
    kind, r = outcome(R.set_attribute, el, a, v) if setting else outcome(R.remove_attribute, el, a, v)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.cover("set" if setting else "remove")
    if not has:
        S.cover("no attrs")
    now = el["attrs"] if "attrs" in el else SDict()
    if setting:
        S.oblige("the_attribute_has_the_value", a in now)
        if a in now:
            S.oblige("the_attribute_has_the_value", tov(now[a]) == v.zt__)
    else:
        S.oblige("the_attribute_is_gone", a not in now)
    S.assume(K.t != a.t)
    S.oblige("other_attributes_stay", z3.BoolVal(K in now) == (h(tov(K)) if has else False))
    if K in now and has:
        S.oblige("other_attributes_stay", tov(now[K]) == w(tov(K)))
    S.oblige("children_stay", kids.mutated == 0)
    others_same(S, "el", el, known, SV(S.fresh("K2"), "key"))


@unit(UNITS, "dict_text", ["C18", "C01"], ["collagraph/renderers/dict_renderer.py:DictRenderer.set_element_text", "collagraph/renderers/dict_renderer.py:DictRenderer.create_element", "collagraph/renderers/dict_renderer.py:DictRenderer.create_text_element"], spec=RSpec)
def dict_text(S):
    """the text becomes exactly the given one and nothing else changes; a new element has its type, and shares nothing with another one"""
    M, R = module(S)
    kids = EqList(base_list(S, "children"), "elt")
    el = element(S, "el", children=kids, attrs=SDict(), handlers=SDict(), text=S.str("old") if S.choose(2) else None)
    known = dict((k, v) for k, v in el.entries if k != "text")
    v = S.str("v")
    kind, r = outcome(R.set_element_text, el, v)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "return":
        S.oblige("the_text_is_the_given_one", "text" in el and E.eq(el["text"], v))
        others_same(S, "el", el, known, SV(S.fresh("K2"), "key"))
    n = S.str("type")
    kind, x = outcome(R.create_element, n)
    kind2, y = outcome(R.create_element, n)
    kind3, z = outcome(R.create_text_element)
    S.oblige("never_raises", kind == kind2 == kind3 == "return")
    if kind == kind2 == kind3 == "return":
        S.oblige("has_its_type", E.eq(x["type"], n))
        S.oblige("text_elements_have_their_type", E.eq(z["type"], "TEXT_ELEMENT"))
        S.oblige("elements_are_separate", x is not y)
        vals = [id(q[1]) for q in x.entries if isinstance(q[1], (SDict, list, SSet))]
        S.oblige("elements_share_nothing", not any(id(q[1]) in vals for q in y.entries))


@unit(UNITS, "dict_fresh", ["C18", "C01"], ["collagraph/renderers/dict_renderer.py:DictRenderer.insert", "collagraph/renderers/dict_renderer.py:DictRenderer.set_attribute", "collagraph/renderers/dict_renderer.py:DictRenderer.add_event_listener"], spec=RSpec)
def dict_fresh(S):
    """the parts made for one element (children, attributes, listeners) are not those of another element"""
    M, R = module(S)
    x, y, c, d = element(S, "x"), element(S, "y"), element(S, "c"), element(S, "d")
    v = S.sym("v", "key")
    for e, k in ((x, c), (y, d)):
        for f, a in ((R.insert, (k, e)), (R.set_attribute, (e, "a", v)), (R.add_event_listener, (e, "ev", v)), (R.add_event_listener, (e, "ev2", v))):
            kind, r = outcome(f, *a)
            S.oblige("never_raises", kind == "return", repr(r))
            if kind == "raise":
                return
    for p in ("children", "attrs", "handlers"):
        S.oblige("parts_are_separate", x[p] is not y[p], p)
    S.oblige("listeners_of_events_are_separate", x["handlers"]["ev"] is not y["handlers"]["ev"] and x["handlers"]["ev"] is not x["handlers"]["ev2"])


def listeners(S):
    """Any listeners for any events."""
    h, m = uf("has_event", V, B), uf("listens", V, V, B)
    d = SDict(base=mem_base(lambda k: mkb(h(tov(k))), lambda k: SSet(base=(lambda kk: lambda x: mkb(m(kk, tov(x))))(tov(k)))), factory=E.b_set, name="handlers")
    return d, h, m


@unit(UNITS, "dict_listeners", ["C18", "C04", "C01"], ["collagraph/renderers/dict_renderer.py:DictRenderer.add_event_listener", "collagraph/renderers/dict_renderer.py:DictRenderer.remove_event_listener"], spec=RSpec,
      hooks={"dict.nonempty": lambda S, d: S.branch(S.notes["nonempty"])}, covers=["add", "remove", "none yet"])
def dict_listeners(S):
    """adding or removing a listener changes exactly that listener for exactly that event"""
    M, R = module(S)
    has = S.choose(2)
    d, h, m = listeners(S)
    kids = EqList(base_list(S, "children"), "elt")
    el = element(S, "el", children=kids, attrs=SDict(), handlers=d if has else None)
    known = dict((k, v) for k, v in el.entries if k != "handlers")
    ev, f, ev2, f2 = S.str("ev"), S.sym("f", "key"), S.str("ev2"), S.sym("f2", "key")
    S.notes["nonempty"] = ne = S.fresh("nonempty", B)
    S.assume(z3.Implies(z3.Or(h(tov(ev)), h(tov(ev2))), ne))
    listens = lambda e, g: z3.And(h(tov(e)), m(tov(e), tov(g))) if has else z3.BoolVal(False)
    adding = S.choose(2)
    if not adding:
        S.assume(listens(ev, f))
    kind, r = outcome(R.add_event_listener if adding else R.remove_event_listener, el, ev, f)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.cover("add" if adding else "remove")
    if not has:
        S.cover("none yet")
    now = el["handlers"] if "handlers" in el else SDict()
    has_now = lambda e, g: e in now and g in now[e]
    S.oblige("this_listener", has_now(ev, f) == bool(adding))
    S.assume(z3.Or(ev2.t != ev.t, f2.zt__ != f.zt__))
    S.oblige("every_other_listener_stays", z3.BoolVal(has_now(ev2, f2)) == listens(ev2, f2))
    S.oblige("children_stay", kids.mutated == 0)
    others_same(S, "el", el, known, SV(S.fresh("K2"), "key"))


# ---------------------------------------------------------------- the browser DOM
def dom_event(name, n):
    def f(S, o, *a):
        if len(a) != n:
            raise E.Unsupported(f"{name} with {len(a)} arguments")
        S.event(name, o, *a)
    return f


def insert_before(S, o, el, anchor):
    S.event("insert", o, el, None if anchor is None or S.branch(tov(anchor) == NONE) else anchor)


NODE = Kind("node", truthy="always", eq="is", methods={
    "insertBefore": insert_before, "appendChild": lambda S, o, el: S.event("insert", o, el, None), "removeChild": dom_event("remove", 1),
    "setAttribute": dom_event("set_attribute", 2), "removeAttribute": dom_event("remove_attribute", 1), "addEventListener": dom_event("add_listener", 2),
    "removeEventListener": dom_event("remove_listener", 2), "set_textContent": lambda S, o, v: S.event("text", o, v)})


def same_trace(S, name, want):
    S.oblige(name, len(S.trace) == len(want), f"calls: {[e[0] for e in S.trace]}")
    for got, exp in zip(S.trace, want):
        S.oblige(name, got[0] == exp[0] and len(got) == len(exp), f"{got[0]} instead of {exp[0]}")
        for x, y in zip(got[1:], exp[1:]):
            S.oblige(name, tov(x) == tov(y), got[0])


@unit(UNITS, "dom_renderer", ["C19"], ["collagraph/renderers/dom_renderer.py:DomRenderer"], covers=["insert", "remove"],
      assumes=["DOM API: appendChild appends, insertBefore(x, null) appends, insertBefore(x, y) inserts directly before y, setAttribute/removeAttribute/textContent/add-/removeEventListener act on their node alone"])
def dom_renderer(S):
    """every call has exactly the corresponding effect on exactly that node"""
    made = []

    def make(what):
        def f(*a):
            S.event(what, *a)
            made.append(S.obj("new", "node"))
            return made[-1]
        return f
    js = ns(window=ns(document=ns(createElement=make("create"), createTextNode=make("create_text"))))
    js.document = js.window.document
    M = load("collagraph/renderers/dom_renderer.py", {"js": js, "collagraph.renderers": ns(Renderer=object)}, name="collagraph.renderers.dom_v")
    R = M.DomRenderer.__new__(M.DomRenderer)
    p, e, a = S.obj("p", "node"), S.obj("e", "node"), S.obj("a", "node")
    name, v, f, t = S.str("name"), S.sym("v"), S.sym("f"), S.str("text")
    cases = [("insert", (e, p, a), [("insert", p, e, a)]), ("insert", (e, p), [("insert", p, e, None)]), ("insert", (e, p, None), [("insert", p, e, None)]),
             ("remove", (e, p), [("remove", p, e)]), ("set_element_text", (e, t), [("text", e, t)]), ("set_attribute", (e, name, v), [("set_attribute", e, name, v)]),
             ("remove_attribute", (e, name, v), [("remove_attribute", e, name)]), ("add_event_listener", (e, name, f), [("add_listener", e, name, f)]),
             ("remove_event_listener", (e, name, f), [("remove_listener", e, name, f)]), ("create_element", (name,), [("create", name)]), ("create_text_element", (), None)]
    m, args, want = cases[S.choose(len(cases))]
    kind, r = outcome(getattr(R, m), *args)
    S.oblige(m + "_never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.cover(m)
    if want is None:
        S.oblige("makes_a_text_node", len(S.trace) == 1 and S.trace[0][0] == "create_text")
    else:
        same_trace(S, m, want)
    if m.startswith("create"):
        S.oblige(m + "_returns_the_new_node", r is made[-1])


# ---------------------------------------------------------------- pygfx
HAS, VAL, TYPE = uf("gfx_has", V, z3.StringSort(), B), uf("gfx_val", V, z3.StringSort(), V), uf("gfx_type", V, V)
HASCOPY = uf("has_copy", V, B)


class Heap:
    """Attributes of objects: what was written so far, over unknown initial ones."""
    def __init__(self):
        self.w = []

    def get(self, o, n):
        S = E.S
        for to, nn, v in reversed(self.w):
            if S.branch(z3.And(to == tov(o), tos(nn) == tos(n))):
                return v
        if S.branch(HAS(tov(o), tos(n))):
            t = VAL(tov(o), tos(n))
            S.assume(z3.Implies(V.is_r(t), V.rv(t) >= 0))
            return SV(t, "gval")
        return E._MISSING

    def put(self, o, n, v):
        self.w.append((tov(o), n, v))


def g_copy(S, o):
    S.oblige("only_values_that_can_be_copied_are", HASCOPY(o.zt__))
    c = S.sym("copy", "gval")
    S.assume(z3.And(V.is_r(c.zt__), HASCOPY(c.zt__) == HASCOPY(o.zt__)))
    S.assume(V.rv(c.zt__) <= -1000)
    for x, _ in S.notes["copies"]:
        S.assume(c.zt__ != x.zt__)
    S.notes["copies"].append((c, o))
    return c


Kind("gval", truthy="uf", methods={"copy": g_copy}, eq="is")
Kind("gfx", truthy="always", eq="is")


def g_getattr(S, o, n, *d):
    v = S.notes["heap"].get(o, n)
    if v is E._MISSING:
        if d:
            return d[0]
        E.throw(AttributeError(str(n)))
    return v


def g_hasattr(S, o, n):
    if isinstance(n, str) and n == "copy":
        return S.branch(HASCOPY(tov(o)))
    return S.notes["heap"].get(o, n) is not E._MISSING


def g_setattr(S, o, n, v):
    S.event("setattr", o, n, v)
    S.notes["heap"].put(o, n, v)


def g_delattr(o, n):
    S = E.S
    S.event("delattr", o, n)
    if S.notes["heap"].get(o, n) is E._MISSING:
        E.throw(AttributeError(str(n)))
    S.notes["heap"].put(o, n, E._MISSING)


STEP, PNAME = uf("object_after_steps", V, z3.IntSort(), V), uf("path_name", z3.IntSort(), z3.StringSort())


class Dotted(SStr):
    """A dotted attribute name: the names of a path of any length, and the attribute itself."""
    __slots__ = ("n", "last")

    def __init__(self, S):
        super().__init__(S.str("dotted").t)
        self.n, self.last = S.int("steps", 0).t, S.str("last")


class Names:
    """What split gives: n names and the last one."""
    pyvc_sym = True

    def __init__(self, d):
        self.d = d

    def path(self):
        return SeqView(self.d.n, lambda t: mks(PNAME(t)), name="path", kind="list")

    def unpack(self, before, after):
        if (before, after) != (0, 1):
            raise E.Unsupported("parts of a path")
        return (self.path(), self.d.last)

    def __getitem__(self, i):
        if i == -1:
            return self.d.last
        if isinstance(i, slice) and i.start is None and i.stop == -1 and i.step is None:
            return self.path()
        raise E.Unsupported("parts of a path")

    def pop(self, *a):
        raise E.Unsupported("parts of a path")

    def __iter__(self):
        raise E.Unsupported("parts of a path")


def g_split(S, s, sep=None, n=-1):
    if not isinstance(s, Dotted) or sep != "." or n != -1:
        raise E.Unsupported("str.split")
    return Names(s)


class PathLoop(E.Loop):
    """Over the names of the path: after k of them the variable holds the object that the first k names lead to."""
    sym = True

    def enter(self, loc):
        S = E.S
        cur = [x for x in self.names if isinstance(loc.get(x), SV) and x not in E.TARGETS[self.where]]
        if len(cur) != 1:
            raise E.Unsupported("which variable holds the object?")
        self.cur, self.base = cur[0], tov(loc[cur[0]])
        self.last = S.choose(2, "path loop") == 1
        self.k = self.it.n if self.last else S.fresh("k", z3.IntSort())
        return self.out(self.k)

    def out(self, k):
        return tuple(SV(STEP(self.base, k), "gval") if x == self.cur else E.Opaque(x) for x in self.names)

    def leave(self, loc):
        return self.out(self.it.n)

    def __iter__(self):
        S = E.S
        if self.last:
            return
        k, o = self.k, STEP(self.base, self.k)
        S.assume(z3.And(k >= 0, k < self.it.n, HAS(o, PNAME(k)), STEP(self.base, k + 1) == VAL(o, PNAME(k))))
        for h in S.notes["holders"]:            # the path does not run through the attribute itself
            S.assume(z3.Or(o != tov(h), PNAME(k) != S.notes["attr"].t))
        S.cover("step")
        yield from self.strict(self.it.at(k))
        import sys
        r = sys._getframe(1).f_locals[self.cur]
        S.oblige("follows_the_path", tov(r) == STEP(self.base, k + 1))
        raise E.PathEnd()


def path_for(no, where, names, it):
    if isinstance(it, SeqView) and it.name == "path":
        return PathLoop(no, where, names, it)
    return E.hook_for(no, where, names, it)


GHOOKS = {"getattr": g_getattr, "hasattr": g_hasattr, "setattr": g_setattr, "str.split": g_split, "type": lambda S, x: SV(TYPE(tov(x)), "key")}


def g_module(S):
    M = load("collagraph/renderers/pygfx_renderer.py", {"pygfx": ns(WorldObject=object), "collagraph.renderers": ns(Renderer=object)}, name="collagraph.renderers.pygfx_v")
    for k, v in list(vars(M).items()):
        if not k.startswith("_") and isinstance(v, dict) and not v:
            setattr(M, k, SDict(name=k))
    M.__dict__["__builtins__"]["delattr"] = g_delattr
    S.notes["heap"], S.notes["copies"] = Heap(), []
    S.assume(z3.Not(HASCOPY(NONE)))
    return M, M.PygfxRenderer.__new__(M.PygfxRenderer)


def resolve(S, o, d):
    """The object that holds the attribute; the path exists."""
    t = STEP(tov(o), d.n)
    S.assume(STEP(tov(o), 0) == tov(o))
    S.assume(z3.And(V.is_r(t), V.rv(t) >= 0))
    return SV(t, "gval")


def origin(S, v):
    """What a value was copied from, and in how many steps."""
    n = 0
    while True:
        for c, o in S.notes["copies"]:
            if v is c:
                v, n = o, n + 1
                break
        else:
            return v, n


@unit(UNITS, "pygfx_attributes", ["C19"], ["collagraph/renderers/pygfx_renderer.py:PygfxRenderer.set_attribute", "collagraph/renderers/pygfx_renderer.py:PygfxRenderer.remove_attribute"],
      spec=RSpec, hooks=GHOOKS, covers=["existed", "did not exist", "second object", "step"], limit=60,
      assumes=["attributes of pygfx objects behave like plain attributes; .copy() returns a new, equal object"])
def pygfx_attributes(S):
    """for a path of any number of names: set, set again (on the same or another object of the class), remove: the attribute of that object is the given value after each set, and
    after the removal the value from before the first set (a copy of a copy made then, if it can be copied), or absent; nothing else is written"""
    M, R = g_module(S)
    M._pv_for = path_for
    n = Dotted(S)
    last = S.notes["attr"] = n.last
    o1 = S.obj("o1", "gfx")
    o2 = o1 if S.choose(2) else S.obj("o2", "gfx")
    if o2 is not o1:
        S.assume(o1.zt__ != o2.zt__)
        S.cover("second object")
    S.assume(TYPE(o1.zt__) == TYPE(o2.zt__))
    S.notes["K"] = n
    h1, h2 = S.notes["holders"] = resolve(S, o1, n), resolve(S, o2, n)
    if o2 is not o1:
        S.assume(h1.zt__ != h2.zt__)
    existed = S.branch(HAS(tov(h1), last.t))
    first = SV(VAL(tov(h1), last.t), "gval")
    S.assume(z3.Implies(V.is_r(first.zt__), V.rv(first.zt__) >= 0))
    S.cover("existed" if existed else "did not exist")
    v1, v2 = S.sym("v1", "gval"), S.sym("v2", "gval")
    for o, h, v in ((o1, h1, v1), (o2, h2, v2)):
        k = len(S.trace)
        kind, r = outcome(R.set_attribute, o, n, v)
        S.oblige("set_never_raises", kind == "return", repr(r))
        if kind == "raise":
            return
        ev = S.trace[k:]
        S.oblige("writes_exactly_the_attribute", len(ev) == 1 and ev[0][0] == "setattr", str([e[0] for e in ev]))
        if len(ev) == 1:
            S.oblige("writes_exactly_the_attribute", z3.And(tov(ev[0][1]) == tov(h), tos(ev[0][2]) == last.t, tov(ev[0][3]) == v.zt__))
    k = len(S.trace)
    kind, r = outcome(R.remove_attribute, o2, n, v2)
    S.oblige("remove_never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    ev = S.trace[k:]
    S.oblige("restores_exactly_the_attribute", len(ev) == 1, str([e[0] for e in ev]))
    if len(ev) != 1:
        return
    S.oblige("restores_exactly_the_attribute", z3.And(tov(ev[0][1]) == tov(h2), tos(ev[0][2]) == last.t))
    if existed:
        S.oblige("the_earlier_value_is_put_back", ev[0][0] == "setattr")
        if ev[0][0] == "setattr":
            o, steps = origin(S, ev[0][3])
            S.oblige("the_earlier_value_is_put_back", tov(o) == first.zt__)
            S.oblige("later_changes_do_not_reach_the_restored_value", z3.Implies(HASCOPY(first.zt__), z3.BoolVal(steps >= 2)))
    else:
        S.oblige("an_attribute_that_did_not_exist_is_deleted", ev[0][0] == "delattr")


GN = Kind("gnode", truthy="always", eq="is", methods={
    "add": lambda S, o, *els, before=None, **kw: S.event("insert", o, *els, before) if not kw and len(els) == 1 else S.hook("no such call"),
    "remove": dom_event("remove", 1), "add_event_handler": lambda S, o, f, *types: S.event("add_listener", o, f, *types), "remove_event_handler": lambda S, o, f, *types: S.event("remove_listener", o, f, *types)})


@unit(UNITS, "pygfx_tree", ["C19"], ["collagraph/renderers/pygfx_renderer.py:PygfxRenderer.insert", "collagraph/renderers/pygfx_renderer.py:PygfxRenderer.remove", "collagraph/renderers/pygfx_renderer.py:PygfxRenderer.add_event_listener", "collagraph/renderers/pygfx_renderer.py:PygfxRenderer.remove_event_listener"],
      assumes=["pygfx: parent.add(x, before=y) inserts x directly before y (at the end for None), parent.remove(x) removes x, add_/remove_event_handler(f, type) act on the named event alone"])
def pygfx_tree(S):
    """every call has exactly the corresponding effect on exactly that object"""
    M, R = g_module(S)
    p, e, a = S.obj("p", "gnode"), S.obj("e", "gnode"), S.obj("a", "gnode")
    name, f = S.str("name"), S.sym("f")
    cases = [("insert", (e, p, a), [("insert", p, e, a)]), ("insert", (e, p), [("insert", p, e, None)]), ("insert", (e, p, None), [("insert", p, e, None)]), ("remove", (e, p), [("remove", p, e)]),
             ("add_event_listener", (e, name, f), [("add_listener", e, f, name)]), ("remove_event_listener", (e, name, f), [("remove_listener", e, f, name)])]
    m, args, want = cases[S.choose(len(cases))]
    kind, r = outcome(getattr(R, m), *args)
    S.oblige(m + "_never_raises", kind == "return", repr(r))
    if kind == "return":
        same_trace(S, m, want)

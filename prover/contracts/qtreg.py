"""renderers/pyside_renderer.py, renderers/pyside/__init__.py, objects/qobject.py and objects/widget.py: dispatch (C20, C21), names, attributes and events (C21)."""
from base import *
import engine as E
from collections import defaultdict as _dd
UNITS = []
I = z3.IntSort()
B = z3.BoolSort()
STR = z3.StringSort()
PR = "collagraph/renderers/pyside_renderer.py"
PI = "collagraph/renderers/pyside/__init__.py"
PQ = "collagraph/renderers/pyside/objects/"
CACHE = ["functools.lru_cache(f) computes f (a name that is registered after its first use keeps its meaning)"]


def lru(*a, **k):
    """functools.lru_cache: computes the function, of hashable arguments."""
    if a and callable(a[0]):
        return lru()(a[0])

    def cached(f):
        def g(*x, **y):
            for v in (*x, *y.values()):
                if isinstance(v, (list, dict, set, SDict, SSet)) or isinstance(v, SeqView) and v.kind == "list":
                    E.throw(TypeError("unhashable type"))
            return f(*x, **y)
        return g
    return cached


# ------------------------------------------------------------------ the module under model classes
class QApplication:
    pass


class QWidget:
    pass


class QDialog(QWidget):
    pass


class QLayout:
    pass


class QObject:
    def __init__(self, *a, **k):
        pass

    def eventFilter(self, obj, event):
        E.S.event("super", obj, event)
        return "SUPER"


class NS(E.Stub):
    pass


def qns(**k):
    m = NS("PySide6.model")
    for c in (QApplication, QWidget, QDialog, QLayout, QObject):
        setattr(m, c.__name__, c)
    m.__dict__.update(k)
    return m


class Direction:
    TopToBottom = "TopToBottom"


def renderer(S, modules=None, **over):
    q = qns(QBoxLayout=type("QBoxLayout", (QLayout,), {"Direction": Direction}), Slot=slot_factory)
    P = load(PI, {"functools": ns(lru_cache=lru)}, name="pyside_i")
    M = load(PR, {"functools": ns(lru_cache=lru), "collections": ns(defaultdict=lambda f=None: SDict(factory=E.b_set if f is set or f is E.b_set else E.b_dict)),
                  "warnings": ns(warn=lambda *a, **k: None), "PySide6": ns(QtCore=q, QtGui=q, QtWidgets=q), "collagraph.types": ns(EventLoopType=ns(DEFAULT="default")),
                  "collagraph.renderers": ns(Renderer=type("Renderer", (), {})), "collagraph.renderers.pyside": P, **(modules or {})}, name="pyside_renderer_v")
    for k, v in over.items():
        setattr(M, k, v)
    return M


# ------------------------------------------------------------------ dispatch
class Probe:
    """Mixed into a model class: records what is called on the object."""
    def __init__(self, name):
        self.name, self.zt__ = name, V.r(E.S.fresh(name, I))

    def __getattr__(self, n):
        if n.startswith("__") or n in ("pyvc_sym",):
            raise AttributeError(n)
        return lambda *a, **k: (E.S.event(self.name, n, a, k), f"{self.name}.{n}()")[1]


def probe(c, name):
    return type("P" + c.__name__, (Probe, c), {})(name)


@unit(UNITS, "PySideRenderer.insert, remove", ["C20", "C21"], [PR + ":PySideRenderer.insert", PR + ":PySideRenderer.remove"], covers=["top", "dialog", "child"])
def dispatch(S):
    """a child of the application is shown (if the renderer shows elements) or closed; a dialog is given the parent, shown or hidden and deleted; every other child is inserted and removed by the
    parent's own method, with the very child and anchor"""
    M = renderer(S)
    auto = S.bool("autoshow")
    r = M.PySideRenderer(autoshow=auto) if S.choose(2) else M.PySideRenderer()
    shown = r.autoshow
    el = probe(QDialog if S.choose(2, "el") else QWidget, "el")
    parent = probe(QApplication if S.choose(2, "parent") else QWidget, "parent")
    anchor = S.sym("anchor")
    what = S.choose(3)
    kind, x = outcome(*((r.insert, el, parent, anchor) if what == 0 else (r.insert, el, parent) if what == 1 else (r.remove, el, parent)))
    S.oblige("never_raises", kind == "return", repr(x))
    if kind == "raise":
        return
    calls = [e for e in S.trace]
    on = lambda who: [(e[1], e[2], e[3]) for e in calls if e[0] == who]
    if isinstance(parent, QApplication):
        S.cover("top")
        S.oblige("the_application_is_left_alone", not on("parent"))
        names = [n for n, _, _ in on("el")]
        if what == 2:
            S.oblige("closed", names == ["close"])
        else:
            S.oblige("shown_if_wanted", z3.If(tob(shown), z3.BoolVal(names == ["show"]), z3.BoolVal(names == [])))
    elif isinstance(el, QDialog):
        S.cover("dialog")
        names = [n for n, _, _ in on("el") if n != "windowFlags"]
        S.oblige("no_place_among_the_children", not on("parent"))
        S.oblige("shown_or_deleted", sorted(names) == (["deleteLater", "hide"] if what == 2 else ["setParent", "show"]))
        if what != 2:
            S.oblige("is_given_the_parent", [a[0] is parent for n, a, k in on("el") if n == "setParent"] == [True])
    else:
        S.cover("child")
        c = on("parent")
        S.oblige("one_call", len(c) == 1 and c[0][0] == ("remove" if what == 2 else "insert") and not on("el"))
        if len(c) == 1:
            a, k = list(c[0][1]), dict(c[0][2])
            S.oblige("the_very_child", len(a) + len([x for x in k if x == "el"]) >= 1 and (a[0] if a else k["el"]) is el)
            if what != 2:
                got = k["anchor"] if "anchor" in k else a[1] if len(a) > 1 else None
                S.oblige("the_very_anchor", tov(got) == tov(anchor if what == 0 else None))


# ------------------------------------------------------------------ classes and registries
DEPTH, SUB = uf("mro_length", V, I), uf("is_subclass", V, V, B)
CLS = Kind("pyclass", truthy="always", eq="is", props={"__mro__": lambda S, o: SeqView(DEPTH(o.zt__), lambda t: SV(uf("mro_at", V, I, V)(o.zt__, t), "pyclass"), name="mro"),
                                                      "__name__": lambda S, o: mks(uf("class_name", V, STR)(o.zt__))})
FUNC = Kind("qfunc", truthy="always", eq="is")


def below(a, b):
    """a is a proper subclass of b; its mro holds that of b and itself (Python)."""
    return z3.And(SUB(a, b), a != b)


def entry(m):
    c, f = uf(f"{m}_class", I, V), uf(f"{m}_func", I, V)
    return lambda t: (SV(c(t), "pyclass"), SV(f(t), "qfunc"))


class MapList:
    """A list of (class, function), sorted by class depth (its invariant)."""
    pyvc_list = True
    pyvc_sym = True

    def __init__(self, S, name):
        self.S, self.name, self.n, self.log = S, name, S.int("n_" + name, lo=0).t, []
        self.entry = entry(name)

    def as_seq(self):
        if self.log:                # any list
            k = len(self.log)
            return SeqView(self.S.int(f"n_{self.name}_{k}", lo=0).t, entry(f"{self.name}_{k}"), name=f"{self.name}_{k}")
        return SeqView(self.n, self.entry, name=self.name)

    def append(self, x):
        self.log.append(("append", x))

    def sort(self, key=None, reverse=False):
        self.log.append(("sort", key, reverse))

    def __iter__(self):
        raise E.Unsupported("iteration outside a loop")

    def __getattr__(self, n):
        raise E.Unsupported(f"list.{n}")


MAPPINGS = {"insert": "INSERT_MAPPING", "remove": "REMOVE_MAPPING", "set_attr": "SET_ATTR_MAPPING"}


def make_register(what):
    mapping = MAPPINGS[what]

    @unit(UNITS, "PySideRenderer.register_" + what, ["C21"], [PR + ":PySideRenderer.register_" + what, PR + ":class_hierarchy"], covers=["one", "two", "decorator"],
          assumes=["list.sort(key) orders by ascending key and is stable", "the mro of a proper subclass is longer than that of its base"])
    def register(S):
        """every given class is added with the given function, and the list is sorted again by an order in which a proper subclass comes before its bases; the other lists are as before"""
        M = renderer(S)
        lists = {m: MapList(S, m) for m in MAPPINGS.values()}
        for m, l in lists.items():
            setattr(M, m, l)
        t1, t2, f = S.obj("t1", "pyclass"), S.obj("t2", "pyclass"), S.obj("f", "qfunc")
        how = S.choose(3, "form")
        reg = getattr(M.PySideRenderer, "register_" + what)
        if how == 0:
            S.cover("one")
            types = [t1]
            k, r = outcome(reg, t1, func=f)
        elif how == 1:
            S.cover("two")
            types = [t1, t2]
            k, r = outcome(reg, t1, t2, func=f)
        else:
            S.cover("decorator")
            types = [t1, t2]
            k, r = outcome(reg, t1, t2)
            S.oblige("gives_a_decorator", k == "return" and callable(r), repr(r))
            if k == "raise" or not callable(r):
                return
            k, r = outcome(r, f)
            S.oblige("decorator_returns_the_function", k == "return" and r is f)
        S.oblige("never_raises", k == "return", repr(r))
        if k == "raise":
            return
        l = lists[mapping]
        S.oblige("others_unchanged", not any(x.log for m, x in lists.items() if m != mapping))
        added = [e[1] for e in l.log if e[0] == "append"]
        S.oblige("exactly_the_given_classes", len(added) == len(types) and all(len(a) == 2 and a[0] is t and a[1] is f for a, t in zip(added, types)))
        S.oblige("sorted_at_the_end", bool(l.log) and l.log[-1][0] == "sort")
        if not l.log or l.log[-1][0] != "sort":
            return
        _, key, rev = l.log[-1]
        a, b = S.obj("a", "pyclass"), S.obj("b", "pyclass")
        S.assume(below(a.zt__, b.zt__))
        S.assume(DEPTH(a.zt__) > DEPTH(b.zt__))
        S.assume(DEPTH(b.zt__) > 0)
        S.oblige("sorted_by_a_key", key is not None)
        if key is None:
            return
        ka, kb = key((a, S.obj("fa", "qfunc"))), key((b, S.obj("fb", "qfunc")))
        S.oblige("a_subclass_comes_first", (toi(ka) > toi(kb)) if rev else (toi(ka) < toi(kb)))
    return register


for w in MAPPINGS:
    make_register(w)


class CreateSpec(Spec):
    def index(self, S, seq):
        return S.notes["I"].get(seq.name)


def q_issubclass(a, b):
    if isinstance(b, tuple):
        raise E.Unsupported("issubclass")
    return mkb(SUB(tov(a), tov(b)))


class NewType:
    """The class made by type(name, bases, attrs)."""
    def __init__(self, name, bases, attrs):
        self.name, self.bases, self.attrs, self.zt__ = name, bases, attrs, V.r(E.S.fresh("newtype", I))


def type_of(*a):
    if len(a) != 3:
        raise E.Unsupported("type()")
    t = NewType(*a)
    for o in E.S.notes["old_types"]:
        E.S.assume(t.zt__ != o)
    return t


@unit(UNITS, "PySideRenderer.create_object", ["C21"], [PR + ":PySideRenderer.create_object"], spec=CreateSpec, covers=["cached", "new", "unknown name", "registered", "not registered"],
      assumes=["contract of name_to_type (unit 'name_to_type')", "type(name, bases, attrs) makes a class with these attributes", "the registries are sorted (units 'PySideRenderer.register_*')"])
def create_object(S):
    """a name seen before gives an instance of the same class; a new name gives an instance of a new class below the Qt class of that name whose insert, remove and set_attribute are
    those registered for a base of it, where no base that is more specific is registered, and fail with NotImplementedError if none is; the class is remembered with the arguments of its base"""
    name, other = S.str("name"), S.str("other")
    O = S.obj("Orig", "pyclass")
    wrapped, defaults = sym_dict("wrapped", "pyclass"), sym_dict("defaults")
    known = S.choose(2, "known name")

    def resolve(n, *a, **k):
        S.oblige("looks_up_the_name", tov(n) == tov(name) if isinstance(n, (str, SStr)) and not a and not k else False)
        if not known:
            E.throw(TypeError("Couldn't find type"))
        return O
    made = []
    M = renderer(S, name_to_type=resolve, issubclass=q_issubclass, type=type_of, WRAPPED_TYPES=wrapped, DEFAULT_ARGS=defaults,
                 create_instance=lambda t: (made.append(t), "INSTANCE")[1])
    seqs, idx = {}, {}
    subject = list(MAPPINGS.values())[S.choose(3, "registry")] if known else None
    for m in MAPPINGS.values():
        n, e = S.int("n_" + m, lo=0).t, entry(m)
        seqs[m] = SeqView(n, e, name=m)
        if m == subject:
            idx[m] = S.fresh("I_" + m, I)
            S.assume(z3.And(idx[m] >= 0))
        setattr(M, m, seqs[m])
    S.notes["I"] = idx
    S.notes["old_types"] = [O.zt__, uf("val_wrapped", V, V)(tov(name)), uf("val_wrapped", V, V)(tov(other))]
    h0 = uf("has_wrapped", V, B)(tov(name))
    d0 = uf("has_defaults", V, B)
    before = [uf("has_wrapped", V, B)(tov(other)), uf("val_wrapped", V, V)(tov(other))]
    k, r = outcome(M.PySideRenderer.create_object, name)
    X = S.sym("x", "pyclass")
    if S.branch(h0):
        S.cover("cached")
        S.oblige("same_class_as_before", k == "return" and r == "INSTANCE" and len(made) == 1 and made[0] is not None)
        if k == "return" and len(made) == 1:
            S.oblige("the_remembered_class", tov(made[0]) == uf("val_wrapped", V, V)(tov(name)))
        S.oblige("nothing_changes", wrapped.mutated == 0 and defaults.mutated == 0)
        return
    if not known:
        S.cover("unknown name")
        S.oblige("TypeError", k == "raise" and isinstance(r, TypeError))
        S.oblige("nothing_changes", wrapped.mutated == 0 and defaults.mutated == 0)
        return
    S.cover("new")
    S.oblige("returns", k == "return" and r == "INSTANCE" and len(made) == 1, repr(r))
    if k != "return" or len(made) != 1:
        return
    T = made[0]
    S.oblige("a_new_class", isinstance(T, NewType))
    if not isinstance(T, NewType):
        return
    S.oblige("named_so", tov(T.name) == tov(name))
    S.oblige("below_the_type", len(T.bases) == 1 and T.bases[0] is O)
    S.oblige("remembered", wrapped.get(name) is T)
    ow = wrapped.get(other) if other in wrapped else None
    if not S.branch(tov(other) == tov(name)):
        S.oblige("others_as_before", z3.And(z3.BoolVal(ow is not None) == before[0], z3.Implies(before[0], tov(ow) == before[1])))
    has, val = d0(tov(O)), uf("val_defaults", V, V)(tov(O))
    got = defaults.get(T)
    S.oblige("arguments_of_its_base", z3.Implies(has, tov(got) == val) if got is not None and is_sym(got) else z3.And(z3.Not(has), z3.BoolVal(isinstance(got, tuple) and len(got) == 2 and got[0] == () and isinstance(got[1], SDict) and got[1].concrete and not got[1].entries)))
    attrs = T.attrs
    exits = {s.name: j for s, j in S.notes.get("exit", [])}
    want = {"insert": "INSERT_MAPPING", "remove": "REMOVE_MAPPING", "set_attribute": "SET_ATTR_MAPPING"}
    S.oblige("exactly_three_methods", len(attrs.entries) == 3 and all(n in attrs for n in want))
    for n, m in want.items():
        f = attrs.get(n)
        if m != subject:
            continue
        e, i, ln = seqs[m].elem, idx[m], seqs[m].n
        ci = tov(e(i)[0])
        inside = z3.And(i >= 0, i < ln, SUB(tov(O), ci))
        if f is M.not_implemented:
            S.cover("not registered")
            S.oblige(n + "_only_if_no_base_is_registered", z3.Not(inside))
            continue
        S.cover("registered")
        j = exits.get(m)
        S.oblige(n + "_is_registered", j is not None)
        if j is None:
            continue
        cj, fj = (tov(x) for x in e(j))
        S.oblige(n + "_of_a_base", z3.And(j >= 0, j < ln, SUB(tov(O), cj), tov(f) == fj))
        # the registry is sorted: no later class is below an earlier one
        S.assume(z3.Implies(z3.And(j < i, i < ln), z3.Not(below(ci, cj))))
        S.oblige(n + "_is_the_most_specific", z3.Not(z3.And(inside, below(ci, cj))))


@unit(UNITS, "create_instance, not_implemented", ["C21"], [PR + ":create_instance", PR + ":not_implemented"], covers=["default arguments", "none"])
def create_instance(S):
    """the instance is made with the default arguments of its class; a method without registration raises NotImplementedError"""
    d = SDict()
    M = renderer(S, DEFAULT_ARGS=d)
    calls = []

    class T:
        def __new__(cls, *a, **k):
            calls.append((a, k))
            return "INSTANCE"
    x, y = S.sym("x"), S.sym("y")
    given = S.choose(2)
    if given:
        S.cover("default arguments")
        d[T] = ((x,), {"kw": y})
    else:
        S.cover("none")
        d["other"] = ((x,), {"kw": y})
    k, r = outcome(M.create_instance, T)
    S.oblige("the_instance", k == "return" and r == "INSTANCE" and len(calls) == 1, repr(r))
    if len(calls) == 1:
        S.oblige("default_arguments", calls[0] == ((x,), {"kw": y}) and calls[0][0][0] is x if given else calls[0] == ((), {}))
    k, r = outcome(M.not_implemented, object(), x, anchor=y)
    S.oblige("NotImplementedError", k == "raise" and isinstance(r, NotImplementedError))


# ------------------------------------------------------------------ names
NORM = uf("normalized_name", STR, STR)


def make_name_register(what, mapping, base):
    @unit(UNITS, "PySideRenderer.register_" + what, ["C21"], [PR + ":PySideRenderer.register_" + what], covers=["accepted", "refused", "decorator"],
          assumes=["contract of normalize_name (unit 'name functions')"])
    def register(S):
        """the type is entered under the normalized name, everything else is as before; a type that is not below the Qt base class is refused with TypeError and nothing changes"""
        d, o = sym_dict("types"), sym_dict("others")
        M = renderer(S, normalize_name=lambda n: mks(NORM(tos(n))))
        setattr(M, mapping, d)
        setattr(M, "LAYOUT_MAPPING" if mapping == "TYPE_MAPPING" else "TYPE_MAPPING", o)
        name, other = S.str("name"), S.str("other")
        good = S.choose(2)
        typ = type("Custom", (base,), {}) if good else type("Custom", (), {})
        deco = S.choose(2)
        f = getattr(M.PySideRenderer, "register_" + what)
        if deco:
            k, r = outcome(f, name)
            S.oblige("gives_a_decorator", k == "return" and callable(r), repr(r))
            if k == "raise" or not callable(r):
                return
            k, r = outcome(r, typ)
        else:
            k, r = outcome(f, name, typ)
        has, val = uf("has_types", V, B)(tov(other)), uf("val_types", V, V)(tov(other))
        S.oblige("other_registry_as_before", o.mutated == 0)
        if not good:
            S.cover("refused")
            S.oblige("TypeError", k == "raise" and isinstance(r, TypeError))
            S.oblige("nothing_changes", d.mutated == 0)
            return
        S.cover("accepted")
        S.oblige("returns", k == "return", repr(r))
        if deco:
            S.cover("decorator")
            S.oblige("decorator_returns_the_class", r is typ)
        same = tov(other) == tov(mks(NORM(tos(name))))
        now = d.get(other) if other in d else None
        if S.branch(same):
            S.oblige("entered", now is typ)
        else:
            S.oblige("others_as_before", z3.And(z3.BoolVal(now is not None) == has, z3.Implies(has, tov(now) == val)))
    return register


make_name_register("element", "TYPE_MAPPING", QWidget)
make_name_register("layout", "LAYOUT_MAPPING", QLayout)


@unit(UNITS, "name_to_type of registered names", ["C21"], [PR + ":name_to_type"], covers=["element", "layout"], assumes=["contract of normalize_name (unit 'name functions')"] + CACHE)
def registered_names(S):
    """a name whose normal form is registered gives the registered type, or else the registered layout"""
    t, l = sym_dict("types"), sym_dict("layouts")
    M = renderer(S, normalize_name=lambda n: mks(NORM(tos(n))), TYPE_MAPPING=t, LAYOUT_MAPPING=l)
    name = S.str("name")
    key = tov(mks(NORM(name.t)))
    ht, hl = uf("has_types", V, B)(key), uf("has_layouts", V, B)(key)
    S.assume(z3.Or(ht, hl))
    k, r = outcome(M.name_to_type, name)
    S.oblige("returns", k == "return", repr(r))
    if k == "raise":
        return
    S.cover("element" if S.branch(ht) else "layout")
    S.oblige("the_registered_type", tov(r) == z3.If(ht, uf("val_types", V, V)(key), uf("val_layouts", V, V)(key)))
    S.oblige("nothing_changes", t.mutated == 0 and l.mutated == 0)


def qt_modules():
    class Policy:
        Fixed = "F"
    class Box:
        class Direction:
            TopToBottom = "T"
    a, b, c = (ns(), ns(), ns())
    a.__dict__.update(QLabel="QLabel!", QBoxLayout=Box, qtest="lower", QTest="upper", Both="a")
    b.__dict__.update(QAction="QAction!", Both="b", BOTH="B")
    c.__dict__.update(QObject="QObject!", only="c", Qt=ns(AlignLeft="align", Both="qt"))
    return a, b, c


def find(name, modules):
    """The attribute of the first module that has one of that name, by letter case first."""
    head, *rest = name.split(".")
    for m in modules:
        x = getattr(m, head, None)
        if x is None:
            same = [d for d in dir(m) if d.lower() == head.lower()]
            x = [getattr(m, d) for d in same] or None
        else:
            x = [x]
        if x:
            if not rest:
                return x
            return [z for y in x for z in find(".".join(rest), [y]) or []] or None
    return None


@unit(UNITS, "name_to_type of Qt names", ["C21"], [PR + ":name_to_type"], bounded="28 names over 4 modules, with the nested names of up to 3 parts", covers=["found", "missing"], assumes=CACHE)
def qt_names(S):
    """a name that is not registered gives the class of that name in QtWidgets, QtGui, QtCore or Qt (in this order; letter case decides only if there are two), TypeError if there is none"""
    a, b, c = qt_modules()
    M = renderer(S, TYPE_MAPPING=SDict([("direction", "registered!")]), LAYOUT_MAPPING=SDict([("toptobottom", "registered!")]), QtWidgets=a, QtGui=b, QtCore=c)
    names = ["QLabel", "qlabel", "QLABEL", "QAction", "qaction", "QObject", "qobject", "AlignLeft", "alignleft", "Both", "both", "BOTH", "only", "Only", "QBoxLayout.Direction", "qboxlayout.direction",
             "QBoxLayout.Direction.TopToBottom", "qboxlayout.DIRECTION.toptobottom", "QBoxLayout.Nope", "QBoxLayout.Direction.Nope", "nope", "Nope.Direction", "QTest", "qtest", "qTest", "Q", "q-label", "Qt.AlignLeft"]
    n = names[S.choose(len(names), "name")]
    want = find(n, [a, b, c, c.Qt])
    k, r = outcome(M.name_to_type, n)
    if want:
        S.cover("found")
        S.oblige("the_class_of_that_name", k == "return" and any(r is w for w in want), f"{n}: {r!r}")
    else:
        S.cover("missing")
        S.oblige("TypeError", k == "raise" and isinstance(r, TypeError), f"{n}: {r!r}")


class Parts(SeqView):
    """s.split(sep): one part or more."""
    def __init__(self, s, sep):
        S = E.S
        self.s, self.sep = tos(s), tos(sep)
        n = uf("part_count", STR, STR, I)(self.s, self.sep)
        S.assume(n >= 1)
        super().__init__(n, lambda t: mks(PART(self.s, self.sep, t)), name="parts", kind="list")

    def unpack(self, before, after):
        if after or before != 1:
            raise E.Unsupported("unpacking of parts")
        return (self.at(z3.IntVal(0)), SeqView(z3.simplify(self.n - 1), lambda t: self.at(z3.simplify(t + 1)), name="rest", kind="list"))


PART = uf("part_of", STR, STR, I, STR)


class Cat:
    """A string that is joined from the items of a sequence."""
    pyvc_sym = True

    def __init__(self, sep, seq):
        self.sep, self.seq = sep, seq

    def more(self, o, front):
        if not isinstance(o, (str, SStr)) or self.sep != "":
            raise E.Unsupported("parts of a string")
        return Cat("", self.seq.concat(type(self.seq.concat([], True)) and ([o] if self.seq.kind == "list" else (o,)), front))

    def __add__(self, o):
        return self.more(o, False)

    def __radd__(self, o):
        return self.more(o, True)


def join_seq(S, sep, x):
    if isinstance(x, E.SGen) and x.cond is None and isinstance(x.it, SeqView):
        x = SeqView(x.it.n, lambda t, g=x: g.f(g.it.at(t)), name="gen", kind="list")
    if not isinstance(x, SeqView):
        raise E.Unsupported("join")
    return Cat(sep, x)


def seq_slice(S, q, i):
    if (i.start, i.stop, i.step) != (1, None, None):
        raise E.Unsupported("slice")
    if not S.branch(q.n > 0):
        return q
    return SeqView(z3.simplify(q.n - 1), lambda t: q.at(z3.simplify(t + 1)), name="rest", kind=q.kind)


STRH = {"str.split": lambda S, s, *a: Parts(s, a[0]) if len(a) == 1 else (_ for _ in ()).throw(E.Unsupported("split")), "str.join": join_seq, "seq.slice": seq_slice}


@unit(UNITS, "camel_case", ["C21"], [PI + ":camel_case"], hooks=STRH, covers=["first", "others"], assumes=["str.split, join and capitalize"])
def camel_case(S):
    """for any name of any number of parts: the parts one after the other, each capitalized, but for the first one unless upper"""
    P = load(PI, {"functools": ns(lru_cache=lru)}, name="pyside_i4")
    e, sep, i = S.str("event"), S.str("split"), S.fresh("i", I)
    S.assume(z3.Length(sep.t) > 0)
    way = S.choose(2, "upper given")
    up = S.bool("upper") if way else False
    k, r = outcome(P.camel_case, e, sep, **({"upper": up} if way else {}))
    S.oblige("returns", k == "return", repr(r))
    if k == "raise":
        return
    if not isinstance(r, Cat):
        raise E.Unsupported("not a joined string")
    n = uf("part_count", STR, STR, I)(e.t, sep.t)
    S.assume(z3.And(i >= 0, i < n))
    S.oblige("nothing_in_between", r.sep == "")
    S.oblige("one_piece_per_part", r.seq.n == n)
    S.cover("first" if S.branch(i == 0) else "others")
    p, cap = PART(e.t, sep.t, i), uf("str_capitalize", STR, STR)
    want = z3.If(z3.And(i == 0, z3.Not(tob(up))), p, cap(p))
    S.oblige("each_part_capitalized_but_the_first", tos(r.seq.at(i)) == want)


@unit(UNITS, "attr_name_to_method_name", ["C21"], [PI + ":attr_name_to_method_name"], covers=["dash", "underscore", "setter", "getter"], assumes=["contract of camel_case (unit 'camel_case')"] + CACHE)
def attr_to_method(S):
    """for any name: the camel case of the name, with set in front for the setter; the parts are separated by underscores if there are any, or else by dashes"""
    P = load(PI, {"functools": ns(lru_cache=lru)}, name="pyside_i5")
    calls, res = [], S.sym("camel")

    def cc(event, split, upper=False):
        calls.append((event, split, upper))
        return res
    P.camel_case = cc
    name, st = S.str("name"), S.bool("setter")
    way = S.choose(2, "setter given")
    k, r = outcome(P.attr_name_to_method_name, name, **({"setter": st} if way else {}))
    S.oblige("returns", k == "return", repr(r))
    if k == "raise":
        return
    S.oblige("the_camel_case", r is res and len(calls) == 1 and bool(S.check_always(z3.Not(tob(calls[0][2])))))
    if len(calls) != 1:
        return
    us = S.branch(z3.Contains(name.t, z3.StringVal("_")))
    put = way and S.branch(tob(st))
    S.cover("underscore" if us else "dash")
    S.cover("setter" if put else "getter")
    sep = z3.StringVal("_" if us else "-")
    S.oblige("split_at_its_separator", tos(calls[0][1]) == sep)
    S.oblige("of_the_name", tos(calls[0][0]) == (z3.Concat(z3.StringVal("set"), sep, name.t) if put else name.t))


class CharMap:
    """A string that is made from another one character by character: what becomes of an arbitrary character."""
    pyvc_sym = True

    def __init__(self, t):
        self.t = t

    def lower(self):
        return CharMap(z3.simplify(z3.If(z3.Length(self.t) == 0, self.t, uf("str_lower", STR, STR)(self.t))))

    casefold = lower

    def replace(self, a, b, *n):
        if n or not (isinstance(a, str) and len(a) == 1 and isinstance(b, str) and len(b) < 2):
            raise E.Unsupported("replace")
        return CharMap(z3.If(self.t == z3.StringVal(a), z3.StringVal(b), self.t))

    def __getattr__(self, n):
        raise E.Unsupported("str." + n)


@unit(UNITS, "normalize_name", ["C21"], [PR + ":normalize_name"], covers=["dropped", "kept"],
      assumes=["str.lower and str.replace (of a character) work character by character; str.lower leaves - and _ alone and makes them of nothing else"])
def normalize(S):
    """for any name, at any of its characters: dashes and underscores are dropped, every other one is there in lower case"""
    M = renderer(S)
    c = S.str("c")
    low = uf("str_lower", STR, STR)
    S.assume(z3.Length(c.t) == 1)
    for x in "-_":
        S.assume((low(c.t) == z3.StringVal(x)) == (c.t == z3.StringVal(x)))
    S.assume(z3.Length(low(c.t)) > 0)
    S.assume(low(low(c.t)) == low(c.t))
    k, r = outcome(M.normalize_name, CharMap(c.t))
    S.oblige("returns", k == "return", repr(r))
    if k == "raise":
        return
    if not isinstance(r, CharMap):
        raise E.Unsupported("not made character by character")
    drop = z3.Or(c.t == z3.StringVal("-"), c.t == z3.StringVal("_"))
    S.cover("dropped" if S.branch(drop) else "kept")
    S.oblige("dropped_or_in_lower_case", r.t == z3.If(drop, z3.StringVal(""), low(c.t)))


class ScanLoop(E.ProjLoop):
    """A search: no iteration that completes changes a variable that was there before (checked), so each one begins with the variables from before the loop."""
    def enter(self, loc):
        self.before = {k: loc[k] for k in self.names if k in loc and not isinstance(loc[k], E.Opaque)}
        return tuple(self.before[k] if k in self.before else E.Opaque(f"{k} unbound") for k in self.names)

    def leave(self, loc):
        self.same(loc)
        return tuple(self.before[k] if k in self.before else E.Opaque(f"{k} after the loop") for k in self.names)

    def same(self, loc):
        for k, v in self.before.items():
            if loc.get(k) is not v:
                raise E.Unsupported("a variable that changes in a search")

    def forget(self, f):
        self.same(f.f_locals)


class Dir(SeqView):
    """dir(module): names of attributes of it."""
    def __init__(self, m):
        self.m = m
        super().__init__(m.n, lambda t: (E.S.assume(m.has(m.names(t))), mks(m.names(t)))[1], name="dir", kind="list")

    def loop(self, n, where, names):
        return ScanLoop(n, where, names, E.SeqProj(self))


class ModSpec(Spec):
    def index(self, S, seq):
        return seq.m.i if isinstance(seq, Dir) else None


class Module:
    """A module or class with any attributes."""
    pyvc_sym = True

    def __init__(self, name):
        S = E.S
        self.name, self.n, self.i, self.zt__ = name, S.fresh(f"n_{name}", I), S.fresh(f"i_{name}", I), V.r(S.fresh(name, I))
        self.names, self.has, self.val = uf(f"dir_{name}", I, STR), uf(f"has_attr_{name}", STR, B), uf(f"attr_{name}", STR, V)
        S.assume(self.n >= 0)

    def get(self, n, *d):
        if E.S.branch(self.has(tos(n))):
            return some(self.val(tos(n)), "qmember")
        if d:
            return d[0]
        E.throw(AttributeError("no such attribute"))


def mod_getattr(S, m, n, *d):
    if not isinstance(m, Module):
        raise E.Unsupported("getattr")
    return m.get(n, *d)


def mod_dir(m):
    if not isinstance(m, Module):
        raise E.Unsupported("dir")
    return Dir(m)


@unit(UNITS, "name_to_type of any name", ["C21"], [PR + ":name_to_type"], spec=ModSpec, hooks=dict(STRH, getattr=mod_getattr), covers=["exact", "other case", "nested", "missing", "inside a class"],
      assumes=["contracts of normalize_name and name_to_type (by induction on the number of parts)", "dir(x) lists attributes of x", "str.split and join", "getattr of a Qt module is not None"] + CACHE)
def any_name(S):
    """for any name that is not registered: the first of QtWidgets, QtGui, QtCore and Qt with an attribute of that name, or else one that differs in letter case alone, gives the class;
    what follows a dot is looked up, in the same way, in that class alone and never in a registry; without any: TypeError"""
    low = uf("str_lower", STR, STR)
    inside = S.choose(2, "modules given")
    ms = [Module(x) for x in (("klass",) if inside else ("widgets", "gui", "core", "qt"))]
    for m in ms:
        m.dir = lambda m=m: Dir(m)
    rec, res = [], S.sym("nested")
    t, l = sym_dict("types"), sym_dict("layouts")
    q = (ms * 4)[:4]
    q[2].Qt = q[3]
    M = renderer(S, normalize_name=lambda n: mks(NORM(tos(n))), TYPE_MAPPING=t, LAYOUT_MAPPING=l, QtWidgets=q[0], QtGui=q[1], QtCore=q[2], dir=mod_dir)
    name = S.str("name")
    key = tov(mks(NORM(name.t)))
    if not inside:
        S.assume(z3.Not(z3.Or(uf("has_types", V, B)(key), uf("has_layouts", V, B)(key))))
    real = M.name_to_type

    @lru()
    def again(name, modules=None, orig=None):
        rec.append((name, modules))
        return res
    M.name_to_type = again
    if inside:
        S.cover("inside a class")
        k, r = outcome(real, name, modules=(ms[0],), orig=S.str("orig"))
    else:
        k, r = outcome(real, name)
    n, head = uf("part_count", STR, STR, I)(name.t, z3.StringVal(".")), PART(name.t, z3.StringVal("."), z3.IntVal(0))
    exits = {s.m.name: j for s, j in S.notes.get("exit", []) if isinstance(s, Dir)}
    same = lambda m, i: z3.And(i >= 0, i < m.n, low(m.names(i)) == low(head))
    many = S.branch(n > 1)
    if k == "raise":
        S.cover("missing")
        S.oblige("TypeError", isinstance(r, TypeError) and "unhashable" not in str(r) and not rec, repr(r))
        for m in ms:
            S.oblige("only_if_there_is_none", z3.Not(z3.Or(m.has(head), same(m, m.i))))
        return
    if many:
        S.cover("nested")
        S.oblige("looks_into_the_class", r is res and len(rec) == 1 and isinstance(rec[0][0], Cat) and isinstance(rec[0][1], (tuple, frozenset)) and len(rec[0][1]) == 1)
        if not (rec and isinstance(rec[0][0], Cat) and rec[0][1]):
            return
        c = rec[0][0]
        S.oblige("for_the_other_parts", z3.And(z3.BoolVal(c.sep == "."), c.seq.n == n - 1))
        u = S.fresh("u", I)
        S.assume(z3.And(u >= 0, u < n - 1))
        S.oblige("for_each_other_part", tos(c.seq.at(u)) == PART(name.t, z3.StringVal("."), u + 1))
        r = list(rec[0][1])[0]
    else:
        S.oblige("no_nested_lookup", not rec)
    # the first module that has it
    hit = z3.BoolVal(False)
    for m in ms:
        j = exits.get(m.name)
        here = z3.BoolVal(False)
        if j is not None:
            here = z3.And(z3.Not(m.has(head)), same(m, j), tov(r) == m.val(m.names(j)), z3.Not(z3.And(m.i < j, same(m, m.i))))
        here = z3.Or(z3.And(m.has(head), tov(r) == m.val(head)), here)
        prior = [z3.Not(z3.Or(o.has(head), same(o, o.i))) for o in ms[:ms.index(m)]]
        hit = z3.Or(hit, z3.And(here, *prior))
    S.cover("other case" if exits else "exact")
    S.oblige("the_first_with_that_name", hit)


ALPHA = ["", "a", "B", "cd", "Ef", "-", "_", "--", "1"]


@unit(UNITS, "name functions", ["C21"], [PR + ":normalize_name", PI + ":camel_case", PI + ":attr_name_to_method_name"], bounded="names of up to 3 (event names) or 4 pieces out of 9", covers=["names"])
def name_functions(S):
    """normalize_name drops case, dashes and underscores; camel_case joins the parts, capitalized but for the first (unless upper); the method of an attribute is its name in camel case, with
    set in front for the setter"""
    import itertools
    M = renderer(S)
    P = load(PI, {"functools": ns(lru_cache=lru)}, name="pyside_i2")
    S.cover("names")
    names = sorted({"".join(x) for n in range(5) for x in itertools.product(ALPHA, repeat=n)})
    bad = []
    cap = lambda s: s[:1].upper() + s[1:].lower()
    for n in names:
        if M.normalize_name(n) != "".join(c.lower() for c in n if c not in "-_"):
            bad.append(n)
    S.oblige("normalize_name", not bad, str(bad[:3]))
    bad = []
    for n in names:
        sep = "_" if "_" in n else "-"
        ps = n.split(sep)
        get, put = "".join([ps[0]] + [cap(p) for p in ps[1:]]), "set" + "".join(cap(p) for p in ps)
        if P.attr_name_to_method_name(n) != get or P.attr_name_to_method_name(n, setter=False) != get or P.attr_name_to_method_name(n, setter=True) != put:
            bad.append(n)
    S.oblige("attr_name_to_method_name", not bad, str(bad[:3]))
    bad = []
    for n in names:
        for up in (False, True):
            ps = n.split("_")
            if P.camel_case(n, "_", upper=up) != "".join([cap(ps[0]) if up else ps[0]] + [cap(p) for p in ps[1:]]):
                bad.append(n)
    S.oblige("camel_case", not bad, str(bad[:3]))


# ------------------------------------------------------------------ attributes
PROP_INDEX, PROP_AT, PROP_READ, METHOD = uf("indexOfProperty", STR, I), uf("property_at", I, V), uf("property_read", V, V), uf("method_name", STR, B, STR)
HASATTR, ATTR = uf("el_has", STR, B), uf("el_attr", STR, V)


def some(t, kind):
    """An object (not None)."""
    E.S.assume(V.is_r(t))
    return SV(t, kind)


def el_set_attribute(S, o, *a):
    S.event("set", *a)


EL = Kind("qel", truthy="always", eq="is", methods={
    "metaObject": lambda S, o: SV(V.r(z3.IntVal(7)), "metaobject"), "set_attribute": el_set_attribute,
})
Kind("metaobject", truthy="always", eq="is", methods={"indexOfProperty": lambda S, o, n: mki(PROP_INDEX(tos(n))), "property": lambda S, o, i: some(PROP_AT(toi(i)), "metaproperty")})
MP = Kind("metaproperty", truthy="always", eq="is", methods={
    "read": lambda S, o, e: (S.event("read", o, e), SV(PROP_READ(o.zt__), "any"))[1],
    "write": lambda S, o, e, v: (S.event("write", o, e, v), True)[1]})
DEF_P, DEF_V = uf("default_property", V, V), uf("default_value", V, V)


class Pair:
    """The entry of an attribute: (property, default)."""


def defaults_dict(S):
    h = uf("has_default", V, B)

    def strkey(k):
        if not isinstance(k, (str, SStr)):
            raise E.Unsupported("key of DEFAULT_VALUES")
        return tov(k)
    return SDict(base=Base(lambda k: mkb(h(strkey(k))), lambda k: (some(DEF_P(strkey(k)), "metaproperty"), SV(DEF_V(strkey(k)), "any"))), name="DEFAULT_VALUES")


def q_hasattr(S, o, n):
    return mkb(HASATTR(tos(n)))


def q_getattr(S, o, n, *d):
    if bool(q_hasattr(S, o, n)):
        return SV(ATTR(tos(n)), "qmember")
    if d:
        return d[0]
    E.throw(AttributeError(str(n)))


def q_type(S, o):
    return some(uf("type_of", V, V)(o.zt__), "pyclass")


def q_setattr(S, o, n, v):
    S.event("setattr", o, n, v)


Kind("qmember", truthy="uf", eq="uf", call=lambda S, o, *a, **k: S.event("method", o, a, k))
QH = {"hasattr": q_hasattr, "getattr": q_getattr, "type": q_type, "setattr": q_setattr, "delattr": lambda S, o, n: S.event("delattr", o, n)}
QA = ["Qt: indexOfProperty is negative exactly without a property of that name; read gives the current value, write sets it"]


def key_of(el, attr):
    return z3.Concat(uf("class_name", V, STR)(uf("type_of", V, V)(el.zt__)), z3.StringVal("."), tos(attr))


def custom(S):
    h = uf("has_custom", V, B)
    return SDict(base=Base(lambda k: mkb(h(tov(k))), lambda k: some(uf("val_custom", V, V)(tov(k)), "qcustom")), name="CUSTOM_ATTRIBUTES")


Kind("qcustom", truthy="always", eq="is", call=lambda S, o, *a: S.event("custom", o, *a))


@unit(UNITS, "PySideRenderer.set_attribute", ["C21"], [PR + ":PySideRenderer.set_attribute"], hooks=QH, covers=["first", "again", "custom", "own"], assumes=QA)
def set_attribute(S):
    """the value that the Qt property has before the attribute is first set on an element of that name is kept, and only then; the attribute is then set once: by the method registered for
    attributes of this name, or else by the element's own method"""
    d, c = defaults_dict(S), custom(S)
    M = renderer(S, DEFAULT_VALUES=d, CUSTOM_ATTRIBUTES=c, attr_name_to_method_name=lambda n, setter=False: mks(METHOD(tos(n), tob(setter))))
    el, attr, val, other = S.obj("el", "qel"), S.str("attr"), S.sym("value"), S.str("other")
    r = M.PySideRenderer()
    key = key_of(el, attr)
    kv = tov(mks(key))
    h0 = uf("has_default", V, B)
    k, x = outcome(r.set_attribute, el, attr, val)
    S.oblige("returns", k == "return", repr(x))
    if k == "raise":
        return
    idx = PROP_INDEX(METHOD(attr.t, z3.BoolVal(False)))
    isprop = z3.And(HASATTR(z3.StringVal("metaObject")), idx >= 0)
    sets = [e for e in S.trace if e[0] in ("set", "custom")]
    S.oblige("set_exactly_once", len(sets) == 1)
    if len(sets) == 1:
        e = sets[0]
        hc = uf("has_custom", V, B)(tov(attr))
        if S.branch(hc):
            S.cover("custom")
            S.oblige("by_the_registered_method", z3.And(tov(e[1]) == uf("val_custom", V, V)(tov(attr)), tov(e[2]) == tov(el), tov(e[3]) == tov(attr), tov(e[4]) == tov(val)) if e[0] == "custom" else False)
        else:
            S.cover("own")
            S.oblige("by_its_own_method", z3.And(tov(e[1]) == tov(attr), tov(e[2]) == tov(val)) if e[0] == "set" and len(e) == 3 else False)
        S.oblige("the_default_is_read_before", not any(e2[0] == "read" for e2 in S.trace[S.trace.index(e):]))
    # the defaults at this key and at any other
    ok = mks(other.t)
    now = d.get(other) if other in d else None
    if S.branch(other.t == key):
        want = z3.Or(h0(kv), isprop)
        S.cover("again" if S.branch(h0(kv)) else "first")
        S.oblige("kept_if_it_is_a_property", z3.BoolVal(now is not None) == want)
        if now is not None:
            p, v = now
            S.oblige("the_value_from_before_the_first_time", z3.And(tov(p) == z3.If(h0(kv), DEF_P(kv), PROP_AT(idx)), tov(v) == z3.If(h0(kv), DEF_V(kv), PROP_READ(PROP_AT(idx)))))
    else:
        S.oblige("other_defaults_as_before", z3.BoolVal(now is not None) == h0(tov(ok)))
        if now is not None:
            S.oblige("other_values_as_before", z3.And(tov(now[0]) == DEF_P(tov(ok)), tov(now[1]) == DEF_V(tov(ok))))


@unit(UNITS, "PySideRenderer.remove_attribute", ["C21"], [PR + ":PySideRenderer.remove_attribute"], hooks=QH, covers=["stored", "default", "neither"], assumes=QA)
def remove_attribute(S):
    """a stored attribute with that value is deleted; else the default that was kept is written to the property; nothing else changes; without either: NotImplementedError"""
    d = defaults_dict(S)
    M = renderer(S, DEFAULT_VALUES=d, delattr=lambda o, n: S.hook("delattr", o, n), CUSTOM_ATTRIBUTES=custom(S))
    el, attr, val = S.obj("el", "qel"), S.str("attr"), S.sym("value")
    r = M.PySideRenderer()
    kv = tov(mks(key_of(el, attr)))
    k, x = outcome(r.remove_attribute, el, attr, val)
    S.oblige("defaults_unchanged", d.mutated == 0)
    stored = z3.And(HASATTR(attr.t), tob(E.eq(SV(ATTR(attr.t), "qmember"), val)))
    has = uf("has_default", V, B)(kv)
    acts = [e for e in S.trace if e[0] in ("delattr", "write", "set", "setattr", "custom")]
    if S.branch(stored):
        S.cover("stored")
        S.oblige("deletes_the_stored_value", z3.And(tov(acts[0][1]) == tov(el), tov(acts[0][2]) == tov(attr)) if k == "return" and len(acts) == 1 and acts[0][0] == "delattr" else False, f"{k} {x!r}")
    elif S.branch(has):
        S.cover("default")
        S.oblige("restores_the_default", z3.And(tov(acts[0][1]) == DEF_P(kv), tov(acts[0][2]) == tov(el), tov(acts[0][3]) == DEF_V(kv)) if k == "return" and len(acts) == 1 and acts[0][0] == "write" else False, f"{k} {x!r}")
    else:
        S.cover("neither")
        S.oblige("NotImplementedError", k == "raise" and isinstance(x, NotImplementedError) and not acts)


def load_object(name, P, extra=None):
    reg = lambda *t, **k: (lambda f: f)
    imports = {"collagraph.renderers": ns(PySideRenderer=ns(register_set_attr=reg, register_insert=reg, register_remove=reg)), "collagraph.renderers.pyside": P,
               "collagraph.renderers.pyside_renderer": ns(PySideRenderer=ns(register_set_attr=reg, register_insert=reg, register_remove=reg)), "PySide6.QtCore": qns(), "PySide6.QtGui": qns(), "PySide6.QtWidgets": qns()}
    imports.update(extra or {})
    return load(PQ + name + ".py", imports, name="pyside_obj_" + name)


@unit(UNITS, "qobject.set_attribute", ["C21"], [PQ + "qobject.py:set_attribute"], hooks=QH, covers=["setter", "stored"], assumes=["contracts of attr_name_to_method_name and call_method"])
def qobject(S):
    """the setter of that name is called once with the value; without one (or an empty one) the value is stored on the object under the attribute's own name"""
    called = []
    P = ns(attr_name_to_method_name=lambda n, setter=False: mks(METHOD(tos(n), tob(setter))), call_method=lambda m, a: called.append((m, a)))
    Q = load_object("qobject", P)
    Q.set_attribute.__globals__["setattr"] = lambda o, n, v: S.event("setattr", o, n, v)
    el, attr, val = S.obj("el", "qel"), S.str("attr"), S.sym("value")
    k, x = outcome(Q.set_attribute, el, attr, val)
    S.oblige("returns", k == "return", repr(x))
    m = METHOD(attr.t, z3.BoolVal(True))
    stores = [e for e in S.trace if e[0] == "setattr"]
    there = z3.And(HASATTR(m), E.truth_term(ATTR(m)))
    if S.branch(there):
        S.cover("setter")
        S.oblige("the_setter_once", z3.And(tov(called[0][0]) == ATTR(m), tov(called[0][1]) == tov(val)) if len(called) == 1 and not stores else False)
    else:
        S.cover("stored")
        S.oblige("stored", z3.And(tov(stores[0][1]) == tov(el), tov(stores[0][2]) == tov(attr), tov(stores[0][3]) == tov(val)) if len(stores) == 1 and not called else False)


class AnyTuple:
    """A tuple of any number of values; a call with them as arguments gets this marker."""
    pyvc_sym = True
    kind = "tuple"

    def __init__(self):
        self.items = object()

    def __iter__(self):
        return iter([self.items])

    def __getitem__(self, i):
        raise E.Unsupported("an item of the arguments")


def only_passed_on(M):
    for h in ("_pv_for", "_pv_comp", "_pv_unpack", "_pv_stars"):
        def f(*a, h=h, g=getattr(M, h)):
            if any(isinstance(x, AnyTuple) for y in a for x in (y if isinstance(y, tuple) else (y,))):
                raise E.Unsupported("the arguments one by one")
            return g(*a)
        setattr(M, h, f)


@unit(UNITS, "call_method", ["C21"], [PI + ":call_method"], hooks={"isinstance": lambda S, x, c: isinstance(x, AnyTuple) if c is tuple else (_ for _ in ()).throw(E.Unsupported("isinstance"))}, covers=["tuple", "value"])
def call_method(S):
    """a tuple (of any length) is passed as several arguments, any other value as the only one; the method is called once"""
    P = load(PI, {"functools": ns(lru_cache=lru)}, name="pyside_i3")
    only_passed_on(P)
    calls = []
    several = S.choose(2, "value")
    val = AnyTuple() if several else S.sym("value", "any")
    S.cover("tuple" if several else "value")

    def method(*a, **kw):
        calls.append((a, kw))
    k, x = outcome(P.call_method, method, val)
    S.oblige("one_call", k == "return" and len(calls) == 1 and not calls[0][1], repr(x))
    if len(calls) != 1:
        return
    a = calls[0][0]
    S.oblige("the_arguments", len(a) == 1 and a[0] is (val.items if several else val))


@unit(UNITS, "widget.set_attribute", ["C21"], [PQ + "widget.py:set_attribute"], hooks=QH, covers=["size", "other"], assumes=["contract of qobject.set_attribute"])
def widget_set(S):
    """`size` resizes to the values; every other attribute is set as for any object"""
    done = []
    W = load_object("widget", ns(), {"collagraph.renderers.pyside.objects.layouts": ns(remove_layout=None),
                                     "collagraph.renderers.pyside.objects.qobject": ns(set_attribute=lambda *a: done.append(a))})
    el = probe(QWidget, "el")
    attr = S.str("attr") if S.choose(2) else "size"
    w, h = S.sym("w"), S.sym("h")
    k, x = outcome(W.set_attribute, el, attr, (w, h))
    S.oblige("returns", k == "return", repr(x))
    if S.branch(tos(attr) == z3.StringVal("size")):
        S.cover("size")
        S.oblige("resized", len(S.trace) == 1 and S.trace[0][1] == "resize" and list(S.trace[0][2]) == [w, h] and not done)
    else:
        S.cover("other")
        S.oblige("as_for_any_object", len(done) == 1 and done[0][0] is el and done[0][1] is attr and done[0][2] == (w, h) and not S.trace)


SPECIAL = {"combobox": ("QComboBox", "widget", {"items"}), "statusbar": ("QStatusBar", "widget", {"text"}), "dialogbuttonbox": ("QDialogButtonBox", "widget", {"buttons"}),
           "treewidgetitem": ("QTreeWidgetItem", "qobject", {"content", "expanded", "selected"}), "standarditem": ("QStandardItem", "qobject", set())}


@unit(UNITS, "set_attribute of special objects", ["C21"], [PQ + n + ".py:set_attribute" for n in SPECIAL], covers=list(SPECIAL), assumes=["contracts of widget.set_attribute and qobject.set_attribute"])
def special_set(S):
    """every attribute without a meaning of its own for this type is set exactly once as for any widget or object, and nothing else happens to the object"""
    name = list(SPECIAL)[S.choose(len(SPECIAL))]
    cls, base, own = SPECIAL[name]
    done = []
    set_base = lambda *a, **k: done.append((a, k))
    mods = {b: ns(set_attribute=set_base if b == base else None) for b in ("widget", "qobject")}
    Cls = type(cls, (QObject,), {})
    W = load_object(name, ns(attr_name_to_method_name=None, call_method=None),
                    {"collagraph.renderers.pyside.objects": ns(**mods), "collagraph.renderers.pyside.objects.widget": mods["widget"], "collagraph.renderers.pyside.objects.qobject": mods["qobject"],
                     "PySide6": ns(QtWidgets=qns(**{cls: Cls})), "PySide6.QtWidgets": qns(**{cls: Cls}), "PySide6.QtGui": qns(**{cls: Cls})})
    el, attr, val = probe(Cls, "el"), S.str("attr"), S.sym("value")
    for x in own | {"model_index"} if name == "standarditem" else own:
        S.assume(attr.t != x)
    k, x = outcome(W.set_attribute, el, attr, val)
    S.oblige("returns", k == "return", repr(x))
    S.cover(name)
    S.oblige("as_for_any_object", len(done) == 1 and not done[0][1] and len(done[0][0]) == 3 and done[0][0][0] is el and done[0][0][1] is attr and done[0][0][2] is val)
    S.oblige("nothing_else_happens_to_it", not S.trace)


# ------------------------------------------------------------------ events
class SlotObj:
    def __init__(self, f):
        self.f, self.zt__ = f, V.r(E.S.fresh("slot", I))


def slot_factory(*a, **k):
    def make(f):
        # a bound method (or another callable) may be refused as a slot
        if isinstance(f, SV) and E.S.branch(uf("not_a_slot", V, B)(f.zt__)):
            E.throw(SystemError("slot"))
        return SlotObj(f)
    return make


EVNAME, SIGNAME = uf("event_name", STR, STR), uf("signal_name", STR, STR)


def q_camel(n, sep, upper=False):
    if sep != "_" or not isinstance(upper, bool):
        raise E.Unsupported("camel_case")
    return mks((EVNAME if upper else SIGNAME)(tos(n)))


class Signal:
    def __init__(self):
        self.zt__ = V.r(E.S.fresh("signal", I))

    def connect(self, s, *a):
        E.S.event("connect", s, a)

    def disconnect(self, *a):
        E.S.event("disconnect", *a)


class NoSignal:
    """An attribute of that name that is no signal."""


class Elem:
    """An element; `slots` and `_event_filter` may be there already."""
    pyvc_sym = False

    def __init__(self, S, sig):
        self.__dict__["S"], self.__dict__["sig"] = S, sig
        self.__dict__["zt__"] = V.r(S.fresh("el", I))

    def installEventFilter(self, f):
        self.S.event("install", f)


def el_getattr(S, o, n, *d):
    if isinstance(o, Elem):
        S.oblige("asks_for_the_signal_of_that_name", tos(n) == SIGNAME(S.notes["E"]))
        if o.sig is None:
            if d:
                return d[0]
            E.throw(AttributeError(str(n)))
        return o.sig
    raise E.Unsupported("getattr")


def el_hasattr(S, o, n):
    if isinstance(o, Elem):
        S.oblige("asks_for_the_signal_of_that_name", tos(n) == SIGNAME(S.notes["E"]))
        return o.sig is not None
    raise E.Unsupported("hasattr")


HANDLER = Kind("qhandler", truthy="uf", eq="is", call=lambda S, o, *a, **k: S.event("call", o, a, k))
SLOT_OF, HAS_SLOT = uf("slot_of", V, V, V), uf("has_slot", V, V, B)
FILTERED = uf("filtered", V, V, B)


def slots_dict(S):
    """slots[event][value]: any state; an event without entry has no slots."""
    def inner(ev):
        return SDict(base=Base(lambda v: mkb(HAS_SLOT(tov(ev), tov(v))), lambda v: some(SLOT_OF(tov(ev), tov(v)), "qslot")), name="slots_of_event")
    return SDict(base=mem_base(lambda k: mkb(uf("has_event", V, B)(tov(k))), inner), factory=E.b_dict, name="slots")


Kind("qslot", truthy="always", eq="is")


class FilterModel:
    """Contract of EventFilter."""
    def __init__(self, *a):
        self.zt__ = V.r(E.S.fresh("filter", I))

    def add_event_handler(self, ev, h):
        E.S.event("filter.add", self, ev, h)

    def remove_event_handler(self, ev, h):
        E.S.event("filter.remove", self, ev, h)


def event_setup(S):
    sig = [None, NoSignal(), Signal()][S.choose(3, "signal")]
    M = renderer(S, camel_case=q_camel, EventFilter=FilterModel)
    el = Elem(S, sig)
    name = S.str("event")
    dashed = S.choose(2, "name")
    S.notes["E"] = uf("str_replace_all", STR, STR, STR, STR)(name.t, z3.StringVal("-"), z3.StringVal("_"))
    return M, el, sig, name


def has_slot(el, ev, v):
    d = el.slots.get(ev) if hasattr(el, "slots") else None
    return d.get(v) if d is not None and v in d else None


EH = {"getattr": el_getattr, "hasattr": el_hasattr}


@unit(UNITS, "PySideRenderer.add_event_listener", ["C21"], [PR + ":PySideRenderer.add_event_listener"], hooks=EH, covers=["signal", "event", "first", "wrapped"],
      assumes=["Qt: Slot()(f) is a slot that calls f, or raises SystemError; a signal calls each connected slot once per emission", "contract of camel_case (unit 'name functions')", "contract of EventFilter"])
def add_listener(S):
    """for a signal of that name: one new slot, which calls the listener once with the signal's values, is connected to it and kept for this event and listener; otherwise the listener is entered
    in the element's event filter, which is installed once; other listeners are as before"""
    M, el, sig, name = event_setup(S)
    first = S.choose(2, "earlier listeners") == 0
    if not first:
        el.slots = slots_dict(S)
        el._event_filter = f0 = FilterModel()
    ev, v, ev2, v2 = mks(S.notes["E"]), S.obj("listener", "qhandler"), S.str("other_event"), S.obj("other", "qhandler")
    r = M.PySideRenderer()
    k, x = outcome(r.add_event_listener, el, name, v)
    S.oblige("returns", k == "return", repr(x))
    if k == "raise":
        return
    con = [e for e in S.trace if e[0] == "connect"]
    adds = [e for e in S.trace if e[0] == "filter.add"]
    inst = [e for e in S.trace if e[0] == "install"]
    S.oblige("nothing_is_removed", not any(e[0] in ("disconnect", "filter.remove", "call") for e in S.trace))
    if isinstance(sig, Signal):
        S.cover("signal")
        S.oblige("one_connection", len(con) == 1 and isinstance(con[0][1], SlotObj) and not con[0][2] and not adds)
        if len(con) != 1 or not isinstance(con[0][1], SlotObj):
            return
        s = con[0][1]
        S.oblige("kept_for_this_event_and_listener", has_slot(el, ev, v) is s)
        if s.f is not v:
            S.cover("wrapped")
            del S.trace[:]
            a, b = S.sym("a"), S.sym("b")
            k, x = outcome(s.f, a, b)
            calls = [e for e in S.trace if e[0] == "call"]
            S.oblige("the_slot_calls_the_listener_once", k == "return" and len(S.trace) == 1 and len(calls) == 1 and calls[0][1] is v and not calls[0][3])
            if len(calls) == 1:
                S.oblige("with_the_values_of_the_signal", z3.And(tov(calls[0][2][0]) == tov(a), tov(calls[0][2][1]) == tov(b)) if len(calls[0][2]) == 2 else False)
        same = z3.And(ev2.t == S.notes["E"], v2.zt__ == v.zt__)
        if not S.branch(same):
            before = z3.And(uf("has_event", V, B)(tov(ev2)), HAS_SLOT(tov(ev2), tov(v2))) if not first else z3.BoolVal(False)
            now = has_slot(el, ev2, v2)
            S.oblige("other_slots_as_before", z3.And(z3.BoolVal(now is not None) == before, tov(now) == SLOT_OF(tov(ev2), tov(v2)) if now is not None else z3.BoolVal(True)))
    else:
        S.cover("event")
        S.oblige("entered_in_the_filter", len(adds) == 1 and not con)
        if len(adds) != 1:
            return
        S.oblige("the_event_and_the_listener", z3.And(tov(adds[0][2]) == tov(mks(EVNAME(S.notes["E"]))), tov(adds[0][3]) == tov(v)))
        S.oblige("the_filter_of_the_element", adds[0][1] is el._event_filter)
        if first:
            S.cover("first")
            S.oblige("installed_once", len(inst) == 1 and inst[0][1] is el._event_filter)
        else:
            S.oblige("not_installed_again", not inst and el._event_filter is f0)


@unit(UNITS, "PySideRenderer.remove_event_listener", ["C21"], [PR + ":PySideRenderer.remove_event_listener"], hooks=EH, covers=["signal", "event"],
      assumes=["contract of camel_case (unit 'name functions')", "contract of EventFilter"])
def remove_listener(S):
    """requires a listener that was added: its slot, and only that, is disconnected and forgotten, or it is removed from the event filter; the other listeners are as before"""
    M, el, sig, name = event_setup(S)
    el.slots = slots_dict(S)
    el._event_filter = f0 = FilterModel()
    ev, v, ev2, v2 = mks(S.notes["E"]), S.obj("listener", "qhandler"), S.str("other_event"), S.obj("other", "qhandler")
    if isinstance(sig, Signal):
        S.assume(uf("has_event", V, B)(tov(ev)))
        S.assume(HAS_SLOT(tov(ev), tov(v)))
    r = M.PySideRenderer()
    k, x = outcome(r.remove_event_listener, el, name, v)
    S.oblige("returns", k == "return", repr(x))
    if k == "raise":
        return
    dis = [e for e in S.trace if e[0] == "disconnect"]
    rem = [e for e in S.trace if e[0] == "filter.remove"]
    S.oblige("nothing_is_added", not any(e[0] in ("connect", "filter.add", "install", "call") for e in S.trace))
    if isinstance(sig, Signal):
        S.cover("signal")
        S.oblige("one_disconnection", len(dis) == 1 and len(dis[0]) == 2 and not rem)
        if len(dis) == 1 and len(dis[0]) == 2:
            S.oblige("of_the_slot_of_this_listener", tov(dis[0][1]) == SLOT_OF(tov(ev), tov(v)))
        same = z3.And(ev2.t == S.notes["E"], v2.zt__ == v.zt__)
        before = z3.And(uf("has_event", V, B)(tov(ev2)), HAS_SLOT(tov(ev2), tov(v2)))
        now = has_slot(el, ev2, v2)
        if S.branch(same):
            S.oblige("forgotten", now is None)
        else:
            S.oblige("other_slots_as_before", z3.And(z3.BoolVal(now is not None) == before, tov(now) == SLOT_OF(tov(ev2), tov(v2)) if now is not None else z3.BoolVal(True)))
    else:
        S.cover("event")
        S.oblige("removed_from_the_filter", z3.And(tov(rem[0][2]) == tov(mks(EVNAME(S.notes["E"]))), tov(rem[0][3]) == tov(v)) if len(rem) == 1 and rem[0][1] is f0 and not dis else False)


# -- the filter itself
from contracts.component import EmitSpec, snapshot_list, registered, handlers as handlers_state, membership     # noqa: E402


def new_filter(S):
    M = renderer(S)
    f = M.EventFilter()
    if not isinstance(f._event_handlers, SDict) or f._event_handlers.factory is not E.b_set:
        raise E.Unsupported("handlers in something else than sets by name")
    S.oblige("starts_without_handlers", f._event_handlers.concrete and not f._event_handlers.entries)
    f._event_handlers = handlers_state(S)
    return f


def nonempty(S, d):
    b = S.bool("any_handlers")
    S.assume(z3.Implies(S.notes["reg"], tob(b)))
    return b


class Event:
    def __init__(self, name):
        self.name_ = name
        self.zt__ = V.r(E.S.fresh("event", I))

    def type(self):
        return ns(name=self.name_)


@unit(UNITS, "EventFilter.eventFilter", ["C21"], [PR + ":EventFilter.eventFilter", PR + ":EventFilter.__init__"], spec=EmitSpec, hooks={"list": snapshot_list, "set": snapshot_list, "dict.nonempty": nonempty}, covers=["called", "not registered", "frame"],
      assumes=["handlers return normally", "iterating over a set visits each element exactly once"])
def event_filter(S):
    """every handler of the event's name is called exactly once with the event, no other; then the event goes on as before"""
    f = new_filter(S)
    name, H = S.str("name"), S.sym("H", "handler", notnone=True)
    S.notes["H"] = H
    ev, obj = Event(name), S.sym("obj")
    S.notes["reg"] = reg = registered(S, name, H)
    k, r = outcome(f.eventFilter, obj, ev)
    S.oblige("goes_on", k == "return" and r == "SUPER" and [e for e in S.trace if e[0] == "super"] == [("super", obj, ev)], repr(r))
    calls = [e for e in S.trace if e[0] == "call" and S.branch(tov(e[1]) == H.zt__)]
    S.oblige("calls_registered_once", z3.If(reg, z3.BoolVal(len(calls) == 1), z3.BoolVal(len(calls) == 0)), f"{len(calls)} calls")
    for e in calls:
        S.cover("called")
        S.oblige("with_the_event", len(e[2]) == 1 and e[2][0] is ev and not e[3])
    if not calls:
        S.cover("not registered")


@unit(UNITS, "EventFilter.add/remove_event_handler", ["C21"], [PR + ":EventFilter.__init__", PR + ":EventFilter.add_event_handler", PR + ":EventFilter.remove_event_handler"], covers=["added", "removed", "frame"])
def filter_sets(S):
    """registered' = registered + (event, handler), or - (event, handler) if it was registered; nothing else changes"""
    f = new_filter(S)
    ev, h, E2, H2 = S.str("event"), S.sym("h", "handler"), S.str("E2"), S.sym("H2", "handler")
    old = registered(S, E2, H2)
    rem = S.choose(2)
    if rem:
        S.assume(registered(S, ev, h))
    k, r = outcome(f.remove_event_handler if rem else f.add_event_handler, ev, h)
    S.oblige("returns", k == "return", repr(r))
    now = membership(f._event_handlers, E2, H2)
    same = z3.And(ev.t == E2.t, H2.zt__ == h.zt__)
    S.cover(("removed" if rem else "added") if S.branch(same) else "frame")
    S.oblige("membership", z3.BoolVal(now) == (z3.And(old, z3.Not(same)) if rem else z3.Or(old, same)))


# -- the renderer itself
@unit(UNITS, "PySideRenderer.__init__, register_asyncio", ["C10", "C20"], [PR + ":PySideRenderer.__init__", PR + ":PySideRenderer.preferred_event_loop_type", PR + ":PySideRenderer.register_asyncio"],
      covers=["installed", "kept"], assumes=["asyncio: the event loop policy is what set_event_loop_policy was called with last"])
def pyside_init(S):
    """the renderer shows elements unless it is told not to, asks for the asyncio event loop, and makes Qt's event loop the one of asyncio, once"""
    import sys
    from types import ModuleType

    class QtPolicy:
        pass
    now = [QtPolicy() if S.choose(2, "policy") else object()]
    before = now[0]
    aio, qta = ModuleType("asyncio"), ModuleType("PySide6.QtAsyncio")
    aio.get_event_loop_policy = lambda: now[0]
    aio.set_event_loop_policy = lambda p: now.__setitem__(0, p)
    qta.QAsyncioEventLoopPolicy = QtPolicy
    M = renderer(S, {"asyncio": aio, "PySide6.QtAsyncio": qta})
    show = S.bool("autoshow")
    kind, r = outcome(M.PySideRenderer, show)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("shows_as_told", tob(r.autoshow) == tob(show))
    S.oblige("shows_by_default", M.PySideRenderer().autoshow is True)
    S.oblige("asks_for_the_asyncio_loop", r.preferred_event_loop_type() == "default")
    for times in (1, 2):
        kind, x = outcome(r.register_asyncio)
        S.oblige("register_never_raises", kind == "return", repr(x))
        S.oblige("qt_runs_the_loop", isinstance(now[0], QtPolicy))
        if times == 1:
            first = now[0]
            S.cover("kept" if isinstance(before, QtPolicy) else "installed")
            S.oblige("an_installed_loop_is_kept", not isinstance(before, QtPolicy) or now[0] is before)
    S.oblige("installed_once", now[0] is first)


# ---------------------------------------------------------------- pygfx
GCLASS = Kind("gclass", truthy="always", eq="is", call=lambda S, o, *a, **k: (S.event("new", o, a, k), S.notes.setdefault("instances", []).append(S.obj(f"instance{len(S.notes.get('instances', []))}", "ginstance")), S.notes["instances"][-1])[-1])
Kind("ginstance", truthy="always", eq="is")


def gfx_getattr(S, m, n, *d):
    r = mod_getattr(S, m, n, *d)
    return SV(r.zt__, "gclass") if isinstance(r, SV) else r


@unit(UNITS, "PygfxRenderer.create_element", ["C19"], ["collagraph/renderers/pygfx_renderer.py:PygfxRenderer.create_element"], spec=ModSpec, hooks=dict(STRH, getattr=gfx_getattr),
      covers=["remembered", "found", "unknown"], assumes=["dir(x) lists attributes of x", "lower() and replace() of characters without case commute"])
def gfx_create(S):
    """a new instance of the first class of pygfx with that name (regardless of case and dashes), the same class each time; ValueError if there is none; only that class is remembered under that name"""
    m = Module("gfx")
    m.dir, m.WorldObject = lambda: Dir(m), object
    M = load("collagraph/renderers/pygfx_renderer.py", {"pygfx": m, "collagraph.renderers": ns(Renderer=object)}, name="collagraph.renderers.pygfx_c")
    vars(M)["__builtins__"]["dir"] = mod_dir
    cache = sym_dict("gfxcache", "gclass", key=lambda k: tov(k))
    names = [k for k, v in vars(M).items() if not k.startswith("_") and isinstance(v, dict) and not v]
    used = [k for k in names if "TYPE" in k]
    if len(used) != 1:
        raise E.Unsupported("no cache of types")
    setattr(M, used[0], cache)
    R = M.PygfxRenderer.__new__(M.PygfxRenderer)
    low, name, other = uf("str_lower", STR, STR), S.str("name"), S.str("other")
    N = low(uf("str_replace_all", STR, STR, STR, STR)(name.t, z3.StringVal("-"), z3.StringVal("")))
    h, v = uf("has_gfxcache", V, B), uf("val_gfxcache", V, V)
    c = S.fresh("c", I)
    first = lambda i: z3.And(i >= 0, i < m.n, low(m.names(i)) == N)
    S.assume(low(N) == N)
    # What is remembered was found
    S.assume(z3.Implies(h(tov(mks(N))), z3.And(first(c), m.has(m.names(c)), V.is_r(v(tov(mks(N)))), v(tov(mks(N))) == m.val(m.names(c)))))
    before = (h(tov(other)), v(tov(other)))
    k, r = outcome(R.create_element, name)
    exits = [j for s, j in S.notes.get("exit", []) if isinstance(s, Dir)]
    if k == "raise":
        S.cover("unknown")
        S.oblige("ValueError", isinstance(r, ValueError), repr(r))
        S.oblige("only_if_there_is_none", z3.Not(first(m.i)))
        S.oblige("nothing_remembered", cache.mutated == 0)
        return
    new = [e for e in S.trace if e[0] == "new"]
    S.oblige("one_new_instance", len(new) == 1 and r is S.notes["instances"][0] and not new[0][2] and not new[0][3])
    if len(new) != 1:
        return
    T = tov(new[0][1])
    if exits:
        S.cover("found")
        j = exits[-1]
        S.oblige("the_first_of_that_name", z3.And(first(j), T == m.val(m.names(j)), z3.Not(z3.And(m.i < j, first(m.i)))))
        S.oblige("remembered_under_that_name", tov(cache.get(mks(N))) == T if mks(N) in cache else cache.mutated == 0)
        if not S.branch(tov(other) == tov(mks(N))):
            o = cache.get(other) if other in cache else None
            S.oblige("others_as_before", z3.And(z3.BoolVal(o is not None) == before[0], z3.Implies(before[0], (tov(o) if o is not None else V.none) == before[1])))
    else:
        S.cover("remembered")
        S.oblige("the_class_found_before", z3.And(h(tov(mks(N))), T == m.val(m.names(c))))
        S.oblige("nothing_else_remembered", cache.mutated == 0)

"""renderers/pyside/objects/**: attributes with a meaning of their own (C21) and containers with places instead of an order (C20)."""
from base import *
import engine as E
from contracts import qtreg
from contracts.qtreg import METHOD, PQ, probe, qns, AnyTuple, only_passed_on
UNITS = []
I = z3.IntSort()
B = z3.BoolSort()
STR = z3.StringSort()


# ---------------------------------------------------------------- loops over any number of entries
class EachLoop(E.Loop):
    """A loop over any number of entries, without carried state: an arbitrary iteration (whose effects `rule` is asked about), or its end."""
    sym = True

    def __init__(self, n, where, names, it):
        super().__init__(n, where, names)
        self.it = it

    def enter(self, loc):
        S = E.S
        self.slot, self.rule = "each", "each.rule"
        if self.it.name == S.notes.get("each.before.name"):
            # a loop over something else, before the one over the entries
            self.slot, self.rule = "each.before", "each.before.rule"
            if S.notes.get("each"):
                raise E.Unsupported("the loops are in another order")
        if S.notes.get(self.slot):
            raise E.Unsupported("two loops over the entries")
        S.notes[self.slot] = self
        for x in E.GROWN.get(self.where, ()):
            o = loc.get(x[0])
            if type(o) in (list, set, dict):
                raise E.Unsupported("a list that grows in a loop without invariant")
        self.last = S.choose(2, "entries") == 1
        self.base = len(S.trace)
        return tuple(E.Opaque(f"{k} carried around the loop") for k in self.names)

    def leave(self, loc):
        return tuple(E.Opaque(f"{k} after the loop") for k in self.names)

    def __iter__(self):
        S = E.S
        if self.last:
            S.cover("end" if self.slot == "each" else "end before")
            return
        k = S.fresh("k", I)
        S.assume(z3.And(k >= 0, k < self.it.n))
        S.cover("entry" if self.slot == "each" else "entry before")
        S.notes["each.k" if self.slot == "each" else "each.before.k"] = k
        muts = []
        mon = lambda o, what, key, v: muts.append((o, what, key, v)) if what != "event" else None
        S.frames.append(mon)
        yield from self.strict(self.it.at(k))
        S.frames.remove(mon)
        if muts:
            raise E.Unsupported("state carried from one entry to the next")
        S.notes[self.rule](k, S.trace[self.base:])
        raise E.PathEnd()


class EachView(SeqView):
    def loop(self, n, where, names):
        return EachLoop(n, where, names, self)


class EachSpec(Spec):
    def iterable(self, S, it, where):
        it = super().iterable(S, it, where)
        if isinstance(it, SeqView) and not isinstance(it, EachView):
            return EachView(it.n, it.elem, it.name, it.kind)
        return it


class Entries:
    """A dict with any number of entries, of which only the designated one is known."""
    pyvc_sym = True
    pyvc_value = True

    def __init__(self, S, key, data, known=None):
        self.n = S.fresh("entries", I)
        S.assume(self.n >= 0)
        self.k, self.d, self.known = key, data, known or {}

    def view(self, f):
        return EachView(self.n, f, "entries")

    def items(self):
        return self.view(lambda t: (self.k(t), self.d(t)))

    def keys(self):
        return self.view(self.k)

    def values(self):
        return self.view(self.d)

    as_seq = keys

    def __bool__(self):
        return E.S.branch(self.n > 0)

    def __contains__(self, x):
        return E.S.branch(uf("has_entry", V, B)(tov(x)))

    def __getitem__(self, x):
        if isinstance(x, str) and x in self.known:
            return self.known[x]
        k = E.S.notes.get("each.k")
        if k is not None and E.S.check_always(tov(x) == tov(self.k(k))):
            return self.d(k)
        raise E.Unsupported("entry of a dict")

    def get(self, x, d=None):
        return self[x]


def load_own(name, P=None, **classes):
    base = []
    set_base = lambda *a, **k: base.append((a, k))
    mods = ns(set_attribute=set_base)
    q = qns(**classes)
    W = qtreg.load_object(name, P or ns(attr_name_to_method_name=None, call_method=None),
                          {"collagraph.renderers.pyside.objects": ns(widget=mods, qobject=mods), "collagraph.renderers.pyside.objects.widget": mods, "collagraph.renderers.pyside.objects.qobject": mods,
                           "collagraph.renderers.pyside.objects.layouts": ns(remove_layout=None), "PySide6": ns(QtWidgets=q), "PySide6.QtWidgets": q, "PySide6.QtGui": q, "PySide6.QtCore": q})
    return W, base


def done(S, f, *a, base=()):
    """The call returns, nothing is set as for any other object, and the loop (if the code has come to one) is the only thing that happens."""
    k, r = outcome(f, *a)
    S.oblige("returns", k == "return", repr(r))
    S.oblige("not_as_any_other_attribute", not base)
    if k == "raise":
        return False
    if "each.before.name" in S.notes:
        loop = S.notes.get("each.before")
        if loop is None or getattr(loop, "open", False):
            raise E.Unsupported("another way to go through what is there")
    return True


def visited(S, n):
    loop = S.notes.get("each")
    if loop is None:
        S.oblige("every_entry_is_visited", n == 0)
    elif getattr(loop, "open", False):
        # left in iteration k; entries carry nothing over, so the first iteration that is left is reached
        S.oblige("every_entry_is_visited", S.notes["each.k"] == n - 1)
        loop.open = False
    return loop


def at_end(S, n):
    if not S.trace:
        loop = S.notes.get("each")
        was = loop is None or getattr(loop, "open", False)
        visited(S, n)
        if was:
            return
    elif S.notes.get("each") is None:
        raise E.Unsupported("the entries are not gone through")
    elif getattr(S.notes["each"], "open", False):
        S.notes["each.rule"](S.notes["each.k"], S.trace[S.notes["each"].base:])
        visited(S, n)
        return
    S.oblige("nothing_else_happens", not S.trace, str(S.trace[:2]))


def same(got, *want):
    return len(got) == len(want) and all(g is w for g, w in zip(got, want))


# ---------------------------------------------------------------- buttons, content, message
IS_FLAG, FLAG = uf("is_standard_button", V, B), uf("standard_button", STR, V)


class Flag:
    """A value of an enumeration: equal to itself only."""
    pyvc_value = True
    __hash__ = None

    def __init__(self, t):
        self.zt__ = t

    def __eq__(self, o):
        return mkb(self.zt__ == tov(o))

    def __ne__(self, o):
        return mkb(self.zt__ != tov(o))


NO_BUTTON = Flag(z3.Const("NoButton", V))


class StandardButton:
    NoButton = NO_BUTTON


class Button:
    pyvc_value = True

    def __init__(self, t):
        self.zt__ = t

    def deleteLater(self):
        E.S.event("button", "deleteLater", (), {})


def flag_isinstance(S, x, c):
    if c is StandardButton:
        return mkb(IS_FLAG(tov(x)))
    if c is str or c is E.b_str:
        return mkb(z3.Not(IS_FLAG(tov(x))))
    raise E.Unsupported("isinstance")


def flag_getattr(S, o, n, *d):
    if not isinstance(o, type) or not o.__name__ == "QDialogButtonBox" or d:
        raise E.Unsupported("getattr")
    S.oblige("only_names_are_looked_up", z3.Not(IS_FLAG(tov(n))))
    return SV(uf("standard_button_v", V, V)(tov(n)), "any")


@unit(UNITS, "dialogbuttonbox buttons", ["C21"], [PQ + "dialogbuttonbox.py:set_attribute"], spec=EachSpec, hooks={"isinstance": flag_isinstance, "getattr": flag_getattr}, covers=["entry", "end", "entry before", "end before"],
      assumes=["QDialogButtonBox.addButton adds a button, removeButton takes one out"])
def buttons(S):
    """for any number of buttons, there before and given: each standard button that was there is taken out (the children are not), and then each one given is added once, in the order of the list,
    as the flag itself or the one of that name"""
    m, there = S.fresh("m", I), uf("there", I, V)
    S.assume(m >= 0)
    standard = uf("standard_of", V, V)
    Cls = type("QDialogButtonBox", (qtreg.QObject,), {"StandardButton": StandardButton, "buttons": lambda self: EachView(m, lambda t: Button(there(t)), "present", "list"),
                                                      "standardButton": lambda self, b: Flag(standard(tov(b)))})
    S.notes["each.before.name"] = "present"

    def before(k, events):
        got = [(e[1], [tov(x) for x in e[2]]) for e in events]
        own = standard(there(k)) == NO_BUTTON.zt__
        if S.branch(own):
            S.oblige("children_stay", not got, str(got))
        else:
            S.oblige("standard_buttons_go", [g[0] for g in got if g[0] != "deleteLater"] == ["removeButton"] and all(len(g[1]) == (g[0] == "removeButton") for g in got), str(got))
            S.oblige("that_very_one", z3.And([x == there(k) for g in got for x in g[1]]))
    S.notes["each.before.rule"] = before
    W, base = load_own("dialogbuttonbox", QDialogButtonBox=Cls)
    el, n, at = probe(Cls, "el"), S.fresh("n", I), uf("button", I, V)
    S.assume(n >= 0)

    def rule(k, events):
        S.oblige("one_button_is_added", [e[1] for e in events] == ["addButton"] and len(events[0][2]) == 1 and not events[0][3], str(events))
        if len(events) == 1 and len(events[0][2]) == 1:
            S.oblige("that_button", tov(events[0][2][0]) == z3.If(IS_FLAG(at(k)), at(k), uf("standard_button_v", V, V)(at(k))))
    S.notes["each.rule"] = rule
    if done(S, W.set_attribute, el, "buttons", EachView(n, lambda t: SV(at(t), "any"), "buttons", "list"), base=base):
        at_end(S, n)


@unit(UNITS, "treewidgetitem content", ["C21"], [PQ + "treewidgetitem.py:set_attribute"], spec=EachSpec, covers=["entry", "end", "entry before", "end before"], assumes=["QTreeWidgetItem.setText sets the text of a column; there are texts in the columns below columnCount() only"])
def content(S):
    """for any number of entries, of any columns: the text of each column is set once; the columns that have no entry are emptied"""
    cols = S.fresh("columns", I)
    S.assume(cols >= 0)
    Cls = type("QTreeWidgetItem", (qtreg.QObject,), {"columnCount": lambda self: mki(cols)})
    W, base = load_own("treewidgetitem", QTreeWidgetItem=Cls)
    W.range = lambda *a: EachView(E.toi(a[0]), mki, "columns", "range") if len(a) == 1 else E.throw(E.Unsupported("another range"))
    S.notes["each.before.name"] = "columns"

    def before(k, events):
        S.oblige("all_columns_are_gone_through", S.notes["each.before"].it.n == cols)
        if S.branch(uf("has_entry", V, B)(V.i(k))):
            S.oblige("columns_with_an_entry_stay", all(e[1] == "setText" and len(e[2]) == 2 for e in events) and E.S.check_always(z3.And([toi(e[2][0]) == k for e in events])), str(events))
        else:
            S.oblige("other_columns_are_emptied", [e[1] for e in events] == ["setText"] and len(events[0][2]) == 2 and E.S.check_always(z3.And(toi(events[0][2][0]) == k, tov(events[0][2][1]) == tov(""))), str(events))
    S.notes["each.before.rule"] = before
    el, col, text = probe(Cls, "el"), uf("column", I, I), uf("text", I, V)

    def rule(k, events):
        S.oblige("one_column_is_set", [e[1] for e in events] == ["setText"] and len(events[0][2]) == 2 and not events[0][3], str(events))
        if len(events) == 1 and len(events[0][2]) == 2:
            S.oblige("that_column", toi(events[0][2][0]) == col(k))
            S.oblige("its_text", tov(events[0][2][1]) == text(k))
    S.notes["each.rule"] = rule
    val = Entries(S, lambda t: mki(col(t)), lambda t: SV(text(t), "any"))
    if done(S, W.set_attribute, el, "content", val, base=base):
        at_end(S, val.n)


class Args(AnyTuple):
    def __getitem__(self, i):
        if isinstance(i, int):
            return ("item", i)
        return super().__getitem__(i)


@unit(UNITS, "statusbar text", ["C21"], [PQ + "statusbar.py:set_attribute"], hooks={"isinstance": lambda S, x, c: isinstance(x, AnyTuple) if c is tuple else (_ for _ in ()).throw(E.Unsupported("isinstance"))},
      covers=["tuple", "value"], assumes=["QStatusBar.showMessage shows a message"])
def message(S):
    """the message is shown once; a tuple (of any length) becomes several arguments"""
    Cls = type("QStatusBar", (qtreg.QObject,), {})
    W, base = load_own("statusbar", QStatusBar=Cls)
    only_passed_on(W)
    el = probe(Cls, "el")
    several = S.choose(2, "value")
    val = Args() if several else S.sym("value", "any")
    S.cover("tuple" if several else "value")
    if done(S, W.set_attribute, el, "text", val, base=base):
        S.oblige("message_is_shown", [e[1] for e in S.trace] == ["showMessage"] and same(S.trace[0][2], val.items if several else val) and not S.trace[0][3], str(S.trace[:2]))


# ---------------------------------------------------------------- layouts
HASM, METH = uf("layout_has", STR, B), uf("layout_method", STR, V)


def lay_getattr(S, o, n, *d):
    if not getattr(type(o), "is_layout", False):
        raise E.Unsupported("getattr")
    if S.branch(HASM(tos(n))):
        return qtreg.some(METH(tos(n)), "qmethod")
    if d:
        return d[0]
    E.throw(AttributeError(str(n)))


def lay_hasattr(S, o, n):
    if not getattr(type(o), "is_layout", False):
        raise E.Unsupported("hasattr")
    return mkb(HASM(tos(n)))


Kind("qmethod", truthy="always", eq="is", call=lambda S, o, *a, **k: S.event("called", o, a, k))
DIRS = ("TopToBottom", "LeftToRight", "RightToLeft", "BottomToTop")


class Lay:
    is_layout = True

    def layout(self):
        return self

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("pyvc"):
            raise AttributeError(n)
        raise E.Unsupported("layout." + n)


def layouts_module(S, **over):
    q = qns(QBoxLayout=type("QBoxLayout", (qtreg.QLayout,), {"Direction": ns(**{d: ("direction", d) for d in DIRS})}),
            **{c: type(c, (qtreg.QLayout,), {}) for c in ("QFormLayout", "QGridLayout", "QStackedLayout")})
    made = []
    reg = lambda *t, **k: (lambda f: f)
    R = ns(register_set_attr=reg, register_insert=reg, register_remove=reg, register_custom_attribute=reg, register_layout=lambda *a, **k: None, create_object=lambda n: (made.append(n), over["new"])[1])
    P = ns(attr_name_to_method_name=lambda n, setter=False: mks(METHOD(tos(n), tob(setter))), call_method=lambda m, a: S.event("call", m, a))
    mapping = over.get("mapping")
    M = load(PQ + "layouts.py", {"PySide6.QtWidgets": q, "collagraph.renderers.pyside": P, "collagraph.renderers.pyside_renderer": ns(LAYOUT_MAPPING=mapping, PySideRenderer=R, normalize_name=lambda n: mks(qtreg.NORM(tos(n))))}, name="pyside_layouts_v")
    return M, made, q


@unit(UNITS, "set_layout_attribute", ["C21"], [PQ + "layouts.py:set_layout_attribute"], spec=EachSpec, hooks={"getattr": lay_getattr, "hasattr": lay_hasattr}, covers=["type", "direction", "stretch", "other", "no setter", "entry", "end"],
      assumes=["contracts of attr_name_to_method_name and call_method (units of those names)"])
def layout_attribute(S):
    """an attribute of a layout is given once to the setter of its name: a direction as the Qt direction of that name, each of any number of column or row stretches as one call, every other value as it is;
    the type, and attributes without a setter, change nothing"""
    M, made, q = layouts_module(S)
    el = Lay()
    what = ["type", "direction", "stretch", "other"][S.choose(4, "attribute")]
    val, n, at = S.sym("value"), S.fresh("n", I), uf("stretch", I, V)
    S.assume(n >= 0)
    if what == "other":
        attr = S.str("attr")
        S.assume(z3.And(*[attr.t != x for x in ("type", "direction", "column_stretch", "row_stretch")]))
    else:
        attr = {"stretch": ("column_stretch", "row_stretch")[S.choose(2)]}.get(what, what)
    if what == "direction":
        val = DIRS[S.choose(4, "direction")]
    if what == "stretch":
        val = EachView(n, lambda t: SV(at(t), "any"), "stretches", "list")
    setter = METHOD(tos(attr), z3.BoolVal(True))

    def rule(k, events):
        ok = len(events) == 1 and events[0][0] == "call"
        S.oblige("one_call_for_each", ok, str(events))
        if ok:
            S.oblige("of_the_setter", tov(events[0][1]) == METH(setter))
            S.oblige("with_that_stretch", tov(events[0][2]) == at(k))
    S.notes["each.rule"] = rule
    if not done(S, M.set_layout_attribute, el, attr, val):
        return
    if what == "type" or not S.branch(HASM(setter)):
        S.cover("type" if what == "type" else "no setter")
        S.oblige("nothing_happens", not S.trace, str(S.trace[:2]))
        return
    S.cover(what)
    if what == "stretch":
        return at_end(S, n)
    ok = len(S.trace) == 1 and S.trace[0][0] == "call"
    S.oblige("one_call", ok, str(S.trace[:2]))
    if ok:
        S.oblige("of_the_setter", tov(S.trace[0][1]) == METH(setter))
        S.oblige("with_the_value", S.trace[0][2] == ("direction", val) if what == "direction" else S.trace[0][2] is val)


class NewLayout:
    """A layout; `set_attribute` is recorded."""
    def __init__(self, name):
        self.name = name

    def set_attribute(self, *a):
        E.S.event("set", self, *a)


class Host:
    """A widget with or without a layout."""
    def __init__(self, lay=None):
        self.lay = lay

    def layout(self):
        return self.lay

    def setLayout(self, l):
        E.S.event("setLayout", self, l)
        if self.lay is not None:
            E.S.oblige("a_widget_has_one_layout_at_a_time", False)
        self.lay = l
        for h in E.S.notes["hosts"]:
            if h is not self and h.lay is l:
                h.lay = None


LT = Kind("layouttype", truthy="always", eq="is")


@unit(UNITS, "set_layout_attr", ["C21"], [PQ + "layouts.py:set_layout_attr"], spec=EachSpec, covers=["kept", "replaced", "first", "unknown", "entry", "end"],
      hooks={"isinstance": lambda S, x, c: (x is not None and mkb(uf("layout_is", V, B)(tov(c)))) if not isinstance(c, tuple) else (_ for _ in ()).throw(E.Unsupported("isinstance"))},
      assumes=["QWidget().setLayout(l) takes the layout l from its widget", "contract of normalize_name (unit 'name functions')"])
def layout_attr(S):
    """a widget keeps its layout if it is of the given type (regardless of case, dashes and underscores), else it has a new one of that type in its place; each of any number of further entries is set on it; an unknown type is a
    RuntimeError and changes nothing"""
    low = qtreg.NORM
    T = S.str("type")
    old = NewLayout("old") if S.choose(2, "layout") else None
    new = NewLayout("new")
    has, typ = uf("has_layout_type", V, B), uf("layout_type", V, V)
    mapping = SDict(base=Base(lambda k: mkb(has(tov(k))), lambda k: qtreg.some(typ(tov(k)), "layouttype")), name="LAYOUT_MAPPING")
    M, made, q = layouts_module(S, new=new, mapping=mapping)
    w = Host(old)
    hosts = S.notes["hosts"] = [w]

    def fresh_widget(*a):
        hosts.append(Host())
        return hosts[-1]
    M.QWidget = fresh_widget
    key, val = uf("entry_key", I, V), uf("entry_value", I, V)
    low_t = tov(mks(low(T.t)))
    sameT = uf("layout_is", V, B)(typ(low_t))

    def at_entries():
        """Before the first entry, and still at the end."""
        if old is not None and S.branch(sameT):
            S.cover("kept")
            S.oblige("the_layout_is_kept", w.lay is old and not made and not [e for e in S.trace if e[0] == "setLayout"])
            return old
        S.cover("replaced" if old is not None else "first")
        S.oblige("there_is_a_new_layout", w.lay is new and len(made) == 1)
        if len(made) == 1:
            S.oblige("of_that_type", tos(made[0]) == low(T.t))
        return new

    def rule(k, events):
        lay = at_entries()
        ok = [e[0] for e in events] == ["set"] and len(events[0]) == 4
        S.oblige("each_entry_is_set_once", ok, str(events))
        if ok:
            S.oblige("on_the_layout", events[0][1] is lay)
            S.oblige("that_entry", z3.And(tov(events[0][2]) == key(k), tov(events[0][3]) == val(k)))
    S.notes["each.rule"] = rule
    given = Entries(S, lambda t: SV(key(t), "any"), lambda t: SV(val(t), "any"), {"type": T})
    k, r = outcome(M.set_layout_attr, w, "layout", given)
    if not S.branch(has(low_t)):
        S.cover("unknown")
        S.oblige("RuntimeError", k == "raise" and isinstance(r, RuntimeError) and not S.trace and not made and w.lay is old, repr(r))
        return
    S.oblige("returns", k == "return", repr(r))
    if k == "raise":
        return
    at_entries()
    loop = S.notes.get("each")
    if loop is None or getattr(loop, "open", False):
        visited(S, given.n)
        return
    S.oblige("nothing_else_is_set", not [e for e in S.trace if e[0] == "set"])


# ---------------------------------------------------------------- containers with a place for each type of child (C20)
AREA = Kind("area", truthy="always", eq="is")


class Rec:
    """A Qt object that records the methods called on it, apart from setParent."""
    def __init__(self, **known):
        self.calls, self.up = [], None
        self.__dict__.update(known)

    def setParent(self, p, *flags):
        self.up = p

    def parent(self):
        return self.up

    def deleteLater(self):
        self.calls.append(("deleteLater",))

    def __getattr__(self, n):
        if n.startswith("_") or n.startswith("pyvc") or n in ("area", "title", "permanent", "role", "form_index", "form_label", "grid_index", "model_index", "tab_index", "tab_label"):
            raise AttributeError(n)

        def method(*a, **k):
            if k:
                raise E.Unsupported("keyword arguments of a Qt method")
            self.calls.append((n, *a))
        return method


def kinds(*names):
    return {n: type(n, (Rec,), {}) for n in names}


def load_place(name, classes, M=None):
    if M is None:
        reg = lambda *t, **k: (lambda f: f)
        q = qns(**classes)
        imports = {"collagraph.renderers": ns(PySideRenderer=ns(register_set_attr=reg, register_insert=reg, register_remove=reg)), "PySide6": ns(QtWidgets=q, QtGui=q, QtCore=q), "PySide6.QtCore": q, "PySide6.QtGui": q, "PySide6.QtWidgets": q,
                   "collagraph.renderers.pyside.objects": ns(widget=ns(set_attribute=None)), "collagraph.renderers.pyside.objects.widget": ns(set_attribute=None)}
        M = load(PQ + name + ".py", imports, name="pyside_place_" + name)
    return M


# methods that place or take out children; what others would do is not known here
VOCABULARY = {"addWidget", "insertWidget", "addPermanentWidget", "insertPermanentWidget", "removeWidget", "takeRow", "removeRow", "insertRow", "addRow", "setWidget", "takeWidget", "setTitleBarWidget", "setModel", "setSelectionModel",
              "addButton", "removeButton", "addDockWidget", "removeDockWidget", "addToolBar", "insertToolBar", "removeToolBar", "setMenuBar", "setMenuWidget", "setStatusBar", "setCentralWidget", "takeCentralWidget", "clear", "deleteLater", "setItem", "setChild", "take", "addTab", "insertTab", "insertColumn", "appendRow"}


def calls_are(S, what, got, *want):
    """The calls are the wanted ones; objects by identity."""
    for c in got:
        if c[0] not in VOCABULARY:
            raise E.Unsupported("a call of " + c[0])
    same_call = lambda g, w: len(g) == len(w) and g[0] == w[0] and all(x is y or (isinstance(x, SI) and isinstance(y, SI) and E.S.check_always(x.t == y.t)) for x, y in zip(g[1:], w[1:]))
    S.oblige(what, len(got) == len(want) and all(same_call(g, w) for g, w in zip(got, want)), str([c[0] for c in got]))


@unit(UNITS, "children of main window", ["C20"], [PQ + "window.py:insert"], covers=["dock", "dock without area", "tool bar", "tool bar without area", "menu bar", "status bar", "central"], assumes=["QMainWindow's methods do what their names say; addToolBar and addDockWidget take the area first"])
def window_children(S):
    """dock widgets and tool bars go to their area (a dock widget without one is refused), menu bar and status bar to their place; any other widget is the central one"""
    C = kinds("QDockWidget", "QToolBar", "QMenuBar", "QStatusBar", "QWidget", "QLabel")
    M = load_place("window", dict(C, QMainWindow=Rec))
    w, what = Rec(), S.choose(7)
    S.cover(["dock", "dock without area", "tool bar", "tool bar without area", "menu bar", "status bar", "central"][what])
    el = list(C.values())[[0, 0, 1, 1, 2, 3, 4 + S.choose(2)][what]]()
    # what is in the window already
    taken = Rec() if S.choose(2, "taken") else None
    for n in ("centralWidget", "menuWidget"):
        setattr(w, n, lambda: taken)
    area = qtreg.some(S.fresh("area"), "area")
    if what in (0, 2) or what > 3 and S.choose(2):
        el.area = area
    elif S.choose(2):
        el.area = None
    k, r = outcome(M.insert, w, el, *([None] if S.choose(2) else []))
    if what == 1:
        S.oblige("refused", k == "raise" and isinstance(r, NotImplementedError) and not w.calls and el.up is None, repr(r))
        return
    S.oblige("never_raises", k == "return", repr(r))
    if k == "raise":
        return
    calls_are(S, "in_its_place", w.calls, [("addDockWidget", area, el), None, ("addToolBar", area, el), ("addToolBar", el), ("setMenuBar", el), ("setStatusBar", el), ("setCentralWidget", el)][what])
    S.oblige("it_belongs_to_the_window", el.up in (w, None) and not el.calls)


@unit(UNITS, "children of other containers", ["C20"], [PQ + "dockwidget.py:insert", PQ + "dockwidget.py:remove", PQ + "scrollarea.py:insert", PQ + "scrollarea.py:remove", PQ + "listview.py:insert", PQ + "listview.py:remove",
                                                       PQ + "dialogbuttonbox.py:insert", PQ + "dialogbuttonbox.py:remove", PQ + "statusbar.py:insert", PQ + "statusbar.py:remove"],
      covers=["dock contents", "dock title", "scroll area", "scroll area with another widget", "model", "selection", "selection without model", "button", "named button", "button without role", "status", "permanent", "removed", "button removed", "selection removed", "replaced selection removed"],
      assumes=["Qt's methods do what their names say; a view is never without a selection model"])
def places(S):
    """a dock widget has the child as its contents or title bar, a scroll area as its widget, an item view as its model or (for its model) selection model, a dialog button box as a button in its role,
    a status bar as a (permanent) widget; removing takes the child out, and leaves a view with another selection model"""
    name = ["dockwidget", "scrollarea", "listview", "dialogbuttonbox", "statusbar"][S.choose(5, "container")]
    Role = type("ButtonRole", (), {})
    accept = Role()
    C = kinds("QWidget", "QStandardItemModel", "QItemSelectionModel", "QListView", "QTableView", "QTreeView", "QScrollArea", "QDockWidget", "QStatusBar")
    C["QDialogButtonBox"] = type("QDialogButtonBox", (Rec,), {"ButtonRole": Role, "AcceptRole": accept})
    made = []

    class Selection(Rec):
        def __init__(self, *a):
            super().__init__()
            self.args = a
            if a:
                made.append(self)
    C["QItemSelectionModel"] = Selection
    M = load_place(name, C)
    p, el = Rec(), C["QWidget"]()
    remove = S.choose(2, "remove")
    args = [None] if S.choose(2) and not remove else []
    if remove:
        S.cover("removed")
    sel = S.choose(2, "child") if name == "listview" else 0
    if name == "listview":
        el = Selection() if sel else C["QStandardItemModel"]()
    el.up = p if remove else None
    if name == "listview":
        has = remove or S.choose(2, "model")
        model = C["QStandardItemModel"]() if has else None
        p.model = lambda: model
        mine = S.choose(2, "current") if remove and sel else 0
        current = el if mine else Selection()
        p.selectionModel = lambda: current
        k, r = outcome(M.remove if remove else M.insert, p, el, *args)
        if sel and not has:
            S.cover("selection without model")
            S.oblige("refused", k == "raise" and isinstance(r, RuntimeError) and not p.calls, repr(r))
            return
        S.oblige("never_raises", k == "return", repr(r))
        if k == "raise":
            return
        if not remove:
            S.cover("selection" if sel else "model")
            calls_are(S, "in_its_place", p.calls, ("setSelectionModel", el) if sel else ("setModel", el))
            calls_are(S, "for_the_model", el.calls, *([("setModel", model)] if sel else []))
            S.oblige("it_belongs_to_the_container", el.up is p)
            return
        S.oblige("it_no_longer_belongs_to_the_container", el.up is None)
        if not sel:
            return calls_are(S, "out_of_its_place", p.calls, ("setModel", None))
        S.cover("selection removed" if mine else "replaced selection removed")
        ok = all(c[0] == "setSelectionModel" and c[1] is not None and c[1] is not el for c in p.calls)
        S.oblige("the_view_has_another_selection_model", ok and len(p.calls) == (1 if mine else 0), str([c[0] for c in p.calls]))
        if ok and p.calls:
            S.oblige("a_new_one_for_its_model", p.calls[0][1] in made and p.calls[0][1].args[:1] == (model,))
        return
    want = None
    if name == "dockwidget":
        title = S.choose(4, "title")
        if title:
            el.title = title == 1 if title < 3 else Rec().someMethod        # (a group box has a method of that name)
        want = ("setTitleBarWidget" if title == 1 else "setWidget", el)
        S.cover("dock title" if title == 1 else "dock contents")
    elif name == "scrollarea":
        S.cover("scroll area")
        other = remove and S.choose(2, "another widget")
        p.widget = lambda: Rec() if other else el
        want = ("setWidget", el)
    elif name == "statusbar":
        perm = S.choose(3, "permanent")
        if perm:
            el.permanent = perm == 1
        S.cover("permanent" if perm == 1 else "status")
        want = ("addPermanentWidget" if perm == 1 else "addWidget", el)
    else:
        role = S.choose(3, "role") if not remove else 1
        S.cover("button removed" if remove else ["button without role", "button", "named button"][role])
        if role:
            el.role = accept if role == 1 else "AcceptRole"
        want = ("addButton", el, accept)
        if not role:
            k, r = outcome(M.insert, p, el, *args)
            S.oblige("refused", k == "raise" and isinstance(r, NotImplementedError) and not p.calls, repr(r))
            return
    k, r = outcome(M.remove if remove else M.insert, p, el, *args)
    S.oblige("never_raises", k == "return", repr(r))
    if k == "raise":
        return
    if not remove:
        calls_are(S, "in_its_place", p.calls, want)
        S.oblige("it_belongs_to_the_container", el.up is p or name == "dialogbuttonbox")
        return
    S.oblige("it_no_longer_belongs_to_the_container", el.up is None)
    out = {"dialogbuttonbox": ("removeButton", el), "statusbar": ("removeWidget", el), "scrollarea": ("takeWidget",)}.get(name)
    got = [tuple(c) for c in p.calls]
    if name == "dockwidget":
        S.oblige("nothing_is_added", all(c[0] in ("setWidget", "setTitleBarWidget") and c[1] is None for c in got), str(got))
    elif name == "scrollarea" and other:
        S.cover("scroll area with another widget")
        S.oblige("the_other_widget_stays", not got, str(got))
    else:
        S.oblige("it_is_taken_out_of_the_container", got == [out], str(got))


@unit(UNITS, "children with an index", ["C20"], [PQ + "tab.py:insert", PQ + "itemmodel.py:insert", PQ + "standarditem.py:insert", PQ + "standarditem.py:remove", PQ + "standarditem.py:set_attribute"],
      covers=["tab", "tab before another", "tab at the end", "item of a model", "child of an item", "item removed", "index before it is in a model", "index of a top item", "index of a child", "same index"],
      assumes=["the methods of QTabWidget, QStandardItem and QStandardItemModel do what their names say"])
def with_index(S):
    """a tab stands at its tab index, an item at its model index, whatever the anchor; a mounted item whose index changes is taken out and put there; removing takes out the row in which the item stands now"""
    what = ["tab", "itemmodel", "standarditem", "removed", "changed"][S.choose(5)]
    C = kinds("QTabWidget", "QWidget", "QStandardItemModel", "QStandardItem")
    done = []
    q = qns(**C)
    reg = lambda *t, **k: (lambda f: f)
    imports = {"collagraph.renderers": ns(PySideRenderer=ns(register_set_attr=reg, register_insert=reg, register_remove=reg)), "PySide6.QtWidgets": q, "PySide6.QtGui": q,
               "collagraph.renderers.pyside.objects.qobject": ns(set_attribute=lambda *a: done.append(a))}
    M = load(PQ + {"tab": "tab", "itemmodel": "itemmodel"}.get(what, "standarditem") + ".py", imports, name="pyside_indexed_" + what)
    row, col = S.int("row", 0), S.int("column", 0)
    now = ns(row=lambda: nrow, column=lambda: ncol)
    nrow, ncol = S.int("row now", 0), S.int("column now", 0)
    anchor = C["QWidget" if what == "tab" else "QStandardItem"]() if S.choose(2, "anchor") else None
    args = [anchor] if anchor is not None or S.choose(2, "given") else []
    if what == "tab":
        p, el = C["QTabWidget"](), C["QWidget"]()
        at, label, aidx = S.int("tab_index"), S.str("tab_label"), S.int("anchor index", 0)
        given, named = S.choose(2, "index"), S.choose(2, "label")
        if given:
            el.tab_index = at
        if named:
            el.tab_label = label
        p.indexOf = lambda x: aidx if x is anchor else E.throw(E.Unsupported("index of another widget"))
        k, r = outcome(M.insert, p, el, *args)
        S.oblige("never_raises", k == "return", repr(r))
        if k == "raise":
            return
        text = label if named else ""
        pos = at if given and S.branch(at.t >= 0) else aidx if anchor is not None else None
        S.cover("tab at the end" if pos is None else "tab" if pos is at else "tab before another")
        c = p.calls[0] if len(p.calls) == 1 else ()
        same_text = lambda x: x is text or (isinstance(x, str) and x == text)
        S.oblige("in_its_place", (len(c) == 3 and c[0] == "addTab" and c[1] is el and same_text(c[2])) if pos is None else
                 (len(c) == 4 and c[0] == "insertTab" and isinstance(c[1], (SI, int)) and E.S.check_always(toi(c[1]) == pos.t) and c[2] is el and same_text(c[3])), str(p.calls))
        return
    el = C["QStandardItem"]()
    if what in ("itemmodel", "standarditem"):
        S.cover("item of a model" if what == "itemmodel" else "child of an item")
        p = C["QStandardItemModel" if what == "itemmodel" else "QStandardItem"]()
        el.model_index = (row, col)
        k, r = outcome(M.insert, p, el, *args)
        S.oblige("never_raises", k == "return", repr(r))
        if k == "return":
            calls_are(S, "in_its_place", p.calls, ("setItem" if what == "itemmodel" else "setChild", row, col, el))
        return
    model = C["QStandardItemModel"]() if S.choose(2, "in a model") else None
    el.model = lambda: model
    if model is not None:
        model.indexFromItem = lambda x: now if x is el else E.throw(E.Unsupported("index of another item"))
    if what == "removed":
        S.cover("item removed")
        p = C["QStandardItem"]()
        indexed = S.choose(2, "indexed")
        el.row = lambda: nrow
        if indexed:
            el.model_index = (row, col)
        k, r = outcome(M.remove, p, el)
        S.oblige("never_raises", k == "return", repr(r))
        if k == "return":
            calls_are(S, "its_row_is_taken_out", p.calls, ("takeRow", nrow if model is not None or not indexed else row))
        return
    up = C["QStandardItem"]() if S.choose(2, "below another item") else None
    el.up = up
    holder = up or model
    took = []

    def take(*a):
        took.append(a)
        holder.calls.append(("take", *a))
        return el
    if holder is not None:
        holder.takeChild = holder.takeItem = take
    k, r = outcome(M.set_attribute, el, "model_index", (row, col))
    S.oblige("never_raises", k == "return", repr(r))
    if k == "raise":
        return
    S.oblige("kept_for_insertion", len(done) == 1 and done[0][0] is el and done[0][1] == "model_index" and len(done[0][2]) == 2 and done[0][2][0] is row and done[0][2][1] is col)
    if model is None:
        S.cover("index before it is in a model")
        S.oblige("only_that", up is None or not up.calls)
    elif S.branch(z3.And(nrow.t == row.t, ncol.t == col.t)):
        S.cover("same index")
        S.oblige("it_stays", not holder.calls or [c[0] for c in holder.calls] in (["take", "setChild"], ["take", "setItem"]))
    else:
        S.cover("index of a child" if up else "index of a top item")
        calls_are(S, "moved_to_its_place", holder.calls, ("take", nrow, ncol), ("setChild" if up else "setItem", row, col, el))
        S.oblige("nothing_else_changes", up is None or not model.calls)


class Row:
    def __init__(self, label):
        self.labelItem = label


@unit(UNITS, "children of grids and forms", ["C20"], [PQ + "layouts.py:grid_insert", PQ + "layouts.py:form_insert", PQ + "layouts.py:remove_form", PQ + "layouts.py:layout_insert", PQ + "layouts.py:remove_layout", PQ + "layouts.py:set_grid_index",
                                                      PQ + "layouts.py:set_form_index"],
      covers=["grid", "row", "last row", "plain", "form removed", "removed", "index before it is mounted", "index later", "form index", "form label", "row placed anew"], assumes=["QGridLayout.addWidget, QFormLayout.insertRow, addRow and takeRow do what their names say"])
def grids_and_forms(S):
    """a child stands at its index in a grid, in its row (or a last one) with its label in a form, at the end of any other layout; removing takes out that child, and not its contents; an index, row or label
    that is set later is kept, and places a mounted child anew"""
    M, made, q = layouts_module(S)
    what = ["grid", "row", "last row", "plain", "form removed", "removed", "grid attribute", "form attribute"][S.choose(8)]
    lay, el = Rec(), Rec()
    idx, label = tuple(S.int(f"cell{j}", 0) for j in range(2 + 2 * S.choose(2))), S.str("label")
    row = S.int("row", 0)
    if what in ("grid", "row", "last row", "plain"):
        S.cover(what)
        if what == "grid":
            el.grid_index = idx
        elif what != "plain":
            el.form_label = label
            if what == "row":
                el.form_index = row
        f = M.grid_insert if what == "grid" else M.layout_insert if what == "plain" else M.form_insert
        k, r = outcome(f, lay, el, *([None] if S.choose(2) else []))
        S.oblige("never_raises", k == "return", repr(r))
        if k == "return":
            calls_are(S, "in_its_place", lay.calls, ("addWidget", el, *idx) if what == "grid" else ("addWidget", el) if what == "plain" else ("insertRow", row, label, el) if what == "row" else ("addRow", label, el))
        return
    if what in ("form removed", "removed"):
        S.cover(what)
        el.up = Rec()
        caption = Rec()
        li = [None, Rec(), Rec()][S.choose(3, "label")]
        if li is not None:
            w = caption if S.choose(2) else None
            li.widget = lambda: w
        lay.takeRow = lambda x: (lay.calls.append(("takeRow", x)), Row(li))[1]
        k, r = outcome(M.remove_form if what == "form removed" else M.remove_layout, lay, el)
        S.oblige("never_raises", k == "return", repr(r))
        if k == "return":
            calls_are(S, "that_child_is_taken_out", lay.calls, ("takeRow" if what == "form removed" else "removeWidget", el))
            S.oblige("it_no_longer_belongs_to_the_parent", el.up is None)
            S.oblige("it_is_not_deleted", not el.calls)
        return
    parent = Rec()
    parent.layout = lambda: lay
    mounted = S.choose(2, "mounted")
    if mounted:
        el.up = parent
    S.cover("index later" if mounted else "index before it is mounted")
    if what == "grid attribute":
        if S.choose(2, "again"):
            el.grid_index = tuple(S.int(f"before{j}", 0) for j in range(2))
        k, r = outcome(M.set_grid_index, el, "grid_index", idx)
        S.oblige("never_raises", k == "return", repr(r))
        if k == "return":
            S.oblige("kept_for_insertion", getattr(el, "grid_index", None) is idx or getattr(el, "grid_index", None) == idx)
            calls_are(S, "placed_if_mounted", lay.calls, *([("addWidget", el, *idx)] if mounted else []))
        return
    attr = ("form_label", "form_index")[S.choose(2, "attr")]
    S.cover("form label" if attr == "form_label" else "form index")
    val, other = (label, "form_index") if attr == "form_label" else (row, "form_label")
    if S.choose(2, "other one"):
        setattr(el, other, row if other == "form_index" else label)
    # a mounted child with a label has a row of its own
    there, at = mounted and hasattr(el, "form_label"), S.int("at", 0)
    caption, li, gone = Rec(), Rec(), []
    li.widget = lambda: caption
    caption.deleteLater = lambda: gone.append(caption)
    lay.takeRow = lambda x: (lay.calls.append(("takeRow", x)), Row(li))[1]
    lay.indexOf = lambda x: E.mki(z3.If(z3.BoolVal(bool(there)), z3.Int("item"), z3.IntVal(-1)))
    S.assume(z3.Int("item") >= 0)
    lay.getWidgetPosition = lambda x: (at, 1)
    lay.labelForField = lambda x: caption if there else None
    k, r = outcome(M.set_form_index, el, attr, val)
    S.oblige("never_raises", k == "return", repr(r))
    if k == "return":
        S.oblige("kept_for_insertion", getattr(el, attr, None) is val)
        full, named = hasattr(el, "form_label") and hasattr(el, "form_index"), hasattr(el, "form_label")
        if there:
            S.cover("row placed anew")
            S.oblige("the_old_row_and_its_label_are_gone", len(gone) == 1 and [c[0] for c in lay.calls][:1] == ["takeRow"], str(lay.calls))
            calls_are(S, "placed_anew", lay.calls, ("takeRow", el), ("insertRow", row if full else at, label, el))
            S.oblige("it_belongs_to_the_parent", el.up is parent)
            return
        calls_are(S, "placed_if_mounted", lay.calls, *([("insertRow", row, label, el)] if mounted and full else [("addRow", label, el)] if mounted and named else []))

"""renderers/pyside_renderer.py and renderers/pyside/**: children of Qt objects (C20), names, attributes and events (C21).

Qt itself is given by the assumed contracts of the model classes below."""
from base import *
import engine as E
from contracts.lists import DList, base_list, inserted, removed, St, ite, clamp
UNITS = []
I = z3.IntSort()
B = z3.BoolSort()
STR = z3.StringSort()
PKG = "collagraph/renderers/pyside/objects/"
QT_API = ["Qt (PySide6) by the contracts of the model classes in prover/contracts/qt.py: insert*/add* put the child before the given index or action (at the end without one, "
          "or if the index is negative and the class says so), remove*/take* take out exactly that child, setParent(other) takes a widget out of its layout or splitter"]


class QSpec(Spec):
    def iterable(self, S, it, where):
        return it.seq() if isinstance(it, DList) else it

    def index(self, S, seq):
        return S.notes.get("I")


class Truthy(type):
    pass


class Q:
    """An object of a model class; `known` are its further attributes."""
    mem = None

    def __init__(self, name="q", **known):
        self.zt__ = V.r(E.S.fresh(name, I))
        self.owner = None
        self.up = known.pop("up", None)
        self.calls = []
        self.__dict__.update(known)

    def parent(self):
        return self.up

    def setParent(self, p, *flags):
        self.calls.append(("setParent", p))
        if p is not self.up:
            if self.owner is not None and p is not self.owner.host:
                self.owner.taken(self)
            self.up = p


class Children:
    """The ordered children of a container: a list of any length, of distinct objects."""
    def __init__(self, S, host, name):
        self.host, self.l = host, DList(base_list(S, name), "qtchild")
        self.old = self.l.s
        self.inside = []                 # the model objects whose place is known

    def hold(self, x):
        E.S.assume(self.old.mem(x.zt__))
        self.inside.append(x)
        x.owner = self

    def taken(self, x):
        if E.S.branch(self.l.s.mem(tov(x))):
            self.l.set(removed(self.l.s, self.l.s.pos(tov(x))))
        if isinstance(x, Q):
            x.owner = None

    def put(self, i, x):
        """Before position i, at the end for a negative or too large one."""
        if E.S.branch(self.l.s.mem(tov(x))):
            raise E.Unsupported("insertion of a present child")
        t, n = toi(i), self.l.s.n
        self.l.set(inserted(self.l.s, z3.simplify(ite(z3.Or(t < 0, t > n), n, t)), tov(x)))
        x.owner = self

    def put_strict(self, i, x):
        """As put, but nothing happens for an index out of range."""
        t, n = toi(i), self.l.s.n
        if E.S.branch(z3.And(t >= 0, t <= n)):
            self.put(i, x)

    def end(self, x):
        self.put(mki(self.l.s.n), x)

    def before(self, a, x):
        if a is None or not E.S.branch(self.l.s.mem(tov(a))):
            return self.end(x)
        self.put(mki(self.l.s.pos(tov(a))), x)

    def where(self, x):
        s = self.l.s
        return mki(ite(s.mem(tov(x)), s.pos(tov(x)), z3.IntVal(-1)))

    def take(self, i):
        t, n = toi(i), self.l.s.n
        if E.S.branch(z3.And(t >= 0, t < n)):
            self.l.set(removed(self.l.s, t))


class QWidget(Q):
    lay = None

    def layout(self):
        return self.lay

    def setLayout(self, l):
        if self.lay is not None:
            raise E.Unsupported("setLayout with a layout")
        self.lay = l
        l.kids.host = l.host = self

    def window(self):
        return self.__dict__.setdefault("win", Q("window"))

    def windowFlags(self):
        return "flags"

    def show(self):
        self.calls.append(("show",))

    def close(self):
        self.calls.append(("close",))

    def hide(self):
        self.calls.append(("hide",))

    def deleteLater(self):
        self.calls.append(("deleteLater",))


class QLayout(Q):
    def __init__(self, S, host):
        super().__init__("layout")
        self.host, self.kids = host, Children(S, host, "items")

    def removeWidget(self, w):
        self.kids.taken(w)

    def addWidget(self, w, *a):
        if a:
            raise E.Unsupported("addWidget")
        self.reparent(w)
        self.kids.end(w)

    def indexOf(self, w):
        return self.kids.where(w)

    def reparent(self, w):
        if w.up is not self.host:
            w.setParent(self.host)

    def count(self):
        return self.kids.l.length()


class QBoxLayout(QLayout):
    class Direction:
        TopToBottom, LeftToRight, RightToLeft, BottomToTop = "TopToBottom", "LeftToRight", "RightToLeft", "BottomToTop"

    def insertWidget(self, i, w, *a):
        if a:
            raise E.Unsupported("insertWidget")
        self.reparent(w)
        self.kids.put(i, w)


class QStackedLayout(QLayout):
    insertWidget = QBoxLayout.insertWidget


class QFormLayout(QLayout):
    pass


class QGridLayout(QLayout):
    pass


class QSplitter(QWidget):
    def __init__(self, S):
        super().__init__("splitter")
        self.kids = Children(S, self, "widgets")

    def indexOf(self, w):
        return self.kids.where(w)

    def insertWidget(self, i, w):
        w.setParent(self)
        self.kids.put(i, w)

    def addWidget(self, w):
        w.setParent(self)
        self.kids.end(w)

    def count(self):
        return self.kids.l.length()


class QTabWidget(QWidget):
    def __init__(self, S):
        super().__init__("tabs")
        self.kids = Children(S, self, "pages")

    def indexOf(self, w):
        return self.kids.where(w)

    def insertTab(self, i, w, label):
        w.setParent(self)
        self.kids.put(i, w)

    def addTab(self, w, label):
        self.insertTab(-1, w, label)

    def removeTab(self, i):
        self.kids.take(i)

    def count(self):
        return self.kids.l.length()


class QAction(Q):
    def setParent(self, p):
        self.up = p                      # the menus and bars that show the action are independent of its parent


class QWidgetAction(QAction):
    def __init__(self, w, t=None):
        self.zt__ = t if t is not None else V.r(E.S.fresh("action", I))
        self.w, self.owner, self.up, self.calls = w, None, None, []

    def defaultWidget(self):
        return self.w


class Actions(QWidget):
    def __init__(self, S, name):
        super().__init__(name)
        self.kids = Children(S, self, "actions")

    def insertAction(self, before, a):
        if not isinstance(a, (QAction, Q)):
            raise E.Unsupported("insertAction")
        if E.S.branch(self.kids.l.s.mem(tov(a))):
            self.kids.taken(a)
        self.kids.before(before, a)

    def addAction(self, a):
        self.insertAction(None, a)

    def removeAction(self, a):
        self.kids.taken(a)

    def actions(self):
        l = self.kids.l.copy()
        l.k = "qtaction"
        return l

    def insertMenu(self, before, m):
        self.insertAction(before, m.menuAction())
        return m.menuAction()

    def addMenu(self, m):
        return self.insertMenu(None, m)


class QMenu(Actions):
    def __init__(self, S):
        super().__init__(S, "menu")
        self.act = QAction("menuaction")

    def menuAction(self):
        return self.act


class QMenuBar(Actions):
    def __init__(self, S):
        super().__init__(S, "menubar")


WIDGET_OF, IS_WA = uf("widget_of_action", V, V), uf("is_widget_action", V, B)


class QToolBar(Actions):
    def __init__(self, S):
        super().__init__(S, "toolbar")

    def insertWidget(self, before, w):
        if self.kids.host is not self:
            raise E.Unsupported("host")
        a = QWidgetAction(w)
        E.S.assume(z3.Not(self.kids.l.s.mem(a.zt__)))
        w.setParent(self)
        E.S.notes["made"] = a
        self.kids.before(before, a)
        return a

    def addWidget(self, w):
        return self.insertWidget(None, w)


class Item(Q):
    def __init__(self, S, name):
        super().__init__(name)
        self.kids = Children(S, self, "rows")


class QStandardItem(Item):
    """(The item el itself: its own rows are not touched.)"""
    def rowCount(self):
        return self.kids.l.length()

    def child(self, r, c=0):
        return E.S.wrap(self.kids.l.s.at(toi(r)), "qtchild")

    def insertRow(self, i, x):
        self.kids.put_strict(i, x)

    def appendRow(self, x):
        self.kids.end(x)

    def takeRow(self, i):
        self.kids.take(i)

    def removeRow(self, i):
        raise E.Unsupported("removeRow deletes the item")

    def row(self):
        return self.owner.where(self) if self.owner is not None else -1

    def model(self):
        return None


class ModelIndex:
    def __init__(self, r):
        self.r = r

    def row(self):
        return self.r

    def isValid(self):
        return mkb(toi(self.r) >= 0)


class QStandardItemModel(Item):
    rowCount, insertRow, appendRow, takeRow, removeRow = QStandardItem.rowCount, QStandardItem.insertRow, QStandardItem.appendRow, QStandardItem.takeRow, QStandardItem.removeRow

    def indexFromItem(self, x):
        return ModelIndex(self.kids.where(x))

    def item(self, r, c=0):
        return E.S.wrap(self.kids.l.s.at(toi(r)), "qtchild")


class QTreeWidgetItem(Item):
    def indexOfChild(self, x):
        return self.kids.where(x)

    def insertChild(self, i, x):
        if x.up is None:
            self.kids.put_strict(i, x)
            x.up = self

    def addChild(self, x):
        self.insertChild(mki(self.kids.l.s.n), x)

    def removeChild(self, x):
        if E.S.branch(self.kids.l.s.mem(tov(x))):
            self.kids.taken(x)
            x.up = None

    def takeChild(self, i):
        raise E.Unsupported("takeChild")

    def childCount(self):
        return self.kids.l.length()

    def child(self, r):
        return E.S.wrap(self.kids.l.s.at(toi(r)), "qtchild")

    def setExpanded(self, v):
        self.calls.append(("setExpanded", v))

    def setSelected(self, v):
        self.calls.append(("setSelected", v))


class QTreeWidget(QWidget):
    def __init__(self, S):
        super().__init__("treewidget")
        self.root = QTreeWidgetItem(S, "root")

    def invisibleRootItem(self):
        return self.root

    def topLevelItemCount(self):
        return self.root.childCount()

    def indexOfTopLevelItem(self, x):
        return self.root.indexOfChild(x)

    def insertTopLevelItem(self, i, x):
        self.root.insertChild(i, x)

    def addTopLevelItem(self, x):
        self.root.addChild(x)


class QApplication(Q):
    pass


class QDialog(QWidget):
    pass


Kind("qtchild", truthy="always", eq="is")
Kind("qtaction", truthy="always", eq="is", methods={"defaultWidget": lambda S, o: SV(WIDGET_OF(o.zt__), "qtchild")})
CLASSES = [QWidget, QLayout, QBoxLayout, QStackedLayout, QFormLayout, QGridLayout, QSplitter, QTabWidget, QAction, QWidgetAction, QMenu, QMenuBar, QToolBar, QStandardItem, QStandardItemModel, QTreeWidgetItem, QTreeWidget,
           QApplication, QDialog]


def q_isinstance(S, x, k):
    if isinstance(x, SV) and x.zk__.name == "qtaction":
        if k is QAction:
            return True
        if k is QWidgetAction:
            return mkb(IS_WA(x.zt__))
    raise E.Unsupported(f"isinstance of {type(x).__name__}")


def b_range(*a):
    if not any(E.is_sym(x) for x in a):
        return range(*a)
    if len(a) != 1:
        raise E.Unsupported("range")
    n = toi(a[0])
    return SeqView(z3.simplify(ite(n < 0, z3.IntVal(0), n)), lambda t: mki(t), name="range", kind="range")


class RendererModel:
    """PySideRenderer: the registered functions by class."""
    def __init__(self):
        self.ins, self.rem, self.sets, self.custom, self.layouts = {}, {}, {}, {}, {}
        for name, d in (("register_insert", self.ins), ("register_remove", self.rem), ("register_set_attr", self.sets), ("register_custom_attribute", self.custom)):
            setattr(self, name, self.register(d))

    def register(self, d):
        def f(*types, func=None):
            def deco(g):
                for t in types:
                    d.setdefault(t, g)
                return g
            return deco(func) if func else deco
        return f

    def register_layout(self, name, typ=None):
        self.layouts[name] = typ

    def create_object(self, name):
        if name != "box":
            raise E.Unsupported("create_object")
        l = QBoxLayout(E.S, None)
        E.S.assume(l.kids.old.n == 0)
        E.S.assume(z3.Not(l.kids.old.mem(E.S.notes["child"].zt__)))
        return wrap(self, l)

    def find(self, d, c):
        for k in c.__mro__:
            if k in d:
                return d[k]
        raise E.Unsupported(f"nothing registered for {c.__name__}")


def wrap(R, o):
    """An object as the renderer creates it: with the registered methods of its class."""
    c = type(o)
    o.insert = lambda el, anchor=None: R.find(R.ins, c)(o, el, anchor)
    o.remove = lambda el: R.find(R.rem, c)(o, el)
    return o


def qt_ns():
    import types as T

    class NS(E.Stub):
        pass
    m = NS("PySide6.model")
    for c in CLASSES:
        setattr(m, c.__name__, c)
    return m


_objects = {}


def objects(S):
    """The modules of pyside/objects, loaded against the model classes."""
    R = RendererModel()
    q = qt_ns()
    top = ns(PySideRenderer=R)
    P = load("collagraph/renderers/pyside/__init__.py", {}, name="pyside_v")
    imports = {"PySide6": ns(QtWidgets=q, QtGui=q, QtCore=q), "PySide6.QtWidgets": q, "PySide6.QtGui": q, "PySide6.QtCore": q, "collagraph.renderers": top,
               "collagraph.renderers.pyside": P, "collagraph.renderers.pyside_renderer": ns(PySideRenderer=R, LAYOUT_MAPPING=R.layouts)}
    mods = {}
    for n in ["qobject", "layouts", "widget", "splitter", "tab", "menu", "menubar", "toolbar", "treewidgetitem", "treewidget", "standarditem", "itemmodel"]:
        mods[n] = load(PKG + n + ".py", imports, name="pyside_objects_" + n)
        imports["collagraph.renderers.pyside.objects." + n] = mods[n]
        mods[n].range = b_range
    return R, ns(**mods), q


PAIRS = {
    "box layout": (lambda S: host_with(S, QBoxLayout), lambda S: QWidget("w"), "widget", "layouts"),
    "stacked layout": (lambda S: host_with(S, QStackedLayout), lambda S: QWidget("w"), "widget", "layouts"),
    "splitter": (lambda S: QSplitter(S), lambda S: QWidget("w"), "splitter", None),
    "tab widget": (lambda S: QTabWidget(S), lambda S: QWidget("w"), "tab", None),
    "menu with actions": (lambda S: QMenu(S), lambda S: QAction("a"), "menu", None),
    "menu with menus": (lambda S: QMenu(S), lambda S: QMenu(S), "menu", None),
    "menu with both": (lambda S: QMenu(S), lambda S: (QMenu(S) if S.choose(2) else QAction("a")), "menu", None),
    "menu bar": (lambda S: QMenuBar(S), lambda S: QMenu(S), "menubar", None),
    "tool bar with actions": (lambda S: QToolBar(S), lambda S: QAction("a"), "toolbar", None),
    "tool bar with widgets": (lambda S: QToolBar(S), lambda S: QWidget("w"), "toolbar", None),
    "tool bar with both": (lambda S: QToolBar(S), lambda S: (QWidget("w") if S.choose(2) else QAction("a")), "toolbar", None),
    "tree widget": (lambda S: QTreeWidget(S), lambda S: QTreeWidgetItem(S, "it"), "treewidget", "treewidgetitem"),
    "tree widget item": (lambda S: QTreeWidgetItem(S, "p"), lambda S: QTreeWidgetItem(S, "it"), "treewidgetitem", None),
    "standard item": (lambda S: QStandardItem(S, "p"), lambda S: QStandardItem(S, "it"), "standarditem", None),
    "item model": (lambda S: QStandardItemModel(S, "p"), lambda S: QStandardItem(S, "it"), "itemmodel", None),
}


def host_with(S, layout):
    w = QWidget("parent")
    w.lay = layout(S, w)
    return w


def kids_of(o):
    return o.lay.kids if type(o) is QWidget else o.root.kids if isinstance(o, QTreeWidget) else o.kids


def entry(S, K, x):
    """What stands for the child in the container: its action in menus and tool bars."""
    if isinstance(K.host, Actions):
        if isinstance(x, QMenu):
            return x.menuAction()
        if isinstance(x, QWidget):
            return x.__dict__.setdefault("wa", QWidgetAction(x))
    return x


def place(S, K, x, inside):
    """x is (not) a child of the container already."""
    e = entry(S, K, x)
    if inside:
        K.hold(e)
        if isinstance(e, QWidgetAction):
            S.assume(IS_WA(e.zt__))
            S.assume(WIDGET_OF(e.zt__) == x.zt__)
            K.l.s.invt.append(lambda t: S.assume(z3.Implies(z3.And(t >= 0, t < K.old.n, WIDGET_OF(K.old.at(t)) == x.zt__, IS_WA(K.old.at(t))), K.old.at(t) == e.zt__)))
        S.notes["I"] = K.old.pos(e.zt__)
        if isinstance(K.host, (QSplitter, QToolBar, QTabWidget)) and isinstance(x, QWidget) and not isinstance(x, QMenu) or isinstance(K.host, QWidget) and not isinstance(K.host, Actions) or isinstance(K.host, QTreeWidgetItem):
            x.up = K.host
    else:
        S.assume(z3.Not(K.old.mem(e.zt__)))
    return e


def make(name):
    mk_parent, mk_child, mod, via = PAIRS[name]
    files = [PKG + m + ".py" for m in (mod, via) if m]
    wrapped = [f"{PKG}{mod}.py:insert", f"{PKG}{mod}.py:remove"] + ([PKG + "layouts.py:box_layout_insert", PKG + "layouts.py:remove_layout"] if via == "layouts" else [f"{PKG}{via}.py:insert", f"{PKG}{via}.py:remove"] if via else []) \
        + ([PKG + "toolbar.py:widget_action"] if "tool bar" in name else [])

    @unit(UNITS, "children of " + name, ["C20"], wrapped, spec=QSpec, hooks={"isinstance": q_isinstance}, covers=["anchor", "end", "remove"], assumes=QT_API)
    def children(S):
        """for any number of other children: a child inserted with an anchor stands directly before it, without one at the end; removing takes out exactly
        that child; all others keep their order"""
        R, M, q = objects(S)
        p = wrap(R, mk_parent(S))
        K = kids_of(p)
        if type(p) is QWidget:
            wrap(R, p.lay)
        x = mk_child(S)
        what = S.choose(3, "operation")
        if what == 2:
            S.cover("remove")
            e = place(S, K, x, True)
            old = K.l.s
            kind, r = outcome(p.remove, x)
            S.oblige("never_raises", kind == "return", repr(r))
            if kind == "raise":
                return
            new, t = K.l.s, S.fresh("t", I)
            at = old.pos(e.zt__)
            S.oblige("one_child_less", new.n == old.n - 1)
            if type(x) is QWidget and type(p) in (QWidget, QSplitter, QToolBar):
                S.oblige("the_child_no_longer_belongs_to_the_parent", x.up is not p)
            S.oblige("exactly_that_child_is_gone", z3.Implies(z3.And(t >= 0, t < old.n - 1), new.at(t) == ite(t < at, old.at(t), old.at(t + 1))))
            return
        a = mk_child(S) if what == 1 else None
        e = None if isinstance(p, QToolBar) and isinstance(x, QWidget) else place(S, K, x, False)
        at = K.old.n
        if a is not None:
            S.cover("anchor")
            S.assume(a.zt__ != x.zt__)
            ae = place(S, K, a, True)
            if e is not None:
                S.assume(ae.zt__ != e.zt__)
            at = K.old.pos(ae.zt__)
        else:
            S.cover("end")
        old = K.l.s
        kind, r = outcome(p.insert, x, a)
        S.oblige("never_raises", kind == "return", repr(r))
        if kind == "raise":
            return
        if e is None:
            e = S.notes.get("made")
            S.oblige("the_child_is_added", e is not None)
            if e is None:
                return
        new, t = K.l.s, S.fresh("t", I)
        S.oblige("one_child_more", new.n == old.n + 1)
        S.oblige("directly_before_the_anchor_or_at_the_end", z3.Implies(z3.And(t >= 0, t <= old.n), new.at(t) == ite(t < at, old.at(t), ite(t == at, e.zt__, old.at(t - 1)))))
    return children


for n in PAIRS:
    make(n)


@unit(UNITS, "first child of a widget", ["C20"], [PKG + "widget.py:insert"], spec=QSpec, hooks={"isinstance": q_isinstance}, assumes=QT_API)
def first_child(S):
    """a widget without a layout gets one, in which the child stands"""
    R, M, q = objects(S)
    p, x = wrap(R, QWidget("parent")), QWidget("w")
    S.notes["child"] = x
    kind, r = outcome(p.insert, x, None)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("there_is_a_layout_with_the_child", isinstance(p.lay, QBoxLayout) and x.owner is p.lay.kids and p.lay.kids.l.mutated == 1)
    S.oblige("the_child_belongs_to_the_widget", x.up is p)

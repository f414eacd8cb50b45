"""C20 (children of Qt containers) and C21 (names, attributes, events of Qt elements)."""
import gc, itertools, logging, random, warnings
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
gc.disable()        # Qt objects that Python collects in the wrong order crash the process
from PySide6 import QtCore, QtGui, QtWidgets
import shiboken6
app = QtWidgets.QApplication.instance() or QtWidgets.QApplication([])
import collagraph as cg
from common import Fail

R = cg.PySideRenderer(autoshow=False)
KEEP = []


def mk(t, **attrs):
    e = R.create_element(t)
    KEEP.append(e)
    for k, v in attrs.items():
        R.set_attribute(e, k, v)
    return e


# ------------------------------------------------------------------ C20
def lay(p):
    q = p.layout()
    return [q.itemAt(i).widget() for i in range(q.count())] if q else []


def acts(p):
    out = []
    for a in p.actions():
        w = a.defaultWidget() if isinstance(a, QtWidgets.QWidgetAction) else None
        out.append(w or a.menu() or a)
    return out


PARENTS = {
    "widget": ("widget", {}, ["label", "button"], lay),
    "hbox": ("widget", {"layout": {"type": "box", "direction": "LeftToRight"}}, ["label", "widget"], lay),
    "rtl": ("widget", {"layout": {"type": "box", "direction": "RightToLeft"}}, ["label"], lay),
    "stacked": ("widget", {"layout": {"type": "stacked"}}, ["label", "button"], lay),
    "groupbox": ("groupbox", {}, ["label", "slider"], lay),
    "splitter": ("QSplitter", {}, ["label", "button"], lambda p: [p.widget(i) for i in range(p.count())]),
    "tabs": ("QTabWidget", {}, ["label", "button"], lambda p: [p.widget(i) for i in range(p.count())]),
    "menu": ("menu", {}, ["menu", "action"], acts),
    "menubar": ("menubar", {}, ["menu"], acts),
    "toolbar": ("toolbar", {}, ["action", "button"], acts),
    "treewidget": ("treewidget", {}, ["treewidgetitem"], lambda p: [p.topLevelItem(i) for i in range(p.topLevelItemCount())]),
    "treewidgetitem": ("treewidgetitem", {}, ["treewidgetitem"], lambda p: [p.child(i) for i in range(p.childCount())]),
    "standarditem": ("standarditem", {}, ["standarditem"], lambda p: [p.child(i) for i in range(p.rowCount())]),
    "itemmodel": ("itemmodel", {}, ["standarditem"], lambda p: [p.item(i) for i in range(p.rowCount())]),
}


OWNED = {"widget", "hbox", "rtl", "stacked", "groupbox", "splitter", "toolbar"}


def check_children(case):
    if case.get("parent") not in PARENTS:
        return None
    pt, attrs, kinds, observe = PARENTS[case["parent"]]
    p = mk(pt, **attrs)
    pool = [mk(kinds[k % len(kinds)]) for k in case["pool"]]
    want = []
    show = lambda els: [next((i for i, x in enumerate(pool) if x is e), type(e).__name__) for e in els]
    for op in case["ops"]:
        if len(op) != 3 or op[1] >= len(pool):
            continue
        k, e, a = op
        if k == "ins":
            if e in want:
                continue
            a = a if a in want else None
            R.insert(pool[e], p, anchor=None if a is None else pool[a])
            want.insert(len(want) if a is None else want.index(a), e)
        elif e in want:
            R.remove(pool[e], p)
            want.remove(e)
            if case["parent"] in OWNED and isinstance(pool[e], QtWidgets.QWidget) and pool[e].parent() is p:
                return f"order: {case['parent']}: after {op} the child still belongs to its parent ({case['ops']})"
        got = show(observe(p))
        if got != want:
            return f"order: {case['parent']}: after {op} the children are {got} instead of {want} ({case['ops']})"


def gen_children(rng, size=None):
    n = rng.randrange(2, 6)
    return {"parent": rng.choice(list(PARENTS)), "pool": [rng.randrange(2) for _ in range(n)],
            "ops": [[rng.choice(["ins", "ins", "rem"]), rng.randrange(n), rng.choice([None, *range(n)])] for _ in range(rng.randrange(2, 14))]}


def small_children(tier):
    kinds = [(0, 0, 0), (0, 1, 0), (1, 0, 1)] if tier == "quick" else list(itertools.product((0, 1), repeat=3))
    for p in PARENTS:
        for pool in kinds:
            if max(pool) >= len(PARENTS[p][2]):
                continue
            for a1 in (None, 0):
                for a2 in (None, 0, 1):
                    for rem in (0, 1, 2):
                        for again in [None, *[x for x in (0, 1, 2) if x != rem]]:
                            yield {"parent": p, "pool": list(pool), "ops": [["ins", 0, None], ["ins", 1, a1], ["ins", 2, a2], ["rem", rem, None], ["ins", rem, again]]}


FOREST = {
    "tree": ("treewidget", "treewidgetitem", lambda p: [p.topLevelItem(i) for i in range(p.topLevelItemCount())] if isinstance(p, QtWidgets.QTreeWidget) else [p.child(i) for i in range(p.childCount())]),
    "items": ("itemmodel", "standarditem", lambda p: [p.item(i) for i in range(p.rowCount())] if isinstance(p, QtGui.QStandardItemModel) else [p.child(i) for i in range(p.rowCount())]),
    "menus": ("menubar", "menu", acts),
    "widgets": ("widget", "widget", lay),
}


def check_forest(case):
    """Children of children: every element can hold others."""
    if case.get("kind") not in FOREST:
        return None
    root, kid, observe = FOREST[case["kind"]]
    n = case["n"]
    els = [mk(root)] + [mk(kid) for _ in range(n)]
    kids, up = [[] for _ in els], [None] * len(els)

    def below(a, b):
        return a == b or any(below(c, b) for c in kids[a])
    for op in case["ops"]:
        if len(op) != 4 or not (1 <= op[1] <= n) or op[2] > n:
            continue
        k, e, p, a = op
        if k == "ins":
            if up[e] is not None or below(e, p):
                continue
            a = a if a in kids[p] else None
            R.insert(els[e], els[p], anchor=None if a is None else els[a])
            kids[p].insert(len(kids[p]) if a is None else kids[p].index(a), e)
            up[e] = p
        elif up[e] is not None:
            R.remove(els[e], els[up[e]])
            kids[up[e]].remove(e)
            up[e] = None
        for i in range(n + 1):
            got = [next((j for j, x in enumerate(els) if x is g), type(g).__name__) for g in observe(els[i])]
            if got != kids[i]:
                return f"order: {case['kind']}: after {op} the children of {i} are {got} instead of {kids[i]} ({case['ops']})"


def gen_forest(rng, size=None):
    n = rng.randrange(3, 8)
    return {"kind": rng.choice(list(FOREST)), "n": n, "ops": [[rng.choice(["ins", "ins", "ins", "rem"]), rng.randrange(1, n + 1), rng.randrange(n + 1) if rng.random() < 0.7 else 0, rng.choice([None, *range(1, n + 1), *range(1, n + 1)])] for _ in range(rng.randrange(3, 16))]}


def small_forest(tier):
    """Each child with or without children of its own, in every order of insertion."""
    for kind in FOREST:
        for owners in itertools.product((0, 1, 2, 3), repeat=2):
            for a2 in (None, 1):
                for a3 in (None, 1, 2):
                    for late in (False, True):
                        top = [["ins", 1, 0, None], ["ins", 2, 0, a2], ["ins", 3, 0, a3]]
                        inner = [["ins", 4 + i, o, None] for i, o in enumerate(owners) if o]
                        yield {"kind": kind, "n": 5, "ops": (top + inner if late else inner + top) + [["rem", 2, 0, None], ["ins", 2, 0, 3], ["rem", 3, 0, None], ["ins", 3, 0, 1]]}


# ------------------------------------------------------------------ C20: places
AREA, BAR = QtCore.Qt.DockWidgetArea, QtCore.Qt.ToolBarArea
ROLE = QtWidgets.QDialogButtonBox.ButtonRole
FORM = QtWidgets.QFormLayout


def grid_of(p, e):
    q = p.layout()
    i = q.indexOf(e)
    return None if i < 0 else q.getItemPosition(i)


def form_row(p, e):
    """Row and label of a child of a form."""
    q = p.layout()
    if q.indexOf(e) < 0:
        return None
    row, role = q.getWidgetPosition(e)
    label = q.labelForField(e)
    return (row, role == FORM.ItemRole.FieldRole, label.text() if label else None)


def view_models(p, e):
    return "model" if p.model() is e else "selection" if p.selectionModel() is e else None


# parent: (type, attributes, kinds of children: (type, attributes, place, where it should be)); a place holds one child at a time
# (None: any number), and the last entry tells where a child is.
PLACES = {
    "window": ("window", {}, [
        ("widget", {}, "central", "central"), ("label", {}, "central", "central"), ("menubar", {}, "menu", "menu"), ("statusbar", {}, "status", "status"),
        ("dock", {"area": AREA.LeftDockWidgetArea}, None, ("dock", AREA.LeftDockWidgetArea)), ("dock", {"area": AREA.BottomDockWidgetArea}, None, ("dock", AREA.BottomDockWidgetArea)),
        ("toolbar", {}, None, ("bar", BAR.TopToolBarArea)), ("toolbar", {"area": BAR.LeftToolBarArea}, None, ("bar", BAR.LeftToolBarArea)), ("toolbar", {"area": BAR.BottomToolBarArea}, None, ("bar", BAR.BottomToolBarArea))],
        lambda p, e: "central" if p.centralWidget() is e else "menu" if p.menuWidget() is e else "status" if e in p.findChildren(QtWidgets.QStatusBar) and p.statusBar() is e
        else ("dock", p.dockWidgetArea(e)) if isinstance(e, QtWidgets.QDockWidget) and e.parent() is p and p.dockWidgetArea(e) != AREA.NoDockWidgetArea
        else ("bar", p.toolBarArea(e)) if isinstance(e, QtWidgets.QToolBar) and e.parent() is p and p.toolBarArea(e) != BAR.NoToolBarArea else None),
    "dock": ("dock", {}, [("widget", {}, "widget", "widget"), ("label", {"title": True}, "title", "title"), ("label", {"title": False}, "widget", "widget"), ("groupbox", {}, "widget", "widget")],
             lambda p, e: "widget" if p.widget() is e else "title" if p.titleBarWidget() is e else None),
    "scrollarea": ("scrollarea", {}, [("widget", {}, "widget", "widget"), ("label", {}, "widget", "widget")], lambda p, e: "widget" if p.widget() is e else None),
    "buttons": ("dialogbuttonbox", {}, [("button", {"role": "AcceptRole"}, None, ROLE.AcceptRole), ("button", {"role": ROLE.RejectRole}, None, ROLE.RejectRole)],
                lambda p, e: p.buttonRole(e) if e in p.buttons() else None),
    "status": ("statusbar", {}, [("label", {}, None, True), ("label", {"permanent": True}, None, True), ("button", {"permanent": False}, None, True)],
               lambda p, e: e.parent() is p or None),
    "grid": ("widget", {"layout": {"type": "grid"}}, [("label", {"grid_index": (r, c)}, (r, c), (r, c, 1, 1)) for r in (0, 1) for c in (0, 1)] + [("button", {"grid_index": (2, 0, 1, 2)}, "wide", (2, 0, 1, 2)), ("label", {"grid_index": (5, 3, 2, 1)}, "tall", (5, 3, 2, 1))], grid_of),
    "listview": ("QListView", {}, [("itemmodel", {}, "model", "model"), ("itemselectionmodel", {}, "selection", "selection")], view_models),
    "tableview": ("QTableView", {}, [("itemmodel", {}, "model", "model"), ("itemselectionmodel", {}, "selection", "selection")], view_models),
    "treeview": ("treeview", {}, [("itemmodel", {}, "model", "model"), ("itemselectionmodel", {}, "selection", "selection")], view_models),
}


def check_places(case):
    """Children of containers that have one place for each kind of child."""
    if case.get("parent") not in PLACES:
        return None
    pt, attrs, kinds, where = PLACES[case["parent"]]
    p = mk(pt, **attrs)
    pool = [kinds[k % len(kinds)] for k in case["pool"]]
    els = [mk(t, **a) for t, a, _, _ in pool]
    inside = []
    for op in case["ops"]:
        if len(op) != 2 or op[1] >= len(els):
            continue
        k, e = op
        if k == "cell":
            if case["parent"] == "grid" and not any(pool[x][2] == e for x in inside):
                R.set_attribute(els[e], "grid_index", (9, e))
                pool[e] = (*pool[e][:2], (9, e), (9, e, 1, 1))
        elif k == "ins":
            if e in inside or (pool[e][2] is not None and any(pool[x][2] == pool[e][2] for x in inside)):
                continue
            if pool[e][2] == "selection" and not any(pool[x][2] == "model" for x in inside):
                continue        # (a selection model needs a model)
            R.insert(els[e], p)
            inside.append(e)
        elif e in inside:
            if pool[e][2] == "model" and any(pool[x][2] == "selection" for x in inside):
                continue
            R.remove(els[e], p)
            inside.remove(e)
            if isinstance(els[e], QtWidgets.QWidget) and els[e].parent() is p and case["parent"] != "buttons":
                return f"place: {case['parent']}: after {op} the child still belongs to its parent ({case['ops']})"
        for i, el in enumerate(els):
            want, got = pool[i][3] if i in inside else None, where(p, el)
            if got != want:
                return f"place: {case['parent']}: after {op} child {i} ({pool[i][0]}) is at {got} instead of {want} ({case['ops']}, {case['pool']})"


def gen_places(rng, size=None):
    n = rng.randrange(1, 6)
    return {"parent": rng.choice(list(PLACES)), "pool": [rng.randrange(9) for _ in range(n)], "ops": [[rng.choice(["ins", "ins", "rem", "cell"]), rng.randrange(n)] for _ in range(rng.randrange(1, 12))]}


def small_places(tier):
    for p in PLACES:
        k = range(len(PLACES[p][2]))
        for a, b in itertools.product(k, k):
            yield {"parent": p, "pool": [a, b], "ops": [["ins", 0], ["ins", 1], ["rem", 0], ["ins", 1], ["ins", 0], ["rem", 1], ["ins", 1], ["rem", 1], ["rem", 0]]}


def check_form(case):
    """The rows of a form."""
    p = mk("widget", layout={"type": "form"})
    n = case["n"]
    want, els = [], []
    labels, index = [f"row {i}" for i in range(n)], list(case["index"])
    for i in range(n):
        els.append(mk("lineedit", form_label=labels[i], **({} if index[i] is None else {"form_index": index[i]})))
    for op in case["ops"]:
        if len(op) != 3 or op[1] >= n:
            continue
        k, e, x = op
        if k == "ins" and e not in want:
            R.insert(els[e], p)
            want.insert(len(want) if index[e] is None else index[e], e)
        elif k == "rem" and e in want:
            R.remove(els[e], p)
            want.remove(e)
            if els[e].parent() is p:
                return f"place: form: after {op} the child still belongs to its parent ({case})"
        elif k == "label":
            labels[e] = f"label {x}"
            R.set_attribute(els[e], "form_label", labels[e])
            if e in want and index[e] is not None:      # (a row that others have displaced goes back to its index)
                want.remove(e)
                want.insert(index[e], e)
        elif k == "index":
            index[e] = x
            R.set_attribute(els[e], "form_index", x)
            if e in want:
                want.remove(e)
                want.insert(x, e)
        for i in range(n):
            w, got = (want.index(i), True, labels[i]) if i in want else None, form_row(p, els[i])
            if got != w:
                return f"place: form: after {op} row {i} is {got} instead of {w} ({case})"
        if p.layout().rowCount() != len(want):
            return f"place: form: after {op} there are {p.layout().rowCount()} rows instead of {len(want)} ({case})"


def gen_form(rng, size=None):
    n = rng.randrange(1, 5)
    return {"n": n, "index": [rng.choice([None, None, 0, 1, 2]) for _ in range(n)], "ops": [[rng.choice(["ins", "ins", "rem", "label", "index"]), rng.randrange(n), rng.randrange(3)] for _ in range(rng.randrange(1, 10))]}


def check_cells(case):
    """Items of a model that name their index (at most one item in each row)."""
    top = mk("itemmodel")
    p = top
    if case["nested"]:
        p = mk("standarditem")
        R.insert(p, top)
    n = case["n"]
    els, at, here = [mk("standarditem") for _ in range(n)], [None] * n, {}

    def grid():
        out = {}
        for r in range(p.rowCount()):
            for c in range(p.columnCount()):
                x = p.child(r, c) if case["nested"] else p.item(r, c)
                if x is not None:
                    out[r, c] = next((i for i, e in enumerate(els) if e is x), "another")
        return out
    for op in case["ops"]:
        if len(op) != 4 or op[1] >= n:
            continue
        k, e, r, c = op
        cur = next((q for q, x in here.items() if x == e), None)
        if k == "index":
            if any(q[0] == r and x != e for q, x in here.items()):
                continue
            R.set_attribute(els[e], "model_index", (r, c))
            at[e] = (r, c)
            if cur is not None:
                del here[cur]
                here[r, c] = e
        elif k == "ins" and cur is None and at[e] is not None and not any(q[0] == at[e][0] for q in here):
            R.insert(els[e], p)
            here[at[e]] = e
        elif k == "rem" and cur is not None:
            R.remove(els[e], p)
            del here[cur]
            here = {(q[0] - (q[0] > cur[0]), q[1]): x for q, x in here.items()}
        got = grid()
        if got != here:
            return f"place: items: after {op} they are at {got} instead of {here} ({case})"


def gen_cells(rng, size=None):
    n = rng.randrange(1, 4)
    return {"n": n, "nested": rng.random() < 0.5, "ops": [["index", i, i, 0] for i in range(n)] + [["ins", i, 0, 0] for i in range(n)]
            + [[rng.choice(["ins", "rem", "index", "index"]), rng.randrange(n), rng.randrange(4), rng.randrange(3)] for _ in range(rng.randrange(1, 10))]}


def check_tabs(case):
    """Tabs with labels, and with an index of their own."""
    p = mk("QTabWidget")
    n = case["n"]
    els = [mk("label", **({} if case["label"][i] is None else {"tab_label": case["label"][i]}), **({} if case["index"][i] is None else {"tab_index": case["index"][i]})) for i in range(n)]
    want = []
    for op in case["ops"]:
        if len(op) != 3 or op[1] >= n:
            continue
        k, e, a = op
        if k == "ins" and e not in want:
            a = a if a in want else None
            x = case["index"][e]
            R.insert(els[e], p, anchor=None if a is None else els[a])
            want.insert(x if x is not None and x >= 0 else len(want) if a is None else want.index(a), e)
        elif k == "rem" and e in want:
            R.remove(els[e], p)
            want.remove(e)
        got = [(next((j for j, x in enumerate(els) if x is p.widget(i)), "another"), p.tabText(i)) for i in range(p.count())]
        exp = [(j, case["label"][j] or "") for j in want]
        if got != exp:
            return f"place: tabs: after {op} they are {got} instead of {exp} ({case})"


def gen_tabs(rng, size=None):
    n = rng.randrange(1, 5)
    return {"n": n, "label": [rng.choice([None, "a", "b", "c d"]) for _ in range(n)], "index": [rng.choice([None, None, -1, 0, 1, 2]) for _ in range(n)],
            "ops": [[rng.choice(["ins", "ins", "rem"]), rng.randrange(n), rng.choice([None, *range(n)])] for _ in range(rng.randrange(1, 10))]}


def check_layouts(case):
    """A container that gets another type of layout keeps its children."""
    p = mk("widget", layout={"type": case["from"]})
    els = [mk("label", grid_index=(i, 0), form_label=str(i), form_index=i) for i in range(case["n"])]
    for e in els:
        R.insert(e, p)
    R.set_attribute(p, "layout", {"type": case["to"]})
    for i, e in enumerate(els):
        if not shiboken6.isValid(e) or e.parent() is not p or p.layout().indexOf(e) < 0:
            return f"layout: child {i} is gone after the layout became {case['to']} ({case})"


def other_layouts(tier):
    for a, b in itertools.product(("box", "stacked", "grid", "form"), repeat=2):
        for n in (1, 2):
            if a != b:
                yield {"from": a, "to": b, "n": n}


def same_layouts(tier):
    for a, b in itertools.product(("box", "stacked", "grid", "form"), repeat=2):
        for n in (0, 1, 2, 3):
            if a == b or n == 0:
                yield {"from": a, "to": b, "n": n}


# ------------------------------------------------------------------ C21: attributes of tree items
def check_tree(case):
    """Items are expanded and selected, by their attribute, as soon as they are in the tree."""
    tree = mk("treewidget")
    tree.setSelectionMode(QtWidgets.QAbstractItemView.SelectionMode.MultiSelection)
    n = case["n"]
    els = [mk("treewidgetitem") for _ in range(n)]
    for e in els:
        R.insert(mk("treewidgetitem"), e)       # (Qt only expands items that have children)
    where, val = [None] * n, {}
    for op in case["ops"]:
        if len(op) != 3 or op[1] >= n:
            continue
        k, i, x = op
        if k == "mount":
            if where[i] is not None or (x is not None and (x >= n or where[x] is None)):
                continue
            R.insert(els[i], tree if x is None else els[x])
            where[i] = True
        elif k in ("expanded", "selected"):
            R.set_attribute(els[i], k, bool(x))
            val[i, k] = bool(x)
        for (j, a), v in val.items():
            got = els[j].isExpanded() if a == "expanded" else els[j].isSelected()
            if where[j] and got != v:
                return f"attributes: {a} of tree item {j} is {got} instead of {v} after {op} ({case['ops']})"


def gen_tree(rng, size=None):
    n = rng.randrange(1, 4)
    return {"n": n, "ops": [[rng.choice(["mount", "mount", "expanded", "selected"]), rng.randrange(n), rng.choice([None, 0, 1, 2])] for _ in range(rng.randrange(2, 12))]}


# ------------------------------------------------------------------ C21: names
NAMES = {
    "button": QtWidgets.QPushButton, "checkbox": QtWidgets.QCheckBox, "combobox": QtWidgets.QComboBox, "label": QtWidgets.QLabel, "lineedit": QtWidgets.QLineEdit,
    "menu": QtWidgets.QMenu, "menubar": QtWidgets.QMenuBar, "radiobutton": QtWidgets.QRadioButton, "dialogbuttonbox": QtWidgets.QDialogButtonBox, "groupbox": QtWidgets.QGroupBox,
    "scrollarea": QtWidgets.QScrollArea, "slider": QtWidgets.QSlider, "spinbox": QtWidgets.QSpinBox, "statusbar": QtWidgets.QStatusBar, "textedit": QtWidgets.QTextEdit,
    "toolbar": QtWidgets.QToolBar, "treeview": QtWidgets.QTreeView, "treewidget": QtWidgets.QTreeWidget, "treewidgetitem": QtWidgets.QTreeWidgetItem, "widget": QtWidgets.QWidget,
    "window": QtWidgets.QMainWindow, "action": QtGui.QAction, "dock": QtWidgets.QDockWidget, "itemmodel": QtGui.QStandardItemModel, "itemselectionmodel": QtCore.QItemSelectionModel,
    "standarditem": QtGui.QStandardItem, "box": QtWidgets.QBoxLayout, "form": QtWidgets.QFormLayout, "grid": QtWidgets.QGridLayout, "stacked": QtWidgets.QStackedLayout,
}
QT = {c.__name__: c for c in (QtWidgets.QLabel, QtWidgets.QSplitter, QtWidgets.QTabWidget, QtWidgets.QDial, QtWidgets.QFrame, QtGui.QStandardItem, QtCore.QTimer, QtWidgets.QListView)}
QT["QTextEdit.ExtraSelection"] = QtWidgets.QTextEdit.ExtraSelection


def spell(name, rng):
    out = []
    for i, ch in enumerate(name):
        if i and rng.random() < 0.25:
            out.append(rng.choice("-_"))
        out.append(ch.upper() if rng.random() < 0.4 else ch)
    return "".join(out)


def gen_name(rng, size=None):
    r = rng.random()
    if r < 0.7:
        n = rng.choice(list(NAMES))
        return {"name": spell(n, rng), "is": n}
    if r < 0.85:
        n = rng.choice(list(QT))
        return {"name": rng.choice([n, n.lower(), n.upper()]), "is": n}
    return {"name": rng.choice(["foo", "no-such-thing", "buttonx", "QNope", "lab", "", "xlabel", "wid get"]) + str(rng.randrange(9)), "is": None}


def check_name(case):
    if "name" not in case or "is" not in case or not case["name"]:
        return None
    n, want = case["name"], case["is"]
    if want is not None:
        if want in NAMES and n.lower().replace("-", "").replace("_", "") != want:
            return None
        if want in QT and n.lower() != want.lower():
            return None
    elif n.lower().replace("-", "").replace("_", "") in NAMES or any(n.lower() == d.lower() for m in (QtWidgets, QtGui, QtCore, QtCore.Qt) for d in dir(m)):
        return None
    try:
        e = R.create_element(n)
        KEEP.append(e)
    except TypeError as ex:
        return None if want is None else f"names: {n!r} is not found: {ex}"
    if want is None:
        return f"names: {n!r} gives a {type(e).__mro__[1].__name__}"
    typ = NAMES.get(want) or QT[want]
    if typ not in type(e).__mro__[:2] and not (type(e).__mro__[1] is typ):
        return f"names: {n!r} gives a {type(e).__mro__[1].__name__} instead of a {typ.__name__}"


# ------------------------------------------------------------------ C21: registrations
COUNT = itertools.count()


def gen_reg(rng, size=None):
    d = rng.randrange(2, 5)
    what = ["insert", "remove", "set_attr"]
    regs = [[rng.choice(what), rng.randrange(d), rng.random() < 0.3] for _ in range(rng.randrange(1, 7))]
    return {"depth": d, "base": rng.choice(["QWidget", "QLabel", "QSplitter"]), "regs": regs, "use": rng.randrange(d), "call": rng.random() < 0.5}


def all_reg(tier):
    for w in ("insert", "remove", "set_attr"):
        for perm in itertools.permutations(range(3)):
            for n in (1, 2, 3):
                for use in range(3):
                    yield {"depth": 3, "base": "QWidget", "regs": [[w, i, False] for i in perm[:n]], "use": use}


def check_reg(case):
    d = case.get("depth", 0)
    if not d or case.get("use", 0) >= d or any(len(r) != 3 or r[1] >= d for r in case["regs"]):
        return None
    base = getattr(QtWidgets, case["base"])
    classes = []
    for i in range(d):
        classes.append(type(f"C{next(COUNT)}", (classes[-1] if classes else base,), {}))
    KEEP.append(classes)
    log = []
    best = {}
    for j, (w, i, deco) in enumerate(case["regs"]):
        if (w, i) in best:
            continue      # a second registration for the very same type is warned about
        fn = (lambda j: lambda self, *a, **k: log.append((j, a, k)))(j)
        best[w, i] = j
        reg = getattr(cg.PySideRenderer, f"register_{w}")
        reg(classes[i])(fn) if deco else reg(classes[i], func=fn)
    name = f"reg-{next(COUNT)}"
    cg.PySideRenderer.register_element(name, classes[case["use"]])
    e = mk(name)
    parent_probe = mk("label")
    for w, call in (("insert", lambda: R.insert(parent_probe, e)), ("remove", lambda: R.remove(parent_probe, e)), ("set_attr", lambda: R.set_attribute(e, "zzz", 3))):
        want = max(((i, j) for (w2, i), j in best.items() if w2 == w and i <= case["use"]), default=None)
        if want is None:
            continue
        del log[:]
        call()
        if [x[0] for x in log] != [want[1]]:
            return f"registrations: {w}: registrations {case['regs']} on class {case['use']} called {[x[0] for x in log]} instead of {want[1]}"


# ------------------------------------------------------------------ C21: attributes
PROPS = [  # base, attribute, values, Qt property, reader
    ("QLabel", "text", ["a", "", "b"], lambda e: e.text(), lambda e, v: e.setText(v)),
    ("QPushButton", "checkable", [True, False], lambda e: e.isCheckable(), lambda e, v: e.setCheckable(v)),
    ("QWidget", "minimum_width", [10, 0, 33], lambda e: e.minimumWidth(), lambda e, v: e.setMinimumWidth(v)),
    ("QWidget", "minimum-width", [10, 0, 33], lambda e: e.minimumWidth(), lambda e, v: e.setMinimumWidth(v)),
    ("QWidget", "tool-tip", ["t", "", "u"], lambda e: e.toolTip(), lambda e, v: e.setToolTip(v)),
    ("QWidget", "object_name", ["n", "", "m"], lambda e: e.objectName(), lambda e, v: e.setObjectName(v)),
    ("QWidget", "enabled", [True, False], lambda e: e.isEnabled(), lambda e, v: e.setEnabled(v)),
    ("QSlider", "maximum", [5, 99, 7], lambda e: e.maximum(), lambda e, v: e.setMaximum(v)),
    ("QSpinBox", "range", [[1, 2], [0, 50]], lambda e: [e.minimum(), e.maximum()], None),
    ("QWidget", "size", [[20, 30], [40, 50]], lambda e: [e.width(), e.height()], None),
    ("QWidget", "contents_margins", [[1, 2, 3, 4]], lambda e: [e.contentsMargins().left(), e.contentsMargins().top(), e.contentsMargins().right(), e.contentsMargins().bottom()], None),
    ("QWidget", "custom", [1, "x", None, [1, 2], 0, False], None, None),
    ("QLabel", "my-data", [1, "x", {"a": 1}], None, None),
    # types with attributes of their own: the others are set like those of any widget
    ("QDialogButtonBox", "center_buttons", [True, False], lambda e: e.centerButtons(), None),
    ("QDialogButtonBox", "own", ["Ok", [1], 0], None, None),
    ("QComboBox", "max_count", [7, 9], lambda e: e.maxCount(), None),
    ("QComboBox", "editable", [True, False], lambda e: e.isEditable(), None),
    ("QComboBox", "own", ["a", [1], 0], None, None),
    ("QDockWidget", "window_title", ["a", "b"], lambda e: e.windowTitle(), None),
    ("QDockWidget", "own", ["a", [1], 0], None, None),
    ("QTreeWidget", "column_count", [3, 4], lambda e: e.columnCount(), None),
    ("QTreeWidget", "own", ["a", [1], 0], None, None),
    ("QListView", "spacing", [3, 4], lambda e: e.spacing(), None),
    ("QListView", "own", ["a", [1], 0], None, None),
    ("QTabWidget", "document_mode", [True, False], lambda e: e.documentMode(), None),
    ("QTabWidget", "own", ["a", [1], 0], None, None),
    ("QStatusBar", "size_grip_enabled", [True, False], lambda e: e.isSizeGripEnabled(), None),
    ("QStatusBar", "own", ["a", [1], 0], None, None),
    ("QTreeWidgetItem", "own", ["a", [1], 0], None, None),
    ("QGroupBox", "title", ["a", "b"], lambda e: e.title(), None),
    ("QMenu", "title", ["a", "b"], lambda e: e.title(), None),
    ("QAction", "checkable", [True, False], lambda e: e.isCheckable(), None),
    ("QAction", "text", ["a", "b"], lambda e: e.text(), None),
    ("QStandardItem", "text", ["a", "b"], lambda e: e.text(), None),
    ("QStandardItem", "row_stuff", ["a", 4], None, None),
]


def gen_attrs(rng, size=None):
    return {"p": rng.randrange(len(PROPS)), "ops": [[rng.choice(["set", "set", "unset", "poke", "born"]), rng.randrange(3), rng.randrange(6)] for _ in range(rng.randrange(1, 10))]}


def all_attrs(tier):
    for p in range(len(PROPS)):
        for seq in itertools.product([("set", 0), ("set", 1), ("unset", 0), ("poke", 1)], repeat=3 if tier == "quick" else 4):
            yield {"p": p, "ops": [[k, e, i] for i, (k, e) in enumerate(seq)]}


def check_attrs(case):
    if not isinstance(case.get("p"), int):
        return None
    base, attr, values, read, poke = PROPS[case["p"]]
    typ = getattr(QtWidgets, base, None) or getattr(QtGui, base)
    if issubclass(typ, QtWidgets.QWidget):
        name = f"attrs-{next(COUNT)}"
        cg.PySideRenderer.register_element(name, typ)
    else:
        name = base
    es = [mk(name) for _ in range(3)]
    MISSING = "<missing>"
    get = read or (lambda e: getattr(e, attr, MISSING))
    removable = base == "QAction" or (issubclass(typ, QtCore.QObject) and attr not in ("range", "contents_margins")) or read is None
    first, live = [], {}
    for op in case["ops"]:
        if len(op) != 3:
            continue
        k, i, v = op
        e = es[i]
        v = values[v % len(values)]
        if k == "set":
            if not first and name != base:
                first.append(get(e))
            elif not first:
                first.append(get(mk(name)))
            given = tuple(v) if isinstance(v, list) and read else v
            R.set_attribute(e, attr, given)
            live[i] = given
            if get(e) != v:
                return f"attributes: {base}.{attr} is {get(e)!r} after it was set to {given!r}"
        elif k == "unset" and i in live and removable:
            R.remove_attribute(e, attr, live.pop(i))
            if get(e) != (first[0] if read else MISSING):
                return f"attributes: {base}.{attr} is {get(e)!r} instead of {first[0] if read else MISSING!r} after it was removed ({case['ops']})"
        elif k == "poke" and poke and i not in live:
            poke(e, v)
        for j in live:
            if j != i and get(es[j]) != (list(live[j]) if isinstance(live[j], tuple) else live[j]):
                return f"attributes: {base}.{attr} of another element changed"


# ------------------------------------------------------------------ C21: attributes with a meaning of their own
LR, TB = "LeftToRight", "TopToBottom"
BOX = QtWidgets.QDialogButtonBox.StandardButton
STRETCH = lambda q: {"column": [q.columnStretch(i) if i < q.columnCount() else 0 for i in range(4)], "row": [q.rowStretch(i) if i < q.rowCount() else 0 for i in range(4)]}


def stretched(hist):
    out = {"column": [0] * 4, "row": [0] * 4}
    for h in hist:
        for k in out:
            for i, n in h.get(k + "_stretch", ()):
                out[k][i] = n
    return out


# type, attribute, values, what can be seen, what should be seen after a history of values
OWN = [
    ("treewidgetitem", "content", [{0: "a"}, {1: "b"}, {2: "c", 0: "d"}, {3: "e", 1: ""}, {}], lambda e: [e.text(c) for c in range(4)], lambda h: [h[-1].get(c, "") for c in range(4)]),
    ("combobox", "items", [["a", "b"], [], ["b", "a", "b"], ["x"]], lambda e: [e.itemText(i) for i in range(e.count())], lambda h: h[-1]),
    ("statusbar", "text", ["a", ("b", 100000), "", "c d"], lambda e: e.currentMessage(), lambda h: h[-1] if isinstance(h[-1], str) else h[-1][0]),
    ("widget", "size", [(20, 30), (31, 17)], lambda e: (e.width(), e.height()), lambda h: h[-1]),
    ("widget", "layout", [{"type": "box", "direction": d, "spacing": n} for d in (LR, TB, "RightToLeft", "BottomToTop") for n in (0, 3)], lambda e: (e.layout().direction().name, e.layout().spacing()), lambda h: (h[-1]["direction"], h[-1]["spacing"])),
    ("widget", "layout", [{"type": "Box", "contents_margins": (1, 2, 3, 4)}, {"type": "box", "contents_margins": (0, 0, 7, 0)}], lambda e: tuple(getattr(e.layout().contentsMargins(), k)() for k in ("left", "top", "right", "bottom")), lambda h: h[-1]["contents_margins"]),
    ("widget", "layout", [{"type": "grid", "column_stretch": [(0, 1), (2, 5)]}, {"type": "grid", "row_stretch": [(1, 1), (3, 2), (1, 4)]}, {"type": "GRID", "column_stretch": [(2, 0), (0, 3)], "row_stretch": [(0, 9)]}], lambda e: STRETCH(e.layout()), stretched),
    ("widget", "layout", [{"type": "form", "horizontal_spacing": 4, "vertical_spacing": 5}, {"type": "form", "vertical_spacing": 6, "horizontal_spacing": 0}], lambda e: (e.layout().horizontalSpacing(), e.layout().verticalSpacing()), lambda h: (h[-1]["horizontal_spacing"], h[-1]["vertical_spacing"])),
    ("dialogbuttonbox", "buttons", [["Ok", "Cancel"], [BOX.Help], [BOX.Ok, "Reset"], []], lambda e: sorted(e.standardButton(b).name for b in e.buttons()), lambda h: sorted(b if isinstance(b, str) else b.name for b in h[-1])),
    ("treewidget", "header_labels", [["a", "b"], ["c"], ["x", "y", "z"]], lambda e: [e.headerItem().text(i) for i in range(e.columnCount())], None),
    ("itemmodel", "horizontal_header_labels", [["a", "b"], ["c"]], lambda e: [e.horizontalHeaderItem(i).text() for i in range(e.columnCount())][:1], lambda h: h[-1][:1]),
]


def check_own(case):
    """Attributes that do not simply call a setter."""
    if not isinstance(case.get("p"), int):
        return None
    t, attr, values, read, expect = OWN[case["p"] % len(OWN)]
    es, hist = [mk(t), mk(t)], [[], []]
    for op in case["ops"]:
        if len(op) != 2:
            continue
        i, v = op[0] % 2, values[op[1] % len(values)]
        R.set_attribute(es[i], attr, v)
        hist[i].append(v)
        for j in (0, 1):
            want = expect(hist[j]) if expect and hist[j] else None
            if want is not None and read(es[j]) != want:
                return f"attributes: {attr} of {t} {j} is {read(es[j])!r} instead of {want!r} after {hist[j]!r}"


def gen_own(rng, size=None):
    return {"p": rng.randrange(len(OWN)), "ops": [[rng.randrange(2), rng.randrange(8)] for _ in range(rng.randrange(1, 6))]}


def all_own(tier):
    for p in range(len(OWN)):
        k = range(len(OWN[p][2]))
        for a, b in itertools.product(k, k):
            yield {"p": p, "ops": [[0, a], [1, b], [0, b]]}


# ------------------------------------------------------------------ C21: events
class Obj:
    def __init__(self, log, i):
        self.log, self.i = log, i

    def method(self, *args):
        self.log.append(self.i)

    def __call__(self, *args):
        self.log.append(self.i)


EVENTS = [("button", "clicked", lambda e: e.click()), ("lineedit", "text-changed", None), ("lineedit", "text_changed", None), ("widget", "enter", QtCore.QEvent.Enter),
          ("button", "leave", QtCore.QEvent.Leave), ("widget", "focus-in", QtCore.QEvent.FocusIn), ("widget", "hover_enter", QtCore.QEvent.HoverEnter), ("action", "triggered", lambda e: e.trigger())]


def handler(kind, log, i):
    from functools import partial
    if kind == 0:
        return lambda *a: log.append(i)
    if kind == 1:
        return Obj(log, i).method
    if kind == 2:
        return partial(lambda n, *a: log.append(n), i)
    if kind == 3:
        return lambda: log.append(i)

    def f(ev=None):
        log.append(i)
    return f


def gen_events(rng, size=None):
    return {"kinds": [rng.randrange(5) for _ in range(3)], "els": [rng.randrange(len(EVENTS)) for _ in range(2)],
            "ops": [[rng.choice(["on", "on", "off", "fire"]), rng.randrange(2), rng.randrange(3)] for _ in range(rng.randrange(1, 12))]}


def all_events(tier):
    for ev in range(len(EVENTS)):
        for k in range(5):
            yield {"kinds": [k, 0, 1], "els": [ev, ev], "ops": [["on", 0, 0], ["fire", 0, 0], ["on", 0, 1], ["on", 1, 0], ["fire", 0, 0], ["fire", 1, 0], ["off", 0, 0], ["fire", 0, 0], ["fire", 1, 0], ["on", 0, 0], ["fire", 0, 0], ["off", 0, 1], ["off", 0, 0], ["fire", 0, 0]]}


def check_events(case):
    if len(case.get("els", [])) != 2 or len(case.get("kinds", [])) != 3:
        return None
    log = []
    evs = [EVENTS[i] for i in case["els"]]
    els = [mk(t) for t, _, _ in evs]
    kinds = [k if not (callable(ev) is False and k == 3 and False) else 0 for k, ev in zip(case["kinds"], case["kinds"])]
    hs = [handler(k, log, i) for i, k in enumerate(kinds)]
    KEEP.append(hs)
    on = set()
    n = 0
    for op in case["ops"]:
        if len(op) != 3:
            continue
        k, e, h = op
        t, name, fire = evs[e]
        if isinstance(fire, QtCore.QEvent.Type) and kinds[h] == 3 and k == "on":
            continue        # an event handler takes the event
        if k == "on" and (e, h) not in on:
            R.add_event_listener(els[e], name, hs[h])
            on.add((e, h))
        elif k == "off" and (e, h) in on:
            R.remove_event_listener(els[e], name, hs[h])
            on.discard((e, h))
        elif k == "fire":
            del log[:]
            n += 1
            if fire is None:
                els[e].setText(f"text {n}")
            elif isinstance(fire, QtCore.QEvent.Type):
                if fire == QtCore.QEvent.Enter:
                    ev = QtGui.QEnterEvent(QtCore.QPointF(), QtCore.QPointF(), QtCore.QPointF())
                elif fire == QtCore.QEvent.FocusIn:
                    ev = QtGui.QFocusEvent(fire)
                elif fire == QtCore.QEvent.HoverEnter:
                    ev = QtGui.QHoverEvent(fire, QtCore.QPointF(), QtCore.QPointF(), QtCore.QPointF())
                else:
                    ev = QtCore.QEvent(fire)
                KEEP.append(ev)
                app.sendEvent(els[e], ev)
            else:
                fire(els[e])
            want = sorted(x for a, x in on if a == e)
            if sorted(log) != want:
                return f"events: {name} of {t} called {sorted(log)} instead of {want} ({case['ops']}, handlers {case['kinds']})"


# ------------------------------------------------------------------ C21: ways to register
def gen_ways(rng, size=None):
    return {"way": rng.randrange(6), "reg": spell("ab" * rng.randrange(1, 4), rng), "rng": rng.randrange(1 << 20), "deco": rng.random() < 0.5, "n": rng.randrange(1, 4)}


def all_ways(tier):
    for way in range(6):
        for deco in (False, True):
            for n in range(1, 4):
                for r, reg in enumerate(("abc", "ABC", "a-b-c", "a_B-c")):
                    yield {"way": way, "reg": reg, "rng": r, "deco": deco, "n": n}


def check_ways(case):
    """Everything that is registered, directly or by a decorator, is what its name (in any spelling) or its types stand for."""
    import random
    rng, way, n = random.Random(case["rng"]), case["way"], case["n"]
    tag = f"w{next(COUNT)}x"
    reg, use = case["reg"] + tag, spell(case["reg"].replace("-", "").replace("_", "").lower() + tag, rng)
    what = ["element", "layout", "layout attribute", "custom_attribute", "insert", "remove"][way]
    where = f"ways: register_{what} of {reg!r}{' as a decorator' if case['deco'] else ''}"
    P = cg.PySideRenderer
    try:
        if way < 3:
            base = QtWidgets.QLabel if way == 0 else QtWidgets.QVBoxLayout
            typ = type(f"Way{next(COUNT)}", (base,), {})
            f = P.register_element if way == 0 else P.register_layout
            got = f(reg)(typ) if case["deco"] else (f(reg, typ), typ)[1]
            if got is not typ:
                return f"{where} does not give the class back"
            if way == 2:
                w = mk("widget")
                R.set_attribute(w, "layout", {"type": use})
                e = w.layout()
            else:
                e = mk(use)
            if not isinstance(e, typ):
                return f"{where}: {use!r} gives a {type(e).__name__}"
            return None
        log = []
        fn = lambda self, *a, **k: log.append((self, a, k))
        if way == 3:
            names = [f"{tag}_{i}" for i in range(n)]
            got = P.register_custom_attribute(*names)(fn) if case["deco"] else (P.register_custom_attribute(*names, func=fn), fn)[1]
            w = mk("widget")
            for i, name in enumerate(names):
                R.set_attribute(w, name, i)
            if got is not fn:
                return f"{where} does not give the function back"
            if log != [(w, (name, i), {}) for i, name in enumerate(names)]:
                return f"{where}: {names} called {log}"
            return None
        types = [type(f"Way{next(COUNT)}", (QtWidgets.QWidget,), {}) for _ in range(n)]
        f = getattr(P, "register_" + what)
        got = f(*types)(fn) if case["deco"] else (f(*types, func=fn), fn)[1]
        if got is not fn:
            return f"{where} does not give the function back"
        child = mk("label")
        for i, t in enumerate(types):
            P.register_element(f"{tag}-{i}", t)
            e = mk(f"{tag}-{i}")
            del log[:]
            getattr(R, what)(child, e)
            if len(log) != 1 or log[0][0] is not e or child not in log[0][1] + tuple(log[0][2].values()):
                return f"{where}: {what} called {log}"
    except (TypeError, RuntimeError, AttributeError) as ex:
        return f"{where}: {type(ex).__name__}: {ex}"


def families(pid):
    if pid == "C20":
        return {"histories of children": (gen_children, check_children, None), "small histories": (None, check_children, small_children), "histories of nested children": (gen_forest, check_forest, None), "small nested histories": (None, check_forest, small_forest),
                "places of children": (gen_places, check_places, None), "small histories of places": (None, check_places, small_places), "rows of forms": (gen_form, check_form, None), "items with an index": (gen_cells, check_cells, None), "tabs": (gen_tabs, check_tabs, None), "layouts": (None, check_layouts, same_layouts), "layout types": (None, check_layouts, other_layouts)}
    return {"names": (gen_name, check_name, None), "ways to register": (gen_ways, check_ways, all_ways), "registrations": (gen_reg, check_reg, None), "registration orders": (None, check_reg, all_reg),
            "attributes": (gen_attrs, check_attrs, None), "attribute histories": (None, check_attrs, all_attrs),
            "events": (gen_events, check_events, None), "event histories": (None, check_events, all_events), "tree items": (gen_tree, check_tree, None),
            "own attributes": (gen_own, check_own, None), "own attribute histories": (None, check_own, all_own)}

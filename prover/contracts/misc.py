"""Smaller functions of cgx/cgx.py, cgx/importer.py, renderers/pyside_renderer.py and collagraph.py."""
from base import *
import ast as real_ast
import engine as E
from cgmod import collagraph_module
from contracts.others import AstNS
from contracts.cgxc import cgx_module
from contracts import qtreg
UNITS = []
I = z3.IntSort()
B = z3.BoolSort()
FILE = "collagraph/cgx/cgx.py"
PR = qtreg.PR


@unit(UNITS, "get_script_ast, load", ["C22"], [FILE + ":get_script_ast", FILE + ":load"], hooks={"str": lambda S, x: mks(uf("str_of", V, z3.StringSort())(tov(x)))}, covers=["script", "file"],
      assumes=["ast.parse parses; increment_lineno changes line numbers only; Path.read_text reads the file"])
def script_of_file(S):
    """the code of a template is what ast.parse makes of the text in its script element, the whole of it, with shifted line numbers at most; a file is loaded from its own text and path"""
    tree, parsed, shifted = object(), [], []
    M = cgx_module(ast=AstNS(parse=lambda t, filename=None, mode="exec", **k: (parsed.append((t, mode)), tree)[1],
                             increment_lineno=lambda node, n=1: (shifted.append((node, n)), node)[1]))
    path = S.sym("path")
    if S.choose(2):
        S.cover("script")
        text = S.str("script")
        script = M.Element("script")
        line = S.int("line", 1)
        script.location = (line, S.int("column", 0))
        script.children = [M.TextElement(text)]
        asked = []
        parser = ns(root=ns(child_with_tag=lambda t: (asked.append(t), script if t == "script" else None)[1]))
        k, r = outcome(M.get_script_ast, parser, path)
        S.oblige("returns", k == "return", repr(r))
        if k != "return":
            return
        S.oblige("parsed_once_as_a_module", len(parsed) == 1 and parsed[0][1] == "exec")
        if len(parsed) == 1:
            got = tos(parsed[0][0])
            S.oblige("the_whole_text", z3.Or(got == text.t, z3.And(z3.SuffixOf(text.t, got), z3.InRe(z3.SubString(got, 0, z3.Length(got) - z3.Length(text.t)), z3.Star(z3.Re("\n"))))))
        S.oblige("that_tree", r is tree)
        S.oblige("only_the_lines_are_shifted", all(x[0] is tree for x in shifted))
        return
    S.cover("file")
    text, result, calls, read = S.str("text"), object(), [], []
    M.load_from_string = lambda template, path=None: (calls.append((template, path)), result)[1]

    class Path:
        def read_text(self, *a, **k):
            read.append((a, k))
            return text
    p = Path()
    k, r = outcome(M.load, p)
    S.oblige("result_of_load_from_string", k == "return" and r is result and len(calls) == 1, repr(r))
    if len(calls) == 1:
        S.oblige("the_text_of_the_file_and_its_path", tob(E.eq(calls[0][0], text)) if calls[0][1] is p else False)


@unit(UNITS, "CgxImporter.create_module", ["C22"], ["collagraph/cgx/importer.py:CgxImporter.create_module", "collagraph/cgx/importer.py:CgxImporter.__init__"], covers=["done"])
def create_module(S):
    """a finder keeps the path it is made with; the module itself is made by the import machinery"""
    from contracts.others import importer
    M = importer(cgx_module(), [])
    p = S.sym("path")
    k, x = outcome(M.CgxImporter, p)
    S.oblige("made", k == "return", repr(x))
    if k != "return":
        return
    S.oblige("keeps_the_path", tov(x.cgx_path) == tov(p))
    k, r = outcome(x.create_module, S.sym("spec"))
    S.cover("done")
    S.oblige("left_to_the_machinery", k == "return" and r is None)


@unit(UNITS, "PySideRenderer.create_element", ["C21"], [PR + ":PySideRenderer.create_element", PR + ":PySideRenderer.create_text_element", PR + ":PySideRenderer.set_element_text"], covers=["first", "later", "app exists"],
      assumes=["contract of create_object (unit 'PySideRenderer.create_object')", "QCoreApplication.instance() is the application if there is one"])
def create_element(S):
    """an element is what create_object makes of the very name; there is an application before that, made only if there is none and kept; text elements do not exist in Qt"""
    made, apps = [], []
    M = qtreg.renderer(S)
    exists = S.choose(2, "app exists")
    app = object()

    class App:
        def __new__(cls, *a):
            S.oblige("only_one_application", not apps and not exists)
            apps.append(app)
            return app
    M.QtWidgets.QApplication = App
    M.QtCore.QCoreApplication = ns(instance=lambda: app if exists or apps else None)
    r = M.PySideRenderer()

    def create(name):
        S.oblige("there_is_an_application", bool(exists or apps))
        made.append(name)
        return ("element", len(made))
    r.create_object = create
    a, b = S.str("a"), S.str("b")
    k, x = outcome(r.create_element, a)
    S.cover("first")
    if exists:
        S.cover("app exists")
    S.oblige("element", k == "return" and x == ("element", 1) and len(made) == 1 and made[0] is a, repr(x))
    k, x = outcome(r.create_element, b)
    S.cover("later")
    S.oblige("element", k == "return" and x == ("element", 2) and len(made) == 2 and made[1] is b, repr(x))
    k, x = outcome(r.create_text_element)
    S.oblige("NotImplementedError", k == "raise" and isinstance(x, NotImplementedError))
    k, x = outcome(r.set_element_text, object(), "x")
    S.oblige("NotImplementedError", k == "raise" and isinstance(x, NotImplementedError))


@unit(UNITS, "PySideRenderer.register_custom_attribute", ["C21"], [PR + ":PySideRenderer.register_custom_attribute"], covers=["keyword", "decorator"],
      bounded="up to 3 names (any names)")
def register_custom(S):
    """every one of the names is entered with the function, everything else is as before; the decorator gives the function back"""
    d = sym_dict("custom")
    M = qtreg.renderer(S, CUSTOM_ATTRIBUTES=d)
    n = S.choose(4, "names")
    names = [S.str(f"name{j}") for j in range(n)]
    f = S.obj("func", "qfunc")
    if not n or S.choose(2):
        S.cover("keyword")
        k, r = outcome(M.PySideRenderer.register_custom_attribute, *names, func=f)
    else:
        S.cover("decorator")
        k, r = outcome(lambda: M.PySideRenderer.register_custom_attribute(*names)(f))
        S.oblige("gives_the_function_back", k == "return" and r is f)
    S.oblige("returns", k == "return", repr(r))
    if k != "return":
        return
    other = S.str("other")
    has, val = uf("has_custom", V, B)(tov(other)), uf("val_custom", V, V)(tov(other))
    now = d.get(other) if other in d else None
    entered = z3.Or(*[tov(other) == tov(x) for x in names]) if names else z3.BoolVal(False)
    if S.branch(entered):
        S.oblige("entered", now is f or (now is not None and tov(now) == tov(f)))
    else:
        S.oblige("others_as_before", z3.And(z3.BoolVal(now is not None) == has, z3.Implies(has, tov(now) == val)))


# ------------------------------------------------------------------ attributes with a meaning of their own
class Own:
    """An object that records the methods called on it; other attributes can be set and deleted."""
    def __init__(self, parent=None):
        self.calls, self.up = [], parent

    def parent(self):
        return self.up

    def __getattr__(self, n):
        if n.startswith("_") or n in ("pyvc_sym", "model_index"):
            raise AttributeError(n)
        return lambda *a, **k: self.calls.append((n, a, k))


class TreeItem(Own):
    """A tree item: a top-level item of a tree has no parent; it can be expanded and selected once it is within a tree."""
    def __init__(self, tree=None, parent=None):
        super().__init__(parent)
        self.tree = tree

    def treeWidget(self):
        return self.tree

    def addChild(self, el):
        el.tree = self.tree

    def insertChild(self, i, el):
        el.tree = self.tree

    def setExpanded(self, v):
        self.calls.append(("setExpanded" if self.tree is not None else "too early", (v,), {}))

    def setSelected(self, v):
        self.calls.append(("setSelected" if self.tree is not None else "too early", (v,), {}))


OWN = ["combobox items", "treewidgetitem state", "widget size"]


@unit(UNITS, "own attributes of special objects", ["C21"], [qtreg.PQ + n + ".py:set_attribute" for n in ("combobox", "treewidgetitem", "widget")] + [qtreg.PQ + "treewidgetitem.py:insert"],
      covers=OWN + ["items added", "items replaced", "mounted later", "top level", "nested"], hooks={"isinstance": lambda S, x, c: False}, assumes=["the Qt methods named in the contract do what their names say"])
def own_attributes(S):
    """items of a combo box are added; expanded and selected go through their setter, for an item that is not in a tree as soon as it is mounted; the size of a widget is its width and height"""
    what = OWN[S.choose(len(OWN))]
    S.cover(what)
    name, attr = what.split()
    cls = {"combobox": "QComboBox", "treewidgetitem": "QTreeWidgetItem", "widget": "QWidget"}[name]
    Cls = type(cls, (TreeItem if cls == "QTreeWidgetItem" else Own,), {})
    base = []
    set_base = lambda *a, **k: base.append((a, k))
    W = qtreg.load_object(name, ns(attr_name_to_method_name=None, call_method=None),
                          {"collagraph.renderers.pyside.objects": ns(widget=ns(set_attribute=set_base), qobject=ns(set_attribute=set_base)), "collagraph.renderers.pyside.objects.widget": ns(set_attribute=set_base),
                           "collagraph.renderers.pyside.objects.qobject": ns(set_attribute=set_base), "collagraph.renderers.pyside.objects.layouts": ns(remove_layout=None),
                           "PySide6": ns(QtWidgets=qtreg.qns(**{cls: Cls})), "PySide6.QtWidgets": qtreg.qns(**{cls: Cls}), "PySide6.QtGui": qtreg.qns(**{cls: Cls})})
    el, x = Cls(), S.sym("x")

    def put(a, v):
        k, r = outcome(W.set_attribute, el, a, v)
        S.oblige("returns", k == "return", repr(r))
        S.oblige("not_as_any_other_attribute", not base)
        return k == "return"
    same = lambda got, *want: len(got) == len(want) and all(g is w for g, w in zip(got, want))
    if attr == "items":
        n, cur = S.int("count", 0), S.sym("current text")
        el.count, el.currentText = (lambda: n), (lambda: cur)
        if put(attr, x):
            names = [c[0] for c in el.calls]
            if set(names) - {"addItems", "clear", "setCurrentText"}:
                raise E.Unsupported("another way to replace the items")
            S.oblige("items_are_added", names.count("addItems") == 1 and all(same(c[1], x) for c in el.calls if c[0] == "addItems"))
            i = names.index("addItems") if "addItems" in names else 0
            some = S.branch(n.t > 0)
            S.cover("items replaced" if some else "items added")
            S.oblige("in_place_of_the_previous_ones", "clear" not in names[i:] and (not some or "clear" in names[:i]), str(names))
            S.oblige("the_current_one_is_kept", not some or names[i + 1:] == ["setCurrentText"] and same(el.calls[-1][1], cur), str(names))
    elif attr == "size":
        v = (S.sym("width"), S.sym("height"))
        if put(attr, v):
            S.oblige("resized", [c[0] for c in el.calls] == ["resize"] and same(el.calls[0][1], *v))
    else:
        attrs = [("expanded", "setExpanded"), ("selected", "setSelected")]
        tree = Cls()
        where = ["mounted later", "top level", "nested"][S.choose(3, "place")]
        S.cover(where)
        el.tree = None if where == "mounted later" else tree
        el.up = Cls(tree) if where == "nested" else None
        todo = [a for a in attrs if S.choose(2, a[0])]
        vals = {}
        for a, _ in todo:
            vals[a] = S.sym(a)
            if not put(a, vals[a]):
                return
        setters = lambda: sorted((c[0], c[1]) for c in el.calls if c[0] in ("setExpanded", "setSelected"))
        if where == "mounted later":
            S.oblige("not_yet", setters() == [])
            root = Cls(tree)
            k, r = outcome(W.insert, root, el)
            S.oblige("mounts", k == "return", repr(r))
            if k != "return":
                return
        got = [c for c in el.calls if c[0] in ("setExpanded", "setSelected")]
        S.oblige("each_through_its_setter_once", len(got) == len(todo) and all(len(c[1]) == 1 for c in got) and all(any(c[0] == m and c[1][0] is vals[a] for c in got) for a, m in todo))
        S.oblige("not_before_it_can_be", not [c for c in el.calls if c[0] == "too early"])
        if where == "mounted later":
            el.calls.clear()
            k, r = outcome(W.insert, root, el)
            S.oblige("and_not_again", k == "return" and not [c for c in el.calls if c[0] in ("setExpanded", "setSelected")])

"""cgx/importer.py, the loading half of cgx/cgx.py (C22) and __main__.py (C23)."""
from base import *
import argparse as real_argparse
import ast as real_ast
import engine as E
from contracts.cgxc import AstNS, FakeParser, Component, cgx_module
UNITS = []
B = z3.BoolSort()
I = z3.IntSort()
STR = z3.StringSort()


class ISpec(Spec):
    """One designated element per sequence (see Spec.index)."""
    key_is_str = False

    def index(self, S, seq):
        return S.notes["I"].get(seq.name)

    def tracked(self, S, d):
        return S.notes["keys"]


def str_hook(S, x):
    if isinstance(x, (PathModel, SV)):
        return x.text() if isinstance(x, PathModel) else E.mks(uf("py_str", V, STR)(x.zt__))
    raise E.Unsupported("str of " + type(x).__name__)


class Suffixes:
    """The suffixes of a path: the last one is the suffix, there may be others."""
    pyvc_sym = True

    def __init__(self, t):
        self.t = t

    def __contains__(self, x):
        f = uf("has_suffix", STR, STR, B)(self.t, tos(x))
        E.S.assume(z3.Implies(z3.And(uf("suffix", STR, STR)(self.t) == tos(x), tos(x) != z3.StringVal("")), f))
        return E.S.branch(f)


class PathModel:
    """pathlib.Path in a file system that does not change meanwhile: a path is a directory and a name below it, or a string.
    ERR: the path cannot be looked at (OSError)."""
    pyvc_sym = True

    def __init__(self, *parts):
        self.parts_ = []
        for p in parts:
            self.parts_ += p.parts_ if isinstance(p, PathModel) else [p]
        r = z3.StringVal("")
        ps = [uf("path_of", V, STR)(p.zt__) if isinstance(p, SV) else tos(p) for p in self.parts_]
        self.t = ps[0]
        for p in ps[1:]:
            self.t = uf("path_join", STR, STR, STR)(self.t, p)
        self.zt__ = V.s(self.t)

    def __truediv__(self, o):
        return PathModel(self, o)

    def joinpath(self, *o):
        return PathModel(self, *o)

    def text(self):
        return E.mks(uf("path_str", STR, STR)(self.t))

    def err(self):
        S = E.S
        if S.notes.get("may_fail") and S.branch(uf("stat_fails", STR, B)(self.t)):
            S.cover("unreadable")
            e = OSError(5, "stat fails")
            e.strerror = E.mks(z3.Const("strerror", STR))
            E.throw(e)

    def exists(self):
        self.err()
        return mkb(self.EX())

    def is_file(self):
        self.err()
        return mkb(self.FILE())

    def is_dir(self):
        self.err()
        return mkb(z3.And(self.EX(), uf("is_dir", STR, B)(self.t)))

    def EX(self):
        E.S.assume(z3.Implies(uf("is_file", STR, B)(self.t), z3.And(uf("exists", STR, B)(self.t), z3.Not(uf("is_dir", STR, B)(self.t)))))
        return uf("exists", STR, B)(self.t)

    def FILE(self):
        self.EX()
        return uf("is_file", STR, B)(self.t)

    @property
    def suffix(self):
        return E.mks(uf("suffix", STR, STR)(self.t))

    @property
    def name(self):
        """Ends in the suffix; a name that is all suffix has none."""
        n, x, c = uf("path_name", STR, STR)(self.t), uf("suffix", STR, STR)(self.t), z3.StringVal(".cgx")
        E.S.assume(z3.And(z3.SuffixOf(x, n), z3.Implies(z3.And(z3.SuffixOf(c, n), n != c), x == c), z3.Implies(n == c, x == z3.StringVal(""))))
        return E.mks(n)

    @property
    def suffixes(self):
        return Suffixes(self.t)

    def read_text(self, encoding=None, **k):
        self.open_fails()
        if k:
            raise E.Unsupported("read_text")
        return File(Content(self.t, encoding)).read() if E.S.notes.get("may_fail") else Content(self.t, encoding)

    def open(self, mode="r", *a, encoding=None, **k):
        if mode != "r" or a or k:
            raise E.Unsupported("open")
        self.open_fails()
        return File(Content(self.t, encoding))

    def open_fails(self):
        if E.S.notes.get("may_fail") and E.S.branch(uf("open_fails", STR, B)(self.t)):
            E.throw(PermissionError("open fails"))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise E.Unsupported("Path." + n)


class Content:
    """The text of a file, read with an encoding (reading may fail with any error)."""
    pyvc_sym = True

    def __init__(self, t, encoding):
        self.t, self.encoding = t, encoding


class File:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def read(self):
        if E.S.branch(uf("not_decodable", STR, B)(self.c.t)):
            E.throw(UnicodeDecodeError("utf-8", b"", 0, 1, "invalid"))
        return self.c


# ---------------------------------------------------------------- C22: finding the file
class FoundSpec:
    def __init__(self, name, loader, *, origin=None, **k):
        self.name, self.loader, self.origin = name, loader, origin


def importer(cgx, path):
    return load("collagraph/cgx/importer.py", {"importlib.machinery": ns(ModuleSpec=FoundSpec), "pathlib": ns(Path=PathModel, PurePath=PathModel), "sys": ns(meta_path=[], path=path),
                "collagraph.cgx.cgx": cgx, "collagraph.cgx": ns(cgx=cgx)}, name="collagraph.cgx.importer_v")


@unit(UNITS, "CgxImporter.find_spec", ["C22"], ["collagraph/cgx/importer.py:CgxImporter.find_spec"], spec=ISpec, hooks={"str": str_hook}, covers=["found", "nothing", "package", "sys.path"],
      assumes=["pathlib.Path joins and looks at files as documented; the file system does not change during the search"])
def find_spec(S):
    """for every module name and every search path of any length: the first directory that holds a regular file <last part of the name>.cgx is taken,
    None only if no directory holds one"""
    n = S.int("n", 0)
    top = S.choose(2) == 1
    q = SeqView(n.t, lambda t: SV(uf("directory", I, V)(t), "directory"), name="path", kind="list")
    other = SeqView(S.int("m", 0).t, lambda t: SV(uf("other_directory", I, V)(t), "directory"), name="sys.path", kind="list")
    S.cover("sys.path" if top else "package")
    C = cgx_module()
    M = importer(C, q if top else other)
    Ix = S.int("I", 0).t
    S.notes["I"] = {"path": Ix}
    name = S.str("name")
    file = lambda t: PathModel(SV(uf("directory", I, V)(t), "directory"), E.mks(z3.Concat(tos(name.rpartition(".")[2]), z3.StringVal(".cgx"))))
    if S.choose(2):
        kind, r = outcome(M.CgxImporter.find_spec, name, None if top else q)
    else:
        kind, r = outcome(M.CgxImporter.find_spec, name, None if top else q, None)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if r is None:
        S.cover("nothing")
        S.oblige("nothing_only_if_no_directory_has_it", z3.Not(z3.And(Ix < n.t, file(Ix).FILE())))
        return
    S.cover("found")
    ok = isinstance(r, FoundSpec) and isinstance(r.loader, M.CgxImporter) and isinstance(getattr(r.loader, "cgx_path", None), PathModel)
    S.oblige("is_a_spec_with_this_loader", ok)
    if not ok:
        return
    S.oblige("spec_of_that_module", tob(E.eq(r.name, name)))
    if not all(l.ok() for l in S.loops if hasattr(l, "ok")):
        raise E.PathDead()
    ex = [j for s, j in S.notes.get("exit", []) if s.name == "path"]
    S.oblige("searches_the_given_directories", all(s.name == "path" for s, j in S.notes.get("exit", [])))
    if not ex and S.notes.get("exit"):
        return
    if len(ex) != 1:
        raise E.Unsupported("which directory was taken?")
    j = ex[0]
    p = file(j)
    S.oblige("loads_the_file_of_that_name", r.loader.cgx_path.t == p.t)
    S.oblige("it_is_a_file", p.FILE())
    S.oblige("no_earlier_directory_has_it", z3.Implies(Ix < j, z3.Not(file(Ix).FILE())))


class ModuleModel:
    def __init__(self, d):
        object.__setattr__(self, "pyvc_d", d)

    def __getattribute__(self, n):
        if n == "__dict__":
            return object.__getattribute__(self, "pyvc_d")
        if n.startswith("__") and n not in ("__name__", "__spec__"):
            return object.__getattribute__(self, n)
        d = object.__getattribute__(self, "pyvc_d")
        if n in d:
            return d[n]
        E.throw(AttributeError(n))

    def __setattr__(self, n, v):
        object.__getattribute__(self, "pyvc_d")[n] = v


@unit(UNITS, "CgxImporter.exec_module", ["C22"], ["collagraph/cgx/importer.py:CgxImporter.exec_module"], spec=ISpec, covers=["name of the script", "name of the module", "component"],
      assumes=["cgx.load by its contract: (component, names of the script)"])
def exec_module(S):
    """for every script and every state of the module: afterwards each name of the script has the value of the script (also when the module had
    that name before), the component stands under its own name, and the other names of the module stay"""
    C = cgx_module()
    cname = S.str("cname")
    comp = S.obj("component", "cgxcomponent")
    E.S.notes["cname"] = cname
    K = S.str("K")
    S.notes["keys"] = [K] if S.choose(2) else [cname]
    ctx, old = sym_dict("ctx"), sym_dict("old")
    asked = []
    C.load = lambda p: (asked.append(p), (comp, ctx))[1]
    M = importer(C, None)
    path = SV(z3.Const("path", V), "any")
    mod = ModuleModel(old)
    kind, r = outcome(M.CgxImporter(path).exec_module, mod)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("loads_its_own_file", asked == [path] and len(asked) == 1)
    k = S.notes["keys"][0]
    h = lambda n: uf("has_" + n, V, B)(tov(k))
    v = lambda n: uf("val_" + n, V, V)(tov(k))
    if k is cname:
        S.cover("component")
        S.oblige("the_component_has_its_name", cname in old)
        if cname in old:
            S.oblige("the_component_has_its_name", E.is_(old[cname], comp))
        return
    S.assume(k.t != cname.t)
    now = k in old
    if S.branch(h("ctx")):
        S.cover("name of the script")
        S.oblige("names_of_the_script", now)
        if now:
            S.oblige("names_of_the_script", tov(old[k]) == v("ctx"))
    elif S.branch(h("old")):
        S.cover("name of the module")
        S.oblige("names_of_the_module_stay", now)
        if now:
            S.oblige("names_of_the_module_stay", tov(old[k]) == v("old"))
        c = k in ctx
        S.oblige("functions_of_the_script_see_the_names_of_the_module", c)
        if c:
            S.oblige("functions_of_the_script_see_the_names_of_the_module", tov(ctx[k]) == v("old"))


Kind("directory", truthy="uf")
Kind("cgxcomponent", fields={}, props={"__name__": lambda S, o: S.notes["cname"]}, truthy="always")


# ---------------------------------------------------------------- C22: the component class
class Filtered:
    """[x for x in seq if cond]: none, exactly one or several; the designated elements are among them exactly if cond holds for them."""
    pyvc_sym = True
    kind = "list"

    def __init__(self, S, g):
        q = g.it
        self.f = g.f
        if not isinstance(q, SeqView):
            raise E.Unsupported("comprehension")
        Ix = S.spec.index(S, q)
        w = S.choose(3, "filter")
        self.m = [z3.IntVal(0), z3.IntVal(1), S.fresh("m", I)][w]
        if w == 2:
            S.assume(self.m >= 2)
        self.at = []
        for i in range(w):
            t = S.fresh("i", I)
            S.assume(z3.And(t >= 0, t < q.n, *([t > self.at[-1]] if self.at else [])))
            if not g.cond(q.at(t)):
                raise E.PathDead()
            self.at.append(t)
        S.notes["filtered"] = self
        if w < 2 and Ix is not None and S.branch(z3.And(Ix >= 0, Ix < q.n)) and not (w == 1 and S.branch(Ix == self.at[0])) and g.cond(q.at(Ix)):
            raise E.PathDead()
        self.q = q

    def length(self):
        return mki(self.m)

    def __bool__(self):
        return bool(self.at)

    def unpack(self, before, after):
        if before == 1 and not after:
            return (self[0], self)
        raise E.Unsupported("unpack")

    def __getitem__(self, i):
        if not isinstance(i, int) or i not in (0, -1) or i == -1 and len(self.at) == 2:
            raise E.Unsupported("element of a filtered list")
        if not self.at:
            E.throw(IndexError("list index out of range"))
        return self.f(self.q.at(self.at[0]))

    def __iter__(self):
        if len(self.at) < 2:
            return iter([self.f(self.q.at(t)) for t in self.at])
        raise E.Unsupported("iteration over a filtered list")

    def __len__(self):
        raise E.Unsupported("len")


def memo_at(S, make):
    """Elements of a sequence, the same object for the same index."""
    known = []

    def at(t):
        t = z3.simplify(t)
        for k, x in known:
            if k.eq(t) or not z3.is_int_value(z3.simplify(k - t)) and S.check_always(k == t):
                return x
            if S.check(k == t) == z3.sat and S.branch(k == t):
                return x
        x = make(t)
        known.append((t, x))
        return x
    return at


ISEL, ISCLASS = uf("is_element", I, B), uf("is_class", I, B)


@unit(UNITS, "construct_ast", ["C22", "C16"], ["collagraph/cgx/cgx.py:construct_ast"], spec=ISpec, hooks={"comp": Filtered}, covers=["accepted", "rejected"],
      assumes=["CGXParser, get_script_ast, ImportsCollector and create_ast_render_function by their contracts", "the script defines at least one class at its top level"])
def construct(S):
    """for every template and script: exactly one root element is accepted, everything else is a ValueError; the last class of the script's top level
    gets a render made from that element with the names the script imports, and its name is returned; nothing else of the script changes"""
    tree_events = []
    A = AstNS(fix_missing_locations=lambda n: n, increment_lineno=lambda n, n2=1, **k: n)
    A.increment_lineno = lambda node, n=1: node
    M = cgx_module(ast=A)
    n, m = S.int("n", 0).t, S.int("m", 0).t
    i, c = S.int("I").t, S.int("J").t
    S.notes["I"] = {"children": i, "children.reversed": n - 1 - i, "body": c, "body.reversed": m - 1 - c}
    classes = memo_at(S, lambda t: stmt(t))
    last = S.int("L").t                     # the last class
    S.assume(z3.And(last >= 0, last < m, ISCLASS(last)))
    q = z3.Int("q")
    S.assume(z3.ForAll([q], z3.Implies(z3.And(q > last, q < m), z3.Not(ISCLASS(q)))))
    S.assume(c == last)

    def stmt(t):
        if S.branch(ISCLASS(t)):
            body = [real_ast.Pass(), real_ast.FunctionDef(name="render", body=[])]
            d = real_ast.ClassDef(name=SV(uf("class_name", I, V)(t), "any"), bases=[], keywords=[], body=body, decorator_list=[])
            d.pyvc_at, d.pyvc_body = t, list(body)
            return d
        return real_ast.Pass() if S.choose(2) else real_ast.FunctionDef(name="f", body=[])

    def child(t):
        if S.branch(ISEL(t)):
            e = M.Element("e")
            e.pyvc_at = t
            return e
        return M.TextElement("text") if S.choose(2) else M.Comment("c")
    template, script = M.Element("template"), M.Element("script")
    template.children = SeqView(n, memo_at(S, child), name="children", kind="list")
    script.end = (S.int("line", 0), 0)
    tree = ns(body=SeqView(m, classes, name="body", kind="list"))
    fed, rendered, collected = [], [], []

    class Parser:
        def __init__(self):
            self.root = ns(child_with_tag=lambda t: {"template": template, "script": script}[t])

        def feed(self, text):
            fed.append(text)

        def close(self):
            pass
    M.CGXParser = Parser
    scripts = []
    M.get_script_ast = lambda p, path: (scripts.append((p, path)), tree)[1]

    class Collector:
        def __init__(self):
            self.names = None

        def visit(self, t):
            collected.append(t)
            self.names = "imported names"
    M.ImportsCollector = Collector
    render = real_ast.FunctionDef(name="render", body=[])

    def make(node, names):
        rendered.append((node, names))
        return render
    M.create_ast_render_function = make
    text, path = S.str("template"), SV(z3.Const("path", V), "any")
    S.assume(z3.Length(text.t) > 0)
    kind, r = outcome(M.construct_ast, path, text)
    if kind == "raise":
        S.cover("rejected")
        S.oblige("only_a_value_error", isinstance(r, ValueError) and getattr(r, "pyvc_marked", False), repr(r))
        f = S.notes.get("filtered")
        if f is None:
            raise E.Unsupported("how were the elements counted?")
        # were i the only element, the template would be accepted
        for t in f.at:
            S.assume(z3.Or(z3.Not(ISEL(t)), t == i))
        S.oblige("rejected_only_if_there_is_not_exactly_one_root", z3.Not(z3.And(i >= 0, i < n, ISEL(i))))
        return
    S.cover("accepted")
    S.oblige("parses_the_template", len(fed) == 1 and fed[0] is text)
    S.oblige("render_is_made_once", len(rendered) == 1)
    if len(rendered) != 1:
        return
    el, names = rendered[0]
    ok = isinstance(el, M.Element) and hasattr(el, "pyvc_at")
    S.oblige("render_is_made_from_the_root_element", ok)
    if not ok:
        return
    S.oblige("there_is_no_other_element", z3.Implies(z3.And(i >= 0, i < n, ISEL(i)), i == el.pyvc_at))
    S.oblige("with_the_imported_names", names == "imported names" and collected == [tree])
    ok = isinstance(r, tuple) and len(r) == 2
    S.oblige("gives_tree_and_name", ok and r[0] is tree)
    if not ok:
        return
    d = classes(last)
    S.oblige("name_of_the_last_class", tob(E.eq(r[1], d.name)))
    # after its own statements: one of those can define a render as well
    S.oblige("the_last_class_gets_the_render", len(d.body) > 0 and d.body[-1] is render and all(x is not render for x in d.body[:-1]))
    S.oblige("the_last_class_keeps_its_own_statements", d.body[:-1] == d.pyvc_body)


@unit(UNITS, "load_from_string", ["C22"], ["collagraph/cgx/cgx.py:load_from_string"], covers=["component", "other class"], hooks={"str": str_hook},
      assumes=["construct_ast by its contract; compile and exec run the script"])
def load_string(S):
    """the class of the name construct_ast gives is the result if it is a component, otherwise a ValueError is raised"""
    M = cgx_module()
    name = S.str("name")
    tree, code = object(), object()
    text = S.str("template")
    calls = []
    M.construct_ast = lambda path, template=None: (calls.append((path, template)), (tree, name))[1]

    def comp(t, filename=None, mode=None, **k):
        S.oblige("compiles_that_tree", t is tree and mode == "exec")
        return code
    cls = S.obj("cls", "any")
    space = []

    def run(c, g, *l):
        S.oblige("runs_that_code", c is code and not l)
        space.append(g)
        g[name] = cls
        o = S.str("other")
        S.assume(o.t != name.t)
        g[o] = S.obj("other_class", "any")
    M.compile, M.exec = comp, run
    is_component = S.bool("is_component")

    def sub(c, b):
        S.oblige("asks_about_that_class", c is cls and b is M.Component)
        return is_component
    M.issubclass = sub
    path = SV(z3.Const("path", V), "any") if S.choose(2) else None
    kind, r = outcome(M.load_from_string, text, path) if path is not None else outcome(M.load_from_string, text)
    if kind == "raise":
        S.cover("other class")
        S.oblige("only_a_value_error", isinstance(r, ValueError) and getattr(r, "pyvc_marked", False), repr(r))
        S.oblige("rejected_only_if_it_is_no_component", z3.Not(tob(is_component)))
        return
    S.cover("component")
    S.oblige("accepted_only_if_it_is_a_component", is_component)
    S.oblige("that_template_is_used", len(calls) == 1 and calls[0][1] is text)
    S.oblige("gives_the_class_and_the_names", isinstance(r, tuple) and len(r) == 2 and r[0] is cls and len(space) == 1 and r[1] is space[0])


# ---------------------------------------------------------------- C23
class JsonModel:
    """json: a value, or any exception, as a function of the text."""
    JSONDecodeError = ValueError

    def parse(self, what, t):
        S = E.S
        S.notes["parsed"] = (what, t)
        if not S.branch(uf("valid_json", STR, B)(t)):
            e = [ValueError("no json"), RecursionError("nested"), TypeError("strange"), MemoryError("large")][S.choose(4, "error")]
            e.pyvc_marked = True
            raise e
        return SV(uf("json_value", STR, V)(t), "any")

    def loads(self, s, **k):
        if k:
            raise E.Unsupported("json options")
        if isinstance(s, Content):
            return self.parse("file", self.text(s))
        return self.parse("text", tos(s))

    def load(self, fh, **k):
        if k:
            raise E.Unsupported("json options")
        return self.parse("file", self.text(fh.read()))

    def text(self, c):
        if not isinstance(c, Content):
            raise E.Unsupported("content")
        if c.encoding not in ("utf-8", "utf8", "UTF-8"):
            E.S.oblige("state_files_are_utf_8", False, str(c.encoding))
        return uf("content", STR, STR)(c.t)


def main_module():
    parsers = []

    class Parser:
        def __init__(self, *a, **k):
            self.args, self.result = {}, None
            parsers.append(self)

        def add_argument(self, *names, **k):
            self.args[names[-1].lstrip("-").replace("-", "_")] = (names, k)

        def parse_args(self):
            self.result = ns(**{k: object() for k in self.args})
            return self.result
    arg = ns(ArgumentTypeError=real_argparse.ArgumentTypeError, ArgumentParser=Parser, ArgumentDefaultsHelpFormatter=object)
    M = load("collagraph/__main__.py", {"argparse": arg, "json": JsonModel(), "pathlib": ns(Path=PathModel), "observ": ns(reactive=lambda x: ("reactive", x)), "collagraph": ns(),
                                        "importlib": ns(import_module=lambda *a: None)}, name="collagraph.main_v")
    M.pyvc_parsers = parsers
    return M


def rejected(S, kind, r, value):
    S.oblige("only_argument_errors", isinstance(r, real_argparse.ArgumentTypeError), repr(r))
    if isinstance(r, real_argparse.ArgumentTypeError):
        S.oblige("the_error_names_the_value", bool(r.args) and E.S.check_always(z3.Contains(tos(r.args[0]), value.t)))


@unit(UNITS, "existing_component_file", ["C23"], ["collagraph/__main__.py:existing_component_file"], hooks={"str": str_hook}, covers=["accepted", "rejected", "unreadable"],
      assumes=["pathlib.Path looks at files as documented and raises OSError for unreadable paths; the file system does not change meanwhile"])
def component_file(S):
    """for every string and every state of the file system: accepted (as that path) exactly if it is a regular file with suffix .cgx; rejected with an
    ArgumentTypeError that names it otherwise"""
    M = main_module()
    S.notes["may_fail"] = True
    v = S.str("value")
    p = PathModel(v)
    kind, r = outcome(M.existing_component_file, v)
    good = z3.And(z3.Not(uf("stat_fails", STR, B)(p.t)), p.FILE(), uf("suffix", STR, STR)(p.t) == z3.StringVal(".cgx"))
    if kind == "raise":
        S.cover("rejected")
        rejected(S, kind, r, v)
        S.oblige("rejected_only_if_it_is_no_component_file", z3.Not(good))
        return
    S.cover("accepted")
    S.oblige("accepted_only_if_it_is_a_component_file", good)
    S.oblige("gives_that_path", isinstance(r, PathModel) and E.S.check_always(r.t == p.t))


@unit(UNITS, "json_contents", ["C23"], ["collagraph/__main__.py:json_contents"], hooks={"str": str_hook}, covers=["text", "file", "rejected", "unreadable"],
      assumes=["pathlib.Path as for existing_component_file; json gives a value or raises any Exception, as a function of the text"])
def json_arg(S):
    """for every string, file system and content: the value of the JSON in the file of that name, or else of the string itself; if it is not valid (or the
    file cannot be read) an ArgumentTypeError that names it, and no other exception"""
    M = main_module()
    S.notes["may_fail"] = True
    v = S.str("value")
    p = PathModel(v)
    kind, r = outcome(M.json_contents, v)
    isfile = z3.And(z3.Not(uf("stat_fails", STR, B)(p.t)), p.FILE())
    text = z3.If(isfile, uf("content", STR, STR)(p.t), v.t)
    good = z3.And(uf("valid_json", STR, B)(text), z3.Implies(isfile, z3.And(z3.Not(uf("open_fails", STR, B)(p.t)), z3.Not(uf("not_decodable", STR, B)(p.t)))))
    if kind == "raise":
        S.cover("rejected")
        rejected(S, kind, r, v)
        S.oblige("rejected_only_if_it_is_not_valid", z3.Not(good))
        return
    S.cover("file" if S.branch(isfile) else "text")
    S.oblige("accepted_only_if_it_is_valid", good)
    S.oblige("gives_the_value", tov(r) == uf("json_value", STR, V)(text))


@unit(UNITS, "start", ["C23"], ["collagraph/__main__.py:init_collagraph"], hooks={"str": str_hook}, covers=["pygfx", "pyside", "dict", "no state", "a state"],
      assumes=["the toolkits' own event loops (wgpu.gui.auto.run, QApplication.exec) and breakpoint() return"])
def start(S):
    """for every state and each kind of renderer: the component class of the given file is rendered once, with exactly the given state (or an empty one),
    made reactive, as its props, by a renderer of that kind"""
    made, started, loaded = [], [], []
    Comp = type("Comp", (), {})
    kinds = ["pygfx", "pyside", "dict"]
    kind = kinds[S.choose(3, "renderer")]
    S.cover(kind)

    class Thing:
        """Anything of a toolkit."""
        def __init__(self, *a, **k):
            pass

        def __call__(self, *a, **k):
            return Thing()

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return Thing()

    def renderer(k):
        def make(*a, **kw):
            return ("renderer", k)
        return make

    class Gui:
        def __init__(self, renderer=None, **k):
            self.renderer = renderer

        def render(self, element, target, callback=None):
            started.append((self.renderer, element, target))

    def cgx_load(path, *a, **k):
        loaded.append(path)
        return Comp, ns()
    cg = ns(cgx=ns(cgx=ns(load=cgx_load), load=cgx_load), h=lambda t, props=None, *c: ("element", t, props, c), create_element=lambda t, props=None, *c: ("element", t, props, c), Collagraph=Gui,
            EventLoopType=ns(SYNC=1, DEFAULT=2, QT=3), PygfxRenderer=renderer("pygfx"), PySideRenderer=renderer("pyside"), DictRenderer=renderer("dict"))

    def reactive(x):
        made.append(x)
        return ("reactive", x)
    M = load("collagraph/__main__.py", {"argparse": real_argparse, "json": ns(), "pathlib": ns(Path=PathModel), "observ": ns(reactive=reactive), "collagraph": cg, "importlib": ns(),
                                        "pygfx": Thing(), "wgpu.gui.auto": Thing(), "PySide6": Thing(), "PySide6.QtWidgets": Thing()}, name="collagraph.main_v", extra={"breakpoint": lambda *a: None})
    S.notes["may_fail"] = True
    given = S.choose(3, "state")
    path = PathModel(S.str("path"))
    if given == 0:
        state = None
    elif given == 1:
        state = S.sym("state")
    else:       # (a state that is looked into)
        state = E.SDict([("a", S.sym("a")), ("b", S.sym("b"))])
    S.cover("a state" if given else "no state")
    kindr, r = outcome(M.init_collagraph, kind, path, state) if given or S.choose(2, "omitted") else outcome(M.init_collagraph, kind, path)
    S.oblige("never_raises", kindr == "return", repr(r))
    if kindr == "raise":
        return
    S.oblige("renders_once", len(started) == 1)
    if len(started) != 1:
        return
    rend, el, target = started[0]
    S.oblige("with_the_renderer_asked_for", rend == ("renderer", kind), repr(rend))
    S.oblige("the_component_of_the_file", isinstance(el, tuple) and el[1] is Comp and not el[3] and len(loaded) == 1 and (loaded[0] is path or (not isinstance(loaded[0], PathModel) and E.S.check_always(tos(loaded[0]) == tos(path.text())))))
    props = el[2] if isinstance(el, tuple) else None
    S.oblige("props_are_reactive", isinstance(props, tuple) and props[0] == "reactive", repr(props))
    if not isinstance(props, tuple):
        return
    got = props[1]
    entries = list(got.items()) if type(got) is dict else [tuple(e) for e in got.entries] if isinstance(got, E.SDict) and got.base is None and got.others is False else None
    if given == 0:
        S.oblige("no_state_is_an_empty_one", entries == [], repr(got))
    elif given == 1:
        S.oblige("the_given_state", got is state or (entries == [] and E.S.check_always(z3.Not(E.truth_term(state.zt__)))), repr(got))
    else:
        S.oblige("the_given_state", entries is not None and [k for k, _ in entries] == ["a", "b"] and all(E.S.check_always(tov(v) == tov(state[k])) for k, v in entries), repr(got))


@unit(UNITS, "command line", ["C23"], ["collagraph/__main__.py:run"], assumes=["argparse applies the given type to the argument's text"])
def command_line(S):
    """the two validators decide about the arguments `component` and `--state`, and what they give is what is started"""
    M = main_module()
    started = []
    M.init_collagraph = lambda *a, **k: started.append((a, k))
    M.available_renderers = lambda: {"dict"}
    kind, r = outcome(M.run)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    ps = M.pyvc_parsers
    if len(ps) != 1 or set(ps[0].args) < {"component", "state"}:
        raise E.Unsupported("another way to read the command line")
    p = ps[0]
    S.oblige("component_is_validated", p.args["component"][1].get("type") is M.existing_component_file)
    S.oblige("state_is_validated", p.args["state"][1].get("type") is M.json_contents)
    S.oblige("starts_once_with_the_given_arguments", len(started) == 1 and len(started[0][0]) + len(started[0][1]) == 3)
    if len(started) == 1:
        a, k = started[0]
        got = dict(zip(("renderer_type", "component_path", "state"), a), **k)
        S.oblige("starts_once_with_the_given_arguments", got.get("component_path") is p.result.component and got.get("state") is p.result.state and got.get("renderer_type") is p.result.renderer)

"""cgx/cgx.py, the compiler of template nodes: any number of attributes, children, generators, names, pieces of text."""
from base import *
import ast as A
import types
import engine as E
from contracts.cgxc import cgx_module, AstNS, Hole, FILE
UNITS = []
B = z3.BoolSort()
I = z3.IntSort()
STR = z3.StringSort()
ITE = z3.If


# ---------------------------------------------------------------- sets of names
S0 = z3.Const("name0", STR)              # any name


def pred_of(x):
    if isinstance(x, NSet):
        return x.pred
    if isinstance(x, Image):
        return x.pred
    if isinstance(x, NList):
        return x.set.pred
    if E.is_sym(x) and not getattr(x, "concrete", False):
        raise E.Unsupported("names from another collection")
    ts = [tos(k) for k in x]
    return lambda s: z3.Or(*[s == t for t in ts]) if ts else z3.BoolVal(False)


class NSet:
    """A set of names, known by its membership."""
    pyvc_sym = True
    concrete = False
    pyvc_list = True

    def __init__(self, pred):
        self.pred = pred

    def add(self, x):
        p, t = self.pred, tos(x)
        self.pred = lambda s: z3.Or(p(s), s == t)

    def update(self, *os):
        for o in os:
            p, q = self.pred, pred_of(o)
            self.pred = (lambda p, q: lambda s: z3.Or(p(s), q(s)))(p, q)

    def union(self, *os):
        r = NSet(self.pred)
        r.update(*os)
        return r

    def __or__(self, o):
        return self.union(o)

    def __ror__(self, o):
        return self.union(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def difference(self, o):
        p, q = self.pred, pred_of(o)
        return NSet(lambda s: z3.And(p(s), z3.Not(q(s))))

    def __sub__(self, o):
        return self.difference(o)

    def copy(self):
        return NSet(self.pred)

    def __contains__(self, x):
        return E.S.branch(self.pred(tos(x)))

    def __iter__(self):
        raise E.Unsupported("iteration over names")

    def __bool__(self):
        raise E.Unsupported("whether there are names")
    __hash__ = None

    def as_seq(self):
        return NList(self).as_seq()


class NList:
    """The names of a set as a list, in some order."""
    pyvc_sym = True

    def __init__(self, nset):
        S = E.S
        i = S.notes["lists"] = S.notes.get("lists", 0) + 1
        self.set, self.n, self.at = nset.copy(), S.fresh("names", I), uf(f"name_at_{i}", I, STR)
        S.assume(self.n >= 0)

    def as_seq(self):
        r = SeqView(self.n, lambda t: mks(self.at(t)), name="names", kind="list")
        r.src = self
        return r

    def __iter__(self):
        raise E.Unsupported("iteration over names")


class Image:
    """{f(x) for x in seq}"""
    def __init__(self, pred):
        self.pred = pred


def same_names(a, b):
    """Equality of two sets of names (at any name)."""
    return pred_of(a)(S0) == pred_of(b)(S0)


def subset(a, b):
    return z3.Implies(pred_of(a)(S0), pred_of(b)(S0))


def nset(name):
    f = uf(name, STR, B)
    return NSet(lambda s: f(s))


def to_set(S, x):
    return NSet(pred_of(x))


NHOOKS = {"set": to_set, "sorted": lambda S, x, k: NList(x) if isinstance(x, NSet) and not k else (_ for _ in ()).throw(E.Unsupported("sorted")),
          "list": lambda S, x: NList(x) if isinstance(x, NSet) else (_ for _ in ()).throw(E.Unsupported("list"))}


class Growing:
    """Sets that a loop extends, iteration by iteration, by the names that `contr(k)` says: BEF(k) are those of the iterations before."""
    count = 0

    def __init__(self, S, sets, contr, n):
        i = S.notes["growing"] = S.notes.get("growing", 0) + 1
        self.sets, self.contr, self.n = list(sets), contr, n
        bef = uf(f"names_before_{i}", I, STR, B)
        self.bef = lambda k: NSet(lambda s: bef(k, s))
        S.assume(z3.Not(bef(z3.IntVal(0), S0)))
        self.start = [s.pred for s in self.sets]

    def at(self, k):
        for s, p in zip(self.sets, self.start):
            s.pred = (lambda p: lambda x: z3.Or(p(x), self.bef(k).pred(x)))(p)

    def check(self, S, k, what):
        for s, p in zip(self.sets, self.start):
            S.oblige(what, s.pred(S0) == z3.Or(p(S0), self.bef(k).pred(S0), self.contr(k)(S0)))


class GrowLoop(E.Loop):
    """for item in items: extends sets of names (nothing else changes)."""
    sym = True

    def __init__(self, n, where, names, n_items, item, contr, sets, what):
        super().__init__(n, where, names)
        self.len, self.item, self.contr, self.sets, self.what = n_items, item, contr, sets, what

    def enter(self, loc):
        return tuple(E.Opaque(x) for x in self.names)

    leave = enter

    def __iter__(self):
        S = E.S
        g = Growing(S, self.sets(), self.contr, self.len)
        if S.choose(2, "names loop"):
            g.at(self.len)
            S.cover("end")
            S.notes["grown"] = g
            return
        S.cover("iteration")
        k = S.fresh("k", I)
        S.assume(z3.And(k >= 0, k < self.len))
        g.at(k)
        yield from self.strict(self.item(k))
        g.check(S, k, self.what)
        for l in S.loops:
            l.open = False          # the path ends here, also for the loops around
        raise E.PathEnd()


# ---------------------------------------------------------------- the visitors
TN = uf("target_names", I, STR, B)       # the names in the target of generator k


class Walker:
    """ast.NodeVisitor, ast.NodeTransformer by their contracts: visit() dispatches on the class of the node, generic_visit() visits what is below."""
    def visit(self, node):
        m = getattr(self, "visit_" + type(node).__name__, None)
        if m is not None and not isinstance(node, Part):
            return m(node)
        return self.visit_part(node)

    def visit_part(self, node):
        S = E.S
        if isinstance(node, (Part, Stmts)):
            return node.visited_by(self)
        raise E.Unsupported("visit of other code")

    def generic_visit(self, node):
        if isinstance(node, (Part, Stmts)):
            return node.visited_by(self)
        if isinstance(node, A.Name):
            return node             # nothing below it
        raise E.Unsupported("generic_visit of other code")


class Stmts:
    """A statement with other statements in it: visiting those gives `names`."""
    def visited_by(self, v):
        v.names.update(self.names)


class Part(A.expr):
    """A part of a program, arbitrary: what a visitor does to it is given by the visitor's contract."""
    _fields = ()

    def __init__(self, what, names=None):
        super().__init__()
        self.what, self.names = what, names

    def visited_by(self, v):
        if hasattr(v, "skip"):
            return Hole("rewritten", self, NSet(pred_of(v.skip)))
        if hasattr(v, "names") and self.names is not None:
            v.names.update(self.names)
            return None
        raise E.Unsupported("another visitor")


def rewritten(S, what, h, part, skip, clause="rewritten_with_the_names_that_are_visible_there"):
    ok = isinstance(h, Hole) and h.what == "rewritten" and h.a[0] is part
    S.oblige(what, ok, repr(h))
    if ok:
        S.oblige(clause, same_names(h.a[1], skip))


def visitors():
    return cgx_module(ast=AstNS(NodeVisitor=Walker, NodeTransformer=Walker))


@unit(UNITS, "NameCollector", ["C13", "C15"], [FILE + ":NameCollector"], assumes=["ast.NodeVisitor.visit dispatches on the class of the node and generic_visit visits every node below"])
def name_collector(S):
    """a visited name is collected, and the names collected before stay"""
    M = visitors()
    c = M.NameCollector()
    S.oblige("starts_without_names", not list(c.names))
    old = nset("collected")
    c.names = old.copy()
    s = S.str("id")
    kind, r = outcome(c.visit, A.Name(id=s, ctx=A.Store()))
    S.oblige("never_raises", kind == "return", repr(r))
    S.oblige("exactly_that_name_is_added", pred_of(c.names)(S0) == z3.Or(old.pred(S0), S0 == s.t))


class Aliases:
    pyvc_sym = True

    def __init__(self, n):
        self.n = n


SCOPES = ("FunctionDef", "AsyncFunctionDef", "ClassDef")
BLOCKS = ("Module", "If", "Try", "With", "For", "While")


@unit(UNITS, "ImportsCollector", ["C15"], [FILE + ":ImportsCollector"], hooks=NHOOKS, covers=["end", "iteration", "alias", "plain", "dotted", "scope", "block"],
      assumes=["ast.NodeVisitor.visit dispatches on the class of the node and generic_visit visits every node below"])
def imports(S):
    """for any number of imports: the collected names are exactly the names that the imports bind in the module (`import a.b` binds a); what functions and
    classes import is not collected, what other blocks of statements import is"""
    M = visitors()
    name, asname, has = uf("alias_name", I, STR), uf("alias_asname", I, STR), uf("alias_has_asname", I, B)
    dotted = lambda k: z3.Contains(name(k), z3.StringVal("."))
    node = S.choose(2 + len(SCOPES) + len(BLOCKS), "node")
    c = M.ImportsCollector()
    S.oblige("starts_without_names", not list(c.names))
    old = nset("collected")
    c.names = old.copy()
    if node >= 2:
        cls = (SCOPES + BLOCKS)[node - 2]
        stmts = type(cls, (Stmts,), {})()
        stmts.names = nset("imported_below")
        kind, r = outcome(c.visit, stmts)
        S.oblige("never_raises", kind == "return", repr(r))
        if cls in SCOPES:
            S.cover("scope")
            S.oblige("what_a_function_or_class_imports_is_not_collected", same_names(c.names, old))
        else:
            S.cover("block")
            S.oblige("what_a_block_imports_is_collected", pred_of(c.names)(S0) == z3.Or(old.pred(S0), stmts.names.pred(S0)))
        return
    n = S.fresh("n", I)
    S.assume(n >= 1)

    def item(k):
        a = A.alias(name=mks(name(k)), asname=None)
        S.assume(z3.Length(name(k)) > 0)
        if node:
            S.assume(z3.Not(dotted(k)))         # from m import a
        if S.branch(has(k)):
            S.assume(z3.Length(asname(k)) > 0)
            a.asname = mks(asname(k))
            S.cover("alias")
        else:
            S.cover("plain")
            if not node and S.branch(dotted(k)):
                S.cover("dotted")
        return a
    bound = lambda k: z3.If(dotted(k), z3.SubString(name(k), 0, z3.IndexOf(name(k), z3.StringVal("."), 0)), name(k))
    contr = lambda k: lambda s: s == ITE(has(k), asname(k), bound(k))
    hook = lambda no, where, names, it: GrowLoop(no, where, names, n, item, contr, lambda: [c.names], "the_name_under_which_it_is_known_is_added") if isinstance(it, Aliases) else E.hook_for(no, where, names, it)
    M._pv_for = hook
    tree = A.ImportFrom(module="m", names=Aliases(n), level=0) if node else A.Import(names=Aliases(n))
    kind, r = outcome(c.visit, tree)
    S.oblige("never_raises", kind == "return", repr(r))
    g = S.notes.get("grown")
    if g is None:
        raise E.Unsupported("no loop over the names")
    S.oblige("all_names_are_collected", c.names.pred(S0) == z3.Or(old.pred(S0), g.bef(n).pred(S0)))


class Params:
    """A list of parameters (ast.arg), or several lists one after another."""
    pyvc_sym = True
    concrete = False

    def __init__(self, preds):
        self.preds = list(preds)

    def __add__(self, o):
        if isinstance(o, Params):
            return Params(self.preds + o.preds)
        if isinstance(o, (list, tuple)):
            r = self.copy()
            r.extend(o)
            return r
        raise E.Unsupported("other parameters")

    def __radd__(self, o):
        return Params([]).__add__(o) + self

    def copy(self):
        return Params(self.preds)

    def append(self, x):
        t = tos(x.arg)
        self.preds.append(lambda s: s == t)

    def extend(self, xs):
        if isinstance(xs, Params):
            self.preds += xs.preds
        else:
            for x in xs:
                self.append(x)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def pred(self, s):
        return z3.Or(*[p(s) for p in self.preds]) if self.preds else z3.BoolVal(False)

    def as_seq(self):
        n, at = E.S.fresh("params", I), uf("param_at", I, STR)
        E.S.assume(n >= 0)
        r = SeqView(n, lambda t: A.arg(arg=mks(at(t))), name="params", kind="list")
        r.src, r.at_ = self, at
        return r

    def __iter__(self):
        raise E.Unsupported("iteration over parameters")


def image(S, g):
    """{f(x) for x in params} (the set of the names, if f is .arg)"""
    if not isinstance(getattr(g.it, "src", None), Params) or g.cond is not None:
        raise E.Unsupported("comprehension over other things")
    t = S.fresh("t", I)
    r = g.f(g.it.at(t))
    if not S.check_always(tos(r) == g.it.at_(t)):
        raise E.Unsupported("another image of the parameters")
    if g.kind == "set":
        return NSet(g.it.src.pred)
    raise E.Unsupported("comprehension over parameters")


@unit(UNITS, "RewriteName.visit_Lambda", ["C13", "C15", "C14"], [FILE + ":RewriteName.visit_Lambda"], hooks={**NHOOKS, "comp": image}, covers=["vararg", "kwarg", "neither"],
      assumes=["ast.NodeTransformer.visit dispatches on the class of the node (units RewriteName.*) and otherwise transforms every part below"])
def visit_lambda(S):
    """for lambdas with any parameters of any kind: the body keeps the names of the parameters, the defaults are evaluated outside"""
    M = visitors()
    skip = nset("in_skip")
    kinds = [nset(f"params_{k}") for k in ("posonly", "plain", "kwonly")]
    args = A.arguments.__new__(A.arguments)

    class Arguments(Part):
        def visited_by(self, v):
            if getattr(v, "skip", None) is None:
                raise E.Unsupported("another visitor")
            S.notes.setdefault("defaults", []).append(NSet(pred_of(v.skip)))
            return self
    args = Arguments("arguments")
    args.posonlyargs, args.args, args.kwonlyargs = [Params([k.pred]) for k in kinds]
    preds = [k.pred for k in kinds]
    args.vararg = args.kwarg = None
    if S.choose(2, "vararg"):
        args.vararg = A.arg(arg=S.str("vararg"))
        preds.append(lambda s: s == args.vararg.arg.t)
        S.cover("vararg")
    if S.choose(2, "kwarg"):
        args.kwarg = A.arg(arg=S.str("kwarg"))
        preds.append(lambda s: s == args.kwarg.arg.t)
        S.cover("kwarg")
    if len(preds) == 3:
        S.cover("neither")
    body = Part("body")
    node = A.Lambda(args=args, body=body)
    v = M.RewriteName(skip=skip.copy())
    kind, r = outcome(v.visit, node)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("it_stays_a_lambda", isinstance(r, A.Lambda) and r.args is args)
    if not isinstance(r, A.Lambda):
        return
    rewritten(S, "the_body_is_rewritten", r.body, body, NSet(lambda s: z3.Or(skip.pred(s), *[p(s) for p in preds])), "with_the_names_outside_and_of_the_parameters")
    d = S.notes.get("defaults", [])
    S.oblige("the_defaults_are_rewritten", len(d) == 1)
    if d:
        S.oblige("with_the_names_outside", same_names(d[0], skip))
    S.oblige("the_names_outside_are_kept", same_names(v.skip, skip))


class Gens:
    """The generators of a comprehension: generator(k) is the k-th."""
    pyvc_sym = True

    def __init__(self, n):
        self.n = n
        self.skip = None            # the names visible outside, once rewritten as part of the comprehension


class TargetTuple(A.Tuple):
    """A target that is not just a name."""


class Target(Part):
    pass


def generator(S, k, kind=None):
    """Generator k of a comprehension."""
    c = A.comprehension()
    if S.choose(2, "target") if kind is None else kind:
        c.target = A.Name(id=S.str("target"), ctx=A.Store())
        S.assume(TN(k, S0) == (S0 == c.target.id.t))
        c.pred = lambda s: s == c.target.id.t
        S.cover("name")
    else:
        c.target = Target("target", Image(lambda s: TN(k, s)))
        c.pred = lambda s: TN(k, s)
        S.cover("tuple")
    c.iter, c.is_async = Part("iter"), 0
    n, ifs = S.fresh("ifs", I), {}

    def cond(t):
        t = z3.simplify(t)
        if t not in ifs:
            ifs[t] = Part("if")
            ifs[t].t = t
        return ifs[t]
    S.assume(n >= 0)
    c.ifs = SeqView(n, cond, name="ifs", kind="list")
    c.parts = (c.target, c.iter, c.ifs)
    return c


class GensLoop(E.Loop):
    """The loop of visit_comprehension over the generators: what holds the visible names (a visitor or a set) has those of the generators before."""
    sym = True

    def __init__(self, n, where, names, it):
        super().__init__(n, where, names, it)

    def enter(self, loc):
        S = E.S
        S.notes["gens_loops"] = S.notes.get("gens_loops", 0) + 1
        skip = S.notes["skip"]
        bef = uf("targets_before", I, STR, B)
        S.assume(z3.Not(bef(z3.IntVal(0), S0)))
        self.bef = bef
        self.last = S.choose(2, "generators") == 1
        self.k = self.it.n if self.last else S.fresh("k", I)
        if not self.last:
            S.assume(z3.And(self.k >= 0, self.k < self.it.n))
        self.vis = NSet(lambda s: z3.Or(skip.pred(s), bef(self.k, s)))
        self.roles = {}
        out = []
        for x in self.names:
            v = loc.get(x)
            if isinstance(v, S.notes["M"].RewriteName):
                self.roles[x] = "visitor"
                S.oblige("begins_with_the_names_outside", same_names(v.skip, skip))
                out.append(S.notes["M"].RewriteName(skip=self.vis.copy()))
            elif isinstance(v, NSet):
                self.roles[x] = "set"
                S.oblige("begins_with_the_names_outside", same_names(v, skip))
                out.append(self.vis.copy())
            else:
                out.append(E.Opaque(f"{x} of an earlier iteration"))
        self.out = dict(zip(self.names, out))
        return tuple(out)

    def leave(self, loc):
        return tuple(self.out[x] for x in self.names)

    def __iter__(self):
        S = E.S
        if self.last:
            S.cover("end")
            S.notes["visible"] = self.vis
            return
        S.cover("iteration")
        g = generator(S, self.k)
        yield from self.strict(g)
        import sys
        loc = sys._getframe(1).f_locals
        target, it, ifs = g.parts
        inner = NSet(lambda s: z3.Or(self.vis.pred(s), g.pred(s)))
        S.oblige("the_target_is_kept", g.target is target)
        rewritten(S, "the_collection_is_rewritten", g.iter, it, self.vis, "the_collection_sees_the_targets_of_the_generators_before")
        new = g.ifs
        if not isinstance(new, SeqView):
            raise E.Unsupported("conditions in another form")
        S.oblige("every_condition_is_rewritten", new.n == ifs.n)
        t = S.fresh("t", I)
        S.assume(z3.And(t >= 0, t < ifs.n))
        if new is ifs:
            S.oblige("every_condition_is_rewritten", z3.Not(ifs.n > 0))
        else:
            rewritten(S, "every_condition_is_rewritten", new.at(t), ifs.at(t), inner, "the_conditions_see_the_target_of_their_generator")
        for x, role in self.roles.items():
            S.oblige("the_targets_become_visible", same_names(loc[x].skip if role == "visitor" else loc[x], inner))
        raise E.PathEnd()


@unit(UNITS, "RewriteName.visit_comprehension", ["C13", "C15", "C14"], [FILE + ":RewriteName.visit_comprehension"], hooks=NHOOKS, covers=["end", "iteration", "name", "tuple", "ListComp", "SetComp", "DictComp", "GeneratorExp"],
      assumes=["ast.NodeTransformer.visit dispatches on the class of the node (units RewriteName.*) and otherwise transforms every part below"])
def visit_comprehension(S):
    """for comprehensions of every kind with any number of generators and conditions: each collection sees the targets of the generators before,
    each condition those and its own, the elements all; the names outside are unchanged"""
    M = visitors()
    S.notes["M"] = M
    # the instrumented class: names in sets known by membership
    for name in ("NameCollector",):
        cls = getattr(M, name)
        init = cls.__init__

        def __init__(self, *a, init=init, **k):
            init(self, *a, **k)
            self.names = NSet(pred_of(self.names))
        cls.__init__ = __init__
    M._pv_for = lambda n, where, names, it: GensLoop(n, where, names, it) if isinstance(it, Gens) else E.hook_for(n, where, names, it)
    skip = S.notes["skip"] = nset("in_skip")
    n = S.fresh("n", I)
    S.assume(n >= 1)
    w = S.choose(4, "kind")
    cls = (A.ListComp, A.SetComp, A.GeneratorExp, A.DictComp)[w]
    S.cover(cls.__name__)
    parts = {f: Part(f) for f in (("key", "value") if w == 3 else ("elt",))}
    gens = Gens(n)
    node = cls(generators=gens, **parts)
    v = M.RewriteName(skip=skip.copy())
    kind, r = outcome(v.visit, node)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("it_stays_a_comprehension", type(r) is cls and r.generators is gens)
    if type(r) is not cls:
        return
    if S.notes.get("gens_loops", 0) != 1:
        raise E.Unsupported("no loop over the generators")
    for f, p in parts.items():
        rewritten(S, "the_elements_are_rewritten", getattr(r, f), p, S.notes["visible"], "the_elements_see_all_targets")
    S.oblige("the_names_outside_are_kept", same_names(v.skip, skip))


# ---------------------------------------------------------------- what a node says about itself
KEY = uf("attr_key", I, STR)


class KeySpec(Spec):
    def index(self, S, seq):
        return S.notes["I"] if getattr(seq, "keys", False) else None


class Attrs:
    """The attributes of a node, by their keys in order."""
    pyvc_sym = True
    concrete = False

    def __init__(self, n):
        self.n = n

    def as_seq(self):
        r = SeqView(self.n, lambda t: mks(KEY(t)), name="keys", kind="list")
        r.keys = True
        return r

    def keys(self):
        return self.as_seq()

    def __iter__(self):
        raise E.Unsupported("iteration over attributes outside a loop")


def attrs_of(S, M):
    n, i = S.fresh("n", I), S.fresh("I", I)
    S.assume(z3.And(n >= 0, i >= 0, i < n))
    S.notes["I"] = i
    el = M.Element("tag")
    el.attrs = Attrs(n)
    return el, n, i


def exit_index(S, seq_ok=True):
    ex = [j for q, j in S.notes.get("exit", [])]
    if len(ex) > 1:
        raise E.Unsupported("several loops")
    if any(getattr(l, "pending", None) == "done" for l in S.loops):
        raise E.PathDead()          # an iteration that was supposed to complete
    return ex[0] if ex else None


@unit(UNITS, "Element.control_flow", ["C12"], [FILE + ":Element.control_flow"], spec=KeySpec, covers=["none", "some"])
def el_control_flow(S):
    """for any number of attributes: the first of them that is v-if, v-else-if or v-else, or None if there is none"""
    M = cgx_module()
    el, n, i = attrs_of(S, M)
    is_dir = lambda k: z3.Or(*[k == z3.StringVal(x) for x in ("v-if", "v-else-if", "v-else")])
    kind, r = outcome(el.control_flow)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    j = exit_index(S)
    if r is None:
        S.cover("none")
        S.oblige("none_only_without_directive", z3.Not(is_dir(KEY(i))))
        return
    S.cover("some")
    if j is None:
        raise E.Unsupported("found without a loop")
    S.oblige("a_directive_of_the_node", z3.And(tos(r) == KEY(j), is_dir(KEY(j))))
    S.oblige("the_first_one", z3.Implies(i < j, z3.Not(is_dir(KEY(i)))))


class Split:
    """The parts of a string: `head`, then those of x, which has at least two."""
    def __init__(self, head, x, sep):
        self.head, self.x, self.sep = head, x, sep

    def __iter__(self):
        import dis, sys
        f = sys._getframe(1)
        op = f.f_code.co_code[f.f_lasti]
        if dis.opname[op] != "UNPACK_SEQUENCE" or f.f_code.co_code[f.f_lasti + 1] > len(self.head) + 1:
            raise E.Unsupported("parts of a string")
        E.throw(ValueError("too many values to unpack"))

    def __getitem__(self, i):
        if isinstance(i, int) and 0 <= i < len(self.head):
            return self.head[i]
        S, a, b = E.S, E.S.fresh("part", z3.StringSort()), E.S.fresh("rest", z3.StringSort())
        sep = z3.StringVal(self.sep)
        if i == -1:
            S.assume(z3.And(self.x == z3.Concat(b, sep, a), z3.Not(z3.Contains(a, sep))))
        elif i == len(self.head):
            S.assume(z3.And(self.x == z3.Concat(a, sep, b), z3.Not(z3.Contains(a, sep))))
        else:
            raise E.Unsupported("parts of a string")
        return mks(a)


def split_name(S, s, sep, *n):
    """s.split(sep) where it is known what s consists of."""
    if isinstance(sep, str) and sep and (not n or n == (1,)):
        for pre, x in S.notes.get("composed", []):
            if s.t.eq(z3.Concat(z3.StringVal(pre), x)):
                parts = pre.split(sep, *n)
                last = z3.simplify(z3.Concat(z3.StringVal(parts[-1]), x)) if parts[-1] else x
                if n and len(parts) == 2 or not S.branch(z3.Contains(x, z3.StringVal(sep))):
                    return [*parts[:-1], mks(last)]
                if not n:
                    return Split(parts[:-1], last, sep)
        if S.check_always(z3.Not(z3.Contains(s.t, tos(sep)))):
            return [s]
    raise E.Unsupported("parts of a string")


def composed(S, pre, x):
    """The string pre + x."""
    S.notes.setdefault("composed", []).append((pre, x))
    return E.SStr(z3.Concat(z3.StringVal(pre), x))


@unit(UNITS, "Element.slot_name", ["C11"], [FILE + ":Element.slot_name"], spec=KeySpec, hooks={"str.split": split_name}, covers=["none", "short", "long", "default", "no slot"])
def el_slot_name(S):
    """for any number of attributes and any names: the name of the slot given by the first attribute `#name` or `v-slot:name`, default for a bare
    v-slot, and None without any"""
    M = cgx_module()
    el, n, i = attrs_of(S, M)
    el.attrs.as_seq = lambda: seq
    isslot, keys = uf("is_slot_key", I, B), []

    def key(t):
        for u, k in keys:
            if u.eq(t) or S.check_always(u == t):
                return k
        if not S.branch(isslot(t)):
            s = S.str("other_key")
            S.assume(z3.Not(z3.Or(z3.PrefixOf(z3.StringVal("v-slot"), s.t), z3.PrefixOf(z3.StringVal("#"), s.t))))
            k = (s, None)
        else:
            w = S.choose(3, "form")
            x = S.str("x")
            if w < 2:
                S.assume(z3.Length(x.t) > 0)
            k = (("v-slot" if w == 2 else composed(S, ("#", "v-slot:")[w], x.t)), (x.t, x.t, z3.StringVal("default"))[w])
            S.cover(("short", "long", "default")[w])
        keys.append((t, k))
        return k
    seq = SeqView(n, lambda t: key(t)[0], name="keys", kind="list")
    seq.keys = True
    kind, r = outcome(el.slot_name)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    j = exit_index(S)
    if r is None:
        S.cover("none")
        S.oblige("none_only_without_slot", z3.Not(isslot(i)))
        return
    if j is None:
        raise E.Unsupported("found without a loop")
    S.oblige("a_slot_of_the_node", isslot(j))
    S.oblige("the_first_one", z3.Implies(i < j, z3.Not(isslot(i))))
    want = key(j)[1]
    if S.branch(z3.And(i < j)):
        S.cover("no slot")
    S.oblige("the_name_of_that_slot", want is not None and tos(r) == want)


@unit(UNITS, "Element.child_with_tag", ["C16"], [FILE + ":Element.child_with_tag"], spec=KeySpec, covers=["none", "some"])
def child_with_tag(S):
    """for any number of children: the first with that tag, or None"""
    M = cgx_module()
    n, i = S.fresh("n", I), S.fresh("I", I)
    S.assume(z3.And(n >= 0, i >= 0, i < n))
    S.notes["I"] = i
    tagof, isel = uf("tag_of", I, STR), uf("is_element", I, B)
    kids = []

    def kid(t):
        for u, k in kids:
            if u.eq(t) or S.check_always(u == t):
                return k
        k = M.Element(mks(tagof(t))) if S.branch(isel(t)) else M.TextElement(S.str("text"))
        kids.append((t, k))
        return k
    seq = SeqView(n, kid, name="children", kind="list")
    seq.keys = True
    el = M.Element("x")
    el.children = seq
    tag = S.str("tag")
    fits = lambda t: z3.And(isel(t), tagof(t) == tag.t)
    kind, r = outcome(el.child_with_tag, tag)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    j = exit_index(S)
    if r is None:
        S.cover("none")
        S.oblige("none_only_without_such_a_child", z3.Not(fits(i)))
        return
    S.cover("some")
    if j is None:
        raise E.Unsupported("found without a loop")
    S.oblige("a_child_with_that_tag", z3.And(fits(j), z3.BoolVal(r is kid(j))))
    S.oblige("the_first_one", z3.Implies(i < j, z3.Not(fits(i))))


@unit(UNITS, "is_directive", ["C14", "C11"], [FILE + ":is_directive"])
def is_directive(S):
    """a key denotes a directive exactly if it begins with v-, :, @ or #"""
    M = cgx_module()
    k = S.str("key")
    kind, r = outcome(M.is_directive, k)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("exactly_by_its_prefix", tob(r) == z3.Or(*[z3.PrefixOf(z3.StringVal(p), k.t) for p in ("v-", ":", "@", "#")]))


# ---------------------------------------------------------------- convert_node_to_args
# Everything is symbolic: the tag (element, component, any number of dots), any number of attributes of any form, any number of children of any
# kind, any number of generators in a v-for.  Each loop is cut by an invariant that says what the part done so far has come to.
class Seg:
    """A part of a list that earlier iterations made."""
    def __init__(self, what, n, at=None):
        self.what, self.n, self.at = what, n, at


class SL:
    """A list made of segments and single items."""
    pyvc_sym = True
    kind = "list"
    __hash__ = None

    def __init__(self, parts=()):
        self.parts = list(parts)

    @property
    def concrete(self):
        return not any(isinstance(p, Seg) for p in self.parts)

    def size(self):
        return z3.simplify(z3.Sum(*[p.n if isinstance(p, Seg) else z3.IntVal(1) for p in self.parts], z3.IntVal(0)))

    def length(self):
        return mki(self.size())

    def __len__(self):
        if self.concrete:
            return len(self.parts)
        raise E.Unsupported("len")

    def __bool__(self):
        if any(not isinstance(p, Seg) for p in self.parts):
            return True
        return bool(self.parts) and E.S.branch(self.size() > 0)

    def append(self, x):
        self.parts.append(x)

    def extend(self, xs):
        if isinstance(xs, (SL, Spread)):
            self.parts += xs.parts
        elif isinstance(xs, (list, tuple)):
            self.parts += xs
        else:
            raise E.Unsupported("extend")

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = self.copy()
        r.extend(o)
        return r

    def copy(self):
        return SL(self.parts)

    def clear(self):
        self.parts = []

    def insert(self, i, x):
        t, pos = toi(i), z3.IntVal(0)
        for j in range(len(self.parts) + 1):
            if E.S.check_always(pos == t):
                self.parts.insert(j, x)
                return
            if j < len(self.parts):
                pos = pos + (self.parts[j].n if isinstance(self.parts[j], Seg) else 1)
        raise E.Unsupported("insertion in the middle of a segment")

    def __getitem__(self, i):
        if isinstance(i, int) and self.parts:
            p = self.parts[i] if -len(self.parts) <= i < len(self.parts) else None
            if i == -1 and not isinstance(p, Seg) or i >= 0 and p is not None and not any(isinstance(q, Seg) for q in self.parts[:i + 1]):
                return p
        if isinstance(i, slice) and self.concrete:
            return SL(self.parts[i])
        raise E.Unsupported("an item of a list")

    def __setitem__(self, i, x):
        if i == -1 and self.parts and not isinstance(self.parts[-1], Seg):
            self.parts[-1] = x
        else:
            raise E.Unsupported("an item of a list")

    def pop(self, i=-1):
        if i == -1 and self.parts and not isinstance(self.parts[-1], Seg):
            return self.parts.pop()
        raise E.Unsupported("pop")

    def __iter__(self):
        if self.concrete:
            return iter(self.parts)
        raise E.Unsupported("iteration over a list outside a loop")

    def as_seq(self):
        if len(self.parts) == 1 and isinstance(self.parts[0], Seg) and self.parts[0].at:
            p = self.parts[0]
            r = SeqView(p.n, p.at, name=p.what, kind="list")
            r.src = self
            return r
        if self.concrete:
            return self.parts
        raise E.Unsupported("iteration over a list of which parts are known")


class Spread:
    """What args_for_text_element gives: any number of items."""
    pyvc_sym = True
    __hash__ = None

    def __init__(self, *parts):
        self.parts = list(parts)

    def __iter__(self):
        return iter(self.parts)


class Pieces:
    """The parts of a dotted tag: n > 1 names."""
    pyvc_sym = True

    def __init__(self, n, off=0):
        self.n, self.off = n, off

    def at(self, t):
        return mks(uf("tag_part", I, STR)(z3.simplify(t + self.off)))

    def unpack(self, before, after):
        if before != 1 or after:
            raise E.Unsupported("parts of the tag")
        return (self.at(z3.IntVal(0)), Pieces(z3.simplify(self.n - 1), self.off + 1))

    def __getitem__(self, i):
        if i == 0:
            return self.at(z3.IntVal(0))
        if isinstance(i, slice) and i.start == 1 and i.stop is None and i.step is None:
            return self.unpack(1, 0)[1]
        raise E.Unsupported("parts of the tag")

    def __iter__(self):
        raise E.Unsupported("parts of the tag outside a loop")


class TagChar:
    """The first character of a tag."""
    pyvc_sym = True

    def __init__(self, kind):
        self.kind = kind

    def islower(self):
        return self.kind == "lower"

    def isupper(self):
        return self.kind == "upper"

    def __eq__(self, o):
        raise E.Unsupported("first character")
    __hash__ = None


class TagStr(E.SStr):
    """A tag: element ("lower"), component ("upper"), or with dots ("dotted ..")."""
    __slots__ = ("kind",)

    def __init__(self, t, kind):
        super().__init__(t)
        self.kind = kind

    def __contains__(self, o):
        if o == ".":
            return self.kind.startswith("dotted")
        raise E.Unsupported("part of a tag")

    def __getitem__(self, i):
        if i == 0:
            return TagChar(self.kind.removeprefix("dotted "))
        raise E.Unsupported("part of a tag")

    def split(self, sep, *a):
        if sep == "." and not a and self.kind.startswith("dotted"):
            n = E.S.fresh("parts", I)
            E.S.assume(n > 1)
            E.S.notes["tag parts"] = n
            return Pieces(n)
        raise E.Unsupported("parts of a tag")


class State(Spec):
    pass


class TagLoop(E.Loop):
    """Over the names behind the first dot: the result so far denotes the object of the names so far."""
    sym = True

    def enter(self, loc):
        S = E.S
        cur = [x for x in self.names if isinstance(loc.get(x), A.expr)]
        if len(cur) != 1:
            raise E.Unsupported("which variable holds the object?")
        self.cur, v = cur[0], loc[cur[0]]
        S.oblige("it_begins_with_the_first_name", self.it.off == 1 and isinstance(v, A.Name) and isinstance(v.ctx, A.Load) and bool(S.check_always(tos(v.id) == tos(Pieces(0).at(z3.IntVal(0))))))
        self.last = S.choose(2, "tag loop") == 1 if S.notes["focus"] == "tag" else True
        k = self.it.n if self.last else S.fresh("k", I)
        if not self.last:
            S.assume(z3.And(k >= 0, k < self.it.n))
        self.k = k
        self.obj = Hole("object", mki(k))
        if self.last:
            S.notes["object"] = self.obj
        return tuple(self.obj if x == self.cur else E.Opaque(x) for x in self.names)

    def __iter__(self):
        S = E.S
        if self.last:
            return
        S.cover("tag part")
        yield from self.strict(self.it.at(self.k))
        import sys
        r = sys._getframe(1).f_locals[self.cur]
        ok = isinstance(r, A.Attribute) and r.value is self.obj and isinstance(r.ctx, A.Load)
        S.oblige("the_attribute_of_that_name", z3.And(ok, tos(r.attr) == tos(self.it.at(self.k))) if ok else False)
        raise E.PathEnd()

    def leave(self, loc):
        return tuple(self.obj if x == self.cur else E.Opaque(x) for x in self.names)


# the attributes
class AttrMap:
    """The attributes of a node: any number, of any form."""
    pyvc_sym = True

    def __init__(self):
        self.n = E.S.fresh("attrs", I)
        E.S.assume(self.n >= 0)

    def items(self):
        return AttrItems(self)

    def __iter__(self):
        raise E.Unsupported("iteration over attributes")


class AttrItems:
    pyvc_sym = True

    def __init__(self, m):
        self.m = m

    def __iter__(self):
        raise E.Unsupported("iteration over attributes")


FORMS = ["static", ":", "v-bind:", "@", "v-on:", "v-bind", "v-for", "v-if", "v-else-if", "v-else", "v-slot", "v-slot:", "#"]


def locate(loc, where, kind, names=None):
    """The local variables of a type that the body of the loop mentions."""
    return {x: loc[x] for x in sorted(E.MENTIONED[where]) if x in loc and isinstance(loc[x], kind) and (names is None or x in names)}


class AttrLoop(E.Loop):
    """Over the attributes: two lists hold, in order, name and value of those that are given to the element; None stands for the names of a mapping."""
    sym = True

    def enter(self, loc):
        S = E.S
        sls = locate(loc, self.where, SL)
        ks = [v for x, v in sls.items() if "key" in x or "name" in x]
        vs = [v for x, v in sls.items() if "val" in x]
        if len(sls) != 2 or len(ks) != 1 or len(vs) != 1 or any(v.parts for v in sls.values()):
            raise E.Unsupported("which lists hold the attributes?")
        self.ks, self.vs = ks[0], vs[0]
        self.last = S.choose(2, "attr loop") == 1 if S.notes["focus"] == "attrs" else True
        if not self.last:
            n = S.fresh("given", I)
            S.assume(n >= 0)
            self.seg = Seg("names so far", n), Seg("values so far", n)
        else:
            n, u = S.fresh("given", I), S.fresh("mapping", I)
            S.assume(z3.And(n >= 0, u >= -1, u < n))       # u: where the mapping is, -1 without one (keys of a dict are unique: at most one)
            S.notes.update(given=n, mapping=u)
            name = uf("given_name", I, STR)

            def key(t):
                if S.branch(t == u):
                    return None
                c = A.Constant(value=mks(name(t)))
                c.index = t
                return c

            def val(t):
                h = Hole("value", mki(z3.simplify(t)))
                h.index = t
                return h
            self.seg = Seg("names", n, key), Seg("values", n, val)
        self.ks.parts, self.vs.parts = [self.seg[0]], [self.seg[1]]
        return tuple(E.Opaque(x) for x in self.names)

    leave = lambda self, loc: tuple(E.Opaque(x) for x in self.names)

    def __iter__(self):
        S = E.S
        if self.last:
            return
        f = FORMS[S.choose(len(FORMS), "form")]
        S.cover(f)
        val, name = SV(S.fresh("val"), "any"), S.str("name")
        if f == "static":
            S.assume(z3.Not(z3.Or(*[z3.PrefixOf(z3.StringVal(p), name.t) for p in ("v-", ":", "@", "#")])))
            S.assume(z3.Length(name.t) > 0)
            key = name
        elif f in (":", "v-bind:", "@", "v-on:", "v-slot:", "#"):
            S.assume(z3.Length(name.t) > 0)
            key = composed(S, f, name.t)
            val = S.str("val")
        else:
            key = f
            val = S.str("val")
        yield from self.strict((key, val))
        ks, vs = self.ks.parts, self.vs.parts
        S.oblige("the_attributes_so_far_are_kept", bool(ks) and ks[0] is self.seg[0] and bool(vs) and vs[0] is self.seg[1])
        nk, nv = ks[1:], vs[1:]
        if f in FORMS[6:]:
            S.oblige("a_directive_is_no_attribute", not nk and not nv)
            raise E.PathEnd()
        S.oblige("one_attribute_is_given", len(nk) == 1 and len(nv) == 1)
        if len(nk) != 1 or len(nv) != 1:
            raise E.PathEnd()
        k, v = nk[0], nv[0]
        if f == "v-bind":
            S.oblige("a_mapping_has_its_own_names", k is None)
        else:
            want = name.t if f in ("static", ":", "v-bind:") else z3.Concat(z3.StringVal("on_"), name.t)
            ok = isinstance(k, A.Constant) and k.value is not None
            S.oblige("it_has_its_name", tos(k.value) == want if ok else False)
        if f == "static":
            S.oblige("it_has_its_value", isinstance(v, A.Constant) and bool(S.check_always(tov(v.value) == tov(val))))
        else:
            ok = isinstance(v, Hole) and v.what == "rewritten"
            S.oblige("its_value_is_that_of_the_expression", tos(v.a[0]) == val.t if ok else False)
            if ok:
                S.oblige("evaluated_with_the_names_of_the_node", same_names(v.a[1], S.notes["names"]))
        raise E.PathEnd()


class ZipLoop(E.Loop):
    """Over the given attributes: those before the mapping are in one dict, those behind it in another."""
    sym = True

    def enter(self, loc):
        S = E.S
        n, u = S.notes["given"], S.notes["mapping"]
        ds = {x: v for x, v in loc.items() if isinstance(v, A.Dict) and isinstance(v.keys, SL) and not v.keys.parts}
        cur = [x for x in self.names if x in ds]
        maps = [x for x in self.names if x in loc and loc[x] is None]
        objs = {id(v): v for v in ds.values()}
        if len(cur) != 1 or len(maps) != 1 or len(objs) != 2:
            raise E.Unsupported("which variables hold the attributes?")
        self.cur, self.map = cur[0], maps[0]
        self.pre = ds[self.cur]
        self.post = [v for v in objs.values() if v is not self.pre][0]
        S.notes["pre"], S.notes["post"] = self.pre, self.post
        self.last = S.choose(2, "zip loop") == 1 if S.notes["focus"] == "attrs" else True
        k = n if self.last else S.fresh("k", I)
        if not self.last:
            S.assume(z3.And(k >= 0, k < n))
        self.k = k
        self.after = S.branch(z3.And(u >= 0, u < k))
        self.set(self.pre, z3.IntVal(0), u if self.after else k)
        if self.after:
            self.set(self.post, u + 1, k)
            S.cover("behind the mapping")
            self.m = Hole("value", mki(z3.simplify(u)))
            self.m.index = u
        else:
            self.m = None
        self.old = [list(d.keys.parts) for d in (self.pre, self.post)]
        self.out = {self.cur: self.post if self.after else self.pre, self.map: self.m}
        return tuple(self.out.get(x, E.Opaque(x)) for x in self.names)

    def set(self, d, lo, hi):
        d.keys.parts = [Range("names", lo, hi)]
        d.values.parts = [Range("values", lo, hi)]

    def leave(self, loc):
        return tuple(self.out.get(x, E.Opaque(x)) for x in self.names)

    def __iter__(self):
        S = E.S
        u, k = S.notes["mapping"], self.k
        if self.last:
            return
        item = self.it.at(k)
        yield from self.strict(item)
        import sys
        loc = sys._getframe(1).f_locals
        key, val = item
        one = lambda d: (d.keys.parts[1:], d.values.parts[1:])
        kept = all(d.keys.parts[:1] == o[:1] for d, o in zip((self.pre, self.post), self.old)) and all(len(d.keys.parts) == len(d.values.parts) for d in (self.pre, self.post))
        S.oblige("the_attributes_so_far_are_kept", kept)
        if key is None:
            S.cover("the mapping")
            S.oblige("the_mapping_is_taken", loc[self.map] is val)
            S.oblige("nothing_else_is_added", all(d.keys.parts == o for d, o in zip((self.pre, self.post), self.old)))
            S.oblige("what_follows_comes_behind_it", loc[self.cur] is self.post)
            raise E.PathEnd()
        into, other = (self.post, self.pre) if self.after else (self.pre, self.post)
        S.cover("an attribute")
        S.oblige("the_mapping_stays", loc[self.map] is self.m)
        S.oblige("what_follows_comes_behind_it", loc[self.cur] is into)
        S.oblige("name_and_value_are_added_at_the_end", into.keys.parts == self.old[into is self.post] + [key] and into.values.parts[len(self.old[into is self.post]):] == [val])
        S.oblige("nothing_else_is_added", other.keys.parts == self.old[other is self.post])
        raise E.PathEnd()


class Range(Seg):
    """The attributes lo <= i < hi."""
    def __init__(self, what, lo, hi):
        super().__init__(what, z3.simplify(hi - lo))
        self.lo, self.hi = lo, hi


def operands(x):
    """The operands of a | b | c."""
    if isinstance(x, A.BinOp) and isinstance(x.op, A.BitOr):
        return operands(x.left) + operands(x.right)
    return [x]


def check_attrs(S, x):
    """The expression of the attributes denotes: those before the mapping, the mapping, those behind it."""
    n, u = S.notes["given"], S.notes["mapping"]
    pos = z3.IntVal(0)
    for o in operands(x):
        if isinstance(o, A.Dict) and isinstance(o.keys, SL):
            for k, v in zip(o.keys.parts, o.values.parts):
                if not isinstance(k, Range) or not isinstance(v, Range):
                    raise E.Unsupported("attributes in another form")
                S.oblige("attributes_in_order", z3.And(z3.Implies(k.hi > k.lo, k.lo == pos), v.lo == k.lo, v.hi == k.hi, k.hi >= k.lo))
                pos = ITE(k.hi > k.lo, k.hi, pos)
        elif isinstance(o, Hole) and o.what == "value":
            S.oblige("attributes_in_order", z3.And(pos == u, u >= 0, toi(o.a[0]) == u))
            pos = u + 1
        else:
            raise E.Unsupported("attributes in another form")
    S.oblige("every_attribute_is_given", pos == n)


# the children
class Kids:
    pyvc_sym = True

    def __init__(self):
        self.n = E.S.fresh("children", I)
        E.S.assume(self.n >= 0)

    def __iter__(self):
        raise E.Unsupported("iteration over children outside a loop")

    def __bool__(self):
        return E.S.branch(self.n > 0)

    def length(self):
        return mki(self.n)


class KidAttrs:
    """The attributes of a child: asked for its v-for only (its conditions and slots by the contracts of control_flow and slot_name)."""
    pyvc_sym = True

    def __init__(self, v=None):
        self.v = v

    def get(self, k, d=None):
        if k == "v-for":
            return d if self.v is None else self.v
        raise E.Unsupported("another attribute of a child")

    def __contains__(self, k):
        if k == "v-for":
            return self.v is not None
        raise E.Unsupported("another attribute of a child")

    def __getitem__(self, k):
        if k == "v-for" and self.v is not None:
            return self.v
        raise E.Unsupported("another attribute of a child")

    def __iter__(self):
        raise E.Unsupported("attributes of a child")


HASSLOT = uf("slot_given", I, STR, B)
SLOTOF = uf("slot_content", I, STR, V)


def kid(S, M, kind):
    if kind == "comment":
        return M.Comment(S.str("comment"))
    if kind == "text":
        return M.TextElement(S.str("text"))
    tag = S.str("tag")
    S.assume((tag.t == "slot") if kind == "slot" else (tag.t != "slot"))
    c = M.Element(tag)
    c.attrs = KidAttrs(S.str("for") if kind == "for" else None)
    if kind == "for":
        S.assume(z3.Length(c.attrs.v.t) > 0)
    c.control_flow = lambda: f"v-{kind}" if kind in ("if", "else-if", "else") else None
    c.slot_name = lambda: None
    return c


class SlotLoop(E.Loop):
    """The first loop over the children: `slots` has the content given for each slot so far, a list all other children except comments."""
    sym = True

    def enter(self, loc):
        S = E.S
        sd, sl = locate(loc, self.where, SDict), locate(loc, self.where, SL)
        if len(sd) != 1 or len(sl) != 1 or any(d.entries for d in sd.values()) or any(x.parts for x in sl.values()):
            raise E.Unsupported("which variables hold the content of the slots?")
        self.slots, self.rest = list(sd.values())[0], list(sl.values())[0]
        S.notes["slots"], S.notes["rest"] = self.slots, self.rest
        self.last = S.choose(2, "slot loop") == 1 if S.notes["focus"] == "slots" else True
        k = self.it.n if self.last else S.fresh("k", I)
        if not self.last:
            S.assume(z3.And(k >= 0, k < self.it.n))
        n = S.fresh("rest", I)
        S.assume(z3.And(n >= 0, n <= k))
        self.k = k
        self.seg = Seg("other children", n)
        self.rest.parts = [self.seg]
        if S.notes["component"]:
            has, val = uf("given_so_far", I, STR, B), uf("content_so_far", I, STR, V)
            self.has, self.val = (lambda s: has(k, s)), (lambda s: SV(val(k, s), "any"))
            self.slots.base = Base(lambda s: mkb(self.has(tos(s))), lambda s: self.val(tos(s)))
        S.notes["slot loop"] = self
        return tuple(E.Opaque(x) for x in self.names)

    leave = lambda self, loc: tuple(E.Opaque(x) for x in self.names)

    def __iter__(self):
        S = E.S
        if self.last:
            return
        kind = ("comment", "text", "plain", "slot", "for", "if", "content")[S.choose(7 if S.notes["component"] else 6, "child")]
        S.cover("slot loop: " + kind)
        c = kid(S, S.notes["M"], kind)
        q = None
        if kind == "content":
            q = S.str("slot")
            c.slot_name = lambda: q
        yield from self.strict(c)
        S.oblige("comments_belong_to_no_slot" if kind == "comment" else "every_other_child_is_kept_in_order", self.rest.parts == [self.seg] + ([c] if q is None and kind != "comment" else []))
        if S.notes["component"]:
            s = E.SStr(S0)
            got = self.slots.get(s)
            if q is not None and S.branch(q.t == S0):
                S.oblige("the_content_is_that_of_the_slot_it_names", got is c)
            elif S.branch(self.has(S0)):
                S.oblige("other_slots_keep_their_content", isinstance(got, SV) and bool(S.check_always(got.zt__ == self.val(S0).zt__)))
            else:
                S.oblige("nothing_else_is_given_a_slot", got is None)
        else:
            S.oblige("nothing_else_is_given_a_slot", not self.slots.entries)
        raise E.PathEnd()


class MainLoop(E.Loop):
    """The second loop over the children: the list has, in the order of the children, what they come to; an open chain of conditions (the nodes
    so far) belongs at its position in that list."""
    sym = True

    def enter(self, loc):
        S = E.S
        sl = locate(loc, self.where, SL)
        chains = [x for x in sl if x in self.names or "flow" in x or "chain" in x]
        others = [x for x in sl if x not in chains]
        if len(chains) != 1 or len(others) != 1 or any(x.parts for x in sl.values()):
            raise E.Unsupported("which lists hold the children?")
        self.chain, self.args = chains[0], sl[others[0]]
        pos = [x for x in self.names if "pos" in x or isinstance(loc.get(x), int)]
        if len(pos) > 1:
            raise E.Unsupported("which variable holds the position?")
        self.pos = pos[0] if pos else None
        S.notes["args"] = self.args
        focus = S.notes["focus"] == "children"
        self.last = S.choose(2, "main loop") == 1 if focus else True
        self.open = S.choose(2, "open chain") == 1 if focus else False
        a, b, c = [S.fresh(x, I) for x in ("before", "after", "chain")]
        S.assume(z3.And(a >= 0, b >= 0, c >= 1))
        before, after, chain = Seg("before", a), Seg("after", b), Seg("chain", c)
        self.before, self.after = before, after
        if self.open:
            self.args.parts, cf = [before, after], SL([chain])
            self.D = [before, ("CHAIN", [chain]), after]
        else:
            self.args.parts, cf = [before], SL()
            self.D = [before]
        self.cf = sl[self.chain]
        self.cf.parts = cf.parts
        self.cf0 = list(cf.parts)
        if self.last:
            S.notes["children"], S.notes["before"] = self.D, a
            S.cover("end, open" if self.open else "end, closed") if focus else None
        self.out = {self.chain: self.cf}
        if self.pos and self.open:
            self.out[self.pos] = mki(a)
        return tuple(self.out.get(x, E.Opaque(x)) for x in self.names)

    def leave(self, loc):
        return tuple(self.out.get(x, E.Opaque(x)) for x in self.names)

    def den(self, loc):
        """What the children so far come to: the list, with the open chain at its position."""
        S = E.S
        cf = loc[self.chain]
        if not isinstance(cf, SL):
            raise E.Unsupported("the chain in another form")
        r = SL(self.args.parts)
        if cf.parts:
            if self.pos is None or isinstance(loc.get(self.pos), E.Opaque):
                raise E.Unsupported("the position of the chain")
            r.insert(loc[self.pos], ("CHAIN", list(cf.parts)))
        return [("CHAIN", x.a[0]) if isinstance(x, Hole) and x.what == "chain" else x for x in r.parts], cf.parts

    def __iter__(self):
        S = E.S
        if self.last:
            return
        kinds = ["comment", "text", "for", "if", "plain", "slot"] + (["else-if", "else"] if self.open else [])
        kind = kinds[S.choose(len(kinds), "child")]
        S.cover(kind)
        c = kid(S, S.notes["M"], kind)
        yield from self.strict(c)
        import sys
        loc = dict(sys._getframe(1).f_locals)
        got, cf = self.den(loc)
        D = self.D
        if kind == "comment":
            S.oblige("a_comment_changes_nothing", same_items(got, D) and cf == self.cf0)
        elif kind == "text":
            S.oblige("the_text_follows", same_items(got[:-1], D) and isinstance(got[-1], Hole) and got[-1].what == "text" and got[-1].a[0] is c)
            if got and isinstance(got[-1], Hole) and got[-1].what == "text":
                S.oblige("with_the_names_of_the_node", same_names(got[-1].a[1], S.notes["names"]))
        elif kind in ("if", "else-if", "else"):
            if kind == "if":
                want, chain = D + [("CHAIN", [(f"v-{kind}", c)])], [(f"v-{kind}", c)]
            else:
                chain = self.cf0 + [(f"v-{kind}", c)]
                want = [self.before, ("CHAIN", chain), self.after]
            S.oblige("a_new_chain_begins_where_its_first_node_stands" if kind == "if" else "the_chain_is_continued_where_it_stands", same_items(got, want))
            if kind != "else":
                S.oblige("the_chain_can_be_continued", same_items(cf, chain))
        elif kind == "for":
            S.oblige("the_copies_follow", same_items(got[:-1], D))
            if got and not isinstance(got[-1], (Seg, tuple)):
                check_for(S, got[-1], c)
        else:
            ok = bool(got) and isinstance(got[-1], Hole) and got[-1].what in ("create", "slot") and got[-1].a[0] is c
            S.oblige("the_element_follows", same_items(got[:-1], D) and ok)
            if ok:
                S.oblige("with_the_names_of_the_node", same_names(got[-1].a[1], S.notes["names"]))
                S.oblige("slots_are_filled_where_they_stand", (got[-1].what == "slot") <= (kind == "slot"))
        S.oblige("the_names_of_the_node_are_kept", same_names(S.notes["passed"], S.notes["names"]))
        raise E.PathEnd()


def same_items(a, b):
    """Whether two lists of parts are the same."""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) == 2 and x[0] == y[0] == "CHAIN":
            if not same_items(x[1], y[1]):
                return False
        elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) == 2 and isinstance(x[0], str) and x[0] == y[0] and x[1] is y[1]:
            continue
        else:
            return False
    return True


class ForTree(A.ListComp):
    """[None for <the text of the v-for>]"""


def check_for(S, x, child):
    """The generated code denotes one element per item, each made in a scope of its own in which the names of the target are bound."""
    if not isinstance(x, A.Starred) or not isinstance(x.value, ForTree) or not isinstance(x.ctx, A.Load):
        raise E.Unsupported("a v-for in another form")
    t = x.value
    S.oblige("it_iterates_as_written", S.check_always(t.source == child.attrs.v.t))
    S.oblige("the_collections_see_the_names_outside", t.generators.skip is not None and S.check_always(same_names(t.generators.skip, S.notes["names"])))
    g = S.notes["gens"][id(t)]
    bound = g.bef(t.generators.n)
    e = t.elt
    if not isinstance(e, A.Call) or not isinstance(e.func, A.Lambda) or e.keywords:
        if isinstance(e, Hole) and e.what == "create":
            S.oblige("every_copy_has_its_own_scope", False, "the copies share the variables of the loop")
            return
        raise E.Unsupported("the element of a v-for in another form")
    a = e.func.args
    if any((a.posonlyargs, a.kwonlyargs, a.kw_defaults)) or getattr(a, "vararg", None) or getattr(a, "kwarg", None):
        raise E.Unsupported("a lambda in another form")
    values = e.args if not a.defaults else a.defaults if not e.args else None
    if not isinstance(a.args, SeqView) or not isinstance(values, SeqView):
        raise E.Unsupported("a lambda in another form")
    i = S.fresh("i", I)
    S.assume(z3.And(i >= 0, i < a.args.n))
    p, v = a.args.at(i), values.at(i)
    ok = isinstance(p, A.arg) and isinstance(v, A.Name) and isinstance(v.ctx, A.Load)
    S.oblige("every_name_of_the_copy_has_its_value", z3.And(a.args.n == values.n, tos(p.arg) == tos(v.id)) if ok else False)
    src = [l for l in S.notes.get("listed", []) if S.check_always(z3.And(l.n == a.args.n, tos(p.arg) == l.at(i)))] if ok else []
    if not src:
        raise E.Unsupported("which names does the copy have?")
    S.oblige("the_names_of_the_copy_are_those_of_the_targets", same_names(src[0].set, bound))
    b = e.func.body
    okb = isinstance(b, Hole) and b.what == "create" and b.a[0] is child
    S.oblige("the_copy_is_the_element", okb)
    if okb:
        S.oblige("the_names_of_the_targets_have_their_meaning_in_the_copy", same_names(b.a[1], NSet(lambda s: z3.Or(S.notes["names"].pred(s), bound.pred(s)))))


class CompGens(Gens):
    pass


def gen_hook(no, where, names, it):
    S = E.S
    if isinstance(it, CompGens):
        tree = it.tree

        def sets():
            return [c.names for c in S.notes.get("collectors", [])]

        def item(k):
            g = generator(S, k)
            S.notes["gen"] = g
            return g
        l = GrowLoop(no, where, names, it.n, item, lambda k: S.notes["gen"].pred, sets, "the_names_of_every_target_are_collected")
        old = l.__class__.__iter__

        def it_(self=l):
            yield from old(self)
            S.notes.setdefault("gens", {})[id(tree)] = S.notes["grown"]
        l.it_ = it_
        return Delegate(l)
    if isinstance(it, Pieces):
        return TagLoop(no, where, names, it)
    if isinstance(it, AttrItems):
        return AttrLoop(no, where, names, it)
    if isinstance(it, Kids):
        i = S.notes["kid loops"] = S.notes.get("kid loops", 0) + 1
        if i > 2:
            raise E.Unsupported("more loops over the children")
        return SlotLoop(no, where, names, it) if i == 1 else MainLoop(no, where, names, it)
    if isinstance(it, SeqView) and getattr(it, "zipped", False):
        return ZipLoop(no, where, names, it)
    return E.hook_for(no, where, names, it)


class Delegate(E.Loop):
    sym = True

    def __init__(self, l):
        self.l = l

    def enter(self, loc):
        return self.l.enter(loc)

    def leave(self, loc):
        return self.l.leave(loc)

    def __iter__(self):
        return self.l.it_()


class DictItems:
    """What a comprehension makes of the entries of the slots."""
    pyvc_sym = True

    def __init__(self, g):
        self.g = g


def comp_hook(S, g):
    if isinstance(g.it, E.SView) and g.it.d is S.notes.get("slots") and g.cond is None and g.kind == "list":
        return DictItems(g)
    raise E.Unsupported("comprehension over other things")


def nonempty(S, d):
    b = S.fresh("any_slot", B)
    l = S.notes["slot loop"]
    if S.branch(b):
        return True
    S.assume(z3.And(z3.Not(l.has(S0)), z3.Not(l.has(z3.StringVal("default")))))
    return False


def listed(S, x):
    if not isinstance(x, NSet):
        raise E.Unsupported("list of other things")
    r = NList(x)
    S.notes.setdefault("listed", []).append(r)
    return r


def compiler(focus, tags):
    def run(S):
        S.notes["focus"] = focus

        def parse(src, *a, mode="exec", **k):
            if mode != "eval":
                raise E.Unsupported("parse of a module")
            t = tos(src)
            pre, suf = z3.StringVal("[None for "), z3.StringVal("]")
            if S.check_always(z3.PrefixOf(z3.StringVal("["), t)) if "[" in str(t)[:40] else False:
                inner = z3.SubString(t, 10, z3.Length(t) - 11)
                if not S.check_always(z3.And(z3.PrefixOf(pre, t), z3.SuffixOf(suf, t))):
                    raise E.Unsupported("another comprehension")
                n = S.fresh("generators", I)
                S.assume(n >= 1)
                tree = ForTree(elt=A.Constant(value=None), generators=CompGens(n))
                tree.generators.tree, tree.source = tree, inner
                return A.Expression(body=tree)
            return A.Expression(body=Hole("parsed", src))
        M = cgx_module(ast=AstNS(parse=parse))
        S.notes["M"] = M
        M._pv_for = gen_hook
        M._pv_list = lambda *a: SL(a)
        stars = M._pv_stars
        M._pv_stars = lambda kind, *ps: SL(stars(kind, *ps)) if kind == "list" else stars(kind, *ps)

        def zip_(*its, **k):
            r = E.b_zip(*its, **k)
            if isinstance(r, SeqView) and len(its) == 2 and all(isinstance(i, SL) for i in its) and "given" in S.notes and [i.parts[0].what for i in its] == ["names", "values"]:
                r.zipped = True
            return r
        M.zip = zip_
        names = S.notes["names"] = nset("in_names")
        passed = S.notes["passed"] = names.copy()

        class Rewriter:
            def __init__(self, skip):
                self.skip = skip

            def visit(self, tree):
                skip = NSet(pred_of(self.skip))
                if isinstance(tree, A.Expression) and isinstance(tree.body, Hole) and tree.body.what == "parsed":
                    return A.Expression(body=Hole("rewritten", tree.body.a[0], skip))
                if isinstance(tree, Hole) and tree.what == "parsed":
                    return Hole("rewritten", tree.a[0], skip)
                if isinstance(tree, ForTree) and isinstance(tree.elt, A.Constant) and tree.generators.skip is None:
                    tree.generators.skip = skip
                    return tree
                raise E.Unsupported("rewriting of other code")

        class Collector:
            def __init__(self):
                self.names = NSet(lambda s: z3.BoolVal(False))
                S.notes.setdefault("collectors", []).append(self)

            def visit(self, node):
                if isinstance(node, A.Name):
                    self.names.add(node.id)
                elif isinstance(node, Target):
                    self.names.update(node.names)
                else:
                    raise E.Unsupported("names of other code")

            def generic_visit(self, node):
                if not isinstance(node, A.Name):
                    self.visit(node)
        snap = lambda x: NSet(pred_of(x))
        M.RewriteName, M.NameCollector = Rewriter, Collector
        M.call_create_element = lambda node, *, names: Hole("create", node, snap(names))
        M.call_render_slot = lambda node, *, names=None: Hole("slot", node, snap(names))
        M.args_for_text_element = lambda child, names: Spread(Hole("text", child, snap(names)))
        M.create_control_flow_ast = lambda chain, *, names: Hole("chain", list(chain.parts) if isinstance(chain, SL) else list(chain), snap(names))
        kind = tags[S.choose(len(tags), "tag")]
        S.cover(kind)
        tag = TagStr(z3.Const("tag", STR), kind)
        S.notes["component"] = component = kind == "upper" or kind.startswith("dotted")
        node = M.Element(tag)
        node.attrs = AttrMap()
        node.children = Kids()
        how, r = outcome(M.convert_node_to_args, node, names=passed)
        S.oblige("never_raises", how == "return", repr(r))
        if how == "raise":
            return
        for x in ("given", "args", "slot loop", "pre"):
            if x not in S.notes:
                raise E.Unsupported(f"a loop is missing ({x})")
        parts = r.parts if isinstance(r, SL) else list(r)
        S.oblige("type_attributes_and_perhaps_children", len(parts) in (2, 3))
        if len(parts) not in (2, 3):
            return
        S.oblige("the_names_of_the_node_are_kept", same_names(passed, names))
        if focus == "tag":
            o = parts[0]
            if kind == "lower":
                S.oblige("the_element_of_that_name", isinstance(o, A.Constant) and o.value is tag)
            elif kind.startswith("dotted"):
                S.oblige("the_object_of_that_name", o is S.notes.get("object"))
                S.oblige("all_parts_of_the_name", S.check_always(toi(o.a[0]) == S.notes["tag parts"] - 1) if isinstance(o, Hole) else False)
            else:
                S.oblige("the_object_of_that_name", isinstance(o, A.Name) and isinstance(o.ctx, A.Load) and o.id is tag)
            return
        if focus == "attrs":
            check_attrs(S, parts[1])
            return
        if focus == "slots":
            check_slots(S, M, parts, tag)
            return
        want = S.notes["children"]
        if component:
            return
        if len(parts) == 2:
            S.cover("no children")
            S.oblige("children_are_given", not any(not isinstance(x, Seg) for x in want) and bool(S.check_always(S.notes["before"] == 0)))
            return
        check_children(S, parts[2], want)
    return run


def check_children(S, x, want):
    """*[child for child in [...] if child is not None] or a variant of it."""
    if isinstance(x, A.Dict):
        S.oblige("children_are_given", False, "the children are not given")
        return
    lc = x.value if isinstance(x, A.Starred) else None
    if not isinstance(lc, (A.ListComp, A.GeneratorExp)) or len(lc.generators) != 1:
        raise E.Unsupported("children in another form")
    g = lc.generators[0]
    ok = isinstance(lc.elt, A.Name) and isinstance(g.target, A.Name) and isinstance(g.iter, (A.List, A.Tuple)) and len(g.ifs) == 1 and isinstance(g.ifs[0], A.Compare)
    if not ok:
        raise E.Unsupported("children in another form")
    c = g.ifs[0]
    S.oblige("every_child_that_is_there_is_given", lc.elt.id == g.target.id and isinstance(c.left, A.Name) and c.left.id == g.target.id and len(c.ops) == 1 and isinstance(c.ops[0], A.IsNot)
             and len(c.comparators) == 1 and isinstance(list(c.comparators)[0], A.Constant) and list(c.comparators)[0].value is None)
    S.oblige("the_helper_variable_is_no_name_of_the_template", lc.elt.id.startswith("_"))
    items = g.iter.elts.parts if isinstance(g.iter.elts, SL) else list(g.iter.elts)
    got = [("CHAIN", i.a[0]) if isinstance(i, Hole) and i.what == "chain" else i for i in items]
    S.oblige("the_children_in_order", same_items(got, want), f"{got} {want}")
    for i in items:
        if isinstance(i, Hole) and i.what == "chain":
            S.oblige("with_the_names_of_the_node", same_names(i.a[1], S.notes["names"]))


def check_slots(S, M, parts, tag):
    """A component is given the content of each slot as a function."""
    l = S.notes["slot loop"]
    has0 = l.has(S0)
    rest = l.seg.n > 0
    isdef = S0 == z3.StringVal("default")
    want = z3.Or(has0, z3.And(isdef, rest))
    x = parts[2] if len(parts) == 3 else None
    if not isinstance(x, A.Dict):
        S.cover("no slots")
        S.oblige("every_slot_is_given", z3.Not(want))
        if x is not None and not S.check_always(z3.Not(rest)):
            raise E.Unsupported("children without slots")
        return
    ks, vs = x.keys, x.values
    if not isinstance(ks, DictItems) or not isinstance(vs, DictItems) or ks.g.it.what not in (0, 2) or vs.g.it.what not in (1, 2):
        raise E.Unsupported("slots in another form")
    d = S.notes["slots"]
    s = E.SStr(S0)
    there = s in d
    S.oblige("exactly_the_slots_with_content", z3.BoolVal(there) == want)
    if not there:
        return
    val = d[s]
    pick = lambda g: g.f(g.it.pick(s, val))
    k, v = pick(ks.g), pick(vs.g)
    S.oblige("under_the_name_of_the_slot", tos(k.value) == S0 if isinstance(k, A.Constant) else False)
    if not isinstance(v, A.Lambda):
        raise E.Unsupported("the content in another form")
    a = v.args
    S.oblige("as_a_function_of_the_props", len(a.args) == 1 and not any((a.posonlyargs, a.kwonlyargs, a.kw_defaults, a.defaults)))
    if len(a.args) == 1:
        S.oblige("that_hides_no_name_of_the_template", a.args[0].arg.startswith("_"), a.args[0].arg)
    b = v.body
    ok = isinstance(b, Hole) and b.what == "create"
    S.oblige("that_creates_the_content", ok)
    if not ok:
        return
    S.oblige("with_the_names_of_the_node", same_names(b.a[1], S.notes["names"]))
    if S.branch(has0):
        S.cover("given")
        S.oblige("the_content_given_for_the_slot", isinstance(b.a[0], SV) and bool(S.check_always(b.a[0].zt__ == l.val(S0).zt__)))
    else:
        S.cover("the other children")
        t = b.a[0]
        S.oblige("all_other_children_in_order", isinstance(t, M.Element) and t.tag == "template" and isinstance(t.children, SL) and t.children.parts == [l.seg] and not t.attrs)


CONV = [FILE + ":convert_node_to_args"]
CA = ["ast.parse parses what it is given; RewriteName, NameCollector, create_control_flow_ast and the methods of Element by their contracts (units of their own)",
      "call_create_element by its contract (a child's code is that of its own compilation)", "CPython gives the generated nodes their documented meaning"]
TAGS = ["lower", "upper", "dotted lower", "dotted upper", "other"]
CH = {**NHOOKS, "sorted": lambda S, x, k: listed(S, x) if not k else (_ for _ in ()).throw(E.Unsupported("sorted with a key")), "list": listed, "comp": comp_hook, "dict.nonempty": nonempty, "str.split": split_name}
DOCS = {"tag": "for any tag: the first argument is the element type as written, or the object that a capitalized or dotted tag names",
        "attrs": "for any number of attributes of any form: the element gets name and value of each in the order as written, a v-bind mapping at its place, directives not at all",
        "children": "for any number of children of any kind: the children come out in the order as written, comments not at all, a chain of conditions at the place of its "
                    "first node, a v-for as one copy per item with its own scope for the names of the targets of any number of generators",
        "slots": "for any number of children of a component: the content of a named slot is what is given for it, all other children together are the default slot"}
for focus, props, tags_, covers in [("tag", ["C16"], TAGS, TAGS + ["tag part"]), ("attrs", ["C14"], ["lower", "upper"], FORMS + ["the mapping", "an attribute", "behind the mapping"]),
                                    ("children", ["C12", "C13", "C16"], ["lower"], ["comment", "text", "for", "if", "plain", "slot", "else-if", "else", "end, open", "end, closed", "end", "iteration", "name", "tuple"]),
                                    ("slots", ["C11"], ["upper", "dotted lower"], ["slot loop: content", "slot loop: text", "slot loop: comment", "given", "the other children", "no slots"])]:
    f = compiler(focus, tags_)
    f.__doc__ = DOCS[focus]
    unit(UNITS, f"convert_node_to_args.{focus}", props, CONV, hooks=CH, covers=covers, assumes=CA, limit=80)(f)

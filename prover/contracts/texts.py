"""cgx/cgx.py: texts with any number of expressions, and the functions that put the code of a node together."""
from base import *
import ast as A
import engine as E
from contracts.cgxc import cgx_module, AstNS, Hole, FILE, parser, StartTag, kept, PC
from contracts.nodes import SL, Seg, NSet, nset, pred_of, same_names, locate, NHOOKS
UNITS = []
B = z3.BoolSort()
I = z3.IntSort()
STR = z3.StringSort()
START, STOP = uf("start_of_match", I, I), uf("end_of_previous_match", I, I)     # STOP(k + 1) is the end of match k, STOP(0) = 0


class Match:
    """Match k of the expressions of a text."""
    def __init__(self, text, k):
        self.text, self.k = text, k
        self.a, self.b = START(k), STOP(k + 1)

    def none(self, *g):
        if g not in ((), (0,)):
            raise E.Unsupported("a group of the match")

    def span(self, *g):
        self.none(*g)
        return (mki(self.a), mki(self.b))

    def start(self, *g):
        self.none(*g)
        return mki(self.a)

    def end(self, *g):
        self.none(*g)
        return mki(self.b)

    def group(self, *g):
        self.none(*g)
        return mks(z3.SubString(self.text, self.a, self.b - self.a))

    def __getitem__(self, i):
        return self.group(i)


class TextLoop(E.Loop):
    """Over the matches: every list gets the same number of items per match; the position is where the previous match ended."""
    sym = True

    def enter(self, loc):
        S = E.S
        m = S.notes["matches"]
        self.lists = locate(loc, self.where, SL)
        if any(v.parts for v in self.lists.values()):
            raise E.Unsupported("lists that are not empty")
        self.pos = [x for x in self.names if x in loc and isinstance(loc[x], (int, E.SI)) and not isinstance(loc[x], bool)]
        for x in self.pos:
            S.oblige("it_begins_at_the_begin_of_the_text", toi(loc[x]) == 0)
        self.k = S.fresh("k", I)
        S.notes["k"] = self.k
        self.empty = not S.branch(m.n > 0)
        if not self.empty:
            S.assume(z3.And(self.k >= 0, self.k < m.n))
            m.facts(self.k)
            for x, v in self.lists.items():
                v.parts = [Seg(x, self.k)]
        return self.out(self.k if not self.empty else m.n)

    def out(self, k):
        return tuple(mki(STOP(k)) if x in self.pos else E.Opaque(x) for x in self.names)

    def __iter__(self):
        S = E.S
        m = S.notes["matches"]
        if self.empty:
            return
        old = {x: v.parts[0] for x, v in self.lists.items()}
        yield from self.strict(self.it.at(self.k))
        import sys
        loc = sys._getframe(1).f_locals
        for x in self.pos:
            S.oblige("the_position_is_the_end_of_the_expression", toi(loc[x]) == STOP(self.k + 1))
        for x, v in self.lists.items():
            S.oblige("the_parts_so_far_are_kept", v.parts[:1] == [old[x]])
            seg = Seg(x, m.n)
            seg.items = v.parts[1:]
            v.parts = [seg]
        m.facts(m.n)
        S.cover("expression")

    def leave(self, loc):
        return self.out(E.S.notes["matches"].n)


class Matches:
    def __init__(self, S, text):
        self.S, self.text, self.n = S, text, S.fresh("matches", I)
        S.assume(self.n >= 0)
        S.assume(STOP(0) == 0)
        S.notes["matches"] = self
        self.facts(self.n)
        self.view = SeqView(self.n, lambda t: self.at(t), name="matches", kind="list")

    def at(self, t):
        self.facts(t)
        return Match(self.text, t)

    def facts(self, t):
        """What finditer guarantees about match t and the one before."""
        L = z3.Length(self.text)
        sub = lambda a: z3.SubString(self.text, a, 2)
        for u in (t, t - 1):
            a, b = START(u), STOP(u + 1)
            self.S.assume(z3.Implies(z3.And(u >= 0, u < self.n), z3.And(STOP(u) >= 0, STOP(u) <= a, a + 4 <= b, b <= L, sub(a) == "{{", sub(b - 2) == "}}")))


# what generated code means: a text is a list of parts, a part is a string (z3 term), str() of code, or Rep: the parts for each match
class Rep:
    def __init__(self, n, parts):
        self.n, self.parts = n, parts


class LSeg:
    """For each match the same number of items."""
    def __init__(self, n, items):
        self.n, self.items = n, items


class Code:
    def __init__(self, hole):
        self.hole = hole


def text(v):
    if not isinstance(v, list):
        raise E.Unsupported("no text")
    return v


def ev(x, env):
    if isinstance(x, A.Constant) and (isinstance(x.value, (str, E.SStr))):
        return [tos(x.value)]
    if isinstance(x, Hole) and x.what == "rewritten":
        return Code(x)
    if isinstance(x, A.Name) and x.id in env:
        return env[x.id]
    if isinstance(x, A.Call) and isinstance(x.func, A.Name) and not x.keywords:
        E.S.oblige("only_names_that_no_name_of_the_template_hides", x.func.id.startswith("_"), x.func.id)
        args = list(x.args.parts) if isinstance(x.args, SL) else list(x.args)
        if x.func.id == "str" and len(args) == 1:
            v = ev(args[0], env)
            return v if isinstance(v, list) else [v]
        if x.func.id == "zip" and len(args) == 2:
            a, b = ev(args[0], env), ev(args[1], env)
            if all(isinstance(l, tuple) and len(l) == 1 and isinstance(l[0], LSeg) and len(l[0].items) == 1 for l in (a, b)):
                return (LSeg(a[0].n, [(a[0].items[0], b[0].items[0])]),)
            if any(l == () for l in (a, b)):
                return ()
    if isinstance(x, A.Call) and isinstance(x.func, A.Attribute) and x.func.attr == "join" and len(x.args) == 1 and not x.keywords:
        a = x.args.parts[0] if isinstance(x.args, SL) else x.args[0]
        l = ev(a, env)
        sep = ev(x.func.value, env)
        if isinstance(l, tuple) and isinstance(sep, list) and len(sep) == 1 and z3.is_string_value(sep[0]) and sep[0].as_string() == "":
            out = []
            for p in l:
                out += [Rep(p.n, [q for i in p.items for q in text(i)])] if isinstance(p, LSeg) else text(p)
            return out
    if isinstance(x, A.JoinedStr):
        out = []
        for v in (x.values.parts if isinstance(x.values, SL) else x.values):
            if isinstance(v, Seg):
                out.append(Rep(v.n, [q for i in v.items for q in piece(i, env)]))
            else:
                out += piece(v, env)
        return out
    if isinstance(x, A.BinOp) and isinstance(x.op, A.Add):
        a, b = ev(x.left, env), ev(x.right, env)
        if type(a) is type(b) and isinstance(a, (list, tuple)):
            return a + b
    if isinstance(x, (A.List, A.Tuple)):
        es = x.elts
        if isinstance(es, SeqView) and not es.concrete:
            k = E.S.fresh("k", I)
            E.S.assume(z3.And(k >= 0, k < es.n))
            return (LSeg(es.n, [ev(es.at(k), env)]),)
        out = ()
        for p in (es.parts if isinstance(es, SL) else es):
            if isinstance(p, Seg):
                out += (LSeg(p.n, [ev(i, env) for i in p.items]),)
            elif isinstance(p, A.Starred):
                out += ev(p.value, env)
            else:
                out += (ev(p, env),)
        return out
    if isinstance(x, (A.ListComp, A.GeneratorExp)) and len(x.generators) == 1:
        g = list(x.generators)[0]
        l = ev(g.iter, env)
        if isinstance(l, tuple) and not list(g.ifs) and not g.is_async:
            def one(v):
                e = dict(env)
                if isinstance(g.target, A.Name):
                    e[g.target.id] = v
                elif isinstance(g.target, A.Tuple) and isinstance(v, tuple) and len(v) == len(list(g.target.elts)):
                    e.update({t.id: w for t, w in zip(list(g.target.elts), v)})
                else:
                    raise E.Unsupported("the target of generated code")
                return ev(x.elt, e)
            return tuple(LSeg(p.n, [one(i) for i in p.items]) if isinstance(p, LSeg) else one(p) for p in l)
    raise E.Unsupported(f"generated code {type(x).__name__}")


def piece(v, env):
    if isinstance(v, A.FormattedValue):
        if v.format_spec is not None or v.conversion not in (-1, 114, 115):
            raise E.Unsupported("formatted, not str()")
        r = ev(v.value, env)
        # (str() gives a text itself)
        E.S.oblige("converted_with_str", v.conversion == 115 or v.conversion == -1 and isinstance(r, list), repr(v.conversion))
        return r if isinstance(r, list) else [r]
    return text(ev(v, env))


def glue(S, ts):
    return z3.Concat(*ts) if len(ts) > 1 else ts[0] if ts else z3.StringVal("")


def same_text(S, parts, want, clause):
    """parts is: constant text, code, constant text, ... as in `want` (terms and strip-ed sources)."""
    runs, codes = [[]], []
    for p in parts:
        if isinstance(p, Code):
            codes.append(p)
            runs.append([])
        elif isinstance(p, Rep):
            raise E.Unsupported("repetition in a repetition")
        else:
            runs[-1].append(p)
    S.oblige(clause + "_parts", len(codes) == len(want) // 2)
    if len(codes) != len(want) // 2:
        return
    S.oblige(clause, z3.And(*[glue(S, r) == w for r, w in zip(runs, want[::2])]))
    for c, w in zip(codes, want[1::2]):
        S.oblige("the_expression_between_the_braces", tos(c.hole.a[0]) == w)
        S.oblige("evaluated_with_the_names_of_the_node", same_names(c.hole.a[1], S.notes["names"]))


def for_hook(no, where, names, it):
    if isinstance(it, SeqView) and it.name.startswith("matches"):
        return TextLoop(no, where, names, it)
    return E.hook_for(no, where, names, it)


def comp(S, g):
    raise E.Unsupported("a comprehension over the matches")


def module(S):
    def parse(src, *a, mode="exec", **k):
        if mode != "eval":
            raise E.Unsupported("parse of a module")
        return A.Expression(body=Hole("parsed", src))
    M = cgx_module(ast=AstNS(parse=parse))

    class Rewriter:
        def __init__(self, skip):
            self.skip = skip

        def visit(self, tree):
            skip = NSet(pred_of(self.skip))
            body = isinstance(tree, A.Expression)
            h = tree.body if body else tree
            if not isinstance(h, Hole) or h.what != "parsed":
                raise E.Unsupported("rewriting of other code")
            r = Hole("rewritten", h.a[0], skip)
            return A.Expression(body=r) if body else r
    M.RewriteName = Rewriter
    M._pv_list = lambda *a: SL(a)
    stars = M._pv_stars
    M._pv_stars = lambda kind, *ps: SL(stars(kind, *ps)) if kind == "list" else stars(kind, *ps)
    M._pv_for = for_hook
    return M


def same_list(S, x):
    if isinstance(x, SeqView) and x.name.startswith("matches"):
        return x
    return NHOOKS["list"](S, x)


@unit(UNITS, "args_for_text_element", ["C16", "C15"], [FILE + ":args_for_text_element"], hooks={**NHOOKS, "comp": comp, "list": same_list}, covers=["plain", "text", "expression"],
      assumes=["MOUSTACHES.finditer gives the non-overlapping `{{ ... }}` of a text in order", "ast.parse parses what it is given; RewriteName by its contract",
               "CPython gives the generated nodes their documented meaning"])
def texts(S):
    """for any text with any number of expressions: the content with every {{ expression }} replaced by str() of its value, with the names of the node"""
    M = module(S)
    content = S.str("content")
    c = content.t
    names = S.notes["names"] = nset("in_names")

    class Regex:
        def finditer(self, t, *a):
            if a or not S.check_always(tos(t) == c):
                raise E.Unsupported("another text")
            if "matches" not in S.notes:
                Matches(S, c)
            return S.notes["matches"].view

        def search(self, t):
            v = self.finditer(t)
            return v.at(z3.IntVal(0)) if S.branch(v.n > 0) else None
    M.MOUSTACHES = Regex()
    kind, r = outcome(M.args_for_text_element, M.TextElement(content), names.copy())
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if "matches" not in S.notes:
        raise E.Unsupported("the expressions of the text are found in another way")
    m = S.notes["matches"]
    args = r.parts if isinstance(r, SL) else list(r)
    S.oblige("one_text", len(args) == 1)
    if len(args) != 1:
        return
    parts = text(ev(args[0], {}))
    if not S.branch(m.n > 0):
        S.cover("plain")
        same_text(S, [p for p in parts if not isinstance(p, Rep)], [c], "the_text_unchanged")
        return
    S.cover("text")
    reps = [i for i, p in enumerate(parts) if isinstance(p, Rep)]
    S.oblige("every_expression_once", len(reps) == 1 and all(not isinstance(p, Code) for p in parts))
    if len(reps) != 1:
        return
    rep = parts[reps[0]]
    if not S.check_always(rep.n == m.n):
        raise E.Unsupported("another number of parts")
    k = S.notes.get("k")
    same_text(S, parts[:reps[0]], [z3.StringVal("")], "nothing_before_the_first_part")
    L = z3.Length(c)
    same_text(S, parts[reps[0] + 1:], [z3.SubString(c, STOP(m.n), L - STOP(m.n))], "the_rest_behind_the_last_expression")
    k = S.notes["k"]
    a, b = START(k), STOP(k + 1)
    inner = z3.SubString(c, a + 2, b - a - 4)
    same_text(S, rep.parts, [z3.SubString(c, STOP(k), a - STOP(k)), tos(S.strfun("strip()", mks(inner))), z3.StringVal("")], "the_text_before_the_expression")


# ---------------------------------------------------------------- one element
def compile_hooks(M):
    snap = lambda x: NSet(pred_of(x))
    M.convert_node_to_args = lambda node, *, names=None: SL([Hole("args of", node, snap(names))])
    M.call_render_slot = lambda node, *, names=None: Hole("slot", node, snap(names))
    return snap


def calls(x):
    return (list(x.args.parts) if isinstance(x.args, SL) else list(x.args)) if isinstance(x, A.Call) and not x.keywords else None


def named(x, id):
    return isinstance(x, A.Name) and x.id == id


def any_attr(S, d):
    b = S.fresh("any_attr", B)
    if S.branch(b):
        return True
    S.assume(z3.Not(tob(d.base.has("name"))))
    return False


CE = dict(hooks={**NHOOKS, "dict.nonempty": any_attr}, assumes=["convert_node_to_args and call_render_slot by their contracts", "CPython gives the generated nodes their documented meaning"])


@unit(UNITS, "call_create_element", ["C11", "C13", "C16", "C12", "C15"], [FILE + ":call_create_element"], covers=["slot", "element"], **CE)
def call_create_element(S):
    """the code of a node: a call of create_element with the arguments of that node; a slot gives a template with what the slot renders"""
    M = module(S)
    compile_hooks(M)
    names = S.notes["names"] = nset("in_names")
    tag = S.str("tag")
    node = M.Element(tag)
    node.attrs = SDict(base=Base(lambda k: mkb(uf("has_attr", STR, B)(tos(k))), lambda k: SV(uf("attr", STR, V)(tos(k)), "any")))
    kind, r = outcome(M.call_create_element, node, names=names.copy())
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    args = calls(r)
    S.oblige("a_call_of_create_element", args is not None and named(r.func, "_create_element"))
    if args is None:
        return
    slot = S.branch(tag.t == "slot")
    S.cover("slot" if slot else "element")
    if not slot:
        S.oblige("with_the_arguments_of_the_node", len(args) == 1 and isinstance(args[0], Hole) and args[0].what == "args of" and args[0].a[0] is node)
        S.oblige("with_the_names_of_the_node", same_names(args[0].a[1], names) if args and isinstance(args[0], Hole) else False)
        return
    ok = len(args) == 3 and isinstance(args[0], A.Constant) and args[0].value == "template" and isinstance(args[1], A.Dict) and not list(args[1].keys)
    S.oblige("a_template_without_attributes", ok)
    if ok:
        h = args[2]
        S.oblige("with_what_the_slot_renders", isinstance(h, Hole) and h.what == "slot" and h.a[0] is node)
        S.oblige("with_the_names_of_the_node", same_names(h.a[1], names) if isinstance(h, Hole) else False)


def truth(x, has):
    """Value of a generated condition if `<slot> in self._slots` is `has`."""
    if isinstance(x, A.Compare) and len(list(x.ops)) == 1:
        c = list(x.comparators)[0]
        if isinstance(x.left, A.Constant) and isinstance(c, A.Attribute) and c.attr == "_slots" and named(c.value, "self"):
            op = list(x.ops)[0]
            if isinstance(op, (A.In, A.NotIn)):
                return x.left.value, has == isinstance(op, A.In)
    if isinstance(x, A.UnaryOp) and isinstance(x.op, A.Not):
        k, v = truth(x.operand, has)
        return k, not v
    raise E.Unsupported("another condition in generated code")


@unit(UNITS, "call_render_slot", ["C11", "C15"], [FILE + ":call_render_slot"], covers=["named", "unnamed"], **CE)
def call_render_slot(S):
    """the code of a slot: what was given for the slot of that name (default without a name) if anything was given, otherwise its own content"""
    M = module(S)
    f = M.call_render_slot
    compile_hooks(M)
    names = S.notes["names"] = nset("in_names")
    node = M.Element("slot")
    has = uf("has_attr", STR, B)
    val = uf("attr_text", STR, STR)
    node.attrs = SDict(base=Base(lambda k: mkb(has(tos(k))), lambda k: mks(val(tos(k)))))
    kind, r = outcome(f, node, names=names.copy())
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    isnamed = S.branch(has(z3.StringVal("name")))
    S.cover("named" if isnamed else "unnamed")
    name = val(z3.StringVal("name")) if isnamed else z3.StringVal("default")
    if not isinstance(r, A.Starred) or not isinstance(r.value, A.IfExp):
        raise E.Unsupported("code of a slot in another form")
    for given in (True, False):
        asked, v = truth(r.value.test, given)
        S.oblige("asks_for_the_slot_of_that_name", tos(asked) == name)
        x = r.value.body if v else r.value.orelse
        if given:
            a = calls(x)
            ok = a is not None and isinstance(x.func, A.Attribute) and x.func.attr == "render_slot" and named(x.func.value, "self") and len(a) == 1 and isinstance(a[0], A.Constant)
            S.oblige("renders_the_given_content", ok)
            if ok:
                S.oblige("of_the_slot_of_that_name", tos(a[0].value) == name)
            continue
        items = list(x.elts.parts if isinstance(x.elts, SL) else x.elts) if isinstance(x, (A.List, A.Tuple)) else []
        a = calls(items[0]) if len(items) == 1 else None
        ok = a is not None and named(items[0].func, "_create_element") and len(a) == 1 and isinstance(a[0], Hole) and a[0].what == "args of" and a[0].a[0] is node
        S.oblige("otherwise_its_own_content", ok)
        if ok:
            S.oblige("with_the_names_of_the_node", same_names(a[0].a[1], names))


@unit(UNITS, "create_ast_render_function", ["C15", "C16"], [FILE + ":create_ast_render_function"], hooks=NHOOKS,
      assumes=["call_create_element by its contract", "without the runtime warnings (they only warn)"])
def render_function(S):
    """the render function of a template: a method `render(self)` that imports create_element under the name the generated code uses and returns the root element"""
    M = module(S)
    M.CGX_RUNTIME_WARNINGS = False
    M.call_create_element = lambda node, *, names: Hole("create", node, NSet(pred_of(names)))
    names = S.notes["names"] = nset("in_names")
    node = M.Element("root")
    kind, r = outcome(M.create_ast_render_function, node, names.copy()) if S.choose(2, "keyword") else outcome(M.create_ast_render_function, node, names=names.copy())
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("a_function_render", isinstance(r, A.FunctionDef) and r.name == "render" and not list(r.decorator_list))
    if not isinstance(r, A.FunctionDef):
        return
    a = r.args
    S.oblige("of_self", [x.arg for x in a.args] == ["self"] and not any(list(getattr(a, f)) for f in ("posonlyargs", "kwonlyargs", "kw_defaults", "defaults"))
             and not a.vararg and not a.kwarg)
    body = list(r.body.parts if isinstance(r.body, SL) else r.body)
    imp = [i for s in body[:-1] if isinstance(s, A.ImportFrom) and s.module == "collagraph" and s.level == 0 for i in s.names]
    S.oblige("create_element_has_the_name_that_is_used", any(i.name == "create_element" and i.asname == "_create_element" for i in imp))
    S.oblige("no_other_name_is_imported", all((i.asname or i.name).startswith("_") for i in imp))
    if not all(isinstance(s, A.ImportFrom) for s in body[:-1]):
        raise E.Unsupported("other statements in the render function")
    h = body[-1].value if body and isinstance(body[-1], A.Return) else None
    S.oblige("returns_the_root_element", isinstance(h, Hole) and h.what == "create" and h.a[0] is node)
    if isinstance(h, Hole):
        S.oblige("with_the_imported_names", same_names(h.a[1], names))


# ---------------------------------------------------------------- attributes of a start tag
KEY, BARE, WRITTEN = uf("written_name", I, STR), uf("is_bare", I, B), uf("written_value", I, V)
K0 = z3.Const("K0", STR)           # any name


class Names:
    """The attributes of a node while they are collected: known at the name K0 only (where it stands, its value)."""
    pyvc_sym = True
    __hash__ = None

    def __init__(self):
        self.pos, self.val, self.next, self.touched, self.others = z3.IntVal(-1), None, z3.IntVal(0), False, []

    def slot(self, k):
        """[whether it is there, its value] of another name; None for K0."""
        S = E.S
        t = tos(k)
        if S.branch(t == K0):
            return None
        for u, s in self.others:
            if u.eq(t) or S.branch(u == t):
                return s
        s = [S.fresh("has_other", B), SV(S.fresh("other_value"), "any")]
        self.others.append((t, s))
        return s

    def there(self, k):
        s = self.slot(k)
        return E.S.branch(self.pos >= 0 if s is None else s[0])

    __contains__ = there

    def pop(self, k, *d):
        if not self.there(k):
            if not d:
                raise KeyError(k)
            return d[0]
        s = self.slot(k)
        if s is not None:
            s[0] = z3.BoolVal(False)
            return s[1]
        v, self.pos, self.val = self.val, z3.IntVal(-1), None
        self.touched = True
        return v

    def __delitem__(self, k):
        self.pop(k)

    def __setitem__(self, k, v):
        there, s = self.there(k), self.slot(k)
        if s is not None:
            s[:] = [z3.BoolVal(True), v]
            return
        self.touched = True
        if not there:
            self.pos = self.next
        self.val = v

    def get(self, k, *d):
        if not self.there(k):
            return (d or (None,))[0]
        s = self.slot(k)
        return self.val if s is None else s[1]

    def __getitem__(self, k):
        if not self.there(k):
            raise KeyError(k)
        return self.get(k)

    def setdefault(self, k, *d):
        if not self.there(k):
            self[k] = (d or (None,))[0]
        return self.get(k)

    def items(self):
        return NameItems(self)

    def keys(self):
        return NameItems(self, lambda k, v: k)

    def __iter__(self):
        raise E.Unsupported("iteration over attributes")


class NameItems:
    pyvc_sym = True

    def __init__(self, m, f=lambda k, v: (k, v)):
        self.m, self.f = m, f

    def __iter__(self):
        raise E.Unsupported("iteration over attributes")


class WrittenLoop(E.Loop):
    """Over the attributes as written: an arbitrary iteration that is the last one with the name K0, or one with another name."""
    sym = True

    def enter(self, loc):
        if self.names and set(self.names) - E.TARGETS[self.where]:
            pass
        return tuple(E.Opaque(x) for x in self.names)

    leave = enter

    def __iter__(self):
        S = E.S
        m, n = S.notes["attrs"], self.it.n
        w = S.choose(3, "attribute")
        if w == 0:
            S.cover("absent")
            S.notes["last"] = None
            if m.val is not None or not S.check_always(m.pos == -1):
                raise E.Unsupported("attributes before the loop")
            return
        k = S.fresh("k", I)
        S.assume(z3.And(k >= 0, k < n))
        before = S.fresh("before", I)
        S.assume(z3.And(before >= -1, before < k))
        m.pos, m.val, m.next, m.touched, m.others = before, SV(S.fresh("old"), "any"), k, False, []
        S.assume((KEY(k) == K0) if w == 1 else (KEY(k) != K0))
        old = m.val
        yield from self.strict(self.it.at(k))
        if w == 2:
            S.cover("another name")
            S.oblige("other_attributes_are_kept", z3.And(m.pos == before, z3.BoolVal(m.val is old)))
            raise E.PathEnd()
        S.cover("twice" if S.branch(before >= 0) else "once")
        S.notes["last"] = k


class ValueLoop(E.Loop):
    """Over the collected attributes: only the one of the iteration is written."""
    sym = True

    def enter(self, loc):
        return tuple(E.Opaque(x) for x in self.names)

    leave = enter

    def __iter__(self):
        S = E.S
        m = self.it.m
        if not S.choose(2, "value"):
            k = S.str("other")
            S.assume(k.t != K0)
            v = SV(S.fresh("other_value"), "any") if S.choose(2, "none") else None
            m.touched, m.others = False, [(k.t, [z3.BoolVal(True), v])]
            yield from self.strict(self.it.f(k, v))
            S.oblige("only_its_own_attribute_is_written", not m.touched)
            raise E.PathEnd()
        if S.branch(m.pos >= 0):
            yield from self.strict(self.it.f(E.SStr(K0), m.val))


def start_for(no, where, names, it):
    if isinstance(it, SeqView) and it.name == "written":
        return WrittenLoop(no, where, names, it)
    if isinstance(it, Names):
        it = it.keys()
    if isinstance(it, NameItems):
        return ValueLoop(no, where, names, it)
    return E.hook_for(no, where, names, it)


def start_comp(S, g):
    """{key: f(value) for key, value in attrs.items()}"""
    if g.kind != "dict" or not isinstance(g.it, NameItems) or g.cond is not None:
        raise E.Unsupported("a comprehension over other things")
    old, r = g.it.m, Names()
    r.pos, r.next = old.pos, old.next
    if S.branch(old.pos >= 0):
        k, v = g.f(g.it.f(E.SStr(K0), old.val))
        S.oblige("the_names_stay", tos(k) == K0)
        r.val = v
    o = S.str("other")
    S.assume(o.t != K0)
    k, v = g.f(g.it.f(o, SV(S.fresh("other_value"), "any")))
    S.oblige("the_names_stay", tos(k) == o.t)
    return r


@unit(UNITS, "parser.handle_starttag", ["C16", "C14"], [FILE + ":CGXParser.handle_starttag"], hooks={"comp": start_comp},
      covers=["empty", "after text", "blank text", "bare", "value", "absent", "once", "twice", "another name"], limit=60,
      assumes=PC["assumes"] + ["the start tag is `<` followed by the tag as written, and changing its case does not change its length"])
def handle_starttag(S):
    """a start tag opens an element of the tag as written at the end of the innermost open one; its attributes (any number) are those written, a bare
    one is True, and the last of several with the same name counts, at its place"""
    M = cgx_module()
    M._pv_for = start_for
    M._pv_dict = lambda *es: made(es)

    def made(es):
        if es:
            return SDict(es)
        S.notes["attrs"] = m = Names()
        return m
    comp_ = M._pv_comp
    M._pv_comp = lambda kind, it, f, cond: start_comp(S, E.SGen(kind, it, f, cond)) if isinstance(it, NameItems) else comp_(kind, it, f, cond)
    p, top, last, pos, text = parser(S, M)
    tag, T = S.str("tag"), S.str("Tag")
    S.assume(z3.And(z3.Length(tag.t) > 0, z3.Length(tag.t) == z3.Length(T.t)))
    p.get_starttag_text = lambda: StartTag(T, tag)
    n = S.fresh("n", I)
    S.assume(n >= 0)

    def at(k):
        S.assume(WRITTEN(k) != NONE)
        return (mks(KEY(k)), None if S.branch(BARE(k)) else SV(WRITTEN(k), "any"))
    written = SeqView(n, at, name="written", kind="list")
    kind, r = outcome(p.handle_starttag, tag, written)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    new = kept(S, top, last, text, True)
    S.oblige("one_element_is_added", len(new) == 1 and isinstance(new[0], M.Element))
    if len(new) != 1 or not isinstance(new[0], M.Element):
        return
    el = new[0]
    S.oblige("it_is_the_innermost_one_now", len(p.stack.tail) == 2 and p.stack.tail[0] is top and p.stack.tail[1] is el)
    S.oblige("tag_as_written", tos(el.tag) == T.t)
    S.oblige("without_children_yet", isinstance(el.children, list) and not el.children)
    m = el.attrs
    if not isinstance(m, Names) or "last" not in S.notes:
        raise E.Unsupported("attributes in another form")
    j = S.notes["last"]
    if j is None:
        S.oblige("only_what_is_written", m.pos == -1)
        return
    S.oblige("at_the_place_of_the_last_one", m.pos == j)
    bare = S.branch(BARE(j))
    S.cover("bare" if bare else "value")
    if m.val is None or m.val is True:
        S.oblige("the_last_value_counts", m.val is True and bare)
    else:
        S.oblige("the_last_value_counts", tov(m.val) == WRITTEN(j) if not bare else False)

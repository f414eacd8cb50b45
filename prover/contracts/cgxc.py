"""cgx/cgx.py: names in templates (C15), conditional chains (C12), the parser (C16), slots (C11)."""
from base import *
import ast as real_ast
import types
import engine as E
UNITS = []
B = z3.BoolSort()
I = z3.IntSort()
FILE = "collagraph/cgx/cgx.py"


class Component:
    pass


class AstNS(types.ModuleType):
    """The ast module; `parse` is replaced by its contract."""
    def __init__(self, **over):
        super().__init__("ast")
        self.__dict__.update(vars(real_ast))
        self.__dict__.update(over)


class FakeParser:
    """html.parser.HTMLParser by its contract: feeds the handlers."""
    def __init__(self, *a, **k):
        pass


def cgx_module(ast=None, **imports):
    return load(FILE, {"collagraph": ns(Component=Component), "html.parser": ns(HTMLParser=FakeParser), **({"ast": ast} if ast else {}), **imports}, name="collagraph.cgx_v")


# ---------------------------------------------------------------- names
IN_SKIP = uf("in_skip", z3.StringSort(), B)


@unit(UNITS, "RewriteName.visit_Name", ["C15", "C14", "C13"], [FILE + ":RewriteName.visit_Name"], covers=["builtin", "self", "skipped", "looked up"])
def visit_Name(S):
    """for every name: left alone exactly if it is a builtin, `self` or one that is local or imported; otherwise it becomes self._lookup(name, globals()), where no
    name of the template can hide what is called"""
    M = cgx_module()
    s = S.str("id")
    name = s.t
    node = real_ast.Name(id=s, ctx=real_ast.Load())
    skip = SSet(base=lambda k: mkb(IN_SKIP(tos(k))))
    v = M.RewriteName(skip=skip)
    builtin = z3.Or(*[name == z3.StringVal(k) for k in vars(__import__("builtins"))])
    kind, r = outcome(v.visit_Name, node)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if isinstance(r, real_ast.Name):
        S.oblige("unchanged", r.id is s)
        S.oblige("left_alone_only_if_it_has_a_meaning", z3.Or(builtin, name == "self", IN_SKIP(name)))
        if S.branch(builtin):
            S.cover("builtin")
        elif S.branch(name == "self"):
            S.cover("self")
        else:
            S.cover("skipped")
        return
    S.cover("looked up")
    S.oblige("looked_up_only_if_it_has_no_other_meaning", z3.Not(z3.Or(builtin, name == "self", IN_SKIP(name))))
    if not (isinstance(r, real_ast.Call) and isinstance(r.func, real_ast.Attribute) and r.func.attr == "_lookup"):
        raise E.Unsupported("a name that is looked up in another way")
    g = r.args[1].func if len(r.args) == 2 and isinstance(r.args[1], real_ast.Call) else None
    ok = not r.keywords and isinstance(r.func.value, real_ast.Name) and r.func.value.id == "self" and isinstance(r.args[0], real_ast.Constant) and isinstance(g, real_ast.Name) \
        and g.id in ("globals", globals_name()) and not r.args[1].args and not r.args[1].keywords
    S.oblige("is_a_lookup_in_the_instance_and_the_globals", ok, real_ast.dump(r)[:100] if not ok and not E.is_sym(r) else "")
    if ok:
        S.oblige("of_that_very_name", tos(r.args[0].value) == name)
        S.oblige("that_no_name_of_the_template_hides", g.id.startswith("_"), g.id)


def globals_name():
    """The name under which the render function imports the builtin globals."""
    M = cgx_module()
    M.CGX_RUNTIME_WARNINGS = False
    M.call_create_element = lambda node, *, names: real_ast.Constant(value=None)
    for s in M.create_ast_render_function(M.Element("root"), names=set()).body:
        if isinstance(s, real_ast.ImportFrom) and s.module == "builtins" and s.level == 0:
            for i in s.names:
                if i.name == "globals":
                    return i.asname or i.name


# ---------------------------------------------------------------- conditional chains
FIELDS = {f for k in vars(real_ast).values() if isinstance(k, type) and issubclass(k, real_ast.expr) for f in k._fields}


class Hole(real_ast.expr):
    """A part of the generated code that is given by a contract."""
    _fields = ()

    def __init__(self, what, *a):
        super().__init__()
        self.what, self.a, self.kinds = what, a, {}

    def pyvc_isinstance(self, k):
        """Any expression: may be of any kind (but of one only)."""
        if not (isinstance(k, type) and issubclass(k, real_ast.AST)):
            return False
        if issubclass(real_ast.expr, k):
            return True
        if not issubclass(k, real_ast.expr) or True in self.kinds.values() and not self.kinds.get(k):
            return False
        if k not in self.kinds:
            self.kinds[k] = bool(E.S.choose(2, "kind of expression"))
        return self.kinds[k]

    def __getattr__(self, n):
        if n in FIELDS:
            raise E.Unsupported(f"the {n} of any expression")
        raise AttributeError(n)


def same_hole(h, what, *terms):
    """Whether the generated code is that part."""
    if not isinstance(h, Hole) or h.what != what or len(h.a) < len(terms):
        return z3.BoolVal(False)
    return z3.And(*[tov(a) == t for a, t in zip(h.a, terms)])


EXPR, NODE, DIR = uf("expr", I, V), uf("node", I, V), uf("directive", I, z3.StringSort())
ISELSE = lambda t: DIR(t) == z3.StringVal("v-else")


class Attrs:
    """The attributes of the node at index t of the chain: asked for its directive only."""
    def __init__(self, t):
        self.t = t

    def __getitem__(self, k):
        S = E.S
        if not S.check_always(tos(k) == DIR(self.t)):
            raise E.Unsupported("another attribute of the node")
        return SV(EXPR(self.t))

    def get(self, k, d=None):
        return self[k]


class CNode:
    def __init__(self, t):
        self.t, self.zt__ = t, NODE(t)

    @property
    def attrs(self):
        return Attrs(self.t)


class Chain:
    """control_flow: a list of (directive, node) pairs of any length; indices [lo, hi)."""
    pyvc_sym = True

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def item(self, t):
        t = z3.simplify(t)
        return (mks(DIR(t)), CNode(t))

    def unpack(self, before, after):
        if not E.S.branch(self.hi - self.lo >= before + after):
            E.throw(ValueError("not enough values to unpack"))
        return (*[self.item(self.lo + i) for i in range(before)], Chain(z3.simplify(self.lo + before), z3.simplify(self.hi - after)), *[self.item(self.hi - after + i) for i in range(after)])

    def __bool__(self):
        return E.S.branch(self.hi > self.lo)

    def length(self):
        return mki(z3.simplify(self.hi - self.lo))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise E.Unsupported("slice step")
            lo = self.lo if i.start is None else (self.lo if i.start >= 0 else self.hi) + i.start
            hi = self.hi if i.stop is None else (self.lo if i.stop >= 0 else self.hi) + i.stop
            S = E.S
            if not S.check_always(z3.And(lo >= self.lo, hi <= self.hi)):
                raise E.Unsupported("slice beyond the chain")
            return Chain(z3.simplify(lo), z3.simplify(hi))
        if not isinstance(i, int):
            raise E.Unsupported("symbolic index")
        if not E.S.branch(self.hi - self.lo > i if i >= 0 else self.hi - self.lo >= -i):
            E.throw(IndexError("list index out of range"))
        return self.item((self.lo if i >= 0 else self.hi) + i)

    def pop(self, i=-1):
        r = self[i]
        if i == -1:
            self.hi = z3.simplify(self.hi - 1)
        elif i == 0:
            self.lo = z3.simplify(self.lo + 1)
        else:
            raise E.Unsupported("pop in the middle")
        return r

    def __iter__(self):
        raise E.Unsupported("iteration over the chain outside a loop")


class ChainLoop(E.Loop):
    """The loop over the conditions behind the first: at its end the chain built so far ends with an IfExp without else."""
    sym = True

    def enter(self, loc):
        S = E.S
        root = [k for k in loc if isinstance(loc[k], real_ast.IfExp)]
        cur = [k for k in self.names if k in root]
        objs = {id(loc[k]): loc[k] for k in root}
        if len(cur) != 1 or len(objs) != 1:
            raise E.Unsupported("which variable holds the end of the chain?")
        self.cur, self.root = cur[0], list(objs.values())[0]
        self.lo, self.hi = self.it.lo, self.it.hi
        S.oblige("the_chain_ends_without_else", isinstance(self.root.orelse, real_ast.Constant) and self.root.orelse.value is None)
        self.last = S.choose(2) == 1
        self.k = self.hi if self.last else S.fresh("k", I)
        if not self.last:
            S.assume(z3.And(self.k >= self.lo, self.k < self.hi))
        self.first = S.branch(self.k == self.lo)
        if self.first:
            self.end = self.root
        else:
            self.end = real_ast.IfExp(test=Hole("test"), body=Hole("body"), orelse=real_ast.Constant(value=None))
            self.root.orelse = S.notes["rest"] = Hole("rest")
        self.old = (self.end.test, self.end.body)
        S.notes.update(range=(self.lo, self.hi), end=self.end, first=self.first, old=self.old)
        return tuple(self.end if n == self.cur else E.Opaque(n) for n in self.names)

    def __iter__(self):
        S = E.S
        if self.last:
            S.cover("end")
            return
        S.cover("iteration")
        yield from self.strict(self.it.item(self.k))
        import sys
        loc = dict(sys._getframe(1).f_locals)
        new = loc[self.cur]
        S.oblige("the_next_condition_is_asked_if_the_others_are_false", self.end.orelse is new and new is not self.end)
        S.oblige("the_chain_so_far_is_kept", self.end.test is self.old[0] and self.end.body is self.old[1] and (self.first or self.root.orelse is S.notes["rest"]))
        if isinstance(new, real_ast.IfExp):
            S.oblige("condition_of_that_node", same_hole(new.test, "rewritten", EXPR(self.k), S.notes["names"]))
            S.oblige("element_of_that_node", same_hole(new.body, "create", NODE(self.k), S.notes["names"]))
            S.oblige("the_chain_ends_without_else", isinstance(new.orelse, real_ast.Constant) and new.orelse.value is None)
        else:
            S.oblige("the_next_condition_is_asked_if_the_others_are_false", False)
        raise E.PathEnd()

    def leave(self, loc):
        return tuple(self.end if n == self.cur else E.Opaque(n) for n in self.names)


def chain_for(n, where, names, it):
    return ChainLoop(n, where, names, it) if isinstance(it, Chain) else E.hook_for(n, where, names, it)


@unit(UNITS, "create_control_flow_ast", ["C12", "C15"], [FILE + ":create_control_flow_ast"], covers=["end", "iteration", "else", "no else", "single"],
      assumes=["ast.parse parses the expression of the node's directive; RewriteName and call_create_element by their contracts"])
def control_flow(S):
    """for chains of any length: the generated expression is a nested conditional that asks the conditions in order, each only if those before are
    false, gives the element of the node whose condition holds, and otherwise that of the v-else node, or None"""
    def parse(src, *a, mode="exec", **k):
        if mode != "eval":
            raise E.Unsupported("parse of a module")
        return real_ast.Expression(body=Hole("parsed", src))
    M = cgx_module(ast=AstNS(parse=parse))
    M._pv_for = chain_for
    names = SV(z3.Const("names", V))
    S.notes["names"] = names.zt__

    class Rewriter:
        def __init__(self, skip):
            self.skip = skip

        def visit(self, tree):
            if isinstance(tree, real_ast.Expression) and isinstance(tree.body, Hole) and tree.body.what == "parsed":
                return real_ast.Expression(body=Hole("rewritten", tree.body.a[0], self.skip))
            if isinstance(tree, Hole) and tree.what == "parsed":
                return Hole("rewritten", tree.a[0], self.skip)
            raise E.Unsupported("rewriting of other code")
    M.RewriteName = Rewriter
    M.call_create_element = lambda node, *, names: Hole("create", node, names)
    n = S.fresh("n", I)
    S.assume(n >= 1)
    chain = Chain(z3.IntVal(0), n)
    q = z3.Int("q")
    S.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n - 1), z3.Not(ISELSE(q)))))
    S.assume(z3.Not(ISELSE(z3.IntVal(0))))
    kind, r = outcome(M.create_control_flow_ast, chain, names=names)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    nm = names.zt__
    S.oblige("begins_with_the_first_condition", isinstance(r, real_ast.IfExp))
    if not isinstance(r, real_ast.IfExp):
        return
    S.oblige("begins_with_the_first_condition", same_hole(r.test, "rewritten", EXPR(0), nm))
    S.oblige("gives_the_first_element", same_hole(r.body, "create", NODE(0), nm))
    haselse = S.branch(z3.And(n > 1, ISELSE(n - 1)))
    S.cover("else" if haselse else "no else")
    if "end" not in S.notes:                # no loop was needed
        raise E.Unsupported("no loop over the chain")
    end = S.notes["end"]
    lo, hi = S.notes["range"]
    S.oblige("every_condition_is_asked", z3.And(lo == 1, hi == (n - 1 if haselse else n)))
    S.oblige("the_chain_so_far_is_kept", end.test is S.notes["old"][0] and end.body is S.notes["old"][1])
    if S.notes["first"]:
        S.cover("single")
        S.oblige("nothing_lies_between", end is r)
        S.oblige("all_conditions_are_asked", n == (2 if haselse else 1))
    else:
        S.oblige("the_chain_so_far_is_kept", r.orelse is S.notes["rest"])
    if haselse:
        S.oblige("otherwise_the_else_element", same_hole(end.orelse, "create", NODE(n - 1), nm))
    else:
        S.oblige("otherwise_nothing", isinstance(end.orelse, real_ast.Constant) and end.orelse.value is None)


# ---------------------------------------------------------------- the parser
class Tail:
    """A list of which only the last items are known; what comes before is arbitrary and may not be touched."""
    pyvc_sym = True
    kind = "list"

    def __init__(self, tail, more):
        self.tail, self.more = list(tail), more        # more: whether there may be items before
        self.n = E.S.fresh("before", I) if more else z3.IntVal(0)
        if more:
            E.S.assume(self.n >= 0)

    def length(self):
        return mki(self.n + len(self.tail))

    def __len__(self):
        raise E.Unsupported("len")

    def __bool__(self):
        return True if self.tail else E.S.branch(self.n > 0)

    def need(self, i):
        if not isinstance(i, int) or i >= 0 and self.more:
            raise E.Unsupported("an item in the middle of a list")
        i = i if i < 0 else i - len(self.tail)
        if -i > len(self.tail):
            if self.more:
                raise E.Unsupported("an earlier item of a list")
            E.throw(IndexError("list index out of range"))
        return i

    def __getitem__(self, i):
        return self.tail[self.need(i)]

    def pop(self, i=-1):
        return self.tail.pop(self.need(i))

    def __delitem__(self, i):
        del self.tail[self.need(i)]

    def append(self, x):
        self.tail.append(x)

    def __iter__(self):
        raise E.Unsupported("iteration over a list with unknown items")


def blank(S, s):
    return z3.Length(tos(S.strfun("strip()", s))) == 0


def parser(S, M):
    """A parser anywhere in a template: (parser, innermost open element, its last child before)."""
    p = M.CGXParser.__new__(M.CGXParser)
    pos = SV(z3.Const("pos", V))
    p.getpos = lambda: pos
    top = M.Element("top")
    w = S.choose(4, "last child")
    last = [None, M.TextElement(S.str("text"), SV(z3.Const("oldpos", V))), M.Element("b"), M.Comment("c")][w]
    top.children = Tail([last] if last is not None else [], w != 0)
    p.stack = Tail([top], True)
    text = last.content if w == 1 else None
    S.cover(["empty", "after text", "after element", "after comment"][w])
    S.notes["text"] = text
    return p, top, last, pos, text


def kept(S, top, last, text, drop):
    """The children before: a blank text at the end vanishes (if `drop`), everything else is as it was."""
    gone = drop and text is not None and S.branch(blank(S, text))
    if gone:
        S.cover("blank text")
    want = [last] if last is not None and not gone else []
    S.oblige("earlier_children_are_kept", len(top.children.tail) >= len(want) and all(a is b for a, b in zip(want, top.children.tail)), "a child vanished")
    if want and text is not None:
        S.oblige("text_is_kept", tos(last.content) == tos(text))
    return top.children.tail[len(want):]


PC = dict(spec=None, assumes=["html.parser.HTMLParser calls the handlers in document order with what its documentation says (tag in lower case, attribute values unescaped)"])


@unit(UNITS, "parser.drop_blank_text", ["C16"], [FILE + ":CGXParser.drop_blank_text"], covers=["empty", "after text", "after element", "after comment", "blank text"], **PC)
def drop_blank_text(S):
    """exactly a text that is blank is dropped, and only from the end of the innermost open element"""
    M = cgx_module()
    p, top, last, pos, text = parser(S, M)
    kind, r = outcome(p.drop_blank_text)
    S.oblige("never_raises", kind == "return", repr(r))
    S.oblige("nothing_is_added", not kept(S, top, last, text, True))
    S.oblige("the_open_elements_stay", len(p.stack.tail) == 1 and p.stack.tail[0] is top)


@unit(UNITS, "parser.handle_data", ["C16"], [FILE + ":CGXParser.handle_data"], covers=["empty", "after text", "after element", "after comment"], **PC)
def handle_data(S):
    """text is added at the end of the innermost open element, joined with a text directly before it, character by character as written"""
    M = cgx_module()
    p, top, last, pos, text = parser(S, M)
    data = S.str("data")
    kind, r = outcome(p.handle_data, data)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if text is not None:
        S.oblige("text_is_joined", len(top.children.tail) == 1 and top.children.tail[0] is last)
        S.oblige("text_is_joined", tos(last.content) == z3.Concat(tos(text), data.t))
        return
    new = kept(S, top, last, text, False)
    S.oblige("text_is_added", len(new) == 1 and isinstance(new[0], M.TextElement))
    if len(new) == 1 and isinstance(new[0], M.TextElement):
        S.oblige("text_is_added", tos(new[0].content) == data.t)


@unit(UNITS, "parser.handle_comment", ["C16"], [FILE + ":CGXParser.handle_comment"], covers=["empty", "after text", "after element", "after comment", "blank text"], **PC)
def handle_comment(S):
    """a comment adds nothing but (perhaps) a comment, and drops a blank text before it"""
    M = cgx_module()
    p, top, last, pos, text = parser(S, M)
    c = S.str("comment")
    kind, r = outcome(p.handle_comment, c)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    isblank = S.branch(blank(S, c))
    new = kept(S, top, last, text, not isblank) if not isblank else kept(S, top, last, text, bool(text is not None and last not in top.children.tail))
    S.oblige("only_a_comment_is_added", all(isinstance(x, M.Comment) for x in new) and len(new) <= 1)
    S.oblige("the_open_elements_stay", len(p.stack.tail) == 1 and p.stack.tail[0] is top)


@unit(UNITS, "parser.handle_endtag", ["C16"], [FILE + ":CGXParser.handle_endtag"], covers=["empty", "after text", "after element", "after comment", "blank text"], **PC)
def handle_endtag(S):
    """an end tag closes the innermost open element, without its trailing blank text"""
    M = cgx_module()
    p, top, last, pos, text = parser(S, M)
    outer = M.Element("outer")
    p.stack.tail.insert(0, outer)
    kind, r = outcome(p.handle_endtag, S.str("tag"))
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("nothing_is_added", not kept(S, top, last, text, True) and not outer.children)
    S.oblige("exactly_the_innermost_element_is_closed", len(p.stack.tail) == 1 and p.stack.tail[0] is outer)
    S.oblige("its_end_is_known", top.end is pos)


class StartTag:
    """The text of a start tag: `<`, the tag as written, the rest."""
    pyvc_sym = True

    def __init__(self, T, tag, low=False):
        self.T, self.tag, self.low = T, tag, low

    def lower(self):
        return StartTag(self.T, self.tag, True)

    def index(self, x, *a):
        if not self.low or not E.S.check_always(tos(x) == self.tag.t) or a and a != (1,):
            raise E.Unsupported("search in a start tag")
        return 1

    find = index

    def __getitem__(self, i):
        S = E.S
        n = z3.Length(self.tag.t)
        if isinstance(i, slice) and i.step is None and i.start is not None and i.stop is not None and S.check_always(z3.And(toi(i.start) == 1, toi(i.stop) == 1 + n)):
            return self.tag if self.low else self.T
        raise E.Unsupported("another part of a start tag")


@unit(UNITS, "start tags", ["C16", "C14"], [FILE + ":CGXParser.handle_starttag"], covers=["empty", "after text", "blank text", "bare", "twice", "value"],
      bounded="at most 3 attributes per element (any names and values); everything else unbounded", limit=60,
      assumes=PC["assumes"] + ["the start tag is `<` followed by the tag as written, and changing its case does not change its length"])
def handle_starttag(S):
    """a start tag opens an element of the tag as written at the end of the innermost open one; its attributes are those written, a bare one is
    True, and the last of several with the same name counts, at its place"""
    M = cgx_module()
    p, top, last, pos, text = parser(S, M)
    tag, T = S.str("tag"), S.str("Tag")
    S.assume(z3.And(z3.Length(tag.t) > 0, z3.Length(tag.t) == z3.Length(T.t)))
    p.get_starttag_text = lambda: StartTag(T, tag)
    n = S.choose(4, "attributes") if last is None else S.choose(2)
    keys = [S.str(f"k{i}") for i in range(n)]
    vals = [None if S.choose(2, "bare") == 0 else SV(z3.Const(f"v{i}", V)) for i in range(n)]
    for v in vals:
        if v is not None:
            S.assume(v.zt__ != NONE)
    kind, r = outcome(p.handle_starttag, tag, list(zip(keys, vals)))
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    new = kept(S, top, last, text, True)
    S.oblige("one_element_is_added", len(new) == 1 and isinstance(new[0], M.Element))
    if len(new) != 1 or not isinstance(new[0], M.Element):
        return
    el = new[0]
    S.oblige("it_is_the_innermost_one_now", len(p.stack.tail) == 2 and p.stack.tail[0] is top and p.stack.tail[1] is el)
    S.oblige("tag_as_written", tos(el.tag) == T.t)
    S.oblige("without_children_yet", el.children == [])
    want = []
    for k, v in zip(keys, vals):
        for i, (k2, _) in enumerate(want):
            if S.branch(k.t == k2.t):
                S.cover("twice")
                del want[i]
                break
        S.cover("bare" if v is None else "value")
        want.append((k, True if v is None else v))
    got = el.attrs
    if not isinstance(got, (dict, SDict)) or isinstance(got, SDict) and got.base is not None:
        raise E.Unsupported("attributes in another form")
    items = list(got.items()) if isinstance(got, dict) else [tuple(e) for e in got.entries]
    S.oblige("every_name_once", len(items) == len(want), str(len(items)))
    for (k, v), (k2, v2) in zip(items, want):
        S.oblige("names_in_the_order_in_which_they_count", tos(k) == k2.t)
        S.oblige("the_last_value_counts", v is True if v2 is True else tov(v) == tov(v2))


# ---------------------------------------------------------------- whole elements, all small shapes (bounded stand-ins)
# Here the compiler runs on concrete trees of nodes, every shape up to a bound, and the code it generates runs with
# symbolic truth values of the conditions and of the presence of slots; other values are tokens the code can't look into.
import builtins
import os


def plain_module():
    src = open(os.path.join(E.REPO, FILE), encoding="utf-8").read()
    m = types.ModuleType("collagraph.cgx.cgx_p")
    b = dict(vars(builtins))

    def imp(n, g=None, l=None, fl=(), level=0):
        if n == "collagraph":
            return ns(Component=Component)
        return builtins.__import__(n, g, l, fl, level)
    b["__import__"] = imp
    m.__dict__.update({"__builtins__": b, "__file__": FILE})
    exec(compile(src, FILE, "exec"), m.__dict__)
    m.CGX_RUNTIME_WARNINGS = False
    return m


class Tok:
    """A value the generated code can only pass on (or turn into a string, or call)."""
    def __init__(self, name):
        self.name = name

    def __str__(self):
        return f"<{self.name}>"

    __repr__ = __str__

    def __bool__(self):
        raise E.Unsupported("truth of a value")


class Made(tuple):
    pass


class Instance:
    """The component instance whose render function runs: `vals` are the values of names, `conds` those with symbolic truth."""
    def __init__(self, vals=None, slots=()):
        self.log, self.vals, self.memo = [], vals or {}, {}
        inst = self

        class Slots:
            def __contains__(self, n):
                if n not in inst.memo:
                    inst.memo[n] = bool(E.S.choose(2, f"slot {n}"))
                return inst.memo[n]
        self._slots = Slots()

    def _lookup(self, name, context):
        self.log.append(name)
        if name in self.vals:
            return self.vals[name]
        if name.startswith("c"):
            return mkb(z3.Bool("cond_" + name))
        return Tok(name)

    def render_slot(self, name, props=None):
        return [Made(("SLOT", name))]


def plain(f, *a):
    """As outcome, for plain values: whatever is raised is raised by the code."""
    try:
        return "return", f(*a)
    except E.Unsupported:
        raise
    except Exception as e:
        return "raise", e


def run_render(S, M, root, inst, names=None):
    fn = M.create_ast_render_function(root, names=set() if names is None else names)
    mod = real_ast.fix_missing_locations(real_ast.Module(body=[fn], type_ignores=[]))
    b = dict(vars(builtins))
    b["__import__"] = lambda n, g=None, l=None, fl=(), level=0: ns(create_element=create) if n == "collagraph" else builtins.__import__(n, g, l, fl, level)
    g = {"__builtins__": b, "Comp": "COMP", "pkg": ns(sub=ns(Comp="SUBCOMP"))}
    exec(compile(mod, "render", "exec"), g)
    return g["render"](inst)


def create(type, props=None, *children):
    return Made((type, dict(props), list(children)))


def kids(S, M, spec):
    """The nodes of a spec: (kind, ident)."""
    out = []
    for k, i in spec:
        if k == "text":
            out.append(M.TextElement(f"t{i} {{{{ x{i} }}}} end"))
        elif k == "comment":
            out.append(M.Comment(f"comment {i}"))
        elif k in ("if", "else-if"):
            out.append(M.Element(f"e{i}", {f"v-{k}": f"c{i}"}))
        elif k == "else":
            out.append(M.Element(f"e{i}", {"v-else": True}))
        elif k == "for":
            out.append(M.Element(f"e{i}", {"v-for": f"item in n{i}", ":value": "item"}))
        elif k == "slot":
            out.append(M.Element("slot", {"name": f"s{i}"}))
        else:
            out.append(M.Element(f"e{i}", {}))
    return out


KINDS_ = ["element", "text", "comment", "if", "else-if", "else", "for", "slot"]


def shape(S, n, kinds):
    """Any list of n kinds of children (chains are well-formed and not interrupted by text or for)."""
    spec, chain = [], False
    for i in range(n):
        k = kinds[S.choose(len(kinds), "kind")]
        if k in ("else-if", "else") and not chain:
            raise E.PathDead()
        if k != "comment":
            if k in ("text", "for") and any(x in ("if", "else-if") for x, _ in spec) and chain:
                S.notes["split"] = True
            chain = k in ("if", "else-if")
        spec.append((k, i))
    return spec


def expected(S, spec, inst, counts):
    """What the children come to, and which conditions are asked in which order."""
    out, asked, done, i = [], [], False, 0
    for k, i in spec:
        if k in ("if", "else-if", "else"):
            if k == "if":
                done = False
            if done:
                continue
            if k != "else":
                asked.append(f"c{i}")
                done = S.branch(z3.Bool(f"cond_c{i}"))
            else:
                done = True
            if done:
                out.append(Made((f"e{i}", {}, [])))
        elif k == "text":
            out.append(f"t{i} <x{i}> end")
        elif k == "for":
            out += [Made((f"e{i}", {"value": t}, [])) for t in counts[i]]
        elif k == "slot":
            out.append(Made(("SLOT", f"s{i}")) if inst.memo.get(f"s{i}") else Made(("slot", {"name": f"s{i}"}, [])))
        elif k == "element":
            out.append(Made((f"e{i}", {}, [])))
    return out, asked


def children_unit(name, n, kinds, props):
    @unit(UNITS, name, props, [FILE + ":convert_node_to_args", FILE + ":create_control_flow_ast", FILE + ":args_for_text_element", FILE + ":call_create_element", FILE + ":call_render_slot"],
          limit=80, max_paths=30000, bounded=f"every list of at most {n} children of the kinds {', '.join(kinds)}; v-for over 0 or 2 items; any truth values",
          assumes=["CPython compiles and runs the generated code"])
    def children(S):
        """for every shape of children up to the bound and all truth values: the children come out in order, chains give the element of the first
        condition that holds (later ones are not asked), texts and copies of a v-for stand where they are written"""
        M = plain_module()
        spec = shape(S, S.choose(n + 1, "children"), kinds)
        counts = {i: [Tok(f"item{i}.{j}") for j in range((0, 2)[S.choose(2, "items")])] for k, i in spec if k == "for"}
        inst = Instance({f"n{i}": v for i, v in counts.items()})
        root = M.Element("div", {})
        root.children = kids(S, M, spec)
        kind, r = plain(run_render, S, M, root, inst)
        S.oblige("never_raises", kind == "return", repr(r))
        if kind == "raise":
            return
        want, asked = expected(S, spec, inst, counts)
        S.oblige("children_as_described", r == Made(("div", {}, want)), f"{spec}: {r} instead of {want}")
        S.oblige("later_conditions_are_not_asked", [x for x in inst.log if x.startswith("c")] == asked, f"{spec}: {inst.log}")
    return children


children_unit("chains of siblings", 4, ["element", "if", "else-if", "else", "comment"], ["C12"])
children_unit("kinds of siblings", 3, ["element", "text", "comment", "if", "else", "for", "slot"], ["C11", "C12", "C13", "C16"])


class Mapping(dict):
    """The value of a v-bind: a mapping."""


@unit(UNITS, "attributes", ["C14"], [FILE + ":convert_node_to_args", FILE + ":is_directive"], limit=80, max_paths=30000, covers=["map", "event", "bound", "static"],
      bounded="every list of at most 3 attributes with different spellings over the names a and b: static, bare, :n, v-bind:n, @n, v-on:n and one v-bind mapping with any subset of a, b, on_a",
      assumes=["CPython compiles and runs the generated code"])
def attributes(S):
    """for every list of attributes up to the bound: the element gets each name with the value written last, entries of the v-bind mapping included"""
    M = plain_module()
    forms = [("a", "S"), ("b", None), (":a", "x"), ("v-bind:a", "x"), (":b", "x"), ("@a", "x"), ("v-on:a", "x"), ("v-bind", "m")]
    n = S.choose(4, "attributes")
    keys = []
    for i in range(n):
        f = forms[S.choose(len(forms), "form")]
        if f[0] in [k for k, _ in keys]:
            raise E.PathDead()
        keys.append(f)
    attrs, want, vals = {}, {}, {}
    bare_map = None
    for i, (k, v) in enumerate(keys):
        if v == "m":
            S.cover("map")
            sub = [x for x in ("a", "b", "on_a") if S.choose(2, "in map")]
            bare_map = Mapping({x: Tok(f"map {x}") for x in sub})
            attrs[k], vals["m"] = "m", bare_map
            for x in sub:
                want.pop(x, None)
                want[x] = bare_map[x]
            continue
        attrs[k] = True if v is None else f"v{i}"
        name = k.split(":")[-1].split("@")[-1]
        S.cover("event" if "@" in k or "on:" in k else "bound" if ":" in k else "static")
        if "@" in k or "v-on" in k:
            name = "on_" + name
        want.pop(name, None)
        want[name] = attrs[k] if ":" not in k and "@" not in k else ("tok", f"v{i}")
    inst = Instance(vals)
    root = M.Element("div", attrs)
    kind, r = plain(run_render, S, M, root, inst)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    got = {k: ("tok", v.name) if isinstance(v, Tok) and not v.name.startswith("map") else v for k, v in r[1].items()}
    S.oblige("each_name_has_the_value_written_last", got == want, f"{attrs}: {got} instead of {want}")
    S.oblige("nothing_else", r[0] == "div" and r[2] == [])
    S.oblige("the_given_mapping_is_left_alone", bare_map is None or all(v.name == f"map {k}" for k, v in bare_map.items()))


@unit(UNITS, "v-for scopes", ["C13", "C15"], [FILE + ":convert_node_to_args", FILE + ":RewriteName", FILE + ":NameCollector"], limit=80, covers=["empty", "several"],
      bounded="the listed forms of v-for over 0 to 3 items; names used in attributes, event lambdas, text, children, nested v-for and v-if; calls after the loop ended",
      assumes=["CPython compiles and runs the generated code"])
def for_scopes(S):
    """the loop variables refer to that copy's item everywhere in the element (also in handlers called later), other names and the same names
    outside keep their meaning"""
    M = plain_module()
    form = S.choose(6, "form")
    n = S.choose(4, "items")
    S.cover("empty" if n == 0 else "several")
    a = [Tok(f"a{i}") for i in range(n)]
    b = [Tok(f"b{i}") for i in range(n)]
    src, names, rows = [("item in list1", ["item"], [(x,) for x in a]),
                        ("i, item in enumerate(list1)", ["i", "item"], [(i, x) for i, x in enumerate(a)]),
                        ("item, (Zed, third) in nested", ["item", "Zed", "third"], [(x, y, x) for x, y in zip(a, b)]),
                        ("item in list1 for other in list2", ["item", "other"], [(x, y) for x in a for y in b]),
                        ("item in list1 if flag", ["item"], None),
                        ("item in make(item)", ["item"], [(x,) for x in a])][form]
    vals = {"list1": a, "list2": b, "nested": [(x, (y, x)) for x, y in zip(a, b)], "flag": mkb(z3.Bool("flag")), "make": lambda x: a}
    inst = Instance(vals)
    if rows is None:
        rows = None
    use = S.choose(4, "use")
    el = M.Element("e", {"v-for": src})
    for x in names:
        el.attrs[":" + x] = x
    el.attrs[":free"] = "free"
    el.attrs["@click"] = f"lambda arg: ({', '.join(names)}, arg, free)"
    el.children = []
    if use == 1:
        el.children = [M.TextElement("{{ item }} {{ free }}")]
    elif use == 2:
        c = M.Element("child", {":v": "item"})
        c.children = [M.TextElement("{{ [item for k in list2] }}")]
        el.children = [c]
    elif use == 3:
        c = M.Element("child", {"v-for": "inner in list2", ":v": "(item, inner)"})
        d = M.Element("cond", {"v-if": "item is item", ":v": "item"})
        el.children = [c, d]
    before, after = M.Element("before", {":v": "item"}), M.Element("after", {":v": "item", ":w": "[item for item in list1]"})
    root = M.Element("div", {":v": "item"})
    root.children = [before, el, after]
    kind, r = plain(run_render, S, M, root, inst)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if form == 4:
        rows = [(x,) for x in a] if n and S.branch(z3.Bool("flag")) else []
    tok = lambda x: isinstance(x, Tok) and x.name
    S.oblige("outside_the_names_keep_their_meaning", tok(r[1]["v"]) == "item" and r[2] and tok(r[2][0][1]["v"]) == "item" and tok(r[2][-1][1]["v"]) == "item")
    S.oblige("comprehensions_have_their_own_names", [id(x) for x in r[2][-1][1]["w"]] == [id(x) for x in a])
    copies = r[2][1:-1]
    S.oblige("one_copy_per_item_in_order", len(copies) == len(rows) and all(c[0] == "e" for c in copies), f"{src}: {len(copies)}")
    if len(copies) != len(rows):
        return
    for row, c in zip(rows, copies):
        S.oblige("attributes_refer_to_the_item", all(c[1][x] is v or type(v) is int and c[1][x] == v for x, v in zip(names, row)), f"{src}: {c[1]}")
        S.oblige("free_names_keep_their_meaning", tok(c[1]["free"]) == "free")
        kind, h = plain(c[1]["on_click"], "ARG")
        S.oblige("handlers_refer_to_the_item", kind == "return" and len(h) == len(row) + 2 and all(x is y or type(y) is int and x == y for x, y in zip(h, row)) and h[-2] == "ARG" and tok(h[-1]) == "free", f"{src}: {h}")
        item = row[names.index("item")]
        if use == 1:
            S.oblige("texts_refer_to_the_item", c[2] == [f"{item} <free>"], str(c[2]))
        elif use == 2:
            S.oblige("children_refer_to_the_item", len(c[2]) == 1 and c[2][0][1]["v"] is item and c[2][0][2] == [str([item for k in b])], str(c[2]))
        elif use == 3:
            S.oblige("nested_copies_refer_to_both_items", [x[1]["v"] for x in c[2]] == [(item, y) for y in b] + [item], str(c[2]))


@unit(UNITS, "slots in templates", ["C11"], [FILE + ":convert_node_to_args", FILE + ":call_render_slot", FILE + ":Element.slot_name"], limit=60, covers=["default", "named", "explicit default", "given", "fallback", "component"],
      bounded="up to 3 children of a component, each plain, #name, v-slot:name, v-slot, text or comment; slots with and without name and fallback; any presence",
      assumes=["CPython compiles and runs the generated code"])
def template_slots(S):
    """children of a component become the content of the named slot they are given for, or together that of the default slot; a slot renders the
    content given for its name exactly once, or its fallback"""
    M = plain_module()
    if S.choose(2, "side") == 0:
        name = (None, "n", "default")[S.choose(3, "slot name")]
        fb = S.choose(3, "fallback")
        el = M.Element("slot", {} if name is None else {"name": name})
        el.children = [M.Element(f"f{i}", {}) for i in range(fb)]
        where = S.choose(3, "where")
        inst = Instance()
        root = el if where == 0 else M.Element("div", {})
        if where == 1:
            root.children = [M.Element("a", {}), el, M.Element("b", {})]
        elif where == 2:
            root.children = [M.Element("template", {"v-if": "c1"}), el]
            root.children[0].children = []
        kind, r = plain(run_render, S, M, root, inst)
        S.oblige("never_raises", kind == "return", repr(r))
        if kind == "raise":
            return
        given = inst.memo.get(name or "default")
        S.oblige("asks_for_the_slot_of_its_name", list(inst.memo) == [name or "default"])
        S.cover("given" if given else "fallback")
        content = Made(("SLOT", name or "default")) if given else Made(("slot", {} if name is None else {"name": name}, [Made((f"f{i}", {}, [])) for i in range(fb)]))
        if where == 0:
            S.oblige("content_or_fallback_where_the_slot_stands", r == Made(("template", {}, [content])), str(r))
        elif where == 1:
            S.oblige("content_or_fallback_where_the_slot_stands", r[2] == [Made(("a", {}, [])), content, Made(("b", {}, []))], str(r))
        else:
            S.oblige("content_or_fallback_where_the_slot_stands", r[2] == ([Made(("template", {}, []))] if S.branch(z3.Bool("cond_c1")) else []) + [content], str(r))
        return
    S.cover("component")
    n = S.choose(4, "children")
    comp = M.Element(("Comp", "pkg.sub.Comp")[S.choose(2)], {})
    want, default, explicit = {}, [], None
    for i in range(n):
        k = ("plain", "#x", "v-slot:y", "v-slot", "text", "comment")[S.choose(6, "child")]
        if k == "text":
            comp.children.append(M.TextElement(f"text {i}"))
            default.append(f"text {i}")
        elif k == "comment":
            comp.children.append(M.Comment("c"))
        elif k == "plain":
            comp.children.append(M.Element(f"e{i}", {":p": "free"}))
            default.append(f"e{i}")
        else:
            sl = {"#x": "x", "v-slot:y": "y", "v-slot": "default"}[k]
            if sl in want:
                raise E.PathDead()
            t = M.Element("template", {k: True})
            t.children = [M.Element(f"in{i}", {":p": "props", ":q": "free"})]
            comp.children.append(t)
            want[sl] = f"in{i}"
    if "default" in want and default:
        raise E.PathDead()      # both kinds of default content: excluded
    inst = Instance()
    root = M.Element("div", {})
    root.children = [comp]
    kind, r = plain(run_render, S, M, root, inst)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    c = r[2][0]
    S.oblige("the_component_object", c[0] == ("COMP" if comp.tag == "Comp" else "SUBCOMP"), str(c[0]))
    if not want and not default:
        S.oblige("no_slots", c[2] == [], str(c))
        return
    slots = c[2][0] if len(c[2]) == 1 and isinstance(c[2][0], dict) else None
    S.oblige("slots_are_given", slots is not None, str(c))
    if slots is None:
        return
    S.oblige("exactly_these_slots", set(slots) == set(want) | ({"default"} if default else set()), str(set(slots)))
    for k, f in slots.items():
        kind, res = plain(f, "PROPS")
        S.oblige("slot_content_renders", kind == "return" and res[0] == "template", repr(res))
        if kind == "raise":
            return
        names = [x if isinstance(x, str) else x[0] for x in res[2]]
        if k == "default" and default:
            S.cover("default")
            S.oblige("the_other_children_are_the_default_slot", names == default, f"{names} {default}")
        else:
            S.cover("explicit default" if k == "default" else "named")
            S.oblige("the_content_given_for_that_slot", names == [want.get(k)], f"{names}")


@unit(UNITS, "tags", ["C16"], [FILE + ":convert_node_to_args"], covers=["component", "dotted", "element"],
      bounded="the listed tags", assumes=["CPython compiles and runs the generated code"])
def tags(S):
    """a tag that begins with a capital or contains a dot denotes that object, any other the element type of that name, as written"""
    M = plain_module()
    tag, want = [("Comp", "COMP"), ("pkg.sub.Comp", "SUBCOMP"), ("div", "div"), ("my-tag", "my-tag"), ("aBC", "aBC"), ("q_label", "q_label"), ("h1", "h1")][S.choose(7)]
    kind, r = plain(run_render, S, M, M.Element(tag, {"v": tag}), Instance())
    S.cover("component" if tag[0].isupper() else "dotted" if "." in tag else "element")
    S.oblige("never_raises", kind == "return", repr(r))
    S.oblige("what_the_tag_denotes", kind == "return" and r == Made((want, {"v": tag}, [])), repr(r))


@unit(UNITS, "texts", ["C16"], [FILE + ":args_for_text_element"], limit=60, covers=["plain", "expression"], bounded="texts of at most 3 pieces, and some combinations of 4 and 5: text (blank, braces and line ends included) and expressions",
      assumes=["CPython compiles and runs the generated code"])
def texts(S):
    """in a text every {{ expression }} is replaced by str() of its value, the rest is unchanged"""
    M = plain_module()
    pieces = [("a b", "a b"), (" ", " "), ("{ x }", "{ x }"), ("\n", "\n"), ("{{ x }}", "<x>"), ("{{\n [y, 'q'][0]\n}}", "<y>"), ("%s {0}", "%s {0}"), ("{{1}}", "1"), ("{{ {'k': x}['k'] }}", "<x>"), ("{{{1: y}[1]}}", "<y>")]
    n = S.choose(5, "pieces")
    ps = [pieces[S.choose(len(pieces), "piece")] for i in range(n + 1)] if n < 3 else [pieces[(S.choose(4, "piece") * 3 + i) % 10] for i in range(n + 1)]
    S.cover("expression" if any("{{" in p[0] for p in ps) else "plain")
    src, want = "".join(p[0] for p in ps), "".join(p[1] for p in ps)
    root = M.Element("div", {})
    root.children = [M.TextElement(src)]
    kind, r = plain(run_render, S, M, root, Instance())
    S.oblige("never_raises", kind == "return", repr(r))
    S.oblige("text_with_values", kind == "return" and r[2] == [want], f"{src!r}: {r!r}")

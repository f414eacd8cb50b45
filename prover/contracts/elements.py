"""collagraph.py: create_element, create_text_element, render_slot and the initial state of a Collagraph."""
from base import *
import types
import engine as E
from cgmod import collagraph_module
UNITS = []
B = z3.BoolSort()
I = z3.IntSort()
FILE = "collagraph/collagraph.py"


def with_star(f):
    """The same code with its `*args` as an ordinary parameter, so that any number of arguments can be passed as one symbolic sequence."""
    c = f.__code__
    assert c.co_flags & 0x04 and not c.co_kwonlyargcount
    return types.FunctionType(c.replace(co_flags=c.co_flags & ~0x04, co_argcount=c.co_argcount + 1), f.__globals__, f.__name__, None, f.__closure__)


class Wrapped:
    """observ.reactive(x)."""
    def __init__(self, x):
        self.x = x


def memo_at(S, f):
    known = []

    def at(t):
        for u, x in known:
            if u.eq(t) or S.check_always(u == t):
                return x
        x = f(t)
        known.append((t, x))
        return x
    return at


@unit(UNITS, "create_element", ["C01", "C02", "C11"], [FILE + ":create_element", FILE + ":create_text_element"], covers=["none", "one", "many", "dict", "callable", "string", "node", "no props", "props"],
      hooks={"dict.nonempty": lambda S, d: nonempty(S, d), "callable": lambda S, x: False, "isinstance": lambda S, x, c: False},
      assumes=["observ.reactive wraps what it is given"])
def create_element(S):
    """for any type, props and any number of children: an element description of that type with those props, the key among the props (or None), and the
    children in order, where a string is a text element; a single dict is the slots, a single function the default slot"""
    M = collagraph_module(reactive=Wrapped)
    VNode = M.T.VNode
    n, i = S.fresh("n", I), S.fresh("i", I)
    S.assume(z3.And(n >= 0, i >= 0, i < n))
    kinds = uf("kind_of_child", I, I)

    def child(t):
        w = z3.simplify(kinds(t))
        if S.branch(w == 0):
            return VNode(SV(uf("type_of_child", I, V)(t), "any"), {}, (), None)
        if S.branch(w == 1):
            return mks(uf("string", I, z3.StringSort())(t))
        if S.branch(w == 2):
            return {"slot": lambda props: None}
        return lambda props: None
    kid = memo_at(S, child)
    w = S.choose(3, "number of children")
    S.cover(("none", "one", "many")[w])
    if w == 0:
        n = z3.IntVal(0)
    else:
        S.assume(n == 1 if w == 1 else n > 1)
    view = SeqView(n, kid, name="children", kind="tuple")
    typ = S.sym("type")
    pk = S.choose(2, "props")
    S.cover(("no props", "props")[pk])
    has, val = uf("has_prop", z3.StringSort(), B), uf("prop", z3.StringSort(), V)
    props = SDict(base=Base(lambda k: mkb(has(tos(k))), lambda k: SV(val(tos(k)), "any")), name="props") if pk else None
    f = with_star(M.create_element)
    kind, r = outcome(f, typ, props, view)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("an_element_description", isinstance(r, VNode))
    if not isinstance(r, VNode):
        return
    S.oblige("of_that_type", r.type is typ)
    if not isinstance(r.props, Wrapped):
        raise E.Unsupported("props in another form")
    got = r.props.x
    if got is props and props is not None:
        S.oblige("the_props_are_not_changed", not props.mutated and not props.entries and not props.gone)
    else:
        S.oblige("no_props_only_without_props", (isinstance(got, dict) or isinstance(got, SDict) and got.base is None) and not list(got) and (props is None or not S.notes.get("some_props", True)))
    K = z3.StringVal("key")
    if props is None:
        S.oblige("no_key", r.key is None)
    else:
        S.oblige("the_key_among_the_props", z3.If(has(K), val(K), NONE) == (NONE if r.key is None else tov(r.key)))
    cs = r.children
    if w == 0:
        S.oblige("no_children", not isinstance(cs, SeqView) and isinstance(cs, (tuple, list)) and not cs)
        return
    first = kid(z3.IntVal(0)) if w == 1 else None
    if isinstance(first, dict):
        S.cover("dict")
        S.oblige("a_dict_is_the_slots", cs is first)
        return
    if w == 1 and callable(first) and not isinstance(first, (VNode, E.SStr)):
        S.cover("callable")
        S.oblige("a_function_is_the_default_slot", (isinstance(cs, (dict, SDict))) and list(cs) == ["default"] and cs["default"] is first)
        return
    if isinstance(cs, (list, tuple)) and w == 1 and len(cs) == 1:
        got, n2 = cs[0], z3.IntVal(1)
    elif isinstance(cs, SeqView):
        got, n2 = cs.at(i), cs.n
    else:
        S.oblige("children_are_a_sequence", not isinstance(cs, (dict, SDict)) and cs is not None and not (isinstance(cs, (tuple, list)) and not cs), repr(cs))
        raise E.Unsupported("children in another form")
    S.oblige("as_many_children", n2 == n)
    src = kid(i)
    if isinstance(src, E.SStr):
        S.cover("string")
        ok = isinstance(got, VNode) and got.type == "TEXT_ELEMENT"
        S.oblige("a_string_is_a_text_element", ok)
        if ok:
            p = got.props
            S.oblige("with_that_text", tos(p["content"]) == src.t if list(p) == ["content"] else False)
            S.oblige("without_children_and_key", not got.children and got.key is None)
    else:
        S.cover("node")
        S.oblige("the_children_in_order", got is src)


def nonempty(S, d):
    b = S.fresh("some_props", B)
    r = S.branch(b)
    S.notes["some_props"] = r
    if not r:
        S.assume(z3.Not(tob(d.base.has("key"))))
    return r


@unit(UNITS, "render_slot", ["C11"], [FILE + ":render_slot"], covers=["given one", "given many", "absent"], assumes=["the content of a slot is a function of the props"])
def render_slot(S):
    """for any name, props and slots: what the function given for the slot of that name makes of exactly those props, called once, one element as a list
    of one; nothing for a slot that is not given"""
    M = collagraph_module()
    VNode = M.T.VNode
    has = uf("has_slot", V, B)
    results = [VNode("one", {}, (), None), [VNode("a", {}, (), None), VNode("b", {}, (), None)], (), []]
    res = results[S.choose(4, "result")]
    calls = []

    def content(k):
        def f(*a, **kw):
            calls.append((k, a, kw))
            return res
        return f
    slots = SDict(base=mem_base(lambda k: mkb(has(tov(k))), content), name="slots")
    name, props = S.sym("name"), S.sym("props")
    kind, r = outcome(M.render_slot, name, props, slots)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if not S.branch(has(name.zt__)):
        S.cover("absent")
        S.oblige("nothing_is_rendered", not calls and isinstance(r, (tuple, list)) and len(r) == 0)
        return
    S.cover("given one" if isinstance(res, VNode) else "given many")
    S.oblige("the_function_is_called_once", len(calls) == 1)
    if len(calls) != 1:
        return
    k, a, kw = calls[0]
    S.oblige("of_the_slot_of_that_name", tov(k) == name.zt__)
    S.oblige("with_exactly_the_props", len(a) == 1 and not kw and a[0] is props)
    if isinstance(res, VNode):
        S.oblige("one_element_is_a_list_of_one", isinstance(r, (list, tuple)) and len(r) == 1 and r[0] is res)
    else:
        S.oblige("the_elements_in_order", isinstance(r, (list, tuple)) and list(r) == list(res) and all(x is y for x, y in zip(r, res)))


@unit(UNITS, "Collagraph.__init__", ["C10"], [FILE + ":Collagraph.__init__"], hooks={"isinstance": lambda S, x, c: False, "type": lambda S, x: "a type"}, covers=["default", "sync", "preferred", "no renderer"],
      assumes=["observ's scheduler: register_asyncio flushes later, register_request_flush(f) calls f on a change"])
def init(S):
    """a Collagraph starts without any work; state changes are flushed right away if it is synchronous and by asyncio otherwise; the event loop is the
    one asked for, else the one the renderer prefers, else the default"""
    class Renderer:
        pass

    class R(Renderer):
        def preferred_event_loop_type(self):
            return pref

        def register_asyncio(self):
            S.event("renderer.register_asyncio")

    class Scheduler:
        def register_asyncio(self):
            S.event("scheduler.register_asyncio")

        def register_request_flush(self, f):
            S.event("register_request_flush", f)

        def flush(self):
            S.event("flush")

        def __getattr__(self, n):
            raise E.Unsupported(f"scheduler.{n}")
    sch = Scheduler()

    class Q:
        def __init__(self, *a):
            self.a = a
    M = collagraph_module(Renderer=Renderer, scheduler=sch, LifoQueue=Q, SimpleQueue=Q)
    T = M.T.EventLoopType
    asked, pref = [[None, T.DEFAULT, T.SYNC][S.choose(3, w)] for w in ("asked", "preferred")]
    good = S.choose(2, "renderer") == 1
    rend = R() if good else S.sym("other")
    kind, c = outcome(lambda: M.Collagraph(rend, event_loop_type=asked) if asked or S.choose(2, "given") else M.Collagraph(rend))
    if not good:
        S.cover("no renderer")
        S.oblige("rejects_what_is_no_renderer", kind == "raise" and isinstance(c, TypeError))
        return
    S.oblige("never_raises", kind == "return", repr(c))
    if kind == "raise":
        return
    want = asked or pref or T.DEFAULT
    S.cover("preferred" if not asked and pref else "sync" if want is T.SYNC else "default")
    if want is T.SYNC:
        S.cover("sync")
    S.oblige("the_event_loop_asked_for_or_preferred", c.event_loop_type is want)
    S.oblige("its_renderer", c.renderer is rend)
    ev = [e[0] for e in S.trace]
    if want is T.SYNC:
        S.oblige("changes_are_flushed_right_away", ev == ["register_request_flush"])
        if ev == ["register_request_flush"]:
            f = S.trace[0][1]
            del S.trace[:]
            f()
            S.oblige("by_the_flush_of_the_scheduler", [e[0] for e in S.trace] == ["flush"])
    else:
        S.oblige("changes_are_flushed_by_asyncio", sorted(ev) == ["renderer.register_asyncio", "scheduler.register_asyncio"])
    S.oblige("no_tree_and_no_work_yet", all(getattr(c, a, None) is None for a in ("_current_root", "_wip_root", "_next_unit_of_work", "_request", "_render_callback")) and not c._deletions)
    S.oblige("nothing_is_to_be_done_again", not c._dirty)

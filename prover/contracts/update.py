"""collagraph.py: update_dom_or_component and the functions it decides with (C03, C04, C06, C07)."""
from base import *
import engine as E
from cgmod import *
from contracts.component import RO, Reactive, ASSUME as OBSERV
UNITS = []
G = uf("G_component_fiber", V, V)        # nearest fiber, from this one upwards, with a component


def comp_has(t):
    return uf("f_component_0", V, V)(t) != NONE


def unfold_g(S, t):
    S.assume(G(t) == z3.If(t == NONE, NONE, z3.If(comp_has(t), t, G(uf("f_parent_0", V, V)(t)))))


def comp_event(name):
    def f(S, o, *a, **k):
        S.event("component." + name, o, *a)
    return f


Kind("CompI", props={"props": lambda S, o: RO(S.notes["cprops"])}, methods={"add_event_handler": comp_event("add"), "remove_event_handler": comp_event("remove")}, truthy="uf", eq="is")
FIBER = Kind("Fiber", fields={"component": "CompI", "parent": "Fiber", "updated": "bool", "type": "key", "dom": "any", "child": "Fiber", "sibling": "Fiber",
                              "mounted": "bool", "alternate": "Fiber"},
             props={"props": lambda S, o: S.notes["fprops"], "props_snapshot": lambda S, o: S.notes["next"]}, truthy="always", eq="is")


def lower(S, s):
    r = SStr(uf("str_lower", STR, STR)(tos(s)))
    r.ev = True
    return r


class EvStr(SStr):
    """The result of key_to_event (a name of an event, as opposed to the name of an attribute)."""
    __slots__ = ()


def strfun(self, name, s):
    t = uf("str_" + name, STR, STR)(s.t)
    return EvStr(t) if name == "lower" else SStr(t)


E.Path.strfun = strfun
STR = z3.StringSort()


def event_of(k):
    """The event a key denotes: lower case, without `on_`."""
    n = z3.Length(k.t)
    return EvStr(z3.simplify(uf("str_lower", STR, STR)(z3.simplify(z3.SubString(k.t, z3.IntVal(3), z3.If(n > 3, n - 3, z3.IntVal(0)))))))


class UpdSpec(Spec):
    """Loops over attribute dicts, projected at an arbitrary key K; every other iteration is shown to leave
    what the contract says about K alone."""
    key_is_str = True

    def while_rule(self, S, where, vs, loc):
        ptrs = [k for k, v in vs.items() if isinstance(v, SV) and v.zk__ is FIBER]
        return Climb(ptrs[0], vs[ptrs[0]]) if len(ptrs) == 1 else None

    def dict_coll(self, view):
        return KeyProj(view)

    def tracked(self, S, d):
        return [S.notes["K"]]

    def others_truth(self, S, d):
        return S.branch(tob(d.others))


def cindex(S, d):
    return [c is d for c in S.containers].index(True)


def terms(S, d):
    """The keys of container d that other iterations must leave alone."""
    if d.base is None and d.entries and all(isinstance(k, EvStr) for k, _ in d.entries):
        return [S.notes["EV"]]
    return [S.notes["K"]]


def others(S, d, k):
    for t in (S.notes["K"], S.notes["EV"]):
        if k is t or (isinstance(k, SStr) and z3.eq(z3.simplify(k.t), z3.simplify(t.t))):
            return E._MISSING
    return S.sym("other") if S.choose(2) else E._MISSING


class KeyProj:
    def __init__(self, view):
        self.view = view

    def plan(self, S, loop):
        d, K, EV = self.view.d, S.notes["K"], S.notes["EV"]
        closed = S.notes.get("closed")
        if d.base is None:
            mine = [(k, v) for k, v in d.entries]
        else:
            mine = [(K, d[K])] if K in d else []
        for c in S.containers:
            if c.base is None and not closed and c.others is False:
                c.others = S.bool("others")
        mode = 0 if closed else S.choose(2, "loop")
        for k, v in mine:
            yield "done", self.view.pick(k, v)
        if mode == 0:
            return
        k2 = S.str("k2")
        if d.base is not None:
            S.assume(k2.t != K.t)
            on = z3.StringVal("on_")
            S.assume(z3.Implies(z3.And(z3.PrefixOf(on, k2.t), z3.PrefixOf(on, K.t)), event_of(k2).t != EV.t))
            if k2 not in d:
                raise E.PathDead()
            v = d[k2]
        else:
            ev = [isinstance(k, EvStr) for k, _ in d.entries]
            if not ev or not all(ev):
                S.assume(k2.t != K.t)
            if not ev or any(ev):
                S.assume(k2.t != EV.t)
            v = S.sym("v2")
        n = len(S.containers)
        self.snap = [(c, c.mutated, c.copy()) for c in S.containers[:n]]
        S.cover("frame")
        yield "end", self.view.pick(k2, v)

    def after(self, S, loop, must, val, muts):
        K, EV = S.notes["K"], S.notes["EV"]
        if must == "done":
            if S.notes.get("closed"):
                for o, what, k, v in muts:
                    if isinstance(o, SDict) and o is not S.notes["next"]:
                        S.ex.notes.setdefault("mutated", set()).add(cindex(S, o))
                    elif what == "event" or isinstance(o, SV):
                        S.oblige("unchanged_key_has_no_effect", False, f"{what} {k}")
            return
        for o, what, k, v in muts:
            if what == "event":
                check_irrelevant(S, k)
            elif isinstance(o, SV) and not (what == "setattr" and k == "updated" and v is True):
                S.oblige("frame_other_iterations", False, f"{what} {k}")
        for c, n, old in self.snap:
            if c.mutated == n:
                continue
            t = terms(S, c)[0]
            before, now = old._get(t), c._get(t)
            same = now is before or (now is not E._MISSING and before is not E._MISSING and z3.eq(z3.simplify(tov(now)), z3.simplify(tov(before))))
            S.oblige("frame_other_iterations", z3.Or(z3.BoolVal(same), z3.And(z3.BoolVal(t is EV), z3.Not(S.notes["isev"]))), "an iteration at another key changes what is recorded for this key")


def check_irrelevant(S, e):
    K, EV = S.notes["K"], S.notes["EV"]
    pos = {"set_attribute": (2, K), "remove_attribute": (2, K), "add_event_listener": (2, EV), "remove_event_listener": (2, EV), "component.add": (2, EV), "component.remove": (2, EV)}
    if e[0] not in pos or len(e) <= pos[e[0]][0]:
        S.oblige("frame_other_iterations", False, f"call {e[0]} in an iteration")
        return
    i, t = pos[e[0]]
    S.oblige("frame_other_iterations", z3.Or(tov(e[i]) != tov(t), z3.And(z3.BoolVal(t is EV), z3.Not(S.notes["isev"]))), f"{e[0]} for the key of another iteration")


class Climb:
    """parent walk: the walked fiber p keeps G(p) == G(start)."""
    def __init__(self, var, start):
        self.var, self.start = var, start.zt__

    def havoc(self, S, vs):
        p = S.sym("p", "Fiber")
        S.assume(G(p.zt__) == G(self.start))
        unfold_g(S, p.zt__)
        return {self.var: p}

    def keep(self, S, vs):
        S.cover("climb")
        S.oblige("climb_invariant", G(tov(vs[self.var])) == G(self.start), "the walk to the enclosing component skips or loses it")


def differs(a, b):
    """`a` (old, None if absent) and `b` are different attribute values."""
    return z3.Or(z3.Xor(a == NONE, b == NONE), z3.Not(E.eq_term(a, b)))


EQUIV = uf("equivalent", V, V, z3.BoolSort())
HOOKS = {"equivalent_functions": lambda S, a, b: mkb(EQUIV(tov(a), tov(b))), "others": others, "to_raw": lambda S, x: x}
FUNCS = ["collagraph.py:update_dom_or_component", "collagraph.py:is_event", "collagraph.py:key_to_event", "collagraph.py:is_new", "collagraph.py:is_equivalent_event_handler"]


def setup(S):
    M = collagraph_module()
    K = S.str("K")
    S.notes["K"], S.notes["EV"] = K, event_of(K)
    prev, nxt = sym_dict("prev"), sym_dict("next")
    hp, hn, hc = (uf("has_" + x, V, z3.BoolSort()) for x in ("prev", "next", "cprops"))
    # invariant: apart from events, the component has the props of the previous description; fiber.props has the keys of its snapshot
    cp = SDict(base=Base(lambda k: mkb(z3.If(z3.PrefixOf(z3.StringVal("on_"), tos(k)), hc(tov(k)), hp(tov(k)))), lambda k: SV(uf("val_cprops", V, V)(tov(k)))), name="cprops")
    fp = SDict(base=Base(lambda k: mkb(hn(tov(k))), lambda k: SV(uf("val_fprops", V, V)(tov(k)))), name="fprops")
    S.notes.update(prev=prev, next=nxt, fprops=fp, cprops=cp)
    g = bare(M.Collagraph, renderer=Recorder())
    f = S.obj("fiber", "Fiber")
    t = tov(K)
    P, N = uf("has_prev", V, z3.BoolSort())(t), uf("has_next", V, z3.BoolSort())(t)
    pv, nv = uf("val_prev", V, V)(t), uf("val_next", V, V)(t)
    isev = z3.PrefixOf(z3.StringVal("on_"), K.t)
    S.notes.update(isev=isev)
    for x in (pv, nv):
        S.assume(z3.Implies(isev, x != NONE))
    pf = f.parent
    S.notes["parent"] = pf.zt__
    unfold_g(S, pf.zt__)
    S.assume(z3.Implies(pf.zt__ != NONE, V.is_r(pf.zt__)))
    return M, g, f, K, t, P, N, pv, nv, isev


def changed(P, N, pv, nv, isev, comp):
    old = z3.If(P, pv, NONE)
    attr_set = z3.And(z3.Not(isev), N, z3.Or(differs(old, nv), z3.And(z3.BoolVal(comp), z3.Not(P))))
    attr_del = z3.And(z3.Not(isev), P, z3.Not(N))
    same = z3.And(P, N, EQUIV(pv, nv))
    ev_del, ev_add = z3.And(isev, P, z3.Not(same)), z3.And(isev, N, z3.Not(same))
    return attr_set, attr_del, ev_del, ev_add, same


def calls(S, name, pos, want):
    return [e for e in S.trace if e[0] == name and len(e) > pos and S.branch(tov(e[pos]) == tov(want))]


def once(S, clause, evs, cond, detail):
    S.oblige(clause, z3.If(cond, z3.BoolVal(len(evs) == 1), z3.BoolVal(len(evs) == 0)), detail + f" ({len(evs)} calls)")


ASSUME = OBSERV + ["equivalent_functions(a, b) is a deterministic predicate (its own contract: C05)",
                   "no two event attributes of one element denote the same event", "event handlers are not None; attribute names are str",
                   "the mapping of a component's props is none of the mappings of its parent's descriptions (violated by the known finding of C07)",
                   "renderer methods and component handlers return normally"]


def run(S, f, g, dom):
    muts = []
    S.frames.append(lambda o, what, k, v: muts.append((o, what, k, v)) if isinstance(o, SV) else None)
    how, r = outcome(g.update_dom_or_component, f, dom, prev_props=S.notes["prev"], next_props=S.notes["next"])
    S.frames.pop()
    S.oblige("returns", how == "return", f"raised {r!r}")
    return [(o, k, v) for o, what, k, v in muts if what == "setattr"]


@unit(UNITS, "update_dom_or_component.element", ["C03", "C04", "C06", "C01", "C10"], FUNCS, spec=UpdSpec, hooks=HOOKS, covers=["frame", "set", "removed", "handler added", "handler removed", "handler kept", "climb"], assumes=ASSUME, limit=90)
def upd_dom(S):
    """for every attribute name K: set_attribute(dom, K, new) exactly once iff K is new (not None) or differs, remove_attribute(dom, K, old) exactly once iff K vanished,
    listener of event(K) removed/added exactly once iff the handlers are not equivalent, removal first; the enclosing component is marked updated iff something changed"""
    M, g, f, K, t, P, N, pv, nv, isev = setup(S)
    dom = S.sym("dom", notnone=True)
    S.assume(uf("f_component_0", V, V)(f.zt__) == NONE)
    S.assume(f.type.zt__ != tov("TEXT_ELEMENT"))
    sets = run(S, f, g, dom)
    EV = S.notes["EV"]
    a_set, a_del, e_del, e_add, same = changed(P, N, pv, nv, isev, False)
    cs, cr = calls(S, "set_attribute", 2, K), calls(S, "remove_attribute", 2, K)
    ca, ce = calls(S, "add_event_listener", 2, EV), calls(S, "remove_event_listener", 2, EV)
    once(S, "sets_exactly_changed", cs, a_set, "set_attribute")
    once(S, "removes_exactly_vanished", cr, a_del, "remove_attribute")
    once(S, "adds_exactly_new_handlers", ca, e_add, "add_event_listener")
    once(S, "removes_exactly_old_handlers", ce, e_del, "remove_event_listener")
    for e in cs:
        S.cover("set")
        S.oblige("sets_new_value", z3.And(tov(e[3]) == nv, tov(e[1]) == dom.zt__))
    for e in cr:
        S.cover("removed")
        S.oblige("removes_old_value", z3.And(tov(e[3]) == pv, tov(e[1]) == dom.zt__))
    for e in ca:
        S.cover("handler added")
        S.oblige("adds_new_handler", z3.And(tov(e[3]) == nv, tov(e[1]) == dom.zt__))
    for e in ce:
        S.cover("handler removed")
        S.oblige("removes_registered_handler", z3.And(tov(e[3]) == pv, tov(e[1]) == dom.zt__))
    if ca and ce:
        S.oblige("removes_before_adding", S.trace.index(ce[0]) < S.trace.index(ca[0]))
    bad = [e[0] for e in S.trace if e[0] not in ("set_attribute", "remove_attribute", "add_event_listener", "remove_event_listener")]
    S.oblige("no_other_renderer_call", not bad, str(bad))
    # the handler that stays registered is remembered for the next update
    nxt = S.notes["next"]
    got = nxt.get(K, "absent")
    S.oblige("description_keeps_the_registered_handler", tov(got) == z3.If(N, z3.If(z3.And(isev, same), pv, nv), tov("absent")))
    if S.branch(z3.And(isev, same)):
        S.cover("handler kept")
    S.oblige("previous_description_unchanged", not S.notes["prev"].mutated)
    listeners(S, isev)
    ch = z3.Or(a_set, a_del, e_del, e_add)
    marks(S, sets, ch, G(S.notes["parent"]))


def listeners(S, isev):
    """an attribute never becomes a listener, nor an event an attribute"""
    names = ("add_event_listener", "remove_event_listener", "component.add", "component.remove")
    S.oblige("attributes_are_no_events", z3.Or(isev, z3.BoolVal(not any(e[0] in names for e in S.trace))))
    S.oblige("events_are_no_attributes", z3.Or(z3.Not(isev), z3.BoolVal(not any(e[0] not in names for e in S.trace))))


def marks(S, sets, ch, target):
    ups = [(o, v) for o, k, v in sets if k == "updated"]
    S.oblige("frame_fibers", all(k == "updated" for o, k, v in sets), str([k for o, k, v in sets]))
    for o, v in ups:
        S.oblige("marks_the_right_component", z3.And(o.zt__ == target, z3.BoolVal(v is True)), "another fiber is marked as updated")
    if not ups:
        S.oblige("marks_component_updated", z3.Or(z3.Not(ch), target == NONE), "a change does not mark the component as updated")


@unit(UNITS, "update_dom_or_component.component", ["C04", "C06", "C07", "C01", "C09", "C10"], FUNCS, spec=UpdSpec, hooks=HOOKS, covers=["frame", "set", "removed", "handler added", "handler removed", "handler kept"], assumes=ASSUME, limit=90)
def upd_comp(S):
    """for every K that is no event: props'[K] present iff K in next; it is the (reactive) value fiber.props[K] if new or different, else unchanged; handlers as for elements; the fiber is marked updated iff something changed; no renderer call"""
    M, g, f, K, t, P, N, pv, nv, isev = setup(S)
    S.assume(uf("f_component_0", V, V)(f.zt__) != NONE)
    S.assume(f.type.zt__ != tov("TEXT_ELEMENT"))
    cp = S.notes["cprops"]
    cv = uf("val_cprops", V, V)(t)
    sets = run(S, f, g, None)
    EV = S.notes["EV"]
    a_set, a_del, e_del, e_add, same = changed(P, N, pv, nv, isev, True)
    comp = uf("f_component_0", V, V)(f.zt__)
    ca, ce = calls(S, "component.add", 2, EV), calls(S, "component.remove", 2, EV)
    once(S, "adds_exactly_new_handlers", ca, e_add, "add_event_handler")
    once(S, "removes_exactly_old_handlers", ce, e_del, "remove_event_handler")
    for e in ca:
        S.cover("handler added")
        S.oblige("adds_new_handler", z3.And(tov(e[3]) == nv, tov(e[1]) == comp))
    for e in ce:
        S.cover("handler removed")
        S.oblige("removes_registered_handler", z3.And(tov(e[3]) == pv, tov(e[1]) == comp))
    if ca and ce:
        S.oblige("removes_before_adding", S.trace.index(ce[0]) < S.trace.index(ca[0]))
    bad = [e[0] for e in S.trace if e[0] not in ("component.add", "component.remove")]
    S.oblige("no_renderer_call", not bad, str(bad))
    listeners(S, isev)
    if not S.branch(isev):
        now = cp._get(K)
        S.oblige("prop_present_iff_described", z3.BoolVal(now is not E._MISSING) == N, "the component has a prop that is not described, or lacks one")
        if now is not E._MISSING:
            S.oblige("prop_is_current", tov(now) == z3.If(a_set, uf("val_fprops", V, V)(t), cv), "a changed prop is not handed out as the value of the description")
        S.cover("set" if S.branch(a_set) else "removed" if S.branch(a_del) else "same")
    else:
        S.oblige("event_keys_are_no_props", cp._get(K) is E._MISSING or tov(cp._get(K)) == cv)
    # the handler that stays registered is remembered for the next update
    got = S.notes["next"].get(K, "absent")
    S.oblige("description_keeps_the_registered_handler", tov(got) == z3.If(N, z3.If(z3.And(isev, same), pv, nv), tov("absent")))
    if S.branch(z3.And(isev, same)):
        S.cover("handler kept")
    S.oblige("previous_description_unchanged", not S.notes["prev"].mutated and not S.notes["fprops"].mutated)
    marks(S, sets, z3.Or(a_set, a_del, e_del, e_add), f.zt__)


def closed(S, comp):
    M, g, f, K, t, P, N, pv, nv, isev = setup(S)
    c = uf("f_component_0", V, V)(f.zt__)
    S.assume((c != NONE) if comp else (c == NONE))
    a_set, a_del, e_del, e_add, same = changed(P, N, pv, nv, isev, comp)
    S.assume(z3.Not(z3.Or(a_set, a_del, e_del, e_add)))
    S.notes["closed"] = True
    if comp:
        S.assume(f.type.zt__ != tov("TEXT_ELEMENT"))
    else:
        # the text of a text element is unchanged
        ct = tov("content")
        S.assume(z3.Implies(f.type.zt__ == tov("TEXT_ELEMENT"), z3.And(uf("has_prev", V, z3.BoolSort())(ct), uf("has_next", V, z3.BoolSort())(ct),
                 E.eq_term(uf("val_next", V, V)(ct), uf("val_prev", V, V)(ct)))))
    sets = run(S, f, g, None if comp else S.sym("dom", notnone=True))
    S.cover("done")
    S.oblige("no_call_when_nothing_changed", not S.trace, str([e[0] for e in S.trace]))
    S.oblige("not_marked_when_nothing_changed", not sets)


class ClosedSpec(UpdSpec):
    """An unchanged key never fills a container whose emptiness is tested."""
    def truth_tested(self, S, d):
        if d.base is None:
            S.ex.notes.setdefault("tested", set()).add(cindex(S, d))

    def finish(self, ex):
        bad = ex.notes.get("tested", set()) & ex.notes.get("mutated", set())
        ex.results.setdefault("emptiness_means_unchanged", []).append(("proved", "", "z3") if not bad else ("unknown", "a tested container is filled by unchanged keys", "z3"))


for comp in (False, True):
    @unit(UNITS, "update_dom_or_component.unchanged_" + ("component" if comp else "element"), ["C03", "C04", "C06"], FUNCS, spec=ClosedSpec, hooks=HOOKS, covers=["done"], assumes=ASSUME, limit=60)
    def upd_closed(S, comp=comp):
        """if no key changed: no call at all and nothing is marked as updated"""
        closed(S, comp)


@unit(UNITS, "update_dom_or_component.text", ["C03", "C01"], ["collagraph.py:update_dom_or_component"], spec=UpdSpec, hooks=HOOKS, covers=["written", "same"], assumes=ASSUME, limit=60)
def upd_text(S):
    """set_element_text(dom, new content) exactly once iff the content differs from the previous one (absent at creation)"""
    M, g, f, K, t, P, N, pv, nv, isev = setup(S)
    S.assume(K.t == z3.StringVal("content"))
    S.assume(uf("f_component_0", V, V)(f.zt__) == NONE)
    S.assume(f.type.zt__ == tov("TEXT_ELEMENT"))
    ct = tov("content")
    hp, hn, p, n = uf("has_prev", V, z3.BoolSort())(ct), uf("has_next", V, z3.BoolSort())(ct), uf("val_prev", V, V)(ct), uf("val_next", V, V)(ct)
    S.assume(z3.And(hn, n != NONE, z3.Implies(hp, p != NONE)))
    dom = S.sym("dom", notnone=True)
    run(S, f, g, dom)
    w = [e for e in S.trace if e[0] == "set_element_text"]
    ch = z3.Not(z3.And(hp, E.eq_term(n, p)))
    once(S, "writes_exactly_changed_text", w, ch, "set_element_text")
    S.cover("written" if w else "same")
    for e in w:
        S.oblige("writes_the_new_text", z3.And(tov(e[1]) == dom.zt__, tov(e[2]) == n) if len(e) == 3 else False)


@unit(UNITS, "update_dom_or_component.virtual", ["C03", "C01"], ["collagraph.py:update_dom_or_component"], spec=UpdSpec, hooks=HOOKS, assumes=ASSUME)
def upd_virtual(S):
    """without element and component there is no call"""
    M, g, f, K, t, P, N, pv, nv, isev = setup(S)
    S.assume(uf("f_component_0", V, V)(f.zt__) == NONE)
    sets = run(S, f, g, None)
    S.oblige("no_call", not S.trace and not sets and not S.notes["next"].mutated)


@unit(UNITS, "attribute names", ["C04", "C03", "C01"], ["collagraph.py:is_event", "collagraph.py:key_to_event"], assumes=[])
def names(S):
    """is_event(k) iff k starts with on_; key_to_event(k) is the rest in lower case"""
    M = collagraph_module()
    k = S.str("k")
    S.oblige("is_event", tob(M.is_event(k)) == z3.PrefixOf(z3.StringVal("on_"), k.t))
    S.assume(z3.PrefixOf(z3.StringVal("on_"), k.t))
    S.oblige("key_to_event", tos(M.key_to_event(k)) == uf("str_lower", STR, STR)(z3.SubString(k.t, 3, z3.Length(k.t) - 3)))

"""collagraph/component.py: props, parent, provide/inject, events, name lookup, slots."""
from base import *
import engine as E
from collections import defaultdict
UNITS = []
PATH = "collagraph/component.py"
HV = uf("handler", V, I_, V, B_) if False else None


def I_():
    return z3.IntSort()


class RO:
    """observ.readonly(x): reads go to the target, writes raise (assumed of observ)."""
    pyvc_sym = True

    def __init__(self, target):
        self.target = target

    def __getitem__(self, k):
        return self.target[k]

    def __contains__(self, k):
        return k in self.target

    def get(self, k, d=None):
        return self.target.get(k, d)

    def __setitem__(self, k, v):
        E.throw(TypeError("readonly"))
    __delitem__ = pop = update = clear = setdefault = lambda self, *a: E.throw(TypeError("readonly"))


class Reactive:
    """observ.reactive(x): a proxy that reads and writes through to x (assumed of observ)."""
    pyvc_sym = True

    def __init__(self, target):
        self.target = target.target if isinstance(target, (RO, Reactive)) else target

    def __getitem__(self, k):
        return self.target[k]

    def __setitem__(self, k, v):
        self.target[k] = v

    def __delitem__(self, k):
        del self.target[k]

    def __contains__(self, k):
        return k in self.target

    def get(self, k, d=None):
        return self.target.get(k, d)

    def keys(self):
        return self.target.keys()

    def items(self):
        return self.target.items()

    def pop(self, *a):
        return self.target.pop(*a)

    def update(self, *a, **k):
        self.target.update(*a, **k)

    def __bool__(self):
        return bool(self.target)


class Ref:
    def __init__(self, x):
        self.x = x

    def __call__(self):
        return self.x


def dd(f=None, *a):
    d = SDict(factory=f)
    return d


def component_module():
    return load(PATH, {"observ": ns(reactive=Reactive, readonly=RO), "collagraph": ns(render_slot=lambda *a: E.S.hook("render_slot", *a)),
                       "collections": ns(defaultdict=dd), "weakref": ns(ref=Ref)}, name="collagraph.component_v")


ASSUME = ["observ.reactive/readonly read and write through to the wrapped mapping, and readonly rejects writes",
          "weakref.ref(x)() is x while x is mounted", "collections.defaultdict inserts factory() for a missing key"]


def provided(S, o, raw=None):
    t = o.zt__
    return SDict(base=Base(lambda k: mkb(uf("prov_has", V, V, z3.BoolSort())(t, tov(k))), lambda k: SV(uf("prov_val", V, V, V)(t, tov(k)), "any")), name="provided")


def parent_of(S, o):
    return SV(uf("parent_of", V, V)(o.zt__), "Comp")


F = uf("F_inject", V, V)          # for the key and default of the call under contract


def inject_contract(S, o, key, default=None):
    S.oblige("recursive_call_passes_key_and_default", z3.And(tov(key) == S.notes["key"], tov(default) == S.notes["default"]))
    p = parent_of(S, o)
    return SV(F(p.zt__), "any")


COMP = Kind("Comp", props={"parent": parent_of, "_provided": lambda S, o: provided(S, o), "_parent": lambda S, o: Ref(parent_of(S, o))},
            methods={"inject": inject_contract}, truthy="uf", eq="is")


def unfold(S, t):
    has, val, par = uf("prov_has", V, V, z3.BoolSort()), uf("prov_val", V, V, V), uf("parent_of", V, V)
    k, d = S.notes["key"], S.notes["default"]
    S.assume(F(t) == z3.If(t == NONE, d, z3.If(has(t, k), val(t, k), F(par(t)))))


class ClimbSpec(Spec):
    """while loop that walks up: the walked pointer p keeps F(p) == F(start)."""
    def while_rule(self, S, where, vs, loc):
        ptrs = [k for k, v in vs.items() if isinstance(v, SV) and v.zk__.name == "Comp"]
        if len(ptrs) != 1:
            return None
        return Climb(S, ptrs[0], vs[ptrs[0]])


class Climb:
    def __init__(self, S, var, start):
        self.var, self.start = var, start.zt__

    def havoc(self, S, vs):
        p = S.sym("p", "Comp")
        S.assume(F(p.zt__) == F(self.start))
        unfold(S, p.zt__)
        return {self.var: p}

    def keep(self, S, vs):
        S.cover("step")
        S.oblige("loop_invariant", F(tov(vs[self.var])) == F(self.start), "the value to be injected is not that of the pointer walked")


def new_component(S, props=None, parent=None):
    M = component_module()
    c = M.Component.__new__(M.Component)
    return M, c


@unit(UNITS, "Component.inject", ["C08"], ["component.py:Component.inject", "component.py:Component.parent (contract)"], spec=ClimbSpec, covers=["step", "returned", "given", "default"], assumes=ASSUME)
def inject(S):
    """result == F(parent(self)), F(None) = default, F(p) = provided(p)[key] if key in provided(p) else F(parent(p))"""
    M, c = new_component(S)
    p0 = S.sym("parent", "Comp")
    k, d = S.sym("key", "key"), S.sym("default")
    S.notes.update(key=k.zt__, default=d.zt__)
    unfold(S, p0.zt__)
    c._parent = Ref(p0) if S.choose(2) else None
    own = sym_dict("own")
    c._provided = own
    if c._parent is None:
        want = d.zt__
        S.assume(p0.zt__ == NONE)
    else:
        S.assume(p0.zt__ != NONE)
        want = F(p0.zt__)
    S.frames.append(lambda o, what, kk, v: S.oblige("frame_no_effects", False, f"inject changes {what}") if what != "event" else None)
    how, r = outcome(c.inject, k, d)
    S.cover("returned")
    S.oblige("returns", how == "return", f"raised {r!r}")
    if how == "return":
        S.oblige("nearest_enclosing_provider", tov(r) == want, "inject returned something else than F(parent)")
        S.cover("given" if S.check(want != d.zt__) != z3.unsat else "x")
        S.cover("default")


@unit(UNITS, "Component.inject.default", ["C08"], ["component.py:Component.inject"], spec=ClimbSpec, assumes=ASSUME)
def inject_default(S):
    """without default argument, a missing provider gives None"""
    M, c = new_component(S)
    c._parent, c._provided = None, sym_dict("own")
    k = S.sym("key")
    S.notes.update(key=k.zt__, default=NONE)
    how, r = outcome(c.inject, k)
    S.oblige("none_without_provider", how == "return" and r is None)


@unit(UNITS, "Component.parent", ["C07", "C08"], ["component.py:Component.parent", "component.py:Component.__init__"], covers=["none", "some"], assumes=ASSUME)
def parent(S):
    """parent is the component given to __init__ (None for the root), also when that component is falsy"""
    M = component_module()
    p = S.sym("parent", "Comp")
    props = sym_dict("props")
    c = M.Component.__new__(M.Component)
    how, r = outcome(c.__init__, props, p)
    S.oblige("init_returns", how == "return", f"raised {r!r}")
    how, r = outcome(lambda: c.parent)
    S.cover("none" if S.branch(p.zt__ == NONE) else "some")
    S.oblige("parent", how == "return" and tov(r) == p.zt__ if how == "return" else False)
    S.oblige("props_wrap_given_mapping", isinstance(c.props, RO) and c.props.target is props, "props is not the readonly view of the given mapping")
    S.oblige("element_none_before_mount", c.element is None)
    S.oblige("state_is_reactive", isinstance(c.state, Reactive) and isinstance(c.state.target, SDict) and not c.state.target.entries)
    S.oblige("nothing_provided", isinstance(c._provided, SDict) and not c._provided.entries and c._provided.base is None)


@unit(UNITS, "Component.setters", ["C07"], ["component.py:Component.props", "component.py:Component.state", "component.py:Component.element", "component.py:Component.parent"], covers=["props", "state", "element", "parent"], assumes=ASSUME)
def setters(S):
    """assigning props/state/element/parent raises and changes nothing; writing an item of props raises and changes nothing"""
    M = component_module()
    c = M.Component.__new__(M.Component)
    given = sym_dict("props")
    c.__init__(given, S.sym("p", "Comp"))
    el = S.sym("el")
    c._element = el
    n = ["props", "state", "element", "parent"][S.choose(4)]
    before = {k: getattr(c, k) for k in ("props", "state", "element", "parent")}
    how, r = outcome(setattr, c, n, S.sym("value"))
    S.oblige(f"{n}_cannot_be_rebound", how == "raise", f"{n} can be assigned")
    for k, v in before.items():
        S.oblige(f"{n}_unchanged_{k}", E.is_(getattr(c, k), v) is True if not isinstance(v, SV) else tov(getattr(c, k)) == v.zt__)
    k, v = S.sym("k"), S.sym("v")
    muts = given.mutated
    how, r = outcome(lambda: c.props.__setitem__(k, v))
    S.oblige("props_items_readonly", how == "raise" and given.mutated == muts)
    S.cover(n)


@unit(UNITS, "Component.provide", ["C08"], ["component.py:Component.provide"], covers=["same", "other"], assumes=ASSUME)
def provide(S):
    """provided' = provided[key := value]; every other key keeps its entry"""
    M, c = new_component(S)
    d = sym_dict("own")
    c._provided = d
    k, v, K = S.sym("key", "key"), S.sym("value"), S.sym("K", "key")
    old = d.get(K, "absent")
    how, r = outcome(c.provide, k, v)
    S.oblige("returns", how == "return")
    d = c._provided
    if S.branch(tob(E.keyeq(K, k))):
        S.cover("same")
        S.oblige("key_is_provided", K in d and tov(d[K]) == v.zt__ if K in d else False)
    else:
        S.cover("other")
        S.oblige("frame_other_keys", tov(d.get(K, "absent")) == tov(old))


# ------------------------------------------------------------------ events
class Members:
    """The handlers of an event in the current version of the registrations."""
    def __init__(self, S, ev, ver=None):
        self.S, self.ev, self.ver = S, ev, ver

    def __call__(self, h):
        ver = self.S.notes["ver"] if self.ver is None else self.ver
        return mkb(uf(f"eh_{ver}", V, V, z3.BoolSort())(tov(self.ev), tov(h)))

    def frozen(self):
        return Members(self.S, self.ev, self.S.notes["ver"] if self.ver is None else self.ver)


def handlers(S):
    """_event_handlers in an arbitrary state; a called handler may change it (new version)."""
    S.notes["ver"] = 0

    def has(ev):
        return mkb(uf(f"ev_has_{S.notes['ver']}", V, z3.BoolSort())(tov(ev)))

    def members(ev):
        return SSet(base=Members(S, ev), name="handlers")
    d = SDict(base=mem_base(has, members), factory=E.b_set, name="event_handlers")
    # an event without entry has no handlers
    S.notes["live"] = d
    return d


def registered(S, ev, h, ver=0):
    return z3.And(uf(f"ev_has_{ver}", V, z3.BoolSort())(tov(ev)), uf(f"eh_{ver}", V, V, z3.BoolSort())(tov(ev), tov(h)))


def call_handler(S, o, *a, **k):
    S.event("call", o, a, k)
    S.notes["ver"] = S.notes.get("ver", 0) + 1      # the handler may register and remove handlers
    return S.sym("result")


HANDLER = Kind("handler", call=call_handler, truthy="uf", eq="is")


class EmitProj(E.DictProj):
    """The iterations before the one at H called arbitrary handlers: the registrations are arbitrary by then."""
    def plan(self, S, loop):
        p = super().plan(S, loop)
        S.notes["ver"] = S.notes.get("ver", 0) + 1
        return p


class EmitSpec(Spec):
    def dict_coll(self, view):
        return EmitProj(view)

    def tracked(self, S, d):
        return [S.notes["H"]]

    def other_key(self, S, d, keys):
        h = S.sym("h2", "handler")
        S.assume(h.zt__ != keys[0].zt__)
        return h

    def loop_frame(self, S, coll, must, val, muts):
        own = getattr(coll.view.d, "owner", coll.view.d)
        live = not hasattr(own, "snapshot_of") and coll.view.d.name == "handlers"
        for o, what, k, v in muts:
            if what == "event" and k[0] == "call":
                S.oblige("iterates_over_a_snapshot", not live, "the set that is iterated may be changed by the handlers it calls")
                S.oblige("one_call_per_iteration", sum(1 for m in muts if m[1] == "event" and m[2][0] == "call") <= 1)
                if must == "end":
                    S.cover("frame")
                    S.oblige("frame_other_handlers", tov(k[1]) != tov(S.notes["H"]), "an iteration calls another handler")
            elif what != "event":
                raise E.Unsupported("emit changes a container while it iterates")


def snapshot_list(S, it):
    if isinstance(it, (SSet, SDict)):
        n = it.copy()
        return n
    if isinstance(it, E.SView) and it.what == 0:
        return SSet.copy(it.d.owner) if hasattr(it.d, "owner") else it.d.copy()
    raise E.Unsupported("list()")


@unit(UNITS, "Component.emit", ["C09"], ["component.py:Component.emit"], spec=EmitSpec, hooks={"list": snapshot_list, "set": snapshot_list},
      covers=["called", "not registered", "frame"], assumes=ASSUME + ["handlers return normally", "iterating over a set visits each element exactly once"])
def emit(S):
    """for every H: exactly one call H(*args, **kwargs) if H was registered for the event when emit was called, else none; for every registration state and whatever the handlers do to it"""
    M, c = new_component(S)
    c._event_handlers = handlers(S)
    ev, H = S.sym("event", "key"), S.sym("H", "handler", notnone=True)
    S.notes["H"] = H
    x, y = S.sym("x"), S.sym("y")
    how, r = outcome(c.emit, ev, x, y, kw=x)
    S.oblige("returns", how == "return", f"raised {r!r}")
    calls = [e for e in S.trace if e[0] == "call" and S.branch(tov(e[1]) == H.zt__)]
    reg = registered(S, ev, H)
    S.oblige("calls_registered_once", z3.If(reg, z3.BoolVal(len(calls) == 1), z3.BoolVal(len(calls) == 0)), f"{len(calls)} calls")
    for e in calls:
        S.cover("called")
        ok = len(e[2]) == 2 and set(e[3]) == {"kw"}
        S.oblige("passes_arguments", z3.And(tov(e[2][0]) == x.zt__, tov(e[2][1]) == y.zt__, tov(e[3]["kw"]) == x.zt__) if ok else False, "other arguments")
    if not calls:
        S.cover("not registered")


def membership(d, ev, h):
    s = d.get(ev)
    return s is not None and h in s


@unit(UNITS, "Component.add_event_handler", ["C09", "C04"], ["component.py:Component.add_event_handler"], covers=["new", "frame"], assumes=ASSUME)
def add(S):
    """registered' = registered + (event, handler), nothing else changes"""
    M, c = new_component(S)
    d = c._event_handlers = handlers(S)
    ev, h, E2, H2 = S.sym("event", "key"), S.sym("h", "handler"), S.sym("E2", "key"), S.sym("H2", "handler")
    old = registered(S, E2, H2)
    how, r = outcome(c.add_event_handler, ev, h)
    S.oblige("returns", how == "return", f"raised {r!r}")
    now = membership(c._event_handlers, E2, H2)
    same = z3.And(tob(E.keyeq(E2, ev)), H2.zt__ == h.zt__)
    S.cover("new" if S.branch(same) else "frame")
    S.oblige("membership", z3.BoolVal(now) == z3.Or(old, same))


@unit(UNITS, "Component.remove_event_handler", ["C09", "C04"], ["component.py:Component.remove_event_handler"], covers=["removed", "frame"], assumes=ASSUME)
def remove(S):
    """requires (event, handler) registered; registered' = registered - (event, handler), nothing else changes"""
    M, c = new_component(S)
    d = c._event_handlers = handlers(S)
    ev, h, E2, H2 = S.sym("event", "key"), S.sym("h", "handler"), S.sym("E2", "key"), S.sym("H2", "handler")
    S.assume(registered(S, ev, h))
    old = registered(S, E2, H2)
    how, r = outcome(c.remove_event_handler, ev, h)
    S.oblige("returns", how == "return", f"raised {r!r}")
    now = membership(c._event_handlers, E2, H2)
    same = z3.And(tob(E.keyeq(E2, ev)), H2.zt__ == h.zt__)
    S.cover("removed" if S.branch(same) else "frame")
    S.oblige("membership", z3.BoolVal(now) == z3.And(old, z3.Not(same)))


# ------------------------------------------------------------------ template names
def attr_hooks():
    has = lambda S, o, n: mkb(uf("attr_has", V, z3.BoolSort())(tov(n)))

    def get(S, o, n, *d):
        if bool(has(S, o, n)):
            return SV(uf("attr_val", V, V)(tov(n)), "any")
        if d:
            return d[0]
        E.throw(AttributeError(n))
    return {"hasattr": has, "getattr": get}


@unit(UNITS, "Component._lookup", ["C15"], ["component.py:Component._lookup"], hooks=attr_hooks(), covers=["prop", "state", "attr", "global", "NameError"], assumes=ASSUME + ["hasattr(x, n) is True exactly when getattr(x, n) returns"])
def lookup(S):
    """prop, else state item, else attribute, else global, else NameError with the name; decided by the current contents of this instance only; nothing is stored"""
    M, c = new_component(S)
    props, state, ctx = sym_dict("props"), sym_dict("state"), sym_dict("globals")
    c._props, c._state = RO(props), Reactive(state)
    name = S.str("name")
    first = S.choose(2)
    if first:
        # an earlier lookup, in another state of the same instance, must not matter
        c._props, c._state = RO(sym_dict("props0")), Reactive(sym_dict("state0"))
        other = c.__class__.__new__(c.__class__)
        other._props, other._state = RO(sym_dict("props1")), Reactive(sym_dict("state1"))
        outcome(c._lookup, name, ctx)
        outcome(other._lookup, name, ctx)
        c._props, c._state = RO(props), Reactive(state)
    muts = []
    S.frames.append(lambda *a: muts.append(a))
    before = dict(vars(c))
    how, r = outcome(c._lookup, name, ctx)
    S.frames.pop()
    t = tov(name)
    P = lambda d: uf(f"has_{d}", V, z3.BoolSort())(t)
    W = lambda d: uf(f"val_{d}", V, V)(t)
    A, AV = uf("attr_has", V, z3.BoolSort())(t), uf("attr_val", V, V)(t)
    cases = [("prop", P("props"), W("props")), ("state", P("state"), W("state")), ("attr", A, AV), ("global", P("globals"), W("globals"))]
    for label, cond, val in cases:
        if S.branch(cond):
            S.cover(label)
            S.oblige(f"{label}_wins", tov(r) == val if how == "return" else False, f"{how} {r!r}")
            break
    else:
        S.cover("NameError")
        S.oblige("NameError", how == "raise" and isinstance(r, NameError), f"{how} {r!r}")
        if how == "raise":
            msg = r.args[0] if r.args else ""
            ok = z3.Contains(tos(msg), name.t) if isinstance(msg, (str, SStr)) else z3.BoolVal(False)
            S.oblige("NameError_carries_the_name", z3.Or(ok, z3.BoolVal(getattr(r, "name", None) is name)))
    S.oblige("frame_mappings_unchanged", not muts)


@unit(UNITS, "Component.render_slot", ["C11"], ["component.py:Component.render_slot"], hooks={"render_slot": lambda S, *a: (S.event("slot", *a), "RESULT")[1]}, assumes=ASSUME)
def slot(S):
    """self.render_slot(name, props) and self.s(name, props) are render_slot(name, props, the slots of this instance)"""
    M, c = new_component(S)
    c._slots = sym_dict("slots")
    n, p = S.str("name"), S.sym("props")
    for f in (c.render_slot, c.s):
        del S.trace[:]
        how, r = outcome(f, n, p)
        ok = how == "return" and r == "RESULT" and len(S.trace) == 1 and len(S.trace[0]) == 4
        S.oblige("delegates", ok)
        if ok:
            S.oblige("same_slots", S.trace[0][3] is c._slots)
            S.oblige("same_name", tov(S.trace[0][1]) == tov(n))
            S.oblige("same_props", tov(S.trace[0][2]) == p.zt__)

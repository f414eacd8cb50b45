"""collagraph.py: the tree of fibers and its commit (C01, C02, C06, C07, C10)."""
from base import *
import engine as E
from cgmod import *
UNITS = []
B = z3.BoolSort()
I = z3.IntSort()
TAG = Kind("tag", eq="is")
E.CONSTANTS.add("tag")
KEYK = Kind("tkey", truthy="uf", eq="is")


def ev(name):
    def f(S, o, *a):
        S.event(name, o, *a)
    return f


COMP = Kind("TComp", truthy="uf", eq="is", methods={n: ev(n) for n in ("before_unmount", "mounted", "updated")}, fields={"_element": "any", "_slots": "any"},
            props={"render": lambda S, o: SV(uf("render_of", V, V)(o.zt__), "any")})
TF = Kind("TFiber", truthy="always", eq="is",
          fields={n: "TFiber" for n in ("alternate", "child", "parent", "sibling")} | {n: "any" for n in ("dom", "props", "snapshot", "children", "props_snapshot")}
          | {n: "bool" for n in ("mounted", "updated", "unmounted", "move")} | {"component": "TComp", "effect_tag": "tag", "type": "tkey", "key": "tkey", "watcher": "TWatch"})


def F0(n, t):
    return uf(f"f_{n}_0", V, V)(t)


def flag(n, t):
    return V.bv(F0(n, t))


def setup(S, over=(), **attrs):
    models = attrs.pop("models", {})
    M = collagraph_module(**models)
    C = M.Collagraph
    cls = type("Collagraph", (C,), dict(over))
    gui = bare(cls, **{"renderer": Recorder(), "event_loop_type": M.EventLoopType.DEFAULT, **attrs})
    S.notes["gui"] = gui
    return M, C, gui


def contract(name, then=None):
    def f(self, *a, **k):
        S = E.S
        if k:
            k = dict(k)
        S.event(name, *a, *([("kw", k)] if k else []))
        return then(S, *a, **k) if then else None
    return f


def same(S, name, x, y):
    S.oblige(name, E.tov(x) == E.tov(y))


# ---------------------------------------------------------------- walks
def others(rule, vs, p):
    """Besides the walked fiber a loop may carry constants (None, False, ...) it does not change, nothing else."""
    rule.consts = {k: v for k, v in vs.items() if k != rule.var and (v is None or isinstance(v, (bool, int, str)))}
    return {k: p if k == rule.var else rule.consts[k] if k in rule.consts else E.Opaque(f"{k} carried around the walk") for k in vs}


def unchanged(rule, vs):
    for k, v in rule.consts.items():
        if vs.get(k) is not v:
            raise E.Unsupported(f"{k} changes in a walk")


class Walk:
    """A loop that follows fibers: the value of `fn` at the walked fiber stays that at the start."""
    def __init__(self, S, var, start, fn, unfold, name, extra=None):
        self.var, self.start, self.fn, self.unfold, self.name, self.extra = var, tov(start), fn, unfold, name, extra

    def havoc(self, S, vs):
        p = S.sym("p", vs[self.var].zk__.name)
        self.unfold(S, self.start)
        self.unfold(S, p.zt__)
        S.assume(self.fn(p.zt__) == self.fn(self.start))
        if self.extra:
            self.extra(S, p.zt__)
        return others(self, vs, p)

    def keep(self, S, vs):
        S.cover(self.name)
        unchanged(self, vs)
        self.unfold(S, tov(vs[self.var]))
        S.oblige(self.name, self.fn(tov(vs[self.var])) == self.fn(self.start))
        if self.extra:
            self.extra(S, tov(vs[self.var]), True)


def walked(vs):
    ps = [k for k, v in vs.items() if isinstance(v, SV) and v.zk__.name in ("TFiber", "UFiber")]
    return ps[0] if len(ps) == 1 else None


DOMUP = uf("dom_of_nearest", V, V)      # the dom of the nearest fiber, from this one upwards, that has one


def unfold_dom(S, t):
    S.assume(DOMUP(t) == z3.If(F0("dom", t) != NONE, F0("dom", t), DOMUP(F0("parent", t))))


def not_none(S, t, check=False):
    """The root has a dom, so a walk up to the nearest dom never leaves the tree."""
    if not check:
        S.assume(t != NONE)
        S.assume(z3.Implies(F0("dom", t) == NONE, F0("parent", t) != NONE))


class MoveChildren:
    """while child: child.move = True; child = child.sibling"""
    def __init__(self, var):
        self.var = var

    def havoc(self, S, vs):
        p = S.sym("c", "TFiber")
        self.p = p
        self.n = len(S.trace)
        self.writes = {k: len(v) for k, v in S.heap.items()}
        return {k: (p if k == self.var else E.Opaque(k)) for k in vs}

    def keep(self, S, vs):
        S.cover("moves children")
        S.oblige("children_of_a_moved_virtual_node_move", tob(self.p.move), "a child stays behind")
        S.oblige("every_child_of_a_moved_virtual_node_moves", tov(vs[self.var]) == F0("sibling", self.p.zt__))
        S.oblige("moving_a_virtual_node_draws_nothing", len(S.trace) == self.n)
        for k, v in S.heap.items():
            for to, _ in v[self.writes.get(k, 0):]:
                S.oblige("moving_a_virtual_node_changes_only_its_children", z3.And(k == "move", to == self.p.zt__))


class TSpec(Spec):
    def while_rule(self, S, where, vs, loc):
        rules = S.notes.get("rules") or []
        if not rules:
            return None
        return rules.pop(0)(S, vs, loc)

    def index(self, S, seq):
        return S.notes.get("I")

    def seq_frame(self, S, coll, must, val, muts):
        if any(m[1] != "event" for m in muts):
            raise E.Unsupported("effects in a projected loop")


def up_rule(S, vs, loc):
    v = walked(vs)
    return Walk(S, v, vs[v], DOMUP, unfold_dom, "walk_to_the_nearest_dom", not_none) if v else None


def move_rule(S, vs, loc):
    v = walked(vs)
    return MoveChildren(v) if v else None


class Work:
    def put(self, x, *a, **k):
        E.S.event("put", x)


@unit(UNITS, "commit_work", ["C01", "C02", "C06", "C07", "C03"], ["collagraph/collagraph.py:Collagraph.commit_work"], spec=TSpec, covers=["placement", "update", "move", "move virtual", "deletion", "nothing", "moves children", "walk_to_the_nearest_dom"],
      assumes=["the root fiber has a dom element (the container)"])
def commit_work(S):
    """for every fiber: a placement inserts its dom (if any) into the nearest dom upwards before its anchor, an update moves it only if it has to
    and updates its attributes or props exactly once from the previous to the current ones, a deletion deletes it; then its children and after
    them its siblings are next"""
    M, C, gui = setup(S, over={"find_anchor": contract("find_anchor", lambda S, f: SV(uf("anchor_of", V, V)(tov(f)))), "update_dom_or_component": contract("update"),
                               "commit_deletion": contract("delete")}, _work=Work())
    T = M.EffectTag
    f = S.obj("fiber", "TFiber") if S.choose(2) else None
    if f is None:
        S.cover("nothing")
        kind, r = outcome(C.commit_work, gui, None)
        S.oblige("nothing_to_commit_is_harmless", kind == "return" and not S.trace)
        return
    t = f.zt__
    S.assume(F0("parent", t) != NONE)
    tag = [T.PLACEMENT, T.UPDATE, T.DELETION][S.choose(3)]
    S.assume(F0("effect_tag", t) == tov(tag))
    alt = F0("alternate", t)
    if tag is T.UPDATE:
        S.assume(alt != NONE)
    S.notes["rules"] = [up_rule, move_rule]
    dom, comp, move = F0("dom", t), F0("component", t), flag("move", t)
    kind, r = outcome(C.commit_work, gui, f)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    unfold_dom(S, F0("parent", t))
    target = DOMUP(F0("parent", t))
    puts = [e[1] for e in S.trace if e[0] == "put"]
    S.oblige("siblings_and_before_them_children_are_next", len(puts) == 2)
    if len(puts) == 2:
        S.oblige("siblings_and_before_them_children_are_next", z3.And(tov(puts[0]) == F0("sibling", t), tov(puts[1]) == F0("child", t)))
    acts = [e for e in S.trace if e[0] in ("insert", "remove", "update", "delete")]
    names = [e[0] for e in acts]
    hasdom, hascomp = S.branch(dom != NONE), S.branch(comp != NONE)

    def insert(e):
        kw = e[3][1] if len(e) == 4 and isinstance(e[3], tuple) else {"anchor": e[3] if len(e) > 3 else None}
        S.oblige("inserted_into_the_nearest_dom", z3.And(tov(e[1]) == dom, tov(e[2]) == target))
        S.oblige("inserted_before_its_anchor", tov(kw.get("anchor")) == uf("anchor_of", V, V)(t))

    def update(e, dom_, prev, nxt):
        pos = list(e[1:])
        kw = pos.pop()[1] if isinstance(pos[-1], tuple) else {}
        args = dict(zip(("fiber", "dom", "prev_props", "next_props"), pos)) | kw
        S.oblige("update_of_this_fiber", z3.And(tov(args["fiber"]) == t, tov(args["dom"]) == dom_))
        p = args["prev_props"]
        S.oblige("update_from_the_previous_props", prev is None and isinstance(p, SDict) and not p.entries and p.base is None if prev is None or isinstance(p, SDict) else tov(p) == prev)
        S.oblige("update_to_the_current_props", tov(args["next_props"]) == nxt)
    if tag is T.PLACEMENT:
        S.cover("placement")
        want = (["update"] if hascomp else []) + (["insert"] if hasdom else [])
        S.oblige("a_placement_inserts_once", names == want, str(names))
        for e in acts:
            if e[0] == "insert":
                insert(e)
            elif e[0] == "update":
                update(e, NONE, None, F0("props", t))
        S.oblige("a_new_component_will_be_mounted", tob(f.mounted) if hascomp else True)
    elif tag is T.UPDATE:
        S.cover("update")
        moves = S.branch(move)
        want = (["remove", "insert"] if moves and hasdom else []) + ["update"]
        S.oblige("an_update_moves_only_if_it_has_to", names == want, str(names))
        for e in acts:
            if e[0] == "insert":
                S.cover("move")
                insert(e)
            elif e[0] == "remove":
                S.oblige("moved_within_its_parent", z3.And(tov(e[1]) == dom, tov(e[2]) == target))
            elif e[0] == "update":
                update(e, dom, F0("props_snapshot", alt), F0("props_snapshot", t))
        if moves and not hasdom:
            S.cover("move virtual")
        S.oblige("an_update_does_not_mount", tob(f.mounted) == flag("mounted", t))
    else:
        S.cover("deletion")
        S.oblige("a_deletion_deletes_once", names == ["delete"], str(names))
        for e in acts:
            if e[0] == "delete":
                S.oblige("deleted_from_the_nearest_dom", z3.And(tov(e[1]) == t, tov(e[2]) == target))


# ---------------------------------------------------------------- the anchor
AFTER = uf("first_in_place_after", V, V)
CAND = uf("first_in_place_from", V, V)


def inplace(S, t):
    return z3.And(F0("effect_tag", t) == tov(S.notes["UPDATE"]), z3.Not(flag("move", t)))


def unfold_after(S, t):
    par, sib, ch = F0("parent", t), F0("sibling", t), F0("child", t)
    S.assume(AFTER(t) == z3.If(sib != NONE, CAND(sib), z3.If(F0("dom", par) != NONE, NONE, AFTER(par))))
    S.assume(CAND(t) == z3.If(F0("dom", t) != NONE, z3.If(inplace(S, t), F0("dom", t), AFTER(t)), z3.If(z3.And(ch != NONE, inplace(S, t)), CAND(ch), AFTER(t))))
    S.assume(z3.And(z3.Implies(t != NONE, z3.And(V.is_b(F0("move", t)))), z3.Implies(z3.And(t != NONE, sib == NONE), par != NONE)))


def inside(S, t, check=False):
    if not check:
        S.assume(t != NONE)
        S.assume(z3.Implies(F0("sibling", t) == NONE, F0("parent", t) != NONE))


class AnchorRule:
    """Any of the (nested) loops of find_anchor: what follows the walked fiber in place is what follows the given one; where the loop walks
    candidates (their dom is looked at), it is the first candidate from the walked one on."""
    def __init__(self, S, var, start, cand):
        self.var, self.cand, self.start = var, cand, tov(start)

    def rel(self, t):
        return z3.Or(AFTER(t) == self.goal, CAND(t) == self.goal) if self.cand else AFTER(t) == self.goal

    def havoc(self, S, vs):
        self.goal = AFTER(S.notes["start"])
        unfold_after(S, self.start)
        S.oblige("anchor_walk_begins_right", self.rel_exact(self.start))
        p = S.sym("p", "TFiber")
        unfold_after(S, p.zt__)
        for x in (F0("sibling", p.zt__), F0("child", p.zt__), F0("parent", p.zt__)):
            unfold_after(S, x)
        inside(S, p.zt__)
        S.assume(self.rel_exact(p.zt__))
        return {k: (p if k == self.var else E.Opaque(k)) for k in vs}

    def rel_exact(self, t):
        return CAND(t) == self.goal if self.cand else AFTER(t) == self.goal

    def keep(self, S, vs):
        S.cover("anchor walk")
        t = tov(vs[self.var])
        unfold_after(S, t)
        S.oblige("anchor_walk", self.rel_exact(t), "an element that is in place is skipped, or one that isn't is taken")


def anchor_rule(S, vs, loc):
    v = walked(vs)
    if v is None:
        return None
    n = S.notes["loops"] = S.notes.get("loops", 0) + 1
    # a loop that is entered knowing only CAND (after the step to a sibling) walks candidates
    t = tov(vs[v])
    unfold_after(S, t)
    goal = AFTER(S.notes["start"])
    return AnchorRule(S, v, vs[v], S.check(AFTER(t) != goal) != z3.unsat)


@unit(UNITS, "find_anchor", ["C01"], ["collagraph/collagraph.py:Collagraph.find_anchor"], spec=TSpec, covers=["none", "found", "anchor walk"], limit=60,
      assumes=["every fiber but the root has a parent, and the root has a dom element"])
def find_anchor(S):
    """the anchor is the dom of the first fiber in document order behind the given one, below the same dom parent, that is in its place (kept and
    not moving); fibers without dom are represented by their children, except when they are new or moving; None if there is none"""
    M, C, gui = setup(S)
    S.notes["UPDATE"] = M.EffectTag.UPDATE
    f = S.obj("fiber", "TFiber")
    t = S.notes["start"] = f.zt__
    inside(S, t)
    unfold_after(S, t)
    for x in (F0("sibling", t), F0("parent", t)):
        unfold_after(S, x)
    S.notes["rules"] = [anchor_rule] * 8
    kind, r = outcome(C.find_anchor, gui, f)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.oblige("first_in_place", tov(r) == AFTER(t))
    S.cover("none" if r is None else "found")


# ---------------------------------------------------------------- the first element
FD, FDC = uf("first_dom", V, V), uf("first_dom_among", V, V)


def unfold_fd(S, t):
    S.assume(FD(t) == z3.If(F0("dom", t) != NONE, F0("dom", t), FDC(F0("child", t))))
    S.assume(FDC(t) == z3.If(t == NONE, NONE, z3.If(FD(t) != NONE, FD(t), FDC(F0("sibling", t)))))


@unit(UNITS, "first_dom", ["C07", "C01"], ["collagraph/collagraph.py:Collagraph.first_dom"], spec=TSpec, covers=["own", "children", "first_dom_walk"])
def first_dom(S):
    """the first dom element of a fiber, in document order, or None"""
    M, C, gui = setup(S, over={"first_dom": lambda self, f: SV(FD(tov(f)))})
    f = S.obj("fiber", "TFiber")

    def rule(S, vs, loc):
        v = walked(vs)
        return Walk(S, v, vs[v], FDC, unfold_fd, "first_dom_walk") if v else None
    S.notes["rules"] = [rule]
    unfold_fd(S, f.zt__)
    unfold_fd(S, F0("child", f.zt__))
    kind, r = outcome(C.first_dom, gui, f)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.cover("own" if S.branch(F0("dom", f.zt__) != NONE) else "children")
    S.oblige("first_in_document_order", tov(r) == FD(f.zt__))


# ---------------------------------------------------------------- deletion
class DeleteChildren:
    def __init__(self, var, start):
        self.var, self.start = var, start

    def havoc(self, S, vs):
        S.oblige("deletion_begins_at_the_first_child", tov(self.start) == S.notes["first child"])
        p = S.sym("c", "TFiber")
        S.assume(p.zt__ != S.notes["deleted"])
        self.p, self.sib, self.n = p, F0("sibling", p.zt__), len(S.trace)
        S.assume(self.sib != S.notes["deleted"])
        return {k: (p if k == self.var else E.Opaque(k)) for k in vs}

    def keep(self, S, vs):
        S.cover("children")
        es = S.trace[self.n:]
        S.oblige("each_child_is_deleted_once", len(es) == 1 and es[0][0] == "delete", str([e[0] for e in es]))
        if len(es) == 1:
            S.oblige("each_child_is_deleted_once", z3.And(tov(es[0][1]) == self.p.zt__, tov(es[0][2]) == S.notes["dom_parent"]))
        S.oblige("every_child_is_deleted", tov(vs[self.var]) == self.sib, "the chain of siblings is lost")


def cleared(S, f, parent, *a):
    for n in ("child", "sibling", "dom"):
        S.setattr(f, n, None)


def rec(S, name, a, k):
    S.event("hooks below", *a)


@unit(UNITS, "commit_deletion", ["C01", "C02", "C06"], ["collagraph/collagraph.py:Collagraph.commit_deletion"], spec=TSpec, hooks={"rec": rec}, covers=["dom", "children", "component", "already unmounted", "component below"], limit=60)
def commit_deletion(S):
    """before_unmount is called once for the component itself and for every one below (parents before children, not again if it was already),
    all before any element is removed; the fiber's element is removed from its dom parent once, or, without one, every child is deleted"""
    M, C, gui = setup(S, over={"commit_deletion": contract("delete", cleared)})
    f, parent = S.obj("fiber", "TFiber"), S.obj("parent_dom", "any")
    t = f.zt__
    dom, comp, un, child = F0("dom", t), F0("component", t), flag("unmounted", t), F0("child", t)
    S.notes.update({"first child": child, "deleted": t, "dom_parent": parent.zt__})
    S.assume(child != t)
    ccomp, cun = F0("component", child), flag("unmounted", child)
    S.assume(z3.Implies(z3.And(comp != NONE, ccomp != NONE), comp != ccomp))

    def rule(S, vs, loc):
        v = walked(vs)
        return DeleteChildren(v, vs[v]) if v else None
    S.notes["rules"] = [rule]
    kind, r = outcome(C.commit_deletion, gui, f, parent)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    names = [e[0] for e in S.trace]
    hooks = [e for e in S.trace if e[0] == "before_unmount"]
    own = S.branch(z3.And(comp != NONE, z3.Not(un)))
    below = S.branch(z3.And(child != NONE, ccomp != NONE, z3.Not(cun)))
    if own:
        S.cover("component")
    elif S.branch(comp != NONE):
        S.cover("already unmounted")
    if below:
        S.cover("component below")
    want = ([comp] if own else []) + ([ccomp] if below else [])
    S.oblige("before_unmount_is_called_once_where_due", len(hooks) == len(want), str(names))
    for h, w in zip(hooks, want):
        S.oblige("before_unmount_is_called_once_where_due", tov(h[1]) == w)
    S.oblige("it_is_remembered", z3.Implies(comp != NONE, tob(f.unmounted)))
    deeper = [tov(e[1]) for e in S.trace if e[0] == "hooks below"]
    if S.branch(child != NONE):
        S.oblige("hooks_of_all_below_are_due", len(deeper) == 2)
        if len(deeper) == 2:
            S.oblige("hooks_of_all_below_are_due", z3.And(deeper[0] == F0("child", child), deeper[1] == F0("sibling", child)))
    first = next((q for q, n in enumerate(names) if n in ("remove", "delete")), len(names))
    S.oblige("hooks_come_before_any_removal", not any(n in ("before_unmount", "hooks below") for n in names[first:]))
    removes = [e for e in S.trace if e[0] == "remove"]
    if S.branch(dom != NONE):
        S.cover("dom")
        S.oblige("its_element_is_removed_once", len(removes) == 1 and "delete" not in names)
        if removes:
            S.oblige("its_element_is_removed_once", z3.And(tov(removes[0][1]) == dom, tov(removes[0][2]) == parent.zt__))
        S.oblige("its_element_is_forgotten", tov(f.dom) == NONE)
    else:
        S.oblige("nothing_to_remove_itself", not removes)
    S.oblige("links_are_cleared", z3.And(tov(f.child) == NONE, tov(f.sibling) == NONE))


# ---------------------------------------------------------------- commit of the whole tree
class Stack:
    """queue.LifoQueue: what is on it is arbitrary while the loop runs, except for what was put since."""
    def __init__(self):
        self.items, self.unknown = [], False

    def put(self, x, *a, **k):
        self.items.append(x)

    def empty(self):
        if self.items:
            return False
        return E.S.branch(E.S.fresh("empty", B)) if self.unknown else True

    def get(self, *a, **k):
        if self.items:
            return self.items.pop()
        if not self.unknown:
            raise E.Unsupported("get from an empty queue blocks")
        return E.S.sym("work", "TFiber")

    put_nowait, get_nowait = put, get

    def qsize(self):
        raise E.Unsupported("qsize")


class Fifo(Stack):
    """queue.SimpleQueue with one item at a time: a fiber (or None) and the direction."""
    def get(self, *a, **k):
        if self.items:
            return self.items.pop(0)
        if not self.unknown:
            raise E.Unsupported("get from an empty queue blocks")
        return self.item()

    def item(self):
        S = E.S
        self.unknown = False
        S.notes["hooked"] = (S.sym("f", "TFiber"), S.bool("down"))
        return S.notes["hooked"]


class WorkRule:
    """while there is work: exactly the next item of it is committed"""
    def havoc(self, S, vs):
        gui = S.notes["gui"]
        S.oblige("the_walk_begins_at_the_first_child_of_the_root", len(gui._work.items) == 1 and tov(gui._work.items[0]) == S.notes["wip child"] if len(gui._work.items) == 1 else False)
        S.notes["phase"] = "walk"
        gui._work.items, gui._work.unknown = [], True
        self.n = len(S.trace)
        return {k: E.Opaque(k) for k in vs}

    def keep(self, S, vs):
        S.cover("walk")
        es = S.trace[self.n:]
        S.oblige("each_item_of_work_is_committed_once", len(es) == 1 and es[0][0] == "commit", str([e[0] for e in es]))
        S.oblige("the_walk_adds_nothing_itself", not S.notes["gui"]._work.items)


class HookRule:
    """while fibers are walked for their hooks: an arbitrary fiber, on the way down or up"""
    def __init__(self, var):
        self.var = var

    def havoc(self, S, vs):
        q = S.notes["queue"]
        S.oblige("the_hooks_walk_begins_at_the_root", len(q.items) == 1 and q.items[0][0] is S.notes["wip"] and q.items[0][1] is True)
        q.items, q.unknown = [], True
        self.n = len(S.trace)
        self.heap = {k: len(v) for k, v in S.heap.items()}
        return {k: E.Opaque(k) for k in vs}

    def keep(self, S, vs):
        q = S.notes["queue"]
        f, down = S.notes["hooked"]
        t = f.zt__
        es = [(e[0], tov(e[1])) for e in S.trace[self.n:]]
        comp, mounted, updated, child, sib, par = F0("component", t), flag("mounted", t), flag("updated", t), F0("child", t), F0("sibling", t), F0("parent", t)
        if S.branch(t == NONE):
            S.cover("beyond the root")
            S.oblige("the_walk_ends_beyond_the_root", not q.items and not es)
            return
        S.oblige("one_step_at_a_time", len(q.items) == 1, str(len(q.items)))
        nf, nd = q.items[0] if len(q.items) == 1 else (None, True)
        if S.branch(z3.And(tob(down), child != NONE)):
            S.cover("down")
            S.oblige("children_come_first", z3.And(tov(nf) == child, tob(nd)) if not es else False)
            return
        if S.branch(sib != NONE):
            S.oblige("then_the_next_sibling", z3.And(tov(nf) == sib, tob(nd)))
        else:
            S.oblige("then_back_up", z3.And(tov(nf) == par, z3.Not(tob(nd))))
        hascomp = S.branch(comp != NONE)
        m, u = S.branch(mounted), S.branch(updated)
        want = [("mounted", comp)] if m and hascomp else [("updated", comp)] if u and not m and hascomp else []
        S.cover("mounted" if m and hascomp else "updated" if want else "no hook")
        S.oblige("exactly_the_hook_that_is_due", len(es) == len(want) and all(a[0] == b[0] for a, b in zip(es, want)), str([e[0] for e in es]))
        for a, b in zip(es, want):
            S.oblige("exactly_the_hook_that_is_due", a[1] == b[1])
        S.oblige("hooks_are_not_due_again", z3.And(z3.Not(tob(f.mounted)), z3.Or(z3.Not(tob(f.updated)))))
        if hascomp:
            S.oblige("the_component_knows_its_element", tov(SV(comp, "TComp")._element) == FD(t))


def hook_elements(S, o, what, k, v):
    pass


@unit(UNITS, "commit_root", ["C01", "C06", "C07", "C10", "C03"], ["collagraph/collagraph.py:Collagraph.commit_root"], spec=TSpec, limit=60,
      covers=["walk", "down", "mounted", "updated", "no hook", "beyond the root", "end", "deletion"],
      assumes=["queue.LifoQueue / SimpleQueue: last in first out / first in first out"])
def commit_root(S):
    """first every deletion is committed, then every fiber of the new tree (in the order in which commit_work asks for them), then, children
    before parents and siblings in order, mounted (once, if new) or updated (once, if something changed) is called, with the component's element
    up to date; only then does the new tree become the current one"""
    first, second = Stack(), Fifo()
    M, C, gui = setup(S, over={"commit_work": contract("commit"), "first_dom": lambda self, f: SV(FD(tov(f)))}, models={"SimpleQueue": lambda: second, "LifoQueue": lambda *a: first})
    wip = S.obj("wip", "TFiber")
    n = S.fresh("n_deletions", I)
    S.assume(n >= 0)
    S.notes["I"] = i = S.fresh("I", I)
    dels = SeqView(n, lambda t: SV(uf("deletion", I, V)(t), "TFiber"), name="deletions", kind="list")
    old = S.obj("old", "TFiber")
    gui._deletions, gui._wip_root, gui._work, gui._current_root = dels, wip, first, old
    S.notes.update({"wip child": F0("child", wip.zt__), "wip": wip, "queue": second})
    S.notes["rules"] = [lambda S, vs, loc: WorkRule(), lambda S, vs, loc: HookRule(walked(vs))]
    kind, r = outcome(C.commit_root, gui)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    S.cover("end")
    S.oblige("the_new_tree_becomes_the_current_one", gui._current_root is wip and gui._wip_root is None)
    S.oblige("no_deletion_is_left", type(gui._deletions) is list and not gui._deletions or gui._deletions is None)
    es = S.trace
    if S.branch(z3.And(i >= 0, i < n)):
        S.cover("deletion")
        S.oblige("every_deletion_is_committed_once_before_the_rest", len(es) == 1 and es[0][0] == "commit", str([e[0] for e in es]))
        if len(es) == 1:
            S.oblige("every_deletion_is_committed_once_before_the_rest", tov(es[0][1]) == uf("deletion", I, V)(i))
    S.oblige("no_work_is_left", S.notes.get("phase") == "walk" and not gui._work.items)


# ---------------------------------------------------------------- how the fibers get their children
COMPUP = uf("component_of_nearest", V, V)       # the component of the nearest fiber, from this one upwards, that has one
RENDERED = uf("rendered", V, V)
ISDICT = uf("is_dict", V, B)


def unfold_comp(S, t):
    S.assume(COMPUP(t) == z3.If(t == NONE, NONE, z3.If(F0("component", t) != NONE, F0("component", t), COMPUP(F0("parent", t)))))


def comp_rule(S, vs, loc):
    v = walked(vs)
    return Walk(S, v, vs[v], COMPUP, unfold_comp, "walk_to_the_nearest_component") if v else None


def do_render(S, o):
    S.event("render", o, S.getattr(o, "_slots"))
    S.oblige("rendered_with_its_slots", S.notes["slots ok"](o), "a component is rendered with other slots")
    return SV(RENDERED(o.zt__), "any")


UCOMP = Kind("UComp", truthy="uf", eq="is", fields={"_slots": "any", "_element": "any"}, methods={"render": do_render})


def make(S, ty, *a, **k):
    S.event("make", ty, a, k)
    n = len([e for e in S.trace if e[0] == "make"])
    return SV(uf(f"made_{n}", V, V)(ty.zt__), "UComp") if S.notes.get("class") else SV(uf(f"called_{len(a)}", V, V, V)(ty.zt__, tov(a[0])), "any")


UTYPE = Kind("utype", truthy="always", eq="is", call=make)


def evaluate(S, o):
    """The watched expression of an existing watcher is the render method of the same component (contract of the creation)."""
    S.event("evaluate", o)
    S.notes["slots ok"] and S.oblige("rendered_with_its_slots", S.notes["slots ok"](S.notes["component"]))
    S.heap.setdefault("value", []).append((o.zt__, SV(uf("new_value", V, V)(o.zt__))))


UWATCH = Kind("UWatch", truthy="always", eq="is", fields={"value": "any", "dirty": "bool"}, methods={"evaluate": evaluate})
UPROPS = Kind("UProps", truthy="uf", eq="is", methods={n: (lambda n: lambda S, o: S.event("keys", o))(n) for n in ("keys", "items", "__iter__", "__len__")})
UF = Kind("UFiber", truthy="always", eq="is", fields={**TF.fields, **{n: "UFiber" for n in ("alternate", "child", "parent", "sibling")}, "component": "UComp", "watcher": "UWatch", "type": "utype", "props": "UProps"})


def watchers(S, M):
    """NotifyChangeWatcher by its contract: evaluates the watched expression, reports changes to the callback."""
    made = []

    class W:
        def __init__(self, fn, sync=False, lazy=True, deep=False, callback=None, **k):
            self.fn, self.callback, self.value = fn, callback, None
            S.event("watch", self)
            if not lazy:
                self.evaluate()
            made.append(self)

        def evaluate(self):
            self.value = self.fn()
    M.NotifyChangeWatcher = W
    return made


def reports(S, gui, w, f):
    """The callback of a watcher marks the tree as out of date."""
    n = len(S.trace)
    kind, r = outcome(w.callback)
    es = S.trace[n:]
    del S.trace[n:]
    S.oblige("a_change_is_reported", kind == "return" and len(es) == 1 and es[0][0] == "state_updated", repr(r))


UC = dict(spec=TSpec, hooks={"isinstance": lambda S, x, k: S.branch(ISDICT(tov(x))) if k in (dict, E.b_dict) else S.hook("isinstance of", x, k), "to_raw": lambda S, x: x},
          assumes=["observ.Watcher evaluates the watched expression (not lazy) and calls the callback for every change of what was read"])
UOVER = {"reconcile_children": contract("reconcile"), "state_updated": contract("state_updated")}


def reconciled(S, f, check):
    es = [e for e in S.trace if e[0] == "reconcile"]
    S.oblige("children_are_reconciled_once", len(es) == 1, str([e[0] for e in S.trace]))
    if len(es) == 1:
        S.oblige("children_of_this_fiber", tov(es[0][1]) == f.zt__)
        els = es[0][2]
        check(els)
        S.oblige("reconciled_when_all_is_known", S.trace[-1] is es[0])


@unit(UNITS, "update_class_component", ["C04", "C06", "C01", "C02", "C07", "C08", "C10", "C11"], ["collagraph/collagraph.py:Collagraph.update_class_component"], covers=["new", "kept", "own", "walk_to_the_nearest_component", "slots", "no slots", "old watcher", "new watcher"], **UC)
def update_class_component(S):
    """a component is instantiated exactly once per occurrence, with its props and the nearest component upwards as parent, and handed from tree to
    tree together with its watcher; it renders with the slots of its current element; what it rendered becomes the only child"""
    M, C, gui = setup(S, over=UOVER)
    made = watchers(S, M)
    S.notes["class"] = True
    f = S.obj("fiber", "UFiber")
    t = f.zt__
    alt = F0("alternate", t)
    S.assume(alt != t)
    S.assume(F0("watcher", t) == NONE)          # contract of reconcile_children
    own, before, par = F0("component", t), F0("component", alt), F0("parent", t)
    hasalt = S.branch(alt != NONE)
    S.assume(z3.Implies(own != NONE, before == NONE) if hasalt else True)
    isdict, ch = ISDICT(F0("children", t)), F0("children", t)
    unfold_comp(S, par)
    S.notes["rules"] = [comp_rule]
    exp = S.choose(3)
    if exp == 0:                     # the instance is on the fiber already
        S.assume(own != NONE)
        c = own
        S.cover("own")
    elif exp == 1:
        S.assume(z3.And(own == NONE, before != NONE)) if hasalt else S.assume(False)
        c = before
        S.cover("kept")
    else:
        S.assume(z3.And(own == NONE, before == NONE) if hasalt else own == NONE)
        c = uf("made_1", V, V)(F0("type", t))
        S.assume(c != NONE)
        S.cover("new")
    comp = SV(c, "UComp")
    S.notes["component"] = comp

    def slots_ok(o):
        s = o._slots
        if S.branch(isdict):
            S.cover("slots")
            return z3.And(o.zt__ == c, tov(s) == ch) if not isinstance(s, SDict) else False
        S.cover("no slots")
        return z3.And(o.zt__ == c, isinstance(s, SDict) and not s.entries and s.base is None)
    S.notes["slots ok"] = slots_ok
    kind, r = outcome(C.update_class_component, gui, f)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    makes = [e for e in S.trace if e[0] == "make"]
    S.oblige("instantiated_only_if_new", len(makes) == (1 if exp == 2 else 0))
    for e in makes:
        kw = dict(zip(("props", "parent"), e[2])) | e[3]
        S.oblige("instantiated_with_its_props", tov(kw.get("props")) == F0("props", t))
        S.oblige("the_parent_is_the_nearest_component_upwards", tov(kw.get("parent")) == COMPUP(par))
        S.oblige("instance_of_its_type", tov(e[1]) == F0("type", t))
    S.oblige("the_fiber_has_its_component", tov(f.component) == c)
    oldw = F0("watcher", alt)
    if hasalt:
        a = SV(alt, "UFiber")
        S.oblige("the_old_fiber_hands_over", z3.And(tov(a.component) == NONE, tov(a.watcher) == NONE))
    evs = [e for e in S.trace if e[0] in ("evaluate", "render")]
    S.oblige("rendered_once", len(evs) == 1, str([e[0] for e in S.trace]))
    if hasalt and S.branch(oldw != NONE):
        S.cover("old watcher")
        S.oblige("the_watcher_is_kept", z3.And(tov(f.watcher) == oldw, not made))
        value = uf("new_value", V, V)(oldw)
    else:
        S.cover("new watcher")
        S.oblige("one_watcher_is_made", len(made) == 1 and E.is_(f.watcher, made[0]) is True)
        if len(made) != 1:
            return
        reports(S, gui, made[0], f)
        value = RENDERED(c)

    def check(els):
        S.oblige("what_was_rendered_is_the_only_child", len(els) == 1 and tov(els[0]) == value)
    reconciled(S, f, check)


@unit(UNITS, "update_function_component", ["C04", "C01", "C02", "C10", "C11"], ["collagraph/collagraph.py:Collagraph.update_function_component"], covers=["slots", "no slots"], **UC)
def update_function_component(S):
    """a function component is called exactly once, with its current props (and slots, if any); what it rendered becomes the only child"""
    M, C, gui = setup(S, over=UOVER)
    made = watchers(S, M)
    f = S.obj("fiber", "UFiber")
    t = f.zt__
    alt = F0("alternate", t)
    S.assume(alt != t)
    S.assume(F0("watcher", t) == NONE)
    kind, r = outcome(C.update_function_component, gui, f)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    isdict, ch = S.branch(ISDICT(F0("children", t))), F0("children", t)
    S.cover("slots" if isdict else "no slots")
    makes = [e for e in S.trace if e[0] == "make"]
    S.oblige("called_once", len(makes) == 1)
    for e in makes:
        S.oblige("called_with_its_props_and_slots", len(e[2]) == (2 if isdict else 1) and not e[3])
        S.oblige("called_with_its_props_and_slots", z3.And(tov(e[1]) == F0("type", t), tov(e[2][0]) == F0("props", t), *([tov(e[2][1]) == ch] if isdict and len(e[2]) == 2 else [])))
    S.oblige("one_watcher_is_made", len(made) == 1 and E.is_(f.watcher, made[0]) is True)
    if len(made) == 1:
        reports(S, gui, made[0], f)
    if S.branch(alt != NONE):
        S.oblige("the_old_fiber_is_not_watched", tov(SV(alt, "UFiber").watcher) == NONE)

    def check(els):
        S.oblige("what_was_rendered_is_the_only_child", len(els) == 1 and tov(els[0]) == uf(f"called_{2 if isdict else 1}", V, V, V)(F0("type", t), F0("props", t)))
    reconciled(S, f, check)


@unit(UNITS, "update_host_component", ["C01", "C02", "C10"], ["collagraph/collagraph.py:Collagraph.update_host_component"], covers=["created", "kept", "virtual"], **UC)
def update_host_component(S):
    """an element is created exactly once per occurrence (never for template and slot), its children are reconciled with those of the description"""
    M, C, gui = setup(S, over={**UOVER, "create_dom": contract("create_dom", lambda S, f: SV(uf("dom_made", V, V)(tov(f))))})
    made = watchers(S, M)
    f = S.obj("fiber", "UFiber")
    t = f.zt__
    S.assume(F0("props", t) != NONE)
    alt, dom = F0("alternate", t), F0("dom", t)
    S.assume(alt != t)
    S.assume(F0("watcher", t) == NONE)
    virtual = z3.Or(F0("type", t) == tov("template"), F0("type", t) == tov("slot"))
    kind, r = outcome(C.update_host_component, gui, f)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    makes = [e for e in S.trace if e[0] == "create_dom"]
    if S.branch(z3.And(dom == NONE, z3.Not(virtual))):
        S.cover("created")
        S.oblige("created_once", len(makes) == 1)
        S.oblige("created_once", z3.And(*[tov(e[1]) == t for e in makes], tov(f.dom) == uf("dom_made", V, V)(t)))
    else:
        S.cover("virtual" if S.branch(virtual) else "kept")
        S.oblige("not_created_again", z3.And(not makes, tov(f.dom) == dom))
    S.oblige("the_keys_of_its_props_are_watched", len(made) == 1 and any(e[0] == "keys" and S.check(tov(e[1]) != F0("props", t)) == z3.unsat for e in S.trace))
    S.oblige("one_watcher_is_made", len(made) == 1 and E.is_(f.watcher, made[0]) is True)
    if len(made) == 1:
        reports(S, gui, made[0], f)
    if S.branch(alt != NONE):
        S.oblige("the_old_fiber_is_not_watched", tov(SV(alt, "UFiber").watcher) == NONE)
    reconciled(S, f, lambda els: S.oblige("the_described_children", tov(els) == F0("children", t)))


@unit(UNITS, "create_dom", ["C01", "C03", "C04", "C10"], ["collagraph/collagraph.py:Collagraph.create_dom"], covers=["text", "element"], **UC)
def create_dom(S):
    """a text element or an element of the type of the fiber, with all of its attributes and listeners"""
    class R(Recorder):
        def create_text_element(self):
            S.event("text")
            return SV(z3.Const("new_text", V))

        def create_element(self, ty):
            S.event("element", ty)
            return SV(z3.Const("new_element", V))
    M, C, gui = setup(S, over={"update_dom_or_component": contract("update")}, renderer=R())
    f = S.obj("fiber", "UFiber")
    t = f.zt__
    kind, r = outcome(C.create_dom, gui, f)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    text = S.branch(F0("type", t) == tov("TEXT_ELEMENT"))
    S.cover("text" if text else "element")
    dom = z3.Const("new_text" if text else "new_element", V)
    makes = [e for e in S.trace if e[0] in ("text", "element")]
    S.oblige("one_element_of_its_type", len(makes) == 1 and makes[0][0] == ("text" if text else "element") and (text or S.check(tov(makes[0][1]) != F0("type", t)) == z3.unsat))
    S.oblige("the_new_element", tov(r) == dom)
    ups = [e for e in S.trace if e[0] == "update"]
    S.oblige("with_all_its_attributes", len(ups) == 1)
    for e in ups:
        pos = list(e[1:])
        kw = pos.pop()[1] if isinstance(pos[-1], tuple) else {}
        args = dict(zip(("fiber", "dom", "prev_props", "next_props"), pos)) | kw
        p = args["prev_props"]
        S.oblige("with_all_its_attributes", z3.And(tov(args["fiber"]) == t, tov(args["dom"]) == dom, isinstance(p, SDict) and not p.entries and p.base is None, tov(args["next_props"]) == F0("props", t)))

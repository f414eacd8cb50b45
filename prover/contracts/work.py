"""collagraph.py: the scheduler (C10) and the traversal of the work (C10, C01).

Ghost state: `pending` counts the work loops the event loop still has to run; `changed` says that state was changed
after the preparation of the tree in progress (or on display) began.  The environment may change state inside every
unit of work, while the tree is updated, in hooks and in the render callback.

J (between slices):  no tree in preparation  =>  nothing pending, no next unit, nothing changed
                     a tree in preparation   =>  exactly one work loop pending, a next unit exists, and
                                                 changed => (dirty or the preparation has not begun)"""
from base import *
import engine as E
from cgmod import *
UNITS = []
WF = Kind("WFiber", fields={n: "WFiber" for n in ("alternate", "child", "parent", "sibling")} | {n: "any" for n in ("dom", "props", "children", "type", "effect_tag", "watcher", "component", "key", "snapshot", "props_snapshot")}
          | {n: "bool" for n in ("mounted", "updated", "unmounted", "move")}, truthy="always", eq="is")


class Ghost:
    def __init__(self):
        self.pending, self.changed, self.performed, self.committed = 0, False, False, 0


def g_not(x):
    return z3.Not(tob(x))


def setup(S, sync, kinds=()):
    """A Collagraph instance whose units of work, tree update and (nested) work loops are given by their contracts."""
    now = lambda: SI(S.fresh("now", z3.IntSort()))
    gh = Ghost()
    S.notes["gh"] = gh
    clock = ns(perf_counter_ns=now, perf_counter=now, monotonic_ns=now)
    holder = {}

    def soon(f, *a):
        gui = holder["gui"]
        if getattr(f, "__func__", None) is None or getattr(f, "__self__", None) is not gui or f.__name__ != "work_loop":
            raise E.Unsupported("something else than the work loop is scheduled")
        S.oblige("a_work_loop_gets_a_deadline", len(a) == 1 and a[0] is not None)
        gh.pending += 1
    loop = ns(call_soon=soon, call_soon_threadsafe=soon)
    asyncio = ns(get_event_loop_policy=lambda: ns(get_event_loop=lambda: loop), get_event_loop=lambda: loop, get_running_loop=lambda: loop)
    M = collagraph_module(imports={"time": clock, "asyncio": asyncio})
    ET = M.EventLoopType
    C = M.Collagraph

    def perform_unit_of_work(self, fiber):
        S.oblige("units_of_work_only_while_a_tree_is_prepared", self._wip_root is not None)
        S.oblige("a_unit_of_work_has_a_fiber", fiber is not None)
        if E.is_(fiber, self._wip_root):
            gh.changed = False          # the preparation begins: it reads the state as it is now
        gh.performed = True
        env(S, self)
        if S.choose(2, "more work"):
            nxt = S.obj("unit", "WFiber")
            S.assume(nxt.zt__ != tov(self._wip_root))
            return nxt
        return None

    def commit_root(self):
        S.cover("commit")
        S.oblige("displayed_tree_changes_only_when_its_preparation_is_complete", self._wip_root is not None and self._next_unit_of_work is None)
        env(S, self)
        gh.committed += 1
        object.__setattr__(self, "_current_root", self._wip_root)
        object.__setattr__(self, "_wip_root", None)

    def work_loop(self, deadline=None):
        """Contract of a work loop that runs to completion (SYNC)."""
        S.cover("nested loop")
        S.oblige("sync_work_loop_has_work", z3.BoolVal(self._wip_root is not None and self._next_unit_of_work is not None))
        began = S.branch(tob(E.is_(self._next_unit_of_work, self._wip_root)))
        S.oblige("no_change_is_lost", z3.Or(g_not(gh.changed), tob(self._dirty), z3.BoolVal(began)))
        object.__setattr__(self, "_current_root", self._wip_root)
        for n, v in (("_wip_root", None), ("_next_unit_of_work", None), ("_dirty", S.bool("dirty"))):
            object.__setattr__(self, n, v)
        gh.changed = False
    over = {"perform_unit_of_work": perform_unit_of_work, "commit_root": commit_root}
    if sync:
        over["work_loop"] = work_loop
    over = {k: v for k, v in over.items() if k not in kinds}
    cls = type("Collagraph", (C,), over)
    gui = bare(cls, renderer=Recorder(), event_loop_type=ET.SYNC if sync else ET.DEFAULT, _current_root=None, _wip_root=None, _next_unit_of_work=None, _deletions=[],
               _render_callback=None, _request=None, _qt_timer=None, _work=None, _dirty=False)
    holder["gui"] = gui
    return M, C, gui, gh


def env(S, gui):
    """What the environment may do meanwhile: change state any number of times (contract of state_updated while a tree is prepared)."""
    if S.choose(2, "state changes"):
        S.cover("change")
        S.notes["gh"].changed = True
        object.__setattr__(gui, "_dirty", True)


def current(S, gui):
    """The tree on display: none yet, or a fiber whose alternate is another fiber, if any."""
    if S.choose(2, "first render") == 0:
        return
    c = S.obj("current", "WFiber")
    S.assume(c.alternate.zt__ != c.zt__)
    object.__setattr__(gui, "_current_root", c)


def J(S, gui, gh, when, sync):
    """The scheduler invariant."""
    wip, nxt = gui._wip_root, gui._next_unit_of_work
    if wip is None:
        S.oblige(f"idle_{when}", nxt is None, "a unit of work is left over")
        S.oblige(f"no_further_work_is_scheduled_{when}", gh.pending == 0)
        S.oblige(f"no_change_is_lost_{when}", g_not(gh.changed))
        return
    S.oblige(f"sync_work_is_complete_{when}", not sync)
    S.oblige(f"exactly_one_work_loop_is_scheduled_{when}", gh.pending == 1, str(gh.pending))
    S.oblige(f"there_is_a_next_unit_{when}", nxt is not None)
    if nxt is not None:
        S.oblige(f"no_change_is_lost_{when}", z3.Or(g_not(gh.changed), tob(gui._dirty), tob(E.is_(nxt, wip))))


def assume_in_progress(S, gui, gh):
    """A tree in preparation, as J describes it."""
    wip = S.obj("wip", "WFiber")
    nxt = S.obj("next", "WFiber")
    object.__setattr__(gui, "_wip_root", wip)
    object.__setattr__(gui, "_next_unit_of_work", nxt)
    gui._dirty, gh.changed = S.bool("dirty"), S.bool("changed")
    if gui._current_root is not None:
        S.assume(tov(gui._current_root) != wip.zt__)
        S.assume(tov(gui._current_root) != nxt.zt__)
    S.assume(z3.Or(z3.Not(gh.changed.t), gui._dirty.t, nxt.zt__ == wip.zt__))
    return wip, nxt


class SliceRule:
    """while loop of work_loop: at its head a tree is being prepared, nothing was displayed or scheduled, no change is lost."""
    def __init__(self, S, gui, gh):
        self.gui, self.gh = gui, gh
        self.wip = gui._wip_root
        self.pending, self.committed = gh.pending, gh.committed

    def check(self, S, vs):
        gui, gh = self.gui, self.gh
        S.oblige("slice_keeps_the_tree_in_preparation", gui._wip_root is self.wip)
        S.oblige("slice_schedules_nothing", gh.pending == self.pending)
        S.oblige("displayed_tree_is_untouched_within_a_slice", gh.committed == self.committed)
        nxt = gui._next_unit_of_work
        S.oblige("no_change_is_lost", z3.Or(g_not(gh.changed), tob(gui._dirty), tob(E.is_(nxt, gui._wip_root)) if nxt is not None else False))
        flag = [v for v in vs.values() if isinstance(v, (bool, SB))]
        if len(flag) == 1:
            S.oblige("each_slice_does_at_least_one_unit", z3.Or(g_not(flag[0]), z3.BoolVal(gh.performed), z3.BoolVal(nxt is None)), "the loop can be left before any work is done")

    def havoc(self, S, vs):
        gui, gh = self.gui, self.gh
        self.check(S, vs)
        flags = [k for k, v in vs.items() if isinstance(v, (bool, SB))]
        if self.wip is None or S.choose(2, "first iteration") == 0:
            out = dict(vs)                  # entered for the first time
        else:
            gh.performed = True
            gui._dirty, gh.changed = S.bool("dirty"), S.bool("changed")
            if S.choose(2, "more"):
                n = S.obj("next", "WFiber")
                S.assume(n.zt__ != tov(self.wip))
            else:
                n = None
            object.__setattr__(gui, "_next_unit_of_work", n)
            S.assume(z3.Or(z3.Not(gh.changed.t), gui._dirty.t))
            out = {k: (S.bool(k) if k in flags else v) for k, v in vs.items()}
        return out

    def keep(self, S, vs):
        S.cover("slice iteration")
        self.check(S, vs)


class WSpec(Spec):
    def while_rule(self, S, where, vs, loc):
        if S.notes.get("rule") == "slice":
            S.notes["rule"] = None
            return SliceRule(S, S.notes["gui"], S.notes["gh"])
        if S.notes.get("rule") == "climb":
            ps = [k for k, v in vs.items() if isinstance(v, SV) and v.zk__ is WF]
            return ClimbRule(ps[0], vs[ps[0]]) if len(ps) == 1 else None
        return None


ENV = ["the event loop runs every scheduled work loop exactly once, one at a time",
       "a unit of work on the root begins a preparation that reads the state as it is then (contract of the tree units)",
       "state changes reach the scheduler through state_updated, in the thread of the event loop"]


def slice_body(S, sync):
    M, C, gui, gh = setup(S, sync)
    S.notes["gui"], S.notes["rule"] = gui, "slice"
    current(S, gui)
    if S.choose(2, "spurious") or sync:
        wip, nxt = assume_in_progress(S, gui, gh)
        root = wip
    else:
        root = None                         # a work loop that finds nothing to do
    calls = []

    def callback():
        calls.append(1)
        if gui._current_root is not None and S.choose(2, "callback changes state"):
            gh.changed = True
            C.state_updated(gui, S.obj("f", "WFiber"))
    gui._render_callback = callback if S.choose(2, "callback") else None
    d = None if sync else SI(S.fresh("deadline", z3.IntSort()))
    kind, r = outcome(C.work_loop, gui, d)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if root is None:
        S.oblige("nothing_to_do_is_harmless", gh.committed == 0)
        if not calls:
            S.oblige("nothing_to_do_is_harmless", gh.pending == 0 and gui._wip_root is None)
    J(S, gui, gh, "after_a_slice", sync)
    if root is not None:
        S.oblige("each_slice_does_at_least_one_unit", gh.performed, "a slice without any progress")
    S.cover("complete" if gh.committed else "cut")


@unit(UNITS, "work_loop", ["C10", "C01"], ["collagraph/collagraph.py:Collagraph.work_loop", "collagraph/collagraph.py:Collagraph.prepare_next_iteration_of_work", "collagraph/collagraph.py:Collagraph.state_updated", "collagraph/collagraph.py:Collagraph.request_idle_work"],
      spec=WSpec, covers=["commit", "change", "slice iteration", "complete", "cut"], limit=60, assumes=ENV)
def work_loop(S):
    """a slice, however short, started in any state the invariant J allows, with state changes at every point: does at least one unit of work,
    updates the displayed tree only once its preparation is complete, schedules exactly one further slice if and only if work is left, and J
    holds again afterwards (no change is lost)"""
    slice_body(S, False)


@unit(UNITS, "work_loop_sync", ["C10", "C01"], ["collagraph/collagraph.py:Collagraph.work_loop", "collagraph/collagraph.py:Collagraph.prepare_next_iteration_of_work", "collagraph/collagraph.py:Collagraph.state_updated", "collagraph/collagraph.py:Collagraph.request_idle_work"],
      spec=WSpec, covers=["commit", "change", "slice iteration", "complete", "nested loop"], limit=60, assumes=ENV)
def work_loop_sync(S):
    """in SYNC mode a work loop is complete when it returns: the displayed tree is that of the latest state"""
    slice_body(S, True)


@unit(UNITS, "state_updated", ["C10", "C01", "C07"], ["collagraph/collagraph.py:Collagraph.state_updated", "collagraph/collagraph.py:Collagraph.prepare_next_iteration_of_work", "collagraph/collagraph.py:Collagraph.request_idle_work"],
      spec=WSpec, covers=["idle", "in progress", "tree being updated"], limit=40, assumes=ENV)
def state_updated(S):
    """a state change while idle starts exactly one preparation, of a tree rooted in the same container, from a root that is not the displayed
    one; while a tree is prepared it is remembered and nothing is scheduled twice"""
    sync = bool(S.choose(2))
    M, C, gui, gh = setup(S, sync)
    c = S.obj("current", "WFiber")
    S.assume(c.alternate.zt__ != c.zt__)
    gui._current_root = c
    idle = S.choose(2)
    if idle:
        gui._dirty = S.bool("dirty")
        S.cover("idle")
    else:
        S.cover("in progress")
        wip, nxt = assume_in_progress(S, gui, gh)
        gh.pending = 0 if sync or S.choose(2) else 1      # within a slice or between slices
        if gh.pending == 0 and S.choose(2):
            S.cover("tree being updated")
            nxt = gui._next_unit_of_work = None
        pending = gh.pending
    gh.changed = True
    begun = []
    if sync:
        cls = type(gui)
        inner = cls.work_loop

        def work_loop(self, deadline=None):
            begun.append((self._wip_root, self._next_unit_of_work, self._deletions))
            return inner(self, deadline)
        cls.work_loop = work_loop
    kind, r = outcome(C.state_updated, gui, S.obj("f", "WFiber"))
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if not idle:
        S.oblige("the_preparation_goes_on", gui._wip_root is wip and gui._next_unit_of_work is nxt)
        S.oblige("the_change_is_remembered", tob(gui._dirty))
        S.oblige("nothing_is_scheduled_twice", gh.pending == pending and not begun)
        return
    if sync:
        S.oblige("one_preparation_is_started", len(begun) == 1)
        if len(begun) != 1:
            return
        wip, nxt, dels = begun[0]
    else:
        wip, nxt, dels = gui._wip_root, gui._next_unit_of_work, gui._deletions
    S.oblige("one_preparation_is_started", wip is not None)
    if wip is None:
        return
    S.oblige("it_begins_at_the_root", tob(E.is_(nxt, wip)))
    S.oblige("the_displayed_tree_is_left_alone", tov(wip) != c.zt__)
    S.oblige("same_container", tov(wip.dom) == tov(c.dom))
    S.oblige("same_description", z3.And(tov(wip.children) == tov(c.children), tov(wip.props) == tov(c.props)))
    S.oblige("compared_with_the_displayed_tree", tov(wip.alternate) == c.zt__)
    S.oblige("begins_without_children", wip.child is None or tov(wip.child) == NONE)
    S.oblige("nothing_is_deleted_yet", type(dels) is list and not dels)
    J(S, gui, gh, "afterwards", sync)


@unit(UNITS, "render", ["C10", "C01"], ["collagraph/collagraph.py:Collagraph.render", "collagraph/collagraph.py:Collagraph.request_idle_work"], covers=["abandons work"], spec=WSpec, limit=40, assumes=ENV)
def render(S):
    """render() starts exactly one preparation, of a tree rooted in the given container with the given element"""
    sync = bool(S.choose(2))
    M, C, gui, gh = setup(S, sync)
    current(S, gui)
    el, box, cb = S.obj("el", "any"), S.obj("box", "any"), (S.obj("cb", "any") if S.choose(2) else None)
    abandons = not sync and S.choose(2, "work in progress")
    if abandons:
        S.cover("abandons work")
        for n, v in (("_wip_root", S.obj("abandoned", "WFiber")), ("_next_unit_of_work", S.obj("unit", "WFiber")), ("_deletions", [S.obj("gone", "WFiber")]), ("_dirty", S.bool("dirty"))):
            object.__setattr__(gui, n, v)
        S.assume(tov(gui._wip_root) != tov(gui._current_root))
    begun = []
    if sync:
        cls = type(gui)
        inner = cls.work_loop

        def work_loop(self, deadline=None):
            begun.append((self._wip_root, self._next_unit_of_work, self._deletions))
            return inner(self, deadline)
        cls.work_loop = work_loop
    kind, r = outcome(C.render, gui, el, box, cb)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    wip, nxt, dels = (begun[0] if begun else (None, None, None)) if sync else (gui._wip_root, gui._next_unit_of_work, gui._deletions)
    S.oblige("one_preparation_is_started", wip is not None and (not sync or len(begun) == 1))
    if wip is None:
        return
    S.oblige("it_begins_at_the_root", tob(E.is_(nxt, wip)))
    S.oblige("rooted_in_the_container", tov(wip.dom) == box.zt__)
    S.oblige("of_the_element", len(wip.children) == 1 and tov(wip.children[0]) == el.zt__)
    S.oblige("compared_with_the_displayed_tree", tov(wip.alternate) == tov(gui._current_root) if not sync else True)
    S.oblige("nothing_is_deleted_yet", type(dels) is list and not dels)
    S.oblige("begins_without_children", wip.child is None or tov(wip.child) == NONE)
    S.oblige("the_callback_is_kept", gui._render_callback is cb)
    J(S, gui, gh, "afterwards", sync)


@unit(UNITS, "change_watcher", ["C10", "C01", "C07"], ["collagraph/collagraph.py:NotifyChangeWatcher.update", "collagraph/collagraph.py:watch"], covers=["own", "other", "none"],
      assumes=["observ calls update() of every watcher whose tracked state changed"])
def change_watcher(S):
    """every change of tracked state is reported exactly once, unless the watched expression itself makes it (the innermost one being evaluated)"""
    stack = []
    M = collagraph_module(Dep=ns(stack=stack))
    calls = []
    w = bare(M.NotifyChangeWatcher, callback=lambda *a: calls.append(a))
    other = bare(M.NotifyChangeWatcher, callback=lambda *a: None)
    case = S.choose(4)
    stack[:] = [[], [w], [other], [w, other]][case]
    kind, r = outcome(w.update)
    S.oblige("never_raises", kind == "return", repr(r))
    S.cover(["none", "own", "other", "other"][case])
    S.oblige("reported_once_unless_own", len(calls) == (0 if case == 1 else 1))
    f, g = (lambda: 1), (lambda: 2)

    class W:
        def __init__(self, fn, *a, **k):
            self.a = (fn, a, k)
    M.NotifyChangeWatcher = W
    kind, r = outcome(M.watch, f, g)
    S.oblige("watch_watches_the_expression_now", kind == "return" and r.a[0] is f and (r.a[2].get("lazy") if "lazy" in r.a[2] else r.a[1][1] if len(r.a[1]) > 1 else None) is False)
    S.oblige("watch_reports_to_the_callback", kind == "return" and (r.a[2].get("callback") or (r.a[1][3] if len(r.a[1]) > 3 else None)) is g)


# ---------------------------------------------------------------- which unit comes next
NEXTUP = uf("next_outside", V, V)        # the fiber after the whole subtree of a fiber
PAR, SIB, CHILD = (uf(f"f_{n}_0", V, V) for n in ("parent", "sibling", "child"))


def unfold_next(S, t):
    S.assume(NEXTUP(t) == z3.If(t == NONE, NONE, z3.If(SIB(t) != NONE, SIB(t), NEXTUP(PAR(t)))))


class ClimbRule:
    def __init__(self, var, start):
        self.var, self.start = var, start.zt__

    def havoc(self, S, vs):
        p = S.sym("p", "WFiber")
        unfold_next(S, p.zt__)
        unfold_next(S, self.start)
        S.assume(NEXTUP(p.zt__) == NEXTUP(self.start))
        return {self.var: p}

    def keep(self, S, vs):
        S.cover("climb")
        S.oblige("climb_invariant", NEXTUP(tov(vs[self.var])) == NEXTUP(self.start), "a fiber is skipped or visited twice")


@unit(UNITS, "perform_unit_of_work", ["C10", "C01"], ["collagraph/collagraph.py:Collagraph.perform_unit_of_work"], spec=WSpec, covers=["child", "climb", "end", "after"],
      hooks={"callable": lambda S, x: S.branch(uf("callable", V, z3.BoolSort())(tov(x))), "isinstance": lambda S, x, k: S.branch(uf("is_class", V, z3.BoolSort())(tov(x)))})
def perform_unit_of_work(S):
    """exactly the update that fits the kind of fiber is made, on that fiber; the next unit is the next fiber in document order"""
    M, C, gui, gh = setup(S, False, kinds=("perform_unit_of_work",))
    S.notes["rule"] = "climb"
    done = []
    for n in ("update_class_component", "update_function_component", "update_host_component"):
        if not hasattr(C, n):
            raise E.Unsupported(n)

        def upd(self, f, n=n):
            done.append((n, f))
            S.havoc_field("child") if False else None
        setattr(type(gui), n, upd)
    f = S.obj("fiber", "WFiber")
    t = f.zt__
    ty = tov(f.type)
    kind, r = outcome(C.perform_unit_of_work, gui, f)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    call, cls = uf("callable", V, z3.BoolSort())(ty), uf("is_class", V, z3.BoolSort())(ty)
    S.oblige("one_update_of_this_fiber", len(done) == 1 and done[0][1] is f)
    if done:
        n = done[0][0]
        S.oblige("the_update_fits_the_fiber", {"update_class_component": z3.And(call, cls), "update_function_component": z3.And(call, z3.Not(cls)), "update_host_component": z3.Not(call)}[n])
    unfold_next(S, t)
    S.oblige("next_in_document_order", tov(r) == z3.If(CHILD(t) != NONE, CHILD(t), NEXTUP(t)))
    S.cover("child" if S.branch(CHILD(t) != NONE) else "end" if S.branch(tov(r) == NONE) else "after")

"""collagraph.py: compare, reconcile_children (C01, C02, C03): which fiber is matched with which element, and what becomes of it."""
from base import *
import engine as E
import sys
from cgmod import *
from contracts.lists import DList, St, base_list, inserted, ite, Marker
from contracts.cgxc import Tail
UNITS = []
I, B = z3.IntSort(), z3.BoolSort()
RTYPE = Kind("rtype", truthy="uf", eq="is")
RKEY = Kind("rkey", truthy="uf", eq="is")
E.CONSTANTS.add("rtag")
RTAG = Kind("rtag", eq="is")
RELEM = Kind("RElem", truthy="always", eq="is", fields={"type": "rtype", "key": "rkey", "props": "any", "children": "any"})
RF = Kind("RFiber", truthy="always", eq="is",
          fields={n: "RFiber" for n in ("alternate", "child", "parent", "sibling")} | {n: "any" for n in ("dom", "props", "snapshot", "children", "props_snapshot", "watcher", "component")}
          | {n: "bool" for n in ("mounted", "updated", "unmounted", "move")} | {"effect_tag": "rtag", "type": "rtype", "key": "rkey"})
RDONE = Kind("RDone", truthy="always", eq="is", fields={"sibling": "RFiber"})      # a fiber of an earlier iteration: only its sibling may be set


def F0(n, t):
    return uf(f"f_{n}_0", V, V)(t)


# ---------------------------------------------------------------- compare
MATCH = uf("matches", V, V, B)
ITEM = uf("item_of_a", I, V)


class CompareLoop(E.Loop):
    """The loop over the items of `a`.  R is what is left of b: exactly the items that are taken (ghost WHEN) at this iteration or later."""
    sym = True

    def enter(self, loc):
        S = E.S
        N = S.notes
        self.S, self.b0 = S, N["b"]
        rest = {id(v): v for v in loc.values() if isinstance(v, DList) and v is not N["given"]}
        outs = {id(v): v for v in loc.values() if type(v) is list}
        if len(rest) != 1 or len(outs) != 1:
            raise E.Unsupported("which variables hold the rest and the matches?")
        self.rest, self.out = list(rest.values())[0], list(outs.values())[0]
        t, x = S.fresh("t", I), S.fresh("x")
        r = self.rest.s
        S.oblige("begins_with_all_items", z3.And(r.n == self.b0.n, z3.Implies(z3.And(t >= 0, t < r.n), r.at(t) == self.b0.at(t)), r.mem(x) == self.b0.mem(x)))
        S.oblige("begins_without_matches", self.out == [])
        self.last = S.choose(2, "compare") == 1
        self.k = self.it.n if self.last else S.fresh("k", I)
        if not self.last:
            S.assume(z3.And(self.k >= 0, self.k < self.it.n))
        self.rest.s = self.left = rest_list(S, "left", self.b0, N["WHEN"], self.k)
        N["rest"] = self.rest
        self.out[:] = [Marker()]
        for n in self.names:
            v = loc.get(n)
            if n not in E.TARGETS[self.where] and n in loc and v is not self.rest and v is not self.out:
                if not (v is None or isinstance(v, (SI, SV, bool, int))):
                    raise E.Unsupported(f"{n} is carried around the loop")
        return tuple(loc[n] if loc.get(n) is self.rest or loc.get(n) is self.out else E.Opaque(n) for n in self.names)

    def __iter__(self):
        S = E.S
        if self.last:
            S.cover("end")
            return
        N, WHEN, b0 = S.notes, S.notes["WHEN"], self.b0
        item = self.it.at(self.k)
        yield from self.strict(item)
        loc = dict(sys._getframe(1).f_locals)
        if not (len(self.out) == 2 and isinstance(self.out[0], Marker)):
            S.oblige("one_result_per_item", False, "")
            raise E.PathEnd()
        v = self.out[1]
        y = N["Y"]
        left, now = self.left, self.rest.s
        if v is None or isinstance(v, SV) and S.branch(v.zt__ == NONE):
            S.cover("nothing fits")
            S.oblige("nothing_only_if_nothing_fits", z3.Not(z3.And(left.mem(y), MATCH(item.zt__, y))))
            S.assume(z3.Implies(left.mem(y), WHEN(y) != self.k))
        else:
            S.cover("taken")
            v = tov(v)
            S.oblige("takes_one_that_is_left", left.mem(v))
            S.oblige("takes_one_that_fits", MATCH(item.zt__, v))
            S.oblige("takes_the_first_that_fits", z3.Implies(z3.And(left.mem(y), MATCH(item.zt__, y)), b0.pos(v) <= b0.pos(y)))
            S.assume(WHEN(v) == self.k)                             # what "taken" means
            S.assume(z3.Implies(z3.And(left.mem(y), y != v), WHEN(y) != self.k))
        S.oblige("exactly_that_one_is_taken_away", now.mem(y) == z3.And(b0.mem(y), WHEN(y) >= self.k + 1))
        x = S.fresh("x")
        S.assume(z3.Implies(z3.And(left.mem(x), WHEN(x) == self.k), tov(v) == x if v is not None else z3.BoolVal(False)))
        S.oblige("the_others_keep_their_order", z3.Implies(z3.And(now.mem(x), now.mem(y)), (now.pos(x) < now.pos(y)) == (b0.pos(x) < b0.pos(y))))
        S.oblige("the_given_list_is_unchanged", N["given"].mutated == 0)
        raise E.PathEnd()

    def leave(self, loc):
        return tuple(loc.get(n) if loc.get(n) is self.rest or loc.get(n) is self.out else E.Opaque(n) for n in self.names)


def rest_list(S, name, b0, WHEN, k):
    """What is left of b0 before iteration k: the items taken at k or later, in the order of b0."""
    r = base_list(S, name)
    at, pos, mem = r.raw
    known = []

    def invx(x):
        S.assume(mem(x) == z3.And(b0.mem(x), WHEN(x) >= k))
        for y in known:
            S.assume(z3.Implies(z3.And(mem(x), mem(y)), (pos(x) < pos(y)) == (b0.pos(x) < b0.pos(y))))
        known.append(x)
    r.invx.append(invx)
    return r


class CSpec(Spec):
    def iterable(self, S, it, where):
        return it.seq() if isinstance(it, DList) else it

    def index(self, S, seq):
        rest = S.notes.get("rest")
        if rest is None:
            return None
        y = S.notes["Y"]
        p = rest.s.pos(y)
        return ite(rest.s.mem(y), p, z3.IntVal(-1))


def compare_for(n, where, names, it):
    it = E.S.spec.iterable(E.S, it, where)
    if it is E.S.notes.get("a"):
        return CompareLoop(n, where, names, it)
    return E.hook_for(n, where, names, it)


@unit(UNITS, "compare", ["C02", "C01", "C03"], ["collagraph/collagraph.py:compare", "collagraph/collagraph.py:indexOf"], spec=CSpec, covers=["end", "taken", "nothing fits"],
      assumes=["the items of the second list are distinct objects (fibers)", "the match function is a deterministic predicate"])
def compare(S):
    """for lists of any length and any match predicate: item after item of the first list takes the first of the items of the second one that are left and
    fit, or None if there is none; what is never taken is left over, in order; the given list is unchanged"""
    M = collagraph_module()
    M._pv_for = compare_for
    n = S.fresh("n", I)
    S.assume(n >= 0)
    a = S.notes["a"] = SeqView(n, lambda t: SV(ITEM(t), "RElem"), name="a", kind="list")
    b = DList(base_list(S, "b"), "RFiber")
    S.notes.update(b=b.s, given=b, WHEN=z3.Function(f"when!{next(S.nfresh)}", V, I), Y=S.fresh("Y"))
    kind, r = outcome(M.compare, a, b, match=lambda x, y: mkb(MATCH(tov(x), tov(y)) if x.zk__.name == "RElem" else MATCH(tov(y), tov(x))))
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if not (isinstance(r, tuple) and len(r) == 2 and type(r[0]) is list and isinstance(r[1], DList)):
        raise E.Unsupported("results in another form")
    S.oblige("the_results_item_by_item", len(r[0]) == 1 and isinstance(r[0][0], Marker))
    y, x, WHEN, b0, R = S.notes["Y"], S.fresh("x"), S.notes["WHEN"], S.notes["b"], r[1].s
    S.oblige("left_over_is_what_was_never_taken", R.mem(y) == z3.And(b0.mem(y), WHEN(y) >= n))
    S.oblige("left_over_in_order", z3.Implies(z3.And(R.mem(x), R.mem(y)), (R.pos(x) < R.pos(y)) == (b0.pos(x) < b0.pos(y))))
    S.oblige("the_given_list_is_unchanged", b.mutated == 0)


# ---------------------------------------------------------------- the contract of compare, as its callers see it
class Compared:
    """compare(a, b) for a of length n: PICK(k) is the partner of item k, WHEN its inverse (at least n: never taken)."""
    def __init__(self, S, n, item, b0, match):
        self.S, self.n, self.item, self.b0, self.match = S, n, item, b0, match
        self.PICK, self.WHEN = z3.Function(f"pick!{next(S.nfresh)}", I, V), z3.Function(f"when!{next(S.nfresh)}", V, I)
        self.ks, self.xs = [], []

    def pick(self, k):
        """Partner of item k, with what the contract says about it."""
        S, P, W, k = self.S, self.PICK, self.WHEN, z3.simplify(k)
        if not any(k.eq(q) for q in self.ks):
            self.ks.append(k)
            v = P(k)
            ok = z3.And(k >= 0, k < self.n)
            S.assume(z3.Implies(z3.And(ok, v != NONE), z3.And(self.b0.mem(v), W(v) == k, self.match(self.item(k), v))))
            self.x(v)
            for y in list(self.xs):
                self.pair(k, y)
        return P(k)

    def x(self, y):
        """Facts about an item of b."""
        y = z3.simplify(y)
        if any(y.eq(q) for q in self.xs):
            return
        self.xs.append(y)
        S, P, W = self.S, self.PICK, self.WHEN
        S.assume(W(y) >= 0)
        S.assume(z3.Implies(z3.And(self.b0.mem(y), W(y) < self.n), z3.And(P(W(y)) == y, y != NONE)))
        for k in list(self.ks):
            self.pair(k, y)

    def pair(self, k, y):
        S, P, W = self.S, self.PICK, self.WHEN
        ok = z3.And(k >= 0, k < self.n, self.b0.mem(y), W(y) >= k, self.match(self.item(k), y))
        S.assume(z3.Implies(z3.And(ok, P(k) == NONE), z3.BoolVal(False)))
        S.assume(z3.Implies(ok, self.b0.pos(P(k)) <= self.b0.pos(y)))


KEY = lambda t: F0("key", t)


@unit(UNITS, "partners", ["C02"], ["collagraph/collagraph.py:compare (contract)"], covers=["keyed", "unkeyed"],
      assumes=["keys are unique among siblings; elements without key have the key None"])
def partners(S):
    """lemma over the contract of compare with equality of keys: an element with a key is matched exactly with the previous child of that key, if there is
    one; elements without key are matched with the previous children without key from the first on, in order, as many as there are"""
    n = S.fresh("n", I)
    b0 = base_list(S, "old")
    C = Compared(S, n, ITEM, b0, lambda e, f: KEY(e) == KEY(f))
    k, l = S.fresh("k", I), S.fresh("l", I)
    y = S.fresh("y")
    S.assume(z3.And(k >= 0, k < n, l >= 0, l < n))
    S.assume(b0.mem(y))

    def unique_elements(i, j):
        S.assume(z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, KEY(ITEM(i)) == KEY(ITEM(j)), KEY(ITEM(i)) != NONE), i == j))

    def unique_old(u, v):
        S.assume(z3.Implies(z3.And(b0.mem(u), b0.mem(v), KEY(u) == KEY(v), KEY(u) != NONE), u == v))
    C.x(y)
    p, q = C.pick(k), C.pick(l)
    C.pick(C.WHEN(y))
    if S.branch(KEY(ITEM(k)) != NONE):
        S.cover("keyed")
        unique_elements(C.WHEN(y), k)
        unique_old(p, y)
        S.oblige("an_element_with_a_key_finds_its_partner", z3.Implies(KEY(y) == KEY(ITEM(k)), p == y))
        S.oblige("only_a_child_of_the_same_key_is_its_partner", z3.Implies(p != NONE, KEY(p) == KEY(ITEM(k))))
        return
    S.cover("unkeyed")
    S.assume(z3.And(k < l, KEY(ITEM(l)) == NONE))
    S.oblige("partners_are_without_key", z3.Implies(q != NONE, KEY(q) == NONE))
    S.oblige("the_earlier_one_has_a_partner_too", z3.Implies(q != NONE, p != NONE))
    S.oblige("in_order", z3.Implies(q != NONE, b0.pos(p) < b0.pos(q)))
    S.oblige("no_previous_child_is_left_out", z3.Implies(z3.And(q != NONE, KEY(y) == NONE, b0.pos(y) < b0.pos(q)), C.WHEN(y) < l))
    S.oblige("left_over_only_if_all_have_a_partner", z3.Implies(z3.And(KEY(y) == NONE, C.WHEN(y) >= n), p != NONE))


# ---------------------------------------------------------------- reconcile_children
class PSeq(SeqView):
    """A list of unknown length that can be concatenated."""
    def __add__(self, o):
        o = o.seq() if isinstance(o, DList) else o
        if not isinstance(o, SeqView):
            raise E.Unsupported("concatenation")
        n, m = self.n, o.n
        return PSeq(z3.simplify(n + m), lambda t: self.at(t) if E.S.branch(t < n) else o.at(z3.simplify(t - n)), name="concatenation", kind="list")

    def __getitem__(self, i):
        return super().__getitem__(i)


class OldWalk:
    """while cursor: the list holds the first k children, the cursor is the next one."""
    def __init__(self, S, var, lst, old):
        self.var, self.lst, self.old = var, lst, old
        t = S.fresh("t", I)
        n0 = lst.s.n
        S.oblige("children_are_collected_in_order", z3.And(n0 >= 0, n0 <= old.n, z3.Implies(z3.And(t >= 0, t < n0), lst.s.at(t) == old.at(t))))

    def cursor(self, v, k):
        old = self.old
        return tov(v) == ite(k < old.n, old.at(k), NONE)

    def prefix(self, k):
        o = self.old
        return St(k, o.at, o.pos, lambda x: z3.And(o.mem(x), o.pos(x) < k))

    def havoc(self, S, vs):
        S.oblige("children_are_collected_in_order", self.cursor(vs[self.var], self.lst.s.n))
        k = self.k = S.fresh("k", I)
        S.assume(z3.And(k >= 0, k <= self.old.n))
        p = S.sym("cursor", "RFiber")
        S.assume(self.cursor(p, k))
        S.assume(z3.Implies(k < self.old.n, self.old.at(k) != NONE))
        self.lst.s = self.prefix(k)
        S.notes["collected"] = self.lst
        self.writes = {f: len(v) for f, v in S.heap.items()}
        return {v: p if v == self.var else self.lst if vs[v] is self.lst else E.Opaque(v) for v in vs}

    def keep(self, S, vs):
        S.cover("old child")
        k, s, t = self.k, self.lst.s, S.fresh("t", I)
        S.oblige("every_child_is_collected", z3.And(s.n == k + 1, s.at(k) == self.old.at(k), z3.Implies(z3.And(t >= 0, t < k), s.at(t) == self.old.at(t))))
        S.oblige("then_comes_the_next_child", self.cursor(vs[self.var], z3.simplify(k + 1)))
        for f, v in S.heap.items():
            S.oblige("collecting_changes_nothing", len(v) == self.writes.get(f, 0))


class CompMap:
    """dict with id(fiber) as keys, made by a comprehension over the old children: position -> (key, value)."""
    pyvc_sym = True

    def __init__(self, seq, f, old):
        self.seq, self.f, self.old = seq, f, old

    def has(self, k):
        if not isinstance(k, SId):
            raise E.Unsupported("lookup of another key")
        return self.old.mem(k.zt__)

    def __contains__(self, k):
        return E.S.branch(self.has(k))

    def pair(self, t):
        k, v = self.f(self.seq.at(t))
        if not isinstance(k, SId) or not E.S.check_always(z3.Implies(z3.And(t >= 0, t < self.old.n), k.zt__ == self.old.at(t))):
            raise E.Unsupported("a dict with other keys")
        return k, v

    def __getitem__(self, k):
        if k not in self:
            E.throw(KeyError(k))
        return self.pair(self.old.pos(k.zt__))[1]

    def get(self, k, d=None):
        return self.pair(self.old.pos(k.zt__))[1] if k in self else d

    def values(self):
        return PSeq(self.seq.n, lambda t: self.pair(t)[1], name="values", kind="list")


SId = E.SId


class Kept:
    """[x for x in seq if cond(x)]"""
    pyvc_sym = True

    def __init__(self, seq, cond, srt=False):
        self.seq, self.cond, self.srt = seq, cond, srt

    def facts(self):
        """If it equals its sorted self: any two of the values are in order."""
        S = E.S
        t1, t2 = S.notes["T12"]
        for t in (t1, t2):
            if not S.branch(z3.And(t >= 0, t < self.seq.n)):
                return
        x, y = self.seq.at(t1), self.seq.at(t2)
        if self.cond(x) and self.cond(y):
            S.assume(z3.Implies(t1 < t2, toi(x) <= toi(y)))

    def __ne__(self, o):
        return E.neg(self == o)

    def __eq__(self, o):
        S = E.S
        if not (isinstance(o, Kept) and o.seq is self.seq and o.cond is self.cond and o.srt != self.srt):
            raise E.Unsupported("comparison of lists")
        if S.branch(z3.Bool("kept_is_sorted")):
            S.notes["sorted"] = self
            return True
        return False
    __hash__ = None


class OpsRes(SeqView):
    """What create_ops returns, by its contract."""
    def __init__(self, S, T):
        self.kinds = [T.MOVE, T.ADD, T.DEL]
        self.VAL = z3.Function(f"opval!{next(S.nfresh)}", I, I)
        self.KND = z3.Function(f"opkind!{next(S.nfresh)}", I, I)
        n = S.fresh("nops", I)
        S.assume(n >= 0)
        super().__init__(n, self.op, name="ops", kind="list")

    def op(self, t):
        k = 0 if E.S.branch(self.KND(t) == 0) else 1 if E.S.branch(self.KND(t) == 1) else 2
        d = [("op", self.kinds[k]), ("value", mki(self.VAL(t)))]
        if k == 0 or k == 1 and E.S.choose(2, "anchor") == 0:
            d.append(("anchor", E.S.sym("anchor")))
        return SDict(d)


IS_MOVED = uf("is_moved_index", I, B)


class MovesLoop(E.Loop):
    """for op in create_ops(...): the values of the moves are collected in a set."""
    sym = True

    def enter(self, loc):
        S = E.S
        sets = {id(v): v for v in loc.values() if isinstance(v, SSet) and v.concrete and not v.d.entries}
        if len(sets) != 1:
            raise E.Unsupported("which set collects the moves?")
        self.set = list(sets.values())[0]
        self.last = S.choose(2, "moves") == 1
        if self.last:
            self.set.d.base = Base(lambda k: mkb(IS_MOVED(toi(k))), lambda k: True)
        for n in self.names:
            if n not in E.TARGETS[self.where] and n in loc and loc[n] is not self.set:
                raise E.Unsupported(f"{n} is carried around the loop")
        return tuple(loc[n] if loc.get(n) is self.set else E.Opaque(n) for n in self.names)

    def __iter__(self):
        S = E.S
        if self.last:
            return
        t = S.fresh("t", I)
        S.assume(z3.And(t >= 0, t < self.it.n))
        op = self.it.at(t)
        writes = {f: len(v) for f, v in S.heap.items()}
        yield from self.strict(op)
        move = op["op"] is self.it.kinds[0]
        S.cover("a move" if move else "another operation")
        items = [k for k, _ in self.set.d.entries]
        S.oblige("exactly_the_moved_children_are_collected", len(items) == (1 if move else 0) and (not move or S.check_always(toi(items[0]) == self.it.VAL(t))), "")
        S.oblige("collecting_changes_nothing", all(len(v) == writes.get(f, 0) for f, v in S.heap.items()))
        raise E.PathEnd()

    def leave(self, loc):
        return tuple(loc.get(n) if loc.get(n) is self.set else E.Opaque(n) for n in self.names)


class RecLoop(E.Loop):
    """The main loop: an arbitrary iteration k, in the state that the iterations before left."""
    sym = True

    def enter(self, loc):
        S, N = E.S, E.S.notes
        C = N["C"]
        self.N = self.it.n
        own = E.TARGETS[self.where]
        prev = [n for n in self.names if n not in own and n in loc and loc[n] is None]
        if len(prev) != 1:
            raise E.Unsupported("which variable holds the fiber before?")
        self.prev = prev[0]
        for n in self.names:
            if n not in own and n in loc and n != self.prev and not isinstance(loc[n], (SV, type(None))):
                raise E.Unsupported(f"{n} is carried around the loop")
        for f, v in S.heap.items():
            S.oblige("nothing_is_changed_before", not v, f)
        S.oblige("nothing_is_deleted_before", not N["deletions"].tail)
        # at the end, every old child must have had its turn
        y = N["Y"]
        C.x(y)
        R = N["removals"].s
        k = ite(C.WHEN(y) < C.n, C.WHEN(y), C.n + R.pos(y))
        S.assume(R.mem(y) == z3.And(N["old"].mem(y), C.WHEN(y) >= C.n))
        S.oblige("every_element_and_every_old_child_has_its_turn", z3.And(self.N >= C.n, z3.Implies(N["old"].mem(y), z3.And(k >= 0, k < self.N))))
        self.turn = z3.simplify(k)
        self.last = S.choose(2, "main loop") == 1
        if self.last:
            return tuple(E.Opaque(n) for n in self.names)
        k = self.k = S.fresh("k", I)
        S.assume(z3.And(k >= 0, k < self.N))
        self.first = S.branch(k == 0)
        self.before = None
        if not self.first:
            # state after the iterations before: the first new fiber is the child, the last one is in the variable
            if S.branch(C.n > 0):
                S.heap.setdefault("child", []).append((N["wip"].zt__, SV(N["NF"](z3.IntVal(0)), "RDone")))
                S.assume(z3.And(V.is_r(N["NF"](z3.IntVal(0))), N["NF"](z3.IntVal(0)) != NONE))
            if S.branch(k - 1 < C.n):
                p = N["NF"](z3.simplify(k - 1))
                S.assume(z3.And(V.is_r(p), p != NONE, V.rv(p) >= 0))
                # double buffering: the fibers made so far are not displayed ones
                S.assume(z3.And(p != N["wip"].zt__, z3.Not(N["old"].mem(p))))
                self.before = SV(p, "RDone")
        self.base = {f: len(v) for f, v in S.heap.items()}
        return tuple(self.before if n == self.prev else E.Opaque(n) for n in self.names)

    def __iter__(self):
        S, N = E.S, E.S.notes
        if self.last:
            S.cover("end")
            return
        C, k, wip, T = N["C"], self.k, N["wip"], N["T"]
        val = self.it.at(k)
        # what this iteration is about, from the contract of compare
        if S.branch(k < C.n):
            e = SV(N["ELEM"](k), "RElem")
            o = C.pick(k)
        else:
            e, o = None, N["removals"].s.at(z3.simplify(k - C.n))
            S.assume(o != NONE)
        old = SV(o, "RFiber") if S.branch(o != NONE) else None
        if old is not None:
            alt = F0("alternate", o)
            # double buffering
            S.assume(z3.And(N["old"].mem(o), o != wip.zt__, alt != wip.zt__, z3.Not(N["old"].mem(alt)), z3.Implies(alt != NONE, V.rv(alt) >= 0)))
            S.assume(z3.Implies(alt != NONE, z3.And(alt != o, *([alt != self.before.zt__] if self.before is not None else []))))
        yield from self.strict(val)
        loc = dict(sys._getframe(1).f_locals)
        new = loc[self.prev]
        if isinstance(new, E.Opaque):
            raise E.Unsupported("the fiber before")
        writes = [(f, t, v) for f, ws in S.heap.items() for t, v in ws[self.base.get(f, 0):]]
        isnew = e is not None
        same = isnew and old is not None and S.branch(F0("type", e.zt__) == F0("type", o))
        new_t = tov(new)
        if not isnew:
            S.cover("left over")
            S.oblige("no_fiber_without_an_element", new is None or S.check_always(new_t == NONE))
        else:
            S.oblige("a_fiber_for_every_element", new is not None)
            if new is None:
                raise E.PathEnd()
            if isinstance(new, SV):
                S.cover("recycled")
                S.oblige("the_fiber_is_new_or_the_alternate_of_its_partner", z3.BoolVal(False) if old is None else z3.And(new_t == F0("alternate", o), new_t != NONE))
            else:
                S.oblige("the_fiber_is_new_or_the_alternate_of_its_partner", type(new) is N["Fiber"] and not any(new is x for x in N["pre"]))
            g = lambda n: tov(getattr(new, n))
            S.oblige("type_of_the_element", g("type") == F0("type", e.zt__))
            S.oblige("props_of_the_element", g("props") == F0("props", e.zt__))
            S.oblige("snapshot_of_the_props_of_the_element", g("props_snapshot") == uf("raw", V, V)(F0("props", e.zt__)))
            S.oblige("children_of_the_element", g("children") == F0("children", e.zt__))
            S.oblige("key_of_the_element", g("key") == KEY(e.zt__))
            S.oblige("below_the_parent", g("parent") == wip.zt__)
            S.oblige("without_children_yet", g("child") == NONE)
            S.oblige("the_next_one_is_not_known_yet", g("sibling") == NONE)
            S.oblige("watches_nothing_yet", g("watcher") == NONE)
            if same:
                S.cover("update")
                S.oblige("a_partner_of_the_same_type_is_updated", getattr(new, "effect_tag") is T.EffectTag.UPDATE)
                S.oblige("it_keeps_the_element", g("dom") == F0("dom", o))
                S.oblige("it_knows_what_was_displayed", g("alternate") == o)
                mv = tob(getattr(new, "move"))
                p = N["old"].pos(o)
                want = z3.BoolVal(False) if N.get("sorted") is not None else IS_MOVED(p)
                S.oblige("it_moves_exactly_if_the_order_requires_it", mv == want)
            else:
                S.cover("placement")
                S.oblige("every_other_element_is_new", getattr(new, "effect_tag") is T.EffectTag.PLACEMENT)
                S.oblige("without_the_element_of_another_one", g("dom") == NONE)
                S.oblige("without_the_instance_of_another_one", g("alternate") == NONE)
                S.oblige("new_ones_do_not_move", z3.Not(tob(getattr(new, "move"))))
        # deletions
        dels = list(N["deletions"].tail)
        if old is not None and not same:
            S.cover("deletion")
            S.oblige("a_child_without_successor_is_deleted_once", len(dels) == 1 and S.check_always(tov(dels[0]) == o), str(len(dels)))
            S.oblige("it_is_marked_as_deleted", S.read(old, "effect_tag", "rtag") is T.EffectTag.DELETION)
        else:
            S.oblige("nothing_else_is_deleted", not dels, str(len(dels)))
        # links
        child = tov(S.read(wip, "child", "RFiber"))
        if self.first:
            S.oblige("the_first_fiber_is_the_child", child == (new_t if isnew else NONE))
        else:
            S.oblige("the_first_fiber_stays_the_child", child == (N["NF"](z3.IntVal(0)) if S.branch(C.n > 0) else NONE))
        if self.before is not None:
            S.cover("sibling")
            sib = [v for f, t, v in writes if f == "sibling" and S.check_always(t == self.before.zt__)]
            S.oblige("the_fiber_is_the_sibling_of_the_one_before", (bool(sib) and S.check_always(tov(sib[-1]) == new_t)) or not isnew and not sib)
        # frame
        for f, t, v in writes:
            ok = [t == wip.zt__] if f == "child" else []
            if isnew and isinstance(new, SV):
                ok.append(t == new_t)
            if f == "sibling" and self.before is not None:
                ok.append(t == self.before.zt__)
            if f == "effect_tag" and old is not None and not same:
                ok.append(t == o)
            S.oblige("nothing_else_is_changed", z3.Or(*ok) if ok else z3.BoolVal(False), f)
        raise E.PathEnd()

    def leave(self, loc):
        return tuple(E.Opaque(n) for n in self.names)


class RSpec(Spec):
    def iterable(self, S, it, where):
        return it.seq() if isinstance(it, DList) else it

    def while_rule(self, S, where, vs, loc):
        cur = [k for k, v in vs.items() if isinstance(v, SV) and v.zk__.name == "RFiber"]
        lst = {id(v): v for v in loc.values() if isinstance(v, DList)}
        if len(cur) != 1 or len(lst) != 1:
            return None
        return OldWalk(S, cur[0], list(lst.values())[0], S.notes["old"])


def rec_for(n, where, names, it):
    if isinstance(it, DList):
        it = it.seq()
    if isinstance(it, OpsRes):
        return MovesLoop(n, where, names, it)
    if isinstance(it, SeqView) and not E.S.notes.get("main"):
        E.S.notes["main"] = True
        return RecLoop(n, where, names, it)
    return E.hook_for(n, where, names, it)


def zip_longest(*its, fillvalue=None):
    its = [i.seq() if isinstance(i, DList) else i for i in its]
    if not all(isinstance(i, SeqView) for i in its):
        raise E.Unsupported("zip_longest of other things")
    n = its[0].n
    for i in its[1:]:
        n = ite(i.n > n, i.n, n)
    return SeqView(z3.simplify(n), lambda t: tuple(i.at(t) if E.S.branch(t < i.n) else fillvalue for i in its), name="zip_longest")


def comp(S, g):
    it = g.it
    if g.kind == "dict" and isinstance(it, SeqView) and g.cond is None and S.check_always(it.n == S.notes["old"].n):
        return CompMap(it, g.f, S.notes["old"])
    if g.kind == "list" and isinstance(it, SeqView) and g.cond is not None:
        if S.choose(2, "values") == 0:
            t = S.fresh("t", I)
            S.assume(z3.And(t >= 0, t < it.n))
            if not S.check_always(toi(g.f(it.at(t))) == toi(it.at(t))):
                raise E.Unsupported("a list of other values")
            raise E.PathEnd()
        return Kept(it, g.cond)
    if g.kind == "set" and isinstance(it, OpsRes):
        t = S.fresh("t", I)
        S.assume(z3.And(t >= 0, t < it.n))
        op = it.at(t)
        S.oblige("exactly_the_moved_children_are_collected", (g.cond is None or bool(g.cond(op))) == (op["op"] is it.kinds[0]))
        if op["op"] is it.kinds[0]:
            S.cover("a move")
            S.oblige("exactly_the_moved_children_are_collected", toi(g.f(op)) == it.VAL(t))
        else:
            S.cover("another operation")
        return SSet(base=lambda k: mkb(IS_MOVED(toi(k))))
    raise E.Unsupported("a comprehension")


def to_list(S, it):
    if isinstance(it, SeqView):
        return it
    if isinstance(it, DList):
        return it.copy()
    raise E.Unsupported("list()")


def srt(S, it, kw):
    if isinstance(it, Kept) and not kw:
        return Kept(it.seq, it.cond, True)
    raise E.Unsupported("sorted()")


@unit(UNITS, "reconcile_children", ["C01", "C02", "C03", "C06"], ["collagraph/collagraph.py:Collagraph.reconcile_children"], spec=RSpec, limit=80,
      hooks={"comp": comp, "list": to_list, "sorted": srt, "to_raw": lambda S, x: SV(uf("raw", V, V)(tov(x)), "any")},
      covers=["old child", "a move", "another operation", "update", "placement", "deletion", "left over", "recycled", "sibling", "end", "in order", "moved", "no tree before"],
      assumes=["double buffering: the alternates of displayed fibers are distinct, are not displayed and are not the parent; the parent has no child yet (work in progress is finished before the next is prepared)",
               "the displayed children of a fiber are linked by child and sibling, without repetition", "elements are compared by identity of their types and keys"])
def reconcile(S):
    """for any displayed children and any new elements: every element gets exactly one fiber, linked in order below the parent; it takes over the element of
    its partner (compare) of the same type and knows it as its alternate, otherwise it is new; every displayed child without successor is deleted exactly once;
    a fiber that is kept is moved only as create_ops says, and not at all if all kept ones are in order; the others keep their relative order"""
    models = {"imports": {"itertools": ns(zip_longest=zip_longest)}}
    M = collagraph_module(**models)
    M._pv_for = rec_for

    def mklist(*a):
        if all(isinstance(x, SV) and x.zk__.name == "RFiber" for x in a):
            zero = z3.IntVal(0)
            d = DList(St(zero, lambda t: NONE, lambda x: zero, lambda x: z3.BoolVal(False)), "RFiber")
            for x in a:
                d.append(x)
            return d
        return list(a)
    M._pv_list = mklist
    C_ = M.Collagraph
    N = S.notes
    gui = bare(C_)
    dels = Tail([], True)
    gui._deletions = dels
    wip = S.obj("wip", "RFiber")
    n = S.fresh("n", I)
    S.assume(n >= 0)
    ELEM = z3.Function(f"element!{next(S.nfresh)}", I, V)

    def elem(t):
        x = ELEM(t)
        S.assume(z3.Implies(z3.And(t >= 0, t < n), z3.And(x != NONE, V.is_r(x), V.rv(x) >= 0)))
        return SV(x, "RElem")
    elements = PSeq(n, elem, name="elements", kind="list")
    # the displayed children
    old = base_list(S, "old")
    altw = F0("alternate", wip.zt__)
    S.assume(z3.Implies(altw == NONE, old.n == 0))
    S.assume(F0("child", wip.zt__) == NONE)
    S.assume(z3.Implies(altw != NONE, F0("child", altw) == ite(old.n > 0, old.raw[0](z3.IntVal(0)), NONE)))
    S.assume(altw != wip.zt__)

    def link(t):
        x = old.raw[0](t)
        nxt = z3.simplify(t + 1)
        S.assume(z3.Implies(z3.And(t >= 0, t < old.n), z3.And(F0("sibling", x) == ite(nxt < old.n, old.raw[0](nxt), NONE), z3.Implies(nxt < old.n, old.raw[0](nxt) != NONE),
                 V.is_r(x), V.rv(x) >= 0, x != wip.zt__)))
    old.invt.append(link)
    old.at(z3.IntVal(0))
    if S.branch(altw == NONE):
        S.cover("no tree before")
    t1, t2 = S.fresh("t1", I), S.fresh("t2", I)
    N.update(old=old, wip=wip, T=M.T, ELEM=lambda t: elem(t).zt__, deletions=dels, Y=S.fresh("Y"), T12=(t1, t2), NF=z3.Function(f"newfiber!{next(S.nfresh)}", I, V), Fiber=M.T.Fiber, pre=[])
    C = N["C"] = Compared(S, n, lambda t: elem(t).zt__, old, lambda e, f: KEY(e) == KEY(f))

    def compare(a, b, match):
        if "removals" in N:
            raise E.Unsupported("compared twice")
        if a is not elements or not isinstance(b, DList):
            raise E.Unsupported("other lists are compared")
        t, x = S.fresh("t", I), S.fresh("x")
        S.oblige("all_elements_are_compared_with_all_displayed_children", z3.And(b.s.n == old.n, z3.Implies(z3.And(t >= 0, t < old.n), b.s.at(t) == old.at(t)), b.s.mem(x) == old.mem(x)))
        b.s = old
        e, f = S.obj("e", "RElem"), S.obj("f", "RFiber")
        r = match(e, f)
        S.oblige("they_match_exactly_if_their_keys_are_equal", tob(r) == (KEY(e.zt__) == KEY(f.zt__)))
        R = rest_list(S, "removals", old, C.WHEN, n)
        rem = N["removals"] = DList(R, "RFiber")

        def pick(t):
            return SV(C.pick(t), "RFiber")
        return PSeq(n, pick, name="partners", kind="list"), rem
    M.compare = compare

    def create_ops(cur, fut):
        if not isinstance(cur, SeqView) or not isinstance(fut, SeqView) or "ops" in N:
            raise E.Unsupported("the lists to order")
        N["cur"], N["fut"] = cur, fut
        r = N["ops"] = OpsRes(S, M.T.OpType)
        if S.choose(2, "precondition") == 1:
            return r
        for q in (cur, fut):
            i, j = S.fresh("i", I), S.fresh("j", I)
            if S.branch(z3.And(i >= 0, i < j, j < q.n)):
                x, y = q.at(i), q.at(j)
                S.oblige("no_position_occurs_twice", z3.Not(tob(E.keyeq(x, y))))
        p = S.fresh("p", I)
        if S.branch(z3.And(p >= 0, p < old.n)):
            S.oblige("the_current_order_is_that_of_the_displayed_children", z3.And(cur.n == old.n, toi(cur.at(p)) == p))
        else:
            S.oblige("the_current_order_is_that_of_the_displayed_children", cur.n == old.n)
        raise E.PathEnd()
    M.create_ops = create_ops
    kind, r = outcome(gui.reconcile_children, wip, elements)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if "removals" not in N or not N.get("main"):
        raise E.Unsupported("no comparison, or no loop over the elements")
    # the fibers that are kept and do not move are in order
    S.assume(z3.And(t1 >= 0, t1 < t2, t2 < n))
    p, q = C.pick(t1), C.pick(t2)
    kept = lambda t, x: z3.And(x != NONE, F0("type", x) == F0("type", elem(t).zt__))
    if not (S.branch(kept(t1, p)) and S.branch(kept(t2, q))):
        return
    x, y = old.pos(p), old.pos(q)
    if N.get("sorted") is not None:
        S.cover("in order")
        N["sorted"].facts()
        S.oblige("the_others_keep_their_relative_order", x < y)
    elif "ops" in N:
        S.cover("moved")
        f = N["fut"]
        a, b = toi(f.at(t1)), toi(f.at(t2))
        # contract of create_ops: keys of both lists that are not moved keep their order, from the first list to the second
        incur = lambda v: z3.And(v >= 0, v < old.n)
        S.assume(z3.Implies(z3.And(incur(a), incur(b), z3.Not(IS_MOVED(a)), z3.Not(IS_MOVED(b))), (t1 < t2) == (a < b)))
        S.oblige("the_others_keep_their_relative_order", z3.Implies(z3.And(z3.Not(IS_MOVED(x)), z3.Not(IS_MOVED(y))), x < y))
    else:
        S.oblige("the_others_keep_their_relative_order", False)

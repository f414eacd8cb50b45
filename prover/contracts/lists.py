"""collagraph.py: create_ops, apply_op, create_operation, compare, indexOf, first (C17, C02).

A list of distinct keys is (n, at, pos, mem): its length, the key at a position, the position of a key and
membership, over uninterpreted functions; the facts that make these a list of distinct keys are instantiated
at every term the run asks about.  The list operations are exact on this representation."""
from base import *
import engine as E
import sys
from cgmod import *
UNITS = []
I = z3.IntSort()
KEYK = Kind("lkey", truthy="uf", eq="is")


class St:
    """Immutable state of a list of distinct keys."""
    def __init__(self, n, at, pos, mem):
        self.n, self.at, self.pos, self.mem = n, at, pos, mem


def base_list(S, name, nonneg=True):
    """Unknown list of distinct keys (None is not a key), with on-demand facts; .invx / .invt can be extended."""
    at, pos, mem = z3.Function(f"{name}_at!{next(S.nfresh)}", I, V), z3.Function(f"{name}_pos!{next(S.nfresh)}", V, I), z3.Function(f"{name}_mem!{next(S.nfresh)}", V, z3.BoolSort())
    n = S.fresh(name + "_n", I)
    S.assume(n >= 0)
    seen = {}
    b = St(n, None, None, None)
    b.invx, b.invt, b.name = [], [], name

    def inst_t(t):
        t = z3.simplify(t)
        if ("t", t.get_id()) in seen:
            return
        seen["t", t.get_id()] = t
        x = at(t)
        S.assume(z3.Implies(z3.And(t >= 0, t < n), z3.And(mem(x), pos(x) == t, x != NONE)))
        for f in b.invt:
            f(t)
        inst_x(x, back=False)

    def inst_x(x, back=True):
        x = z3.simplify(x)
        if ("x", x.get_id()) in seen:
            return
        seen["x", x.get_id()] = x
        p = pos(x)
        S.assume(z3.Implies(mem(x), z3.And(p >= 0, p < n, at(p) == x, x != NONE)))
        for f in b.invx:
            f(x)
        if back:
            for f in b.invt:
                f(p)
    b.raw = (at, pos, mem)
    b.inst = (inst_t, inst_x)
    b.at = lambda t: (inst_t(t), at(t))[1]
    b.pos = lambda x: (inst_x(x), pos(x))[1]
    b.mem = lambda x: (inst_x(x), mem(x))[1]
    return b


def ite(c, a, b):
    return z3.If(c, a, b)


def inserted(s, p, x):
    return St(z3.simplify(s.n + 1), lambda t: ite(t < p, s.at(t), ite(t == p, x, s.at(t - 1))),
              lambda y: ite(y == x, p, ite(s.pos(y) < p, s.pos(y), s.pos(y) + 1)), lambda y: z3.Or(y == x, s.mem(y)))


def removed(s, p):
    x = s.at(p)
    return St(z3.simplify(s.n - 1), lambda t: ite(t < p, s.at(t), s.at(t + 1)),
              lambda y: ite(s.pos(y) < p, s.pos(y), s.pos(y) - 1), lambda y: z3.And(y != x, s.mem(y)))


def clamp(i, n):
    return z3.simplify(ite(i < 0, ite(n + i < 0, z3.IntVal(0), n + i), ite(i > n, n, i)))


class DList:
    """list of distinct keys."""
    pyvc_sym = True
    concrete = False
    kind = "list"

    def __init__(self, s, kind="lkey"):
        self.s, self.mutated, self.k = s, 0, kind
        E.S.notes.setdefault("dlists", []).append(self)

    def set(self, s):
        self.s = s
        self.mutated += 1

    def wrap(self, t):
        return E.S.wrap(t, self.k)

    def length(self):
        return mki(self.s.n)

    def copy(self):
        return DList(self.s, self.k)

    def __bool__(self):
        return E.S.branch(self.s.n > 0)

    def __contains__(self, x):
        return E.S.branch(self.s.mem(tov(x)))

    def index(self, x, *a):
        if a:
            raise E.Unsupported("index with bounds")
        if not E.S.branch(self.s.mem(tov(x))):
            E.throw(ValueError("x not in list"))
        return mki(self.s.pos(tov(x)))

    def norm(self, i):
        t, n = toi(i), self.s.n
        if not E.S.branch(z3.And(t < n, t >= -n)):
            E.throw(IndexError("list index out of range"))
        return z3.simplify(ite(t < 0, n + t, t))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                return self.copy()
            raise E.Unsupported("slice of a key list")
        return self.wrap(self.s.at(self.norm(i)))

    def pop(self, i=-1):
        p = self.norm(i)
        x = self.s.at(p)
        self.set(removed(self.s, p))
        return self.wrap(x)

    def __delitem__(self, i):
        self.pop(i)

    def remove(self, x):
        if not E.S.branch(self.s.mem(tov(x))):
            E.throw(ValueError("list.remove(x): x not in list"))
        self.set(removed(self.s, self.s.pos(tov(x))))

    def insert(self, i, x):
        if E.S.branch(z3.Or(self.s.mem(tov(x)), tov(x) == NONE)):
            raise E.Unsupported("a key list would hold a key twice")
        self.set(inserted(self.s, clamp(toi(i), self.s.n), tov(x)))

    def append(self, x):
        self.insert(mki(self.s.n), x)

    def __eq__(self, o):
        raise E.Unsupported("comparison of key lists")
    __hash__ = None

    def __iter__(self):
        raise E.Unsupported("iteration over a key list outside a loop")

    def seq(self):
        s = self.s
        r = SeqView(s.n, lambda t: self.wrap(s.at(t)), name="keys", kind="list")
        r.src = (self,)
        return r


def zip_longest(*its, fillvalue=None):
    its = [i.seq() if isinstance(i, DList) else i for i in its]
    if not all(isinstance(i, SeqView) for i in its):
        raise E.Unsupported("zip_longest of other things")
    n = its[0].n
    for i in its[1:]:
        n = ite(i.n > n, i.n, n)

    def at(t):
        return tuple(i.at(t) if E.S.branch(t < i.n) else fillvalue for i in its)
    r = SeqView(z3.simplify(n), at, name="zip_longest")
    r.src = sum((getattr(i, "src", ()) for i in its), ())
    return r


class Marker:
    """Stands for the operations recorded by earlier iterations."""


def replay(S, g, op, cur, fut):
    """The meaning of one operation, and what makes it a proper one."""
    if not isinstance(op, SDict) or not op.concrete:
        raise E.Unsupported("an operation that is not a literal dict")
    kind, v = op["op"], tov(op["value"])
    T = S.notes["T"].OpType
    anchor = tov(op["anchor"]) if "anchor" in op else None
    if kind is T.DEL:
        S.cover("DEL")
        S.oblige("deletes_only_a_present_key", g.mem(v))
        S.oblige("deletes_only_keys_of_the_first_list_alone", z3.And(cur.mem(v), z3.Not(fut.mem(v))))
        S.assume(g.mem(v))
        return removed(g, g.pos(v))
    if kind is T.ADD:
        S.cover("ADD")
        S.oblige("adds_only_an_absent_key", z3.Not(g.mem(v)))
        S.oblige("adds_only_keys_of_the_second_list_alone", z3.And(z3.Not(cur.mem(v)), fut.mem(v)))
        S.assume(z3.Not(g.mem(v)))
        if anchor is None:
            S.cover("ADD at end")
            return inserted(g, g.n, v)
        S.oblige("anchor_is_present", g.mem(anchor))
        S.assume(g.mem(anchor))
        return inserted(g, g.pos(anchor), v)
    if kind is T.MOVE:
        S.cover("MOVE")
        S.oblige("moves_only_a_present_key", g.mem(v))
        S.oblige("moves_only_keys_of_both_lists", z3.And(cur.mem(v), fut.mem(v)))
        S.oblige("a_move_has_an_anchor", anchor is not None)
        if anchor is None:
            raise E.PathEnd()
        S.assume(g.mem(v))
        S.assume(uf("is_moved", V, z3.BoolSort())(v))        # what "moved" means
        r = removed(g, g.pos(v))
        S.oblige("anchor_is_present", r.mem(anchor))
        S.assume(r.mem(anchor))
        return inserted(r, r.pos(anchor), v)
    S.oblige("every_operation_is_of_a_known_kind", False, str(kind))
    raise E.PathEnd()


class OpsLoop(E.Loop):
    """A loop of create_ops, cut by the invariant of its phase; G is the list after the recorded operations."""
    sym = True

    def __init__(self, n, where, names, it):
        super().__init__(n, where, names, it)
        S = E.S
        self.phase = S.notes["phase"] = S.notes.get("phase", 0) + 1
        if self.phase > 2:
            raise E.Unsupported("more loops than invariants")

    def ghost(self, loc):
        S = E.S
        ops = [v for v in loc.values() if type(v) is list and all(isinstance(x, (SDict, Marker)) for x in v)]
        if len(ops) != 1:
            raise E.Unsupported("which list holds the operations?")
        self.ops = ops[0]
        g = S.notes["G"]
        for op in self.ops:
            if not isinstance(op, Marker):
                g = replay(S, g, op, S.notes["cur"].s, S.notes["fut"].s)
        return g

    def wips(self, loc):
        S = E.S
        return [v for v in loc.values() if isinstance(v, DList) and v is not S.notes["cur"] and v is not S.notes["fut"]]

    def inv_x(self, g, k, x):
        cur, fut = self.cf()
        if self.phase == 1:
            return g.mem(x) == z3.And(cur.mem(x), z3.Or(fut.mem(x), cur.pos(x) >= k))
        return g.mem(x) == z3.And(fut.mem(x), z3.Or(cur.mem(x), fut.pos(x) < k))

    def inv_t(self, g, k, t):
        cur, fut = self.cf()
        if self.phase == 1:
            return z3.BoolVal(True)
        return z3.Implies(z3.And(t >= 0, t < k, t < fut.n), z3.And(t < g.n, g.at(t) == fut.at(t)))

    def cf(self):
        return self.cur0, self.fut0

    def inv_n(self, g, k):
        cur, fut = self.cf()
        return z3.BoolVal(True) if self.phase == 1 else ite(k < fut.n, k, fut.n) <= g.n

    def order(self, g):
        """Keys of both lists that no operation moves keep their order."""
        (X, Y), (cur, fut), moved = E.S.notes["XY"], self.cf(), uf("is_moved", V, z3.BoolSort())
        return z3.Implies(z3.And(cur.mem(X), cur.mem(Y), fut.mem(X), fut.mem(Y), z3.Not(moved(X)), z3.Not(moved(Y))),
                          z3.And(g.mem(X), g.mem(Y), (g.pos(X) < g.pos(Y)) == (cur.pos(X) < cur.pos(Y))))

    def check(self, g, k, loc, when):
        S = E.S
        S.oblige(f"keys_that_are_not_moved_keep_their_order_{when}", self.order(g))
        x, t = S.fresh("x"), S.fresh("t", I)
        S.oblige(f"invariant_{self.phase}_{when}", self.inv_x(g, k, x), "which keys the list holds")
        S.oblige(f"invariant_{self.phase}_{when}", z3.And(self.inv_t(g, k, t), self.inv_n(g, k)), "the part that is in order")
        for w in self.wips(loc):
            S.oblige(f"bookkeeping_list_follows_the_operations_{when}", z3.And(w.s.n == g.n, w.s.mem(x) == g.mem(x), z3.Implies(g.mem(x), w.s.pos(x) == g.pos(x)),
                     z3.Implies(z3.And(t >= 0, t < g.n), w.s.at(t) == g.at(t))))

    def enter(self, loc):
        S = E.S
        self.cur0, self.fut0 = S.notes["cur"].s, S.notes["fut"].s
        g = self.ghost(loc)
        self.check(g, z3.IntVal(0), loc, "holds_initially")
        # an arbitrary iteration, or the end
        self.last = S.choose(2, "ops loop") == 1
        n = self.it.n
        k = n if self.last else S.fresh("k", I)
        if not self.last:
            S.assume(z3.And(k >= 0, k < n))
        self.k = k
        b = base_list(S, f"G{self.phase}")
        at, pos, mem = b.raw
        raw = St(b.n, at, pos, mem)

        def invt(t):
            S.assume(self.inv_t(raw, k, t))
        b.invx.append(lambda x: S.assume(self.inv_x(raw, k, x)))
        b.invt.append(invt)
        S.assume(self.inv_n(raw, k))
        S.assume(self.order(b))
        S.notes["G"] = b
        self.ops[:] = [Marker()]
        self.known = self.wips(loc)
        for w in self.known:
            w.s = b
        self.snap = [(d, d.mutated) for d in S.notes["dlists"]]
        out = []
        for name in self.names:
            v = loc.get(name)
            out.append(v if isinstance(v, DList) or v is self.ops else E.Opaque(f"{name} carried around the loop"))
        return tuple(out)

    def mutations(self):
        for d, m in self.snap:
            if d.mutated != m and not any(d is w for w in self.known):
                raise E.Unsupported("a list outside the invariant is changed")

    def __iter__(self):
        S = E.S
        if self.last:
            S.cover(f"end{self.phase}")
            return
        S.cover(f"iteration{self.phase}")
        yield from self.strict(self.it.at(self.k))
        self.mutations()
        loc = dict(sys._getframe(1).f_locals)
        g = self.ghost(loc)
        self.check(g, z3.simplify(self.k + 1), loc, "is_kept")
        raise E.PathEnd()

    def leave(self, loc):
        return tuple(loc.get(k) if isinstance(loc.get(k), DList) or loc.get(k) is self.ops else E.Opaque(k) for k in self.names)


class OpsSpec(Spec):
    """Loops in create_ops use the invariants; enumerate/zip of key lists are sequences."""
    def iterable(self, S, it, where):
        return it.seq() if isinstance(it, DList) else it


def hook_for(n, where, names, it):
    if isinstance(it, DList):
        it = it.seq()
    if isinstance(it, SeqView):
        return OpsLoop(n, where, names, it)
    if isinstance(it, list) and any(isinstance(x, Marker) for x in it):
        raise E.Unsupported("loop over the recorded operations")
    return E.hook_for(n, where, names, it)


def ops_module():
    M = collagraph_module(imports={"itertools": ns(zip_longest=zip_longest)})
    M._pv_for = hook_for

    def b_len(x):
        if isinstance(x, list) and any(isinstance(y, Marker) for y in x):
            raise E.Unsupported("number of recorded operations")
        return E.b_len(x)
    M.__dict__["__builtins__"]["len"] = b_len
    M.__dict__["__builtins__"]["set"] = lambda it=(): it.copy() if isinstance(it, DList) else E.b_set(it)
    return M


@unit(UNITS, "create_ops", ["C17", "C02", "C01", "C03"], ["collagraph/collagraph.py:create_ops", "collagraph/collagraph.py:apply_op", "collagraph/collagraph.py:create_operation"],
      spec=OpsSpec, covers=["DEL", "ADD", "ADD at end", "MOVE", "end1", "end2", "iteration1", "iteration2"], limit=60,
      assumes=["keys are distinct, not None, and `==` on keys is an equivalence compatible with hashing (keys equal iff the same key)"])
def create_ops(S):
    """for all lists of distinct keys: create_ops never raises; replaying the operations on the first list, each one finds its key and its
    anchor, only keys of one list alone are deleted/added, only keys of both are moved, and the result is exactly the second list"""
    M = ops_module()
    S.notes["T"] = M.T
    cur, fut = DList(base_list(S, "cur")), DList(base_list(S, "fut"))
    S.notes["cur"], S.notes["fut"], S.notes["G"] = cur, fut, cur.s
    S.notes["XY"] = X, Y = S.fresh("X"), S.fresh("Y")
    cs, fs = cur.s, fut.s
    kind, r = outcome(M.create_ops, cur, fut)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if type(r) is not list:
        raise E.Unsupported("the operations are not a list")
    g = S.notes["G"]
    for op in r:
        if not isinstance(op, Marker):
            g = replay(S, g, op, cs, fs)
    t = S.fresh("t", I)
    # hint: were the list longer, its key at that position would be one of the second list
    for s in (g, fs):
        y = s.at(fs.n)
        g.mem(y), fs.mem(y), fs.pos(y), g.at(fs.pos(y)), g.pos(y)
    S.oblige("result_has_the_length_of_the_second_list", g.n == fs.n)
    S.oblige("result_is_the_second_list", z3.Implies(z3.And(t >= 0, t < fs.n), g.at(t) == fs.at(t)))
    moved = uf("is_moved", V, z3.BoolSort())
    S.oblige("keys_that_are_not_moved_keep_their_order", z3.Implies(z3.And(cs.mem(X), cs.mem(Y), fs.mem(X), fs.mem(Y), z3.Not(moved(X)), z3.Not(moved(Y))),
             (fs.pos(X) < fs.pos(Y)) == (cs.pos(X) < cs.pos(Y))))
    S.oblige("the_given_lists_are_left_alone", z3.BoolVal(cur.s is cs and fut.s is fs))


@unit(UNITS, "apply_op", ["C17"], ["collagraph/collagraph.py:apply_op"], spec=OpsSpec, covers=["DEL", "ADD", "ADD at end", "MOVE"])
def apply_op(S):
    """for every list of distinct keys and every proper operation, apply_op changes the list to what the operation means"""
    M = ops_module()
    S.notes["T"] = M.T
    L = DList(base_list(S, "L"))
    g = L.s
    v, a = SV(S.fresh("v"), "lkey"), SV(S.fresh("a"), "lkey")
    S.assume(z3.And(v.zt__ != NONE, a.zt__ != NONE))
    w = S.choose(4)
    T = M.T.OpType
    op = SDict([("op", [T.DEL, T.ADD, T.ADD, T.MOVE][w]), ("value", v)])
    if w in (2, 3):
        op["anchor"] = a
        S.assume(g.mem(a.zt__))
        S.assume(a.zt__ != v.zt__)
    S.assume(z3.Not(g.mem(v.zt__)) if w in (1, 2) else g.mem(v.zt__))
    S.cover(["DEL", "ADD at end", "ADD", "MOVE"][w])
    if w == 0:
        want = removed(g, g.pos(v.zt__))
    elif w == 1:
        want = inserted(g, g.n, v.zt__)
    elif w == 2:
        want = inserted(g, g.pos(a.zt__), v.zt__)
    else:
        q = removed(g, g.pos(v.zt__))
        want = inserted(q, q.pos(a.zt__), v.zt__)
    kind, r = outcome(M.apply_op, op, L)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    t, x = S.fresh("t", I), S.fresh("x")
    S.oblige("length", L.s.n == want.n)
    S.oblige("every_position", z3.Implies(z3.And(t >= 0, t < want.n), L.s.at(t) == want.at(t)))
    S.oblige("membership", L.s.mem(x) == want.mem(x))


@unit(UNITS, "create_operation", ["C17"], ["collagraph/collagraph.py:create_operation"], covers=["with", "without"])
def create_operation(S):
    """the operation names its kind and key, and its anchor exactly when one is given (falsy anchors included)"""
    M = ops_module()
    T = M.T.OpType
    w = S.choose(3)
    kind_ = [T.DEL, T.ADD, T.MOVE][w]
    v, a = SV(S.fresh("v"), "lkey"), SV(S.fresh("a"), "lkey")
    S.assume(v.zt__ != NONE)
    if w == 2:
        S.assume(a.zt__ != NONE)
    k, r = outcome(M.create_operation, kind_, v, a)
    S.oblige("never_raises", k == "return", repr(r))
    if k == "raise":
        return
    S.oblige("kind", r["op"] is kind_)
    S.oblige("value", tov(r["value"]) == tov(v))
    if S.branch(a.zt__ != NONE):
        S.cover("with")
        S.oblige("anchor", "anchor" in r)
        if "anchor" in r:
            S.oblige("anchor", tov(r["anchor"]) == tov(a))
    else:
        S.cover("without")
        S.oblige("no_anchor", "anchor" not in r)

"""compare.py: equivalence of callables (C05).

Callables are arbitrary objects whose attributes are uninterpreted; a call to a function of the module that is
already under comparison (recursion) and to constant_key is replaced by its contract."""
from types import CodeType
from base import *
import engine as E
from engine import SView
UNITS = []
I = z3.IntSort()
B = z3.BoolSort()
REL = uf("equivalent_functions", V, V, B)       # what the recursive calls answer
VAL = uf("equivalent_value", V, V, B)
VALS = uf("equivalent_values", V, V, B)
CK = uf("constant_key", V, V)
HASCODE, PARTIAL, CALLABLE = uf("has_code", V, B), uf("is_partial", V, B), uf("is_callable", V, B)
LEN = uf("py_len", V, I)
EMPTY = uf("cell_is_empty", V, B)
# what decides how a code object behaves (names of locals and position in the file aside)
CODE = ["co_argcount", "co_posonlyargcount", "co_kwonlyargcount", "co_code", "co_names", "co_flags", "co_exceptiontable"]
OTHER = ["co_varnames", "co_cellvars", "co_consts", "co_filename", "co_freevars", "co_nlocals", "co_stacksize", "co_firstlineno", "co_name", "co_qualname",
         "co_linetable", "co_lnotab"]
Kind("code", fields={n: "any" for n in CODE + OTHER}, truthy="always")


def closure(S, f):
    """None, or a tuple of as many cells as the code has free variables."""
    t = f.zt__
    n = LEN(code(t, "co_freevars"))
    S.assume(n >= 0)
    if S.branch(n == 0):
        return None
    return SeqView(n, lambda i: cell(S, uf("cell", V, I, V)(t, i)), name="closure")


def cell(S, t):
    S.assume(t != NONE)
    return SV(t, "cell")


def code_of(S, o, raw):
    S.assume(z3.Implies(HASCODE(o.zt__), raw != NONE))
    return SV(raw, "code")


FH = {("fn", "__code__"): code_of}


def contents(S, c):
    if S.branch(EMPTY(c.zt__)):
        E.throw(ValueError("Cell is empty"))
    return SV(CONT(c.zt__), "any")


CONT = uf("cell_contents", V, V)
Kind("cell", props={"cell_contents": contents}, truthy="always", eq="is")
FN = Kind("fn", fields={"__code__": "code", "__self__": "any", "__globals__": "any", "__defaults__": "any", "__kwdefaults__": "any", "func": "fn", "args": "any", "keywords": "any"},
          props={"__closure__": closure}, truthy="always")


def fld(t, n):
    return uf(f"f_{n}_0", V, V)(t)


def code(t, n):
    return fld(fld(t, "__code__"), n)


def h_isinstance(S, x, k):
    from functools import partial
    if k is partial:
        S.assume(z3.Implies(PARTIAL(tov(x)), z3.Not(HASCODE(tov(x)))))
        return S.branch(PARTIAL(tov(x)))
    if k in (dict, E.b_dict) and isinstance(x, SV):
        return S.branch(uf("is_dict", V, B)(tov(x)))
    raise E.Unsupported(f"isinstance {k}")


def h_hasattr(S, o, n):
    if n == "__code__":
        return S.branch(HASCODE(tov(o)))
    raise E.Unsupported(f"hasattr {n}")


def h_getattr(S, o, n, *d):
    if n.startswith("co_") and d and not hasattr(CodeType, n):
        return d[0]
    raise E.Unsupported(f"getattr {n}")


def h_len(S, x):
    S.assume(LEN(tov(x)) >= 0)
    return mki(LEN(tov(x)))


HOOKS = {"isinstance": h_isinstance, "hasattr": h_hasattr, "getattr": h_getattr, "len": h_len, "callable": lambda S, x: S.branch(CALLABLE(tov(x)))}


class Rest:
    """The pairs that were already being compared, within a tuple."""


class Comparing(SeqView):
    """The pairs being compared when the function is entered: any number of them."""
    def __iter__(self):
        yield Rest

    def __len__(self):
        raise TypeError("unknown length")

    def __add__(self, o):
        return (Rest, *o)

    def __radd__(self, o):
        return (*o, Rest)


class CSpec(Spec):
    def index(self, S, seq):
        if isinstance(seq, Comparing):
            return S.notes["IC"]
        return S.notes.get("I")


def module(S, keep=()):
    """compare.py; functions not in `keep` are replaced by their contracts."""
    M = load("collagraph/compare.py", {}, name="collagraph.compare_v")
    own = {n: getattr(M, n) for n in keep}
    S.notes["calls"] = []

    def functions(a, b, comparing=()):
        S.notes["calls"].append((a, b, comparing))
        return mkb(REL(tov(a), tov(b)))
    M.equivalent_functions = functions
    for n, f in (("constant_key", lambda x: SV(CK(tov(x)), "key")),
                 ("equivalent_values", lambda a, b, comparing=(): (S.notes["calls"].append((None, None, comparing)), mkb(VALS(tov(a), tov(b))))[1]),
                 ("equivalent_value", lambda a, b, comparing=(): (S.notes["calls"].append((None, None, comparing)), mkb(VAL(tov(a), tov(b))))[1])):
        if n not in keep and hasattr(M, n):
            setattr(M, n, f)
    return M, own


def comparing(S):
    n = S.fresh("n_comparing", I)
    S.assume(n >= 0)
    S.notes["IC"] = S.fresh("i_comparing", I)
    px, py = uf("cmp_x", I, V), uf("cmp_y", I, V)
    c = Comparing(n, lambda t: (SV(px(t), "fn"), SV(py(t), "fn")), name="comparing")
    return c, lambda a, b: z3.Exists([z3.Int("q")], z3.And(z3.Int("q") >= 0, z3.Int("q") < n, px(z3.Int("q")) == a, py(z3.Int("q")) == b))


def truth(r):
    return tob(r) if isinstance(r, (bool, SB)) else z3.BoolVal(bool(r))


@unit(UNITS, "equivalent_functions", ["C05", "C04"], ["collagraph/compare.py:equivalent_functions", "collagraph/compare.py:equivalent_code", "collagraph/compare.py:equivalent_closure_values"],
      spec=CSpec, hooks=HOOKS, field_hooks=FH, covers=["code", "partial", "plain", "same", "judged equivalent"], limit=60,
      assumes=["a functools.partial has no __code__", "a function has a closure of exactly len(__code__.co_freevars) cells (Python data model)", "the behaviour of a Python function is determined by its code (co_code, co_consts, co_names, argument counts, flags, exception table), defaults, globals, closure and bound instance",
               "co_* attributes compare by value (tuples, bytes, ints, strs)"])
def equivalent_functions(S):
    """for all callables a, b: True only if identical, or already under comparison, or (no code object on one side) partials of equivalent
    functions with equal arguments or equal objects, or equal code in every field that matters, the very same __self__ and __globals__, equivalent
    defaults and, cell by cell, equivalent captured values; identical callables are equivalent; recursion is told of this pair (termination)"""
    M, own = module(S, keep=("equivalent_functions",))
    a, b = S.obj("a", "fn"), S.obj("b", "fn")
    cmp, inside = comparing(S)
    S.notes["I"] = S.fresh("I", I)
    ta, tb = a.zt__, b.zt__
    kind, r = outcome(own["equivalent_functions"], a, b, cmp)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    R = truth(r)
    if S.branch(ta == tb):
        S.cover("same")
        S.oblige("reflexive", R)
        return
    known = S.branch(inside(ta, tb))
    both = z3.And(HASCODE(ta), HASCODE(tb))
    if S.branch(both):
        S.cover("code")
        for x, y, c in S.notes["calls"]:
            c = (Rest,) if isinstance(c, Comparing) else c
            if not isinstance(c, (tuple, list)):
                raise E.Unsupported("the pairs under comparison")
            S.oblige("recursion_terminates", any(isinstance(p, tuple) and len(p) == 2 and p[0] is a and p[1] is b for p in c), "the pair under comparison is not handed on")
            S.oblige("recursion_assumes_only_pairs_under_comparison", all(p is Rest or (isinstance(p, tuple) and p[0] is a and p[1] is b) for p in c))
        if known or not S.branch(R):
            return
        S.cover("judged equivalent")
        for n in CODE:
            S.oblige(f"same_{n}", eq_any(code(ta, n), code(tb, n)))
        S.oblige("same_constants", CK(code(ta, "co_consts")) == CK(code(tb, "co_consts")))
        S.oblige("same_number_of_captured_variables", LEN(code(ta, "co_freevars")) == LEN(code(tb, "co_freevars")))
        for n in ("__self__", "__globals__"):
            S.oblige(f"same_{n}", fld(ta, n) == fld(tb, n))
        for n in ("__defaults__", "__kwdefaults__"):
            S.oblige(f"equivalent_{n}", VALS(fld(ta, n), fld(tb, n)))
        i = S.notes["I"]
        S.assume(z3.And(i >= 0, i < LEN(code(ta, "co_freevars"))))
        cell = lambda t: uf("cell", V, I, V)(t, i)
        S.oblige("equivalent_captured_values", z3.Or(cell(ta) == cell(tb), z3.And(z3.Not(EMPTY(cell(ta))), z3.Not(EMPTY(cell(tb))), VAL(CONT(cell(ta)), CONT(cell(tb))))))
    else:
        if not S.branch(R):
            S.oblige("equal_objects_are_left_registered", z3.Or(z3.And(PARTIAL(ta), PARTIAL(tb)), HASCODE(ta), HASCODE(tb), z3.Not(E.eq_term(ta, tb))))
            return
        parts = S.branch(z3.And(PARTIAL(ta), PARTIAL(tb)))
        S.cover("partial" if parts else "plain")
        p = z3.And(PARTIAL(ta), PARTIAL(tb), eq_any(fld(ta, "args"), fld(tb, "args")), eq_any(fld(ta, "keywords"), fld(tb, "keywords")), REL(fld(ta, "func"), fld(tb, "func")))
        S.oblige("partials_with_equal_arguments_or_equal_objects", z3.Or(p, E.eq_term(ta, tb)))


def eq_any(x, y):
    return E.eq_term(x, y)


@unit(UNITS, "equivalent_value", ["C05", "C04"], ["collagraph/compare.py:equivalent_value"], spec=CSpec, hooks=HOOKS, covers=["callable", "plain", "same"])
def equivalent_value(S):
    """True only for identical values, equivalent callables or equal values; identical values are equivalent"""
    M, own = module(S, keep=("equivalent_value",))
    a, b = S.sym("a"), S.sym("b")
    for x in (a, b):
        S.assume(z3.Implies(CALLABLE(x.zt__), V.is_r(x.zt__)))    # (no str or number can be called)
    cmp, inside = comparing(S)
    kind, r = outcome(own["equivalent_value"], a, b, cmp)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    R, ta, tb = truth(r), a.zt__, b.zt__
    both = z3.And(CALLABLE(ta), CALLABLE(tb))
    S.cover("same" if S.branch(ta == tb) else "callable" if S.branch(both) else "plain")
    S.oblige("reflexive", z3.Implies(ta == tb, R))
    S.oblige("callables_are_compared_as_functions", z3.Implies(z3.And(R, both, ta != tb), REL(ta, tb)))
    S.oblige("other_values_are_equal", z3.Implies(z3.And(R, z3.Not(both), ta != tb), eq_any(ta, tb)))
    for _, _, c in S.notes["calls"]:
        if c is not cmp and c != ():
            raise E.Unsupported("the pairs under comparison")
        S.oblige("pairs_under_comparison_are_handed_on", c is cmp)


class VSpec(CSpec):
    def tracked(self, S, d):
        return [S.notes["K"]]

    def other_key(self, S, d, keys):
        k2 = super().other_key(S, d, keys)
        if "keys" in S.notes:
            S.assume(HA(k2.zt__) == HB(k2.zt__))
        return k2

    def gen_any(self, S, g):
        if isinstance(g.it, (SView, SDict)) and "keys" in S.notes:
            return self.any_same_keys(S, g)
        return super().gen_any(S, g)

    def any_same_keys(self, S, g):
        """as gen_any, for a key of both dicts."""
        d = g.it.d
        f = lambda x: g.f(x) if g.cond is None or g.cond(x) else False
        pick = lambda k: g.it.pick(k, d[k])
        if S.choose(2, "any") == 0:
            K = S.notes["K"]
            if K in d and f(pick(K)):
                raise E.PathDead()
            return False
        k2 = SV(S.fresh("k2"), "key")
        S.assume(HA(k2.zt__) == HB(k2.zt__))
        if k2 not in d or not f(pick(k2)):
            raise E.PathDead()
        return True


def keys_eq(S, x, y):
    """keys() == keys(): exactly the same keys."""
    b = S.fresh("same_keys", B)
    k = S.notes["K"]
    if S.branch(b):
        S.assume(z3.And(tob(mkb(HA(tov(k)) == HB(tov(k))))))
        S.notes["keys"] = (HA, HB)
        return True
    return False


HA, HB = uf("has_da", V, B), uf("has_db", V, B)
VHOOKS = {**HOOKS, "view.eq": keys_eq, "dict.nonempty": lambda S, d: S.branch(uf("nonempty_" + d.name, B)()) if False else S.branch(S.notes["ne_" + d.name])}


@unit(UNITS, "equivalent_values", ["C05", "C04"], ["collagraph/compare.py:equivalent_values"], spec=VSpec, hooks=VHOOKS, covers=["tuples", "dicts", "empty"], limit=40)
def equivalent_values(S):
    """defaults and keyword defaults: True only if both are absent or empty, or they have the same length and keys and equivalent values throughout"""
    M, own = module(S, keep=("equivalent_values",))
    cmp, inside = comparing(S)
    S.notes["I"] = i = S.fresh("I", I)
    S.notes["K"] = K = SV(S.fresh("K"), "key")
    what = S.choose(2)
    absent = [S.choose(2), S.choose(2)]
    n = [S.fresh("n", I) for _ in range(2)]
    S.assume(z3.And(n[0] >= 0, n[1] >= 0))
    if what == 0:
        ev = [uf(f"tup{q}", I, V) for q in range(2)]
        vals = [None if absent[q] else SeqView(n[q], (lambda f: lambda t: SV(f(t), "any"))(ev[q]), name=f"t{q}") for q in range(2)]
    else:
        vals = [None if absent[q] else sym_dict(["da", "db"][q], "any") for q in range(2)]
        for q in range(2):
            S.notes["ne_" + ["da", "db"][q]] = n[q] > 0
            if vals[q] is not None:
                vals[q].length = (lambda q: lambda: mki(n[q]))(q)
        S.assume(z3.Implies(HA(K.zt__), n[0] > 0))
        S.assume(z3.Implies(HB(K.zt__), n[1] > 0))
    kind, r = outcome(own["equivalent_values"], vals[0], vals[1], cmp)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    R = truth(r)
    N = [z3.IntVal(0) if absent[q] else n[q] for q in range(2)]
    for _, _, c in S.notes["calls"]:
        if c is not cmp and c != ():
            raise E.Unsupported("the pairs under comparison")
        S.oblige("pairs_under_comparison_are_handed_on", c is cmp)
    S.cover("empty" if S.branch(z3.Or(N[0] == 0, N[1] == 0)) else "tuples" if what == 0 else "dicts")
    if not S.branch(R):
        return
    S.oblige("same_length_or_both_empty", N[0] == N[1])
    if any(absent):
        return
    if what == 0:
        S.oblige("equivalent_elements", z3.Implies(z3.And(i >= 0, i < N[0]), VAL(ev[0](i), ev[1](i))))
    else:
        k = K.zt__
        S.oblige("same_keys", HA(k) == HB(k))
        va, vb = uf("val_da", V, V), uf("val_db", V, V)
        S.oblige("equivalent_values", z3.Implies(z3.And(HA(k), HB(k)), VAL(va(k), vb(k))))


# ---------------------------------------------------------------- constants
TAG = uf("const_type", V, I)        # type of a constant
REPR = uf("const_repr", V, z3.StringSort())


class TypeOf:
    """type(value), for values of unknown type."""
    pyvc_sym = True

    def __init__(self, x):
        self.x = x
        self.t = TAG(tov(x)) if isinstance(x, SV) else None

    def __call__(self, g):
        if not isinstance(self.x, Container):
            raise E.Unsupported("call of an unknown type")
        if not isinstance(g, E.SGen) or g.it is not self.x.seq or g.cond is not None:
            raise E.Unsupported("a container built of other things")
        return Container(self.x.k, self.x.seq, g.f)


class Container:
    """A tuple or frozenset of constants of any length (f: what was applied to each)."""
    pyvc_sym = True

    def __init__(self, k, seq, f=None):
        self.k, self.seq, self.f = k, seq, f
        self.zt__ = E.S.fresh("container")

    def as_seq(self):
        return self.seq


def c_isinstance(S, x, k):
    tags = {float: 1, complex: 2, tuple: 3, frozenset: 4, int: 5, bool: 6, str: 7, bytes: 8}
    k = {E.b_tuple: tuple, E.b_str: str, E.b_bool: bool}.get(k, k)
    if k not in tags:
        raise E.Unsupported(f"isinstance {k}")
    if isinstance(x, Container):
        return x.k == tags[k]
    t = TAG(tov(x))
    return S.branch(z3.Or(t == 5, t == 6) if k is int else t == tags[k])


def c_repr(x):
    return mks(REPR(tov(x)))


@unit(UNITS, "constant_key", ["C05", "C04"], ["collagraph/compare.py:constant_key"], spec=CSpec,
      hooks={**HOOKS, "isinstance": c_isinstance, "type": lambda S, x: TypeOf(x)}, covers=["float", "other", "container"],
      assumes=["equal reprs of two floats (complexes) mean the same float; nan aside, repr distinguishes 0.0 and -0.0"])
def constant_key(S):
    """the key of a constant determines its type and value (and, of a float, its repr); the key of a container is of the same type and made of
    the keys of all its elements"""
    M = load("collagraph/compare.py", {}, name="collagraph.compare_v")
    own = M.constant_key
    M.constant_key = lambda x: SV(CK(tov(x)), "key")
    M.__dict__["__builtins__"]["repr"] = c_repr
    if S.choose(2):
        S.cover("container")
        n = S.fresh("n", I)
        S.assume(n >= 0)
        k = [3, 4][S.choose(2)]
        c = Container(k, SeqView(n, lambda t: SV(uf("elem", I, V)(t), "any")))
        kind, r = outcome(own, c)
        S.oblige("never_raises", kind == "return", repr(r))
        if kind == "raise":
            return
        if not isinstance(r, tuple) or len(r) != 2:
            raise E.Unsupported("a key of another form")
        S.oblige("type_of_the_container", isinstance(r[0], TypeOf) and r[0].x is c)
        S.oblige("made_of_all_elements", isinstance(r[1], Container) and r[1].k == c.k and r[1].seq is c.seq)
        t = S.fresh("t", I)
        if isinstance(r[1], Container):
            e = SV(uf("elem", I, V)(t), "any")
            S.oblige("elements_are_represented_by_their_keys", tov(r[1].f(e)) == CK(e.zt__))
        return
    x = S.sym("x")
    t = TAG(x.zt__)
    S.assume(z3.Not(z3.Or(t == 3, t == 4)))
    kind, r = outcome(own, x)
    S.oblige("never_raises", kind == "return", repr(r))
    if kind == "raise":
        return
    if not isinstance(r, tuple) or len(r) != 2:
        raise E.Unsupported("a key of another form")
    S.oblige("names_the_type", isinstance(r[0], TypeOf) and r[0].x is x)
    if S.branch(z3.Or(t == 1, t == 2)):
        S.cover("float")
        S.oblige("floats_by_repr", isinstance(r[1], SStr) and z3.eq(r[1].t, REPR(x.zt__)))
    else:
        S.cover("other")
        S.oblige("by_value", r[1] is x)

"""pyvc: verification conditions for the real Python sources of /repo.

The functions under contract are taken from /repo's current tree on every run: a module is parsed with
`ast`, its loops, identity tests, displays and comprehensions are redirected mechanically to the hooks
below (class Rewrite; nothing is dropped or replaced by hand), and the result is executed by CPython on
*symbolic* values.  Every branch on a symbolic condition forks the path (re-execution with a decision
list), every loop over an unbounded collection or condition is cut by a loop rule (projection at an
arbitrary element, or an inductive invariant), so the paths cover all inputs and all iterations.
At the end of a path every clause of the contract is an obligation `pc => clause` for the solver.

Whatever the engine cannot express raises Unsupported: the obligations concerned are then *undecided*
(never "proved", never a violation).
"""
import ctypes
import ast, builtins, copy as _copy, itertools, os, sys, time, types
import z3

REPO = os.environ.get("VERIF_REPO", "/repo")


class Unsupported(Exception):
    pass


class PathEnd(BaseException):
    """The path ends here: its remaining obligations were recorded (inductive step of a loop)."""


class PathDead(BaseException):
    """The path is infeasible or represents no execution."""


# ---------------------------------------------------------------- values
V = z3.Datatype("V")
V.declare("none")
V.declare("b", ("bv", z3.BoolSort()))
V.declare("i", ("iv", z3.IntSort()))
V.declare("s", ("sv", z3.StringSort()))
V.declare("r", ("rv", z3.IntSort()))
V = V.create()
NONE = V.none
S = None            # the current path (State)


def st():
    return S


def vconst(name):
    return z3.Const(name, V)


_ufs = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.name() if hasattr(s, "name") else str(s) for s in sorts)
    if k not in _ufs:
        _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]


B_, I_, STR = z3.BoolSort(), z3.IntSort(), z3.StringSort()


class Kind:
    """What is known of the type of a symbolic value."""
    def __init__(self, name, fields=None, methods=None, truthy="uf", eq="uf", call=None, props=None, hasattrs=None):
        self.name, self.fields, self.methods, self.truthy, self.eq, self.call = name, fields or {}, methods or {}, truthy, eq, call
        self.props = props or {}          # name -> fn(st, self) -> value
        KINDS[name] = self


KINDS = {}
CONSTANTS = set()               # kinds of which the values may be constants of the code
ANY = Kind("any")
OBJ = Kind("obj", truthy="always", eq="is")
KEY = Kind("key", eq="is")      # a value known only up to `==` (dict keys, set elements)


class Sym:
    __slots__ = ()


class Opaque(Sym):
    """A value that depends on other iterations of a projected loop."""
    __slots__ = ("why",)

    def __init__(self, why="value from other iterations"):
        object.__setattr__(self, "why", why)

    def _no(self, *a, **k):
        raise Unsupported(object.__getattribute__(self, "why"))
    __bool__ = __eq__ = __call__ = __iter__ = __len__ = __getitem__ = __setitem__ = __contains__ = __hash__ = __lt__ = __add__ = _no

    def __getattr__(self, n):
        raise Unsupported(object.__getattribute__(self, "why"))


class SB(Sym):
    """Symbolic bool."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return S.branch(self.t)

    def __eq__(self, o):
        return mkb(self.t == tob(o)) if isinstance(o, (SB, bool)) else eq(self, o)

    def __ne__(self, o):
        return neg(self == o)
    __hash__ = None

    def __xor__(self, o):
        return mkb(z3.Xor(self.t, tob(o)))
    __rxor__ = __xor__

    def __and__(self, o):
        return mkb(z3.And(self.t, tob(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.t, tob(o)))
    __ror__ = __or__

    def __repr__(self):
        return f"SB({self.t})"


class SI(Sym):
    """Symbolic (mathematical) int."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def _bin(op):
        def f(self, o):
            if isinstance(o, (SI, int)):
                return mki(op(self.t, toi(o)))
            if isinstance(o, float) and o.is_integer():
                return mki(op(self.t, z3.IntVal(int(o))))
            raise Unsupported(f"int op with {type(o)}")
        return f

    def _cmp(op):
        def f(self, o):
            if isinstance(o, (SI, int)):
                return mkb(op(self.t, toi(o)))
            raise Unsupported(f"int cmp with {type(o)}")
        return f
    __add__ = __radd__ = _bin(lambda a, b: a + b)
    __sub__ = _bin(lambda a, b: a - b)
    __rsub__ = _bin(lambda a, b: b - a)
    __mul__ = __rmul__ = _bin(lambda a, b: a * b)
    __lt__, __le__, __gt__, __ge__ = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b), _cmp(lambda a, b: a > b), _cmp(lambda a, b: a >= b)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))

    def __neg__(self):
        return mki(-self.t)

    def __bool__(self):
        return S.branch(self.t != 0)
    __hash__ = None

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        for n in range(0, 6):
            if S.branch(t == n):
                return n
        raise Unsupported("symbolic index into a concrete list")

    def __repr__(self):
        return f"SI({self.t})"


class SStr(Sym):
    """Symbolic str."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def startswith(self, p):
        if isinstance(p, tuple):
            return mkb(z3.Or(*[z3.PrefixOf(tos(x), self.t) for x in p]))
        return mkb(z3.PrefixOf(tos(p), self.t))

    def endswith(self, p):
        return mkb(z3.SuffixOf(tos(p), self.t))

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))
    __hash__ = None

    def __bool__(self):
        return S.branch(z3.Length(self.t) > 0)

    def __contains__(self, o):
        return S.branch(z3.Contains(self.t, tos(o)))

    def __add__(self, o):
        return mks(z3.Concat(self.t, tos(o)))

    def __radd__(self, o):
        return mks(z3.Concat(tos(o), self.t))

    def __getitem__(self, i):
        n = z3.Length(self.t)
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("slice step")
            def pos(x, d):
                if x is None:
                    return d
                x = toi(x)
                x = z3.If(x < 0, z3.If(n + x < 0, z3.IntVal(0), n + x), z3.If(x > n, n, x))
                return x
            lo, hi = pos(i.start, z3.IntVal(0)), pos(i.stop, n)
            return mks(z3.SubString(self.t, lo, z3.If(hi > lo, hi - lo, z3.IntVal(0))))
        x = toi(i)
        if not S.branch(z3.And(x < n, x >= -n)):
            throw(IndexError("string index out of range"))
        return mks(z3.SubString(self.t, z3.If(x < 0, n + x, x), 1))

    def lower(self):
        return S.strfun("lower", self)

    def upper(self):
        return S.strfun("upper", self)

    def capitalize(self):
        return S.strfun("capitalize", self)

    def strip(self, *a):
        return S.strfun("strip" + repr(a), self)

    def replace(self, a, b, *n):
        if n:
            raise Unsupported("replace() with a count")
        f = uf("str_replace_all", STR, STR, STR, STR)
        if isinstance(a, str) and isinstance(b, str) and a.lower() == a.upper() and b.lower() == b.upper() and self.t.decl().name() == "str_lower":
            # Letter case and characters without case: in either order
            return mks(uf("str_lower", STR, STR)(f(self.t.arg(0), tos(a), tos(b))))
        return mks(f(self.t, tos(a), tos(b)))

    def removeprefix(self, p):
        if S.branch(z3.PrefixOf(tos(p), self.t)):
            return self[len(p):]
        return self

    def split(self, *a):
        if len(a) == 1 and "str.split" not in S.ex.hooks:
            return Pieces(self, a[0])
        if len(a) == 2 and a[1] is not None and isinstance(a[1], int) and a[1] == 1 and isinstance(a[0], str) and "str.split" not in S.ex.hooks:
            first, sep, rest = self.partition(a[0])
            return [first, rest] if sep else [first]
        return S.hook("str.split", self, *a)

    def __iter__(self):
        return iter(S.hook("str.iter", self))

    def find(self, x):
        return mki(z3.IndexOf(self.t, tos(x), 0))

    def index(self, x):
        if not S.branch(z3.Contains(self.t, tos(x))):
            throw(ValueError("substring not found"))
        return self.find(x)

    def removesuffix(self, p):
        if S.branch(z3.And(z3.SuffixOf(tos(p), self.t), z3.Length(tos(p)) > 0)):
            return mks(z3.SubString(self.t, 0, z3.Length(self.t) - z3.Length(tos(p))))
        return self

    def parts(self, sep):
        """(before, last part) at the last separator; the last part is the whole string without one."""
        if not isinstance(sep, str) or not sep:
            raise Unsupported("separator")
        last, pre = uf("last_part" + sep, STR, STR)(self.t), uf("before_last" + sep, STR, STR)(self.t)
        return S.branch(z3.Contains(self.t, z3.StringVal(sep))), pre, last

    def partition(self, sep):
        if not isinstance(sep, str) or not sep:
            raise Unsupported("separator")
        if not S.branch(z3.Contains(self.t, z3.StringVal(sep))):
            return (self, "", "")
        i = z3.IndexOf(self.t, z3.StringVal(sep), 0)
        return (mks(z3.SubString(self.t, 0, i)), sep, mks(z3.SubString(self.t, i + len(sep), z3.Length(self.t) - i - len(sep))))

    def rpartition(self, sep):
        has, pre, last = self.parts(sep)
        if not has:
            S.assume(last == self.t)
            return ("", "", self)
        S.assume(self.t == z3.Concat(pre, z3.StringVal(sep), last))
        return (mks(pre), sep, mks(last))

    def rsplit(self, sep, n=-1):
        if n != 1:
            raise Unsupported("rsplit")
        a, b, c = self.rpartition(sep)
        return [a, c] if b else [c]

    def isidentifier(self):
        return mkb(uf("isidentifier", STR, B_)(self.t))

    def __getattr__(self, n):
        raise Unsupported(f"str.{n}")

    def __repr__(self):
        return f"SStr({self.t})"


class Pieces:
    """s.split(sep): only its first and its last part are known."""
    pyvc_sym = True

    def __init__(self, s, sep):
        self.s, self.sep = s, sep

    def __getitem__(self, i):
        if i == 0:
            return self.s.partition(self.sep)[0]
        if i != -1:
            raise Unsupported("part of a string")
        return self.s.rpartition(self.sep)[2]

    def pop(self, i=-1):
        return self[i]

    def __iter__(self):
        raise Unsupported("parts of a string")


class SV(Sym):
    """Symbolic value / object reference of some kind."""
    __slots__ = ("zt__", "zk__")

    def __init__(self, t, kind="any"):
        object.__setattr__(self, "zt__", t)
        object.__setattr__(self, "zk__", KINDS[kind] if isinstance(kind, str) else kind)

    def __getattr__(self, n):
        return S.getattr(self, n)

    def __setattr__(self, n, v):
        S.setattr(self, n, v)

    def __delattr__(self, n):
        S.delattr(self, n)

    def __eq__(self, o):
        return eq(self, o)

    def __ne__(self, o):
        return neg(eq(self, o))
    __hash__ = None

    def __bool__(self):
        return S.truth(self)

    def __call__(self, *a, **k):
        return S.call(self, a, k)

    def _m(n):
        def f(self, *a):
            return S.special(self, n, a)
        return f
    for _n in "__getitem__ __setitem__ __delitem__ __contains__ __iter__ __len__ __lt__ __gt__ __le__ __ge__ __add__ __radd__ __sub__ __index__ __enter__ __exit__ __truediv__ __or__".split():
        locals()[_n] = _m(_n)
    del _n, _m

    def __repr__(self):
        return f"SV<{self.zk__.name}>({self.zt__})"


def mkb(t):
    t = z3.simplify(t) if z3.is_expr(t) else z3.BoolVal(bool(t))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SB(t)


def mki(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else SI(t)


def mks(t):
    t = z3.simplify(t)
    return t.as_string() if z3.is_string_value(t) else SStr(t)


def neg(x):
    return (not x) if isinstance(x, bool) else mkb(z3.Not(tob(x)))


def tob(x):
    if isinstance(x, SB):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported(f"not a bool: {x!r}")


def toi(x):
    if isinstance(x, SI):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SV):
        return V.iv(x.zt__)
    raise Unsupported(f"not an int: {x!r}")


def tos(x):
    if isinstance(x, SStr):
        return x.t
    if isinstance(x, str):
        return z3.StringVal(x)
    if isinstance(x, SV) and x.zk__.name == "str":
        return V.sv(x.zt__)
    raise Unsupported(f"not a str: {x!r}")


def tov(x):
    """Any engine value as a V term."""
    if isinstance(x, SV):
        return x.zt__
    if x is None:
        return NONE
    if isinstance(x, SB):
        return V.b(x.t)
    if isinstance(x, bool):
        return V.b(z3.BoolVal(x))
    if isinstance(x, SI):
        return V.i(x.t)
    if isinstance(x, int):
        return V.i(z3.IntVal(x))
    if isinstance(x, SStr):
        return V.s(x.t)
    if isinstance(x, str):
        return V.s(z3.StringVal(x))
    if isinstance(x, Opaque):
        raise Unsupported(object.__getattribute__(x, "why"))
    if z3.is_expr(x):
        return x
    if hasattr(x, "zt__"):
        return x.zt__
    return S.ref_of(x)


def is_sym(x):
    return isinstance(x, Sym) or getattr(x, "pyvc_sym", False)


def is_(a, b):
    """`a is b`."""
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("identity of an opaque value")
    if a is b:
        return True
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return False
    ta, tb = tov(a), tov(b)
    if ta.eq(tb):
        return True
    for x in (a, b):
        if x is None or isinstance(x, (bool, SB)) or not isinstance(x, (Sym, str, int, float)):
            return mkb(ta == tb)
    # Equal strings and numbers need not be one object
    return mkb(z3.And(ta == tb, z3.Or(z3.Not(z3.Or(V.is_s(ta), V.is_i(ta))), uf("same_object", V, V, B_)(ta, tb))))


def num(t):
    """V term as a number, for == between bool and int."""
    return z3.If(V.is_b(t), z3.If(V.bv(t), z3.IntVal(1), z3.IntVal(0)), V.iv(t))


def eq_term(a, b):
    isnum = lambda t: z3.Or(V.is_b(t), V.is_i(t))
    return z3.If(z3.Or(V.is_r(a), V.is_r(b)), z3.If(a == b, S.refl(a), uf("py_eq", V, V, B_)(a, b)),
                 z3.If(z3.And(isnum(a), isnum(b)), num(a) == num(b), a == b))


def eq(a, b):
    """`a == b` (a bool or an SB)."""
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("comparison of an opaque value")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SStr):
            if isinstance(y, (SStr, str)):
                return mkb(tos(x) == tos(y))
            if not isinstance(y, SV):
                return False
        if isinstance(x, SI) and isinstance(y, (SI, int)):
            return mkb(toi(x) == toi(y))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SV):
            k = x.zk__
            if callable(k.eq):
                return k.eq(S, x, y)
            if k.eq == "is" or (isinstance(y, SV) and y.zk__.eq == "is") or y is None:
                return mkb(tov(x) == tov(y))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not (is_(x, y) or eq(x, y)):
                return False
        return True
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return a == b
    return mkb(eq_term(tov(a), tov(b)))


def throw(exc):
    exc.pyvc_marked = True
    raise exc


# ---------------------------------------------------------------- containers
def keyeq(a, b):
    """key equality as used by dicts (identity or equality)."""
    if a is b:
        return True
    if not is_sym(a) and not is_sym(b) and not isinstance(a, tuple):
        try:
            return a == b
        except Exception:
            return False
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
            return False
        r = True
        for x, y in zip(a, b):
            r = keyeq(x, y) if r is True else mkb(z3.And(tob(r), tob(keyeq(x, y))))
            if r is False:
                return False
        return r
    i = is_(a, b)
    if i is True:
        return True
    e = eq(a, b)
    return mkb(z3.Or(tob(i), tob(e)))


class Base:
    """The unknown initial contents of a dict: has(key), value(key)."""
    def __init__(self, has, val, size=None):
        self.has, self.val, self.size = has, val, size


_MISSING = object()


class SDict:
    """dict with symbolic keys: ordered entries over an optional unknown base."""
    pyvc_sym = True
    kind = "dict"

    def __init__(self, entries=(), base=None, factory=None, name=None):
        self.entries, self.base, self.factory, self.name = [], base, factory, name
        self.gone = []
        self.others = False          # unknown further entries (written by other iterations)
        self.mutated = 0
        self.only = None             # the keys at which the contents are known (after a projected loop)
        S.containers.append(self) if S else None
        for k, v in entries:
            self._put(k, v)

    # -- core
    def _find(self, k):
        for e in reversed(self.entries):
            r = keyeq(e[0], k)
            if r is True or (r is not False and S.branch(r.t)):
                return e
        return None

    def _base_has(self, k):
        if self.base is None:
            return False
        for g in self.gone:
            r = keyeq(g, k)
            if r is True or (r is not False and S.branch(r.t)):
                return False
        return bool(self.base.has(k))

    def _get(self, k):
        e = self._find(k)
        if e:
            return e[1]
        if self.only is not None and not any(S.check_always(tob(keyeq(x, k))) for x in self.only):
            raise Unsupported("an entry that other iterations may have changed")
        if self.base is not None and self._base_has(k):
            return self.base.val(k)
        if self.others is not False:
            return S.others_lookup(self, k)
        return _MISSING

    def _touch(self, what, k=None, v=None):
        self.mutated += 1
        if S:
            S.on_mutate(self, what, k, v)

    def _put(self, k, v):
        if not is_sym(k) and not (isinstance(k, tuple) and any(is_sym(x) for x in k)):
            hash(k)
        self._touch("put", k, v)
        e = self._find(k)
        if e:
            e[1] = v
        else:
            self.entries.append([k, v])

    def _drop(self, k):
        """Removes the entry; returns its value or _MISSING."""
        e = self._find(k)
        if e:
            self._touch("del", k)
            self.entries.remove(e) if False else self.entries.__delitem__([x is e for x in self.entries].index(True))
            if self.base is not None:
                self.gone.append(k)
            return e[1]
        if self.base is not None and self._base_has(k):
            v = self.base.val(k)
            self._touch("del", k)
            self.gone.append(k)
            return v
        if self.others is not False:
            v = S.others_lookup(self, k)
            if v is not _MISSING:
                self._touch("del", k)
                raise Unsupported("deletion of an entry of another iteration")
        return _MISSING

    # -- dict interface
    def __getitem__(self, k):
        v = self._get(k)
        if v is _MISSING:
            if self.factory is not None:
                v = self.factory()
                self._put(k, v)
                return v
            throw(KeyError(k))
        return v

    def __setitem__(self, k, v):
        self._put(k, v)

    def __delitem__(self, k):
        if self._drop(k) is _MISSING:
            throw(KeyError(k))

    def __contains__(self, k):
        return self._get(k) is not _MISSING

    def get(self, k, d=None):
        v = self._get(k)
        return d if v is _MISSING else v

    def pop(self, k, *d):
        v = self._drop(k)
        if v is _MISSING:
            if d:
                return d[0]
            throw(KeyError(k))
        return v

    def setdefault(self, k, d=None):
        v = self._get(k)
        if v is _MISSING:
            self._put(k, d)
            return d
        return v

    def update(self, o=(), **kw):
        if isinstance(o, SDict):
            if o.base is not None or o.others is not False:
                return S.dict_update(self, o)
            o = [(k, v) for k, v in o.entries]
        elif isinstance(o, dict):
            o = o.items()
        for k, v in o:
            self._put(k, v)
        for k, v in kw.items():
            self._put(k, v)

    def clear(self):
        self._touch("clear")
        self.entries, self.gone, self.base, self.others = [], [], None, False

    def copy(self):
        n = SDict(name=self.name)
        n.entries = [list(e) for e in self.entries]
        n.base, n.factory, n.gone, n.others = self.base, self.factory, list(self.gone), self.others
        if n.base is not None and hasattr(n.base.has, "frozen"):
            n.base = Base(n.base.has.frozen(), n.base.val, n.base.size)     # a copy does not follow later changes
        return n

    def keys(self):
        return SView(self, 0)

    def values(self):
        return SView(self, 1)

    def items(self):
        return SView(self, 2)

    def __iter__(self):
        return iter(SView(self, 0))

    def __len__(self):
        if self.base is None and self.others is False:
            return len(self.entries)
        raise Unsupported("len of a symbolic dict")

    def __bool__(self):
        S.spec.truth_tested(S, self)
        if self.entries:
            return True
        if self.others is not False:
            if S.spec.others_truth(S, self):
                return True
        if self.base is not None:
            if self.gone:
                raise Unsupported("truth of a dict after deletions")
            return bool(S.hook("dict.nonempty", self))
        return False

    def __or__(self, o):
        n = self.copy()
        n.update(o)
        return n

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, SDict) and self.base is None and o.base is None and not self.others and not o.others:
            if len(self.entries) != len(o.entries):
                return False
            for k, v in self.entries:
                e = o._find(k)
                if e is None or not eq(v, e[1]):
                    return False
            return True
        if o is None or isinstance(o, (str, int, tuple, list)):
            return False
        return S.hook("dict.eq", self, o)
    __hash__ = None

    @property
    def concrete(self):
        return self.base is None and self.others is False


def clone(d):
    c = SDict(name=d.name)
    c.entries, c.gone, c.base, c.only = [list(e) for e in d.entries], list(d.gone), d.base, d.only
    return c


class SView:
    """keys / values / items of an SDict (or the elements of an SSet)."""
    pyvc_sym = True

    def __init__(self, d, what):
        self.d, self.what = d, what

    def pick(self, k, v):
        return k if self.what == 0 else v if self.what == 1 else (k, v)

    @property
    def concrete(self):
        return self.d.concrete

    def __iter__(self):
        if not self.d.concrete:
            raise Unsupported("iteration over a symbolic dict outside a loop")
        return iter([self.pick(k, v) for k, v in self.d.entries])

    def __contains__(self, k):
        if self.what == 0:
            return k in self.d
        raise Unsupported("in values()")

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def __eq__(self, o):
        return S.hook("view.eq", self, o)


class SSet:
    """set with symbolic elements."""
    pyvc_sym = True

    def __init__(self, items=(), base=None, name=None):
        self.d = SDict([(x, True) for x in items], base=Base(base, lambda k: True) if base else None, name=name)
        self.d.owner = self

    @property
    def concrete(self):
        return self.d.concrete

    def add(self, x):
        if x not in self.d:
            self.d._put(x, True)

    def remove(self, x):
        del self.d[x]

    def discard(self, x):
        self.d.pop(x, None)

    def pop(self):
        raise Unsupported("set.pop")

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d.keys())

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    def copy(self):
        n = SSet.__new__(SSet)
        n.d = self.d.copy()
        n.d.owner = n
        n.snapshot_of = self
        return n

    def clear(self):
        self.d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)
    __hash__ = None


class SeqView:
    """Immutable sequence of unknown length: len term and element function (index term -> value)."""
    pyvc_sym = True

    def __init__(self, n, elem, name="seq", kind="tuple"):
        self.n, self.elem, self.name, self.kind = n, elem, name, kind

    @property
    def concrete(self):
        return False

    def at(self, t):
        return self.elem(t)

    def __len__(self):
        raise Unsupported("len")

    def length(self):
        return mki(self.n)

    def __bool__(self):
        return S.branch(self.n > 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return S.hook("seq.slice", self, i)
        t = toi(i)
        if not S.branch(z3.And(t < self.n, t >= -self.n)):
            throw(IndexError("index out of range"))
        return self.elem(z3.simplify(z3.If(t < 0, self.n + t, t)))

    def __iter__(self):
        raise Unsupported("iteration over an unbounded sequence outside a loop")

    def __eq__(self, o):
        if self is o:
            return True
        return S.hook("seq.eq", self, o)
    __hash__ = None

    def copy(self):
        return self

    def concat(self, o, front):
        if not isinstance(o, (list, tuple)) or (self.kind in ("list", "tuple") and type(o).__name__ != self.kind):
            return NotImplemented

        def elem(t):
            u = t if front else t - self.n
            for i, x in enumerate(o):
                if S.branch(u == i):
                    return x
            return self.elem(z3.simplify(t - len(o) if front else t))
        return SeqView(self.n + len(o), elem, name=self.name + "+", kind=self.kind)

    def __radd__(self, o):
        return self.concat(o, True)

    def __add__(self, o):
        return self.concat(o, False)


# ---------------------------------------------------------------- one path
class Path:
    """State of one path."""
    def __init__(self, ex, prefix):
        self.ex, self.prefix, self.trail = ex, prefix, []
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.branch_ms)
        self.pc = []
        self.nfresh = itertools.count()
        self.trace, self.obls, self.loops, self.containers = [], [], [], []
        self.heap = {}           # field -> list of (ref value, value)
        self.version = {}
        self.refs, self.refobj = {}, {}
        self.tainted = None
        self.covers = set()
        self.spec = ex.spec
        self.frames = []         # stacks of monitors: on_mutate observers
        self.notes = {}

    # -- logic
    def assume(self, t):
        t = tob(t)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathDead()
        self.pc.append(t)
        self.solver.add(t)

    def check(self, *ts):
        t0 = time.time()
        r = self.solver.check(*ts)
        self.ex.stats["solver_s"] += time.time() - t0
        self.ex.stats["branch_queries"] += 1
        return r

    def branch(self, t):
        t = z3.simplify(tob(t))
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        n = len(self.trail)
        if n < len(self.prefix):
            d = self.prefix[n]
        else:
            if time.time() > self.ex.deadline:
                raise Unsupported("time limit")
            yes = self.check(t) != z3.unsat
            no = self.check(z3.Not(t)) != z3.unsat
            if not yes and not no:
                raise PathDead()
            d = yes
            if yes and no:
                self.ex.work.append(self.trail + [False])
        self.trail.append(d)
        c = t if d else z3.Not(t)
        self.pc.append(c)
        self.solver.add(c)
        return d

    def choose(self, n, what=""):
        """Nondeterministic choice among n alternatives."""
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for k in range(1, n):
                self.ex.work.append(self.trail + [k])
        self.trail.append(d)
        return d

    def fresh(self, name, sort=None):
        return z3.Const(f"{name}!{next(self.nfresh)}", sort if sort is not None else V)

    def sym(self, name, kind="any", notnone=False):
        v = SV(self.fresh(name), kind)
        if notnone:
            self.assume(v.zt__ != NONE)
        return v

    def obj(self, name, kind):
        """A symbolic pre-state object (a reference, not None)."""
        v = SV(self.fresh(name), kind)
        self.assume(z3.And(V.is_r(v.zt__), V.rv(v.zt__) >= 0))
        return v

    def int(self, name, lo=None):
        t = self.fresh(name, I_)
        if lo is not None:
            self.assume(t >= lo)
        return SI(t)

    def str(self, name):
        return SStr(self.fresh(name, STR))

    def bool(self, name):
        return SB(self.fresh(name, B_))

    def ref_of(self, x):
        """V term of a real Python object (allocated during the run or a constant)."""
        k = id(x)
        if k not in self.refs:
            self.refs[k] = V.r(z3.IntVal(-1 - len(self.refs)))
            self.refobj[k] = x
        return self.refs[k]

    def refl(self, a):
        """Value of `a == a` for references: True (assumption "== is reflexive")."""
        return z3.BoolVal(True)

    def oblige(self, name, cond, detail="", always=False):
        """Contract clause: must hold at this point of every path."""
        self.obls.append((name, tob(cond) if not isinstance(cond, bool) else z3.BoolVal(cond), len(self.pc), detail))

    def cover(self, name):
        self.covers.add(name)

    def taint(self, why):
        self.tainted = self.tainted or why

    # -- objects
    def nonnull(self, o, n):
        t = o.zt__
        if self.branch(t == NONE):
            throw(AttributeError(f"'NoneType' object has no attribute {n!r}"))

    def wrap(self, t, kind):
        if kind == "bool":
            return mkb(V.bv(t))
        if kind == "int":
            return mki(V.iv(t))
        if kind == "str":
            return mks(V.sv(t))
        return SV(t, kind)

    def base_field(self, k, n, t):
        return uf(f"f_{n}_{self.version.get(n, 0)}", V, V)(t)

    def read(self, o, n, kind):
        t = o.zt__
        for wo, wv in reversed(self.heap.get(n, [])):
            if self.branch(wo == t):
                return wv
        raw = self.base_field(o.zk__, n, t)
        if kind in CONSTANTS:
            pass            # may be one of the objects of the module (e.g. a member of an enum)
        elif kind not in ("bool", "int", "str"):
            self.assume(z3.Implies(V.is_r(raw), V.rv(raw) >= 0))
        elif kind == "bool":
            self.assume(V.is_b(raw))
        elif kind == "str":
            self.assume(V.is_s(raw))
        hook = self.ex.field_hooks.get((o.zk__.name, n))
        if hook:
            return hook(self, o, raw)
        return self.wrap(raw, kind)

    def getattr(self, o, n):
        k = o.zk__
        if n.startswith("__") and n.endswith("__") and n not in k.fields and n not in k.props and n not in k.methods:
            raise AttributeError(n)
        self.nonnull(o, n)
        if n in k.props:
            return k.props[n](self, o)
        if n in k.methods:
            f = k.methods[n]
            return lambda *a, **kw: f(self, o, *a, **kw)
        if n in k.fields:
            return self.read(o, n, k.fields[n])
        raise Unsupported(f"attribute {n} of {k.name}")

    def setattr(self, o, n, v):
        k = o.zk__
        self.nonnull(o, n)
        if ("set_" + n) in k.methods:
            return k.methods["set_" + n](self, o, v)
        if n in k.fields:
            self.on_mutate(o, "setattr", n, v)
            self.heap.setdefault(n, []).append((o.zt__, v))
            return
        raise Unsupported(f"assignment to {n} of {k.name}")

    def delattr(self, o, n):
        raise Unsupported(f"del {n}")

    def havoc_field(self, n):
        self.version[n] = self.version.get(n, 0) + 1 + next(self.nfresh)
        self.heap[n] = []

    def truth(self, o):
        k = o.zk__
        if k.truthy == "always":
            return self.branch(o.zt__ != NONE)
        if callable(k.truthy):
            return bool(k.truthy(self, o))
        t = o.zt__
        return self.branch(truth_term(t))

    def call(self, o, a, kw):
        k = o.zk__
        if k.call:
            return k.call(self, o, *a, **kw)
        return self.hook("call", o, a, kw)

    def special(self, o, n, a):
        k = o.zk__
        self.nonnull(o, n)
        if n in k.methods:
            return k.methods[n](self, o, *a)
        if n == "__len__":
            raise TypeError("len")
        raise Unsupported(f"{n} of {k.name}")

    def strfun(self, name, s):
        return mks(uf("str_" + name, STR, STR)(s.t))

    def hook(self, name, *a):
        f = self.ex.hooks.get(name)
        if f is None:
            raise Unsupported(f"no model for {name}")
        return f(self, *a)

    def others_lookup(self, d, k):
        f = self.ex.hooks.get("others")
        if f is None:
            raise Unsupported("lookup in a container with entries of other iterations")
        return f(self, d, k)

    def check_always(self, c):
        return self.check(z3.Not(c)) == z3.unsat

    def dict_update(self, d, o):
        """d.update(o): the entries of o lie over those of d."""
        for x in (d, o):
            if x.others is not False or x.factory is not None:
                raise Unsupported("update from a symbolic dict")
        new, old = clone(o), clone(d)
        d._touch("update")
        d.entries, d.gone = [], []
        d.base = Base(lambda k: k in new or k in old, lambda k: new._get(k) if k in new else old._get(k))

    def on_mutate(self, obj, what, k=None, v=None):
        for m in self.frames:
            m(obj, what, k, v)

    def event(self, *e):
        self.trace.append(e)
        for m in self.frames:
            m(None, "event", e, None)


def truth_term(t):
    return z3.If(t == NONE, z3.BoolVal(False), z3.If(V.is_b(t), V.bv(t), z3.If(V.is_i(t), V.iv(t) != 0,
           z3.If(V.is_s(t), z3.Length(V.sv(t)) > 0, uf("truthy", V, B_)(t)))))


# ---------------------------------------------------------------- loops
class Loop:
    sym = False

    def __init__(self, n, where, names, it=None):
        self.n, self.where, self.names, self.it = n, where, names, it
        self.count = 0

    def head(self, loc):
        self.count += 1
        if self.count > S.ex.unroll:
            raise Unsupported(f"loop {self.where} has no invariant")
        return True

    def __iter__(self):
        return iter(self.it)

    def strict(self, v):
        """Yields the value of an iteration that may not be left by break or return."""
        self.open = True
        S.loops.append(self)
        yield v
        self.open = False


class IndLoop(Loop):
    """while loop cut by an inductive invariant: rule.init(vars) / rule.havoc(vars) -> vars / rule.keep(vars)."""
    sym = True

    def __init__(self, n, where, names, rule):
        super().__init__(n, where, names)
        self.rule, self.first = rule, True

    def enter(self, loc):
        if not getattr(self.rule, "grows", False):
            check_grown(self.where, loc)
        vs = {k: loc[k] for k in self.names if k in loc}
        out = self.rule.havoc(S, vs)
        return tuple(out.get(k, Opaque(f"{k} unbound in loop")) for k in self.names)

    def head(self, loc):
        if self.first:
            self.first = False
            return True
        self.rule.keep(S, {k: loc[k] for k in self.names if k in loc})
        raise PathEnd()

    def leave(self, loc):
        return tuple(loc.get(k, Opaque(k)) for k in self.names)


def check_grown(where, loc):
    for x in GROWN.get(where, ()):
        x, *attr = x
        o = loc.get(x)
        for a in attr:
            o = getattr(o, "__dict__", {}).get(a) if not is_sym(o) else None
        if type(o) in (list, set, dict):
            raise Unsupported("a list that grows in a loop without invariant")


class ProjLoop(Loop):
    """for loop over an unbounded collection without carried state, projected at designated elements.

    `coll.project(S)` gives (I, j): I is the designated (skolem) element as (exists: z3 Bool, value) and
    j an arbitrary other one.  A loop either runs to its end, in which case the iteration at I completed,
    or is left (break, return, exception) in some iteration j; the iterations before j completed."""
    sym = True

    def __init__(self, n, where, names, coll):
        super().__init__(n, where, names)
        self.coll = coll
        self.pending = None

    def enter(self, loc):
        check_grown(self.where, loc)
        self.before = {k: loc[k] for k in self.names if k in loc}
        return tuple(Opaque(f"{k} carried around the loop") for k in self.names)

    def leave(self, loc):
        return tuple(Opaque(f"{k} after the loop") for k in self.names)

    def __iter__(self):
        # `choose` picks how this loop ends on this path
        plan = self.coll.plan(S, self)
        S.loops.append(self)
        again = False
        for must, val in plan:
            if again:
                self.forget(sys._getframe(1))
            self.pending = must
            muts = []
            mon = lambda o, what, k, v: muts.append((o, what, k, v))
            S.frames.append(mon)
            yield val
            S.frames.remove(mon)
            self.coll.after(S, self, must, val, muts)
            self.pending = None
            again = True
            if must == "exit":
                raise PathDead()
            if must == "end":
                raise PathEnd()
        self.pending = None

    def forget(self, f):
        """The next iteration of the plan isn't the next one of the loop: it knows nothing of the variables of this one."""
        d = f.f_locals
        for k in self.names:
            if k in d:
                d[k] = Opaque(f"{k} carried around the loop")
        ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))

    def ok(self):
        """Whether the path represents an execution (asked at its end)."""
        return self.pending in (None, "exit", "end")


class DictProj:
    """Projection of a loop over a dict at the tracked keys (see Path.track)."""
    def __init__(self, view):
        self.view = view

    def plan(self, S, loop):
        d = self.view.d
        keys = S.spec.tracked(S, d)             # the generic key(s)
        mode = S.choose(2, "dict loop")
        if mode == 0:
            plan = []
            for k in keys:
                if k in d:
                    plan.append(("done", self.view.pick(k, d[k])))
            self.mode = "at"
            # writes by other iterations
            self.exempt = {id(c) for c in S.containers if c.base is not None}
            return plan
        # frame check: an iteration at another key
        self.mode = "frame"
        k2 = S.spec.other_key(S, d, keys)
        S.assume(mkb(z3.BoolVal(True)))
        if k2 not in d:
            raise PathDead()
        return [("end", self.view.pick(k2, d[k2]))]

    def after(self, S, loop, must, val, muts):
        S.spec.loop_frame(S, self, must, val, muts)

    def finish(self, S):
        pass


class SeqProj:
    """Projection of a loop over a sequence of unknown length at the designated index."""
    def __init__(self, seq):
        self.seq = seq

    def plan(self, S, loop):
        n = self.seq.n
        I = S.spec.index(S, self.seq)
        mode = S.choose(2, "seq loop")
        if mode == 0:                           # runs to the end
            if I is not None and S.branch(z3.And(I >= 0, I < n)):
                return [("done", self.seq.at(I))]
            return []
        j = S.fresh("j", I_)
        S.assume(z3.And(j >= 0, j < n))
        loop.exit_index = j
        S.notes.setdefault("exit", []).append((self.seq, j))
        plan = []
        if I is not None and S.branch(z3.And(I >= 0, I < j)):
            plan.append(("done", self.seq.at(I)))
        elif I is not None and S.branch(I == j):
            j = I
        plan.append(("exit", self.seq.at(j)))
        return plan

    def after(self, S, loop, must, val, muts):
        S.spec.seq_frame(S, self, must, val, muts)


def hook_for(n, where, names, it):
    it = S.spec.iterable(S, it, where)
    if isinstance(it, Loop):
        return it
    if isinstance(it, (SSet,)):
        it = it.d.keys()
    if isinstance(it, SDict):
        it = it.keys()
    if isinstance(it, SView) and not it.concrete:
        return ProjLoop(n, where, names, S.spec.dict_coll(it))
    if isinstance(it, SeqView):
        return it.loop(n, where, names) if hasattr(it, "loop") else ProjLoop(n, where, names, SeqProj(it))
    if isinstance(it, Opaque) or isinstance(it, SV):
        r = S.hook("iter", it)
        return hook_for(n, where, names, r) if not isinstance(r, Loop) else r
    return Loop(n, where, names, it)


def hook_while(n, where, names, loc):
    rule = S.spec.while_rule(S, where, {k: loc[k] for k in names if k in loc}, loc)
    return IndLoop(n, where, names, rule) if rule else Loop(n, where, names)


class SGen:
    """Comprehension over an unbounded collection: evaluated at the elements the loop rule picks."""
    pyvc_sym = True

    def __init__(self, kind, it, f, cond):
        self.kind, self.it, self.f, self.cond = kind, it, f, cond

    def __iter__(self):
        raise Unsupported("generator over an unbounded collection")


def hook_comp(kind, it, f, cond):
    it = S.spec.iterable(S, it, "comprehension") if S else it
    if isinstance(it, (SSet,)):
        it = it.d.keys()
    if isinstance(it, SDict):
        it = it.keys()
    if isinstance(it, (SV, Opaque)):
        it = S.hook("iter", it)
    if isinstance(it, SGen) or (isinstance(it, (SView, SeqView)) and not it.concrete):
        g = SGen(kind, it, f, cond)
        if kind == "list" and isinstance(it, SeqView) and cond is None:
            return SeqView(it.n, lambda t: f(it.at(t)), name=it.name + ".map", kind="list")
        if kind == "gen":
            return g
        return S.hook("comp", g)
    if kind == "gen":
        return (f(x) for x in it if cond is None or cond(x))
    r = [f(x) for x in it if cond is None or cond(x)]
    return r if kind == "list" else SSet(r) if kind == "set" else SDict(r)


# ---------------------------------------------------------------- builtins
def b_isinstance(x, c):
    cs = c if isinstance(c, tuple) else (c,)
    cs = tuple(type if k is b_type else tuple if k is b_tuple else k for k in cs)
    if is_sym(x):
        for k in cs:
            if isinstance(x, SDict):
                if k in (dict, b_dict):
                    return True
                continue
            if isinstance(x, SSet):
                if k in (set, b_set):
                    return True
                continue
            if isinstance(x, SStr):
                if k in (str, b_str):
                    return True
                continue
            if isinstance(x, (SB, SI)):
                if k is int or (k is bool and isinstance(x, SB)):
                    return True
                continue
            if isinstance(x, SeqView):
                if k in (list, b_list) and x.kind == "list" or k is tuple and x.kind == "tuple":
                    return True
                continue
            r = S.hook("isinstance", x, k)
            if bool(r):
                return True
        return False
    cs = tuple({b_dict: dict, b_set: set, b_list: list, b_str: str}.get(k, k) if not is_sym(k) else k for k in cs)
    if any(is_sym(k) for k in cs):
        return S.hook("isinstance", x, c)
    if hasattr(type(x), "pyvc_isinstance"):
        return any(x.pyvc_isinstance(k) for k in cs)
    return isinstance(x, cs)


def b_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SDict):
        return dict
    if isinstance(x, SSet):
        return set
    if isinstance(x, SStr):
        return str
    if is_sym(x):
        return S.hook("type", x)
    return type(x)


def b_len(x):
    if isinstance(x, SeqView) or (not isinstance(x, Sym) and hasattr(x, "length")):
        return x.length()
    if isinstance(x, SStr):
        return mki(z3.Length(x.t))
    if isinstance(x, (SV, Opaque)):
        return S.hook("len", x)
    return len(x)


def b_callable(x):
    if isinstance(x, SV):
        return S.hook("callable", x)
    if is_sym(x):
        return False
    return callable(x)


def b_hasattr(o, n):
    if isinstance(n, SStr) or isinstance(o, SV):
        return S.hook("hasattr", o, n)
    return hasattr(o, n)


def b_getattr(o, n, *d):
    if isinstance(n, (SStr, SV)) or (isinstance(o, SV) and not (isinstance(n, str) and (n in o.zk__.fields or n in o.zk__.props or n in o.zk__.methods))):
        return S.hook("getattr", o, n, *d)
    if isinstance(o, SV):
        return S.getattr(o, n)
    return getattr(o, n, *d)


def b_setattr(o, n, v):
    if isinstance(n, SStr):
        return S.hook("setattr", o, n, v)
    setattr(o, n, v)


def b_id(x):
    if isinstance(x, Sym):
        return SV(tov(x), "any") if False else SId(tov(x))
    return SId(tov(x)) if S else id(x)


class SId(Sym):
    """id(x): equal exactly for identical objects."""
    __slots__ = ("zt__",)

    def __init__(self, t):
        self.zt__ = t

    def __eq__(self, o):
        return mkb(self.zt__ == o.zt__) if isinstance(o, SId) else False

    def __ne__(self, o):
        return neg(self == o)
    __hash__ = None


def b_bool(x=False):
    if isinstance(x, SB):
        return x
    return bool(x)


def b_any(g):
    if isinstance(g, SGen):
        return S.spec.gen_any(S, g)
    for x in g:
        if x:
            return True
    return False


def b_all(g):
    if isinstance(g, SGen):
        return neg_b(S.spec.gen_any(S, SGen(g.kind, g.it, lambda x: neg_b(g.f(x)), g.cond)))
    for x in g:
        if not x:
            return False
    return True


def neg_b(x):
    if isinstance(x, (bool, SB)):
        return neg(x)
    return not x


def b_dict(*a, **k):
    if a and isinstance(a[0], SDict):
        d = a[0].copy()
        d.factory = None
    else:
        d = SDict(list(a[0].items()) if a and isinstance(a[0], dict) else a[0] if a else ())
    d.update(**k)
    return d


def b_set(it=()):
    if isinstance(it, SSet):
        return it.copy()
    if isinstance(it, (SView, SDict, SeqView)) and not getattr(it, "concrete", False):
        return S.hook("set", it)
    return SSet(it)


def b_list(it=()):
    if isinstance(it, (SSet, SView, SDict, SeqView)) and not getattr(it, "concrete", False):
        return S.hook("list", it)
    if isinstance(it, SGen):
        return hook_comp("list", it.it, it.f, it.cond)
    if isinstance(it, (SV, Opaque)) or hasattr(it, "pyvc_list"):
        return S.hook("list", it)
    return list(it)


def b_tuple(it=()):
    if isinstance(it, (SSet, SView, SDict, SeqView)) and not getattr(it, "concrete", False):
        return S.hook("list", it)
    if isinstance(it, (SV, Opaque)):
        return S.hook("list", it)
    return tuple(it)


def b_str(x=""):
    if isinstance(x, (SStr, str)):
        return x
    if is_sym(x):
        return S.hook("str", x)
    return str(x)


def b_enumerate(it, start=0):
    it = S.spec.iterable(S, it, "enumerate")
    if isinstance(it, SeqView):
        return SeqView(it.n, lambda t: (mki(t + start), it.at(t)), name=it.name + ".enum")
    if isinstance(it, (SV,)) or hasattr(it, "as_seq"):
        return b_enumerate(S.hook("iter", it), start)
    return enumerate(it, start)


def b_zip(*its, **k):
    its = [S.spec.iterable(S, it, "zip") for it in its]
    if any(isinstance(it, (SeqView, SV)) or hasattr(it, "as_seq") for it in its):
        its = [it if isinstance(it, SeqView) else S.hook("iter", it) for it in its]
        if not all(isinstance(it, SeqView) for it in its):
            raise Unsupported("zip of mixed sequences")
        n = its[0].n
        for it in its[1:]:
            n = z3.If(it.n < n, it.n, n)
        return SeqView(n, lambda t: tuple(it.at(t) for it in its), name="zip")
    return zip(*its, **k)


def b_sorted(it, **k):
    if is_sym(it) or hasattr(it, "pyvc_list"):
        return S.hook("sorted", it, k)
    return sorted(it, **k)


def b_reversed(it):
    if isinstance(it, SeqView):
        return SeqView(it.n, lambda t: it.at(z3.simplify(it.n - 1 - t)), name=it.name + ".reversed", kind=it.kind)
    if is_sym(it):
        return S.hook("reversed", it)
    return reversed(it)


def b_next(it, *d):
    """next() of a generator over a sequence: the first value that satisfies its condition."""
    if not isinstance(it, SGen):
        return next(it, *d)
    q, f = it.it, it.cond or (lambda x: True)
    if not isinstance(q, SeqView):
        raise Unsupported("next")
    I = S.spec.index(S, q)
    found = S.choose(2, "next") == 1
    j = q.n
    if found:
        j = S.fresh("j", I_)
        S.assume(z3.And(j >= 0, j < q.n))
    if I is not None and S.branch(z3.And(I >= 0, I < j)):
        if f(q.at(I)):
            raise PathDead()
    if found:
        if I is not None and S.branch(I == j):
            j = I
        S.notes.setdefault("exit", []).append((q, j))
        x = q.at(j)
        if not f(x):
            raise PathDead()
        return it.f(x)
    if not d:
        throw(StopIteration())
    return d[0]


def b_min(*a, **k):
    return min(*a, **k)


def hook_list(*a):
    return list(a)


def hook_stars(kind, *parts):
    """`[*a, b]`, `{*a, b}`"""
    if not any(star and is_sym(v) and not getattr(v, "concrete", False) for star, v in parts):
        out = []
        for star, v in parts:
            out.extend(v) if star else out.append(v)
        return out if kind == "list" else SSet(out) if S and any(is_sym(x) for x in out) else set(out)
    r = None
    for star, v in parts:
        v = v if star else [v]
        if kind == "set":
            r = v if r is None else r.union(v) if hasattr(r, "union") else v.union(r)
        else:
            r = v if r is None else r + v
    return r.copy()


def hook_unpack(v, before, after):
    """`a, *rest, b = v` -> (a, rest, b)"""
    if hasattr(v, "unpack"):
        return v.unpack(before, after)
    v = list(v)
    if len(v) < before + after:
        throw(ValueError(f"not enough values to unpack (expected at least {before + after}, got {len(v)})"))
    return (*v[:before], v[before:len(v) - after], *v[len(v) - after:])


def hook_join(sep):
    """The method sep.join of a constant string."""
    def join(x):
        if is_sym(x) and not isinstance(x, SSet) or isinstance(x, SGen):
            return S.hook("str.join", sep, x)
        if S is not None and not isinstance(x, str):
            x = list(x)
            if any(isinstance(y, SStr) for y in x):
                out = ""
                for i, y in enumerate(x):
                    out = out + (sep if i else "") + y
                return out
        return sep.join(x)
    return join


def hook_in(x, c):
    if isinstance(c, (set, frozenset, dict)) and isinstance(x, SStr) and len(c) > 20 and all(type(y) is str for y in c):
        return mkb(z3.Or(*[x.t == z3.StringVal(y) for y in c]))
    if isinstance(c, (set, frozenset, dict)) and is_sym(x):
        for y in c:
            r = keyeq(x, y)
            if r is True or (r is not False and S.branch(r.t)):
                return True
        return False
    if isinstance(c, str) and is_sym(x):
        if isinstance(x, SStr):
            return mkb(z3.Contains(z3.StringVal(c), x.t))
        raise Unsupported("in str")
    if isinstance(c, (list, tuple)) and (is_sym(x) or any(is_sym(y) for y in c)):
        for y in c:
            r = keyeq(x, y)
            if r is True or (r is not False and S.branch(r.t)):
                return True
        return False
    return x in c


def hook_fstr(*parts):
    if not any(is_sym(p[0]) for p in parts):
        return "".join(format(p[1](p[0]), p[2]) for p in parts)
    ts = []
    for v, conv, spec in parts:
        if isinstance(v, (SStr, str)) and not spec and conv is _ident:
            ts.append(tos(v))
        elif not is_sym(v):
            ts.append(z3.StringVal(format(conv(v), spec)))
        else:
            ts.append(uf("fmt_" + conv.__name__, V, STR)(tov(v)))
    return mks(z3.Concat(*ts)) if len(ts) > 1 else mks(ts[0])


def _ident(x):
    return x


def hook_mark(e):
    try:
        e.pyvc_marked = True
    except (AttributeError, TypeError):
        return hook_mark(e())
    return e


def hook_rec(f):
    """A local function that calls itself: its body runs once, the calls it makes to itself are given by its contract."""
    active = []

    def wrapper(*a, **k):
        if active:
            return S.hook("rec", f.__name__, a, k)
        active.append(1)
        try:
            return f(*a, **k)
        finally:
            active.pop()
    wrapper.__name__ = f.__name__
    return wrapper


BUILTINS = {"isinstance": b_isinstance, "type": b_type, "len": b_len, "callable": b_callable, "hasattr": b_hasattr,
            "getattr": b_getattr, "setattr": b_setattr, "id": b_id, "any": b_any, "all": b_all, "dict": b_dict, "set": b_set,
            "list": b_list, "tuple": b_tuple, "enumerate": b_enumerate, "zip": b_zip, "sorted": b_sorted, "reversed": b_reversed,
            "bool": b_bool, "str": b_str, "next": b_next}
HOOKS = {"_pv_list": hook_list, "_pv_stars": hook_stars, "_pv_unpack": hook_unpack, "_pv_is": is_, "_pv_in": hook_in, "_pv_for": hook_for, "_pv_while": hook_while, "_pv_comp": hook_comp, "_pv_fstr": hook_fstr,
         "_pv_mark": hook_mark, "_pv_dict": lambda *es: SDict(es) if S else dict(es), "_pv_set": lambda *es: SSet(es) if S else set(es),
         "_pv_neg": neg_b, "_pv_rec": hook_rec, "_pv_join": hook_join, "_pv_ident": _ident}


# ---------------------------------------------------------------- rewriting
class Rewrite(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname, self.depth, self.n, self.qual = fname, 0, 0, []

    def fn(self, node):
        self.depth += 1
        self.qual.append(node.name if hasattr(node, "name") else "<lambda>")
        node = self.generic_visit(node)
        self.qual.pop()
        self.depth -= 1
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        if self.depth and any(isinstance(x, ast.Name) and x.id == node.name for b in node.body for x in ast.walk(b)):
            node.decorator_list = node.decorator_list + [ast.copy_location(ast.Name("_pv_rec", ast.Load()), node)]
        return self.fn(node)

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        d, self.depth = self.depth, 0
        node = self.generic_visit(node)
        self.depth = d
        self.qual.pop()
        return node

    def visit_Lambda(self, node):
        return self.fn(node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1:
            op, a, b = node.ops[0], node.left, node.comparators[0]
            names = {ast.Is: ("_pv_is", False), ast.IsNot: ("_pv_is", True), ast.In: ("_pv_in", False), ast.NotIn: ("_pv_in", True)}
            if type(op) in names:
                f, inv = names[type(op)]
                c = call(f, a, b)
                return ast.copy_location(call("_pv_neg", c) if inv else c, node)
        return node

    def visit_Attribute(self, node):
        node = self.generic_visit(node)
        if self.depth and node.attr == "join" and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str):
            return ast.copy_location(call("_pv_join", node.value), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(ast.Tuple([v, ast.Name("_pv_ident", ast.Load()), ast.Constant("")], ast.Load()))
            else:
                conv = {114: "repr", 115: "str", 97: "ascii"}.get(v.conversion, "_pv_ident")
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Name(conv, ast.Load()), spec], ast.Load()))
        return ast.copy_location(call("_pv_fstr", *parts), node)

    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if any(k is None for k in node.keys) or not self.depth:
            return node
        return ast.copy_location(call("_pv_dict", *[ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)]), node)

    def visit_List(self, node):
        node = self.generic_visit(node)
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return node
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return ast.copy_location(call("_pv_stars", ast.Constant("list"), *self.stars(node)), node)
        return ast.copy_location(call("_pv_list", *node.elts), node)

    def stars(self, node):
        return [ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load()) for e in node.elts]

    def visit_Assign(self, node):
        node = self.generic_visit(node)
        t = node.targets[0]
        if not self.depth or len(node.targets) != 1 or not isinstance(t, ast.Tuple):
            return node
        stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if len(stars) != 1:
            return node
        i = stars[0]
        node.value = ast.copy_location(call("_pv_unpack", node.value, ast.Constant(i), ast.Constant(len(t.elts) - i - 1)), node)
        node.targets = [ast.Tuple([e.value if isinstance(e, ast.Starred) else e for e in t.elts], ast.Store())]
        return fix(node, node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        if not self.depth:
            return node
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return ast.copy_location(call("_pv_stars", ast.Constant("set"), *self.stars(node)), node)
        if all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(call("_pv_set", *node.elts), node)

    def comp(self, node, kind, elt):
        if len(node.generators) != 1 or not self.depth or has_walrus(node):
            return self.generic_visit(node)
        node = self.generic_visit(node)
        g = node.generators[0]
        elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == "dict" else node.elt
        f = lam(g.target, elt)
        if f is None:
            return node
        cond = ast.Constant(None)
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = lam(_copy.deepcopy(g.target), test)
        return ast.copy_location(call("_pv_comp", ast.Constant(kind), g.iter, f, cond), node)

    def visit_ListComp(self, node):
        return self.comp(node, "list", None)

    def visit_GeneratorExp(self, node):
        return self.comp(node, "gen", None)

    def visit_SetComp(self, node):
        return self.comp(node, "set", None)

    def visit_DictComp(self, node):
        return self.comp(node, "dict", None)

    def visit_Raise(self, node):
        node = self.generic_visit(node)
        if node.exc is not None:
            node.exc = call("_pv_mark", node.exc)
        return node

    def where(self, node):
        return ".".join(self.qual) + f":{node.lineno}"

    def visit_For(self, node):
        if not self.depth:
            return self.generic_visit(node)
        names = carried(node.body) | assigned_target(node.target)
        where = self.where(node)
        TARGETS[where] = assigned_target(node.target)
        GROWN[where] = {x for b in node.body for x in grown(b)}
        MENTIONED[where] = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name)}
        node = self.generic_visit(node)
        self.n += 1
        c = f"_pv_c{self.n}"
        pre = ast.parse(f"{c} = _pv_for({self.n}, {where!r}, {tuple(sorted(names))!r}, 0)").body[0]
        pre.value.args[3] = node.iter
        node.iter = ast.Name(c, ast.Load())
        node.orelse = self.enter(c, names, "leave") + node.orelse
        out = [pre] + self.enter(c, names) + [node]
        return [ast.copy_location(fix(x, node), node) for x in out]

    def enter(self, c, names, what="enter"):
        if not names:
            return []
        tgt = ", ".join(sorted(names)) + ","
        return ast.parse(f"if {c}.sym:\n    ({tgt}) = {c}.{what}(locals())").body

    def visit_While(self, node):
        if not self.depth:
            return self.generic_visit(node)
        names = assigned(node.body) | assigned([ast.Expr(node.test)])
        where = self.where(node)
        GROWN[where] = {x for b in node.body for x in grown(b)}
        node = self.generic_visit(node)
        self.n += 1
        c = f"_pv_c{self.n}"
        pre = ast.parse(f"{c} = _pv_while({self.n}, {where!r}, {tuple(sorted(names))!r}, locals())").body
        node.test = ast.BoolOp(ast.And(), [ast.parse(f"{c}.head(locals())", mode="eval").body, node.test])
        out = pre + self.enter(c, names) + [node]
        return [ast.copy_location(fix(x, node), node) for x in out]


def grown(b):
    """The names whose contents a statement changes: x.append(...), x += ..., x[...] = ..., del x[...]."""
    for n in ast.walk(b):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "add", "update", "clear", "discard", "setdefault", "reverse", "sort", "appendleft", "popleft"):
            n = n.func.value
        elif isinstance(n, ast.AugAssign):
            n = n.target
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            n = n.value
        else:
            continue
        path = []
        while isinstance(n, ast.Attribute):
            path.insert(0, n.attr)
            n = n.value
        if isinstance(n, ast.Name):
            yield (n.id, *path)


def fix(x, at):
    for n in ast.walk(x):
        if not hasattr(n, "lineno") and isinstance(n, (ast.expr, ast.stmt)):
            n.lineno = n.end_lineno = at.lineno
            n.col_offset = n.end_col_offset = 0
    return x


def call(f, *a):
    return ast.Call(ast.Name(f, ast.Load()), list(a), [])


def has_walrus(node):
    return any(isinstance(n, ast.NamedExpr) for n in ast.walk(node))


def lam(target, body):
    def args(names):
        return ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])
    if isinstance(target, ast.Name):
        return ast.Lambda(args([target.id]), body)
    if isinstance(target, ast.Tuple) and all(isinstance(e, ast.Name) for e in target.elts):
        inner = ast.Lambda(args([e.id for e in target.elts]), body)
        return ast.Lambda(args(["_pv_x"]), ast.Call(inner, [ast.Starred(ast.Name("_pv_x", ast.Load()), ast.Load())], []))
    if isinstance(target, ast.Tuple) and len(target.elts) == 2 and isinstance(target.elts[0], ast.Name) and isinstance(target.elts[1], ast.Tuple) \
            and all(isinstance(e, ast.Name) for e in target.elts[1].elts):
        a, bs = target.elts[0].id, [e.id for e in target.elts[1].elts]
        inner = ast.Lambda(args([a] + bs), body)
        x = lambda: ast.Name("_pv_x", ast.Load())
        return ast.Lambda(args(["_pv_x"]), ast.Call(inner, [ast.Subscript(x(), ast.Constant(0), ast.Load()),
                          ast.Starred(ast.Subscript(x(), ast.Constant(1), ast.Load()), ast.Load())], []))
    return None


def assigned_target(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def assigned(body):
    """Names a block binds in the enclosing function."""
    out = set()

    class W(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        visit_ImportFrom = visit_Import
    w = W()
    for s in body:
        w.visit(s)
    return {n for n in out if not n.startswith("_pv_c")}


def carried(body):
    """Names whose assignments in a loop body may be followed by another iteration: those of blocks that end by leaving the loop are not."""
    def exits(block):
        return isinstance(block[-1], (ast.Break, ast.Return, ast.Raise)) and not any(isinstance(n, ast.Continue) for x in block for n in ast.walk(x))

    def blocks(block):
        if exits(block):
            return set()
        out = set()
        for x in block:
            if isinstance(x, ast.If):
                out |= assigned([ast.Expr(x.test)]) | blocks(x.body) | (blocks(x.orelse) if x.orelse else set())
            else:
                out |= assigned([x])
        return out
    return blocks(body)


_cache = {}
TARGETS = {}            # loop -> the variables of its target
GROWN = {}            # where -> names of which the body of a loop changes the contents
MENTIONED = {}        # where -> names in the body of a for loop


def load(path, imports, name=None, extra=None, post=None):
    """Instruments /repo/<path> and executes it.  `imports`: module name -> stand-in module/namespace."""
    full = os.path.join(REPO, path)
    src = open(full, encoding="utf-8").read()
    key = (path, src)
    if key not in _cache:
        tree = ast.parse(src, full)
        tree = Rewrite(path).visit(tree)
        _cache[key] = compile(ast.fix_missing_locations(tree), full, "exec", dont_inherit=True)
    mod = types.ModuleType(name or path.replace("/", ".")[:-3])
    pkg = path.replace("/", ".").rsplit(".", 2)[0]

    def imp(n, g=None, l=None, fl=(), level=0):
        full = n
        if level:
            base = pkg.split(".")
            base = base[: len(base) - (level - 1)]
            full = ".".join(base + ([n] if n else []))
        if full in imports:
            return imports[full]
        for f in fl or ():
            if full + "." + f in imports:
                m = types.ModuleType(full)
                for g2 in fl:
                    if full + "." + g2 in imports:
                        setattr(m, g2, imports[full + "." + g2])
                return m
        if full.split(".")[0] in ALLOWED:
            return builtins.__import__(full, g, l, fl, 0)
        return Stub(full)
    b = dict(vars(builtins))
    b.update(BUILTINS)
    b["__import__"] = imp
    mod.__dict__.update(HOOKS)
    mod.__dict__["__builtins__"] = b
    mod.__dict__["__file__"] = full
    if extra:
        mod.__dict__.update(extra)
    sys.modules.setdefault(mod.__name__, mod)
    exec(_cache[key], mod.__dict__)
    if post:
        post(mod)
    return mod


ALLOWED = {"logging", "typing", "dataclasses", "enum", "abc", "functools", "operator", "time", "re", "itertools", "queue", "collections", "weakref",
           "ast", "copy", "textwrap", "warnings", "json", "pathlib", "sys", "os", "importlib", "types", "argparse", "inspect", "traceback", "html", "contextlib"}


class Stub(types.ModuleType):
    """An import without model: every use is Unsupported (as a base class it is a plain class)."""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        q = f"{self.__name__}.{n}"

        class StubMeta(type):
            def __call__(cls, *a, **k):
                if cls.__dict__.get("pyvc_stub"):
                    raise Unsupported(f"call of {cls.pyvc_stub}")
                return super().__call__(*a, **k)

            def __getattr__(cls, m):
                if m.startswith("__"):
                    raise AttributeError(m)
                raise Unsupported(f"{q}.{m}")
        c = StubMeta(n, (), {"pyvc_stub": q})
        setattr(self, n, c)
        return c


def ns(**k):
    m = types.ModuleType("ns")
    m.__dict__.update(k)
    return m


# ---------------------------------------------------------------- exploration
class Spec:
    """Defaults of the loop rules; contracts override what they need."""
    def iterable(self, S, it, where):
        if hasattr(it, "as_seq"):
            return it.as_seq()
        return it

    def tracked(self, S, d):
        raise Unsupported("loop over a symbolic dict")

    def other_key(self, S, d, keys):
        k = S.fresh("k2", V)
        k2 = SV(k, "any")
        for x in keys:
            S.assume(z3.Not(tob(keyeq(k2, x))))
        return k2

    def truth_tested(self, S, d):
        pass

    def finish(self, ex):
        pass

    def others_truth(self, S, d):
        return S.branch(tob(d.others))

    def dict_coll(self, view):
        return DictProj(view)

    def loop_frame(self, S, coll, must, val, muts):
        for o, what, k, v in muts:
            # an iteration may change other dicts at its own key
            d = getattr(coll.view.d, "owner", coll.view.d)
            key = val if coll.view.what == 0 else val[0] if coll.view.what == 2 else None
            if not isinstance(o, SDict) or o is d or what not in ("put", "del") or key is None or not S.check_always(tob(keyeq(k, key))):
                raise Unsupported("effects in a projected loop")
            if must != "end":
                o.only = list(S.spec.tracked(S, coll.view.d))

    def seq_frame(self, S, coll, must, val, muts):
        if muts:
            raise Unsupported("effects in a projected loop")

    def index(self, S, seq):
        return None

    def while_rule(self, S, where, vs, loc):
        return None

    def gen_any(self, S, g):
        """any() over an unbounded collection, projected at the designated element."""
        it = g.it
        f = g.f if g.cond is None else (lambda x: g.f(x) if g.cond(x) else False)
        if isinstance(it, SView):
            keys = self.tracked(S, it.d)
            hit = [it.pick(k, it.d[k]) for k in keys if k in it.d]
            if S.choose(2, "any") == 0:
                for h in hit:
                    if f(h):
                        raise PathDead()
                return False
            k2 = SV(S.fresh("k"), "any") if not S.spec.key_is_str else S.str("k")
            if k2 not in it.d:
                raise PathDead()
            if not f(it.pick(k2, it.d[k2])):
                raise PathDead()
            return True
        I = self.index(S, it)
        if S.choose(2, "any") == 0:
            if I is not None and S.branch(z3.And(I >= 0, I < it.n)):
                if f(it.at(I)):
                    raise PathDead()
            return False
        j = S.fresh("j", I_)
        S.assume(z3.And(j >= 0, j < it.n))
        if not f(it.at(j)):
            raise PathDead()
        return True
    key_is_str = False


class Explore:
    def __init__(self, name, spec=None, hooks=None, field_hooks=None, limit=40.0, unroll=24, branch_ms=2000, max_paths=4000):
        self.name, self.spec = name, spec or Spec()
        self.hooks, self.field_hooks = hooks or {}, field_hooks or {}
        self.deadline = time.time() + limit
        self.unroll, self.branch_ms, self.max_paths = unroll, branch_ms, max_paths
        self.work = [[]]
        self.seen = {}
        self.notes = {}
        self.stats = {"solver_s": 0.0, "branch_queries": 0, "paths": 0, "complete": 0}
        self.results = {}        # clause -> list of (status, detail)
        self.covers, self.unsupported = set(), []
        self.vcs, self.keep = [], []

    def run(self, body):
        """body(S) runs the function under contract on symbolic inputs and states the clauses."""
        global S
        while self.work:
            if self.stats["paths"] >= self.max_paths or time.time() > self.deadline:
                self.unsupported.append("path or time limit")
                break
            prefix = self.work.pop()
            S = Path(self, prefix)
            self.stats["paths"] += 1
            dead = False
            try:
                body(S)
            except PathEnd:
                pass
            except PathDead:
                dead = True
            except Unsupported as e:
                if not self.lazy_dead(S):
                    self.unsupported.append(str(e) + where_tb(e))
                dead = True
            except RecursionError:
                self.unsupported.append("recursion without contract")
                dead = True
            except Exception as e:
                self.unsupported.append(f"engine: {type(e).__name__}: {e}" + where_tb(e))
                dead = True
            if not dead and S.notes.get("outcome") != "raise" and any(getattr(l, "open", False) for l in S.loops):
                self.unsupported.append("a loop is left early")
                dead = True
            if dead or not all(l.ok() for l in S.loops if hasattr(l, "ok")):
                S = None
                continue
            self.stats["complete"] += 1
            self.covers |= S.covers
            self.discharge(S)
            S = None
        self.spec.finish(self)
        return self

    def lazy_dead(self, S):
        return S.check() == z3.unsat

    def discharge(self, P):
        for l in P.loops:
            if getattr(l, "pending", None) == "end":
                if P.notes.get("outcome") == "raise":
                    return      # an iteration that raises is covered by the run at that very element
                P.oblige("loop_visits_every_element", False, "the loop is left early")
        ids, inc, added = [], z3.Solver(), 0     # ids[i]: identity of the first i+1 conditions of the path
        inc.set("timeout", 1500)
        for t in P.pc:
            ids.append(hash((ids[-1] if ids else 0, t.get_id())))
        self.keep.append(P.pc)                  # keeps the terms alive
        for name, cond, n, detail in P.obls:
            dk = (name, cond.get_id(), ids[n - 1] if n else 0, n)
            if dk in self.seen:
                continue
            self.seen[dk] = cond                # keeps the term alive
            pc = P.pc[:n]
            t0 = time.time()
            if z3.is_true(cond):
                self.results.setdefault(name, []).append(("proved", "", "evaluation"))
                continue
            s, r = None, z3.unknown
            if not KEEP_SMT:                    # the conditions of a path grow: a solver that keeps them is faster
                inc.add(*P.pc[added:n])
                added = max(n, added)
                inc.push()
                inc.add(z3.Not(cond))
                r = inc.check()
                inc.pop()
            if r != z3.unsat:
                s = z3.Solver()
                s.set("timeout", self.spec_timeout())
                s.add(*pc, z3.Not(cond))
                r = s.check()
            dt = time.time() - t0
            self.stats["solver_s"] += dt
            backend = "z3"
            if r == z3.unknown:
                r2 = cvc5_check(s, 8)
                backend = "cvc5"
                r = {"unsat": z3.unsat, "sat": z3.sat}.get(r2, z3.unknown)
            if r == z3.unsat:
                res = ("proved", "", backend)
                if KEEP_SMT:
                    self.vcs.append((name, s.to_smt2()))
            elif r == z3.sat and not P.tainted:
                m = ""
                if backend == "z3":
                    try:
                        m = str(s.model())[:1500]
                    except z3.Z3Exception:
                        pass
                res = ("refuted", f"{detail}; counterexample to induction/contract on path {P.trail}: {m}", backend)
            else:
                res = ("unknown", f"{detail}; {P.tainted or 'solver gave up'}", backend)
            self.results.setdefault(name, []).append(res)

    def spec_timeout(self):
        return 10000


KEEP_SMT = False


def where_tb(e):
    import traceback
    fs = traceback.extract_tb(e.__traceback__)
    out = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in fs if f.filename.startswith(REPO)]
    out2 = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in fs[-2:]]
    return f" [{' '.join(out[-2:])} | {' '.join(out2)}]"


def cvc5_check(solver, timeout_s):
    """Second opinion (z3's SMT-LIB export, cvc5 binary)."""
    import subprocess, tempfile
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + solver.to_smt2())
        p = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % (timeout_s * 1000), f.name], capture_output=True, text=True, timeout=timeout_s + 5)
        return (p.stdout.split() or ["unknown"])[0]
    except Exception:
        return "unknown"
    finally:
        try:
            os.remove(f.name)
        except Exception:
            pass


def outcome(f, *a, **k):
    """('return', value) or ('raise', exception); engine artefacts become Unsupported."""
    try:
        r = f(*a, **k)
        S.notes["outcome"] = "return"
        return "return", r
    except Unsupported:
        raise
    except Exception as e:
        S.notes["outcome"] = "raise"
        if getattr(e, "pyvc_marked", False) or isinstance(e, (KeyError, IndexError, StopIteration, AssertionError, UnboundLocalError)):
            return "raise", e
        if isinstance(e, ValueError) and "not in list" in str(e):
            return "raise", e
        raise Unsupported(f"python raised {type(e).__name__}: {e}" + where_tb(e))

"""What all contracts share: the Unit record and symbolic pre-states."""
import os, sys
import z3
import engine as E
from engine import *          # noqa: F401,F403
from engine import V, NONE, SV, SB, SI, SStr, SDict, SSet, SeqView, Base, Spec, Explore, Kind, mkb, mki, tob, tov, toi, tos, uf, outcome, load, ns


class Unit:
    def __init__(self, name, props, functions, body, spec=None, hooks=None, field_hooks=None, covers=(), assumes=(), doc="", limit=40,
                 soft=False, bounded=None, unroll=24, max_paths=4000):
        self.name, self.props, self.functions, self.body = name, props, functions, body
        self.spec, self.hooks, self.field_hooks = spec, hooks, field_hooks
        self.covers, self.assumes, self.doc, self.limit, self.soft, self.bounded = list(covers), list(assumes), doc, limit, soft, bounded
        self.unroll, self.max_paths = unroll, max_paths

    def run(self, limit):
        ex = Explore(self.name, spec=self.spec() if isinstance(self.spec, type) else self.spec, hooks=self.hooks, field_hooks=self.field_hooks,
                     limit=limit, unroll=self.unroll, max_paths=self.max_paths)
        return ex.run(self.body)


UNITS_BY_MODULE = {}


def unit(lst, name, props, functions, **kw):
    def deco(f):
        lst.append(Unit(name, props, functions, f, doc=(f.__doc__ or "").strip(), **kw))
        return f
    return deco


def mem_base(has, val):
    """Base whose values are remembered per key (mutable values keep their identity)."""
    memo = []

    def get(k):
        for k2, v in memo:
            r = E.keyeq(k, k2)
            if r is True or (r is not False and E.S.branch(tob(r))):
                return v
        v = val(k)
        memo.append((k, v))
        return v
    return Base(has, get)


def sym_dict(name, kind="any", key=None):
    """An arbitrary dict: has_<name>(k), val_<name>(k)."""
    key = key or tov
    h, v = uf(f"has_{name}", V, z3.BoolSort()), uf(f"val_{name}", V, V)
    return SDict(base=Base(lambda k: mkb(h(key(k))), lambda k: E.S.wrap(v(key(k)), kind)), name=name)

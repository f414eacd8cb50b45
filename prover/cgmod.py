"""collagraph/collagraph.py and types.py, instrumented, with the imports replaced by their contracts."""
from base import *
import engine as E
from contracts.component import RO, Reactive


def types_module():
    return load("collagraph/types.py", {}, name="collagraph.types_v")


class Watcher:
    pass


def collagraph_module(watch=None, **models):
    T = types_module()
    M = load("collagraph/collagraph.py",
             {"collagraph.types": T, "collagraph.compare": ns(equivalent_functions=models.get("equivalent_functions", lambda a, b, *c: E.S.hook("equivalent_functions", a, b))),
              "collagraph.renderers": ns(Renderer=models.get("Renderer", object)),
              "observ": ns(reactive=models.get("reactive", Reactive), scheduler=models.get("scheduler"), to_raw=models.get("to_raw", lambda x: E.S.hook("to_raw", x))),
              "observ.dep": ns(Dep=models.get("Dep", ns(stack=[]))), "observ.watcher": ns(Watcher=models.get("Watcher", Watcher)),
              "queue": ns(LifoQueue=models.get("LifoQueue"), SimpleQueue=models.get("SimpleQueue")),
              "time": ns(perf_counter_ns=models.get("now", lambda: E.S.hook("now"))),
              **models.get("imports", {})},
             name="collagraph.collagraph_v")
    M.T = T
    return M


def bare(cls, **attrs):
    o = cls.__new__(cls)
    for k, v in attrs.items():
        object.__setattr__(o, k, v)
    return o


class Recorder:
    """A renderer: every call is an event of the trace."""
    def __init__(self, **models):
        self.__dict__.update(models)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            E.S.event(n, *a, *([("kw", k)] if k else []))
        return f

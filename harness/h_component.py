"""C04 C07 C08 C09 C15: contracts of the Component methods, called directly."""
import functools, itertools, random
from common import Fail
import collagraph as cg
from collagraph import Component

VALS = [0, None, "", False, "v", 1, []]


class Falsy(Component):
    def __bool__(self):
        return False

    def render(self):
        pass


class Plain(Component):
    cls_attr = "class"

    def render(self):
        pass

    def method(self):
        pass


class Other(Component):
    extra = "other"

    def render(self):
        pass


# ------------------------------------------------------------------ inject
def inject(case):
    """case: {"chain": [{key: index in VALS}, ...] outermost first, "ops": [...]}"""
    comps, parent = [], None
    for i, prov in enumerate(case["chain"]):
        c = Plain({}, parent)
        comps.append(c)
        parent = c
    sib = Plain({}, comps[0]) if comps else None
    if sib:
        sib.provide("a", "sibling")
    model = [dict() for _ in comps]
    for i, prov in enumerate(case["chain"]):
        for k, v in prov.items():
            comps[i].provide(k, VALS[v])
            model[i][k] = VALS[v]
    for i, k, v in case.get("ops", []):
        if i < len(comps):
            comps[i].provide(k, VALS[v])
            model[i][k] = VALS[v]
    for i, c in enumerate(comps):
        for k in ("a", "b", "z"):
            for default in ((), ("D",), (None,)):
                want = default[0] if default else None
                for j in range(i - 1, -1, -1):
                    if k in model[j]:
                        want = model[j][k]
                        break
                got = c.inject(k, *default)
                if got is not want:
                    return f"inject: component {i} of {case['chain']}: inject({k!r}) gave {got!r} instead of {want!r}"
    for i, c in enumerate(comps):
        if c.parent is not (comps[i - 1] if i else None):
            return "inject: parent is wrong"


def inject_rand(rng, size=None):
    n = rng.randrange(1, 7)
    return {"chain": [{k: rng.randrange(len(VALS)) for k in rng.sample(["a", "b"], rng.choice([0, 0, 1, 2]))} for _ in range(n)],
            "ops": [[rng.randrange(n), rng.choice("ab"), rng.randrange(len(VALS))] for _ in range(rng.randrange(3))]}


def inject_ex(tier):
    for n in (1, 2, 3):
        for chain in itertools.product([{}, {"a": 0}, {"a": 1}, {"a": 4}, {"b": 2}], repeat=n):
            yield {"chain": list(chain)}


# ------------------------------------------------------------------ events
class H:
    """Handlers; what they do when called is part of the case."""
    def __init__(self, run, name):
        self.run, self.name = run, name

    def __call__(self, *args, **kw):
        self.run.called(self.name, args, kw)


class EqH(H):
    """Equal to each other by name."""
    def __eq__(self, o):
        return isinstance(o, EqH) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Emit:
    def __init__(self, case):
        self.case, self.c = case, Plain({}, None)
        self.hs = {n: (EqH if n.startswith("e") else H)(self, n) for n in ("h0", "h1", "h2", "e0")}
        self.model, self.log, self.depth = {}, [], 0
        self.react = dict(case.get("react") or {})

    def called(self, name, args, kw):
        self.log.append((name, args, tuple(sorted(kw.items()))))
        todo = self.react.pop(name, None)
        if todo:
            self.depth += 1
            self.do(todo)
            self.depth -= 1

    def do(self, op):
        what, ev, n = op
        if what == "add":
            self.c.add_event_handler(ev, self.hs[n])
            self.model.setdefault(ev, set()).add(n)
        elif what == "remove":
            if n in self.model.get(ev, ()):
                self.c.remove_event_handler(ev, self.hs[n])
                self.model[ev].discard(n)
        elif what == "emit":
            want = sorted(self.model.get(ev, ()))
            before = len(self.log)
            args = (n, 1) if n != "none" else ()
            kw = {"k": n} if n == "kw" else {}
            outer, self.log = self.log, []
            expect = []
            self.c.emit(ev, *args, **kw)
            mine = [e for e in self.log if e[1] == args and e[2] == tuple(sorted(kw.items()))]
            got = sorted(e[0] for e in mine) if not self.nested else None
            if not self.nested:
                if sorted(e[0] for e in self.log) != want or len(mine) != len(self.log):
                    raise Fail(f"emit: emit({ev!r}, {args}, {kw}) with handlers {want} made the calls {self.log}")
            self.log = outer + self.log

    nested = False

    def run(self):
        for op in self.case["ops"]:
            self.do(op)
        return None


def emit(case):
    return Emit(case).run()


def emit_rand(rng, size=None):
    evs, hs = ["x", "y"], ["h0", "h1", "h2", "e0"]

    def op(kinds):
        k = rng.choice(kinds)
        return [k, rng.choice(evs), rng.choice(hs if k != "emit" else ["none", "a", "kw"])]
    return {"ops": [op(["add", "add", "remove", "emit"]) for _ in range(rng.randrange(1, 12))] + [["emit", "x", "a"], ["emit", "y", "a"]],
            "react": {h: op(["add", "remove"]) for h in hs if rng.random() < 0.4}}


def emit_ex(tier):
    hs = ["h0", "h1"]
    acts = [["add", "x", "h0"], ["add", "x", "h1"], ["remove", "x", "h0"], ["remove", "x", "h1"], ["add", "y", "h0"], ["emit", "x", "a"]]
    for n in (1, 2, 3, 4):
        for ops in itertools.product(acts, repeat=n):
            yield {"ops": [*ops, ["emit", "x", "kw"], ["emit", "y", "none"]]}
    for a in acts[:5]:
        for b in acts[:5]:
            yield {"ops": [["add", "x", "h0"], ["add", "x", "h1"], ["emit", "x", "a"], ["emit", "x", "a"]], "react": {"h0": a, "h1": b}}


# ------------------------------------------------------------------ handlers of rendered components
class Emitter(Component):
    made = []

    def __init__(self, props=None, parent=None):
        super().__init__(props, parent)
        Emitter.made.append(self)

    def render(self):
        return cg.h("leaf")


def handler_of(kind, log):
    """A new callable for every call, except for the kinds that start with `same`."""
    if kind.startswith("same"):
        return HANDLERS.setdefault((id(log), kind), lambda *a, **k: log.append((kind, a, k)))
    if kind.startswith("eq"):
        return lambda *a, **k: log.append((kind, a, k))
    if kind.startswith("partial"):
        return functools.partial(note, log, kind)
    return H2(log, kind).call


HANDLERS = {}


def note(log, kind, *a, **k):
    log.append((kind, a, k))


class H2:
    def __init__(self, log, kind):
        self.log, self.kind = log, kind

    def call(self, *a, **k):
        self.log.append((self.kind, a, k))


def rendered(case):
    """case: list of renders, each {event: kind}; after each, exactly the described handlers are called."""
    HANDLERS.clear()
    log, Emitter.made = [], []
    gui = cg.Collagraph(cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
    root = {"type": "root"}
    for n, desc in enumerate(case["renders"]):
        props = {f"on_{e}": handler_of(k, log) for e, k in desc.items()}
        if case.get("other"):
            props["p"] = n
        gui.render(cg.h(case.get("within") or "box", {}, cg.h(Emitter, props)), root)
        if len(Emitter.made) != 1:
            return f"emit: the component was made {len(Emitter.made)} times"
        for e in ("a", "b", "c"):
            del log[:]
            Emitter.made[0].emit(e, 1, k=2)
            want = [(desc[e], (1,), {"k": 2})] if e in desc else []
            if log != want:
                return f"emit: after the renders {case['renders'][:n + 1]}, emitting {e!r} made the calls {log} instead of {want}"


KINDS = ["same0", "same1", "eq0", "eq1", "partial0", "partial1", "bound0"]


def rendered_rand(rng, size=None):
    return {"renders": [{e: rng.choice(KINDS) for e in "abc" if rng.random() < 0.6} for _ in range(rng.randrange(1, 7))], "other": rng.random() < 0.5,
            "within": rng.choice(["box", "template"])}


def rendered_ex(tier):
    kinds = [None, "same0", "eq0", "eq1", "bound0"]
    for ks in itertools.product(kinds, repeat=3):
        yield {"renders": [{"a": k} if k else {} for k in ks]}
    for ks in itertools.product([None, "eq0", "eq1"], repeat=4):
        yield {"renders": [{"a": k} if k else {} for k in ks], "other": True}


# ------------------------------------------------------------------ lookup
NAMES = ["n0", "n1", "method", "cls_attr", "extra", "state", "props", "late"]


def lookup(case):
    """case: list of operations on two instances of different classes."""
    insts = [Plain({k: f"prop0{k}" for k in case["props"][0]}, None), Other({k: f"prop1{k}" for k in case["props"][1]}, None), Plain({k: f"prop2{k}" for k in case["props"][2]}, None)]
    from observ import reactive
    models = [{"props": {k: f"prop{i}{k}" for k in case["props"][i]}, "state": {}, "attr": {}} for i in range(3)]
    for what, i, name in case["ops"]:
        c, m = insts[i], models[i]
        if what == "state":
            c.state[name] = m["state"][name] = f"state{i}{name}"
        elif what == "unstate":
            if name in m["state"]:
                del c.state[name]
                del m["state"][name]
        elif what == "none":
            c.state[name] = m["state"][name] = None
        elif what == "attr":
            if name in ("state", "props"):
                continue
            setattr(c, name, f"attr{i}{name}")
            m["attr"][name] = f"attr{i}{name}"
        elif what == "unattr":
            if name in m["attr"]:
                delattr(c, name)
                del m["attr"][name]
        elif what == "prop":
            w = reactive(c.props)
            w[name] = m["props"][name] = f"newprop{i}{name}"
        elif what == "unprop":
            if name in m["props"]:
                del reactive(c.props)[name]
                del m["props"][name]
        elif what in ("look", "lookg"):
            ctx = {name: f"global{name}"} if what == "lookg" else {}
            if name in m["props"]:
                want = m["props"][name]
            elif name in m["state"]:
                want = m["state"][name]
            elif name in m["attr"]:
                want = m["attr"][name]
            elif hasattr(c, name):
                want = getattr(c, name)
            elif ctx:
                want = ctx[name]
            else:
                want = NameError
            try:
                got = c._lookup(name, ctx)
            except NameError as e:
                got = NameError
                if name not in str(e):
                    return f"lookup: the NameError does not carry the name {name}: {e}"
            if not (got is want or got == want):
                return f"lookup: {name} on instance {i} gave {got!r} instead of {want!r} after {case['ops']}"


def lookup_rand(rng, size=None):
    ops = []
    for _ in range(rng.randrange(1, 12)):
        ops.append([rng.choice(["state", "unstate", "none", "attr", "unattr", "prop", "unprop", "look", "look", "lookg", "lookg"]), rng.randrange(3), rng.choice(NAMES)])
    for i in range(3):
        ops.append([rng.choice(["look", "lookg"]), i, rng.choice(NAMES)])
    return {"props": [rng.sample(NAMES, rng.choice([0, 1, 2])) for _ in range(3)], "ops": ops}


def lookup_ex(tier):
    acts = [["state", 0, "n0"], ["unstate", 0, "n0"], ["attr", 0, "n0"], ["unattr", 0, "n0"], ["prop", 0, "n0"], ["unprop", 0, "n0"], ["look", 0, "n0"], ["lookg", 0, "n0"], ["lookg", 1, "n0"], ["state", 2, "n0"], ["look", 2, "n0"]]
    for n in (1, 2, 3):
        for ops in itertools.product(acts, repeat=n):
            yield {"props": [[], [], []], "ops": [*ops, ["lookg", 0, "n0"], ["look", 0, "n0"], ["lookg", 2, "n0"]]}
    for p in ([], ["n0"]):
        for name in NAMES:
            yield {"props": [p, [], [name]], "ops": [["lookg", i, name] for i in (0, 1, 2, 1, 0)]}


def setters(case):
    c = Plain({"a": 1}, None)
    child = Falsy({}, c)
    grand = Plain({}, child)
    if grand.parent is not child or child.parent is not c or c.parent is not None:
        return "props: parent is not the component that was given"
    for name in ("props", "state", "element", "parent"):
        for v in (None, {}, 1, c):
            old = getattr(child, name)
            try:
                setattr(child, name, v)
            except RuntimeError:
                pass
            else:
                return f"props: {name} of a component can be rebound to {v!r}"
            if getattr(child, name) is not old and getattr(child, name) != old:
                return f"props: {name} changed"
    for f in (lambda p: p.__setitem__("a", 2), lambda p: p.__delitem__("a"), lambda p: p.clear(), lambda p: p.update(a=2), lambda p: p.setdefault("b", 2), lambda p: p.pop("a"), lambda p: p.popitem()):
        try:
            f(c.props)
        except Exception:
            pass
        if dict(c.props.items()) != {"a": 1}:
            return "props: a component can write to its props"


def families(pid):
    f = {}
    if pid == "C08":
        f["inject small chains"] = (None, inject, inject_ex)
        f["inject random chains"] = (inject_rand, inject, None)
    if pid in ("C09", "C04"):
        f["emit small histories"] = (None, emit, emit_ex)
        f["emit random histories"] = (emit_rand, emit, None)
        f["handlers of rendered components, small histories"] = (None, rendered, rendered_ex)
        f["handlers of rendered components"] = (rendered_rand, rendered, None)
    if pid == "C15":
        f["lookup small histories"] = (None, lookup, lookup_ex)
        f["lookup random histories"] = (lookup_rand, lookup, None)
    if pid == "C07":
        f["accessors"] = (None, setters, lambda tier: iter([0]))
    return f

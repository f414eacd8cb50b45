"""C01 C02 C03 C04 C06 C07 C08: the contracts on rendered histories."""
import core, gen
from core import reactive, h
import collagraph as cg

ASPECTS = {"C01": ["tree"], "C02": ["identity"], "C03": ["calls"], "C04": ["handlers"],
           "C06": ["hooks"], "C07": ["props"], "C08": ["inject"], "C11": ["tree"]}


def checker(pid):
    def check(case):
        return core.Sim(case, ASPECTS[pid]).run()
    return check


def nested(rng, size=None):
    """Chains of components with provided values, re-rendered."""
    def chain(n):
        d = {"k": "el", "t": "i", "c": []}
        for _ in range(n):
            d = {"k": "cls", "t": rng.choice(["C0", "C1"]), "d": d,
                 "prov": {k: rng.choice([0, None, "v", 1, "", False]) for k in rng.sample(["a", "b"], rng.choice([0, 0, 1, 2]))}}
            if rng.random() < 0.3:
                d = {"k": "el", "t": "a", "c": [d, {"k": "cls", "t": "C0", "prov": {"a": "sib"}, "d": {"k": "el", "t": "b"}}]}
        return d
    a = chain(rng.randrange(1, 6))
    return {"steps": [a, gen.mutate(rng, a), chain(rng.randrange(1, 5))]}


def attrpairs(rng, size=None):
    """One element (or component) whose attributes and handlers change a few times."""
    def one():
        p, ev = gen.attrs(rng), gen.events(rng)
        if rng.random() < 0.3:
            return {"k": "cls", "t": "C0", "p": p, "ev": gen.events(rng, ("ping", "pong", "Save")), "d": {"k": "el", "t": "a"}}
        return {"k": "el", "t": "a", "p": p, "ev": ev}
    first = one()
    steps = [{"k": "el", "t": "app", "c": [first]}]
    for _ in range(rng.randrange(1, 6)):
        nxt = one()
        if rng.random() < 0.7 and nxt["k"] == first["k"]:
            nxt["ev"] = {**nxt["ev"], **first["ev"]} if rng.random() < 0.6 else nxt["ev"]
        first = nxt
        steps.append({"k": "el", "t": "app", "c": [first]})
    return {"steps": steps}


class Deep(core.Component):
    def render(self):
        v = self.props["v"] if "v" in self.props else []
        return h("deep", {"v": str([x if isinstance(x, int) else {"x": x["x"]} for x in v])})


def live_props(case):
    """In-place changes of values that a parent replaced: case = list of operations."""
    s = reactive({"v": [0], "w": 0})

    class Parent(cg.Component):
        def render(self):
            return h("app", {}, h(Deep, {"v": s["v"]}))
    r = core.Rec()
    root = core.El("ROOT", ())
    gui = core.Collagraph(r, event_loop_type=core.EventLoopType.SYNC)
    gui.render(h(Parent, {}), root)
    for n, op in enumerate(case):
        if op[0] in ("replace", "nest"):
            new = [op[1]] if op[0] == "replace" else [{"x": op[1]}]
            # Replacing a value by an equal one is no change (as far as observ is concerned)
            if core.to_raw(s["v"]) != new:
                s["v"] = new
        elif op[0] == "append":
            s["v"].append(op[1])
        elif op[0] == "deep":
            for x in s["v"]:
                if not isinstance(x, int):
                    x["x"] = op[1]
        got = root.children[0].children[0].attrs["v"]
        want = str(core.to_raw(s["v"]))
        if got != want:
            return f"props: after {case[:n + 1]} the component shows {got} instead of {want}"


def live_ops(rng, size=None):
    return [[rng.choice(["replace", "append", "nest", "deep"]), rng.randrange(4)] for _ in range(rng.randrange(1, 7))]


def readonly(case):
    """Components can not write to their props or rebind the accessors."""
    out = []

    class C(cg.Component):
        def render(self):
            for name in ("props", "state", "element", "parent"):
                old = getattr(self, name)
                try:
                    setattr(self, name, {"x": 1})
                    out.append(f"{name} can be rebound")
                except RuntimeError:
                    pass
                now = getattr(self, name)
                if not (now is old or now == old):
                    out.append(f"{name} changed by the failing rebind")
            for what, f in {"set item": lambda p: p.__setitem__("a", 9), "del item": lambda p: p.__delitem__("a"),
                            "update": lambda p: p.update({"a": 9}), "pop": lambda p: p.pop("a"), "clear": lambda p: p.clear(),
                            "nested append": lambda p: p["l"].append(1)}.items():
                try:
                    f(self.props)
                except Exception:
                    pass
                if core.to_raw(self.props) != want:
                    out.append(f"props can be written to by `{what}`")
            return h("a")
    want = {"a": case, "l": [1]}
    gui = core.Collagraph(core.Rec(), event_loop_type=core.EventLoopType.SYNC)
    gui.render(h(C, {"a": case, "l": [1]}), core.El("ROOT", ()))
    c = C({"a": case, "l": [1]})
    c.render()
    return f"props: {out[0]}" if out else None


def shared_mapping(case):
    """A mapping that is passed as props is never changed by an update."""
    how = case["how"]
    data = {"a": {"x": 1}, "b": {"x": 2}}
    s = reactive({"sel": "a", **data} if how != "plain" else {"sel": "a"})
    plain = {"a": {"x": 1}, "b": {"x": 2}}
    src = (lambda k: s[k]) if how != "plain" else (lambda k: plain[k])

    class P(cg.Component):
        def render(self):
            return h("app", {}, h(Deep, src(s["sel"])))
    gui = core.Collagraph(core.Rec(), event_loop_type=core.EventLoopType.SYNC)
    gui.render(h(P, {}), core.El("ROOT", ()))
    s["sel"] = "b"
    s["sel"] = "a"
    now = core.to_raw(s) if how != "plain" else plain
    if now["a"] != {"x": 1} or now["b"] != {"x": 2}:
        return f"props-shared-mapping: the mapping passed as props was changed to {now['a']}"


def none_props(rng, size=None):
    """Component props that appear, stay, change and vanish, often None."""
    def one():
        return {"k": "cls", "t": "C0", "p": {k: rng.choice([None, None, 0, "x"]) for k in "tuv" if rng.random() < 0.6}, "d": {"k": "el", "t": "a"}}
    return {"steps": [{"k": "el", "t": "app", "c": [one()]} for _ in range(rng.randrange(2, 6))]}


SLOTS = ["default", "x", "a b", "Default"]


def slot_histories(rng, size=None):
    """Components that render slots, with slot content that comes, changes and goes."""
    def content():
        return [{"k": rng.choice(["el", "el", "text", "tpl"]), "t": rng.choice(gen.TYPES), "s": rng.choice("tu"), "c": []} for _ in range(rng.randrange(3))]

    def inner():
        c = [rng.choice([{"k": "el", "t": "b", "p": {"n": rng.randrange(3)}, "c": []},
                         {"k": "slot", "n": rng.choice(SLOTS), "c": content() if rng.random() < 0.6 else []}])
             for _ in range(rng.randrange(1, 5))]
        return {"k": "el", "t": "card", "p": {"n": rng.randrange(3)}, "c": c}

    def one(keep=None):
        d = {"k": "cls", "t": "C0", "p": {"n": rng.randrange(3)}, "d": keep["d"] if keep and rng.random() < 0.6 else inner()}
        names = [n for n in rng.sample(SLOTS, len(SLOTS)) if rng.random() < 0.5]
        if names:
            d["slots"] = {n: content() for n in names}
        if rng.random() < 0.2:
            d["slots"] = {"default": [{"k": "cls", "t": "C1", "d": inner(), "slots": {"x": content()} if rng.random() < 0.5 else {}}]}
        return d
    a = one()
    steps = [{"k": "el", "t": "app", "c": [a]}]
    for _ in range(rng.randrange(1, 5)):
        a = one(a)
        steps.append({"k": "el", "t": "app", "c": [a]})
    return {"steps": steps}


def families(pid):
    check = checker(pid)
    if pid == "C11":
        return {"slot histories": (slot_histories, check, None)}
    f = {"histories": (gen.history, check, None)}
    if pid in ("C01", "C02", "C03"):
        f["keyed lists"] = (None, check, lambda tier: gen.exhaustive_keyed(3, "pqr" if tier == "quick" else "pqrs"))
    if pid in ("C03", "C04"):
        f["attributes"] = (attrpairs, check, None)
    if pid in ("C06", "C07", "C08"):
        f["component chains"] = (nested, check, None)
    if pid == "C07":
        f["props with None"] = (none_props, check, None)
        f["live values"] = (live_ops, live_props, None)
        f["read-only"] = (None, readonly, lambda tier: iter([0, 1, None, "x"]))
        f["shared mapping"] = (None, shared_mapping, lambda tier: iter([{"how": "plain"}, {"how": "state"}]))
    return f

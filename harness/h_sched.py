"""C10: state changes at any moment of a sliced (or synchronous) render.

case: {"mode": "sync"|"sliced", "ticks": [ms,...], "changes": [[probe, key], ...], "start": {...}}
Probe points are numbered in the order in which they are reached: every call of a render
function, every renderer call, every hook, every return to the event loop."""
import asyncio, itertools, time


class Clock:
    now, ticks, i = 0, [0], 0


_real = time.perf_counter_ns


def fake():
    Clock.i += 1
    Clock.now += Clock.ticks[Clock.i % len(Clock.ticks)] * 1000000
    return Clock.now


time.perf_counter_ns = fake
import core  # noqa: E402  (imports collagraph after the clock was replaced)
import collagraph as cg  # noqa: E402
from collagraph import h  # noqa: E402
from common import Fail  # noqa: E402
from observ import reactive  # noqa: E402


class Loop:
    def __init__(self):
        self.queue = []

    def call_soon(self, f, *args, **kw):
        self.queue.append((f, args))
    call_soon_threadsafe = call_soon

    def call_later(self, delay, f, *args, **kw):
        self.queue.append((f, args))
    call_at = call_later

    def is_running(self):
        return False

    def is_closed(self):
        return False


class Policy(asyncio.DefaultEventLoopPolicy):
    loop = Loop()

    def get_event_loop(self):
        return self.loop


def tree_a(a, sub):
    items = [("item", {"key": k, "a": a}, []) for k in range(a % 4)]
    if a % 2:
        items.reverse()
    kids = [*items, ("note", {"a": a}, [f"a is {a}"]), ("mid", {"a": a}, sub if a % 5 != 4 else []), ("tail", {"a": a}, [])]
    return ("app", {"a": a}, kids)


def tree_b(b, sub):
    kids = [("bee", {"b": b}, []) for _ in range(b % 3)] + sub
    return ("box" if b % 4 != 3 else "bax", {"b": b}, kids)


def tree_c(c):
    return ("leaf", {"c": c}, [("text", {"c": c}, [f"c is {c}"])] * (c % 2))


def text(t):
    if isinstance(t, str):
        return repr(t)
    return f"{t[0]}{sorted((k, v) for k, v in t[1].items())}[{' '.join(text(c) for c in t[2])}]"


def etext(e):
    if e.type == "TEXT_ELEMENT":
        return repr(e.text)
    return f"{e.type}{sorted((k, v) for k, v in e.attrs.items())}[{' '.join(etext(c) for c in e.children)}]"


def nodes(t, comps):
    if isinstance(t, str):
        return h(comps[t], {}) if t in comps else t
    return h(t[0], dict(t[1]), *[nodes(c, comps) for c in t[2]])


class Run:
    def __init__(self, case):
        self.case = case
        self.changes = {}
        for p, k in case["changes"]:
            self.changes.setdefault(p, []).append(k)
        self.n = 0
        self.state = reactive(dict(case.get("start") or {"a": 1, "b": 1, "c": 0}))
        self.late = 0

    def probe(self, reads=()):
        self.consistent()
        n = self.n
        self.n += 1
        for k in self.changes.get(n, ()):
            if k not in reads:
                self.state[k] += 1
        if reads == "loop" and n in self.case.get("again", ()):
            # `render` is called once more, which abandons the work in progress
            self.again()

    incommit = False

    def consistent(self):
        if not self.root.children or self.incommit:
            return
        if self.shown == etext(self.root.children[0]) if len(self.root.children) == 1 else False:
            return
        self.compare(None)
        self.shown = etext(self.root.children[0])

    shown = given = asked = None

    def values(self):
        """The values that the displayed tree shows."""
        v = {}

        def rec(e):
            for k, x in e.attrs.items():
                if k in "abc":
                    v.setdefault(k, set()).add(x)
            for c in e.children:
                rec(c)
        rec(self.root)
        return v

    def compare(self, final):
        if len(self.root.children) != 1:
            raise Fail(f"slices: the container has {len(self.root.children)} children")
        v = final or {k: max(x) for k, x in self.values().items()}
        want = text(tree_a(v["a"], [tree_b(v["b"], [tree_c(v["c"])] if "c" in v else [])] if "b" in v else []))
        have = etext(self.root.children[0])
        if want != have:
            raise Fail(("slices-final: the tree shows " if final else "slices-torn: in the middle of an update the tree shows ") + f"{have} instead of {want}")

    def run(self):
        run = self

        class C(cg.Component):
            def render(self):
                run.probe(reads=("c",))
                return nodes(tree_c(run.state["c"]), {})

            def mounted(self):
                run.hook()

            def updated(self):
                run.hook()

            def before_unmount(self):
                run.n += 1
                for k in run.changes.get(run.n - 1, ()):
                    run.state[k] += 1

        class B(cg.Component):
            def render(self):
                run.probe(reads=("b",))
                return nodes(tree_b(run.state["b"], ["C"]), {"C": C})

            def mounted(self):
                run.hook()

            def updated(self):
                run.hook()

        def app(props):
            run.given = props.get("g")
            run.probe(reads=("a",))
            return nodes(tree_a(run.state["a"], ["B"]), {"B": B})

        class R(core.Rec):
            def act(self, f, *args):
                f(*args)
                run.n += 1
                for k in run.changes.get(run.n - 1, ()):
                    run.state[k] += 1

            def insert(self, el, parent, anchor=None):
                self.act(core.Rec.insert, self, el, parent, anchor)

            def remove(self, el, parent):
                self.act(core.Rec.remove, self, el, parent)

            def set_attribute(self, el, k, v):
                self.act(core.Rec.set_attribute, self, el, k, v)

            def set_element_text(self, el, v):
                self.act(core.Rec.set_element_text, self, el, v)

        self.root = core.El("ROOT", ())
        Clock.now, Clock.i, Clock.ticks = 10**9, 0, self.case.get("ticks") or [0]
        sync = self.case["mode"] == "sync"
        core.LOG.clear()
        policy = asyncio.get_event_loop_policy()
        mine = Policy()
        mine.loop = Loop()
        done = []
        try:
            asyncio.set_event_loop_policy(mine)
            gui = cg.Collagraph(R(), event_loop_type=cg.EventLoopType.SYNC if sync else cg.EventLoopType.DEFAULT)
            gui.render(h(app, {}), self.root)

            def again():
                self.asked = self.n
                gui.render(h(app, {"g": self.n}), self.root)
            self.again = again
            rounds = 0
            while True:
                while mine.loop.queue:
                    rounds += 1
                    if rounds > 3000:
                        raise Fail("slices-endless: work keeps being scheduled although the state does not change any more")
                    f, args = mine.loop.queue.pop(0)
                    f(*args)
                    if not self.case.get("again") and sum(1 for g, _ in mine.loop.queue if getattr(g, "__self__", None) is gui) > 1:
                        raise Fail("slices-double: work is scheduled twice, so some of it is left when the tree is complete")
                    self.probe("loop")
                later = [p for p in self.changes if p >= self.n]
                if self.root.children:
                    self.compare({k: self.state[k] for k in "abc" if k == "a" or (k in self.values())} if True else None)
                    self.final()
                if not later:
                    return None
                # the remaining changes arrive when all is quiet
                self.n = min(later)
                if sync:
                    for k in self.changes[self.n]:
                        self.state[k] += 1
                    self.n += 1
                else:
                    self.probe("loop")
        finally:
            asyncio.set_event_loop_policy(policy)

    def hook(self):
        self.n += 1
        for k in self.changes.get(self.n - 1, ()):
            self.state[k] += 1

    def final(self):
        if self.given != self.asked:
            raise Fail(f"slices-final: all work is done but the element shown is the one of render() at {self.given} instead of {self.asked}")
        v = {k: self.state[k] for k in "abc"}
        want = text(tree_a(v["a"], [tree_b(v["b"], [tree_c(v["c"])])]))
        have = etext(self.root.children[0])
        if want != have:
            raise Fail(f"slices-final: all work is done but the tree shows {have} instead of {want}")


def check(case):
    return Run(case).run()


TICKS = [[0], [20], [20, 0], [0, 0, 20], [0, 0, 0, 0, 0, 20], [10, 3]]


def rnd(rng, size=None):
    n = rng.choice([1, 1, 2, 3, 5])
    return {"mode": rng.choice(["sync", "sliced", "sliced", "sliced"]), "ticks": rng.choice(TICKS),
            "changes": [[rng.randrange(rng.choice([15, 60, 120])), rng.choice("abc")] for _ in range(n)],
            "start": {"a": rng.randrange(6), "b": rng.randrange(4), "c": rng.randrange(2)}}


def ex(tier):
    step = 1
    for mode, ticks in [("sync", [0]), ("sliced", [20]), ("sliced", [0]), ("sliced", [0, 20])]:
        for p in range(0, 75 if tier == "quick" else 110, step):
            for k in "abc":
                yield {"mode": mode, "ticks": ticks, "changes": [[p, k]], "start": {"a": 2, "b": 1, "c": 0}}
    for ticks in ([20], [0, 20]):
        for p in range(0, 60, 4 if tier == "quick" else 1):
            for q in range(p, 60, 5 if tier == "quick" else 2):
                yield {"mode": "sliced", "ticks": ticks, "changes": [[p, "a"], [q, "b"]], "start": {"a": 3, "b": 2, "c": 1}}


def ex_again(tier):
    for ticks in ([20], [0, 20], [0, 0, 20]):
        for start in ({"a": 3, "b": 2, "c": 1}, {"a": 2, "b": 1, "c": 0}, {"a": 0, "b": 3, "c": 0}):
            yield {"mode": "sliced", "ticks": ticks, "changes": [], "again": list(range(60)), "start": start}
            # `render`, and a change while that is in progress or long after it
            for p in range(0, 150, 10 if tier == "quick" else 3):
                for d in (2, 10, 30, 300):
                    for k in "abc":
                        yield {"mode": "sliced", "ticks": ticks, "changes": [[p + d, k]], "again": list(range(p, p + 8)), "start": start}
            for p in range(0, 60, 2 if tier == "quick" else 1):
                # a change, one more, and then `render` at each of the next returns to the event loop
                for k, l in ("aa", "ba", "ab") if tier == "quick" else ("aa", "ba", "ab", "bb", "ac", "ca"):
                    for d in (3, 8, 14):
                        yield {"mode": "sliced", "ticks": ticks, "changes": [[p, k], [p + d, l]], "again": [p + d + 1, p + d + 2, p + d + 3], "start": start}


def families(pid):
    return {"render once more": (None, check, ex_again), "one change at every point": (None, check, ex), "random changes": (rnd, check, None)}

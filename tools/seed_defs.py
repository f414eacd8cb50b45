"""Planted bugs: edits of original lines, with a demonstration each (see plant.py)."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


PRE = '''
import collagraph as cg
from observ import reactive


class App:
    """Renders a function component that reads `state` into a dict."""
    def __init__(self, fn, state=None):
        self.state = reactive(state or {})
        self.container = {"type": "root"}
        self.gui = cg.Collagraph(renderer=cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
        self.gui.render(cg.h(fn, self.state), self.container)

    @property
    def kids(self):
        return self.container.get("children", [])
'''
CG = "collagraph.py"

seed("c01-stale-child", "C01", [(CG, """                new_fiber.dom = None
                new_fiber.parent = wip_fiber
                new_fiber.alternate = None
                new_fiber.child = None
""", """                new_fiber.dom = None
                new_fiber.parent = wip_fiber
                new_fiber.alternate = None
""")],
     "an element whose type changes after it was rendered at least twice with children, to one without children",
     "children of an earlier description of another element appear in the new element",
     PRE + '''
def view(props):
    n = props["n"]
    if n < 2:
        return cg.h("root", {}, cg.h("box", {}, cg.h("item", {"n": n})))
    return cg.h("root", {}, cg.h("group", {}))

app = App(view, {"n": 0})
app.state["n"] = 1
app.state["n"] = 2
assert app.kids[0]["children"] == [{"type": "group"}], app.kids
''')
seed("c02-unkeyed", "C02", [(CG, """            return x.key == y.key
""", """            return x.key == y.key and (x.key is not None or x.type == y.type)
""")],
     "unkeyed siblings of different types, of which an earlier one goes away so that the types at the positions differ",
     "an unkeyed child takes over the element of an unkeyed child at another position",
     PRE + '''
def view(props):
    kids = [cg.h("label", {})] if props["label"] else []
    return cg.h("box", {}, *kids, cg.h("button", {}))

app = App(view, {"label": True})
old = app.kids[0]["children"][1]
app.state["label"] = False
kids = app.kids[0]["children"]
assert [k["type"] for k in kids] == ["button"]
assert kids[0] is not old, "element of another position was reused"
''')

seed("c03-falsy", "C03", [(CG, """    return xor(old_value is None, val is None) or old_value != val
""", """    return xor(old_value is None, val is None) or bool(val or old_value) and old_value != val
""")],
     "an attribute that changes from one falsy value (not None) to another, different one",
     "the attribute is not written although its value changed",
     PRE + '''
def view(props):
    return cg.h("box", {"text": props["text"]})

app = App(view, {"text": ""})
assert app.kids[0]["attrs"] == {"text": ""}
app.state["text"] = 0
assert app.kids[0]["attrs"] == {"text": 0}, app.kids
''')

seed("c04-component", "C04", [(CG, """            for event_type, val in events_to_remove.items():
                fiber.component.remove_event_handler(event_type, val)
""", """            for event_type, val in events_to_remove.items():
                if event_type not in events_to_add:
                    fiber.component.remove_event_handler(event_type, val)
""")],
     "a parent attaches another, inequivalent handler for the same event to a class component in a later render",
     "the component keeps the handler of the earlier description next to the new one",
     PRE + '''
calls = []
inst = []

class Child(cg.Component):
    def mounted(self):
        inst.append(self)
    def render(self):
        return cg.h("item", {})

def first(): calls.append("first")
def second(): calls.append("second!", )

def view(props):
    return cg.h(Child, {"on_go": first if props["n"] == 0 else second})

app = App(view, {"n": 0})
app.state["n"] = 1
inst[0].emit("go")
assert calls == ["second!"], calls
''')

seed("c05-names", "C05", [("compare.py", """        "co_kwonlyargcount",
        "co_names",
""", """        "co_kwonlyargcount",
""")],
     "two lambdas that differ only in the global or attribute name they use",
     "functions that use different globals or attributes are judged equivalent",
     '''
from collagraph.compare import equivalent_functions
one, two = "1", "2"
assert not equivalent_functions(lambda: one, lambda: two)
assert not equivalent_functions(lambda x: x.upper, lambda x: x.lower)
''')

seed("c06-nested", "C06", [(CG, """            traverse_before_unmount(fiber.child)
            traverse_before_unmount(fiber.sibling)
""", """            if fiber.component is None:
                traverse_before_unmount(fiber.child)
            traverse_before_unmount(fiber.sibling)
""")],
     "a component that is nested in another component that is nested in removed content",
     "before_unmount is not called for a component within a component that leaves the tree",
     PRE + '''
log = []

class Inner(cg.Component):
    def before_unmount(self):
        log.append("inner")
    def render(self):
        return cg.h("inner", {})

class Outer(cg.Component):
    def before_unmount(self):
        log.append("outer")
    def render(self):
        return cg.h("outer", {}, cg.h(Inner, {}))

def view(props):
    return cg.h("box", {}, *([cg.h("group", {}, cg.h(Outer, {}))] if props["on"] else []))

app = App(view, {"on": True})
app.state["on"] = False
assert sorted(log) == ["inner", "outer"], log
''')
seed("c07-none", "C07", [(CG, """                # Is key gone?
                if key not in next_props:
""", """                # Is key gone?
                if next_props.get(key) is None:
""")],
     "a component prop that is None in two successive descriptions while another prop changes",
     "the prop vanishes from the component's props",
     PRE + '''
inst = []

class Child(cg.Component):
    def mounted(self):
        inst.append(self)
    def render(self):
        return cg.h("item", {"n": self.props["n"]})

def view(props):
    return cg.h(Child, {"n": props["n"], "label": None})

app = App(view, {"n": 0})
app.state["n"] = 1
assert dict(inst[0].props) == {"n": 1, "label": None}, dict(inst[0].props)
''')

seed("c08-falsy", "C08", [("component.py", """            if key in parent._provided:
                return parent._provided[key]
""", """            if (value := parent._provided.get(key)) is not None:
                return value
""")],
     "the nearest provider provides None while one further up provides another value (or a default is given)",
     "inject skips a provider that provides None",
     '''
from collagraph import Component
a = Component({}, None); a.provide("k", 1)
b = Component({}, a); b.provide("k", None)
c = Component({}, b)
assert c.inject("k", 5) is None
''')

seed("c09-default", "C09", [("component.py", """        for handler in self._event_handlers[event].copy():
            handler(*args, **kwargs)
""", """        handlers = self._event_handlers[event]
        for handler in handlers.copy():
            if handler in handlers:
                handler(*args, **kwargs)
""")],
     "a handler that removes another handler of the event while the event is emitted",
     "a handler that was registered when the event was emitted is not called",
     '''
from collagraph import Component
for order in range(20):
    c = Component({}, None)
    calls = []
    hs = []
    def make(i):
        def h():
            calls.append(i)
            for j, other in enumerate(hs):
                if j != i and other in c._event_handlers["e"]:
                    c.remove_event_handler("e", other)
        return h
    hs.extend(make(i) for i in range(4))
    for h in hs:
        c.add_event_handler("e", h)
    c.emit("e")
    assert sorted(calls) == [0, 1, 2, 3], calls
''')

seed("c10-early", "C10", [(CG, """        # Create new fibers
        self.reconcile_children(fiber, fiber.children)
""", """        if fiber.type == "TEXT_ELEMENT":
            # Nothing to reconcile: the text can be written right away
            self.renderer.set_element_text(fiber.dom, fiber.props["content"])
        else:
            # Create new fibers
            self.reconcile_children(fiber, fiber.children)
""")],
     "an update with a changed text that is cut into time slices",
     "the text changes while the rest of the update is still being prepared",
     '''
import collagraph as cg
from observ import reactive


def view(props):
    n = props["n"]
    return cg.h("box", {}, cg.h("a", {}, f"text {n}"), cg.h("b", {"n": n}), cg.h("c", {"n": n}))


state = reactive({"n": 0})
container = {"type": "root"}
gui = cg.Collagraph(renderer=cg.DictRenderer(), event_loop_type=cg.EventLoopType.DEFAULT)
pending = []
gui._request = pending.append
gui.render(cg.h(view, state), container)
while pending:
    pending.pop()
    gui.work_loop(0)
shown = lambda: (container["children"][0]["children"][0]["children"][0]["text"], container["children"][0]["children"][1]["attrs"]["n"])
assert shown() == ("text 0", 0)
state["n"] = 1
while pending:
    pending.pop()
    gui.work_loop(0)
    assert shown() in [("text 0", 0), ("text 1", 1)], shown()
assert shown() == ("text 1", 1)
''')
seed("c11-stale", "C11", [(CG, """        # Attach the component instance to the fiber
        fiber.component = component

        component._slots = fiber.children if isinstance(fiber.children, dict) else {}
""", """        # Attach the component instance to the fiber
        fiber.component = component

        if isinstance(fiber.children, dict):
            component._slots = fiber.children
""")],
     "a component that was given slots is described without any slot in a later render, and renders again",
     "the content of a slot that is not given any more is still rendered",
     PRE + '''
class Card(cg.Component):
    def render(self):
        return cg.h("card", {"n": self.props["n"]}, *self.render_slot("default"))

def view(props):
    if props["n"] == 0:
        return cg.h(Card, {"n": 0}, lambda p: cg.h("content", {}))
    return cg.h(Card, {"n": props["n"]})

app = App(view, {"n": 0})
assert app.kids[0]["children"][0]["type"] == "content"
app.state["n"] = 1
assert app.kids[0].get("children", []) == [], app.kids
''')
CGX = "cgx/cgx.py"
PRECGX = PRE + '''
from collagraph.cgx.cgx import load_from_string


def cgx(template, state=None, script=""):
    C, ns = load_from_string("<template>" + template + "</template><script>import collagraph as cg\\n" + script + "\\nclass C(cg.Component):\\n    pass\\n</script>")
    state = reactive(state or {})
    container = {"type": "root"}
    gui = cg.Collagraph(renderer=cg.DictRenderer(), event_loop_type=cg.EventLoopType.SYNC)
    gui.render(cg.h(C, state), container)
    return container["children"][0], state, gui
'''
seed("c12-adjacent", "C12", [(CGX, """            if directive == "v-if" and control_flow:
""", """            if (
                directive == "v-if"
                and control_flow
                and control_flow[-1][0] != "v-else-if"
            ):
""")],
     "a chain that ends with a v-else-if and that is directly followed by another chain",
     "the second chain becomes part of the first one",
     PRECGX + '''
t = '<box><a v-if="n == 0"/><b v-else-if="n == 1"/><c v-if="n < 2"/></box>'
box, state, gui = cgx(t, {"n": 0})
assert [k["type"] for k in box["children"]] == ["a", "c"], box
''')
seed("c13-nested", "C13", [(CGX, """            local_names = names.union(name_collector.names)
""", """            local_names = name_collector.names.union(
                names if child.tag.islower() else ()
            )
""")],
     "a v-for on a component (or another tag that isn't all lower case) within another v-for that uses the outer loop variable",
     "the outer loop variable is looked up on the component instead",
     PRECGX + '''
t = '<box><g v-for="x in xs"><Item v-for="y in ys" :x="x" :y="y" /></g></box>'
box, state, gui = cgx(t, {"xs": [1, 2], "ys": [3]}, script="def Item(props):\\n    return cg.h('item', props)\\n")
assert [k["children"][0]["attrs"] for k in box["children"]] == [{"x": 1, "y": 3}, {"x": 2, "y": 3}]
''')
seed("c14-empty", "C14", [(CGX, """            if value is None:
                node.attrs[key] = True
""", """            if not value:
                node.attrs[key] = True
""")],
     "a static attribute with an empty value",
     'an attribute written as text="" becomes True',
     PRECGX + '''
box, state, gui = cgx('<box text="" flag other="x" />')
assert box["attrs"] == {"text": "", "flag": True, "other": "x"}, box
''')
seed("c15-falsy", "C15", [("component.py", """            return self.props[name]
""", """            return self.props[name] or self.state.get(name, self.props[name])
""")],
     "a prop with a falsy value while the state has an item of the same name",
     "the name resolves to the state item instead of the prop",
     '''
from collagraph import Component
c = Component({"x": 0}, None)
c.state["x"] = 1
assert c._lookup("x", {"x": 2}) == 0
''')
seed("c16-suffix", "C16", [(CGX, """            offset = span[1]
""", """            offset = span[1] + child.content[span[1] :].startswith("{")
""")],
     "an expression in a text that is directly followed by a brace",
     "a character of the text is lost",
     PRECGX + '''
C, ns = load_from_string("<template><box>a {{ 1 }}{b} {{ 2 }}</box></template><script>import collagraph as cg\\nclass C(cg.Component):\\n    pass\\n</script>")
node = C({}, None).render()
assert node.children[0].props["content"] == "a 1{b} 2", node.children[0].props
''')
seed("c17-last", "C17", [(CG, """        if new is not None and new not in current:
            anchor = wip[idx] if idx < len(wip) else None
""", """        if new is not None and new not in current:
            anchor = wip[idx] if idx < len(wip) - 1 else None
""")],
     "a new key that has to come directly before the last key of the list at that moment",
     "the new key is added at the end and then moved",
     '''
from collagraph.collagraph import create_ops, apply_op, OpType
ops = create_ops([1, 2], [1, 3, 2])
assert [op["op"] for op in ops] == [OpType.ADD], ops
''')
seed("c18-listeners", "C18", [("renderers/dict_renderer.py", """            event_listeners[event_type].remove(value)
""", """            event_listeners[event_type].clear()
""")],
     "two listeners for one event on one element, of which one is removed",
     "the other listener is removed as well",
     '''
from collagraph import DictRenderer
r = DictRenderer()
el = r.create_element("a")
f, g = (lambda: 1), (lambda: 2)
r.add_event_listener(el, "x", f)
r.add_event_listener(el, "x", g)
r.remove_event_listener(el, "x", f)
assert el["handlers"]["x"] == {g}, el
''')
seed("c19-copy", "C19", [("renderers/pygfx_renderer.py", """                val = default_value.copy()
""", """                val = default_value
""")],
     "an attribute with a mutable default that is removed, changed in place and then set and removed again",
     "the second removal restores the changed value",
     '''
from collagraph.renderers.pygfx_renderer import PygfxRenderer


class Obj:
    def __init__(self):
        self.items = [1, 2]


r, o = PygfxRenderer(), Obj()
r.set_attribute(o, "items", [5])
r.remove_attribute(o, "items", [5])
assert o.items == [1, 2]
o.items.append(3)
r.set_attribute(o, "items", [6])
r.remove_attribute(o, "items", [6])
assert o.items == [1, 2], o.items
''')
QTPRE = '''
from PySide6 import QtWidgets, QtGui, QtCore
import collagraph as cg
from collagraph import PySideRenderer
app = QtWidgets.QApplication.instance() or QtWidgets.QApplication([])
r = PySideRenderer(autoshow=False)
'''
seed("c20-stacked", "C20", [("renderers/pyside/objects/layouts.py", """    if anchor is not None:
        index = self.indexOf(anchor)

    self.insertWidget(index, el)
""", """    if anchor is not None:
        index = self.indexOf(anchor)

    self.insertWidget(index if index < self.count() - 1 else -1, el)
""")],
     "an insertion before the last child of a box or stacked layout",
     "the child is added after the anchor instead of before it",
     QTPRE + '''
w = r.create_element("widget")
a, b, c = [r.create_element("label") for _ in range(3)]
r.insert(a, w); r.insert(b, w)
r.insert(c, w, anchor=b)
lay = w.layout()
assert [lay.itemAt(i).widget() for i in range(lay.count())] == [a, c, b]
''')
seed("c21-default", "C21", [("renderers/pyside_renderer.py", """                    result = meta_property.read(el)
                    DEFAULT_VALUES[key] = (meta_property, result)
""", """                    result = meta_property.read(type(el).__base__() if False else el)
                    DEFAULT_VALUES[key] = DEFAULT_VALUES.setdefault(
                        f"{type(el).__base__.__name__}.{property_idx}",
                        (meta_property, result),
                    )
""")],
     "two element names for one Qt class of which the default values of a property differ",
     "removing the attribute restores the default of the other element name",
     QTPRE + '''
a = r.create_element("Label")
a.setText("custom default")
r.set_attribute(a, "text", "x")
b = r.create_element("QLabel")
r.set_attribute(b, "text", "y")
r.remove_attribute(b, "text", "y")
assert b.text() == "", b.text()
''')
seed("c22-nested", "C22", [(CGX, """    for node in reversed(script_tree.body):
""", """    for node in reversed(list(ast.walk(script_tree))):
""")],
     "a class that is defined within a function or another class of the script",
     "the nested class is taken for the component",
     '''
from collagraph.cgx.cgx import load_from_string
C, ns = load_from_string("""
<template><box /></template>
<script>
import collagraph as cg

class Thing(cg.Component):
    class Inner:
        pass
</script>
""")
assert C.__name__ == "Thing"
''')
seed("c23-suffix", "C23", [("__main__.py", """    if path.suffix != ".cgx":
""", """    if not value.endswith(".cgx"):
""")],
     "a file whose whole name is `.cgx` (which has no suffix), or that only ends in cgx because of that",
     "a file without the suffix is accepted",
     '''
import argparse, os, tempfile
from collagraph.__main__ import existing_component_file
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, ".cgx")
    open(p, "w").close()
    try:
        existing_component_file(p)
    except argparse.ArgumentTypeError:
        pass
    else:
        raise SystemExit("accepted a file without suffix")
''')

# ------------------------------------------------------------------ second series
seed("c04-eventname", "C04", [(CG, """    return key[3:].lower()
""", """    return key.replace("on_", "").lower()
""")],
     'an event of which the name itself contains "on_"',
     "the handler is registered for another event",
     PRE + '''
f = lambda: None
app = App(lambda props: cg.h("box", {"on_position_changed": f, "on_button_on_top": f}))
assert set(app.kids[0]["handlers"]) == {"position_changed", "button_on_top"}, app.kids
''')
seed("c06-spurious", "C06", [(CG, """                    fiber.component.mounted()
                fiber.mounted = False
                fiber.updated = False
""", """                    fiber.component.mounted()
                fiber.mounted = False
                fiber.updated = fiber.updated and fiber.sibling is not None
""")],
     "a component that is mounted with props and has a sibling, in a tree that is updated twice elsewhere",
     "updated is called although nothing of the component changed",
     PRE + '''
log = []

class Child(cg.Component):
    def mounted(self):
        log.append("mounted")
    def updated(self):
        log.append("updated")
    def render(self):
        return cg.h("child", {})

def view(props):
    return cg.h("box", {"n": props["n"]}, cg.h(Child, {"x": 1}), cg.h("last", {}))

app = App(view, {"n": 0})
for n in range(1, 4):
    app.state["n"] = n
assert log == ["mounted"], log
''')
seed("c06-twice", "C06", [(CG, """            if fiber.component is not None:
                if not fiber.unmounted:
                    fiber.component.before_unmount()
                    fiber.unmounted = True
            traverse_before_unmount(fiber.child)
""", """            if fiber.component is not None:
                if not fiber.unmounted:
                    fiber.component.before_unmount()
                    fiber.unmounted = not fiber.sibling or bool(fiber.parent.dom)
            traverse_before_unmount(fiber.child)
""")],
     "a component without an element of its own that renders another component with a sibling (in a template) and that leaves the tree",
     "before_unmount is called twice on the inner component",
     PRE + '''
log = []

class Inner(cg.Component):
    def before_unmount(self):
        log.append("inner")
    def render(self):
        return cg.h("inner", {})

class Outer(cg.Component):
    def before_unmount(self):
        log.append("outer")
    def render(self):
        return cg.h("template", {}, cg.h(Inner, {}), cg.h("last", {}))

def view(props):
    return cg.h("box", {}, *([cg.h(Outer, {})] if props["on"] else []))

app = App(view, {"on": True})
app.state["on"] = False
assert sorted(log) == ["inner", "outer"], log
''')
seed("c09-gone", "C09", [("component.py", """        for handler in self._event_handlers[event].copy():
            handler(*args, **kwargs)
""", """        for handler in self._event_handlers[event].copy():
            if handler in self._event_handlers[event]:
                handler(*args, **kwargs)
""")],
     "a handler that removes the other handlers of the event while it is emitted",
     "handlers that were registered when the event was emitted are not called",
     PRE + '''
calls = []
inst = []

class Child(cg.Component):
    def mounted(self):
        inst.append(self)
    def render(self):
        return cg.h("item", {})

app = App(lambda props: cg.h(Child, {}))
c = inst[0]
def handler(name):
    def f():
        calls.append(name)
        for other in fs:
            if other is not f and other in c._event_handlers["go"]:
                c.remove_event_handler("go", other)
    return f
fs = [handler(n) for n in "abc"]
for f in fs:
    c.add_event_handler("go", f)
c.emit("go")
assert sorted(calls) == ["a", "b", "c"], calls
''')
seed("c12-else", "C12", [(CGX, """        if if_else_statements and if_else_statements[-1][0] == "v-else"
""", """        if 4 > len(if_else_statements) > 0 and if_else_statements[-1][0] == "v-else"
""")],
     "a chain that has three v-else-if and a v-else",
     "compilation of the template fails or the v-else is not rendered",
     PRECGX + '''
t = '<box><a v-if="n == 0"/><b v-else-if="n == 1"/><b v-else-if="n == 2"/><b v-else-if="n == 3"/><c v-else/></box>'
box, state, gui = cgx(t, {"n": 5})
assert [k["type"] for k in box["children"]] == ["c"], box
''')
seed("c13-tuple", "C13", [(CGX, """                if isinstance(generator.target, ast.Name):
                    name_collector.names.add(generator.target.id)
                else:
                    name_collector.generic_visit(generator.target)
""", """                if isinstance(generator.target, ast.Name):
                    name_collector.names.add(generator.target.id)
                else:
                    for target in generator.target.elts:
                        if isinstance(target, (ast.Name, ast.Tuple)):
                            name_collector.visit(target)
""")],
     "a loop that collects the rest of an item in a starred variable or destructures a list",
     "the starred variable is looked up on the component",
     PRECGX + '''
box, state, gui = cgx('<box><a v-for="first, *rest in rows" :x="first" :y="rest" /></box>', {"rows": [(1, 2, 3)]})
assert [k["attrs"] for k in box["children"]] == [{"x": 1, "y": [2, 3]}], box
''')
seed("c14-order", "C14", [(CGX, """            multiple_bind = val
            curr_dict = post_multiple_bind
            continue
""", """            multiple_bind = val
            if not isinstance(val, ast.BinOp):
                curr_dict = post_multiple_bind
            continue
""")],
     "an attribute behind a v-bind of two mappings merged with | of which one contains this attribute",
     "the attribute of the mapping wins although the other one comes last",
     PRECGX + '''
box, state, gui = cgx('<box v-bind="{**values} | {}" text="last" />', {"values": {"text": "first", "other": 1}})
assert box["attrs"] == {"text": "last", "other": 1}, box
''')
seed("c16-strip", "C16", [(CGX, """            expr = (child.content[span[0] + 2 : span[1] - 2]).strip()
""", """            expr = (child.content[span[0] : span[1]]).strip("{} ")
""")],
     "an expression that begins or ends with a brace",
     "the braces of the expression itself are lost",
     PRECGX + '''
box, state, gui = cgx("<box>{{ {1: n} }}</box>", {"n": 2})
assert box["children"][0]["text"] == "{1: 2}", box
''')
seed("c18-events", "C18", [("renderers/dict_renderer.py", """        event_listeners = el.setdefault("handlers", defaultdict(set))
        event_listeners[event_type].add(value)
""", """        event_listeners = el.setdefault("handlers", defaultdict(set))
        event_listeners[event_type] = {*event_listeners[event_type], value}
        if len(event_listeners) > 2:
            event_listeners.default_factory = None
""")],
     "an element with listeners for more than two events",
     "adding a listener for another event raises a KeyError",
     '''
from collagraph import DictRenderer
r = DictRenderer()
el = r.create_element("a")
fs = {}
for e in "abcd":
    fs[e] = lambda: e
    r.add_event_listener(el, e, fs[e])
assert {e: set(v) for e, v in el["handlers"].items()} == {e: {f} for e, f in fs.items()}
''')
seed("c20-treeitem", "C20", [("renderers/pyside/objects/treewidgetitem.py", """        index = self.indexOfChild(anchor)
        if el.parent():
            self.removeChild(el)
        self.insertChild(index, el)
""", """        index = self.indexOfChild(anchor)
        if el.parent():
            self.removeChild(el)
        self.insertChild(index + bool(anchor.childCount()), el)
""")],
     "an item that is inserted before an item that has children of its own",
     "the item comes after the anchor",
     QTPRE + '''
tree = r.create_element("treewidget")
a, b, c, d = [r.create_element("treewidgetitem") for _ in range(4)]
r.insert(a, tree)
r.insert(b, tree)
r.insert(d, b)
r.insert(c, tree, anchor=b)
root = tree.invisibleRootItem()
assert [root.child(i) is x for i, x in enumerate([a, c, b])] == [True] * 3
''')
seed("c21-hierarchy", "C21", [("renderers/pyside_renderer.py", """    return -len(value[0].__mro__)
""", """    return -len([c for c in value[0].__mro__ if c.__module__.startswith("PySide6")])
""")],
     "methods registered for a custom base class and for a custom subclass of it",
     "the method of the base class is used instead of that of the subclass",
     QTPRE + '''
class Base(QtWidgets.QLabel):
    pass

class Sub(Base):
    pass

PySideRenderer.register_element("subthing", Sub)
PySideRenderer.register_insert(Base, func=lambda self, el, anchor=None: "base")
PySideRenderer.register_insert(Sub, func=lambda self, el, anchor=None: "sub")
assert r.create_element("subthing").insert(None) == "sub"
''')
seed("c23-json", "C23", [("__main__.py", """                return json.load(fh)
""", """                return json.loads("".join(line.strip() for line in fh))
""")],
     "a json file of which a line within a string or between two numbers ends in white space",
     "contents that are invalid are accepted, or values change",
     '''
import argparse, os, tempfile
from collagraph.__main__ import json_contents
d = tempfile.mkdtemp()
with open(d + "/x.json", "w") as f:
    f.write("[1\\n2]")
try:
    v = json_contents(d + "/x.json")
except argparse.ArgumentTypeError:
    v = None
assert v is None, v
import shutil
shutil.rmtree(d)
''')
seed("c23-null", "C23", [("__main__.py", """    props = reactive(state or {})
""", """    props = reactive({k: v for k, v in (state or {}).items() if v is not None})
""")],
     "a state with a null value",
     "the component is started without that prop",
     '''
import os, shutil, sys, tempfile, types
from pathlib import Path
from collagraph.__main__ import init_collagraph
seen = sys.modules["demo_seen"] = types.ModuleType("demo_seen")
d = tempfile.mkdtemp()
try:
    p = Path(d) / "x.cgx"
    p.write_text("""<template><item/></template>
<script>
import collagraph as cg
import sys
class X(cg.Component):
    def mounted(self):
        sys.modules["demo_seen"].props = dict(self.props)
</script>
""")
    sys.breakpointhook = lambda *a, **k: None
    init_collagraph("dict", p, {"a": None, "b": 1})
finally:
    shutil.rmtree(d)
assert seen.props == {"a": None, "b": 1}, seen.props
''')
seed("c23-suffixes", "C23", [("__main__.py", """    if path.suffix != ".cgx":
""", """    if ".cgx" not in path.suffixes:
""")],
     "a file of which .cgx is not the last of several suffixes (a backup copy)",
     "it is accepted as a component",
     '''
import argparse, os, shutil, tempfile
from collagraph.__main__ import existing_component_file
d = tempfile.mkdtemp()
try:
    open(d + "/x.cgx.bak", "w").close()
    try:
        v = existing_component_file(d + "/x.cgx.bak")
    except argparse.ArgumentTypeError:
        v = None
finally:
    shutil.rmtree(d)
assert v is None, v
''')
seed("c13-three", "C13", [(CGX, """                    name_collector.generic_visit(generator.target)
""", """                    name_collector.visit(generator.target.elts[0])
                    name_collector.visit(generator.target.elts[-1])
""")],
     "a loop with three variables or more",
     "the middle one is looked up on the component",
     PRECGX + '''
box, state, gui = cgx('<box><a v-for="p, q, r in rows" :x="p" :y="q" :z="r" /></box>', {"rows": [(1, 2, 3)]})
assert [k["attrs"] for k in box["children"]] == [{"x": 1, "y": 2, "z": 3}], box
''')
seed("c21-columns", "C21", [("renderers/pyside/objects/treewidgetitem.py", """        for col, data in value.items():
""", """        for col, data in enumerate(value.values()):
""")],
     "a tree item whose content leaves out a column, or has them in another order",
     "the texts are put in other columns",
     QTPRE + '''
tree = r.create_element("treewidget")
r.set_attribute(tree, "column_count", 3)
a = r.create_element("treewidgetitem")
r.set_attribute(a, "content", {0: "x", 2: "z"})
r.insert(a, tree)
assert [a.text(i) for i in range(3)] == ["x", "", "z"], [a.text(i) for i in range(3)]
''')
seed("c20-cell", "C20", [("renderers/pyside/objects/standarditem.py", """            if index.row() != row or index.column() != column:
""", """            if index.row() != row:
""")],
     "an item in a model whose model index changes to another column of its row",
     "the item stays where it is",
     QTPRE + '''
m = r.create_element("itemmodel")
a = r.create_element("standarditem")
r.set_attribute(a, "model_index", (0, 0))
r.insert(a, m)
r.set_attribute(a, "model_index", (0, 2))
assert m.item(0, 2) is a
''')
seed("c20-permanent", "C20", [("renderers/pyside/objects/window.py", """    elif isinstance(el, QMenuBar):
        self.setMenuBar(el)
""", """    elif isinstance(el, QMenuBar) and not self.menuWidget():
        self.setMenuBar(el)
""")],
     "a menu bar that is inserted in a window which had one before",
     "the menu bar becomes the central widget, in place of the widget that was there",
     QTPRE + '''
w = r.create_element("window")
a, b, c = r.create_element("menubar"), r.create_element("menubar"), r.create_element("widget")
r.insert(c, w)
r.insert(a, w)
assert w.centralWidget() is c and w.menuWidget() is a
r.insert(b, w)
assert w.centralWidget() is c and w.menuWidget() is b
''')

"""Writes /verif/known-findings.jsonl: one JSON object per line; status "known" suppresses exactly the listed
cases, status "fixed" is a record ("fixed: property=<id> <commit> <what failed>") and suppresses nothing."""
import json
K = [{"status": "known", "property": "C07", "family": "shared mapping", "kind": "props-shared-mapping",
      "cases": [{"how": "plain"}, {"how": "state"}],
      "what": "a mapping passed directly as props, h(Child, mapping), is shared with the component: when the parent later passes another mapping, the first one is changed (collagraph.py:update_dom_or_component writes into component._props, which wraps the parent's own mapping)"},
     {"status": "known", "property": "C20", "family": "layout types", "kind": "layout",
      "cases": [{"from": a, "to": b, "n": n} for n in (1, 2) for a in ("box", "stacked", "grid", "form") for b in ("box", "stacked", "grid", "form") if a != b],
      "what": "changing the type of the layout of a widget deletes the children that it has (objects/layouts.py:set_layout_attr hands the old layout to a temporary widget, which takes the children along)"}]
F = """5b6f6f3 C01,C02,C17 elements inserted, moved or removed out of document order (fragments, moves across several positions, removal of recycled siblings)
b01eedf C05,C04 handlers with different constants, defaults, globals or bound instances were judged equivalent
dec9949 C10 a state change that arrived while an update was prepared was lost
3f78948 C01,C10 a recycled root fiber kept children of an earlier tree
cfc916f C03 elements and components that are falsy were treated as missing
f2c6273 C18 the dict renderer removed or inserted at the place of an equal sibling
82bdf97 C07 props that replaced an earlier value were not reactive
b3fea3e C07 component.element was not the element currently rendered
0e8bea9 C15 the names of a template were cached across instances
095940f C12 conditional nodes were rendered out of document order
2fccd28 C11 the content of slots with v-if or v-for was not rendered
ce0185c C11 text, v-for and template children were not passed as default slot content
915194e C14,C15 lambda and comprehension variables and 'self' were looked up on the component
10988be C13 all copies of a v-for node shared the variables of the last item in their handlers
85b6ec6 C16 capitalised tags with a dot did not denote the component
6ab0d2f C15 an imported 'name' was shadowed in the render function
f461122 C16 text of a template was split at '<'
6b718e0 C14 of several attributes with one name not the last one won
fa84c67 C20 menus, tool bar and tab items were inserted or removed at the wrong place
c3ce2b2 C20 moving a widget within a form layout deleted it
91a70f5 C21 event listeners that are bound methods were not disconnected
ab23569 C04 an equivalent handler, not the registered one, was asked to be removed
db80cd9 C07 new props with value None did not reach a mounted component
e573e6b C07 removing a prop that was added as None raised KeyError
e812e51 C19 a pygfx attribute that did not exist and was set twice was not deleted
48930d5 C19 pygfx classes with the same name shared their defaults
2221271 C23 an argument that is too long to be a path raised OSError
3ab3e91 C22 a directory named like a .cgx file was imported
08ce51d C10 after a state change during an update the work was scheduled twice, so that a work loop was still scheduled when the tree was complete
dc4b440 C22 reloading a module kept stale names of the script
ed3ebe5 C14 a bound attribute or event whose name contains a further separator (`:a:b`, `@a@b`) raised ValueError
59a1016 C11 of a slot name that contains ':' or '#' only the last part was used, so that its content was not rendered
747552e C14,C11 the short form of a slot directive (`#name`) was handed to the element as an attribute
d9adc2c C21 the name of a nested Qt class (QTextEdit.ExtraSelection) raised TypeError
f074790 C13,C16 a text within a v-for of which a variable is named zip or str raised TypeError
60b6664 C13,C11 a loop variable or import named props had another meaning within the content of a slot
0b1fa0a C15 a loop variable or import named globals broke the lookup of every other name
751b320 C21 expanded and selected of a mounted top-level tree item were not applied
3c757ee C15 a name that only a function or class of the script imports was taken for an import of the module: NameError instead of the prop, state or attribute
065887c C15 `import a.b` did not count as an import of a, so that a prop or state item shadowed it
d210f28 C20 a tool bar with an area could not be put into a main window: TypeError
fea7b99 C20 removing the selection model of an item view crashed the process
3dcc2db C20 a dock widget used a child with a method called title (a group box) as its title bar
2ce4224 C20 a dialog button box kept the buttons that were removed
fd76150 C20 a scroll area kept the widget that was removed
657243d C20 a form kept the old label of a row whose label or index changed
07ba331 C21 changed items of a combo box were added to the previous items
c077f37 C21 changed buttons of a dialog button box were added to the previous buttons
a1de1d7 C21 columns that are gone from the content of a tree item kept their text
28d8a57 C21 a layout registered under a name with dashes or underscores was not found as the type of a layout attribute: RuntimeError"""
with open("/verif/known-findings.jsonl", "w") as f:
    for k in K:
        f.write(json.dumps(k) + "\n")
    for l in F.splitlines():
        c, p, w = l.split(" ", 2)
        for pid in p.split(","):
            f.write(json.dumps({"status": "fixed", "property": pid, "commit": c, "what": w, "line": f"fixed: property={pid} {c} {w}"}) + "\n")

"""Writes /verif/properties.jsonl (kept in step with MANIFEST.json by tools/gen_manifest.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
CG = "collagraph/collagraph.py"; CP = "collagraph/component.py"; X = "collagraph/cgx/cgx.py"

p("C01", "The rendered tree equals the current description",
  "After the first render and after every later batch of state changes, once pending work has run, the element tree below the container is exactly what the current render functions describe: the same element types in the same document order, with the same attributes, event handlers and text, and nothing missing, duplicated or left over. Templates, slots, function components and class components contribute no element of their own, only the elements of their descendants, at the place where they stand. Sibling keys are assumed to be hashable and unique among siblings.",
  ["histories", "inputs"], "every finite history of descriptions (any mix of elements, text, templates, function and class components, keyed and unkeyed children) rendered into one container",
  "The tests compare a handful of two or three step histories; the order of the commit, the anchors and the fragment removals only show up for combinations of nesting, type changes and moves that no finite list of examples covers.",
  [CG], [("reconciliation", CG + ":reconcile_children"), ("commit walk", CG + ":commit_root, commit_work, commit_deletion"), ("edit script", CG + ":create_ops")],
  observe_at=["element tree produced through a Renderer"])
p("C02", "Matching children keep their element and component instance",
  "When a parent is rendered again, a child whose key equals the key of a previous child of that parent, or an unkeyed child at the same position among the unkeyed children, and which has the same type, keeps the very same element or component instance, including the component's local state and everything matched below it. Every other new child gets a fresh element or instance, and every previous child that is not matched is removed. No element or component instance is ever shared by two places.",
  ["histories", "inputs"], "every pair of successive child lists with unique keys, at every depth of every history",
  "Identity is checked by the tests for ten permutations of one keyed list only; reuse of recycled bookkeeping across three or more renders and mixes of keyed and unkeyed children are not.",
  [CG], [("matching by key", CG + ":compare, indexOf, first"), ("fiber reuse", CG + ":reconcile_children"), ("instance reuse", CG + ":update_class_component")])
p("C03", "An update touches exactly what changed",
  "When an element is updated, the renderer is asked to set exactly the attributes that are new (with a value other than None) or whose value differs from the previous description, and to remove exactly the attributes that vanished; unchanged attributes are not written again. Text is written exactly when the text changed, and elements that keep their place relative to the other kept siblings and whose description did not change receive no renderer call at all.",
  ["inputs", "histories"], "every pair of previous and next attribute maps, over arbitrary keys and values (None, falsy and unhashable values included)",
  "The difference of two maps is decided per key; the tests exercise a dozen concrete maps and never count the renderer calls.",
  [CG], [("attribute diff", CG + ":update_dom_or_component, is_new, is_event"), ("moves", CG + ":reconcile_children, create_ops")],
  observe_at=["calls received by the Renderer"])
p("C04", "Elements listen with exactly the handlers last described",
  "After every update each element has, for every event, exactly the handler that the current description gives it, or one equivalent to it, and no handler of an earlier description; a handler that is equivalent to the previous one is left registered and is not registered twice. Event names are the attribute name without its `on_` prefix, in lower case. The same holds for the handlers that a parent attaches to a class component.",
  ["inputs", "histories"], "every pair of previous and next sets of `on_` attributes whose event names are distinct, in any history",
  "Stale or doubled handlers depend on which handlers of two successive descriptions are equivalent; the tests cover three such pairs.",
  [CG, CP], [("handler diff", CG + ":update_dom_or_component, is_equivalent_event_handler, key_to_event"), ("component handlers", CP + ":add_event_handler, remove_event_handler")])
p("C05", "Handlers judged equivalent are interchangeable",
  "Two callables are judged equivalent only if replacing one by the other cannot be observed: they run the same code (the names of their local variables and parameters aside) with equal constants, global and attribute names, argument defaults, globals, bound instance and captured values (compared recursively for captured callables), or are partials with equal arguments of equivalent functions, or are equal objects. The judgement is reflexive for unchanged callables, distinguishes constants of different type such as 1 and True, and terminates on self-referential functions.",
  ["inputs", "programs"], "every pair of Python functions, lambdas, bound methods, partials and callable objects",
  "The tests compare about twenty hand-written pairs; each field of a function that the comparison forgets only shows with a pair that differs in that field alone.",
  ["collagraph/compare.py"], [("comparison", "collagraph/compare.py:equivalent_functions, equivalent_code, equivalent_closure_values")])
p("C06", "Life-cycle hooks run exactly once and at the right time",
  "`mounted` is called exactly once for every component instance, after its elements have been inserted and after `mounted` of all its descendants; `before_unmount` is called exactly once for every instance that leaves the tree (descendants of removed content included), while its elements are still in place, and never for an instance that stays. `updated` is called once for each component per update of the displayed tree in which its own props changed or an attribute or handler of an element belonging to it was set, changed or removed, children before parents, and never for an instance that was just mounted.",
  ["histories"], "every history of mounts, updates, moves, type changes and removals of nested components",
  "The number and order of hook calls depends on the shape of the tree and on recycled bookkeeping after several renders; the tests check one three-component history.",
  [CG], [("hooks", CG + ":commit_root, commit_deletion, update_dom_or_component")])
p("C07", "Components see their parent's current props, read-only",
  "A mounted component's props always equal the props of its current description, item by item (changed, added and removed keys), also after any number of in-place changes to values that replaced different ones; the component is rendered again whenever a prop it reads changes. A component cannot write to its props, nor rebind its `props`, `state`, `element` or `parent`; `parent` is the nearest enclosing component instance (None at the root), and `element` is the first element the component currently renders, from `mounted` onwards. Updating a component never changes the mappings its parent passed as props.",
  ["histories", "inputs"], "every sequence of prop maps and every nesting of components",
  "The tests follow a few prop changes of one component; liveness after a replaced value and the element of a component whose root changes need longer histories.",
  [CP, CG], [("props transfer", CG + ":update_dom_or_component"), ("accessors", CP + ":Component"), ("instances", CG + ":update_class_component, commit_root")])
p("C08", "inject finds the nearest enclosing provider",
  "`inject(key, default)` returns the value that the nearest enclosing component (strictly above the caller) provided for that key, even when that value is falsy, None or an overridden value, and the default when no enclosing component provided it. A component's own provided values, and those of siblings or descendants, are never returned.",
  ["inputs", "configurations"], "every chain of components of any depth, every assignment of provided values",
  "The tests use chains of two and three components with truthy values.",
  [CP], [("provide/inject", CP + ":provide, inject, parent")])
p("C09", "emit calls every registered handler exactly once",
  "`emit(event, *args, **kwargs)` calls every handler registered for that event at that moment exactly once with exactly these arguments, calls no handler of another event, and does so also when handlers are added or removed while it runs. A removed handler is never called again and emitting an event nobody listens to does nothing.",
  ["inputs", "histories"], "every history of add, remove and emit, including handlers that change the registrations",
  "Re-entrant histories are not tested.",
  [CP], [("component events", CP + ":emit, add_event_handler, remove_event_handler")])
p("C10", "No state change is lost, however the work is sliced",
  "However the render work is cut into time slices, and whenever a state change arrives (between slices, during a slice, while the tree is being updated or in a hook), and also when `render` is called once more between slices, the displayed tree finally equals the description of the latest state, and no further work is scheduled after that. The displayed tree never changes in the middle of preparing an update: all changes of an update are applied together when its preparation is complete.",
  ["schedules", "histories"], "every interleaving of state changes with the units of work of the (cooperative) render loop, every deadline",
  "All but a few tests run the synchronous mode in which no slice ever ends early.",
  [CG], [("work loop", CG + ":work_loop, request_idle_work, state_updated, prepare_next_iteration_of_work")])
p("C11", "Slot content appears where the slot stands",
  "Content given to a component for a named slot (or for the default slot) is rendered exactly at the places where the component renders that slot, and nowhere else (slot names in templates are lower case, like all HTML attribute names); a slot for which no content was given renders its fallback content, or nothing. This holds for slots given as a callable, as a dictionary of callables and as children in a template.",
  ["inputs", "programs"], "every assignment of content to slot names and every set of slots rendered by the component",
  "The tests render seven fixed templates.",
  [CG, CP, X], [("slots", CG + ":create_element, render_slot; " + X + ":call_render_slot, convert_node_to_args")])
p("C12", "Conditional chains render the first branch that holds",
  "Below the root element of a template, each maximal chain `v-if`, `v-else-if`..., `v-else` of sibling elements renders exactly the first branch whose expression is true, or the `v-else` branch if there is one and none is true, or nothing; later expressions are not evaluated. Adjacent chains are independent of each other, siblings without directive are always rendered, and all of them keep their document order.",
  ["programs", "inputs"], "every sequence of sibling elements with and without conditional directives and every truth assignment",
  "The tests use three fixed templates.",
  [X], [("code generation", X + ":create_control_flow_ast, convert_node_to_args, Element.control_flow")])
p("C13", "v-for renders one copy per item, in order, with its own scope",
  "An element with `v-for` is rendered once per item of the iterable, in iteration order, and the loop variables (destructured ones and those of nested loops included) refer to that copy's item in the element's attributes, events, text and children. Outside the element the same names keep their ordinary meaning.",
  ["programs", "inputs"], "every loop expression, every iterable and every nesting",
  "The tests use five fixed templates.",
  [X], [("code generation", X + ":convert_node_to_args, NameCollector")])
p("C14", "Template attributes reach the element, the last one winning",
  "Each element of a template is created with its static attributes (a bare attribute is True), its bound attributes (`:name` or `v-bind:name`) evaluated, its event attributes (`@name` or `v-on:name`) under `on_name`, and the entries of its `v-bind` mapping (at most one); when a name is given more than once, the one written last wins (attribute names are lower case, as in HTML). Lambda parameters in event expressions refer to the event's arguments, every other name to the component's scope.",
  ["programs", "inputs"], "every list of static, bound, mapping and event attributes in any order",
  "Six fixed templates are tested.",
  [X], [("code generation", X + ":convert_node_to_args, is_directive, LambdaNamesCollector")])
p("C15", "Names in templates resolve props, state, self, then globals",
  "A name used in a template expression evaluates to the component's prop of that name if there is one, else to its state item, else to the attribute of the instance, else to the module global, and otherwise raises a NameError that carries the name; Python builtins and imported names keep their meaning. The result depends only on that instance at that moment, not on other instances or earlier renders.",
  ["inputs", "histories", "programs"], "every assignment of the name to the four scopes, for every sequence of lookups on any instances of any classes",
  "The tests look names up on one instance per class.",
  [CP, X], [("lookup", CP + ":_lookup"), ("rewriting", X + ":RewriteName, ImportsCollector")])
p("C16", "Template structure and text are preserved",
  "Elements, nesting, attribute values, the case of tags and text of a template come out as written; comments and blank text come out as nothing, and in a text every `{{ expression }}` is replaced by `str()` of its value with the rest of the text unchanged. A tag that starts with a capital or contains a dot denotes the component object of that name, any other tag the element type of that name.",
  ["programs", "inputs"], "every well-formed template",
  "Six fixed templates are tested.",
  [X], [("parser", X + ":CGXParser"), ("text", X + ":args_for_text_element"), ("tags", X + ":convert_node_to_args")])
p("C17", "The edit script turns any list of keys into any other",
  "For any two lists of distinct keys, applying the computed operations in order to the first list gives exactly the second; every operation applies to a key that is present (or absent, for an addition) at that moment, and every anchor is present. Keys only in the first list are deleted once, keys only in the second are added once, and only keys in both are moved.",
  ["inputs"], "every pair of finite lists of distinct keys (any length, falsy keys included)",
  "Ten pairs of short lists are tested, only through rendering.",
  [CG], [("edit script", CG + ":create_ops, apply_op, create_operation, compare, indexOf, first")])
p("C18", "The dict renderer does what the renderer interface says",
  "Inserting puts the element directly before the anchor, or at the end without one, and removing takes out that very element, leaving all others in order, also when siblings compare equal; setting, changing and removing an attribute, a text or a listener affects exactly that item of that element. Every call on one element leaves all other elements unchanged.",
  ["inputs", "histories"], "every history of renderer calls on any tree of dict elements",
  "The renderer is only exercised through a few renders whose siblings differ.",
  ["collagraph/renderers/dict_renderer.py"], [("dict renderer", "collagraph/renderers/dict_renderer.py:DictRenderer")])
p("C19", "The browser and pygfx renderers map calls faithfully",
  "Each renderer call on a browser DOM or pygfx object has the corresponding effect on that object alone: creation of an element of the named type, insertion before the anchor (at the end without one), removal, attribute and text writes, adding and removing a listener for the named event. Removing a pygfx attribute (dotted paths included) restores the value it had before it was first set on an object of that class, or deletes it if it did not exist; the restored value is not affected by later changes.",
  ["inputs", "histories"], "every history of attribute writes and removals, every attribute path, value and pygfx type",
  "One attribute of one object is tested for pygfx and nothing for the browser.",
  ["collagraph/renderers/pygfx_renderer.py", "collagraph/renderers/dom_renderer.py"], [("pygfx", "collagraph/renderers/pygfx_renderer.py:PygfxRenderer"), ("browser", "collagraph/renderers/dom_renderer.py:DomRenderer")])
p("C20", "Qt parents keep their children in the described order",
  "For Qt containers whose children have an order (widgets with box or stacked layouts, splitters, tab widgets (without a tab index), menus, menu bars, tool bars, tree widgets and items, standard items and item models), inserting a child with an anchor puts it directly before the anchor, without one at the end, and removing takes out exactly that child. The other children keep their order. Other containers put each child in the place of its type: a main window (dock widgets and tool bars in the area they name, menu bar, status bar, central widget), a dock widget (contents or title bar), a scroll area, an item view (model and selection model), a dialog button box (a button in its role), a status bar, a grid (at the child's index) and a form (in the child's row), also when the index, row or label changes later; a tab with a tab index and an item with a model index stand at that index; removing takes the child out again. A container keeps its children when its layout changes.",
  ["histories", "inputs"], "every history of insertions (with and without anchor) and removals, for each supported pair of parent and child type",
  "The tests insert with an anchor for two container types only.",
  ["collagraph/renderers/pyside/objects", "collagraph/renderers/pyside_renderer.py"], [("insert/remove per type", "collagraph/renderers/pyside/objects/*.py:insert, remove"), ("dispatch", "collagraph/renderers/pyside_renderer.py:insert, remove")])
p("C21", "Qt types, attributes and events resolve by name",
  "An element name (and the type in a `layout` attribute) resolves to the registered type or layout of that name regardless of case, dashes and underscores, else to the Qt class of that name, and to a TypeError otherwise; its insert, remove and attribute behaviour is that of the most specific registered base class. An attribute is set through the setter of that name (dashes and underscores become camel case, tuples become several arguments) or stored on the object when there is none, and removing it restores the Qt property's value from before it was first set on an element of that name, or deletes the stored value; items, buttons and columns that are set replace the former ones; a listener is called once per occurrence of its signal or event until it is removed.",
  ["inputs", "configurations", "histories"], "every element name, attribute name, value and registration order",
  "The tests use a few names and one registration order.",
  ["collagraph/renderers/pyside_renderer.py", "collagraph/renderers/pyside/__init__.py", "collagraph/renderers/pyside/objects/qobject.py"],
  [("registries", "collagraph/renderers/pyside_renderer.py:register_*, class_hierarchy, create_object, name_to_type"), ("names", "collagraph/renderers/pyside/__init__.py:camel_case, attr_name_to_method_name, call_method"), ("attributes and events", "collagraph/renderers/pyside_renderer.py:set_attribute, remove_attribute, add_event_listener, remove_event_listener")])
p("C22", "Importing finds the right .cgx file and its last class",
  "Importing a module name finds the first directory of the search path that holds a file of that name with suffix `.cgx`, and nothing when none does; the module then contains the names of the script and the component, which is the last class defined at the top level of the script, extended with a `render` made from the template. A script whose last class is not a component, and a template without exactly one root element, are rejected with a ValueError that says so.",
  ["inputs", "configurations", "programs"], "every search path, module name and script",
  "The tests import a dozen fixed files from one directory.",
  ["collagraph/cgx/importer.py", X], [("finder", "collagraph/cgx/importer.py:CgxImporter.find_spec, exec_module"), ("loader", X + ":load_from_string, construct_ast")])
p("C23", "The command line accepts exactly valid components and state",
  "The command line accepts a component argument exactly when it names an existing regular file with suffix `.cgx`, and a state argument exactly when it is (or names a file that contains) valid JSON, whose value becomes the state (an object: made reactive, the props of the component that is started); every other value is rejected with an argument error that names it, and nothing else escapes as an exception.",
  ["inputs"], "every string given as component or state",
  "The command line is not tested at all.",
  ["collagraph/__main__.py"], [("validators", "collagraph/__main__.py:existing_component_file, json_contents"), ("start", "collagraph/__main__.py:init_collagraph")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))

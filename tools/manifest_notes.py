"""Per property: how it is decided (level notes of the manifest; section 3 of DESIGN.md)."""
NA = {}
WHAT = {}


def p(i, proved, bounded):
    WHAT[i] = (proved, bounded)


p("C01", "the scheduler (work_loop and friends), the walk of the fiber tree (perform_unit_of_work), reconcile_children (one fiber per element in order, linked, with the element's type, props, key and children; every displayed child without successor is deleted exactly once; for any number of children; the invariant of the stored fields it relies on is established by the commit: double buffering lemma), the commit phase (commit_root, commit_work, commit_deletion, find_anchor, first_dom: "
  "every dom is inserted before the first displayed dom that follows it in document order, removals take out exactly the removed doms), create_dom and update_dom_or_component (all attributes, handlers, text), "
  "the update of the three kinds of fibers, create_element (any number of children and attributes), and insert/remove of the DictRenderer",
  "whole-tree histories over the real reconciler, with all keyed lists over 3 keys exhaustively")
p("C02", "compare and reconcile_children (every element continues the displayed child of the same key and type, the n-th unkeyed one the n-th unkeyed, takes over dom, instance and alternate, and nothing else does; a child moves exactly if the order requires it), create_ops (only moved keys move; unmoved ones keep their order), update_host_component/commit_work/commit_deletion (an update keeps the dom; a removal removes it)",
  "identity of elements, instances and state over whole-tree histories")
p("C03", "update_dom_or_component: for arbitrary old and new attribute dicts (any keys, any values) the calls to the renderer are exactly the differences; nothing at all for an unchanged element; reconcile_children: no moves, placements or deletions if the children are the same in the same order", "recorded renderer calls over whole-tree histories")
p("C04", "update_dom_or_component, is_event, key_to_event, is_new; add/remove_event_handler of components and of the DictRenderer", "whole-tree histories with handlers of all kinds")
p("C05", "compare.py completely: equivalent_functions implies field-wise equality of everything that determines a function's behaviour, recursively with an assumption set for cycles; constant_key is injective up to type and value",
  "generated pairs of functions, with the observation of their behaviour as the oracle")
p("C06", "where the commit phase registers, calls and orders hooks: commit_root, commit_work, commit_deletion, update_class_component, update_dom_or_component (updated iff a prop, attribute or handler changed)", "traces of hooks over whole-tree histories")
p("C07", "Component.__init__, props, state, element, parent and their setters; update_dom_or_component on component props (equal afterwards item by item, the parent's mappings unchanged); element and first_dom", "histories with in-place changes of props; one known finding (see DESIGN.md)")
p("C08", "inject (climb over the enclosing components with a loop invariant), provide, parent: complete for every chain length", "small chains exhaustively, random chains")
p("C09", "emit, add_event_handler, remove_event_handler: complete for every set of handlers, including changes while emit runs", "histories of registrations")
p("C10", "work_loop, work_loop_sync, prepare_next_iteration_of_work, state_updated, request_idle_work, render, NotifyChangeWatcher, Collagraph.__init__, perform_unit_of_work, commit_root: invariant over the scheduler state under any slicing and state changes at any call",
  "schedules driven slice by slice with state changes at every step")
p("C11", "Component.render_slot; the generated call of render_slot (call_render_slot) and the slot element render_slot makes; Element.slot_name; the slot part of convert_node_to_args: for any list of children of a component every child goes to the slot it names, the others to default, in order", "templates with slots (prover, up to 3 children), executed, and histories")
p("C12", "create_control_flow_ast for chains of any length with arbitrary tests; the walk over the children in convert_node_to_args: which children form one chain, for any list of children; Element.control_flow", "sibling lists up to 4 (prover), executed; random templates")
p("C13", "the v-for part of convert_node_to_args for any list of children and any number of generators (iterable, target, scope of names, one element per item); the visitors for lambdas and comprehensions (any parameters, any generators), NameCollector", "forms of v-for over up to 3 items, executed (prover, symbolic items), random templates")
p("C14", "the attribute part of convert_node_to_args for any list of attributes with any names (further separators included) and values; the start tags the parser hands over, with any number of attributes (CGXParser.handle_starttag); is_directive; RewriteName.visit_Name", "attribute lists up to 3, executed (prover), random templates, all orders of attributes")
p("C15", "Component._lookup for any props, state, attributes and globals; RewriteName.visit_Name, visit_Lambda, visit_comprehension; NameCollector; ImportsCollector", "templates over all combinations of the five places, across instances and renders")
p("C16", "the parser's methods (any stack, any data); the text of text elements with any number of pieces and expressions (args_for_text_element); create_ast_render_function; the tag and the children of convert_node_to_args for any tag and any list of children; Element.child_with_tag", "sibling lists up to 3, texts up to 5 pieces executed (prover), random templates")
p("C17", "create_ops, apply_op, create_operation: complete, for lists of any length", "all pairs of lists over 5 keys")
p("C18", "insert, remove, index, attributes, text, listeners and freshness of the DictRenderer: complete for any list of children, with equal siblings", "histories of renderer calls")
p("C19", "DomRenderer completely; PygfxRenderer insert, remove, listeners, and its attributes along dotted paths of any length", "histories of calls on a stub DOM and real pygfx objects")
p("C20", "insert and remove of each kind of ordered Qt container for any number of children, and the renderer's dispatch, over the assumed Qt API", "real PySide6 containers, random histories")
p("C21", "register_* (registries sorted, most specific class first), create_object, name_to_type of any name (registered, Qt in any letter case, nested), the name functions, set/remove attribute (also of the objects with attributes of their own), create_element, call_method with tuples of any length, listeners and EventFilter, over the assumed Qt API", "real PySide6 objects")
p("C22", "find_spec (any search path), create_module, exec_module, construct_ast, get_script_ast, load, load_from_string", "generated directory trees and scripts")
p("C23", "existing_component_file, json_contents, the construction of the argument parser and run", "real command lines over generated files and arguments")
NOTE = {i: f"proved (function by function, all inputs): {a}. Bounded stand-in, not counted as proved: {b}."[:1400] for i, (a, b) in WHAT.items()}

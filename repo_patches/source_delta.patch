From 5b6f6f319c640f80de000ebc354c4513d0a1b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 01/50] fix: insert, move and remove dom elements in document
 order

The anchor of an element was determined while reconciling, by truthy keys
only and from a fiber that need not have a dom element, and the tree was
committed breadth first. Elements after a type change, a nested component,
a template or an unkeyed sibling ended up in the wrong place, and only the
first element of a removed template was removed.
---
 collagraph/collagraph.py | 101 +++++++++++++++++++++++++++------------
 collagraph/types.py      |   1 -
 2 files changed, 71 insertions(+), 31 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 84008d7..9fd948a 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -1,7 +1,7 @@
 from itertools import zip_longest
 import logging
 from operator import xor
-from queue import SimpleQueue
+from queue import LifoQueue, SimpleQueue
 import time
 from typing import Any, Callable, Dict, Iterable, List, Optional
 
@@ -107,7 +107,7 @@ class Collagraph:
         self._render_callback: Callable = None
         self._request = None
         self._qt_timer = None
-        self._work = SimpleQueue()
+        self._work = LifoQueue()
         self._dirty = False
 
     def render(self, element: VNode, container, callback=None):
@@ -318,22 +318,21 @@ class Collagraph:
 
         ordered_old_fibers, removals = compare(elements, old_fibers, match=matcher)
 
-        operations = {}
-        if len(elements) > 1:
-            new_keys = [el.key for el in elements if el and el.key]
-            old_keys = [fib.key for fib in old_fibers if fib and fib.key]
-
-            ops = create_ops(old_keys, new_keys)
-
-            for op in ops:
-                if op["op"] is not OpType.DEL:
-                    if "anchor" in op:
-
-                        def match(el, key):
-                            return el.key == key
-
-                        anchor = first(old_fibers, match, op["anchor"])
-                        operations[op["value"]] = anchor.dom
+        # Figure out which of the fibers that are kept have to move to get from the
+        # old to the new order. The fibers that are kept are represented by their old
+        # index, and the new elements by a negative number.
+        old_index = {id(fiber): idx for idx, fiber in enumerate(old_fibers)}
+        old_order = list(old_index.values())
+        new_order = [
+            old_index[id(fiber)] if fiber and fiber.type == element.type else -1 - idx
+            for idx, (element, fiber) in enumerate(zip(elements, ordered_old_fibers))
+        ]
+        kept = [idx for idx in new_order if idx >= 0]
+        moves = set()
+        if kept != sorted(kept):
+            for op in create_ops(old_order, new_order):
+                if op["op"] is OpType.MOVE:
+                    moves.add(op["value"])
 
         # In here, all the 'new' elements are compared to the old/current fiber/state
         prev_sibling = None
@@ -356,8 +355,7 @@ class Collagraph:
                 new_fiber.sibling = None
                 new_fiber.effect_tag = EffectTag.UPDATE
                 new_fiber.watcher = None
-                new_fiber.move = new_fiber.key in operations
-                new_fiber.anchor = operations.get(new_fiber.key)
+                new_fiber.move = old_index[id(old_fiber)] in moves
             if element and not same_type:
                 # Configure a fiber for creating a new DOM element
                 new_fiber = (old_fiber and old_fiber.alternate) or Fiber()
@@ -374,7 +372,6 @@ class Collagraph:
                 new_fiber.effect_tag = EffectTag.PLACEMENT
                 new_fiber.watcher = None
                 new_fiber.move = False
-                new_fiber.anchor = operations.get(new_fiber.key)
                 # NOTE: If there is an old_fiber, then it will be
                 # marked for deletion in the next if statement
             if old_fiber and not same_type:
@@ -400,8 +397,11 @@ class Collagraph:
         that have been marked for deletion have been removed.
         """
         for deletion in self._deletions:
-            self._work.put(deletion)
+            self.commit_work(deletion)
         self._deletions = []
+
+        # Walk through the tree in document order (the last item that was
+        # put on the stack is processed first)
         self._work.put(self._wip_root.child)
 
         while not self._work.empty():
@@ -458,8 +458,8 @@ class Collagraph:
     def commit_deletion(self, fiber: Fiber, dom_parent: Any):
         """
         Remove an item from the dom. If the given fiber does not reference
-        a dom element, then it will try its child (recursively) until it finds
-        a fiber with a dom element that can be removed.
+        a dom element, then it will try its children (recursively) until it finds
+        the fibers with a dom element that can be removed.
         Clears the child and dom attributes of the fiber.
         """
         if fiber.component:
@@ -483,7 +483,12 @@ class Collagraph:
             self.renderer.remove(fiber.dom, dom_parent)
             fiber.dom = None
         else:
-            self.commit_deletion(fiber.child, dom_parent)
+            child = fiber.child
+            while child:
+                # The reference to the sibling is cleared by the deletion
+                sibling = child.sibling
+                self.commit_deletion(child, dom_parent)
+                child = sibling
 
         fiber.child = None
         fiber.sibling = None
@@ -504,16 +509,26 @@ class Collagraph:
                 )
                 fiber.mounted = True
             if fiber.dom is not None:
-                self.renderer.insert(fiber.dom, dom_parent, anchor=fiber.anchor)
+                self.renderer.insert(
+                    fiber.dom,
+                    dom_parent,
+                    anchor=self.find_anchor(fiber),
+                )
         elif fiber.effect_tag == EffectTag.UPDATE:
-            if fiber.dom is not None:
-                if fiber.move:
+            if fiber.move:
+                if fiber.dom is not None:
                     self.renderer.remove(fiber.dom, dom_parent)
                     self.renderer.insert(
                         fiber.dom,
                         dom_parent,
-                        anchor=fiber.anchor,
+                        anchor=self.find_anchor(fiber),
                     )
+                else:
+                    # No dom element for this fiber, so move its children instead
+                    child = fiber.child
+                    while child:
+                        child.move = True
+                        child = child.sibling
             self.update_dom_or_component(
                 fiber,
                 fiber.dom,
@@ -523,8 +538,34 @@ class Collagraph:
         elif fiber.effect_tag == EffectTag.DELETION:
             self.commit_deletion(fiber, dom_parent)
 
-        self._work.put(fiber.child)
         self._work.put(fiber.sibling)
+        self._work.put(fiber.child)
+
+    def find_anchor(self, fiber: Fiber) -> Any:
+        """
+        Find the dom element before which the dom element of the given fiber has to
+        be inserted: the first one that follows in the same dom parent and that is in
+        its right place already. Returns None if there is no such element, in which
+        case the dom element of the given fiber can be added at the end.
+        """
+
+        def in_place(fiber):
+            return fiber.effect_tag == EffectTag.UPDATE and not fiber.move
+
+        while True:
+            while not fiber.sibling:
+                fiber = fiber.parent
+                if fiber.dom is not None:
+                    return None
+
+            fiber = fiber.sibling
+            # Fibers without dom element (templates, components) are represented
+            # by their children
+            while fiber.dom is None and fiber.child and in_place(fiber):
+                fiber = fiber.child
+
+            if fiber.dom is not None and in_place(fiber):
+                return fiber.dom
 
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
diff --git a/collagraph/types.py b/collagraph/types.py
index 3a325e4..161cf9e 100644
--- a/collagraph/types.py
+++ b/collagraph/types.py
@@ -42,7 +42,6 @@ class Fiber:
     dom: Any = None
     effect_tag: EffectTag = None
     key: str = None
-    anchor: Any = None  # Dom element
     move: bool = False
     parent: "Fiber" = None
     props: Dict = None
-- 
2.43.0


From b01eedffaf1edfe2bb5c3c7a71d9808ed977d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:15 +0000
Subject: [PATCH 02/50] fix: tell event handlers apart that differ in more than
 code and closure

Handlers with different argument defaults (the documented way to bind a loop
variable), bound to different instances, with other globals, or with constants
that are equal but of another type were taken to be equivalent, so the element
kept the stale handler. Functions that refer to themselves through their
closure made the comparison recurse endlessly.
---
 collagraph/compare.py | 92 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 75 insertions(+), 17 deletions(-)

diff --git a/collagraph/compare.py b/collagraph/compare.py
index 5e9133d..19616d2 100644
--- a/collagraph/compare.py
+++ b/collagraph/compare.py
@@ -2,23 +2,42 @@ from functools import partial
 from typing import Callable
 
 
-def equivalent_functions(a: Callable, b: Callable):
+def equivalent_functions(a: Callable, b: Callable, comparing=()):
     """Returns whether function a is equivalent to function b.
 
     ``functools.partial`` functions are also supported (but only when both
     argument a and b are partial).
+
+    The ``comparing`` argument holds the pairs of functions of which the comparison
+    is still in progress: functions can refer to themselves through their closures.
     """
+    if a is b:
+        return True
+
     if not hasattr(a, "__code__") or not hasattr(b, "__code__"):
         if isinstance(a, partial) and isinstance(b, partial):
             return (
                 a.args == b.args
                 and a.keywords == b.keywords
-                and equivalent_functions(a.func, b.func)
+                and equivalent_functions(a.func, b.func, comparing)
             )
 
         return a == b
 
-    return equivalent_code(a.__code__, b.__code__) and equivalent_closure_values(a, b)
+    if any(a is x and b is y for x, y in comparing):
+        return True
+    comparing = (*comparing, (a, b))
+
+    return (
+        equivalent_code(a.__code__, b.__code__)
+        and getattr(a, "__self__", None) is getattr(b, "__self__", None)
+        and getattr(a, "__globals__", None) is getattr(b, "__globals__", None)
+        and all(
+            equivalent_values(getattr(a, name, None), getattr(b, name, None), comparing)
+            for name in ("__defaults__", "__kwdefaults__")
+        )
+        and equivalent_closure_values(a, b, comparing)
+    )
 
 
 def equivalent_code(a, b):
@@ -26,10 +45,10 @@ def equivalent_code(a, b):
 
     In order to determine this, a number of properties are compared that
     should be equal between similar functions.
-    It checks all co_* props of __code__ (as seen in Python 3.9), except for:
+    It checks all co_* props of __code__ (as seen in Python 3.12), except for:
       * co_firstlineno
-      * co_lnotab
-      * co_name
+      * co_linetable, co_lnotab
+      * co_name, co_qualname
     because those vars can differ without having any impact on the equivalency
     of the functions themselves.
     """
@@ -39,6 +58,7 @@ def equivalent_code(a, b):
         "co_cellvars",
         "co_code",
         "co_consts",
+        "co_exceptiontable",
         "co_filename",
         "co_flags",
         "co_freevars",
@@ -55,30 +75,68 @@ def equivalent_code(a, b):
             # be different but should be similar at least in length
             if len(attr_a) != len(attr_b):
                 return False
+        elif attr == "co_consts":
+            if constant_key(attr_a) != constant_key(attr_b):
+                return False
         elif attr_a != attr_b:
             return False
 
     return True
 
 
-def equivalent_closure_values(a, b):
+def constant_key(value):
+    """Returns a key for a constant, such that constants that are equal but not
+    interchangeable (such as 1, 1.0 and True) have different keys."""
+    if isinstance(value, (tuple, frozenset)):
+        return type(value), type(value)(constant_key(item) for item in value)
+    if isinstance(value, (float, complex)):
+        # Distinguishes 0.0 from -0.0
+        return type(value), repr(value)
+    return type(value), value
+
+
+def equivalent_closure_values(a, b, comparing=()):
     """Compare the cell contents of the __closure__ attribute for the given
     functions. This method assumes that the code for a and be is already
     equivalent."""
     if (closure_a := getattr(a, "__closure__", None)) and (
         closure_b := getattr(b, "__closure__", None)
     ):
-        values_a = [cell.cell_contents for cell in closure_a]
-        values_b = [cell.cell_contents for cell in closure_b]
-        if len(values_a) != len(values_b):
+        if len(closure_a) != len(closure_b):
             return False
 
-        for a, b in zip(values_a, values_b):
-            if callable(a) and callable(b):
-                if not equivalent_functions(a, b):
-                    return False
-            else:
-                if a != b:
-                    return False
+        for cell_a, cell_b in zip(closure_a, closure_b):
+            if cell_a is cell_b:
+                continue
+            try:
+                value_a, value_b = cell_a.cell_contents, cell_b.cell_contents
+            except ValueError:
+                # One of the cells is (still) empty
+                return False
+            if not equivalent_value(value_a, value_b, comparing):
+                return False
 
     return True
+
+
+def equivalent_values(a, b, comparing=()):
+    """Compare the values of two tuples or two dicts (either can be None)."""
+    if not a or not b:
+        return not a and not b
+    if len(a) != len(b):
+        return False
+    if isinstance(a, dict):
+        return a.keys() == b.keys() and all(
+            equivalent_value(a[key], b[key], comparing) for key in a
+        )
+    return all(equivalent_value(x, y, comparing) for x, y in zip(a, b))
+
+
+def equivalent_value(a, b, comparing=()):
+    """Compare two values: callables are equivalent when they are equivalent functions,
+    and other values when they are equal."""
+    if a is b:
+        return True
+    if callable(a) and callable(b):
+        return equivalent_functions(a, b, comparing)
+    return bool(a == b)
-- 
2.43.0


From dec9949a2ab5aae742bdb3da71204b789f56cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:57 +0000
Subject: [PATCH 03/50] fix: do not lose state changes that arrive while an
 update is prepared

The flag that a state change happened was reset right before committing, so a
change between two slices of work to a part of the tree that had been rendered
already was only displayed after the next, unrelated change.
---
 collagraph/collagraph.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 9fd948a..6ed4565 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -6,6 +6,7 @@ import time
 from typing import Any, Callable, Dict, Iterable, List, Optional
 
 from observ import reactive, scheduler, to_raw
+from observ.dep import Dep
 from observ.watcher import Watcher
 
 from .compare import equivalent_functions
@@ -36,6 +37,9 @@ class NotifyChangeWatcher(Watcher):
 
     def update(self):
         """On update, simply run the callback."""
+        if Dep.stack and Dep.stack[-1] is self:
+            # The change is made by the watched expression itself
+            return
         self.callback()
 
 
@@ -119,6 +123,7 @@ class Collagraph:
         )
 
         self._deletions = []
+        self._dirty = False
         self._next_unit_of_work = self._wip_root
         self._render_callback = callback
 
@@ -173,9 +178,9 @@ class Collagraph:
             # All the preparations to build the new WIP root have been performed,
             # so it's time to walk through the new WIP root fiber tree and update
             # the actual DOM
-            self._dirty = False
             self.commit_root()
-            # A state change happened during updating of the DOM
+            # A state change happened while building the new WIP root (so it might
+            # not be part of it) or during updating of the DOM
             if self._dirty:
                 self.prepare_next_iteration_of_work()
 
@@ -292,6 +297,7 @@ class Collagraph:
         self._wip_root.alternate = self._current_root
         self._next_unit_of_work = self._wip_root
         self._deletions = []
+        self._dirty = False
         self.request_idle_work()
 
     def state_updated(self, fiber: Fiber):
-- 
2.43.0


From 3f78948c9eeb2b675e47dec3402b3676ef0f1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 04/50] fix: forget the children of a recycled root fiber

When render was called again with an element of another type, the next update
walked the fibers of the first render.
---
 collagraph/collagraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 6ed4565..0346a55 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -295,6 +295,7 @@ class Collagraph:
         self._wip_root.props = self._current_root.props
         self._wip_root.children = self._current_root.children
         self._wip_root.alternate = self._current_root
+        self._wip_root.child = None
         self._next_unit_of_work = self._wip_root
         self._deletions = []
         self._dirty = False
-- 
2.43.0


From cfc916f2aaa73ad9e03ce3b792c57e3c8fe7ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:50 +0000
Subject: [PATCH 05/50] fix: support elements and components that are falsy

An element or a component instance with a __len__ or __bool__ was taken to be
absent: it was created again on every update and lost its attributes and hooks.
---
 collagraph/collagraph.py | 28 +++++++++++++++-------------
 collagraph/component.py  |  2 +-
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 0346a55..69ab1fc 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -212,12 +212,14 @@ class Collagraph:
             next_fiber = next_fiber.parent
 
     def update_class_component(self, fiber: Fiber):
-        component = fiber.component or fiber.alternate and fiber.alternate.component
-        if not component:
+        component = fiber.component
+        if component is None and fiber.alternate:
+            component = fiber.alternate.component
+        if component is None:
             parent_component = None
             parent_fiber = fiber.parent
             while parent_fiber is not None:
-                if parent_fiber.component:
+                if parent_fiber.component is not None:
                     parent_component = parent_fiber.component
                     break
                 parent_fiber = parent_fiber.parent
@@ -263,7 +265,7 @@ class Collagraph:
 
     def update_host_component(self, fiber: Fiber):
         # Add dom node, but not for template/slot tags (which are virtual tags)
-        if not fiber.dom and fiber.type not in VIRTUAL_NODE_TYPES:
+        if fiber.dom is None and fiber.type not in VIRTUAL_NODE_TYPES:
             fiber.dom = self.create_dom(fiber)
 
         if fiber.alternate:
@@ -442,13 +444,13 @@ class Collagraph:
                 continue
 
             if fiber.mounted:
-                if fiber.component:
+                if fiber.component is not None:
                     fiber.component._element = fiber.child.dom
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
             elif fiber.updated:
-                if fiber.component:
+                if fiber.component is not None:
                     fiber.component.updated()
                 fiber.updated = False
 
@@ -469,7 +471,7 @@ class Collagraph:
         the fibers with a dom element that can be removed.
         Clears the child and dom attributes of the fiber.
         """
-        if fiber.component:
+        if fiber.component is not None:
             if not fiber.unmounted:
                 fiber.component.before_unmount()
                 fiber.unmounted = True
@@ -477,7 +479,7 @@ class Collagraph:
         def traverse_before_unmount(fiber):
             if fiber is None:
                 return
-            if fiber.component:
+            if fiber.component is not None:
                 if not fiber.unmounted:
                     fiber.component.before_unmount()
                     fiber.unmounted = True
@@ -510,7 +512,7 @@ class Collagraph:
         dom_parent = dom_parent_fiber.dom
 
         if fiber.effect_tag == EffectTag.PLACEMENT:
-            if fiber.component:
+            if fiber.component is not None:
                 self.update_dom_or_component(
                     fiber, None, prev_props={}, next_props=fiber.props
                 )
@@ -577,7 +579,7 @@ class Collagraph:
     def update_dom_or_component(
         self, fiber: Fiber, dom: Any, prev_props: Dict, next_props: Dict
     ):
-        if not dom and not fiber.component:
+        if dom is None and fiber.component is None:
             return
 
         if fiber.type == "TEXT_ELEMENT":
@@ -618,7 +620,7 @@ class Collagraph:
                 if is_new(val, prev_props, key):
                     attrs_to_update[key] = val
 
-        if fiber.component:
+        if fiber.component is not None:
             # Get a writable reference to the read-only props of the component
             props = reactive(fiber.component.props)
 
@@ -636,7 +638,7 @@ class Collagraph:
             if events_to_remove or events_to_add or attrs_to_remove or attrs_to_update:
                 # Mark the fiber as updated
                 fiber.updated = True
-        elif dom:
+        elif dom is not None:
             for event_type, val in events_to_remove.items():
                 self.renderer.remove_event_listener(dom, event_type, val)
 
@@ -655,7 +657,7 @@ class Collagraph:
                 component = None
                 while parent:
                     component = parent.component
-                    if component:
+                    if component is not None:
                         # Mark the fiber as updated
                         parent.updated = True
                         break
diff --git a/collagraph/component.py b/collagraph/component.py
index b0f14fd..a0018f6 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -19,7 +19,7 @@ class Component:
         self._slots = {}
         self._event_handlers = defaultdict(set)
         self._lookup_cache = Component.__lookup_cache__[type(self)]
-        self._parent = ref(parent) if parent else None
+        self._parent = ref(parent) if parent is not None else None
         self._provided = {}
 
     @property
-- 
2.43.0


From f2c627367b2d2fe483e253c3f384115fb3f51cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:55 +0000
Subject: [PATCH 06/50] fix: let the dict renderer operate on the element
 itself

Removing an element, or inserting before one, took the first element that
compares equal. Removing an attribute that was never set (because its value
was None) raised a KeyError.
---
 collagraph/renderers/dict_renderer.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/dict_renderer.py b/collagraph/renderers/dict_renderer.py
index 2856270..1938d9d 100644
--- a/collagraph/renderers/dict_renderer.py
+++ b/collagraph/renderers/dict_renderer.py
@@ -21,12 +21,22 @@ class DictRenderer(Renderer):
 
     def insert(self, el, parent, anchor=None):
         children = parent.setdefault("children", [])
-        anchor_idx = children.index(anchor) if anchor else len(children)
+        anchor_idx = (
+            self.index(children, anchor) if anchor is not None else len(children)
+        )
         children.insert(anchor_idx, el)
 
     def remove(self, el, parent):
         children = parent["children"]
-        children.remove(el)
+        del children[self.index(children, el)]
+
+    @staticmethod
+    def index(children, el):
+        """Returns the index of `el` itself: there can be other, equal elements"""
+        for idx, child in enumerate(children):
+            if child is el:
+                return idx
+        raise ValueError(f"{el} is not in list")
 
     def set_element_text(self, el: dict, value: str):
         el["text"] = value
@@ -36,7 +46,7 @@ class DictRenderer(Renderer):
         attributes[attr] = value
 
     def remove_attribute(self, obj, attr: str, value):
-        attributes = obj["attrs"]
+        attributes = obj.get("attrs", {})
         if attr in attributes:
             del attributes[attr]
 
-- 
2.43.0


From 82bdf979c137d26ea88d5d0c105df9391f05bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 07/50] fix: keep the props of components reactive after an
 update

Values that were replaced by an update were handed to the component as a raw
copy, so changes to such a value afterwards were not displayed.
---
 collagraph/collagraph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 69ab1fc..6a4e3da 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -630,7 +630,9 @@ class Collagraph:
             for key in attrs_to_remove:
                 del props[key]
 
-            props.update(attrs_to_update)
+            # Hand out the actual values instead of those of the (raw) snapshot,
+            # otherwise the component can't track changes to those values
+            props.update({key: fiber.props[key] for key in attrs_to_update})
 
             for event_type, val in events_to_add.items():
                 fiber.component.add_event_handler(event_type, val)
-- 
2.43.0


From b3fea3eb2fe58c277a4f67cfb789d97bdd4eb734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 08/50] fix: let the element of a component be the element it
 currently renders

It was None for a component that renders another component, and it was not
updated when the component rendered an element of another type.
---
 collagraph/collagraph.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 6a4e3da..f54d205 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -443,9 +443,11 @@ class Collagraph:
                 component_hooks.put((fiber.child, True))
                 continue
 
+            if fiber.component is not None:
+                fiber.component._element = self.first_dom(fiber)
+
             if fiber.mounted:
                 if fiber.component is not None:
-                    fiber.component._element = fiber.child.dom
                     fiber.component.mounted()
                 fiber.mounted = False
                 fiber.updated = False
@@ -550,6 +552,17 @@ class Collagraph:
         self._work.put(fiber.sibling)
         self._work.put(fiber.child)
 
+    def first_dom(self, fiber: Fiber) -> Any:
+        """Find the first dom element of the fiber, or else of its descendants."""
+        if fiber.dom is not None:
+            return fiber.dom
+        child = fiber.child
+        while child:
+            dom = self.first_dom(child)
+            if dom is not None:
+                return dom
+            child = child.sibling
+
     def find_anchor(self, fiber: Fiber) -> Any:
         """
         Find the dom element before which the dom element of the given fiber has to
-- 
2.43.0


From 0e8bea982338853169c9ec709a6e8aa58603dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:33 +0000
Subject: [PATCH 09/50] fix: look up the names of a template for each instance

Where a name was found was cached per class, so instances with other props or
state, or a prop that appears or disappears, got a KeyError or another value.
---
 collagraph/component.py | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/collagraph/component.py b/collagraph/component.py
index a0018f6..3c26727 100644
--- a/collagraph/component.py
+++ b/collagraph/component.py
@@ -10,15 +10,12 @@ from collagraph import render_slot
 class Component:
     """Abstract base class for components"""
 
-    __lookup_cache__ = defaultdict(dict)
-
     def __init__(self, props=None, parent=None):
         self._props = readonly({} if props is None else props)
         self._state = reactive({})
         self._element = None
         self._slots = {}
         self._event_handlers = defaultdict(set)
-        self._lookup_cache = Component.__lookup_cache__[type(self)]
         self._parent = ref(parent) if parent is not None else None
         self._provided = {}
 
@@ -138,30 +135,12 @@ class Component:
         This provides some syntactic sugar so that users can leave out `self`,
         `self.state` and `self.props`.
         """
-        cache = self._lookup_cache
-        if method := cache.get(name):
-            return method(self, name, context)
-
-        def props_lookup(self, name, context):
+        if name in self.props:
             return self.props[name]
-
-        def state_lookup(self, name, context):
+        if name in self.state:
             return self.state[name]
-
-        def self_lookup(self, name, context):
+        if hasattr(self, name):
             return getattr(self, name)
-
-        def global_lookup(self, name, context):
+        if name in context:
             return context[name]
-
-        if name in self.props:
-            cache[name] = props_lookup
-        elif name in self.state:
-            cache[name] = state_lookup
-        elif hasattr(self, name):
-            cache[name] = self_lookup
-        elif name in context:
-            cache[name] = global_lookup
-        else:
-            raise NameError(f"name '{name}' is not defined")
-        return self._lookup(name, context)
+        raise NameError(f"name '{name}' is not defined")
-- 
2.43.0


From 095940f71154eeca77255d3a613159171ed772df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:39 +0000
Subject: [PATCH 10/50] fix: keep conditional template nodes in document order

The result of a v-if chain was added after the text and the v-for nodes that
follow it.
---
 collagraph/cgx/cgx.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 451305a..cf9bbc0 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -385,8 +385,15 @@ def convert_node_to_args(node, *, names=None):
         # Handle control flow directives
         if directive := child.control_flow():
             if directive == "v-if" and control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_position,
+                    create_control_flow_ast(control_flow, names=names),
+                )
                 control_flow = []
+            if not control_flow:
+                # The result belongs at the position of the first node: text and
+                # for-directives don't end the chain of control flow nodes
+                control_flow_position = len(children_args)
             control_flow.append((directive, child))
 
         # Gather all the non-template children within a component tag and
@@ -412,7 +419,10 @@ def convert_node_to_args(node, *, names=None):
 
         if not directive:
             if control_flow:
-                children_args.append(create_control_flow_ast(control_flow, names=names))
+                children_args.insert(
+                    control_flow_position,
+                    create_control_flow_ast(control_flow, names=names),
+                )
                 control_flow = []
             if child.tag == "slot":
                 children_args.append(call_render_slot(child, names=names))
@@ -420,7 +430,10 @@ def convert_node_to_args(node, *, names=None):
                 children_args.append(call_create_element(child, names=names))
 
     if control_flow:
-        children_args.append(create_control_flow_ast(control_flow, names=names))
+        children_args.insert(
+            control_flow_position,
+            create_control_flow_ast(control_flow, names=names),
+        )
         control_flow = []
 
     # Create a starred list comprehension that when called, will generate
-- 
2.43.0


From 2fccd28b704236e79bf9b38a50d948a7e769d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 11/50] fix: render the content of slots that have a v-if or
 v-for directive

Such slots, and a slot as the root of a template, always rendered the fallback.
---
 collagraph/cgx/cgx.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index cf9bbc0..13bedf4 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -229,9 +229,19 @@ def call_create_element(node, *, names):
     Names is a set of variable names that should not be wrapped in
     the _lookup method.
     """
+    if node.tag == "slot":
+        # A slot can result in any number of elements, so wrap those in a template
+        args = [
+            ast.Constant(value="template"),
+            ast.Dict(keys=[], values=[]),
+            call_render_slot(node, names=names),
+        ]
+    else:
+        args = convert_node_to_args(node, names=names)
+
     return ast.Call(
         func=ast.Name(id="_create_element", ctx=ast.Load()),
-        args=convert_node_to_args(node, names=names),
+        args=args,
         keywords=[],
     )
 
@@ -266,7 +276,13 @@ def call_render_slot(node, *, names=None):
             ),
             # Otherwise, we render the fallback content
             orelse=ast.List(
-                elts=[call_create_element(node, names=names)],
+                elts=[
+                    ast.Call(
+                        func=ast.Name(id="_create_element", ctx=ast.Load()),
+                        args=convert_node_to_args(node, names=names),
+                        keywords=[],
+                    )
+                ],
                 ctx=ast.Load(),
             ),
         ),
-- 
2.43.0


From ce0185c7406b1581b54c2d6c6af4d23132fc76ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:48 +0000
Subject: [PATCH 12/50] fix: pass text, v-for and template children on as
 default slot content

Those children of a component tag were dropped.
---
 collagraph/cgx/cgx.py | 45 +++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 13bedf4..2fc0210 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -360,6 +360,22 @@ def convert_node_to_args(node, *, names=None):
     children_args = []
 
     slots = {}
+    default_slot_content = []
+    for child in node.children:
+        slot_name = child.slot_name() if isinstance(child, Element) else None
+        if slot_name is not None:
+            slots[slot_name] = child
+        elif not isinstance(child, Comment):
+            default_slot_content.append(child)
+
+    # Gather all the other children within a component tag and
+    # treat them as the content for the default slot
+    if node.tag[0].isupper() or "." in node.tag:
+        if default_slot_content and "default" not in slots:
+            virtual_template_node = Element("template")
+            virtual_template_node.children = default_slot_content
+            slots["default"] = virtual_template_node
+
     control_flow = []
     for child in node.children:
         if isinstance(child, Comment):
@@ -412,27 +428,6 @@ def convert_node_to_args(node, *, names=None):
                 control_flow_position = len(children_args)
             control_flow.append((directive, child))
 
-        # Gather all the non-template children within a component tag and
-        # treat them as the content for the default slot
-        if node.tag[0].isupper() or "." in node.tag:
-            default_slot_content = [
-                child
-                for child in node.children
-                if isinstance(child, Element) and child.tag != "template"
-            ]
-
-            if default_slot_content:
-                virtual_template_node = Element("template")
-                virtual_template_node.children = default_slot_content
-                slots["default"] = virtual_template_node
-
-        for attr in child.attrs.keys():
-            if attr.startswith(("v-slot", "#")):
-                slot_name = attr.split(":")[-1].split("#")[-1]
-                if slot_name == "v-slot":
-                    slot_name = "default"
-                slots[slot_name] = child
-
         if not directive:
             if control_flow:
                 children_args.insert(
@@ -771,6 +766,14 @@ class Element:
             if attr in CONTROL_FLOW_DIRECTIVES:
                 return attr
 
+    def slot_name(self):
+        """Returns the name of the slot for which this node holds the content, if
+        present in the attrs of the node."""
+        for attr in self.attrs:
+            if attr.startswith(("v-slot", "#")):
+                slot_name = attr.split(":")[-1].split("#")[-1]
+                return "default" if slot_name == "v-slot" else slot_name
+
     def child_with_tag(self, tag):
         for child in self.children:
             if getattr(child, "tag", None) == tag:
-- 
2.43.0


From 915194eddbb2f46cd6487e173abcd833c8fb5001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 13/50] fix: respect the scope of lambdas and comprehensions in
 templates

Arguments of lambdas were only recognized in event handlers (and there also
outside of the lambda), the names defined by a comprehension were rewritten
which resulted in invalid code, and self could not be used.
---
 collagraph/cgx/cgx.py | 58 +++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 2fc0210..d52f500 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -343,13 +343,9 @@ def convert_node_to_args(node, *, names=None):
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
-            tree = ast.parse(val, mode="eval")
-            # v-on directives allow for lambdas which define arguments
-            # which need to be skipped by the RewriteName visitor
-            lambda_names = LambdaNamesCollector()
-            lambda_names.visit(tree)
-            RewriteName(skip=names | lambda_names.names).visit(tree)
-            props_values.append(tree.body)
+            props_values.append(
+                RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
+            )
             continue
 
         if key.startswith((DIRECTIVE_FOR)):
@@ -406,7 +402,7 @@ def convert_node_to_args(node, *, names=None):
                     name_collector.generic_visit(generator.target)
 
             local_names = names.union(name_collector.names)
-            RewriteName(skip=local_names).visit(for_tree)
+            for_tree = RewriteName(skip=names).visit(for_tree)
 
             for_tree.elt = call_create_element(child, names=local_names)
 
@@ -675,21 +671,6 @@ class NameCollector(ast.NodeVisitor):
         self.names.add(node.id)
 
 
-class LambdaNamesCollector(ast.NodeVisitor):
-    def __init__(self):
-        self.names = set()
-
-    def visit_Lambda(self, node):
-        # For some reason the body of a lambda is not visited
-        # so we need to do it manually.
-        visitor = LambdaNamesCollector()
-        visitor.visit(node.body)
-        self.names.update(visitor.names)
-
-        for arg in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
-            self.names.add(arg.arg)
-
-
 class RewriteName(ast.NodeTransformer):
     """AST node transformer that will try to replace static Name nodes with
     a call to `_lookup` with the name of the node."""
@@ -703,7 +684,7 @@ class RewriteName(ast.NodeTransformer):
             return node
 
         # Don't replace any name that should be explicitely skipped
-        if node.id in self.skip:
+        if node.id == "self" or node.id in self.skip:
             return node
 
         return ast.Call(
@@ -724,6 +705,35 @@ class RewriteName(ast.NodeTransformer):
         )
 
 
+    def visit_Lambda(self, node):
+        # The defaults of the arguments are evaluated outside of the lambda
+        self.visit(node.args)
+        args = [*node.args.posonlyargs, *node.args.args, *node.args.kwonlyargs]
+        args.extend(arg for arg in (node.args.vararg, node.args.kwarg) if arg)
+        local_names = {arg.arg for arg in args}
+        node.body = RewriteName(skip={*self.skip, *local_names}).visit(node.body)
+        return node
+
+    def visit_comprehension(self, node):
+        visitor = self
+        for generator in node.generators:
+            # Each iterable can make use of the names of the preceding generators
+            generator.iter = visitor.visit(generator.iter)
+            name_collector = NameCollector()
+            name_collector.visit(generator.target)
+            visitor = RewriteName(skip={*visitor.skip, *name_collector.names})
+            generator.ifs = [visitor.visit(test) for test in generator.ifs]
+
+        for field in {"elt", "key", "value"}.intersection(node._fields):
+            setattr(node, field, visitor.visit(getattr(node, field)))
+        return node
+
+    visit_ListComp = visit_comprehension  # noqa: N815
+    visit_SetComp = visit_comprehension  # noqa: N815
+    visit_DictComp = visit_comprehension  # noqa: N815
+    visit_GeneratorExp = visit_comprehension  # noqa: N815
+
+
 class ImportsCollector(ast.NodeVisitor):
     def __init__(self):
         self.names = set()
-- 
2.43.0


From 10988be7c4f13081fb10dadc4da46b6c9d445e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 14/50] fix: give each copy of a v-for node its own scope

The slot content and the event handlers of all copies referred to the values of
the last iteration.
---
 collagraph/cgx/cgx.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index d52f500..df135a3 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -404,7 +404,23 @@ def convert_node_to_args(node, *, names=None):
             local_names = names.union(name_collector.names)
             for_tree = RewriteName(skip=names).visit(for_tree)
 
-            for_tree.elt = call_create_element(child, names=local_names)
+            # Create each element within a lambda, so that the slots and event
+            # handlers of the element refer to the values of their own iteration
+            loop_names = sorted(name_collector.names)
+            for_tree.elt = ast.Call(
+                func=ast.Lambda(
+                    args=ast.arguments(
+                        posonlyargs=[],
+                        args=[ast.arg(arg=name) for name in loop_names],
+                        kwonlyargs=[],
+                        kw_defaults=[],
+                        defaults=[],
+                    ),
+                    body=call_create_element(child, names=local_names),
+                ),
+                args=[ast.Name(id=name, ctx=ast.Load()) for name in loop_names],
+                keywords=[],
+            )
 
             result = ast.Starred(value=for_tree, ctx=ast.Load())
             children_args.append(result)
-- 
2.43.0


From 85b6ec6a7e782a8d4ccb2aff2622a6f1b4f4d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 15/50] fix: support capitalized tags with a dot

---
 collagraph/cgx/cgx.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index df135a3..9f5d65c 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -295,11 +295,7 @@ def convert_node_to_args(node, *, names=None):
     Converts the node to args that can be passed to `collagraph.create_element()`.
     """
     # Construct the first argument: type of node
-    if not node.tag[0].islower():
-        # If the tag does not start with a capital, then it is assumed to be
-        # a class or function, so a Name node is inserted in the ast tree
-        type_arg = ast.Name(id=node.tag, ctx=ast.Load())
-    elif "." in node.tag:
+    if "." in node.tag:
         # If a dot is found in the tag, then it is assumed that the tag represents
         # a package/module attribute lookup
         name, *attributes = node.tag.split(".")
@@ -307,6 +303,10 @@ def convert_node_to_args(node, *, names=None):
         for attr in attributes:
             result = ast.Attribute(value=result, attr=attr, ctx=ast.Load())
         type_arg = result
+    elif not node.tag[0].islower():
+        # If the tag starts with a capital, then it is assumed to be
+        # a class or function, so a Name node is inserted in the ast tree
+        type_arg = ast.Name(id=node.tag, ctx=ast.Load())
     else:
         # Otherwise it is just a constant string
         type_arg = ast.Constant(value=node.tag)
-- 
2.43.0


From 6ab0d2f8b7e7d2e7513d0755a52e068397d0aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 16/50] fix: do not shadow an imported 'name' within the render
 function

---
 collagraph/cgx/cgx.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 9f5d65c..97f5172 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -177,27 +177,27 @@ def create_ast_render_function(node, names):
             f"""
             from warnings import warn as _warn
 
-            for name in {{{names_str}}}:
-                if name in self.state:
+            for _ast_name in {{{names_str}}}:
+                if _ast_name in self.state:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_ast_name}}' "
                         f"as key in self.state: {{self}}.\\n"
                         "If the value from self.state is intended, please resolve by "
-                        f"replacing '{{name}}' with 'state['{{name}}']'"
+                        f"replacing '{{_ast_name}}' with 'state['{{_ast_name}}']'"
                     )
-                if name in self.props:
+                if _ast_name in self.props:
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_ast_name}}' "
                         f"as key in self.props: {{self}}.\\n"
                         "If the value from self.props is intended, please resolve by "
-                        f"replacing '{{name}}' with 'props['{{name}}']'"
+                        f"replacing '{{_ast_name}}' with 'props['{{_ast_name}}']'"
                     )
-                if hasattr(self, name):
+                if hasattr(self, _ast_name):
                     _warn(
-                        f"Found imported name '{{name}}' "
+                        f"Found imported name '{{_ast_name}}' "
                         f"as attribute on self: {{self}}.\\n"
                         "If the attribute from self is intended, please resolve by "
-                        f"replacing '{{name}}' with 'self.{{name}}'"
+                        f"replacing '{{_ast_name}}' with 'self.{{_ast_name}}'"
                     )
             """
         )
-- 
2.43.0


From f4611226b6adeb402ea6f7c56f3226cd1e4bd491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 17/50] fix: do not split the text of a template at '<'

The parts became separate text elements, with the expressions that contain a
'<' left as they are. Expressions can now also span multiple lines.
---
 collagraph/cgx/cgx.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 97f5172..dc889e3 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -24,7 +24,7 @@ DIRECTIVE_ON = f"{DIRECTIVE_PREFIX}on"
 AST_GEN_VARIABLE_PREFIX = "_ast_"
 
 COMPONENT_CLASS_DEFINITION = re.compile(r"class\s*(.*?)\s*\(.*?\)\s*:")
-MOUSTACHES = re.compile(r"\{\{.*?\}\}")
+MOUSTACHES = re.compile(r"\{\{.*?\}\}", re.DOTALL)
 
 
 def load(path):
@@ -818,6 +818,8 @@ class CGXParser(HTMLParser):
         self.stack = [self.root]
 
     def handle_starttag(self, tag, attrs):
+        self.drop_blank_text()
+
         # The tag parameter is lower-cased by the HTMLParser.
         # In order to figure out whether the tag indicates
         # an imported class, we need the original casing for
@@ -844,18 +846,29 @@ class CGXParser(HTMLParser):
     def handle_endtag(self, tag):
         # TODO: pop it till popping the same tag in order to
         # work around unclosed tags?
+        self.drop_blank_text()
         # Pop the stack
         node = self.stack.pop()
         node.end = self.getpos()
 
     def handle_data(self, data):
-        if data.strip():
+        children = self.stack[-1].children
+        if children and isinstance(children[-1], TextElement):
+            # The parser splits text at each '<' that is not part of a tag
+            children[-1].content += data
+        else:
             # Add item as child to the last on the stack
-            self.stack[-1].children.append(
-                TextElement(content=data, location=self.getpos())
-            )
+            children.append(TextElement(content=data, location=self.getpos()))
+
+    def drop_blank_text(self):
+        """Removes the preceding text if it turns out to be just whitespace"""
+        children = self.stack[-1].children
+        if children and isinstance(children[-1], TextElement):
+            if not children[-1].content.strip():
+                children.pop()
 
     def handle_comment(self, comment):
+        self.drop_blank_text()
         if comment.strip():
             # Add item as child to the last on the stack
             self.stack[-1].children.append(
-- 
2.43.0


From 6b718e0b546b55a12f321001931138c64e9baf82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 18/50] fix: let the last of several attributes with the same
 name prevail

The position of the first one was used, so a v-bind in between prevailed.
---
 collagraph/cgx/cgx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index dc889e3..cbd4435 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -830,7 +830,11 @@ class CGXParser(HTMLParser):
         complete_tag = self.get_starttag_text()
         index = complete_tag.lower().index(tag)
         original_tag = complete_tag[index : index + len(tag)]
-        node = Element(original_tag, dict(attrs), location=self.getpos())
+        node = Element(original_tag, location=self.getpos())
+        for key, value in attrs:
+            # Keep the position of the last one when a key is used more than once
+            node.attrs.pop(key, None)
+            node.attrs[key] = value
 
         # Cast attributes that have no value to boolean (True)
         # so that they function like flags
-- 
2.43.0


From fa84c67ec9c315611e411987fdb438fa95cec1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 19/50] fix: insert and remove menus and tool bar and tab items
 in the right place

An anchor that is a menu or a widget is not an action, so inserting before it
crashed; a removed widget left an empty item behind in the tool bar; a removed
menu lost its items and its action, so it could not be inserted again (which is
what a move does); and tabs ignored the anchor.
---
 collagraph/renderers/pyside/objects/menu.py    |  5 +++--
 collagraph/renderers/pyside/objects/menubar.py |  5 ++---
 collagraph/renderers/pyside/objects/tab.py     |  3 +++
 collagraph/renderers/pyside/objects/toolbar.py | 13 ++++++++++++-
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/menu.py b/collagraph/renderers/pyside/objects/menu.py
index 9c2b199..cd8ff59 100644
--- a/collagraph/renderers/pyside/objects/menu.py
+++ b/collagraph/renderers/pyside/objects/menu.py
@@ -6,6 +6,8 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QMenu)
 def insert(self, el, anchor=None):
+    if isinstance(anchor, QMenu):
+        anchor = anchor.menuAction()
     if isinstance(el, QMenu):
         if anchor is not None:
             action = self.insertMenu(anchor, el)
@@ -26,7 +28,6 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QMenu):
-        el.clear()
         menu_action = el.menuAction()
         self.removeAction(menu_action)
-        menu_action.setParent(None)
+        menu_action.setParent(el)
diff --git a/collagraph/renderers/pyside/objects/menubar.py b/collagraph/renderers/pyside/objects/menubar.py
index 15b073e..b9b6551 100644
--- a/collagraph/renderers/pyside/objects/menubar.py
+++ b/collagraph/renderers/pyside/objects/menubar.py
@@ -6,7 +6,7 @@ from ... import PySideRenderer
 @PySideRenderer.register_insert(QMenuBar)
 def insert(self, el: QMenu, anchor: QMenu = None):
     if anchor is not None:
-        action = self.insertMenu(anchor, el)
+        action = self.insertMenu(anchor.menuAction(), el)
     else:
         action = self.addMenu(el)
     # Use the window property of the menubar to set
@@ -21,7 +21,6 @@ def insert(self, el: QMenu, anchor: QMenu = None):
 
 @PySideRenderer.register_remove(QMenuBar)
 def remove(self, el: QMenu):
-    el.clear()
     menu_action = el.menuAction()
     self.removeAction(menu_action)
-    menu_action.setParent(None)
+    menu_action.setParent(el)
diff --git a/collagraph/renderers/pyside/objects/tab.py b/collagraph/renderers/pyside/objects/tab.py
index 54d50ab..ccd0386 100644
--- a/collagraph/renderers/pyside/objects/tab.py
+++ b/collagraph/renderers/pyside/objects/tab.py
@@ -8,6 +8,9 @@ def insert(self, el: QWidget, anchor: QWidget = None):
     index = getattr(el, "tab_index", -1)
     label = getattr(el, "tab_label", "")
 
+    if index < 0 and anchor is not None:
+        index = self.indexOf(anchor)
+
     if index >= 0:
         self.insertTab(index, el, label)
     else:
diff --git a/collagraph/renderers/pyside/objects/toolbar.py b/collagraph/renderers/pyside/objects/toolbar.py
index 4636e3b..683dcea 100644
--- a/collagraph/renderers/pyside/objects/toolbar.py
+++ b/collagraph/renderers/pyside/objects/toolbar.py
@@ -1,11 +1,13 @@
 from PySide6.QtGui import QAction
-from PySide6.QtWidgets import QToolBar, QWidget
+from PySide6.QtWidgets import QToolBar, QWidget, QWidgetAction
 
 from ... import PySideRenderer
 
 
 @PySideRenderer.register_insert(QToolBar)
 def insert(self, el, anchor=None):
+    if isinstance(anchor, QWidget):
+        anchor = widget_action(self, anchor)
     if isinstance(el, QWidget):
         if anchor is not None:
             action = self.insertWidget(anchor, el)
@@ -26,4 +28,13 @@ def remove(self, el):
         self.removeAction(el)
         el.setParent(None)
     elif isinstance(el, QWidget):
+        if action := widget_action(self, el):
+            self.removeAction(action)
         el.setParent(None)
+
+
+def widget_action(self, el):
+    """Returns the action that the toolbar created for the widget"""
+    for action in self.actions():
+        if isinstance(action, QWidgetAction) and action.defaultWidget() is el:
+            return action
-- 
2.43.0


From c3ce2b28ed0c91bebe5c47d91138890e3084e175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:40 +0000
Subject: [PATCH 20/50] fix: do not delete the widgets that are moved within a
 form layout

---
 collagraph/renderers/pyside/objects/layouts.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index 30e79db..fce16b4 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -59,8 +59,12 @@ def remove_layout(self, el):
 
 @PySideRenderer.register_remove(QFormLayout)
 def remove_form(self, el):
-    # Layout also deletes 'el' so no need to unset parent
-    self.removeRow(el)
+    # Don't use `removeRow`, because that also deletes 'el', which will be
+    # inserted again when it is just being moved
+    row = self.takeRow(el)
+    if row.labelItem and (label := row.labelItem.widget()):
+        label.deleteLater()
+    el.setParent(None)
 
 
 @PySideRenderer.register_set_attr(QLayout)
-- 
2.43.0


From 91a70f5e22d3eecba3a084492278c2e7966817b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 21/50] fix: disconnect event listeners that are bound methods

For those a lambda is connected to the signal, which was never disconnected
because it does not compare equal to the method.
---
 collagraph/renderers/pyside_renderer.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index 36a0250..a0cdf39 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -390,7 +390,7 @@ class PySideRenderer(Renderer):
         if signal and hasattr(signal, "connect"):
             # Add a slots attribute to hold all the generated slots, keyed on event_type
             if not hasattr(el, "slots"):
-                el.slots = defaultdict(set)
+                el.slots = defaultdict(dict)
 
             # Create a slot with the given value
             # Note that the slot apparently does not need arguments to specify the type
@@ -407,7 +407,7 @@ class PySideRenderer(Renderer):
                 # TODO: with some inspection we might be able to figure out the
                 # signature of the 'value' function and adjust the lambda accordingly
                 slot = QtCore.Slot()(lambda *args: value(*args))
-            el.slots[event_type].add(slot)
+            el.slots[event_type][value] = slot
 
             signal.connect(slot)
         else:
@@ -428,12 +428,9 @@ class PySideRenderer(Renderer):
             el._event_filter.remove_event_handler(event_name, value)
             return
 
-        for slot in el.slots[event_type]:
-            # Slot can be compared to its value
-            if slot == value:
-                signal.disconnect(slot)
-                el.slots[event_type].remove(slot)
-                break
+        # The slot does not have to be equal to its value, see `add_event_listener`
+        if slot := el.slots[event_type].pop(value, None):
+            signal.disconnect(slot)
 
 
 def not_implemented(self, *args, **kwargs):
-- 
2.43.0


From ab2356921f3eeebf0630b5304edc701a1db671a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 22/50] fix: remove the event handler that is actually
 registered

---
 collagraph/collagraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index f54d205..09d87c5 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -612,6 +612,9 @@ class Collagraph:
                     val, next_props, key
                 ):
                     equivalent_event_handlers.add(key)
+                    # Keep track of the handler that stays registered: that's the
+                    # one that has to be removed later on
+                    next_props[key] = val
                     continue
 
                 event_type = key_to_event(key)
-- 
2.43.0


From db80cd9219342aa8f730e1607c0168500a997936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 23/50] fix: pass new props that are None on to mounted
 components

---
 collagraph/collagraph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 09d87c5..e4a237c 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -632,8 +632,11 @@ class Collagraph:
                 event_type = key_to_event(key)
                 events_to_add[event_type] = next_props[key]
             else:
-                # Is key new or changed?
-                if is_new(val, prev_props, key):
+                # Is key new or changed? The props of a component have to contain
+                # every key, even if its value is None
+                if is_new(val, prev_props, key) or (
+                    fiber.component is not None and key not in prev_props
+                ):
                     attrs_to_update[key] = val
 
         if fiber.component is not None:
-- 
2.43.0


From e573e6ba534423eb5a1634a5d10a518f279c4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:11 +0000
Subject: [PATCH 24/50] fix: allow props that were added as None to be removed
 again

---
 collagraph/collagraph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index e4a237c..018caab 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -650,8 +650,11 @@ class Collagraph:
                 del props[key]
 
             # Hand out the actual values instead of those of the (raw) snapshot,
-            # otherwise the component can't track changes to those values
-            props.update({key: fiber.props[key] for key in attrs_to_update})
+            # otherwise the component can't track changes to those values.
+            # NOTE: items are set one by one because `update` does not keep track of
+            # new keys with a value of None, which then can't be deleted later on
+            for key in attrs_to_update:
+                props[key] = fiber.props[key]
 
             for event_type, val in events_to_add.items():
                 fiber.component.add_event_handler(event_type, val)
-- 
2.43.0


From e812e51613c62aa10a2ef5ddc89f38b9efd1fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:42 +0000
Subject: [PATCH 25/50] fix: delete pygfx attributes that did not exist, also
 when set twice

---
 collagraph/renderers/pygfx_renderer.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index ddcce23..021f1cd 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -4,6 +4,8 @@ from . import Renderer
 
 ELEMENT_TYPE_CACHE = {}
 DEFAULT_ATTR_CACHE = {}
+# Marks attributes that don't exist until they're set by the renderer
+NO_DEFAULT = object()
 
 
 class PygfxRenderer(Renderer):
@@ -51,12 +53,11 @@ class PygfxRenderer(Renderer):
             obj = getattr(obj, attribute)
 
         if key not in DEFAULT_ATTR_CACHE:
-            if hasattr(obj, attr):
-                default_value = getattr(obj, attr)
-                if hasattr(default_value, "copy"):
-                    DEFAULT_ATTR_CACHE[key] = default_value.copy()
-                else:
-                    DEFAULT_ATTR_CACHE[key] = default_value
+            default_value = getattr(obj, attr, NO_DEFAULT)
+            if hasattr(default_value, "copy"):
+                DEFAULT_ATTR_CACHE[key] = default_value.copy()
+            else:
+                DEFAULT_ATTR_CACHE[key] = default_value
 
         setattr(obj, attr, value)
 
@@ -69,8 +70,8 @@ class PygfxRenderer(Renderer):
         for attribute in attrs:
             obj = getattr(obj, attribute)
 
-        if key in DEFAULT_ATTR_CACHE:
-            default_value = DEFAULT_ATTR_CACHE[key]
+        default_value = DEFAULT_ATTR_CACHE.get(key, NO_DEFAULT)
+        if default_value is not NO_DEFAULT:
             if hasattr(default_value, "copy"):
                 val = default_value.copy()
             else:
-- 
2.43.0


From 48930d54fb10046347ec7dcf7af3820ae058e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 26/50] fix: tell pygfx classes with the same name apart

---
 collagraph/renderers/pygfx_renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pygfx_renderer.py b/collagraph/renderers/pygfx_renderer.py
index 021f1cd..8e392a6 100644
--- a/collagraph/renderers/pygfx_renderer.py
+++ b/collagraph/renderers/pygfx_renderer.py
@@ -44,7 +44,7 @@ class PygfxRenderer(Renderer):
         raise NotImplementedError
 
     def set_attribute(self, obj, attr, value):
-        key = f"{type(obj).__name__}.{attr}"
+        key = (type(obj), attr)
 
         # Split the given attr on dots to allow for
         # local.position for instance to be set
@@ -62,7 +62,7 @@ class PygfxRenderer(Renderer):
         setattr(obj, attr, value)
 
     def remove_attribute(self, obj, attr, value):
-        key = f"{type(obj).__name__}.{attr}"
+        key = (type(obj), attr)
 
         # Split the given attr on dots to allow for
         # local.position for instance to be set
-- 
2.43.0


From 22212711b70488362bfd3144a5787ed9d5c12979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:36 +0000
Subject: [PATCH 27/50] fix: accept json and reject components that are too
 long to be a path

---
 collagraph/__main__.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/collagraph/__main__.py b/collagraph/__main__.py
index 8e8280d..bd8234c 100644
--- a/collagraph/__main__.py
+++ b/collagraph/__main__.py
@@ -77,7 +77,12 @@ def init_collagraph(renderer_type: str, component_path: Path, state: dict = None
 
 def existing_component_file(value):
     path = Path(value)
-    if not path.exists():
+    try:
+        exists = path.exists()
+    except OSError as e:
+        # For instance when the value is too long to be a path
+        raise argparse.ArgumentTypeError(f"{value} can't be accessed: {e.strerror}")
+    if not exists:
         raise argparse.ArgumentTypeError(f"{value} does not exist")
     if not path.is_file():
         raise argparse.ArgumentTypeError(f"{value} is not a file")
@@ -88,17 +93,20 @@ def existing_component_file(value):
 
 def json_contents(value):
     path = Path(value)
-    if path.is_file():
-        with path.open(mode="r", encoding="utf-8") as fh:
-            try:
+    try:
+        is_file = path.is_file()
+    except OSError:
+        # For instance when the value is too long to be a path
+        is_file = False
+
+    try:
+        if is_file:
+            with path.open(mode="r", encoding="utf-8") as fh:
                 return json.load(fh)
-            except Exception:
-                raise argparse.ArgumentTypeError(f"{value} is not valid json")
-    else:
-        try:
+        else:
             return json.loads(value)
-        except Exception:
-            raise argparse.ArgumentTypeError(f"{value} is not valid json")
+    except Exception:
+        raise argparse.ArgumentTypeError(f"{value} is not valid json")
 
 
 def run():
-- 
2.43.0


From 3ab3e912c55abe88989a1a7636080320975b37d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 28/50] fix: do not import directories that are named like a
 cgx file

---
 collagraph/cgx/importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index a6e55ef..cb0f26e 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -23,7 +23,7 @@ class CgxImporter:
         directories = sys.path if path is None else path
         for directory in directories:
             cgx_path = pathlib.Path(directory) / cgx_file_name
-            if cgx_path.exists():
+            if cgx_path.is_file():
                 spec = ModuleSpec(name, cls(cgx_path), origin=str(cgx_path))
                 spec.has_location = True
                 return spec
-- 
2.43.0


From dc4b44062a7d7f269b0c863288e6a76bf68baae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:47 +0000
Subject: [PATCH 29/50] fix: use the current names of the script when a module
 is reloaded

---
 collagraph/cgx/importer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/importer.py b/collagraph/cgx/importer.py
index cb0f26e..be4d6b2 100644
--- a/collagraph/cgx/importer.py
+++ b/collagraph/cgx/importer.py
@@ -36,8 +36,11 @@ class CgxImporter:
         """Executing the module means reading the cgx file"""
         component, context = cgx.load(self.cgx_path)
         # Add the default module keys to the context such that
-        # __file__, __name__ and such are available to the loaded module
-        context.update(module.__dict__)
+        # __file__, __name__ and such are available to the loaded module.
+        # When the module is reloaded, it still contains all of its previous names:
+        # those may not replace the current ones.
+        for key, value in module.__dict__.items():
+            context.setdefault(key, value)
 
         module.__dict__.update(context)
         module.__dict__[component.__name__] = component
-- 
2.43.0


From 08ce51dcfc27e0591fa0b0bc63d3f490e067bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 30/50] fix: don't schedule the work twice when state changed
 during an update

---
 collagraph/collagraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/collagraph/collagraph.py b/collagraph/collagraph.py
index 018caab..8dbaff5 100644
--- a/collagraph/collagraph.py
+++ b/collagraph/collagraph.py
@@ -182,7 +182,9 @@ class Collagraph:
             # A state change happened while building the new WIP root (so it might
             # not be part of it) or during updating of the DOM
             if self._dirty:
+                # This schedules the work that has to be done already
                 self.prepare_next_iteration_of_work()
+                return
 
         if self._next_unit_of_work:
             self.request_idle_work()
-- 
2.43.0


From ed3ebe52d53a2d1a7b1643740d6f36d8e1433614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:22 +0000
Subject: [PATCH 31/50] fix: support names with a colon in bound attributes and
 events

---
 collagraph/cgx/cgx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index cbd4435..06c688e 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -330,7 +330,7 @@ def convert_node_to_args(node, *, names=None):
                     RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
                 )
             else:
-                _, key = key.split(":")
+                _, key = key.split(":", 1)
                 props_keys.append(ast.Constant(value=key))
                 props_values.append(
                     RewriteName(skip=names).visit(ast.parse(val, mode="eval")).body
@@ -339,7 +339,7 @@ def convert_node_to_args(node, *, names=None):
 
         if key.startswith((DIRECTIVE_ON, "@")):
             split_char = "@" if key.startswith("@") else ":"
-            _, key = key.split(split_char)
+            _, key = key.split(split_char, 1)
             key = f"on_{key}"
             props_keys.append(ast.Constant(value=key))
 
-- 
2.43.0


From 59a1016e6e0175029b4f11d7cd2e3bd25a92ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:31 +0000
Subject: [PATCH 32/50] fix: support slot names with separators

---
 collagraph/cgx/cgx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 06c688e..9c937a7 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -797,8 +797,8 @@ class Element:
         present in the attrs of the node."""
         for attr in self.attrs:
             if attr.startswith(("v-slot", "#")):
-                slot_name = attr.split(":")[-1].split("#")[-1]
-                return "default" if slot_name == "v-slot" else slot_name
+                prefix = "#" if attr.startswith("#") else "v-slot:"
+                return attr[len(prefix) :] or "default"
 
     def child_with_tag(self, tag):
         for child in self.children:
-- 
2.43.0


From 747552e56ae04e5623ef33b84773ed854b602f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 33/50] fix: do not hand the short form of a slot directive to
 the element as an attribute

---
 collagraph/cgx/cgx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 9c937a7..04c84a3 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -673,7 +673,7 @@ def create_control_flow_ast(control_flow, *, names):
 
 
 def is_directive(key):
-    return key.startswith((DIRECTIVE_PREFIX, ":", "@"))
+    return key.startswith((DIRECTIVE_PREFIX, ":", "@", "#"))
 
 
 class NameCollector(ast.NodeVisitor):
-- 
2.43.0


From d9adc2c6a8db5bfaf37a42e249ec098233b3c162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:48 +0000
Subject: [PATCH 34/50] fix: resolve names of nested Qt classes

---
 collagraph/renderers/pyside_renderer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/collagraph/renderers/pyside_renderer.py b/collagraph/renderers/pyside_renderer.py
index a0cdf39..9168eeb 100644
--- a/collagraph/renderers/pyside_renderer.py
+++ b/collagraph/renderers/pyside_renderer.py
@@ -468,12 +468,12 @@ def name_to_type(name, modules=None, orig=None):
     'QBoxLayout.Direction.TopToBottom'. As long as the name can
     be found in the QtWidget, QtGui, QtCore or QtCore.Qt module.
     """
-    normalized_name = normalize_name(name)
-    if normalized_name in TYPE_MAPPING:
-        return TYPE_MAPPING[normalized_name]
-    if normalized_name in LAYOUT_MAPPING:
-        return LAYOUT_MAPPING[normalized_name]
     if modules is None:
+        normalized_name = normalize_name(name)
+        if normalized_name in TYPE_MAPPING:
+            return TYPE_MAPPING[normalized_name]
+        if normalized_name in LAYOUT_MAPPING:
+            return LAYOUT_MAPPING[normalized_name]
         modules = [QtWidgets, QtGui, QtCore, QtCore.Qt]
     parts = name.split(".")
     for module in modules:
@@ -491,7 +491,7 @@ def name_to_type(name, modules=None, orig=None):
         if element_class is not None:
             if len(parts) > 1:
                 return name_to_type(
-                    ".".join(parts[1:]), modules=[element_class], orig=name
+                    ".".join(parts[1:]), modules=(element_class,), orig=name
                 )
             return element_class
 
-- 
2.43.0


From f074790c1f79b3d11b537343578d1d07e1edcea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 35/50] fix: render text within a loop with a variable named as
 a builtin

---
 collagraph/cgx/cgx.py | 69 +++++++------------------------------------
 1 file changed, 11 insertions(+), 58 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 04c84a3..88d9f80 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -563,72 +563,25 @@ def args_for_text_element(child, names):
     else:
         offset = 0
         string_parts = []
-        expressions = []
         for group in groups:
             span = group.span()
             string_parts.append(ast.Constant(value=child.content[offset : span[0]]))
             expr = (child.content[span[0] + 2 : span[1] - 2]).strip()
-            expressions.append(
-                RewriteName(skip=names).visit(ast.parse(expr, mode="eval")).body
+            # Formats the value with `str`, independent of what the name `str` refers
+            # to within the template (the variable of a for-directive for instance)
+            string_parts.append(
+                ast.FormattedValue(
+                    value=RewriteName(skip=names)
+                    .visit(ast.parse(expr, mode="eval"))
+                    .body,
+                    conversion=ord("s"),
+                )
             )
             offset = span[1]
 
-        string_suffix = ast.Constant(value=child.content[offset:])
+        string_parts.append(ast.Constant(value=child.content[offset:]))
 
-        args.append(
-            # The following tree is the ast of the following expression:
-            # "".join(
-            #     [x + str(y) for x, y in zip(string_parts, expressions)]
-            #     + [string_suffix]
-            # )
-            ast.Call(
-                func=ast.Attribute(
-                    value=ast.Constant(value=""), attr="join", ctx=ast.Load()
-                ),
-                args=[
-                    ast.BinOp(
-                        left=ast.ListComp(
-                            elt=ast.BinOp(
-                                left=ast.Name(id="x", ctx=ast.Load()),
-                                op=ast.Add(),
-                                right=ast.Call(
-                                    func=ast.Name(id="str", ctx=ast.Load()),
-                                    args=[ast.Name(id="y", ctx=ast.Load())],
-                                    keywords=[],
-                                ),
-                            ),
-                            generators=[
-                                ast.comprehension(
-                                    target=ast.Tuple(
-                                        elts=[
-                                            ast.Name(id="x", ctx=ast.Store()),
-                                            ast.Name(id="y", ctx=ast.Store()),
-                                        ],
-                                        ctx=ast.Store(),
-                                    ),
-                                    iter=ast.Call(
-                                        func=ast.Name(id="zip", ctx=ast.Load()),
-                                        args=[
-                                            ast.List(
-                                                elts=string_parts,
-                                                ctx=ast.Load(),
-                                            ),
-                                            ast.List(elts=expressions, ctx=ast.Load()),
-                                        ],
-                                        keywords=[],
-                                    ),
-                                    ifs=[],
-                                    is_async=0,
-                                )
-                            ],
-                        ),
-                        op=ast.Add(),
-                        right=ast.List(elts=[string_suffix], ctx=ast.Load()),
-                    )
-                ],
-                keywords=[],
-            )
-        )
+        args.append(ast.JoinedStr(values=string_parts))
 
     return args
 
-- 
2.43.0


From 60b66649f487dceee6f8c4b570b019e8c866a92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 36/50] fix: keep a loop variable or import named props within
 the content of a slot

---
 collagraph/cgx/cgx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 88d9f80..27e2db4 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -501,7 +501,7 @@ def convert_node_to_args(node, *, names=None):
                 ast.Lambda(
                     args=ast.arguments(
                         posonlyargs=[],
-                        args=[ast.arg(arg="props")],
+                        args=[ast.arg(arg=f"{AST_GEN_VARIABLE_PREFIX}props")],
                         kwonlyargs=[],
                         kw_defaults=[],
                         defaults=[],
-- 
2.43.0


From 0b1fa0a06cb9c36235085af08ef4262d18775f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 37/50] fix: keep looking up names in a template in which a
 variable or import is named globals

---
 collagraph/cgx/cgx.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 27e2db4..8e7b65a 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -169,7 +169,15 @@ def create_ast_render_function(node, names):
             module="collagraph",
             names=[ast.alias(name="create_element", asname="_create_element")],
             level=0,
-        )
+        ),
+        # Names in the template can hide the builtin `globals`
+        ast.ImportFrom(
+            module="builtins",
+            names=[
+                ast.alias(name="globals", asname=f"{AST_GEN_VARIABLE_PREFIX}globals")
+            ],
+            level=0,
+        ),
     ]
     if CGX_RUNTIME_WARNINGS:
         names_str = ", ".join([f"'{name}'" for name in names])
@@ -665,7 +673,9 @@ class RewriteName(ast.NodeTransformer):
             args=[
                 ast.Constant(value=node.id),
                 ast.Call(
-                    func=ast.Name(id="globals", ctx=ast.Load()),
+                    func=ast.Name(
+                        id=f"{AST_GEN_VARIABLE_PREFIX}globals", ctx=ast.Load()
+                    ),
                     args=[],
                     keywords=[],
                 ),
-- 
2.43.0


From 751b320610856d4a7b100d3d7170f6a1faac1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 38/50] fix: expand, collapse and select top-level tree items
 after they are mounted

---
 collagraph/renderers/pyside/objects/treewidgetitem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index 85993a8..b82c445 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -40,13 +40,13 @@ def set_attribute(self, attr, value):
             self.setText(col, data)
         return
     elif attr == "expanded":
-        if not self.parent():
+        if not self.treeWidget():
             self._expanded = value
         else:
             self.setExpanded(value)
         return
     elif attr == "selected":
-        if not self.parent():
+        if not self.treeWidget():
             self._selected = value
         else:
             self.setSelected(value)
-- 
2.43.0


From 3c757eee006d1f1be7890c342453b1fb7c7817b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 39/50] fix: names imported within a function or class of the
 script are not imports of the module

---
 collagraph/cgx/cgx.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index 8e7b65a..b90afa1 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -725,6 +725,13 @@ class ImportsCollector(ast.NodeVisitor):
         for alias in node.names:
             self.names.add(alias.asname or alias.name)
 
+    def visit_FunctionDef(self, node):
+        # Names that are imported in there are not known to the module
+        pass
+
+    visit_AsyncFunctionDef = visit_FunctionDef
+    visit_ClassDef = visit_FunctionDef
+
 
 class TextElement:
     def __init__(self, content, location=None):
-- 
2.43.0


From 065887cd4f0f6f398adc6b8b795b7e4d48e0321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 40/50] fix: a dotted import without an alias binds its first
 part

---
 collagraph/cgx/cgx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collagraph/cgx/cgx.py b/collagraph/cgx/cgx.py
index b90afa1..ef7d160 100644
--- a/collagraph/cgx/cgx.py
+++ b/collagraph/cgx/cgx.py
@@ -723,7 +723,8 @@ class ImportsCollector(ast.NodeVisitor):
 
     def visit_Import(self, node):
         for alias in node.names:
-            self.names.add(alias.asname or alias.name)
+            # Without an alias `import a.b` binds the name `a`
+            self.names.add(alias.asname or alias.name.split(".")[0])
 
     def visit_FunctionDef(self, node):
         # Names that are imported in there are not known to the module
-- 
2.43.0


From d210f28e0d2e39d3d1fc6fa7ab316a3e04d981a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 41/50] fix: put a tool bar in the area of the main window that
 it names

addToolBar takes the area before the tool bar: every tool bar with an area
raised a TypeError.
---
 collagraph/renderers/pyside/objects/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/window.py b/collagraph/renderers/pyside/objects/window.py
index c7890ec..851a902 100644
--- a/collagraph/renderers/pyside/objects/window.py
+++ b/collagraph/renderers/pyside/objects/window.py
@@ -15,7 +15,7 @@ def insert(self, el, anchor=None):
         el.setParent(self)
     elif isinstance(el, QToolBar):
         if area := getattr(el, "area", None):
-            self.addToolBar(el, area)
+            self.addToolBar(area, el)
         else:
             self.addToolBar(el)
         el.setParent(self)
-- 
2.43.0


From fea7b99bffcf89487e6ccec834c24bab8fe36e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 42/50] fix: removing the selection model of an item view
 crashed

A view can't be without a selection model: setSelectionModel(None) is a
null pointer dereference within Qt. The view gets a new one instead.
---
 collagraph/renderers/pyside/objects/listview.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/listview.py b/collagraph/renderers/pyside/objects/listview.py
index 868e593..2715c6e 100644
--- a/collagraph/renderers/pyside/objects/listview.py
+++ b/collagraph/renderers/pyside/objects/listview.py
@@ -30,7 +30,9 @@ def remove(self, el: Union[QStandardItemModel, QItemSelectionModel]):
     if isinstance(el, QStandardItemModel):
         self.setModel(None)
     elif isinstance(el, QItemSelectionModel):
-        self.setSelectionModel(None)
+        if self.selectionModel() is el:
+            # A view can't be without a selection model
+            self.setSelectionModel(QItemSelectionModel(self.model(), self))
     else:
         raise NotImplementedError(type(el).__name__)
 
-- 
2.43.0


From 3dcc2dbb5b9539300a80037ad2289c1d54c642e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 43/50] fix: a dock widget used a child with a method called
 title as its title bar

---
 collagraph/renderers/pyside/objects/dockwidget.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/dockwidget.py b/collagraph/renderers/pyside/objects/dockwidget.py
index 9266774..f4db84c 100644
--- a/collagraph/renderers/pyside/objects/dockwidget.py
+++ b/collagraph/renderers/pyside/objects/dockwidget.py
@@ -5,7 +5,9 @@ from ... import PySideRenderer
 
 @PySideRenderer.register_insert(QtWidgets.QDockWidget)
 def insert(self, el, anchor=None):
-    if getattr(el, "title", False):
+    title = getattr(el, "title", False)
+    # Some widgets (such as QGroupBox) have a method called `title`
+    if title and not callable(title):
         self.setTitleBarWidget(el)
     else:
         self.setWidget(el)
-- 
2.43.0


From 2ce4224415e1f5407722f2487e0b70cba0be5e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 44/50] fix: a dialog button box kept the buttons that were
 removed

---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 3d191e4..2dde430 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -18,6 +18,12 @@ def insert(self, el, anchor=None):
     raise NotImplementedError
 
 
+@PySideRenderer.register_remove(QDialogButtonBox)
+def remove(self, el):
+    self.removeButton(el)
+    el.setParent(None)
+
+
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
-- 
2.43.0


From fd76150fe0f2685d5de5ef2209a6be623963df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:50 +0000
Subject: [PATCH 45/50] fix: a scroll area kept the widget that was removed

---
 collagraph/renderers/pyside/objects/scrollarea.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collagraph/renderers/pyside/objects/scrollarea.py b/collagraph/renderers/pyside/objects/scrollarea.py
index c4fcec8..cabb911 100644
--- a/collagraph/renderers/pyside/objects/scrollarea.py
+++ b/collagraph/renderers/pyside/objects/scrollarea.py
@@ -11,5 +11,7 @@ def insert(self, el: QWidget, anchor=None):
 
 @PySideRenderer.register_remove(QScrollArea)
 def remove(self, el: QWidget):
-    self.setWidget(None)
+    # Note that `setWidget(None)` is ignored by Qt
+    if self.widget() is el:
+        self.takeWidget()
     el.setParent(None)
-- 
2.43.0


From 657243d18a98e38de123bea97f03038ab2be0fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:55 +0000
Subject: [PATCH 46/50] fix: a form kept the old label of a row whose label or
 index changed

---
 .../renderers/pyside/objects/layouts.py       | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index fce16b4..b276b5a 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -59,12 +59,16 @@ def remove_layout(self, el):
 
 @PySideRenderer.register_remove(QFormLayout)
 def remove_form(self, el):
+    take_row(self, el)
+    el.setParent(None)
+
+
+def take_row(self, el):
     # Don't use `removeRow`, because that also deletes 'el', which will be
     # inserted again when it is just being moved
     row = self.takeRow(el)
     if row.labelItem and (label := row.labelItem.widget()):
         label.deleteLater()
-    el.setParent(None)
 
 
 @PySideRenderer.register_set_attr(QLayout)
@@ -114,7 +118,15 @@ def set_form_index(self, attr, value):
     setattr(self, attr, value)
     if parent := self.parent():
         layout = parent.layout()
-        if hasattr(self, "form_label") and hasattr(self, "form_index"):
-            layout.insertRow(self.form_index, self.form_label, self)
-        elif hasattr(self, "form_label"):
-            layout.addRow(self.form_label, self)
+        if hasattr(self, "form_label"):
+            index = getattr(self, "form_index", None)
+            if layout.indexOf(self) != -1:
+                # Take out the current row, otherwise its label would stay behind
+                if index is None:
+                    index, _ = layout.getWidgetPosition(self)
+                take_row(layout, self)
+
+            if index is None:
+                layout.addRow(self.form_label, self)
+            else:
+                layout.insertRow(index, self.form_label, self)
-- 
2.43.0


From 07ba331d7594708e899e0f514ff695e899f74797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:06 +0000
Subject: [PATCH 47/50] fix: changed items of a combo box were added to the
 previous items

---
 collagraph/renderers/pyside/objects/combobox.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/combobox.py b/collagraph/renderers/pyside/objects/combobox.py
index 1f95076..1d054bd 100644
--- a/collagraph/renderers/pyside/objects/combobox.py
+++ b/collagraph/renderers/pyside/objects/combobox.py
@@ -7,6 +7,14 @@ from ... import PySideRenderer
 @PySideRenderer.register_set_attr(QtWidgets.QComboBox)
 def set_attribute(self, attr, value):
     if attr == "items":
+        if not self.count():
+            self.addItems(value)
+            return
+
+        # Replace the items, but hold on to the current one
+        current = self.currentText()
+        self.clear()
         self.addItems(value)
+        self.setCurrentText(current)
     else:
         widget.set_attribute(self, attr, value)
-- 
2.43.0


From c077f37b66c78ce97107413f4b1bbbec49eef72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:15 +0000
Subject: [PATCH 48/50] fix: changed buttons of a dialog button box were added
 to the previous buttons

---
 collagraph/renderers/pyside/objects/dialogbuttonbox.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/dialogbuttonbox.py b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
index 2dde430..7835307 100644
--- a/collagraph/renderers/pyside/objects/dialogbuttonbox.py
+++ b/collagraph/renderers/pyside/objects/dialogbuttonbox.py
@@ -27,6 +27,12 @@ def remove(self, el):
 @PySideRenderer.register_set_attr(QDialogButtonBox)
 def set_attribute(self, attr, value):
     if attr == "buttons":
+        # Replace the standard buttons
+        for button in self.buttons():
+            if self.standardButton(button) != QDialogButtonBox.StandardButton.NoButton:
+                self.removeButton(button)
+                button.deleteLater()
+
         for flag in value:
             flag = (
                 flag
-- 
2.43.0


From a1de1d722c461debe6087956a611e15cca41f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 49/50] fix: columns that are gone from the content of a tree
 item kept their text

---
 collagraph/renderers/pyside/objects/treewidgetitem.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collagraph/renderers/pyside/objects/treewidgetitem.py b/collagraph/renderers/pyside/objects/treewidgetitem.py
index b82c445..d0c3e0a 100644
--- a/collagraph/renderers/pyside/objects/treewidgetitem.py
+++ b/collagraph/renderers/pyside/objects/treewidgetitem.py
@@ -36,6 +36,9 @@ def remove(self, el: QTreeWidgetItem):
 @PySideRenderer.register_set_attr(QTreeWidgetItem)
 def set_attribute(self, attr, value):
     if attr == "content":
+        for col in range(self.columnCount()):
+            if col not in value:
+                self.setText(col, "")
         for col, data in value.items():
             self.setText(col, data)
         return
-- 
2.43.0


From 28d8a5711f23b6185e404576e68798c614f0b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:07 +0000
Subject: [PATCH 50/50] fix: the layout type of a widget was not found by names
 with dashes or underscores

---
 collagraph/renderers/pyside/objects/layouts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/collagraph/renderers/pyside/objects/layouts.py b/collagraph/renderers/pyside/objects/layouts.py
index b276b5a..c674b82 100644
--- a/collagraph/renderers/pyside/objects/layouts.py
+++ b/collagraph/renderers/pyside/objects/layouts.py
@@ -8,7 +8,7 @@ from PySide6.QtWidgets import (
 )
 
 from .. import attr_name_to_method_name, call_method
-from ...pyside_renderer import LAYOUT_MAPPING, PySideRenderer
+from ...pyside_renderer import LAYOUT_MAPPING, normalize_name, PySideRenderer
 
 DIRECTIONS = {
     "TopToBottom": QBoxLayout.Direction.TopToBottom,
@@ -89,14 +89,15 @@ def set_layout_attribute(self, attr, value):
 
 @PySideRenderer.register_custom_attribute("layout")
 def set_layout_attr(self, attr, value):
-    if layout_type := LAYOUT_MAPPING.get(value["type"].lower()):
+    layout_name = normalize_name(value["type"])
+    if layout_type := LAYOUT_MAPPING.get(layout_name):
         layout = self.layout()
         if isinstance(layout, layout_type):
             pass
         else:
             if layout:
                 QWidget().setLayout(layout)
-            layout = PySideRenderer.create_object(value["type"].lower())
+            layout = PySideRenderer.create_object(layout_name)
             self.setLayout(layout)
 
         for key, val in value.items():
-- 
2.43.0


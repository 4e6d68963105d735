From 8f2d239010cb13c4a033190f68183bdbfc90f041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:21 +0000
Subject: [PATCH 01/43] fix: Event.fire_all and fire_any give a definite answer
 with no, closed or failing listeners

fire_all returned None instead of True when nothing was listening, and a closed listener which was
still referenced vetoed it (and kept the following listeners from being called).
---
 nion/utils/Event.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 104f800..a156b89 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -16,6 +16,11 @@ import weakref
 # None
 
 
+def _void(*args, **kwargs) -> None:
+    # the call function of a listener which is closed (or which has nothing to call).
+    pass
+
+
 class EventListener:
 
     def __init__(self, listener_fn, trace: bool):
@@ -26,15 +31,11 @@ class EventListener:
         if callable(listener_fn):
             self.call = self.__listener_fn
         else:
-            def void(*args, **kwargs):
-                pass
-            self.call = void
+            self.call = _void
 
     def close(self):
         self.__listener_fn = None
-        def void(*args, **kwargs):
-            pass
-        self.call = void
+        self.call = _void
 
     def __enter__(self):
         return self
@@ -124,9 +125,9 @@ class Event:
                     if listener:
                         if listener.call(*args, **keywords):
                             return True
-                return False
             except Exception as e:
                 self.__print_event_exception(listener)
+        return False
 
     def fire_all(self, *args, **keywords):
         """Calls listeners (in order added) until one returns False or else return True."""
@@ -137,8 +138,10 @@ class Event:
                     listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                 for listener in listeners:
                     if listener:
-                        if not listener.call(*args, **keywords):
+                        call = listener.call
+                        if call is not _void and not call(*args, **keywords):
                             return False
-                return True
             except Exception as e:
                 self.__print_event_exception(listener)
+                return False
+        return True
-- 
2.43.0


From b4d3008454069de9cb0156defb3be40e5be2cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:21 +0000
Subject: [PATCH 02/43] fix: Event.listen honours an owner which is falsy (an
 empty container, for example)

---
 nion/utils/Event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index a156b89..6aa625d 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -76,7 +76,7 @@ class Event:
         weak_listener = weakref.ref(listener, remove_listener)
         with self.__weak_listeners_mutex:
             self.__weak_listeners.append(weak_listener)
-        if owner:
+        if owner is not None:
             def owner_gone(weak_owner):
                 listener = self.__listeners[id(weak_owner)][0]
                 listener.close()
-- 
2.43.0


From 8a54cc01dbbab974419d564de10966b0b1461750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:21 +0000
Subject: [PATCH 03/43] fix: IndexedSelection.clear leaves one index selected
 in single style

It added index 0 to the selected index instead of replacing it.
---
 nion/utils/Selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index 7dc5e85..e7ac856 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -77,7 +77,7 @@ class IndexedSelection:
     def clear(self) -> None:
         old_index = copy.copy(self.__indexes)
         if self.selection_style == Style.single:
-            self.__indexes.add(0)
+            self.__indexes = {0}
             self.__anchor_index = 0
         else:
             self.__indexes = set()
-- 
2.43.0


From e4e395ce169052872dbd8c22322421c794f2ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:54 +0000
Subject: [PATCH 04/43] fix: FilteredListModel finds the new place of an item
 whose sort key changed

The place was searched for in the list which still held the item at its old place, which is not sorted.
---
 nion/utils/ListModel.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7ad5f4b..ed85dc2 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -440,18 +440,17 @@ class FilteredListModel(Observable.Observable):
                 if sort_key is not None:
                     # are items sorted?
                     sort_operator = operator.gt if self.sort_reverse else operator.lt
-                    before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
                     if item in items:
-                        # item already in list?
+                        # item already in list? find its place among the other items, which are sorted.
                         index = items.index(item)
-                        if before_index < index:
+                        other_items = items[:index] + items[index + 1:]
+                        before_index = self.__find_sorted_index_for_item(item, other_items, sort_key, sort_operator)
+                        if before_index != index:
                             self.__removed_master_item(index, item)
                             self.__inserted_master_item(before_index, item)
-                        elif before_index > index:
-                            self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index - 1, item)
                     else:
                         # item is not in list, just insert
+                        before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
                         self.__inserted_master_item(before_index, item)
                 else:
                     # items are not sorted
-- 
2.43.0


From e863866ea4b53187e41ae585d9b16f92e8f7bc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:55 +0000
Subject: [PATCH 05/43] fix: FilteredListModel reports the item which it
 removes when replacing its items

Items were removed from the end but reported from the start, so that the item and index of each
notification did not belong together.
---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index ed85dc2..263b58c 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -532,7 +532,7 @@ class FilteredListModel(Observable.Observable):
                     self.__insert_item(item, sort_key)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
-                for item in old_items:
+                for item in reversed(old_items):
                     # remove all items
                     self.__items.pop()
                     self.notify_remove_item(self.__items_key, item, len(self.__items))
-- 
2.43.0


From 29954e420d21893aa4cf3cb7a12f7a337a5ac3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:32 +0000
Subject: [PATCH 06/43] fix: FilteredListModel keeps its order when updating
 items after a set of changes

Without a sort key, a reversed sort placed new items in the wrong order; and items which had been
reordered or whose sort key had changed during the set of changes stayed at their old place.
---
 nion/utils/ListModel.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 263b58c..644347a 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -391,12 +391,12 @@ class FilteredListModel(Observable.Observable):
             if self.__change_level > 0:
                 return
             if self.filter.matches(item):
-                self.__insert_item(item, self.sort_key)
+                self.__insert_item(item, self.sort_key, self.sort_reverse)
 
-    def __insert_item(self, item, sort_key) -> None:
+    def __insert_item(self, item, sort_key, sort_reverse) -> None:
         items = self.__items
         if sort_key is not None:
-            sort_operator = operator.gt if self.sort_reverse else operator.lt
+            sort_operator = operator.gt if sort_reverse else operator.lt
             before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
         else:
             before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
@@ -510,13 +510,21 @@ class FilteredListModel(Observable.Observable):
             # import time
             # t0 = time.perf_counter()
             self.begin_changes_event.fire(self.__items_key)
+            sort_key = self.sort_key
+            sort_reverse = self.sort_reverse
+            if not sort_key:
+                # without a sort key, the order is the one of the master items.
+                indexes = {item: index for index, item in enumerate(items)}
+                sort_key = lambda x: indexes[x]
+                sort_reverse = False
+            old_items_set = set(old_items)
+            new_items_set = set(items)
+            # the items which are kept may not be in order anymore; items are not sorted then.
+            sort_operator = operator.gt if sort_reverse else operator.lt
+            kept_sort_keys = [sort_key(item) for item in old_items if item in new_items_set]
+            if any(map(sort_operator, kept_sort_keys[1:], kept_sort_keys)):
+                self.__items_sorted = False
             if self.__items_sorted:
-                sort_key = self.sort_key
-                if not sort_key:
-                    indexes = {item: index for index, item in enumerate(items)}
-                    sort_key = lambda x: indexes[x]
-                old_items_set = set(old_items)
-                new_items_set = set(items)
                 insert_items_set = new_items_set - old_items_set
                 remove_items_set = old_items_set - new_items_set
                 items_removed = 0
@@ -529,7 +537,7 @@ class FilteredListModel(Observable.Observable):
                         items_removed += 1
                 # insert using sorting
                 for item in insert_items_set:
-                    self.__insert_item(item, sort_key)
+                    self.__insert_item(item, sort_key, sort_reverse)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
                 for item in reversed(old_items):
-- 
2.43.0


From 3b2f8da83c4785880c0b29555876e1a089bbdfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:33 +0000
Subject: [PATCH 07/43] fix: FilteredListModel selections follow the filtered
 items

Selections were adjusted by the index in the list of master items, also for items which are not in the
filtered list or which are elsewhere in it.
---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 644347a..f15f85d 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -403,6 +403,8 @@ class FilteredListModel(Observable.Observable):
         self.__items.insert(before_index, item)
         self.begin_changes_event.fire(self.__items_key)
         self.notify_insert_item(self.__items_key, item, before_index)
+        for selection in self.__selections:
+            selection.insert_index(before_index)
         self.end_changes_event.fire(self.__items_key)
 
     def __remove_item(self, item):
@@ -410,6 +412,8 @@ class FilteredListModel(Observable.Observable):
         del self.__items[item_index]
         self.begin_changes_event.fire(self.__items_key)
         self.notify_remove_item(self.__items_key, item, item_index)
+        for selection in self.__selections:
+            selection.remove_index(item_index)
         self.end_changes_event.fire(self.__items_key)
 
     # thread safe
@@ -534,6 +538,8 @@ class FilteredListModel(Observable.Observable):
                         item_index = index - items_removed
                         del self.__items[item_index]
                         self.notify_remove_item(self.__items_key, item, item_index)
+                        for selection in self.__selections:
+                            selection.remove_index(item_index)
                         items_removed += 1
                 # insert using sorting
                 for item in insert_items_set:
@@ -630,8 +636,6 @@ class FilteredListModel(Observable.Observable):
 
                 self.__item_changed_event_listeners[id(item)] = item.item_changed_event.listen(item_content_changed) if hasattr(item, "item_changed_event") else None
                 self.__inserted_master_item(before_index, item)
-                for selection in self.__selections:
-                    selection.insert_index(before_index)
 
     # thread safe.
     def __item_removed(self, key, item, index):
@@ -643,8 +647,6 @@ class FilteredListModel(Observable.Observable):
                     self.__item_changed_event_listeners[id(item)].close()
                 del self.__item_changed_event_listeners[id(item)]
                 self.__removed_master_item(index, item)
-                for selection in self.__selections:
-                    selection.remove_index(index)
 
 
 class MappedListModel(Observable.Observable):
-- 
2.43.0


From 4249f5008ceaeb2a762d5afa9897cebe6d3515a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:35 +0000
Subject: [PATCH 08/43] fix: FlattenedListModel selections follow the flattened
 items when a child is inserted

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index f15f85d..b1aa9a9 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -908,7 +908,7 @@ class FlattenedListModel(Observable.Observable):
             self.__items.insert(master_index, item)
             self.notify_insert_item(self.__items_key, item, master_index)
             for selection in self.__selections:
-                selection.insert_index(before_index)
+                selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-- 
2.43.0


From 72f96b68c3c85c1e40728996cff69040b6a2438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:37 +0000
Subject: [PATCH 09/43] fix: a deep copy of a TextFilter can be used

---
 nion/utils/ListModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index b1aa9a9..eb51514 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -177,6 +177,7 @@ class TextFilter(Filter):
         result = super().__deepcopy__(memo)
         result.__key = self.__key
         result.__text = self.__text
+        result.__lower_text = self.__lower_text
         return result
 
     def matches(self, d) -> bool:
-- 
2.43.0


From e9aff89264b96dc37c5d3e6814cee23bcac2e862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:56 +0000
Subject: [PATCH 10/43] fix: Registry.get_component returns the component with
 the highest priority

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 79279bf..ccd5a50 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -93,7 +93,7 @@ def get_component(component_type: str) -> typing.Optional[typing.Any]:
     sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)
 
     if len(sorted_components) > 0:
-        return tuple(components)[0]
+        return sorted_components[0]
 
     return None
 
-- 
2.43.0


From c30adb93cf1a83c8b1dd9d39e26bd63f528271e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:58 +0000
Subject: [PATCH 11/43] fix: unregistering a component from all of its types
 reports those types

The event was fired with the set of types which had just been emptied.
---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index ccd5a50..194c0cb 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -60,7 +60,7 @@ class ComponentManager(metaclass=Singleton):
         self.component_registered_event.fire(component, component_types)
 
     def unregister(self, component, component_types: typing.Set[str] = None) -> None:
-        component_types = component_types if component_types is not None else self.__component_types[component]
+        component_types = component_types if component_types is not None else set(self.__component_types[component])
         for component_type in component_types:
             assert component in self.__components_by_type.get(component_type, set())
         for component_type in component_types:
-- 
2.43.0


From d42a9166d5ba5c0f057e113d2de939ef3fdae2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:00 +0000
Subject: [PATCH 12/43] fix: Registry.get_components_by_type returns a set of
 its own

It returned the internal set, which changed under the caller (and failed while firing existing components, when a
listener registered another component of that type).
---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 194c0cb..980cc21 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -48,7 +48,7 @@ class ComponentManager(metaclass=Singleton):
         return self.__components_by_type
 
     def get_components_by_type(self, component_type:str) -> typing.Set[typing.Any]:
-        return self.__components_by_type.get(component_type, list())
+        return set(self.__components_by_type.get(component_type, set()))
 
     def register(self, component, component_types: typing.Set[str]) -> None:
         for component_type in component_types:
-- 
2.43.0


From 43dcd7bb552a15409c314e96f35f29513a332a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:02 +0000
Subject: [PATCH 13/43] fix: the items of an array field support the in
 operator

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 851f601..efab16f 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -226,7 +226,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         self.__list_model.remove_item(key)
 
     def __contains__(self, item):
-        return self.__list_model.items.contains(item)
+        return item in self.__list_model.items
 
     def insert(self, index, value):
         self.__list_model.insert_item(index, value)
-- 
2.43.0


From 26e84ce4982ffdb7a496b6e5737ee8d56d41136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:03 +0000
Subject: [PATCH 14/43] fix: ArrayModel can be closed

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index efab16f..a3c31c0 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -258,7 +258,7 @@ class ArrayModel(ListModelModule.ListModel):
             self.__model_changed_listeners.append(trampoline)
 
     def close(self):
-        for index, item in enumerate(self.items()):
+        for index, item in enumerate(self.items):
             trampoline = self.__model_changed_listeners[index]
             if trampoline:
                 trampoline.close()
-- 
2.43.0


From dfc26be6aa660a60e9f5645433dd11810e38e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:05 +0000
Subject: [PATCH 15/43] fix: ArrayModel keeps listening to its items after one
 was inserted before them

The listener of an inserted item was appended, so that removing an item closed the listener of another one.
---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index a3c31c0..db6a9f6 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -297,7 +297,7 @@ class ArrayModel(ListModelModule.ListModel):
         trampoline = None
         if isinstance(value, (RecordModel, ArrayModel)):
             trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
-        self.__model_changed_listeners.append(trampoline)
+        self.__model_changed_listeners.insert(before_index, trampoline)
         self.model_changed_event.fire()
 
     def notify_remove_item(self, key, value, index):
-- 
2.43.0


From 2bf17b25c393954bca6f93833d800ead59f95de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:31 +0000
Subject: [PATCH 16/43] fix: StructuredModel builds fields of the type which
 FLOAT and define_float name

---
 nion/utils/StructuredModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index db6a9f6..7a2a66e 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -62,10 +62,10 @@ def define_array(items: MDescription) -> MDescription:
 
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
@@ -76,10 +76,10 @@ def build_model(schema: MDescription, *, default_value=None, value=None):
 
 
 def build_value(schema: MDescription, *, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return value
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return value
     elif type == "record":
         return RecordModel(schema, values=value)
-- 
2.43.0


From 892ee8e2d79e2cfa003288dd7e16d32ad7a3d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:33 +0000
Subject: [PATCH 17/43] fix: the value of a record field is not overridden by
 the default of the field

In particular, a deep copy of a record got the defaults instead of the values.
---
 nion/utils/StructuredModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 7a2a66e..e69969b 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -63,10 +63,10 @@ def define_array(items: MDescription) -> MDescription:
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
     if schema in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     type = typing.cast(dict, schema).get("type")
     if type in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
         record_values.update(value or dict())
-- 
2.43.0


From a8ed3e249d957d5177dbb1bf7968e8662d2fc8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:35 +0000
Subject: [PATCH 18/43] fix: ArrayModel reads and writes arrays of basic values
 and notifies about what it reads

to_dict_value, from_dict_value, copy_from and deepcopy failed for arrays of basic values, and from_dict_value changed the
number of items without any notification and without listening to the new items.
---
 nion/utils/StructuredModel.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index e69969b..8ef3303 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -273,18 +273,22 @@ class ArrayModel(ListModelModule.ListModel):
         self.from_dict_value(array.to_dict_value())
 
     def from_dict_value(self, values):
-        while len(values) > len(self.items):
-            item_schema = self.schema["items"]
-            self.items.append(build_value(item_schema))
+        item_schema = self.schema["items"]
         while len(values) < len(self.items):
-            del self.items[-1]
-        for value, item in zip(values, self.items):
-            item.from_dict_value(value)
+            self.remove_item(len(self.items) - 1)
+        for index, value in enumerate(values):
+            if index == len(self.items):
+                self.append_item(build_value(item_schema, value=value))
+            elif isinstance(self.items[index], (RecordModel, ArrayModel)):
+                self.items[index].from_dict_value(value)
+            elif self.items[index] != value:
+                self.remove_item(index)
+                self.insert_item(index, value)
 
     def to_dict_value(self) -> typing.Optional[typing.Any]:
         l = list()
         for item in self.items:
-            l.append(item.to_dict_value())
+            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)
         return l
 
     @property
-- 
2.43.0


From 4d617a0169172b8ab17be05713afa303047431d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:39 +0000
Subject: [PATCH 19/43] fix: clearing a persistent property removes it from
 storage under its storage key

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 7f76fe1..df59313 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -594,7 +594,7 @@ class PersistentObject:
                 for property_key in properties:
                     self.persistent_object_context.property_changed(self, property_key, properties[property_key])
             else:
-                self.persistent_object_context.clear_property(self, name)
+                self.persistent_object_context.clear_property(self, property.key)
 
     def __update_modified(self, modified):
         self.__modified_count += 1
-- 
2.43.0


From 7c03ef59773560b219d3bdb09e087e0657a45027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:40 +0000
Subject: [PATCH 20/43] fix: items of a relationship are stored under the
 storage key of the relationship

Reading and writing whole objects used the storage key, but inserting, removing and accessing items in storage used the name.
---
 nion/utils/Persistence.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index df59313..03dc40c 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -433,7 +433,8 @@ class PersistentObject:
             return lambda storage_dict: storage_dict.get(persistent_object_parent.item_name, dict())
         if persistent_object_parent.relationship_name:
             index = getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name).index(self)
-            return lambda storage_dict: storage_dict[persistent_object_parent.relationship_name][index]
+            storage_key = persistent_object_parent.parent.__relationships[persistent_object_parent.relationship_name].storage_key
+            return lambda storage_dict: storage_dict[storage_key][index]
         return None
 
     def define_type(self, type):
@@ -709,7 +710,7 @@ class PersistentObject:
         # the persistent_object_parent and relationship need to be established before
         # calling item_inserted.
         if self.persistent_object_context:
-            self.persistent_object_context.item_inserted(self, name, before_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_inserted(self, relationship.storage_key, before_index, item)  # this will also update item's persistent_object_context
         if relationship.insert:
             relationship.insert(name, before_index, item)
 
@@ -727,7 +728,7 @@ class PersistentObject:
             relationship.remove(name, item_index, item)
         item.persistent_object_context = None
         if self.persistent_object_context:
-            self.persistent_object_context.item_removed(self, name, item_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_removed(self, relationship.storage_key, item_index, item)  # this will also update item's persistent_object_context
         item.persistent_object_parent = None
 
     def extend_items(self, name, items):
-- 
2.43.0


From be404dfc8db826add1bec46d1284f0ee7a72e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:42 +0000
Subject: [PATCH 21/43] fix: subscribing to a registered object only for
 unregistration works

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 03dc40c..6e02abe 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -222,7 +222,7 @@ class PersistentObjectContext:
         self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))
         weak_object = self.__objects.get(object_uuid)
         object = weak_object and weak_object()
-        if object is not None:
+        if object is not None and registered:
             registered(object)
 
     def _set_persistent_storage_for_object(self, object, persistent_storage):
-- 
2.43.0


From 0a9a2fd62c09d52e41480eab36241c52615b8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:43 +0000
Subject: [PATCH 22/43] fix: replacing a persistent item releases the item
 which it replaces

The old item stayed registered with the context, and kept changing the stored properties of the new one.
---
 nion/utils/Persistence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 6e02abe..4a58094 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -683,6 +683,9 @@ class PersistentObject:
         old_value = item.value
         item.value = value
         self.__update_modified(datetime.datetime.utcnow())
+        if old_value:
+            old_value.persistent_object_context = None
+            old_value.persistent_object_parent = None
         if value:
             value.persistent_object_parent = PersistentObjectParent(self, item_name=name)
         # the persistent_object_parent and item need to be established before
-- 
2.43.0


From 594cacbb78b6e942f17fdd1cc78c2a9859d4452e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:45 +0000
Subject: [PATCH 23/43] fix: a persistent object with a hidden item can be
 copied

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 4a58094..12c7107 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -393,7 +393,7 @@ class PersistentObject:
             new_value = copy.deepcopy(value)
             self._set_persistent_property_value(key, new_value)
         for key in self.__items.keys():
-            self.set_item(key, copy.deepcopy(getattr(item, key)))
+            self.set_item(key, copy.deepcopy(item.get_item(key)))
         for key in self.__relationships.keys():
             for child_item in getattr(item, key):
                 self.append_item(key, copy.deepcopy(child_item, memo))
-- 
2.43.0


From dfe175c4638f225654e202b27c812bbff3de75b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:29 +0000
Subject: [PATCH 24/43] fix: DebounceStream does not lose a value which arrives
 while it is firing

---
 nion/utils/Stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 1edc69c..ea5b408 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -168,9 +168,9 @@ class DebounceStream(AbstractStream):
     async def debounce_delay(self) -> None:
         try:
             await asyncio.sleep(self.__period)
-            self.value_stream.fire(self.__value)
         finally:
             self.__debounce_task = None
+        self.value_stream.fire(self.__value)
 
     def __value_changed(self, value):
         self.__value = value
-- 
2.43.0


From fc9299b1d2e9aa3035109afc121b9e14f5226a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:31 +0000
Subject: [PATCH 25/43] fix: SampleStream does not lose its initial value or
 one which arrives while it samples

The first sample replaced the initial value by None, and a value which arrived between marking it and storing it was lost.
---
 nion/utils/Stream.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index ea5b408..acaa45b 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -193,12 +193,11 @@ class SampleStream(AbstractStream):
         self.__input_stream = input_stream.add_ref()
         self.__period = period
         self.__last_time = 0
-        self.__pending_value = None
-        self.__value = None
-        self.__listener = input_stream.value_stream.listen(self.__value_changed)
-        self.__value = input_stream.value
         self.__value_dirty = True
         self.__value_dirty_lock = threading.RLock()
+        self.__value = input_stream.value
+        self.__pending_value = self.__value
+        self.__listener = input_stream.value_stream.listen(self.__value_changed)
         self.__done = False
 
         def next_sample(f):
@@ -222,15 +221,16 @@ class SampleStream(AbstractStream):
         await asyncio.sleep(self.__period)
         with self.__value_dirty_lock:
             value_dirty = self.__value_dirty
+            pending_value = self.__pending_value
             self.__value_dirty = False
         if value_dirty:
-            self.__value = self.__pending_value
-            self.value_stream.fire(self.__pending_value)
+            self.__value = pending_value
+            self.value_stream.fire(pending_value)
 
     def __value_changed(self, value):
         with self.__value_dirty_lock:
+            self.__pending_value = value
             self.__value_dirty = True
-        self.__pending_value = value
 
     @property
     def value(self):
-- 
2.43.0


From db1469c87e671700aa474d82c8bf8e8c1e2c77a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:33 +0000
Subject: [PATCH 26/43] fix: ThreadDispatcher.trigger does not wait forever

Waiting for the function hung when the function raised an exception and when the dispatcher was closed.
---
 nion/utils/ThreadPool.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index afbd87b..7cfd651 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -48,13 +48,20 @@ class ThreadDispatcher(object):
     def trigger(self, wait=False):
         if wait:
             with self.__thread_lock:
-                self.__triggered_event.clear()
+                if not self.__thread_break:
+                    self.__triggered_event.clear()
                 self.__thread_event.set()
             self.__triggered_event.wait()
         else:
             self.__thread_event.set()
 
     def __process(self):
+        try:
+            self.__process_triggers()
+        finally:
+            self.__triggered_event.set()  # nothing more will be triggered; don't leave anything waiting
+
+    def __process_triggers(self):
         while True:
             self.__thread_event.wait()
             with self.__thread_lock:
@@ -76,12 +83,12 @@ class ThreadDispatcher(object):
                 break
             try:
                 self.__fn()
-                self.__triggered_event.set()
             except Exception as e:
                 import traceback
                 logging.debug("Processing thread exception %s", e)
                 traceback.print_exc()
                 traceback.print_stack()
+            self.__triggered_event.set()
             self.__last_time = time.time()
 
 
-- 
2.43.0


From c11397c7ba592fa2a84212adeae4ae58f638c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:34 +0000
Subject: [PATCH 27/43] fix: TaskQueue accounts for a task which raises an
 exception

The task was taken from the queue but never marked as done, so that joining the queue hung.
---
 nion/utils/Process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Process.py b/nion/utils/Process.py
index 590650c..9996527 100644
--- a/nion/utils/Process.py
+++ b/nion/utils/Process.py
@@ -26,8 +26,10 @@ class TaskQueue(queue.Queue):
             except queue.Empty:
                 pass
             else:
-                task()
-                self.task_done()
+                try:
+                    task()
+                finally:
+                    self.task_done()
             qsize -= 1
 
     def clear_tasks(self):
-- 
2.43.0


From 420877bacb1214936c83ae8f3930c948019548bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:36 +0000
Subject: [PATCH 28/43] fix: FuncStreamValueModel ends up with the value of the
 latest function

A slow function could override the value of a newer one, and a function which failed was never counted as done.
---
 nion/utils/Model.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/nion/utils/Model.py b/nion/utils/Model.py
index bd5d120..1a9eaf4 100644
--- a/nion/utils/Model.py
+++ b/nion/utils/Model.py
@@ -62,19 +62,26 @@ class FuncStreamValueModel(PropertyModel):
         self.__value_func_stream = value_func_stream.add_ref()
         self.__event_loop = event_loop
         self.__count = 0
+        self.__func_index = 0  # counts functions received
+        self.__value_index = 0  # the function which the value came from
 
         def handle_value_func(value_func):
-            async def update_value():
+            async def update_value(func_index):
                 value_ref = [None]
                 def eval(value_ref):
                     value_ref[0] = value_func()
-                await event_loop.run_in_executor(None, eval, value_ref)
-                value = value_ref[0]
-                self.value = value
-                self.notify_property_changed("value")
-                self.__count -= 1
+                try:
+                    await event_loop.run_in_executor(None, eval, value_ref)
+                    # functions may finish out of order; don't go back to the value of an older one.
+                    if func_index > self.__value_index:
+                        self.__value_index = func_index
+                        self.value = value_ref[0]
+                        self.notify_property_changed("value")
+                finally:
+                    self.__count -= 1
             self.__count += 1
-            event_loop.create_task(update_value())
+            self.__func_index += 1
+            event_loop.create_task(update_value(self.__func_index))
 
         self.__stream_listener = value_func_stream.value_stream.listen(handle_value_func)
         handle_value_func(self.__value_func_stream.value)
-- 
2.43.0


From 1f9ec3cb5db0419b7469d5174c2041b42098e7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:03 +0000
Subject: [PATCH 29/43] fix: scaled integers and percentages convert to a float
 and back to themselves

The float is not exact (29% is 28.999999999999996 / 100), and was truncated.
---
 nion/utils/Converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index b5dda3d..03e9537 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -83,7 +83,7 @@ class FloatToScaledIntegerConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage int """
-        return int(self.n * (value - self.value_min) / (self.value_max - self.value_min))
+        return round(self.n * (value - self.value_min) / (self.value_max - self.value_min))
 
     def convert_back(self, value_int):
         """ Convert int percentage value to float """
@@ -95,7 +95,7 @@ class FloatToPercentStringConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage string """
-        return str(int(value * 100)) + "%"
+        return str(round(value * 100)) + "%"
 
     def convert_back(self, formatted_value):
         """ Convert percentage string to float between 0, 1 """
-- 
2.43.0


From 6c973b3324d1c374680f710b24eee74fa8adf1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:24 +0000
Subject: [PATCH 30/43] fix: Recorder records where and what was changed at the
 time of the change

Inserting or removing an item failed (endless recursion) as soon as another one followed it; recorded changes looked up
their object and their value when they were applied, so that they changed another object if items had moved since; and
setting an item failed.
---
 nion/utils/Recorder.py | 66 ++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 5ece3c7..690063c 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -11,9 +11,11 @@ class Recorder:
     # TODO: make changes resilient... what happens if underlying object changes and recorder can't be applied?
     # TODO: thread safety
 
-    def __init__(self, object, accessor_fn: AccessorType=None, logger=None):
+    def __init__(self, object, accessor_fn: AccessorType=None, logger=None, *, get_accessor_fn: typing.Callable[[], AccessorType]=None):
+        # get_accessor_fn returns the accessor for the object at its current place; the place may change later.
         self.__object = object
-        self.__accessor_fn = accessor_fn if accessor_fn else lambda x: x  # type: AccessorType
+        accessor_fn_ = accessor_fn if accessor_fn else lambda x: x  # type: AccessorType
+        self.__get_accessor_fn = get_accessor_fn if get_accessor_fn else lambda: accessor_fn_  # type: typing.Callable[[], AccessorType]
         self.__logger = logger if logger is not None else list()
         self.__property_changed_event_listener = object.property_changed_event.listen(self.__property_changed)
         self.__item_set_event_listener = object.item_set_event.listen(self.__item_set)
@@ -25,15 +27,25 @@ class Recorder:
         for key in object.item_names:
             item = getattr(object, key)
             if item:
-                def item_accessor(key, x):
-                    return getattr(self.__accessor_fn(x), key)
-                self.__item_recorders[key] = Recorder(item, functools.partial(item_accessor, key), self.__logger)
+                self.__item_recorders[key] = self.__make_item_recorder(key, item)
         for key in object.relationship_names:
             items = getattr(object, key)
             for index, item in enumerate(items):
-                def item_index_accessor(key: str, index: int, x):
-                    return getattr(self.__accessor_fn(x), key)[index]
-                self.__relationship_recorders[key].append(Recorder(item, functools.partial(item_index_accessor, key, index), self.__logger))
+                self.__relationship_recorders[key].append(self.__make_relationship_recorder(key, item))
+
+    def __make_item_recorder(self, key: str, item) -> "Recorder":
+        def get_item_accessor() -> AccessorType:
+            accessor_fn = self.__get_accessor_fn()
+            return lambda x: getattr(accessor_fn(x), key)
+        return Recorder(item, logger=self.__logger, get_accessor_fn=get_item_accessor)
+
+    def __make_relationship_recorder(self, key: str, item) -> "Recorder":
+        def get_item_index_accessor() -> AccessorType:
+            accessor_fn = self.__get_accessor_fn()
+            index = self.__relationship_recorders[key].index(item_recorder)
+            return lambda x: getattr(accessor_fn(x), key)[index]
+        item_recorder = Recorder(item, logger=self.__logger, get_accessor_fn=get_item_index_accessor)
+        return item_recorder
 
     def close(self):
         self.__property_changed_event_listener.close()
@@ -58,46 +70,36 @@ class Recorder:
         for logger_item in self.__logger:
             logger_item(object)
 
-    @property
-    def _accessor_fn(self) -> AccessorType:
-        return self._accessor_fn
-
-    @_accessor_fn.setter
-    def _accessor_fn(self, value: AccessorType) -> None:
-        self._accessor_fn = value
-
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
-            def property_setter(x):
-                setattr(self.__accessor_fn(x), key, getattr(self.__object, key))
+            accessor_fn = self.__get_accessor_fn()
+            value = copy.deepcopy(getattr(self.__object, key))
             # print("set property {} {}".format(key, value))
-            self.__logger.append(property_setter)
+            self.__logger.append(lambda x: setattr(accessor_fn(x), key, copy.deepcopy(value)))
 
     def __item_set(self, key, item):
-        item_recorder = self.__item_recorders.pop(key)
+        accessor_fn = self.__get_accessor_fn()
+        item_recorder = self.__item_recorders.pop(key, None)
         if item_recorder:
             item_recorder.close()
-        item = getattr(self.__accessor_fn(), key)
         if item:
-            self.__item_recorders[key] = Recorder(item, lambda x: getattr(self.__accessor_fn(x), key), self.__logger)
+            self.__item_recorders[key] = self.__make_item_recorder(key, item)
+        item_copy = copy.deepcopy(item)
         # print("set {} {}".format(key, item))
-        self.__logger.append(lambda x: setattr(self.__accessor_fn(x), key, item))
+        self.__logger.append(lambda x: accessor_fn(x).set_item(key, copy.deepcopy(item_copy)))
 
     def __item_cleared(self, key):
         self.__item_set(key, None)
 
     def __item_inserted(self, key, value, before_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index >= before_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index + 1]
-        self.__relationship_recorders[key].insert(before_index, Recorder(value, lambda x: getattr(self.__accessor_fn(x), key)[before_index], self.__logger))
+        accessor_fn = self.__get_accessor_fn()
+        self.__relationship_recorders[key].insert(before_index, self.__make_relationship_recorder(key, value))
+        value_copy = copy.deepcopy(value)
         # print("append {} {} {}".format(key, value, before_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
+        self.__logger.append(lambda x: accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value_copy)))
 
     def __item_removed(self, key, value, item_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index > item_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index - 1]
+        accessor_fn = self.__get_accessor_fn()
         self.__relationship_recorders[key].pop(item_index).close()
         # print("remove {} {} {}".format(key, value, item_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).remove_item(key, getattr(self.__accessor_fn(x), key)[item_index]))
+        self.__logger.append(lambda x: accessor_fn(x).remove_item(key, getattr(accessor_fn(x), key)[item_index]))
-- 
2.43.0


From d554065f5a1ccb62d770f1a7c5eb4082fd67beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:43 +0000
Subject: [PATCH 31/43] fix: attribute and tuple bindings give the target the
 fallback for a missing value, as get_target_value does

The converter was called with None, for example for the elements with which update_source pads a tuple.
---
 nion/utils/Binding.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/Binding.py b/nion/utils/Binding.py
index bb96fe5..7fe3ad5 100644
--- a/nion/utils/Binding.py
+++ b/nion/utils/Binding.py
@@ -282,8 +282,9 @@ class PropertyAttributeBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and hasattr(value, self.__attribute_name):
-                    self.update_target(getattr(value, self.__attribute_name))
+                attribute_value = getattr(value, self.__attribute_name) if value is not None and hasattr(value, self.__attribute_name) else None
+                if attribute_value is not None:
+                    self.update_target(attribute_value)
                 else:
                     self.update_target_direct(self.fallback)
 
@@ -338,8 +339,9 @@ class TuplePropertyBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and self.__tuple_index < len(value):
-                    self.update_target(value[self.__tuple_index])
+                element_value = value[self.__tuple_index] if value is not None and self.__tuple_index < len(value) else None
+                if element_value is not None:
+                    self.update_target(element_value)
                 else:
                     self.update_target_direct(self.fallback)
 
-- 
2.43.0


From 8ecaf83cc05123f690a119a88e35cf86cf03e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:07 +0000
Subject: [PATCH 32/43] fix: releasing a selection of a list model releases
 that selection and not an equal one

---
 nion/utils/ListModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index eb51514..4927256 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -619,7 +619,8 @@ class FilteredListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections with the same indexes are equal; release the given one.
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __item_inserted(self, key, item, before_index):
@@ -773,7 +774,8 @@ class MappedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections with the same indexes are equal; release the given one.
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # thread safe.
     def __master_item_inserted(self, key, item, before_index):
@@ -865,7 +867,8 @@ class FlattenedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections with the same indexes are equal; release the given one.
+        self.__selections = [selection_ for selection_ in self.__selections if selection_ is not selection]
 
     # almost thread safe. assumes child items will not change duing this call.
     def __master_item_inserted(self, key, item, before_index):
-- 
2.43.0


From 2b08f5a7dbd1f2c29dfab69799b6bb00d2609220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:46 +0000
Subject: [PATCH 33/43] fix: ArrayModel follows the changes of its items from
 insertion to removal, also by observers of those

---
 nion/utils/StructuredModel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 8ef3303..ddb40bb 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -296,18 +296,19 @@ class ArrayModel(ListModelModule.ListModel):
         return ItemsSequence(self)
 
     def notify_insert_item(self, key, value, before_index):
-        super().notify_insert_item(key, value, before_index)
-        self.array_item_inserted_event.fire(key, value, before_index)
+        # start listening before notifying; an observer may already change the new item
         trampoline = None
         if isinstance(value, (RecordModel, ArrayModel)):
             trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
         self.__model_changed_listeners.insert(before_index, trampoline)
+        super().notify_insert_item(key, value, before_index)
+        self.array_item_inserted_event.fire(key, value, before_index)
         self.model_changed_event.fire()
 
     def notify_remove_item(self, key, value, index):
-        super().notify_remove_item(key, value, index)
         trampoline = self.__model_changed_listeners.pop(index)
         if trampoline:
             trampoline.close()
+        super().notify_remove_item(key, value, index)
         self.array_item_removed_event.fire(key, value, index)
         self.model_changed_event.fire()
-- 
2.43.0


From c414187972b34c68ba0f084ad580c095fe57c389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:48 +0000
Subject: [PATCH 34/43] fix: the items of an array field notify with the actual
 index for a negative one (pop, clear)

---
 nion/utils/StructuredModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index ddb40bb..da15c08 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -223,13 +223,15 @@ class ItemsSequence(collections.abc.MutableSequence):
         raise IndexError()
 
     def __delitem__(self, key):
-        self.__list_model.remove_item(key)
+        # range resolves a negative index; the index will be part of the notification
+        self.__list_model.remove_item(range(len(self))[key])
 
     def __contains__(self, item):
         return item in self.__list_model.items
 
     def insert(self, index, value):
-        self.__list_model.insert_item(index, value)
+        # slice resolves a negative index or one past the end; the index will be part of the notification
+        self.__list_model.insert_item(slice(index, None).indices(len(self))[0], value)
 
 
 class ArrayModel(ListModelModule.ListModel):
-- 
2.43.0


From 37fee00ab612c6577bc81a98a7782aaf7b991c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:25 +0000
Subject: [PATCH 35/43] fix: ThreadDispatcher.trigger(wait=True) waits for a
 run that starts after the call

---
 nion/utils/ThreadPool.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index 7cfd651..9b074ed 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -27,7 +27,8 @@ class ThreadDispatcher(object):
         self.__fn = fn
         self.__thread_break = False
         self.__thread_event = threading.Event()
-        self.__triggered_event = threading.Event()
+        self.__waiting_events = list()  # of those waiting for the next run
+        self.__thread_ended = False
         self.__thread_lock = threading.Lock()
         self.__thread = threading.Thread(target=self.__process)
         self.__thread.daemon = True
@@ -47,11 +48,14 @@ class ThreadDispatcher(object):
 
     def trigger(self, wait=False):
         if wait:
+            # wait for a run which starts after this; one in progress may have missed what this is triggered for
+            triggered_event = threading.Event()
             with self.__thread_lock:
-                if not self.__thread_break:
-                    self.__triggered_event.clear()
+                if self.__thread_ended:
+                    return
+                self.__waiting_events.append(triggered_event)
                 self.__thread_event.set()
-            self.__triggered_event.wait()
+            triggered_event.wait()
         else:
             self.__thread_event.set()
 
@@ -59,7 +63,12 @@ class ThreadDispatcher(object):
         try:
             self.__process_triggers()
         finally:
-            self.__triggered_event.set()  # nothing more will be triggered; don't leave anything waiting
+            # nothing more will be triggered; don't leave anything waiting
+            with self.__thread_lock:
+                self.__thread_ended = True
+                waiting_events = self.__waiting_events
+            for waiting_event in waiting_events:
+                waiting_event.set()
 
     def __process_triggers(self):
         while True:
@@ -81,6 +90,9 @@ class ThreadDispatcher(object):
                 self.__thread_event.set()
             if self.__thread_break:
                 break
+            with self.__thread_lock:
+                waiting_events = self.__waiting_events
+                self.__waiting_events = list()
             try:
                 self.__fn()
             except Exception as e:
@@ -88,7 +100,8 @@ class ThreadDispatcher(object):
                 logging.debug("Processing thread exception %s", e)
                 traceback.print_exc()
                 traceback.print_stack()
-            self.__triggered_event.set()
+            for waiting_event in waiting_events:
+                waiting_event.set()
             self.__last_time = time.time()
 
 
-- 
2.43.0


From bab2958f7b0ed5b22b825c412a8eeb71a5f9ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:40 +0000
Subject: [PATCH 36/43] fix: FilteredListModel.begin_change does not lose
 changes made by other threads at the same time

---
 nion/utils/ListModel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 4927256..2f74b94 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -274,7 +274,8 @@ class FilteredListModel(Observable.Observable):
 
     def begin_change(self):
         """ Begin a set of changes. Balance with end_changes. """
-        self.__change_level += 1
+        with self._update_mutex:
+            self.__change_level += 1
 
     def end_change(self):
         """ End a set of changes and update items if finished. """
-- 
2.43.0


From c8c28591c088b42732e734190d5d0df022b3ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:42 +0000
Subject: [PATCH 37/43] fix: setting the filter of a FilteredListModel is
 thread safe

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 2f74b94..f25a0f2 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -341,10 +341,12 @@ class FilteredListModel(Observable.Observable):
     @filter.setter
     def filter(self, value: Filter) -> None:
         """ Set the filter function. """
-        self.__filter = value
-        self.__items_sorted = False
-        self.reset_list_event.fire(self.__items_key)
-        self.__update_items()
+        # other threads may not update the items with the new filter before they match it.
+        with self._update_mutex:
+            self.__filter = value
+            self.__items_sorted = False
+            self.reset_list_event.fire(self.__items_key)
+            self.__update_items()
 
     @property
     def items(self) -> typing.Sequence:
-- 
2.43.0


From 768acd10dff8b8a39ebac56ce27822d93f6046cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:26 +0000
Subject: [PATCH 38/43] fix: make_pretty does not collapse to zero when the
 norm of the value rounds below one

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 90d1ae6..9596894 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -29,7 +29,7 @@ def make_pretty(val, rounding):
     val_norm = abs(val) / factor10  # between 1 and 10
     if val_norm < 1.0:
         val_norm = val_norm * 10
-        factor10 = factor10 // 10
+        factor10 = factor10 / 10
     if rounding:
         if val_norm < 1.5:
             val_norm = 1.0
-- 
2.43.0


From 76934da6b4d94d45a87b43f57e03bcbe776c73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:28 +0000
Subject: [PATCH 39/43] fix: LinearTicker labels of negative values have the
 precision of positive ones

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 9596894..badee2a 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -180,7 +180,7 @@ class LinearTicker(Ticker):
     def __nice_label(self, value: float, precision: int, factor10: float) -> str:
         f10 = int(math.log10(factor10)) if factor10 > 0 else 0
         if abs(f10) > 5:
-            f10x = int(math.log10(value)) if value > 0 else f10
+            f10x = int(math.log10(abs(value))) if value != 0 else f10
             precision = max(0, f10x - f10)
             return (u"{0:0." + u"{0:d}".format(precision) + "e}").format(value)
         else:
-- 
2.43.0


From f992111ec3eadd00a75ae83ffc5911db7d76591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:34 +0000
Subject: [PATCH 40/43] fix: the limits of LogTicker contain the data

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index badee2a..f2a71a0 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -249,7 +249,7 @@ class LogTicker(Ticker):
         self._tick_values = [math.log(value, self.base) for value in tick_values]
 
          # Revert maximum to its original value because it is used for auto display limits
-        self._maximum *= self._factor_b
+        self._maximum = max(self._maximum * self._factor_b, self._value_high)
         # Set minimum slightly lower than the data minimum because it is used for auto display limits
         self._minimum = self._value_low - (self._maximum - self._value_low) * 0.01
 
-- 
2.43.0


From 36e2245fb88677decb030424c0f6f688d0f16035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:12 +0000
Subject: [PATCH 41/43] fix: replacing all items of a filtered list leaves no
 stale indexes in its selections

---
 nion/utils/ListModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index f25a0f2..ce5f92e 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -554,11 +554,15 @@ class FilteredListModel(Observable.Observable):
                     # remove all items
                     self.__items.pop()
                     self.notify_remove_item(self.__items_key, item, len(self.__items))
+                    for selection in self.__selections:
+                        selection.remove_index(len(self.__items))
                 for item in items:
                     # insert all items, but items are already sorted
                     item_index = len(self.__items)
                     self.__items.append(item)
                     self.notify_insert_item(self.__items_key, item, item_index)
+                    for selection in self.__selections:
+                        selection.insert_index(item_index)
             self.__items_sorted = True
             self.end_changes_event.fire(self.__items_key)
             # t1 = time.perf_counter()
-- 
2.43.0


From 9571dc5c0f5e26900b7912b470f74c46ceeea86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:44 +0000
Subject: [PATCH 42/43] fix: a subscription made while an object is being
 registered is told of the registration once

---
 nion/utils/Persistence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 12c7107..056bde5 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -184,7 +184,8 @@ class PersistentObjectContext:
         object_uuid = object.uuid
         weak_object = weakref.ref(object)
         self.__objects[object_uuid] = weak_object
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
+        # subscriptions added by the calls below are called when they are added.
+        for registered, unregistered in list(self.__subscriptions.get(object_uuid, list())):
             if registered:
                 registered(object)
         self.registration_event.fire(object, None)
-- 
2.43.0


From 311838c37988941d517a64a515f09e57d9537943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:40 +0000
Subject: [PATCH 43/43] fix: a physical value converter which passes None
 converts None and the empty string back to None

---
 nion/utils/Converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 03e9537..2d85ab8 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -120,6 +120,8 @@ class PhysicalValueToStringConverter:
 
     def convert_back(self, formatted_value):
         """ Convert string to value using standard float conversion """
+        if self.__pass_none and (formatted_value is None or len(formatted_value) == 0):
+            return None
         return FloatToStringConverter().convert_back(formatted_value) / self.__multiplier
 
 
-- 
2.43.0


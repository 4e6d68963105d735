"""Source of properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json, sys
U = "nion/utils/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": [U + f for f in files],
                          "mechanism": [{"name": n, "where": U + w} for n, w in mech], "observe_at": observe, "hook_needed": None}})

prop("C01", "Event.fire calls every open listener exactly once, in attach order",
     "Firing an event calls every listener that is attached and open when the firing starts exactly once, in the order the listeners were attached, with exactly the positional and keyword arguments given. "
     "This holds while listeners themselves attach, close or release listeners and fire the same event again from inside a call: a listener attached during a firing is first called by the next firing, and one closed before its turn comes is not called any more (one whose token is merely released during a firing may still be called until the outermost firing ends).",
     ["histories", "inputs"], "all histories of listen, close, release and fire on one event, including those done by the listeners during a firing, to any nesting",
     "the three event tests attach one or two listeners and fire from outside; no test nests firings or changes the listeners during one",
     ["Event.py"], [("snapshot of the listeners", "Event.py:Event.fire"), ("closed listener does nothing", "Event.py:EventListener.close")],
     ["listener calls", "return of fire"])
prop("C02", "fire_any / fire_all combine results; listener failures never escape",
     "fire_any calls the open listeners in order until one returns a true value and then returns True, and otherwise returns False; fire_all calls them in order until one returns a false value and then returns False, and otherwise returns True; closed listeners take no part, and with no open listener the results are False and True. "
     "An exception raised by a listener never propagates out of fire, fire_any or fire_all: it is reported on the standard error stream, listeners before it have been called, the result is then False, and the event goes on working for later firings.",
     ["histories", "inputs"], "all histories of listeners with any mix of true, false and raising listeners, closed, released or open",
     "fire_any and fire_all are not called by any test, and no test has a listener that raises",
     ["Event.py"], [("early exit and final result", "Event.py:Event.fire_any"), ("early exit and final result", "Event.py:Event.fire_all")], ["results of fire_any and fire_all", "listener calls"])
prop("C03", "A listener lives exactly as long as its token, or its owner",
     "A listener stays attached until its token is closed (directly or by leaving its with block), or is released by dropping the last reference to it; after that it is never called, closing again is harmless, and, outside of firings, the event's count of listeners and its list of listeners include every open listener and no released one. "
     "A listener with an owner stays attached when its token is dropped and is detached as soon as the owner is gone, also if the owner has no truth value.",
     ["histories"], "all histories of attaching with and without owner, closing, dropping tokens and owners, and firing",
     "the tests drop one token and one owner; they do not look at combinations (owner and token, several listeners of one owner, closing after the owner is gone)",
     ["Event.py"], [("weak reference with removal callback", "Event.py:Event.listen"), ("owner reference", "Event.py:Event.listen")], ["listener calls", "listener_count", "listeners"])
prop("C04", "Events can be fired, listened to and closed from several threads",
     "While threads attach, close and release listeners and fire the same event concurrently, no call fails or blocks forever, and every firing calls exactly once, in attach order, each listener that was open during the whole firing, never a listener closed before it started (or released before it started while the event was not being fired) or attached after it ended, and no listener twice.",
     ["schedules"], "all interleavings of threads that attach, close, release and fire, preempted between any two bytecodes of the library",
     "no test of events uses a second thread",
     ["Event.py"], [("mutex around the list of listeners", "Event.py:Event.__weak_listeners_mutex")], ["listener calls", "starts and ends of calls of each thread"])
prop("C05", "List notifications are an exact edit script of the list",
     "For list models, filtered, mapped and flattened lists, the insert and remove notifications, applied in order to a copy of the items taken when listening started, reproduce the items at each notification and after every operation; each notification carries the list's own key, the item that is inserted or removed, and an index valid at that point, and no notification is made for a change of the list that does not happen. "
     "This holds through set-up, every edit of the source list, content changes, filter and sort changes, sets of changes, replacing the source and closing.",
     ["histories", "configurations"], "all edit histories of a source list and all stacks of filtered, mapped and flattened lists on it",
     "each test makes a few edits and compares the final items; none replays the notifications or checks the items they carry",
     ["ListModel.py", "Observable.py"], [("insert / remove notifications", "ListModel.py:FilteredListModel.__update_items"), ("insert / remove notifications", "ListModel.py:FlattenedListModel.__child_item_inserted")], ["item_inserted_event", "item_removed_event", "items"])
prop("C06", "A filtered list holds exactly the matching items, in order",
     "Outside a set of changes, a filtered list holds exactly the items of its source that match its filter, each once, ordered by its sort key (descending if reversed; the order among equal keys is not specified), or in source order if it has no sort key; during a set of changes (begin_change / end_change, nested to any depth) its items do not change. "
     "This holds after every insertion, removal and content change of an item (announced by its item_changed_event, or followed by mark_changed), every change of filter, sort key, reversal or source, and for filtered lists of filtered lists.",
     ["histories", "configurations"], "all histories of edits of the source, content changes (announced by the item), filter, sort and source changes, inside and outside of sets of changes",
     "the tests sample ten histories; content changes are tested for filtering only, and no test combines them with sorting, reversal or sets of changes",
     ["ListModel.py"], [("incremental and full update", "ListModel.py:FilteredListModel.__update_items"), ("sorted insertion", "ListModel.py:FilteredListModel.__insert_item"), ("content changes", "ListModel.py:FilteredListModel.__updated_master_item")], ["items"])
prop("C07", "A mapped list mirrors its source through its map function",
     "A mapped list always holds, in source order, the mapped value of each source item; the map function is called exactly once per source item when it is inserted, and the unmap function exactly once with that mapped value when the source item is removed, the source is replaced or the list is closed, before the removal is announced; kept items keep their mapped values.",
     ["histories", "configurations"], "all edit histories of the source, replacing and clearing the source, closing, and mapped lists of filtered and mapped lists",
     "the tests check the items after a few insertions and removals; map and unmap calls are checked for one history",
     ["ListModel.py"], [("map on insert, unmap on remove", "ListModel.py:MappedListModel")], ["items", "map and unmap calls"])
prop("C08", "A flattened list is the concatenation of the children of its items",
     "A flattened list always equals the concatenation, in source order, of the child items of the source's items; it follows insertions and removals of items at any place, of children of any item (also of items with no children), replacing the source and closing, and ignores children of items that are no longer in the source.",
     ["histories", "configurations"], "all histories of edits of the source and of the children of present and former items",
     "two tests with two parents; no test removes parents in the middle and then edits children, or replaces the source",
     ["ListModel.py"], [("offset of a parent", "ListModel.py:FlattenedListModel.__child_item_inserted")], ["items"])
prop("C09", "Begin/end change events are balanced and enclose the changes",
     "The begin and end change events of filtered and mapped lists are properly nested and balanced with the list's own key whenever no operation is running and no set of changes is open, and never end more than they began (if sources are replaced only while no set of changes of a mapped list is open); every insertion and removal of a filtered list is announced between a begin and its end, and those of a mapped list are if its source's are or they are made within its own changes block.",
     ["histories", "configurations"], "all histories of edits, filter, sort and source changes, nested sets of changes, and stacks of filtered and mapped lists",
     "no test listens to these events",
     ["ListModel.py"], [("begin and end events", "ListModel.py:FilteredListModel.__insert_item"), ("forwarding from the source", "ListModel.py:MappedListModel.container")], ["begin_changes_event", "end_changes_event"])
prop("C10", "Selections of list models stay on the items they selected",
     "While items are inserted and removed through the source, a selection made with make_selection on (or passed to) a filtered, mapped or flattened list keeps selecting exactly the items it selected before, minus the removed ones, whatever the filter and sort of the list; the anchor follows its item in the same way. After a set of changes, or a change of the filter, sort or source, it selects only items it selected before, and all of those which were not removed meanwhile (an item that was removed and inserted again need not be selected). "
     "A released selection is no longer adjusted.",
     ["histories", "configurations"], "all edit histories with any selected items, lists with filters and sort keys, content changes which add or drop an item, and changes of filters, sort keys and sources",
     "two tests, for a mapped list with one selected item each",
     ["ListModel.py", "Selection.py"], [("index shifts", "Selection.py:IndexedSelection.insert_index"), ("index shifts", "ListModel.py:FilteredListModel.__insert_item")], ["selection.indexes", "items"])
prop("C11", "A selection respects its style and fires changed exactly when it changes",
     "After every operation (set, add, remove, toggle, add_range, set_multiple, extend, clear, insert_index, remove_index) the selected indexes are those the operation documents for the selection's style: any set for multiple, at most one for single and single_or_none, and none for none; in particular extend selects the range between the anchor (set by the last set, by the first add, or by extending a selection without one, and unspecified once its own index is deselected or removed) and the index, and a single selection that selects an index always keeps one selected under the selecting operations. "
     "Apart from the index shifts insert_index and remove_index, the changed event fires exactly once for an operation that changes the selected indexes (at least once for add_range) and not at all for one that does not; current_index, has_selection, contains and ordered_indexes (anchor first) always agree with the indexes, and two selections are equal exactly if their indexes and anchors are.",
     ["histories", "configurations"], "all sequences of operations for each selection style",
     "the tests run five short sequences, mostly with the default style, and do not look at the changed event",
     ["Selection.py"], [("per style operations", "Selection.py:IndexedSelection")], ["indexes", "anchor_index", "changed_event"])
prop("C12", "Filters mean what they say, also when combined and copied",
     "For every item, the and, or, not, equal, not-equal (with or without a comparison function), prefix, text (case-insensitive, on the text of the value), partial date and predicate filters match exactly when the condition they name holds, at any nesting depth, with an empty conjunction matching and an empty disjunction not. "
     "A deep copy of a filter matches exactly the same items as the original.",
     ["inputs"], "all filter trees over the given kinds and all items",
     "the tests use each filter in one or two list contents and do not copy any",
     ["ListModel.py"], [("matches and __deepcopy__", "ListModel.py:Filter")], ["matches"])
prop("C13", "Bindings keep target and source in step through their converter",
     "For property, attribute and tuple bindings, every change of the bound source property sets the target once to the converted source value, or to the fallback if the value is missing (None, no such attribute or element), which is also what get_target_value returns; changes of other properties do not set the target. update_target sets it to the converted value it is given, update_target_direct to the value itself, and nothing is set while there is no target. "
     "Updating the source from the target stores the back-converted and validated value (for tuples only that element, padded with None as needed, for attributes through the update function if there is one), list bindings pass on exactly the insertions and removals of their key, and after close nothing is set, stored or passed on any more.",
     ["histories", "configurations"], "all histories of source changes, target updates and closing, for all binding kinds with and without converter, validator and fallback",
     "the tests make one or two updates per binding kind, without validators, fallbacks in both directions, padding or use after close",
     ["Binding.py", "Validator.py"], [("property changed handlers", "Binding.py:PropertyBinding"), ("source setter", "Binding.py:TuplePropertyBinding")], ["target_setter calls", "source value", "get_target_value", "inserter and remover calls"])
prop("C14", "Property models notify exactly when their value changes",
     "Setting the value of a property model stores it and notifies property_changed('value') and on_value_changed(value) exactly once each if it differs from the old value by the model's comparison (None differs from everything but None, whatever the comparison), and otherwise leaves the old value and notifies nothing; observers already see the new value. "
     "A stream value model always has the last value of its stream (under the same comparison), until it is closed.",
     ["histories", "configurations"], "all sequences of values (None, equal but different objects, falsy values), comparisons, and setting from within notifications",
     "there are two tests, with one change each and the default comparison",
     ["Model.py"], [("comparison and notification", "Model.py:PropertyModel.value")], ["value", "property_changed_event", "on_value_changed"])
prop("C15", "Structured models announce every change of anything they contain",
     "Every change of a field or array anywhere inside a structured model fires the model_changed event of each model that contains it at that time, exactly up to the root, together with the property_changed or item_inserted / item_removed event with field name, value and index on the record owning it; assignments that change nothing, and changes of items that have been removed from an array (also after other items were inserted before them) or of models that were replaced, fire nothing on models that do not contain them; a record or array that was closed announces nothing of what it contains any more.",
     ["histories", "configurations"], "all histories of setting fields, inserting into, removing from and reading dicts into nested records and arrays",
     "the tests change one field or item at each depth; none removes items after insertions or changes removed items",
     ["StructuredModel.py"], [("event trampolines", "StructuredModel.py:RecordModel"), ("event trampolines", "StructuredModel.py:ArrayModel")], ["model_changed_event", "property_changed_event", "item_inserted_event", "item_removed_event"])
prop("C16", "Structured models survive conversion to a dict and back",
     "A model built from a schema has the given values, or else the schema's defaults, for every field; to_dict_value returns exactly the present values (without fields that have none); from_dict_value and copy_from of a dict of the same schema with values for all fields give a model with the same dict, while fields that the dict lacks keep their values; array fields are sequences of their items; and a deep copy of a model with values for all fields has the same dict and is independent of the original.",
     ["inputs", "histories", "configurations"], "all schemas of basic, record and array types nested to any depth, with and without defaults, and all values",
     "the tests cover a dict round trip of one schema with one record field, and no array of basic values",
     ["StructuredModel.py"], [("build, to and from dict", "StructuredModel.py:build_model")], ["to_dict_value", "field values"])
prop("C17", "Persistent storage always mirrors the object tree",
     "After every operation on an object tree that belongs to a context (setting or clearing properties, setting items, inserting, appending and removing relationship items, at any depth), the dict which the operations have built in storage by key equals what writing the root object produces; objects outside of the context change nothing in storage, and objects that were removed or replaced no longer do. A property that storage lacks is written whenever it is set, also to the value it has. Other requests made through the context (external data, write delay, rewriting, storage properties) reach the storage of the object's own tree, with their arguments.",
     ["histories", "configurations"], "all histories of changes of the tree, with properties and relationships whose storage key differs from the name, converters, items and nested relationships",
     "no test attaches a storage",
     ["Persistence.py"], [("incremental updates", "Persistence.py:PersistentObject._update_persistent_object_context_property"), ("accessors by storage key", "Persistence.py:PersistentObject.get_accessor_in_parent")], ["storage dict", "write_to_dict"])
prop("C18", "Persistent objects survive writing and reading, and copy completely",
     "Reading what write_to_dict returned into a fresh object of the same class gives an object that writes the same dict: same type, uuid, properties (through their converter, under their storage key), items and ordered relationships, recursively (a value of None is stored as absent and reads as the default), and the modified times stored with it. "
     "A deep copy has the same properties, items and relationships recursively but new uuids, no context and no parent, and changing either leaves the other as it was; the dict shares nothing mutable with the object.",
     ["inputs", "histories", "configurations"], "all object trees reachable by operations, with all kinds of properties (converter, validator, made objects, read-only, hidden, with key)",
     "no test writes, reads or copies a persistent object",
     ["Persistence.py"], [("read_from_dict, write_to_dict, deepcopy_from", "Persistence.py:PersistentObject")], ["write_to_dict", "read_from_dict", "deepcopy"])
prop("C19", "Contexts know exactly the objects in their trees and tell subscribers",
     "An object is registered with a context exactly while it belongs to a tree whose root has that context, through items and relationships, and gets and loses the context with its parent. "
     "A subscriber (also one that subscribes while another is told) is told about registration once, at once if the object is already registered, and about the following unregistration once; the registration event fires once for each, with the object, in step with get_registered_object, and the object itself is told that its context changed.",
     ["histories"], "all histories of building, attaching, moving, replacing and detaching parts of a tree, and of subscribing at any time",
     "the tests register and unregister a single bare object",
     ["Persistence.py"], [("context propagation", "Persistence.py:PersistentObject.persistent_object_context"), ("subscriptions", "Persistence.py:PersistentObjectContext.register")], ["get_registered_object", "registration_event", "subscriber calls", "persistent_object_context"])
prop("C20", "Modification counts reach every ancestor; property values are private",
     "Every change of a persistent object (property set, item set, relationship insertion or removal) increases modified_count, modified_state and never decreases the modified time of that object and of each of its ancestors at that time, and of no other object. "
     "A property keeps the (validated) value it was set to: changing the object passed in later, the stored value or, for copy-on-read properties, the object read, does not change it; a read-only property cannot be set by assignment, and the changed function is called once with the stored value, as those of items and relationships are with the old and new object, or the index and object.",
     ["histories", "inputs"], "all trees and histories of changes, and all mutable values",
     "no test looks at modified counts or at mutable property values",
     ["Persistence.py"], [("propagation to parents", "Persistence.py:PersistentObject.__update_modified"), ("deep copies", "Persistence.py:PersistentProperty.set_value")], ["modified_count", "modified_state", "modified", "property values"])
prop("C21", "Derived streams always hold the value derived from their inputs",
     "After every change of an input, a map stream holds the function of its input's value, a combine-latest stream the function (by default the tuple) of the latest values of all inputs, a property stream the property of the latest source object, and a concat stream the value of the stream made for the latest (true or None) input value, or None; each passes on every new value, in order, with the stream already holding it, a map or property stream not repeating an equal value (by the comparison it was given), and nothing after it was closed or for inputs that were replaced.",
     ["histories", "configurations"], "all histories of input changes, source replacement and closing for trees of streams",
     "each stream kind has one or two tests with one or two changes",
     ["Stream.py"], [("update functions", "Stream.py:MapStream"), ("switching", "Stream.py:ConcatStream.__stream_changed")], ["value", "value_stream"])
prop("C22", "Debounced and sampled streams deliver the last value, in time, then stop",
     "A debounce stream fires the then-latest value one period after the first change since it last fired, for its initial value and for each later group of changes, also for those made while it fires; a sample stream fires, at the ends of successive periods, the latest value if there was one since the last sample (initially its input's value). "
     "So the last value is always delivered, only values of the input are, never more than one per period, and none after closing; closing at any time leaves no pending task behind.",
     ["schedules", "histories"], "all timings of input changes, closings and event loop steps; for sample streams also changes from another thread",
     "the tests wait for one value with real sleeps",
     ["Stream.py"], [("debounce task", "Stream.py:DebounceStream.debounce_delay"), ("sample loop", "Stream.py:SampleStream.sample_loop")], ["value_stream", "value", "pending tasks of the loop"])
prop("C23", "Streams and stream models hold references to their inputs while open",
     "Each derived stream, and each model or stream built on it, holds exactly one reference to each of its inputs (two to one that it combines with itself, and so on) from construction until it is closed, which happens when its own last reference is removed; so an input is closed exactly when its last user is, each at most once and never while a user is open, and a concat stream releases the stream it made when it makes the next.",
     ["histories", "configurations"], "all graphs of streams and models and all orders of adding and removing references and closing models",
     "no test looks at reference counts of streams",
     ["Stream.py", "Model.py", "ReferenceCounting.py"], [("add_ref and remove_ref", "Stream.py:MapStream"), ("switching", "Stream.py:ConcatStream.__stream_changed")], ["ref_count", "about_to_delete"])
prop("C24", "Reference counting closes an object exactly once, at its last reference",
     "Under any interleaving of threads adding and removing references (also through ref() blocks, left normally or by an exception), the count is the number of additions minus removals, about_to_delete is called exactly once, when the count first returns to zero by a checked removal, with no reference left, and removing a reference that does not exist fails without changing anything.",
     ["schedules", "histories"], "all interleavings of additions and removals, checked and unchecked, from several threads",
     "there is no test of reference counting",
     ["ReferenceCounting.py"], [("count and flag under a mutex", "ReferenceCounting.py:ReferenceCounted.remove_ref")], ["ref_count", "about_to_delete calls"])
prop("C25", "Task queues and sets run every task exactly once",
     "A task queue performs tasks in the order they were put, each exactly once, those put during perform_tasks at the next call; a task that raises ends the call, is not run again, and leaves the rest queued, joining the queue returns when all tasks were performed or cleared, and cleared tasks are never run. "
     "A task set performs, for each key, exactly the task last added under it and not cleared, once, those added meanwhile at the next call; both hold under any interleaving of threads adding, clearing and performing.",
     ["schedules", "histories"], "all histories, including tasks that add tasks or raise, and all interleavings of threads",
     "there is no test of task queues or sets",
     ["Process.py"], [("bounded loop", "Process.py:TaskQueue.perform_tasks"), ("swap under a mutex", "Process.py:TaskSet.perform_tasks")], ["task runs", "join", "unfinished tasks"])
prop("C26", "A thread pool runs each function at most once and none after closing",
     "Every function queued to a thread pool before it is closed is run exactly once if the pool is left to work (with threads, run_one or run_all; in order with a single thread, up to n at a time with n threads), also after other functions raised; after close returned, no function is running, none starts, what had not started never runs, and what is queued later is ignored. "
     "close returns as soon as the running functions end, under any interleaving with threads that queue functions.",
     ["schedules", "histories"], "all interleavings of workers, threads queueing functions (also from functions) and closing",
     "there is no test of the thread pool",
     ["ThreadPool.py"], [("task lock and cancel", "ThreadPool.py:ThreadPoolTask"), ("closed flag and queue join", "ThreadPool.py:ThreadPool.close")], ["starts and ends of functions", "return of close"])
prop("C27", "A dispatcher runs its function after every trigger, and never after close",
     "After every trigger of a started dispatcher that is not being closed, the function starts at least once more, never more often than it was triggered, one run at a time, and not sooner than the minimum interval after the end of the previous run; exceptions of the function do not stop it. "
     "trigger(wait=True) returns only after a run of the function that started after the call has ended, and always returns, also if the function raises or the dispatcher is closed; after close returned the function is not running and never runs again.",
     ["schedules"], "all interleavings of threads that trigger, trigger and wait, and close, with any duration and failure of the function",
     "there is no test of the dispatcher",
     ["ThreadPool.py"], [("event loop of the thread", "ThreadPool.py:ThreadDispatcher.__process"), ("triggered event", "ThreadPool.py:ThreadDispatcher.trigger")], ["starts and ends of the function", "returns of trigger and close"])
prop("C28", "A promise evaluates its function once and gives everyone the same value",
     "Under any interleaving of threads reading value, opt_value and has_value, a promise calls its function at most once to success, never two at a time and never because of opt_value or has_value; every read of value returns the value of that call, opt_value returns it or None, and once a value (that is not None) was returned to anyone has_value is true and opt_value returns it. "
     "A call that raises passes the exception to the reader that made it, leaves the promise without value, and the next read tries again.",
     ["schedules", "histories"], "all interleavings of reading threads, with functions that fail any number of times",
     "there is no test of promises",
     ["Promise.py"], [("lock around the evaluation", "Promise.py:Promise.value")], ["function calls", "values read"])
prop("C29", "The registry finds exactly what is registered, best priority first",
     "At any time, the components of a type are exactly those registered for it and not unregistered since, get_component returns one of the highest priority among them (50 if it has none), or None, and each registration and unregistration fires its event once with the component and exactly the types added or removed, after the change can be seen; asking for existing components fires once for each component of the type. "
     "Listeners may register, unregister and look up components, and results are not affected by later changes.",
     ["histories"], "all histories of registering and unregistering components for sets of types, partly or wholly, also from listeners",
     "two tests register one component",
     ["Registry.py"], [("sets by type", "Registry.py:ComponentManager"), ("priority order", "Registry.py:get_component")], ["get_components_by_type", "get_component", "events"])
prop("C30", "Applying a recording reproduces the recorded changes on a copy",
     "Applying a recorder to a copy of the object made when recording started, any number of times on different copies and any time later, gives it the state (recordable properties, items, ordered relationships, recursively) of the recorded object at that time or at the time the recorder was closed; the recorded object is not changed, and properties which are not recordable are not touched. Values changed in place later, without notification, are recorded as they were when last set.",
     ["histories", "configurations"], "all histories of property changes, item sets and clears, insertions and removals at any depth, including changes of inserted, moved and later removed objects",
     "there is no test of the recorder",
     ["Recorder.py"], [("change log with accessors", "Recorder.py:Recorder")], ["state of the copy after apply"])
prop("C31", "A function stream model ends up with the value of the newest function",
     "When all functions received have been evaluated, a function stream model has the value of the last one received that succeeded, whatever the order in which the evaluations finish, it never goes back from the value of a newer function to that of an older one, and it notifies about each value it takes (a value equal to the present one by the comparison given to the model does not replace it); a function that raises does not stop the model or keep it from completing.",
     ["schedules"], "all orders in which the evaluations of several functions finish, and all failures",
     "there is no test of it",
     ["Model.py"], [("evaluation in an executor", "Model.py:FuncStreamValueModel")], ["value", "property_changed_event"])
prop("C32", "Points, sizes and rectangles obey the algebra of half-open rectangles",
     "For integer (and exactly representable float) points, sizes and rectangles: arithmetic, equality (also with tuples) and conversion to and from tuples are componentwise; edges, corners and the constructors by edges, by size and by center agree with each other; a rectangle contains exactly the points with top <= y < bottom and left <= x < right; intersection contains exactly the points in both, and intersects_rect is true exactly if the rectangles overlap or touch; the union is the smallest rectangle containing both; translating and insetting move the edges by the given amounts, mapping points, sizes and rectangles between rectangles is the affine map, and fitting to an aspect ratio gives the largest centered rectangle of that ratio. (Rectangles of negative size are not meant.)",
     ["inputs"], "all integer and dyadic coordinates, of either sign",
     "the tests check a few values of some operations",
     ["Geometry.py"], [("IntRect, FloatRect and friends", "Geometry.py:IntRect")], ["results of the operations"])
prop("C33", "Exact converters and validators are inverse to themselves",
     "Integers, booleans (check states), random uuids, paths, datetimes without time zone, scaled integers, percentages and floats with a few digits convert to their target and back to the same value; a string that is not of the form a uuid or datetime converts to has converts back to None, and None and empty values are passed through where a converter accepts them. Numbers convert to strings in the format given, and a fuzzy float converter reads the number a string starts with (0 if there is none), also with a decimal comma if that is the locale's. "
     "A range validator returns the value in its range nearest to the given one.",
     ["inputs"], "all values of each type",
     "the tests check two or three values of some converters",
     ["Converter.py", "Validator.py"], [("convert and convert_back", "Converter.py"), ("validate", "Validator.py:IntegerRangeValidator")], ["results of convert, convert_back and validate"])
prop("C34", "Closing an event loop lets outstanding work finish first",
     "close_event_loop runs every task of the loop that is outstanding when it is called, including work in its executor and tasks which fail, to its end before it closes the loop, never raises because a task failed, and leaves the loop closed, whatever the state of the tasks when it is called.",
     ["schedules", "histories"], "all sets of outstanding tasks: not started, sleeping, waiting for an executor or for each other, failing, cancelled, with work in the executor that no task waits for",
     "there is no test of it",
     ["Process.py"], [("gather and shut down", "Process.py:close_event_loop")], ["task completions", "loop.is_closed"])
prop("C35", "Filtered lists can be changed from several threads",
     "While a thread (or several, one at a time) inserts and removes source items, and others change filter, sort key and reversal, open and close sets of changes, change item contents within those, and read the items, all concurrently, no operation fails or blocks forever, and when all have finished the filtered list holds exactly the matching items in order and the notifications made reproduce it.",
     ["schedules"], "all interleavings of threads changing the source (one at a time) with threads changing filter, sort and item contents",
     "no test of list models uses a second thread",
     ["ListModel.py"], [("update mutex", "ListModel.py:FilteredListModel._update_mutex")], ["items", "item_inserted_event", "item_removed_event"])
prop("C36", "Axis ticks cover the data and their labels are right",
     "For any two different finite values (in either order) and a number of ticks from two on, the linear ticker's division is 1, 2 or 5 times a power of ten, rounded from the range (itself rounded up to such a number) over the number of ticks less one; its ticks are the successive multiples of it from the last at or below the lower value to the first at or above the higher one (one more on a side only where a value is a multiple itself), they begin at minimum and end at maximum, and each label, read as a number, is the value of its tick, so labels are distinct, whatever the magnitude and sign of the values; the label of another value is right to half a division. "
     "A logarithmic ticker's ticks increase strictly and cover the range, their labels are distinct (base 10 or 2) and agree with them, its limits contain the data, and its minor ticks are exactly those at multiples of whole powers.",
     ["inputs"], "all ranges, of any magnitude and sign, and numbers of ticks",
     "the tests check the labels of about a dozen ranges",
     ["Geometry.py"], [("pretty numbers", "Geometry.py:make_pretty"), ("ticks", "Geometry.py:make_pretty_range2"), ("labels", "Geometry.py:LinearTicker"), ("logarithmic ticks", "Geometry.py:LogTicker")], ["values, labels, minimum, maximum, division and minor_tick_indices of tickers"])
prop("C37", "Each notification of an observable reaches exactly the listeners of its event",
     "Every notification of an observable object (property changed, item set, cleared, inserted, removed, added, discarded, item content changed) fires the event of that kind of that object once, with the arguments of the notification in their order, whatever the key and values (also None and others which are false), to each listener of that event which is open, in the order in which they came, and fires no other event and none of another object.",
     ["histories", "inputs"], "all histories of listening, closing and notifying with several objects of several classes, and all arguments",
     "the tests listen to single events of single objects, and to some kinds not at all",
     ["Observable.py"], [("notifications", "Observable.py:Observable")], ["property_changed_event", "item_set_event", "item_cleared_event", "item_inserted_event", "item_removed_event", "item_added_event", "item_discarded_event", "item_content_changed_event"])
for p in P:
    sys.stdout.write(json.dumps(p) + "\n")

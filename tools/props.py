"""Source of properties.jsonl and of the checks table in MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/neolib/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": w} for a, b, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

p("P01", "Triggering an event calls exactly its current subscribers, in order",
  "Triggering an event synchronously calls every handler subscribed at the time of the call exactly once, in subscription order, with the arguments of the trigger, except that once a handler accepts the event no later handler of that trigger is called and the trigger reports it as accepted (priority subscriptions come first, and a handler unsubscribed while the trigger is under way may be skipped). Handlers may subscribe, unsubscribe, re-trigger the event, destroy it or throw from inside a call without corrupting the delivery of the current or any later trigger, of this event or another, on this thread or another. A handler that has been unsubscribed before a trigger, whether explicitly, through its subscription handle or through its owner's sink being cleared, is never called by it.",
  ["histories", "inputs"], "All sequences of subscribe, unsubscribe, trigger, accept, clear, copy and destroy operations, including nested ones performed from inside handlers.",
  "The Event test samples a handful of subscribe/trigger sequences (and is not even built here); the guarantee is about arbitrary histories including re-entrant ones.",
  [I + "task/event.hpp", I + "task/i_event.hpp", "src/task/event.cpp"],
  [("snapshot of the handler list and work list", I + "task/event.hpp sync_trigger"), ("handler add/remove/unreference", I + "task/event.hpp"), ("sink and slot lifetime", I + "task/i_event.hpp")],
  observe=["handler invocations and their arguments", "trigger results"])

p("P02", "Queued event callbacks run once, in order, on their own queue",
  "A handler subscribed for another thread's event queue is never run on the triggering thread when the event is triggered: each trigger queues one callback, and executing that queue runs the pending callbacks exactly once, in the order they were queued, with the arguments given when triggered (where no duplicates are asked for, at most one stays pending, with the latest arguments). Callbacks still pending when their event or their subscription is destroyed are never run. No callback is lost or duplicated whatever the interleaving of triggering and executing threads, and even when a callback throws.",
  ["schedules", "histories"], "All interleavings of triggering, subscribing, unsubscribing, destroying and queue-executing threads.",
  "Unit tests run one schedule and never combine removal with pending callbacks.",
  [I + "task/event.hpp", "src/task/event.cpp"], [("per-thread callback queue", "src/task/event.cpp async_event_queue"), ("enqueue/terminate/unqueue", "src/task/event.cpp")],
  observe=["callback executions and the executing thread"])

p("P03", "The thread pool runs every task it accepts exactly once and reports it",
  "Every task handed to a thread pool that is not stopped, whichever overload is used, is executed exactly once by a pool thread unless it is cancelled before it starts, the future returned for it becomes ready with the value or exception the task produced, and the number of tasks running concurrently never exceeds the pool's thread count. Waiting for the pool returns only when no task it had accepted before the wait is still pending or running, and never waits for ever once all tasks have finished. Whenever tasks are pending and a pool thread is idle, some pending task is eventually started.",
  ["schedules", "histories"], "All interleavings of threads starting tasks, waiting, querying and stopping with the pool's own threads, for all pool sizes and task mixes.",
  "threadpool.cpp runs a few schedules by luck of the OS scheduler and cannot force a lost wake-up.",
  [I + "task/thread_pool.hpp", "src/task/thread_pool.cpp", I + "task/task.hpp"],
  [("thread_pool_thread::next_task / steal", "src/task/thread_pool.cpp"), ("waiting tasks and condition", "src/task/thread_pool.cpp start/wait")],
  observe=["task executions", "futures", "idle/busy/active_threads/wait results"])

p("P04", "Library locks exclude other threads, nest, and are always released",
  "While one thread holds a lock no other thread can acquire it, by waiting or by trying, whatever locking strategy is selected at run time; the owner can acquire it again any number of times and it becomes available to others only after as many releases. A failed attempt to acquire leaves the lock unchanged and an attempt on a free lock succeeds. A thread waiting for a lock that is released is eventually able to acquire it, and threads that take several locks together never wait for each other in a circle.",
  ["schedules", "configurations"], "All interleavings of lock, try-lock and unlock by several threads, nested to any depth, for every locking strategy.",
  "No test contends on these locks; a missing ordering or a lost owner needs a specific interleaving.",
  [I + "core/mutex.hpp", "src/core/mutex.cpp"], [("null/recursive_spinlock/switchable mutex", I + "core/mutex.hpp"), ("lock counting and ownership", "src/core/mutex.cpp")],
  observe=["critical sections entered", "try_lock results"])

p("P05", "A signalled waitable event releases a waiter and no signal is lost",
  "A signal sent to a waitable event while a thread waits on it releases a waiting thread, and a signal sent while nobody waits lets the next wait return at once; signalling one waiter releases at most one thread per signal, and signalling all releases every thread waiting at that moment. A timed wait returns whether it was signalled and never reports a signal that was not sent. Resetting the event discards an unconsumed signal.",
  ["schedules"], "All interleavings of waiting, signalling and resetting threads.",
  "Needs particular interleavings of signal and wait, and spurious wake-ups, that tests cannot force.",
  [I + "task/waitable_event.hpp", "src/task/waitable_event.cpp"], [("ready flag, waiter count and condition variable", "src/task/waitable_event.cpp")],
  observe=["returns of wait and their result"])

p("P06", "A thread object's state follows its real thread through its whole life",
  "A thread object is created, runs its procedure exactly once on a new thread after being started, and is then finished; it reports started, running, finished, aborted or failed consistently with what has really happened at every moment. Waiting for it returns only after its procedure has ended, starting it twice is refused, and a wait that is given an event or a timeout reports truthfully which one ended it. Destroying it does not leave its procedure running on a dead object.",
  ["schedules", "histories"], "All interleavings of an owner's start, wait, abort and query calls with the thread's own execution.",
  "Tests run at most one start/wait sequence; the races between abort, completion and waiting are never forced.",
  [I + "task/thread.hpp", "src/task/thread.cpp"], [("state transitions", "src/task/thread.cpp entry_point/abort/wait")],
  observe=["state queries", "procedure executions"])

p("P07", "A timer fires once per period, never early, never after being stopped",
  "A timer that is waiting fires only once its duration has elapsed and only once per time it was started, however often it is polled; after being cancelled, reset or destroyed it does not fire for the superseded wait. A timer not waiting never fires, starting a waiting timer again and again while it is waiting is refused unless allowed by the operation, and its enabled and waiting states are reported correctly at every step, including from inside its own callback.",
  ["histories", "schedules"], "All sequences of again, again-if, cancel, reset, duration change, enable, disable, poll and destruction, interleaved with the passing of time and with calls made from callbacks.",
  "Real-time unit tests cannot enumerate orders of expiry, cancellation and restart.",
  [I + "task/timer.hpp", "src/task/timer.cpp", I + "task/timer_object.hpp", "src/task/timer_object.cpp", "src/task/async_task.cpp"],
  [("timer state and subscription to the timer object", "src/task/timer.cpp"), ("timer service polling", "src/task/async_task.cpp")],
  observe=["callback firings", "waiting()/enabled()"])

p("P08", "An object's end of life is announced once and visible to every observer",
  "Every observer of an object's lifetime sees it alive until its end of life begins, then being destroyed, then destroyed, in that order and never going back, and goes on giving the right answer after the object itself is gone. The notifications that it is being destroyed and that it has been destroyed are each sent exactly once per object however many times end of life is announced.",
  ["histories", "schedules"], "All histories of creating observers, announcing end of life at any stage and destroying objects and observers in any order.",
  "Tests cover straight-line use only.",
  [I + "core/lifetime.hpp", I + "core/i_lifetime.hpp", "src/core/lifetime.cpp"], [("shared lifetime flag and its state", "src/core/lifetime.cpp")],
  observe=["flag queries", "destroying/destroyed notifications"])

p("P09", "Reference-counted objects live exactly as long as they are referenced",
  "A reference-counted object stays alive while at least one strong reference to it exists, is destroyed exactly once when the last strong reference goes away, and is never used after that, whatever sequence of copying, moving, resetting, detaching, swapping and self-assigning references is performed. Weak references never keep it alive, report it expired exactly from its destruction on, and yield a strong reference only while it lives. Reported use counts equal the number of strong references.",
  ["histories", "schedules"], "All sequences of operations on strong and weak references to several objects, and all interleavings of releasing them from several threads.",
  "Tests exercise single copies and moves; the invariants quantify over all histories and schedules.",
  [I + "core/reference_counted.hpp", I + "core/i_reference_counted.hpp", "src/core/reference_counted.cpp"],
  [("use count and control block", I + "core/reference_counted.hpp"), ("ref_ptr/weak_ref_ptr operations", I + "core/reference_counted.hpp")],
  observe=["object destruction", "use_count/expired/valid results"])

p("P10", "Component stores map each entity to its own data and nothing else",
  "A component store returns for each entity exactly the record last written for it, reports whether an entity has a record truthfully, and iterates each stored record exactly once together with the entity that owns it, after any sequence of populating, repopulating, removing and sorting, and sorting leaves the records in order. Removing or moving one entity's record never changes another's, and a removed record's handles are freed exactly once. A snapshot keeps the contents it had when taken while the store goes on changing, except for records removed from the store, and shared named components return the same record for the same name.",
  ["histories"], "All histories of populate, destroy, lookup, iterate, sort and snapshot over any set of entities.",
  "There is no unit test of the entity-component system in this tree.",
  [I + "ecs/component.hpp"], [("reverse index and entity list", I + "ecs/component.hpp")], observe=["lookups and iteration"])

p("P11", "Entities keep their identity and their components until destroyed",
  "Every live entity has an identifier no other live entity has; creating, cloning or destroying entities never changes which components or data any other entity has, and a destroyed entity has no component left in any store. Deferred creations and destructions take effect exactly once when committed. Handles resolve to the object they were issued for until freed, systems are paused and resumed as often as asked, and archetype queries return exactly the registered types.",
  ["histories"], "All histories of entity creation, destruction, component registration, handle use and pause/resume.",
  "There is no unit test of the entity-component system in this tree.",
  [I + "ecs/ecs.hpp", "src/ecs/ecs.cpp", I + "ecs/i_ecs.hpp", "src/ecs/system.cpp", "src/ecs/entity.cpp"], [("id allocation and free list", "src/ecs/ecs.cpp"), ("handles", "src/ecs/ecs.cpp")],
  observe=["entity ids", "component lookups", "handle resolution"])

SEQ_WHY = "The Containers test checks a few fixed sequences (and is not built here); the guarantee is for every history, especially those that hit the structure's internal boundaries."
p("P12", "The gap vector behaves as a plain sequence under every edit history",
  "Whatever edits were made before and wherever they were made, the gap vector's size, element access, iteration in both directions, iterator arithmetic and comparison show exactly the sequence those edits produce on an ordinary sequence. Insertions and erasures return the position of the element inserted or following the erased range. No element's resources are lost, duplicated or released twice.",
  ["histories", "inputs"], "All sequences of insertions (single, counted, range, list), erasures, resizing, assignment, copy, move and swap, for every gap size and every position relative to the gap.",
  SEQ_WHY, [I + "core/gap_vector.hpp"], [("opening, moving and closing the gap", I + "core/gap_vector.hpp allocate_from_gap/erase/unsplit"), ("iterator arithmetic across the gap", I + "core/gap_vector.hpp iterator_impl")],
  observe=["contents, iteration, return values, live element count"])
p("P13", "The segmented array behaves as a plain sequence under every edit history",
  "Whatever insertions and erasures were made before, the segmented array's size, indexed access, iteration in both directions and iterator arithmetic show exactly the sequence those edits produce on an ordinary sequence. Insertions and erasures return the position of the element inserted or following the erased range. Exactly the elements it reports are alive: each is constructed and destroyed once.",
  ["histories", "inputs"], "All sequences of insertions, erasures, resizing, copying and swapping, for every segment size.",
  SEQ_WHY, [I + "core/segmented_array.hpp", I + "core/array_tree.hpp"], [("segment split, refill and removal", I + "core/segmented_array.hpp"), ("order-statistics tree over segments", I + "core/array_tree.hpp")],
  observe=["contents, iteration, return values, live element count"])
p("P14", "The tag array keeps elements, positions and tag spans consistent",
  "Whatever insertions and erasures were made before, the tag array's size, indexed access and iteration show exactly the sequence those edits produce, and every element is associated with the tag it was inserted with. The segments that share one stored tag cover every element exactly once and in order, hold one tag each, are neither empty nor longer than the segment size, and exactly the elements it reports are alive.",
  ["histories", "inputs"], "All sequences of tagged insertions and erasures for every segment size.",
  SEQ_WHY, [I + "core/tag_array.hpp", I + "core/array_tree.hpp"], [("node split and merge by tag", I + "core/tag_array.hpp")], observe=["contents and tags"])
p("P15", "Tree containers keep structure, order and counts under every edit history",
  "Whatever nodes were added, inserted, erased, skipped or unskipped before, every traversal of a tree container (siblings, children, depth-first, reverse, and the traversal omitting skipped subtrees) visits exactly the nodes it should, in order and with their right parents and depth. The counts of nodes, children and visible nodes agree with what the traversals visit. Erasing a node removes it with all its descendants and nothing else.",
  ["histories"], "All histories of insertion, erasure and skipping at every place of trees of any shape.",
  "The Tree test builds one fixed tree.", [I + "core/segmented_tree.hpp"], [("node links, descendant and skip counts", I + "core/segmented_tree.hpp")], observe=["traversals and counts"])
p("P16", "The indexed list keeps positions, lengths and offsets consistent",
  "Whatever insertions, erasures and length updates were made before, each element of the indexed list is found at its position and its foreign index is the sum of the lengths (with the gaps given around them) of the elements before it. Looking an offset up returns the element whose span contains it, and the total always equals the sum over all elements.",
  ["histories", "inputs"], "All sequences of insertions, erasures, updates and lookups, at every position and with any lengths.",
  SEQ_WHY, [I + "core/indexitor.hpp", I + "core/index_array_tree.hpp"], [("order-statistics tree with size and foreign index sums", I + "core/index_array_tree.hpp")], observe=["positions, foreign indices, lookups"])
p("P17", "A jar gives each item its own cookie, valid until the item is removed",
  "Every item placed in a jar is reachable through the cookie it was given, and through no other, until it is removed, however many other items are added or removed in between; a cookie of a removed item is refused until it is legitimately issued again. No two items held at the same time share a cookie, and iteration visits exactly the items held. An item managed by counted cookies is removed exactly when its last counted cookie is gone.",
  ["histories"], "All histories of adding, emplacing, looking up, removing and iterating items and of copying and dropping counted cookies.",
  SEQ_WHY, [I + "core/jar.hpp", I + "core/i_jar.hpp"], [("cookie allocation and reuse", I + "core/jar.hpp"), ("reverse indices", I + "core/jar.hpp")], observe=["lookups, iteration, cookies"])
p("P18", "Small-buffer vectors behave as plain vectors across the buffer boundary",
  "A vector with an in-place buffer shows exactly the sequence its edits produce whether its contents are in the buffer or on the heap and however often they moved between them. Copies and moves between such vectors never share storage, its capacity is at least its size, and a vector with a maximum capacity refuses growth beyond it without changing its contents. Exactly the elements it reports are alive.",
  ["histories", "inputs"], "All edit histories crossing the buffer size in either direction, with copies, moves and assignments between objects.",
  "Only straight-line pushes are tested.", [I + "core/static_vector.hpp", I + "core/vecarray.hpp", I + "core/small_buffer_allocator.hpp", I + "core/polymorphic_vecarray.hpp"], [("buffer hand-out and return", I + "core/small_buffer_allocator.hpp")], observe=["contents, storage overlap, live element count"])
p("P19", "Polymorphic containers behave as the standard containers they stand for",
  "Used through their own type or through their abstract interface, the polymorphic vector, list, deque, string, set, map, unordered map and their multi variants (and the quick string, whether it owns its text or only refers to one) show exactly the contents and results the same operations have on the standard container they stand for. Lookups, insertions, erasures and iterators obtained through the interface refer to the right element, and assignment between containers through the interface copies the contents.",
  ["histories", "inputs"], "All operation histories on two containers of each kind, through the concrete and the abstract interface.",
  SEQ_WHY, [I + "core/vector.hpp", I + "core/list.hpp", I + "core/deque.hpp", I + "core/set.hpp", I + "core/map.hpp", I + "core/unordered_map.hpp", I + "core/string.hpp", I + "core/i_string.hpp", I + "core/quick_string.hpp", I + "core/container_iterator.hpp", I + "core/generic_iterator.hpp", I + "core/i_iterator.hpp"], [("abstract iterators and do_* virtuals", I + "core/container_iterator.hpp")], observe=["contents and results"])
p("P20", "Pool allocators never hand out memory that is in use",
  "Every block a pool, reserve or small-buffer allocator hands out is properly sized and aligned, does not overlap any other block in use, and keeps its contents until it is given back. Blocks given back become available again without growing the pool, and a fixed reserve refuses requests beyond its capacity and recovers when blocks are returned.",
  ["histories"], "All histories of allocation and deallocation, in any order and for any element size.",
  "No test covers the allocators.", [I + "core/allocator.hpp", I + "core/small_buffer_allocator.hpp"], [("free list threading and chunk growth", I + "core/allocator.hpp")], observe=["addresses handed out"])
with open(os.path.join(V, "tools", "props2.py")) as f:
    exec(f.read())

LEVEL_NOTE = {}
with open(os.path.join(V, "tools", "notes.py")) as f:
    exec(f.read())

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "checks"))
import registry
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
checks = []
for x in P:
    i = x["id"]
    if i in registry.CHECKS:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": TECH.get(i, TECH["default"]), "level": "model_checking", "level_note": LEVEL_NOTE.get(i, LEVEL_NOTE["default"])})
na = [{"property": x["id"], "reason": NA.get(x["id"], "check not built yet")} for x in P if x["id"] not in registry.CHECKS]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "NEOLIB_VERIF_HOOKS", "enable": "no hooks were needed: the harnesses observe the public interface and interpose on system calls; the guard is unused", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print("claimed", [c["property"] for c in checks], "not claimed", [n["property"] for n in na])

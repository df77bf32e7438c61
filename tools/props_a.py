# Properties of the concurrent parts and of the containers and vocabulary types (C01..C20, C36).
from props_b import P
S = "include/gul14/"
TP = ["src/ThreadPool.cc", S+"ThreadPool.h"]
CONC = "TLA+ trace validation (TLC) of executions of the real code under a deterministic scheduler (systematic and random schedules); TLC model checking of the design incl. refinement"
CNOTE = "Recorded executions of the real, unmodified pool (instrumented build under a controlled scheduler with virtual time and a happens-before race detector) are validated by TLC against the TLA+ specification; a TLA+ model of the implementation's algorithm is model-checked exhaustively for small configurations and shown to refine that specification. Unexplored schedules of the real code and weak-memory effects are not covered. Trusts TLC and the scheduler."
M = lambda *a: [(x, "src/ThreadPool.cc" if x[0].islower() or "ThreadPool" in x else S+"ThreadPool.h") for x in a]
PROPS = [
P("C01", "Every accepted task runs exactly once and delivers its result to the handle",
  "Whatever the number of worker threads, callers and their interleaving, each task accepted by the thread pool is executed at most once, and exactly once if it is neither canceled nor still pending when the pool is destroyed; no call, task or worker gets stuck as long as task functions return, also if objects owned by a task function use or own the pool when they are destroyed. The value it returns or the exception it throws is delivered by the handle's get_result() exactly once, after the function has ended; a task that throws disturbs neither its worker nor other tasks.",
  ["schedules", "histories"], "all interleavings of callers and workers, task bodies that add or cancel tasks, throw or block, spurious wakeups", "The tests run few schedules of the operating system's choice and cannot force the narrow windows between queue, condition variable and future.",
  TP, M("add_task", "perform_work", "TaskHandle::get_result"), CONC, CNOTE),
P("C02", "Tasks start in the order in which they were added, as far as start times allow",
  "Whenever a worker picks a task, it takes, of those whose start time has been reached, the one that was added first; tasks with a later start time never block ones that are due. Canceling tasks does not change the order of the others.",
  ["schedules", "histories"], "all interleavings, queue contents, start times and cancellations", "Order is only observable under specific schedules with several due and not-yet-due tasks in the queue.",
  TP, M("get_next_due_task / perform_work", "cancel_pending_task"), CONC, CNOTE),
P("C03", "No task starts before its time, and a due task starts once a worker is idle",
  "A task with a start time or delay is never started before that time. As soon as the time has come and a worker thread is not executing anything, the task is started without needing any further call to the pool, regardless of which other tasks were added, canceled or started in the meantime and of spurious wakeups.",
  ["schedules", "histories"], "all interleavings of adding tasks, waiting workers and the passing of time", "A lost or misdirected wakeup needs a particular order of waits, notifications and timeouts that wall-clock tests hit only by luck.",
  TP, M("perform_work", "add_task"), CONC, CNOTE),
P("C04", "A task is refused exactly if the queue is full; limits are enforced",
  "add_task() throws std::runtime_error if and only if the number of pending tasks equals the capacity at that moment (canceled and started tasks free their place), and a refused task is never executed and leaves no trace. Pools can be created for 1..max_threads threads and capacities 1..max_capacity and report exactly these values; other arguments throw std::invalid_argument, and a thread that cannot be started makes the constructor throw std::system_error after ending the ones already running.",
  ["schedules", "configurations", "fault_sequences"], "all interleavings, capacities, thread counts and points at which thread creation fails", "Tests fill one small queue from a single thread and never fail thread creation.",
  TP, M("add_task", "ThreadPool::ThreadPool", "is_full"), CONC, CNOTE),
P("C05", "Cancel succeeds exactly if the task is still pending, and then it never runs",
  "TaskHandle::cancel() returns true if and only if it removed a task that had not been started; such a task is never executed afterwards. Otherwise it has no effect at all: the task runs to its end and its result stays available. cancel_pending_tasks() removes all tasks pending at one moment, returns their number, and does not affect running ones; getting the result of a canceled task fails instead of blocking.",
  ["schedules", "histories"], "all interleavings of cancellation with starting, finishing, adding and destroying", "The race between a worker picking a task and a caller canceling it cannot be forced by a test.",
  TP, M("cancel_pending_task", "cancel_pending_tasks", "TaskHandle::cancel"), CONC, CNOTE),
P("C06", "Reported states, counts and names are consistent with one moment of the call",
  "get_state(), is_complete(), count_pending(), is_full(), is_idle(), is_shutdown_requested(), get_pending_task_names() and get_running_task_names() each return a value that was true at some moment between call and return, according to one history in which every task goes from pending to running to complete or from pending to canceled and never back. In particular a canceled task is never reported as complete, a complete one never as canceled, and the name lists contain exactly the pending tasks in queue order and the running ones.",
  ["schedules", "histories"], "all interleavings of observers with workers and callers", "Linearizability is a statement about all overlapping calls; tests look at quiescent states.",
  TP, M("get_task_state", "get_running_task_names", "TaskHandle::get_state", "is_idle"), CONC, CNOTE),
P("C07", "Destroying the pool ends it cleanly from any state",
  "When the last reference to a pool is given up, by a caller, by a task or through a call in progress on a handle, running tasks finish, pending ones are discarded without being executed, their handles stop waiting and report an error or the canceled state, and all threads end. A destructor running on a caller's thread returns only after that; nothing deadlocks, terminates the process, leaks a thread or touches freed memory, and handles may be used and dropped afterwards.",
  ["schedules", "histories"], "all interleavings of destruction with running, waiting, adding, canceling and observing", "Needs destruction at specific points of other calls and of the workers' wait.",
  TP, M("ThreadPool::~ThreadPool", "request_shutdown / perform_work", "TaskHandle (weak reference)"), CONC, CNOTE),
P("C08", "A trigger wakes every waiter, never too early, and is level-triggered",
  "wait() returns only when the trigger is set, or will be as the last act of its destructor; setting it releases all waiting threads and lets later waits pass as long as it is not reset again. wait_for()/wait_until() return whether the trigger was set in the last moment they looked, before the end of the time as soon as it is, and false only after the full time has passed; conversions to bool show the current state. Destroying a trigger first releases all waiters and never touches it afterwards; spurious wakeups are never visible.",
  ["schedules", "histories"], "all interleavings of set, reset, wait, timed wait, test and destruction by several threads", "Lost wakeups and use after destruction need specific interleavings.",
  ["src/Trigger.cc", S+"Trigger.h"], [("trigger, reset, wait, wait_for, wait_until, ~Trigger", "src/Trigger.cc")], CONC, CNOTE),
P("C09", "Workers run one task each, up to the thread count, and without data races",
  "At no time are more tasks in execution than the pool has threads, and each task runs on one worker thread from begin to end with asynchronous signals handled as the pool promises to its tasks. No interleaving of public calls with each other and with the workers contains a data race, a use of freed memory or a misuse of a synchronisation object.",
  ["schedules"], "all interleavings of public calls and workers", "Data races and over-subscription are invisible to functional tests.",
  TP, M("perform_work", "get_running_task_names"), CONC, CNOTE),
P("C36", "sleep lasts at least the requested time and a trigger interrupts it",
  "sleep() with any duration type and sleep with a Trigger never return before the requested time has passed unless the trigger is set, and return (true/false as documented: false if interrupted) without waiting any longer than until the trigger is set or the time is over. Zero and negative durations return at once; tic()/toc() give the time that has passed in between.",
  ["schedules", "inputs"], "all durations, units and interleavings of sleeper and triggering thread, spurious wakeups", "Wall-clock tests with tolerances cannot see a wakeup that is early by a rounding step or late by a lost notification.",
  [S+"time_util.h", "src/time_util.cc", S+"Trigger.h"], [("sleep, tic, toc", S+"time_util.h")], CONC, CNOTE),
]
HIST = "TLA+ trace validation (TLC) of histories of operations recorded from the real code (ASan/UBSan build, tracked elements, injected faults)"
HNOTE = "Each recorded history of operations on the real containers is validated event by event by TLC against a TLA+ state machine. Histories are all short operation scripts and all operations in all fill states of small instantiations plus seeded longer ones, so the claim holds for everything explored. Trusts TLC, the recorder and the sanitizers."
SB = [S+"SlidingBuffer.h"]
SV = [S+"SmallVector.h"]
PROPS[9:9] = [
P("C10", "A sliding buffer always holds the most recently pushed elements in order",
  "After every history of operations on a SlidingBuffer or SlidingBufferExposed, the buffer holds the elements of the equivalent bounded double-ended queue in the same order: pushing (by copy or move) at one end of a full buffer drops exactly the element at the other end, pop removes exactly the outermost one, clear all of them. size(), empty(), filled(), capacity(), front(), back(), operator[] and at() agree with that; at() throws std::out_of_range exactly for indices beyond the last element. Copies are equal and independent; moving hands over the contents and leaves an empty buffer.",
  ["histories"], "all sequences of operations on buffers of every capacity (fixed and resizable) in every fill state and rotation", "The tests walk through a few fixed scripts; wrap-around of the internal indices depends on the whole history.",
  SB, [("push_front/push_back/pop_*/at/clear", S+"SlidingBuffer.h")], HIST, HNOTE),
P("C11", "Resizing a sliding buffer keeps order and as many elements as fit",
  "resize() changes the capacity to exactly the given value; growing it (or shrinking it down to the number of elements at least) keeps all elements in order, shrinking it further drops the elements at the front or at the back as requested (by default the front ones are kept) and no others. Afterwards the buffer behaves like any other of that capacity and content, whatever happened before.",
  ["histories"], "all histories, fill states, rotations, old and new capacities and both shrink behaviours", "Only a few combinations of rotation, fill state and new size are tested.",
  SB, [("resize / resize_front_to_back", S+"SlidingBuffer.h")], HIST, HNOTE),
P("C12", "Sliding buffer iterators visit each element once, in order, in both directions",
  "In every state of the buffer, begin()..end(), rbegin()..rend() and their constant variants visit each element exactly once in front-to-back or back-to-front order; iterator arithmetic, differences, comparisons and dereferencing obey the rules of random-access iterators, writing through a non-constant iterator changes exactly that element, and standard algorithms can be applied. The Exposed variant's iterators run over the underlying storage and visit every element as long as the buffer has been filled from one end only.",
  ["histories"], "all histories, fill states and rotations, all pairs of iterators and offsets", "Iterators are tested in few states without wrap-around.",
  SB, [("SlidingBufferIterator", S+"SlidingBuffer.h")], HIST, HNOTE),
P("C13", "SmallVector behaves as the standard sequence for every history of operations",
  "After every history of operations (push, emplace, insert of one/many/a range, erase, pop, clear, resize, assign, reserve, shrink_to_fit, element access), a SmallVector holds exactly the elements the equivalent std::vector would hold, in the same order, and all functions return what they should (iterators to the first inserted element or behind the erased ones; at() throws std::out_of_range exactly for invalid indices). Forward and reverse iteration, front, back, size, empty and data agree. capacity() is never less than size() nor than the inner capacity, elements are stored inside the object exactly if the capacity is the inner capacity, storage is neither moved nor allocated while the capacity suffices, and shrink_to_fit() goes back to the inner storage when possible.",
  ["histories"], "all sequences of operations for element types with and without copy, move and over-alignment, for all inner capacities", "The transitions between inner and outer storage at each position and fill state are far more than the tests sample.",
  SV, [("insert / make_space / erase / reserve / resize", S+"SmallVector.h")], HIST, HNOTE),
P("C14", "SmallVector constructs and destroys every element exactly once, even on errors",
  "Whatever operations are executed on SmallVectors and whichever copy, move, assignment or allocation throws, every element object is constructed exactly once in suitably aligned storage, is only used while it lives and is destroyed exactly once; no memory leaks. A vector remains valid after an exception and the exception is passed on; if push_back(), emplace_back(), reserve(), resize() or shrink_to_fit() fails, and moving elements does not throw, its contents are unchanged, and a failed copy leaves the source unchanged. (Copying a vector whose elements are copied without exceptions is declared noexcept, so that a failing allocation ends the program there.)",
  ["histories", "fault_sequences"], "all histories and all points at which an operation of the element type or an allocation fails", "Tests never inject failures and do not track the lifetimes of elements.",
  SV, [("move_or_copy_all_elements_from / copy_or_move_backward / resize", S+"SmallVector.h")], HIST, HNOTE),
P("C15", "Copying, moving, swapping and comparing SmallVectors respects value semantics",
  "Copies are equal to the source and independent of it; moving hands over the elements, with outer storage being passed on as it is and without allocating, and leaves an empty vector; swap exchanges the contents. Self-assignment and self-swap leave the contents alone, operations may be given references to elements of the vector itself as arguments, and two vectors compare equal exactly if they have the same elements in the same order.",
  ["histories"], "all pairs of vectors in every combination of inner and outer storage, all element types", "Combinations of storage kinds of the two vectors and self-references are hardly tested.",
  SV, [("operator= / move_or_copy... / swap / operator==", S+"SmallVector.h")], HIST, HNOTE),
P("C16", "An optional is empty or holds exactly one value, even after failures",
  "optional<T> holds a value exactly if the last operation gave it one; every accessor then yields that value, and value() throws bad_optional_access otherwise. Emplacing, assigning, copying, moving, swapping and resetting construct and destroy every contained object exactly once, also if an operation of T throws, after which the optional is still usable: a failed emplace leaves it empty, a failed assignment or construction leaves the state engaged or empty as it was. Moved-from optionals stay engaged. Comparisons (with optionals, nullopt and values, in both directions) agree with the order in which empty is less than every value, equal optionals hash equally, and optional references (to const or not, whatever operator& means) refer to the very object given, never to a temporary, rebind on assignment and write through on access.",
  ["histories", "fault_sequences"], "all histories of operations on two optionals, all element types, all points of failure", "Tests use single operations on well-behaved types and never let T throw or track lifetimes.",
  [S+"optional.h"], [("optional", S+"optional.h"), ("optional<T&>", S+"optional.h")], HIST, HNOTE),
P("C17", "An expected holds either a value or an error and chains operations accordingly",
  "At any time, an expected<T, E> holds exactly one of a value and an error, and has_value(), the accessors, value() (throwing bad_expected_access with the error) and error() agree on which and on what. Construction, conversion, assignment, emplace and swap give the new state or, if copying or moving T or E throws (at least one of them being nothrow-movable), leave the object with what it had before, constructing and destroying every object exactly once. and_then, map/transform, map_error/transform_error and or_else call the function exactly once if and only if it applies and pass on the other alternative unchanged; value_or falls back only in case of an error. Comparisons with expecteds, values and errors are equal exactly if the same alternative holds an equal object, != being the opposite.",
  ["histories", "fault_sequences"], "all histories of operations on two expecteds, including void values, all types, all points of failure", "Tests use single operations, few state combinations and never let copies or moves fail.",
  [S+"expected.h"], [("expected", S+"expected.h"), ("unexpected", S+"expected.h")], HIST, HNOTE),
P("C18", "A variant holds exactly the alternative last put into it",
  "A variant holds exactly one alternative, the one last constructed, assigned or emplaced, selected by index or type, or none if and only if changing the alternative failed with an exception; a value of another type goes to the alternative that overload resolution without narrowing selects; index(), valueless_by_exception(), holds_alternative, get, get_if and visit (of one or several variants, of any number of alternatives) agree on which and give access to exactly this object, and get or visit throw bad_variant_access otherwise. Assigning a value whose construction fails leaves the old one in place where a nothrow move makes that possible. Copy, move and swap transfer alternative and value, every object is constructed and destroyed exactly once even if operations throw, comparisons follow (valueless, index, value) lexicographically, and equal variants hash equally.",
  ["histories", "fault_sequences", "inputs"], "all histories of operations on two variants, all sets of alternatives, all points of failure", "Tests use few alternatives, rarely valueless states, and never let operations of the alternatives fail.",
  [S+"variant.h"], [("variant", S+"variant.h"), ("visit", S+"variant.h"), ("get / get_if", S+"variant.h")], HIST, HNOTE),
P("C19", "A final action runs exactly once, when the guard owning it goes away",
  "The action given to finally() or FinalAction runs exactly once, when the guard that owns it is destroyed, be it by leaving the scope normally, by return or by an exception (before it is handled, innermost scope first), and never earlier. Moving a guard hands the action over: the moved-from guard never runs it; move-assigning drops the action of the target, and self-move-assignment changes nothing. A callable passed as an lvalue is copied and stays usable.",
  ["histories"], "all sequences of creating, moving, overwriting and destroying guards, all kinds of callables", "Tests cover single moves of one kind of callable.",
  [S+"finalizer.h"], [("FinalAction", S+"finalizer.h"), ("finally", S+"finalizer.h")], HIST, HNOTE),
P("C20", "A span accesses exactly the elements of its window, however obtained",
  "A span made from a pointer and a size, two pointers, an array or a container, and every span derived from it by first, last, subspan (with run-time or compile-time arguments), conversion or copying denotes exactly the documented elements: size, emptiness, size in bytes, indexing, front, back, data, iteration in both directions, get<N> and the byte views agree on them, reading yields and writing changes precisely the elements of the underlying array. Comparisons are lexicographical over the elements, and compile-time extents equal run-time sizes.",
  ["inputs", "histories"], "all windows, all chains of narrowing operations, fixed and dynamic extents, all element types", "Tests check some windows of a small array.",
  [S+"span.h"], [("span", S+"span.h"), ("as_bytes / as_writable_bytes", S+"span.h")], HIST, HNOTE),
]

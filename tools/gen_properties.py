#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so wording stays consistent)."""
import json, os, sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
I="include/librf/src/"
CH=[I+"channel_v2.h",I+"channel_v2.inl",I+"ring_queue.h",I+"intrusive_link_queue.h"]
p("C01","Channel delivers every value exactly once, in FIFO order",
 "Whatever values coroutines write to a channel, and however reads and writes are interleaved, every value that was written is received exactly once, unchanged, and values are received in the order they were accepted by the channel. This holds for every capacity including zero, for a channel whose internal buffer is allocated up front or grows on demand, and for value types that are move-only or own resources.",
 ["inputs","histories","configurations"],"all values, all capacities, all orders in which readers and writers arrive",
 "The tutorial programs push one fixed pattern through one or two capacities and only print; order, duplication and loss are never checked and most arrival orders never occur.",
 CH,[("try_read/try_write/add_read_list/add_write_list hand-over between buffer, readers and writers",I+"channel_v2.inl"),("bounded ring buffer",I+"ring_queue.h")],
 ["values returned by co_await of a read"])
p("C02","Channel blocks and wakes exactly when its capacity says so",
 "A write to a channel completes at once exactly while fewer values than its capacity are buffered or a reader is already waiting, and a read completes at once exactly when a value is buffered or a writer is waiting; otherwise the operation suspends. A suspended reader or writer is resumed, in arrival order, as soon as a matching operation makes it possible, so at quiescence a reader and a writer (or a buffered value and a waiting reader) are never both left waiting.",
 ["inputs","histories","configurations"],"all capacities (0..bound), all sequences of read/write starts",
 "A lost wake-up shows as a hang only in the one history that triggers it; the tests run one producer/consumer pattern and never count who is suspended.",
 CH,[("capacity check and waiter queues",I+"channel_v2.inl")],["which operations have completed after the scheduler went idle","channel_t::empty/size/capacity"])
p("C03","Channel operations from several threads lose and duplicate nothing",
 "When coroutines running on schedulers of different threads read and write one channel concurrently, every accepted value is delivered to exactly one reader, values of one writer are never reordered, no operation stays suspended while its counterpart is suspended too, and nothing crashes or deadlocks. This holds for every interleaving of the threads.",
 ["schedules"],"all interleavings (sequentially consistent, bounded preemptions) of 2-3 threads with a few operations each",
 "test_async_channel_mult_thread runs one uncontrolled schedule; a window between checking the buffer and registering a waiter is a few instructions wide.",
 CH+[I+"spinlock.h",I+"scheduler.h"],[("channel lock held across check and registration",I+"channel_v2.inl"),("cross-thread resume through scheduler queue","source/scheduler.cpp")])
p("C05","Event signals are counted, wake waiters in order, and are never lost",
 "Each signal of an event releases exactly one wait: the longest-waiting pending waiter if there is one, otherwise one later wait, which then does not suspend. Signalling all releases every waiter pending at that moment (and each exactly once), resetting discards unconsumed signals, and an event created signalled lets exactly that many waits through.",
 ["inputs","histories"],"all sequences of wait, signal, signal_all, reset of bounded length, any initial state",
 "The event tutorials signal once or twice in a fixed order and print; counts and order are never compared.",
 [I+"event_v2.h",I+"event_v2.inl","source/event_v2.cpp"],[("signal counter and waiter queue under one lock","source/event_v2.cpp")],["return of co_await event","completion order"])
p("C06","A timed event wait ends exactly once, never early, and steals no signal",
 "A wait on an event with a time limit returns true exactly once if a signal reached it before its deadline was processed, and false exactly once otherwise, never before the deadline. A wait that timed out consumes no signal: a signal given afterwards goes to the next live waiter or stays available.",
 ["inputs","histories"],"all durations, all non-decreasing clock readings, all positions of the signals relative to the deadline",
 "Tests use real sleeps with wide margins; a signal and a timeout falling in the same scheduler round, or a signal arriving while a dead waiter is still queued, is never produced.",
 [I+"event_v2.h",I+"event_v2.inl","source/event_v2.cpp","source/timer.cpp"],[("atomic single-winner hand-over between notify and timeout","source/event_v2.cpp"),("timer deadline","source/timer.cpp")],["value of co_await event.wait_for/wait_until"])
p("C07","Waiting for all of several events completes exactly when all were signalled",
 "Waiting for all of a set of events returns true once, after every event of the set has been signalled, and consumes exactly one signal of each; with a time limit it returns false once, not before the deadline, if at that time some event has not been signalled. An empty set completes at once, and afterwards the events remain usable by other waiters.",
 ["inputs","histories"],"all orders and multiplicities of signals over up to 3 events, signals before or after the wait starts, all deadlines",
 "The tutorial runs one order of four events.",
 [I+"event_v2.h",I+"event_v2.inl","source/event_v2.cpp"],[("per-wait countdown","source/event_v2.cpp")],["value of co_await event_t::wait_all/_for/_until"])
p("C08","Coroutine mutex gives exclusive, re-entrant, FIFO ownership",
 "At most one owner holds a mutex at any time; the same owner may lock it again and it becomes free only after as many unlocks, an unlock by anyone else changes nothing, and when the owner releases it the longest-waiting live waiter becomes the owner. A coroutine tree awaiting through nested coroutines counts as one owner.",
 ["histories","inputs"],"all histories of lock, try_lock, unlock by up to 3 owners of bounded length",
 "Tutorials run two or three coroutines with sleeps and print.",
 [I+"mutex_v2.h",I+"mutex_v2.inl","source/mutex_v2.cpp"],[("owner, re-entrancy counter, wait list","source/mutex_v2.cpp")],["result of lock/try_lock/unlock/is_locked"])
p("C09","A timed mutex lock is granted or times out exactly once, never both",
 "A lock attempt with a time limit either becomes owner before the deadline was processed or reports failure, not before the deadline, and never both. A waiter that timed out never becomes the owner: the next live waiter does, and the mutex is free when none is left. Try-lock never suspends and succeeds exactly when the mutex is free or already owned by the same owner.",
 ["inputs","histories"],"all durations and clock readings, all orders of unlock and timeout, waiters finished or destroyed after timing out",
 "Needs an unlock to meet a waiter that already gave up; no test lets a timed lock expire while contended and then unlocks.",
 [I+"mutex_v2.h",I+"mutex_v2.inl","source/mutex_v2.cpp"],[("single-winner between notify and timeout","source/mutex_v2.cpp")],["result of try_lock_for/until","is_locked"])
p("C10","Locking several locks at once is all-or-nothing and cannot deadlock",
 "Acquiring a batch of locks returns only with every lock of the batch held exactly once, and the batch guard's end of life or explicit unlock releases each held lock exactly once, also after the guard was moved. While backing off it never blocks on one lock while holding another, releases exactly what it had acquired, and if acquiring a lock throws, every lock it had acquired is released and the exception propagates.",
 ["inputs","schedules","fault_sequences"],"all outcomes of every individual try-lock attempt, all batch sizes up to a bound, any attempt throwing, all lists and orders",
 "The outcomes of try_lock under contention are schedule-dependent; the tests observe a handful and check only a sum.",
 [I+"spinlock.h",I+"without_deadlock_assemble.inl",I+"mutex_v2.inl",I+"mutex_v2.h"],[("lock one then try the rest, back off and rotate",I+"without_deadlock_assemble.inl"),("guards",I+"spinlock.h")],["calls received by the individual locks"])
p("C11","The spin lock provides mutual exclusion between threads",
 "At most one thread is between a successful acquire and the matching release of a spin lock, try-acquire succeeds exactly when it is free, a waiting thread proceeds once it is released, and what was written inside the critical section is visible to the next owner.",
 ["schedules"],"all interleavings of 2-3 threads (sequentially consistent), bounded preemptions",
 "A test observes a few schedules of one machine.",
 [I+"spinlock.h"],[("compare-exchange acquire, release store",I+"spinlock.h")])
p("C12","Every timer fires exactly once, never early, in deadline order",
 "A timer's callback is invoked exactly once: not cancelled and not before its deadline, or cancelled if it was stopped beforehand, or cancelled when the manager is cleared or destroyed. Timers found due by one update run in deadline order, equal deadlines in the order they were armed, and a callback may add, stop or re-arm timers without disturbing others. Timers may be armed and stopped by other threads meanwhile: a stop reports success exactly when it is what cancelled the timer, and the callback then says so.",
 ["inputs","histories","schedules"],"all deadlines, all non-decreasing clock readings, all sequences of add/stop/clear/update of bounded length, callbacks that act on the manager",
 "Tests use a few fixed delays with a real clock and only print.",
 [I+"timer.h","source/timer.cpp"],[("added list, ordered running map, call_target_","source/timer.cpp")],["invocations of the callback and their cancel flag"])
p("C13","Sleeping resumes once, not early, and reports cancellation",
 "A coroutine that sleeps for or until a time resumes exactly once and not before that time as read from the clock, in deadline order with other sleepers, and a non-positive duration does not block it for ever. If its timers are cleared first it resumes with a cancellation exception instead.",
 ["inputs","histories"],"all durations (also zero and negative), all clock readings, cancellation at any point",
 "Tests sleep a few fixed durations.",
 [I+"sleep.h","source/sleep.cpp","source/timer.cpp"],[("timer callback resolves the awaited state","source/sleep.cpp")])
p("C14","A future or awaitable delivers its value or exception exactly once",
 "Whatever is set on an awaitable (value, reference, nothing, or exception), and whether it is set before, while or after someone starts awaiting it, the awaiter resumes exactly once and receives exactly that value, that very object for references, or that exception. A coroutine's returned value or escaped exception reaches its awaiter in the same way.",
 ["inputs","histories","fault_sequences"],"all values, all result kinds, set-before-await and set-after-await, nesting depth up to a bound",
 "Tests always set after a sleep and mostly values; the set-first order of each kind is not exercised.",
 [I+"state.h",I+"state.inl","source/state.cpp",I+"awaitable.h",I+"promise.h",I+"promise.inl",I+"future.h"],[("result flag plus handler registration under one lock",I+"state.inl")],["result of co_await"])
p("C15","Setting a result races safely with starting to wait for it",
 "When one thread sets the result of an awaitable while the coroutine of another thread starts awaiting it, the coroutine is resumed exactly once with that result in every interleaving: neither a lost wake-up, a double resume, nor an access to freed memory.",
 ["schedules"],"all interleavings of setter, awaiter and scheduler thread (SC, bounded preemptions)",
 "The window between the readiness test and the registration of the handler is a few instructions.",
 [I+"state.h",I+"state.inl","source/state.cpp","source/scheduler.cpp"],[("state lock, queue lock",I+"state.inl")])
p("C16","A generator yields exactly the body's values in order, then ends",
 "Iterating a generator whose body yields at least once produces exactly the values the body yields, in order, and then the value it returns as the last element, lazily (the body runs only as far as the consumer has advanced), and then compares equal to the end. Abandoning, moving or assigning over the generator at any point destroys the body's locals exactly once. Started on a scheduler it advances by one step per batch until its body ends.",
 ["inputs","histories"],"all yielded values and lengths up to a bound, abandonment, move and assignment at every position",
 "Tests iterate one or two fixed generators to the end and print.",
 [I+"generator.h","source/state.cpp"],[("promise current value, iterator increment, handle ownership",I+"generator.h"),("state_generator_t::resume","source/state.cpp")])
p("C17","Scheduler runs every started coroutine once per wake-up, in order, to the end",
 "Coroutines started on a scheduler are resumed in the order in which they became ready; one batch resumes exactly those ready when it began, work made ready meanwhile runs in the next batch, and a coroutine that yields lets all other ready ones run first. Running until no task is left returns only when every started coroutine has finished, does not wait for timers that were stopped, and afterwards the scheduler reports itself empty.",
 ["histories","programs","inputs"],"all programs of up to 3 coroutines with up to 3 yields/spawns/awaits each",
 "Order and completeness are never asserted by the tests.",
 [I+"scheduler.h","source/scheduler.cpp",I+"yield.h",I+"rf_task.h","source/rf_task.cpp"],[("double-buffered run queue, task table","source/scheduler.cpp")])
p("C18","Starting coroutines from several threads loses none",
 "Coroutines started on, or woken on, one scheduler by other threads while it is running are each resumed exactly as often as they were made ready, none is lost, and the scheduler neither finishes early nor crashes, in every interleaving.",
 ["schedules"],"all interleavings of a running scheduler thread and 1-2 submitting threads (SC, bounded preemptions)",
 "Only uncontrolled schedules are observed.",
 [I+"scheduler.h","source/scheduler.cpp"],[("ready and running locks","source/scheduler.cpp")])
p("C19","Switching scheduler moves the whole coroutine tree and nothing else",
 "After a coroutine awaits a switch to another scheduler, it and the coroutines awaiting it continue only when that scheduler runs, exactly once, and the old scheduler no longer counts its task; switching to the current scheduler does not suspend. The final result still reaches whoever awaits it, and both schedulers become empty when all is done.",
 ["histories","programs"],"all sequences of up to 3 switches among 2-3 schedulers at nesting depth 0..2",
 "One tutorial switches back and forth in one fixed pattern.",
 [I+"switch_scheduler.h","source/state.cpp","source/scheduler.cpp"],[("switch_scheduler_await_suspend, del_switch/add_switch","source/state.cpp")])
p("C20","A stop request happens once and runs each registered callback exactly once",
 "Of all stop requests on one source exactly the first reports success, every token of the source then reports it, and each callback registered before it runs exactly once, a callback registered after it runs immediately, and a callback destroyed before it never runs. Tokens without a source report that no stop is possible.",
 ["histories","inputs"],"all histories of bounded length over sources, tokens and callbacks (register, destroy, request, copy, drop), including callbacks that destroy themselves or others",
 "The stop tests create one callback and stop once.",
 [I+"stop_token.h",I+"current_scheduler.h",I+"rf_task.h"],[("packed state word and callback list",I+"stop_token.h")])
p("C21","Shared stop state lives exactly as long as something refers to it",
 "The shared state behind stop sources, tokens and callbacks stays valid as long as any of them exists and is freed exactly once when the last of them goes, whatever the order in which they are created, copied, moved, assigned and destroyed.",
 ["histories"],"all orders of creating, copying and destroying up to 3 sources/tokens/callbacks",
 "Destruction order in tests is always source last.",
 [I+"stop_token.h"],[("source and token reference counts packed in one word",I+"stop_token.h")])
p("C22","Stop requests race safely with registering and removing callbacks",
 "When threads concurrently request a stop and register or destroy callbacks, each callback registered and not destroyed runs exactly once, destroying a callback waits for its running invocation on another thread and nothing runs after its destruction, in every interleaving.",
 ["schedules"],"all interleavings of 2-3 threads with one or two operations each (SC, bounded preemptions)",
 "The race windows are a few instructions wide.",
 [I+"stop_token.h"],[("locked bit and executing-callback hand-shake",I+"stop_token.h")])
p("C23","Waiting for all or any coroutine reports exactly their results",
 "Waiting for all of a set of coroutines completes exactly once, after the last of them, with each result in its own position; waiting for any completes exactly once, with the index and result of the first that finished, and the others run on undisturbed. A coroutine that ends with an exception has finished as well: the first exception of those waited for (for any: that of the first that finished) is rethrown to the waiter. An empty set completes at once.",
 ["inputs","histories"],"all completion orders of up to 3 coroutines, all result values, void and non-void mixes, completion before or after the wait begins",
 "The only test of it is compiled out with this compiler.",
 [I+"when_v2.h","source/when_v2.cpp"],[("countdown and result tuple/vector",I+"when_v2.h")])
p("C24","No frame, state or callback is leaked, used after release, or freed twice",
 "In every history of the other properties that ends with the schedulers run to completion, all memory obtained for coroutines, shared states, queues, timers, channels, events and mutexes has been released exactly once, values held are destroyed exactly once, and no operation touches memory already released.",
 ["histories","inputs","fault_sequences"],"all bounded histories mixing coroutines, primitives and early destruction of handles",
 "test_memory_leak loops for ever by design and is not run; no test is run under a memory checker.",
 [I+"state.h","source/state.cpp",I+"counted_ptr.h",I+"promise.inl",I+"future.h",I+"awaitable.h"],[("intrusive reference counting and frame/state co-allocation","source/state.cpp"),("counted_ptr",I+"counted_ptr.h")])
p("C25","An exception thrown in a coroutine reaches its awaiter and nobody else",
 "An exception escaping a coroutine at any point is rethrown, with its type and content, from the co_await of the coroutine that awaits it, at any nesting depth, and every local of the frames it leaves is destroyed exactly once. Other coroutines on the same scheduler are unaffected.",
 ["fault_sequences","programs"],"a throw at every suspension position, nesting depth up to 3, caught at any level",
 "One tutorial throws at one place.",
 [I+"promise.h",I+"state.inl","source/state.cpp"],[("unhandled_exception stores into the shared state",I+"promise.h")])
p("C26","A bounded ring queue behaves as a FIFO of its capacity at any position",
 "A ring queue of any capacity accepts a push exactly while it holds fewer elements than its capacity, pops exactly when it is not empty, and returns elements in push order, at whatever internal positions its indices stand, with size, empty and full always consistent.",
 ["inputs","histories"],"all operation sequences up to a bound, capacities up to a bound, wrapped and unwrapped positions, all values",
 "The queue has no test of its own and the channel tests rarely wrap with varying fill.",
 [I+"ring_queue.h"],[("head/tail index arithmetic",I+"ring_queue.h")])
p("C27","The intrusive waiter list keeps order and content under any operations",
 "Pushing, popping, and erasing an arbitrary element of a waiter list leaves exactly the other elements, in order, with the reported size, and elements can be inserted again afterwards.",
 ["histories","inputs"],"all operation sequences up to a bound over up to 4 nodes",
 "No test of its own; erasing from the middle happens only on timeouts.",
 [I+"intrusive_link_queue.h"],[("prev/next links and counter",I+"intrusive_link_queue.h")])
p("C28","The current task, scheduler and root queried in a coroutine are its own",
 "Inside a coroutine the current scheduler, task and root refer to the coroutine's own scheduler and to the outermost coroutine that awaits it, at every nesting depth and after every suspension or switch. A stop requested for a task is observed by exactly that task.",
 ["programs","histories"],"all nestings up to depth 3 on 1-2 schedulers, before and after suspension",
 "Tests print addresses at most.",
 [I+"current_scheduler.h",I+"rf_task.h","source/state.cpp"],[("parent chain walk, task lookup","source/state.cpp")])
p("C29","A thread's scheduler binding is scoped and never disturbs another's",
 "Declaring a local scheduler in a thread that has none creates one, makes it the thread's current scheduler, and destroys and unbinds it when the declaration's life ends; in a thread that already has one the declaration changes nothing, neither at its start nor at its end. Declared with a given scheduler it binds that one if the thread has none. A scheduler destroyed on the thread it is bound to is unbound; a thread bound to none uses the global one. No thread's declaration changes another thread's current scheduler.",
 ["programs","schedules"],"all orders of declaring and ending up to 3 declarations of each kind, two threads",
 "Tests declare one per thread and do not check.",
 [I+"scheduler.h","source/scheduler.cpp"],[("thread-local scheduler pointer","source/scheduler.cpp")])
p("C30","Events and mutexes used from several threads lose no wake-up",
 "When threads concurrently wait on and signal an event, or lock and unlock a mutex, in coroutine or plain-thread style, every waiter entitled to wake is resumed exactly once on its own scheduler, mutual exclusion holds, and no interleaving deadlocks or touches freed memory.",
 ["schedules"],"all interleavings of 2-3 threads with one or two operations each (SC, bounded preemptions)",
 "Uncontrolled schedules only.",
 [I+"event_v2.inl","source/event_v2.cpp",I+"mutex_v2.inl","source/mutex_v2.cpp"],[("object lock across check and registration","source/event_v2.cpp")])
p("C31","Requesting all tasks to stop reaches each and cancels every timer",
 "Requesting all coroutines of a scheduler to stop makes every cancellable one observe the request, runs each stop callback exactly once, and cancels each pending timer exactly once; coroutines of other schedulers are unaffected, and afterwards the scheduler can still run to completion.",
 ["histories","inputs"],"all mixes of up to 3 tasks (cancellable or not), pending timers and callbacks",
 "The stop tutorial handles one fixed case.",
 [I+"scheduler.h","source/scheduler.cpp",I+"rf_task.h"],[("request_stop_all_if_possible","source/scheduler.cpp")])
p("C32","Suspended coroutines use only a few hundred bytes each",
 "A suspended coroutine with a small body costs a few hundred bytes of memory (under 1000, everything the library keeps for it included), whatever it waits on, and the memory held does not grow with the number of times coroutines have been suspended and resumed, so that millions can be kept at once and for ever.",
 ["histories"],"all mixes of up to 3 kinds of waiting coroutines and sequences of wake-ups",
 "The memory benchmark prints a number for one kind of coroutine.",[I+"promise.inl",I+"state.h","source/scheduler.cpp","benchmark/benchmark_async_mem.cpp"],[("single allocation for frame and state",I+"promise.inl")])
p("C33","Callbacks of an asynchronous I/O library can be awaited through the adapter",
 "An asynchronous operation of the I/O library started with the adapter token resumes the awaiting coroutine exactly once with the operation's results or its error.",
 ["histories","fault_sequences"],"all completion orders and errors",
 "No test uses the adapter.",["asio/asio_task.h","asio/asio_task_1.12.2.inl"],[("async_result specialisation","asio/asio_task.h")])
p("C34","An error says what happened",
 "An error the library raises carries the code of its cause and a message naming the kind of error and that code; both stay as they were raised however many other errors are raised, copied or carried through coroutines and threads, and building a message never writes outside its buffer, whatever the length of the name. A cancelled sleep, a result taken before it is there, and (in release builds) a lock operation that is not awaited raise the error documented for them and leave the object as it was.",
 ["inputs","histories","schedules"],"all kinds and codes, class names of any length up to a bound, up to 3 errors alive at once, two threads raising",
 "Tests print messages at most.",
 [I+"exception.inl","source/scheduler.cpp","source/sleep.cpp",I+"mutex_v2.inl"],[("get_error_string's thread-local buffer","source/scheduler.cpp")])
p("C35","Using the library from several threads is free of data races",
 "In the operations meant for several threads (setting a result others wait for, starting and waking coroutines on another thread's scheduler, channels, events, mutexes, spin locks, stop requests and callbacks, arming and stopping timers, when_all and when_any over coroutines of several schedulers), no two threads ever access the same memory without synchronisation, one of them writing: what was written before a hand-over is seen after it on every memory model.",
 ["schedules"],"all interleavings of 2-3 threads up to a preemption bound; happens-before of the C++ memory model, with the orders written in the code",
 "A missing or weakened synchronisation shows neither on x86 nor in tests that check results.",
 [I+"state.h",I+"spinlock.h",I+"stop_token.h",I+"timer.h",I+"when_v2.h","source/scheduler.cpp","source/timer.cpp"],[("locks and atomic orders around every shared field",I+"state.h")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))

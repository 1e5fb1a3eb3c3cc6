"""Per property: what is decided and how strongly, what lies outside, what is assumed."""
B = "All values of the symbolic inputs within the bounds, every feasible path, decided by z3. "
MT = "Interleavings are explored at instruction level at every atomic and shared access, up to the stated number of preemptions (context switches at blocking points are free), sequentially consistent; entries marked race also run a happens-before race detector over the memory orders actually written in the code. "
ASSUME = "The C++ model of libstdc++/pthread functions that exist only as binary (engine/support.cpp) is right; the compiler's coroutine lowering is part of the code under check; allocation never fails; the clock is virtual and chosen by the harness; sequentially consistent memory except where race detection is on."
N = {}
def P(pid, note, outside): N[pid] = (note, outside, ASSUME)
P("C01", B + "Programs of up to 9 channel operations (12 thorough), each symbolically a write of an unconstrained 32-bit value or a read, capacity 0-3, seven instantiations (int, pre-allocated optional buffer, std::mutex lock, resource-owning, grow-on-demand, move-only); writers x readers x operations 2x2x2, 3x2x1 and 1x1x4 (3x2x2 thorough) from running coroutines with yields; 9 values (20 thorough) through a wrapping buffer; relay over two channels; use outside a coroutine. Oracle: the k-th read receives the k-th write, unchanged, exactly once.",
  "More than 9 (12) operations per channel or capacities above 3; the compiled-out list/deque variants of the channel's wait queues; element types whose copy or move throws while an operation is under way.")
P("C02", B + "The same programs as C01; oracle in closed form: write w is complete at once iff w < reads issued + capacity, read r iff r < writes issued, and completion order is arrival order; checked after every operation and at quiescence.",
  "As for C01.")
P("C03", MT + "Two and three threads with a scheduler each, up to 2 writes and 3 reads per thread on one channel of capacity 0-2, 2-3 preemptions (5 in the thorough tier), symbolic values, spin-lock and std::mutex variants.",
  "More preemptions, threads or operations; weak-memory reorderings (the lock that protects the channel is checked for races under C11).")
P("C05", B + "Up to 7 symbolic operations (wait, signal, signal_all, reset; thorough 9) on one event, settled after each or lazily (5 operations, thorough 6, when the scheduler is run at arbitrary moments); waiters on two schedulers; handles dropped before, while and after waiting; event objects destroyed under suspended waiters. Oracle: a counter and a queue of waiters.",
  "Event::wait_any (marked flawed by its author and left out of the property); more than 7 (9) operations.")
P("C06", B + "Up to 4 operations (thorough 6) on one event (timed wait with a signed symbolic limit in +-2^52 ns (52 days), plain wait, signal, clock advance by a symbolic amount, with the scheduler run before or after); three timed waiters released by signal_all, reset or time-out. Oracle: queue of waiters with deadlines.",
  "Limits near the ends of the clock's range (overflow), more than 4 (6) operations in the symbolic programs.")
P("C07", B + "wait_all over 0-3 events each with 0-2 signals pending, then up to 4 further symbolic signals/clock advances (thorough 5); with a symbolic limit (3 operations, thorough 4); two wait_alls sharing events. Range and container overloads.",
  "More than 3 events per wait; the same event given twice (a set has no duplicates: the wait would lock it twice); wait_any, which the sources mark as flawed.")
P("C08", B + "5 symbolic operations (thorough 6; lock, unlock, try-lock, guard variants, nested await) by 2 coroutines and a plain owner on one mutex; 3 coroutines on two schedulers with symbolic hold time, re-entry depth and style. Oracle: owner, count, FIFO queue.",
  "A mutex object destroyed while waited on by reference; more than 3 contenders.")
P("C09", B + "4 symbolic operations (thorough 5) on one mutex (timed lock with signed symbolic limit in +-2^52 ns (52 days), plain lock, release, clock advance before or after the scheduler runs); thread-style try_lock/try_lock_for/try_lock_until with a symbolic advancing clock.",
  "Limits near the ends of the clock's range.")
P("C10", B + "batch_lock_t over up to 5 mock locks (thorough 6) whose outcomes are symbolic (each try may fail, up to 4 failures in all; 4 locks when any call may throw), every end of the guard (destruction, unlock, move, move assignment); batch guards over coroutine mutexes with two competing coroutines and 2-3 mutexes; plain-thread batches; the back-off's random numbers are symbolic at first (4 draws), then pseudo-random.",
  "Livelock freedom under a scheduler that is unfair for ever; more than 5 (6) locks.")
P("C11", MT + "Two threads x 1-2 rounds with 2-5 preemptions, three threads x 1 round with 4 preemptions, data in the critical section checked by the race detector; try-lock programs of 8 operations; a single waiter driven through all back-off phases (busy, yield, sleep) with the holder releasing or re-taking at a chosen step.",
  "More than 3 threads; the number of busy iterations is as compiled; fairness is not claimed.")
P("C12", B + "Up to 5 symbolic operations (thorough 6; arm with signed symbolic limit, stop, update after a symbolic clock advance, clear) with handles kept or dropped; 3 (thorough 4) when callbacks arm, stop, re-arm or clear; 4 timers (thorough 5) armed in two groups; clock moving between reads and set forwards and backwards between updates; manager destroyed in between. " + MT + "One or two timers stopped (once or twice), armed or outlived by another thread while their owner updates, clears or destroys the manager, 2-4 preemptions (6 thorough).",
  "Durations beyond 2^52 ns, and symbolic durations that are not multiples of 2^40 ns above 4096 ns, where 4 timers are used; callbacks that throw (the timers handled in the same update after it are lost; the documentation gives callbacks no way to fail).")
P("C13", B + "Up to 3 sleepers (5 in the order entry) with signed symbolic durations, sleep_for/sleep_until/operators in all styles, symbolic clock advance, cancellation by clearing the timers, repeated sleeping in a loop.",
  "Durations beyond 2^52 ns and overflow of the clock; durations of fine and coarse scale in the same program.")
P("C14", B + "One awaitable of int, void, int&, resource-owning or move-only type, set (value or exception, symbolic) before, between or after starting to await, by the harness or another coroutine, directly or through nested coroutines; coroutine results by return or exception at each suspension point; up to 3 awaitables (thorough 4) set in any order; awaiting tasks already started; futures started as tasks before or after their result is set; results whose construction, copy or move throws while stored or handed over.",
  "Two awaiters on one future; one awaitable's future both started as a task and awaited; awaiting the future of an awaitable that was dropped unset.")
P("C15", MT + "One thread sets (value or exception) while the other starts to await, int/void/reference/resource-owning, with and without nesting, 3-4 preemptions (5-6 thorough); ping-pong of two awaitables; several awaitables; setter dropping its handle; the future started as a task while another thread sets the result.",
  "Weak-memory reorderings; more preemptions.")
P("C16", B + "Generators of up to 6 yields of int, resource-owning, move-only values and temporaries: iteration in four styles, abandoned at a symbolic point, moved, swapped and assigned over; two generators interleaved (11 steps); generators started on a scheduler together with coroutines.",
  "An exception escaping a generator body terminates by design; a body that yields nothing but returns a value.")
P("C17", B + "Programs of 6 symbolic actions (thorough 7) by up to 3 coroutines (yield, await, spawn, set, finish) against a FIFO model of the run queue, batch by batch; run_until_notask with sleepers, waiters, wake-ups from another thread, timers whose callbacks add timers or start coroutines, and timers and time limits stopped long before they are due; co_yield; coroutines with captures whose destructors start coroutines; coroutines and timer callbacks that run batches of their own scheduler from inside.",
  "More than 3 coroutines at once in the symbolic programs (up to 2060 in one concrete program).")
P("C18", MT + "One scheduler running while 1-2 threads start or wake 1-2 coroutines on it, query emptiness, or run it to completion; 2-3 preemptions (4-5 thorough), bounded fairness for the polling loop.",
  "More preemptions.")
P("C19", B + "Trees of 2-3 nested coroutines (also two trees) that switch between three schedulers at symbolic points, 4-6 symbolic steps including which scheduler runs next; results and task counts; after a switch, fourteen kinds of waiting (channel, mutex, event, all with time limits, when_all/any, sleep, yield) that must resume on the scheduler switched to. " + MT + "One or two trees moving between the schedulers of two threads, with results, exceptions, yields and switches to the same scheduler: 2 preemptions (4 thorough).",
  "More than two threads; a tree that is switched while it is being run (only the tree itself switches).")
P("C20", B + "Up to 7 symbolic operations (9 thorough) over 3 sources, 3 tokens and 2-3 callbacks: create, copy, move, assign, destroy, request; callbacks that destroy, register or request from inside; stop functor given by make_stop_callback; tasks' own stop sources. Oracle: numbered shared states with reference counts.",
  "Callbacks that throw (noexcept by contract); a callback that destroys every object that refers to the state while others still run.")
P("C21", N["C20"][0].replace(B, B + "Same programs as C20, with every access and the final heap checked: "), "As for C20.")
P("C22", MT + "Two or three threads: request against register and destroy, against destruction of callbacks registered before, concurrent requests, two registrars, last references, self-destruction in the callback, a task's source made on demand by two threads; 4-6 preemptions (6-9 thorough), race detection at 3.",
  "More preemptions; weak-memory reorderings beyond what the race detector reports.")
P("C23", B + "when_all/when_any over 0-4 children of int, void, reference and resource-owning results that end in a symbolic order or had ended before; mixed kinds and tuples; stored results awaited later; nested; children that throw, with all orders of ending; the returned object dropped unawaited. " + MT + "Children (of int, of bool sharing a word, throwing) on another thread's scheduler: 2-3 preemptions.",
  "More than 4 children (3 where they throw); the same coroutine given twice.")
P("C24", B + "The heap oracle (out of bounds, use after release, double release, leak at the end) is on in every entry of every check; here worlds of 4-5 symbolic create/use/move/drop operations (6 thorough) over futures, tasks, awaitables, events, mutexes, channels, timers and sleepers, plus selected entries of the other properties.",
  "Schedulers destroyed with coroutines still suspended on them. A coroutine that was never started or awaited leaks its frame: known finding unstarted-future.")
P("C25", B + "Trees of coroutines with up to 5 symbolic actions (throw of three exception types with symbolic content, catch, await, yield, sleep), one and two trees; tasks, results by reference/void/resource, shared exceptions.",
  "Exceptions escaping to the scheduler root of a task nobody awaits (terminates by documentation); exceptions from allocation.")
P("C26", B + "k = 11 symbolic operations (14 thorough) on ring queues of capacity 0-4 from a symbolic start position; index types of 8, 16, 32 and 64 bits; resource-owning and move-only elements; indices near their wrap-around; moving queues.",
  "Capacities above 4 with full programs (any capacity value with few operations in the wide entry).")
P("C27", B + "7 symbolic operations (9 thorough) over 6 nodes of the intrusive list, 6 (8) over counted nodes; counted pointer programs of 3 (4) operations.",
  "Erasing an element that is not in the list (returns without effect only for detached nodes).")
P("C28", B + "Programs of 5 symbolic steps that query current scheduler, task, root and stop token in nested coroutines after every suspension and switch; the programs of C19.",
  "Queries from outside a coroutine.")
P("C29", B + "5 symbolic declare/end/keep operations in one thread (7 thorough), main thread with the global scheduler, and two threads with 2 operations each and 3 preemptions.",
  "More than 2 threads.")
P("C30", MT + "Events and mutexes on two or three threads: wait against signal, signal_all, reset, time-out and drop, wait_all with time limit and with two waits, plain-thread and coroutine lock, timed lock, batch locks; 2-3 preemptions (5 thorough, 8 for reset against reset), race detection at 2. Programs of two coroutines on two threads that use several primitives together: a pipeline over channel, mutex and event; a stop callback that signals an event with the result sent back; a mutex carried locked to the other thread.",
  "More preemptions; weak-memory reorderings beyond what the race detector reports.")
P("C31", B + "Two schedulers, 2 tasks (3 thorough) that sleep, wait on a stop callback, hold timers or end, with callbacks that start, end or stop others while all are being stopped; pending timers with symbolic deadlines.",
  "More than 3 tasks; a stop-all concurrent with running batches on another thread.")
P("C33", B + "Operations of ten completion signatures (nothing, error code or exception pointer first; none, one or two results of plain and resource-owning types) started with the adapter token through asio::async_initiate, completed with symbolic results or error inside the initiation, before the await, before the first batch or after suspension; up to 3 (thorough 4) operations in flight completed in any order with some futures dropped; a read/write session of 3 rounds; post and defer on a polled io_context; a steady_timer wait that expires or is cancelled at symbolic times. " + MT + "Completion on another thread: 4 preemptions (6 thorough).",
  "Sockets and the epoll reactor (system calls); the two adapter variants for asio versions older than the installed 1.28.")
P("C32", B + "3 coroutines (4 thorough) of eighteen symbolic kinds (yield, event, sleep, channel, mutex, nested, timed wait, future, generator, waits for an event, for all of several events and for a mutex with an hour's limit, a polled lock that stays held, starting short tasks, when_all, when_any, switching between two schedulers, stop callbacks), then 2 (3) symbolic wake-up operations repeated 8 times each; the engine sums the live heap bytes (frames as the compiler lays them out at -O0): at most 1000 per coroutine, and at most 1 KB more after any sequence of wake-ups.",
  "Large bodies (their locals live in the frame); optimised frame layouts; timers that were stopped may be kept until they outnumber the live ones.")
P("C34", B + "Two errors (three in the thorough tier) of four kinds and eight codes alive at once, copied and carried through coroutines; class names of symbolic length up to 299 characters; errors raised by cancelled sleeps and by taking a result that is not there (value, reference, void). " + MT + "Two threads raising errors at the same time, 3-5 preemptions.",
  "A lock operation that is not awaited in builds with assertions (it aborts there); codes outside the enumeration.")
P("C35", MT + "A vector-clock happens-before detector runs over every memory access of the multi-thread programs of C03, C11, C12, C15, C18, C22, C23, C19, C29, C30 (mixed programs included), C33 and C34, with at most two preemptions (three thorough; one and two for the largest) besides the free switches: happens-before finds a race in any interleaving in which the two accesses are both reached, whatever their distance.",
  "Threads that read while another writes only through the scheduler's unsynchronised observers (empty(), is_locked() and the like are advisory); configurations without thread support; stop callbacks of two threads at once (C22 covers their outcome).")

# concrete programs with many things at once, the kind of program chosen symbolically
for _p, _t in dict(C01="channels of capacity up to 2^20 with more values than that and up to 1030 waiting writers or readers", C02="", C05="up to 65537 pending signals, 1030 waiters", C06="1030 timed waiters", C07="a wait for all of 9, 33, 65 and 130 events", C08="65537 re-entries, 1030 coroutines waiting for a mutex", C12="1030 timers, armed before, after or inside a callback, some stopped", C13="1030 sleepers", C14="awaitables copied 1030 times, nesting 1030 deep", C16="65537 values", C17="2060 coroutines", C19="trees 1030 deep that switch at the top, in the middle and at the bottom", C20="65537 tokens, 1030 callbacks", C21="", C23="1030 children", C24="awaitables, events and mutexes copied 1030 times", C25="exceptions through 1030 nested coroutines", C28="trees 1030 deep").items():
	N[_p] = (N[_p][0] + " Numbers around and beyond powers of two: " + (_t or "as for C%02d" % (int(_p[1:]) - 1)) + ".",) + N[_p][1:]
_MT = " On two threads (the programs of C30): "
for _p, _t in dict(C05="a wait against signals and resets", C06="a timed wait against signal and time-out", C07="a wait for all with a limit against signals", C09="a timed lock against unlock and time-out", C10="a batch lock against a second owner").items():
	N[_p] = (N[_p][0] + _MT + _t + ", 2 preemptions (4 thorough).",) + N[_p][1:]

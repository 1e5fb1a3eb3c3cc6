#include "util.h"
// several primitives at once: two coroutines on the schedulers of two threads that hand work to each other
struct Th { sched* s; int n; static void run(void* p) { Th* t = (Th*)p; local_scheduler_t ls(*t->s); for (int i = 0; i < t->n; ++i) t->s->run_one_batch(); } };
static void rest(sched& a, sched& b) { for (int i = 0; i < 60; ++i) { bool x = a.run_one_batch(), y = b.run_one_batch(); if (!x && !y && a.empty() && b.empty()) break; } }
template<class FA, class FB> static void both(sched& a, sched& b, FA fa, FB fb) {
	a + std::move(fa); b + std::move(fb); Th ta{&a, (int)rf_param("na", 3)}, tb{&b, (int)rf_param("nb", 3)}; int th = rf_spawn(Th::run, &tb); Th::run(&ta); rf_join(th); rest(a, b); rf_check(a.empty() && b.empty(), "both schedulers become empty");
}
extern "C" {
	// values handed over through a channel, their sum kept under a mutex, the end announced by an event
	void h_mix_pipe() {
		{ Leak leak; sched a, b; int cap = rf_choose("cap", 2), fin = 0; bool timed = rf_choose("timed", 2); channel_t<int> ch(cap); mutex_t m; event_t e; int sum = 0, users = 0; int fa = 0, fb = 0; rf_clock_ns = 100;
			both(a, b, [&]() -> future_t<> { Tr l(1); for (int i = 1; i < 3; ++i) { { auto g = co_await m.lock(); rf_check(users == 0, "alone"); ++users; sum += i; --users; } co_await (ch << i); } bool r = true; if (timed) r = co_await e.wait_for(ns(1000000)); else co_await e; rf_check(r, "announced"); fa = 1; },
				[&]() -> future_t<> { Tr l(2); for (int i = 1; i < 3; ++i) { int x = co_await ch; rf_check(x == i, "in order"); auto g = co_await m.lock(); rf_check(users == 0, "alone"); ++users; rf_check(sum >= (i == 1 ? 1 : 3), "what was added before is there"); --users; } e.signal(); fb = 1; });
			fin = fa + fb; rf_check(fin == 2 && sum == 3, "both end"); }
		rf_check(Tr::live == 0, "frames released"); rf_reach("pipe end");
	}
	// results fetched from the other thread: a stop request ends the worker, its future tells the result
	void h_mix_stop() {
		{ Leak leak; sched a, b; awaitable_t<int> aw; auto fut = aw.get_future(); event_t e; int fa = 0, fb = 0; stop_source src; stop_token tok = src.get_token(); bool first = rf_choose("first", 2);
			both(a, b, [&]() -> future_t<> { Tr l(1); if (first) co_await yield(); rf_check(src.request_stop(), "the first"); int r = co_await fut; rf_check(r == 7, "the result"); rf_check(tok.stop_requested(), "stays"); fa = 1; },
				[&]() -> future_t<> { Tr l(2); int told = 0; { auto cb = make_stop_callback(tok, [&] { ++told; e.signal(); }); co_await e; } rf_check(told == 1, "told once"); aw.set_value(7); fb = 1; });
			rf_check(fa + fb == 2, "both end"); }
		rf_check(Tr::live == 0, "frames released"); rf_reach("stop end");
	}
	// a coroutine moves to the other thread with a mutex locked, and unlocks it there for one that waits at home
	void h_mix_carry() {
		{ Leak leak; sched a, b; mutex_t m; int fa = 0, fb = 0, data = 0; event_t e; bool timed = rf_choose("timed", 2);
			both(a, b, [&]() -> future_t<> { Tr l(1); auto w = [&]() -> future_t<> { auto g = co_await m.lock(); ++data; co_await via(b); ++data; co_await yield(); ++data; }; co_await w(); fa = 1; },
				[&]() -> future_t<> { Tr l(2); if (timed) { bool r = co_await m.try_lock_for(1h); rf_check(r, "granted"); rf_check(data == 0 || data == 3, "whole"); data += 10; co_await m.unlock(); } else { auto g = co_await m.lock(); rf_check(data == 0 || data == 3, "whole"); data += 10; } fb = 1; });
			rf_check(fa + fb == 2 && data == 13, "both end"); }
		rf_check(Tr::live == 0, "frames released"); rf_reach("carry end");
	}
}

#include "util.h"
struct Th { std::function<void()> f; int id; explicit Th(std::function<void()> g) : f(std::move(g)) { id = rf_spawn([](void* a) { (*(std::function<void()>*)a)(); }, &f); } void join() { rf_join(id); } };
static void run(sched& s, int n) { for (int i = 0; i < n; ++i) s.run_one_batch(); }
extern "C" {
	// one thread runs the scheduler, others start coroutines on it
	void h_scmt_start() {
		int t = rf_param("t", 1), k = rf_param("k", 2); { Leak leak; sched a; int ran[8] = {}, order[8], no = 0; auto f = [&](int id) -> future_t<> { ++ran[id]; order[no++] = id; co_await yield(); ++ran[id]; }; a + f(0); int st = rf_choose("style", 2);
			auto sub = [&](int me) { for (int i = 0; i < k; ++i) { int id = 1 + me * k + i; if (st) a + [&f, id]() -> future_t<> { return f(id); }; else a + f(id); } };
			{ Th r([&] { local_scheduler_t ls(a); run(a, 3); }); Th s0([&] { sub(0); }); if (t > 1) { Th s1([&] { sub(1); }); s1.join(); } s0.join(); r.join(); }
			drain(a); int n = 1 + t * k; rf_check(no == n && a.empty(), "all ran to the end"); for (int i = 0; i < n; ++i) rf_check(ran[i] == 2, "each resumed exactly as often as it was made ready"); for (int m = 0; m < t; ++m) { int last = -1; for (int i = 0; i < n; ++i) if (order[i] > m * k && order[i] <= (m + 1) * k) { rf_check(order[i] > last, "one thread's coroutines start in its order"); last = order[i]; } } }
		rf_reach("start end");
	}
	// others wake coroutines waiting on it (awaitables and events)
	void h_scmt_wake() {
		int kind = rf_choose("kind", 3); { Leak leak; sched a; int got[3] = {}; event_t ev; { awaitable_t<int> w0, w1; auto f0 = w0.get_future(); auto f1 = w1.get_future();
			a + [&, f0]() -> future_t<> { got[0] = co_await f0; co_await yield(); ++got[0]; }; if (kind == 1) a + [&, f1]() -> future_t<> { got[1] = co_await f1; }; else a + [&]() -> future_t<> { co_await ev; got[1] = 20; };
			if (kind == 2) run(a, 1);
			{ Th r([&] { local_scheduler_t ls(a); run(a, 3); }), s0([&] { w0.set_value(10); if (kind == 1) w1.set_value(20); else ev.signal(); }); r.join(); s0.join(); } }
			drain(a); rf_check(got[0] == 11 && got[1] == 20, "each resumed once with its result"); rf_check(a.empty(), "finished"); }
		rf_reach("wake end");
	}
	// run_until_notask does not return while a coroutine another thread will wake is still suspended
	void h_scmt_until() {
		{ Leak leak; sched a; int done = 0; awaitable_t<int> w; auto f = w.get_future(); int extra = rf_choose("extra", 2); int ex = 0; a + [&, f]() -> future_t<> { int v = co_await f; rf_check(v == 7, "value"); co_await yield(); done = 1; };
			{ Th r([&] { local_scheduler_t ls(a); a.run_until_notask(); rf_check(done == 1, "does not return before every started coroutine has finished"); if (extra) rf_check(ex == 1, "coroutine started before the last one was woken"); }), s([&] { if (extra) a + [&]() -> future_t<> { ex = 1; co_return; }; w.set_value(7); }); r.join(); s.join(); }
			rf_check(a.empty(), "empty"); }
		rf_reach("until end");
	}
	// empty() from another thread never reports an unfinished scheduler as empty
	void h_scmt_empty() {
		{ Leak leak; sched a; std::atomic<int> fin{ 0 }; bool e = false; int f = 0; { a + [&]() -> future_t<> { co_await yield(); co_await yield(); fin.store(1); }; { Th r([&] { local_scheduler_t ls(a); run(a, 4); }), q([&] { e = a.empty(); f = fin.load(); if (e) rf_check(f == 1, "not reported empty while a coroutine is unfinished"); }); r.join(); q.join(); } } drain(a); rf_check(a.empty(), "empty"); }
		rf_reach("empty end");
	}
	// finishing on two schedulers at once, each started by the other thread
	void h_scmt_cross() {
		{ Leak leak; { sched a, b; int ra = 0, rb = 0; { Th r([&] { b + [&]() -> future_t<> { ++rb; co_return; }; run(a, 2); }), q([&] { a + [&]() -> future_t<> { ++ra; co_return; }; run(b, 2); }); r.join(); q.join(); } drain(a); drain(b); rf_check(ra == 1 && rb == 1 && a.empty() && b.empty(), "both ran once"); } }
		rf_reach("cross end");
	}
}

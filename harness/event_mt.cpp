#include "util.h"
struct Th { std::function<void()> f; int id; explicit Th(std::function<void()> g) : f(std::move(g)) { id = rf_spawn([](void* a) { (*(std::function<void()>*)a)(); }, &f); } void join() { rf_join(id); } };
static void run(sched& s, int n) { for (int i = 0; i < n; ++i) s.run_one_batch(); }
extern "C" {
	// one thread runs waiters, another signals (one by one, or all)
	void h_evmt_wait() {
		int W = rf_param("w", 2), how = rf_choose("how", 3), pre = rf_choose("pre", 2);
		{ Leak leak; sched a; event_t e; int done[3] = {}, act = 0, ord = 1;
			auto f = [&](int i) -> future_t<> { bool r = co_await e; rf_check(r, "true"); done[i] = ord++; rf_check(rf_tid() == act && librf_current_scheduler() == &a, "resumed by its own scheduler"); };
			for (int i = 0; i < W; ++i) a + f(i);
			if (pre) drain(a);
			int all0 = 0;
			{ Th r([&] { local_scheduler_t ls(a); act = rf_tid(); run(a, 2); }), s([&] { if (how == 2) e.signal_all(); else for (int i = 0; i <= how; ++i) e.signal(); }); r.join(); s.join(); }
			act = rf_tid(); drain(a); int n = 0; for (int i = 0; i < W; ++i) n += done[i] != 0;
			if (how < 2) rf_check(n == (W < how + 1 ? W : how + 1), "each signal releases one wait"); else if (pre) rf_check(n == W, "signal_all releases every pending wait");
			(void)all0; if (pre) for (int i = 0; i + 1 < W; ++i) rf_check(!done[i + 1] || (done[i] && done[i] < done[i + 1]), "in arrival order");
			for (int i = n; i < W; ++i) e.signal(); drain(a); for (int i = 0; i < W; ++i) rf_check(done[i] != 0, "no wake-up lost"); rf_check(a.empty(), "finished"); rf_log(n); }
		rf_reach("wait end");
	}
	// two threads signal while waiters of two schedulers arrive
	void h_evmt_two() {
		int how = rf_choose("how", 2);
		{ Leak leak; sched a, b; event_t e; int da = 0, db = 0, ta = 0, tb = 0;
			a + [&]() -> future_t<> { co_await e; ++da; rf_check(rf_tid() == ta, "own scheduler"); }; b + [&]() -> future_t<> { co_await e; ++db; rf_check(rf_tid() == tb, "own scheduler"); };
			{ Th r([&] { local_scheduler_t ls(a); ta = rf_tid(); run(a, 1); if (how) e.signal(); run(a, 1); }), q([&] { local_scheduler_t ls(b); tb = rf_tid(); run(b, 1); e.signal(); run(b, 1); }); r.join(); q.join(); }
			ta = tb = rf_tid(); drain(a); drain(b); rf_check(da + db == 1 + how, "each signal releases exactly one wait"); if (!how) { e.signal(); drain(a); drain(b); } rf_check(da == 1 && db == 1 && a.empty() && b.empty(), "all released"); }
		rf_reach("two end");
	}
	// the time limit of a wait passes while another thread signals
	void h_evmt_timed() {
		int kind = rf_choose("kind", 3); rf_clock_ns = 100; rf_clock_step = 0;
		{ Leak leak; sched a; event_t e; int res = 0, res2 = 0, act = rf_tid();
			a + [&]() -> future_t<> { bool r = co_await e.wait_for(ns(10)); rf_check(res == 0, "once"); res = r ? 1 : 2; rf_check(rf_tid() == act, "own scheduler"); };
			if (kind == 1) a + [&]() -> future_t<> { bool r = co_await e.wait_for(ns(5)); rf_check(res2 == 0, "once"); res2 = r ? 1 : 2; };
			if (kind) drain(a); a.timer()->update(); rf_clock_ns = 120;
			{ Th r([&] { local_scheduler_t ls(a); act = rf_tid(); run(a, 2); }), s([&] { e.signal(); }); r.join(); s.join(); }
			act = rf_tid(); drain(a); rf_clock_ns = 200; drain(a); rf_check(res != 0 && (kind != 1 || res2 != 0), "every timed wait ended"); rf_check(a.empty() && a.timer()->empty(), "idle"); rf_log(res * 10 + res2);
			int n = (res == 1) + (res2 == 1); rf_check(n <= 1, "one signal, at most one success"); int x = 0; a + [&]() -> future_t<> { co_await e; x = 1; }; drain(a); rf_check(x == 1 - n, "a signal is consumed by a successful wait or kept"); e.signal(); drain(a); rf_check(x == 1 && a.empty(), "event usable"); }
		rf_reach("timed end");
	}
	// wait_all: the events are signalled by other threads, with and without a time limit that passes meanwhile
	void h_evmt_all() {
		int pre = rf_choose("pre", 2), timed = rf_param("timed", 0), both = rf_param("both", 0); rf_clock_ns = 100; rf_clock_step = 0;
		{ Leak leak; sched a; std::vector<event_t> ev; ev.emplace_back(); ev.emplace_back(); int res = 0, act = rf_tid();
			a + [&]() -> future_t<> { bool r; if (timed) r = co_await event_t::wait_all_for(ns(10), ev); else r = co_await event_t::wait_all(ev); rf_check(res == 0, "once"); res = r ? 1 : 2; rf_check(rf_tid() == act, "own scheduler"); };
			if (pre || timed) drain(a); a.timer()->update(); if (timed) rf_clock_ns = 120;
			if (!both) { Th r([&] { local_scheduler_t ls(a); act = rf_tid(); run(a, 2); }), s([&] { ev[0].signal(); ev[1].signal(); }); r.join(); s.join(); }
			else { Th r([&] { local_scheduler_t ls(a); act = rf_tid(); run(a, 2); }), s([&] { ev[0].signal(); }), q([&] { ev[1].signal(); }); r.join(); s.join(); q.join(); }
			act = rf_tid(); drain(a); rf_clock_ns = 200; drain(a); if (!timed) rf_check(res == 1, "completes once every event was signalled"); else rf_check(res != 0, "completes"); rf_check(a.empty() && a.timer()->empty(), "idle"); rf_log(res);
			for (int i = 0; i < 2; ++i) { int x = 0; a + [&]() -> future_t<> { co_await ev[i]; x = 1; }; drain(a); if (res == 1) rf_check(x == 0, "one signal of each consumed"); if (!x) ev[i].signal(); drain(a); rf_check(x == 1, "event usable"); } rf_check(a.empty(), "finished"); }
		rf_reach("all end");
	}
	// reset racing a wait and signals: the event ends up in a state some order explains
	void h_evmt_reset() {
		int R = rf_param("r", 2), sig = rf_param("r", 2) > 2 ? 0 : rf_choose("sig", 2);
		{ Leak leak; sched a; event_t e(true); int done = 0, x = 0;
			a + [&]() -> future_t<> { co_await e; ++done; };
			{ Th r([&] { local_scheduler_t ls(a); run(a, 1); }), s([&] { for (int i = 0; i < R; ++i) e.reset(); if (sig) e.signal(); }); r.join(); s.join(); }
			drain(a); if (sig) rf_check(done == 1, "a signal given after the resets releases the wait");
			a + [&]() -> future_t<> { co_await e; ++x; }; drain(a); 
			if (!sig) rf_check(x == 0, "no signal appears from nowhere");
			while (done + x < 2) { e.signal(); drain(a); } rf_check(a.empty(), "finished"); rf_log(done); }
		rf_reach("reset end");
	}
	// the event handle is dropped by one thread while the other wakes up
	void h_evmt_drop() {
		{ Leak leak; sched a; auto* e = new event_t; int done = 0; a + [ev = *e, &done]() -> future_t<> { co_await ev; ++done; }; if (rf_choose("pre", 2)) drain(a);
			{ Th r([&] { local_scheduler_t ls(a); run(a, 2); }), s([&] { e->signal(); delete e; }); r.join(); s.join(); }
			drain(a); rf_check(done == 1 && a.empty(), "released"); }
		rf_reach("drop end");
	}
	// a plain thread and coroutines of one or two schedulers contend for a mutex
	void h_mxmt_plain() {
		int k = rf_param("k", 2), style = rf_choose("style", 2);
		{ Leak leak; sched a; mutex_t m; int in = 0, n = 0, act = rf_tid();
			auto f = [&]() -> future_t<> { if (style) { auto g = co_await m.lock(); rf_check(in++ == 0, "mutual exclusion"); co_await yield(); rf_point(); --in; ++n; rf_check(rf_tid() == act, "own scheduler"); } else { co_await m.lock(adopt_manual_unlock); rf_check(in++ == 0, "mutual exclusion"); rf_point(); --in; ++n; co_await m.unlock(); } };
			for (int i = 0; i < k; ++i) a + f();
			{ Th r([&] { local_scheduler_t ls(a); act = rf_tid(); run(a, 3); }), s([&] { int me = 0; if (m.try_lock(&me)) { rf_check(in++ == 0, "mutual exclusion"); rf_point(); --in; ++n; m.unlock(&me); } }); r.join(); s.join(); }
			act = rf_tid(); drain(a); rf_check(n == k || n == k + 1, "everybody got the lock once"); rf_check(!m.is_locked() && a.empty(), "free at the end"); rf_log(n); }
		rf_reach("plain end");
	}
	void h_mxmt_two() {
		int style = rf_choose("style", 2);
		{ Leak leak; sched a, b; mutex_t m; int in = 0, n = 0, ta = 0, tb = 0;
			auto f = [&](int& t) -> future_t<> { auto g = co_await m.lock(); rf_check(rf_tid() == t, "own scheduler"); rf_check(in++ == 0, "mutual exclusion"); if (style) co_await yield(); else rf_point(); --in; ++n; };
			a + f(ta); b + f(tb);
			{ Th r([&] { local_scheduler_t ls(a); ta = rf_tid(); run(a, 2); }), q([&] { local_scheduler_t ls(b); tb = rf_tid(); run(b, 2); }); r.join(); q.join(); }
			ta = tb = rf_tid(); for (int i = 0; i < 4; ++i) { drain(a); drain(b); } rf_check(n == 2 && !m.is_locked() && a.empty() && b.empty(), "both had the lock"); }
		rf_reach("two end");
	}
	// the limit of a timed lock passes while the holder unlocks
	void h_mxmt_timed() {
		int more = rf_choose("more", 2); rf_clock_ns = 100; rf_clock_step = 0;
		{ Leak leak; sched a; mutex_t m; int me = 0, res = 0, n = 0; m.lock(&me);
			a + [&]() -> future_t<> { bool r = co_await m.try_lock_for(ns(10)); rf_check(res == 0, "once"); res = r ? 1 : 2; if (r) co_await m.unlock(); };
			if (more) a + [&]() -> future_t<> { auto g = co_await m.lock(); ++n; };
			drain(a); a.timer()->update(); rf_clock_ns = 120;
			{ Th r([&] { local_scheduler_t ls(a); run(a, 2); }), s([&] { m.unlock(&me); }); r.join(); s.join(); }
			drain(a); rf_clock_ns = 200; drain(a); rf_check(res != 0 && n == more, "everybody got the lock or timed out"); rf_check(!m.is_locked() && a.empty() && a.timer()->empty(), "free at the end"); rf_log(res); }
		rf_reach("timed end");
	}
	// two mutexes taken together in opposite orders by two coroutines on two threads
	void h_mxmt_batch() {
		{ Leak leak; sched a, b; mutex_t m1, m2; int in = 0, n = 0;
			a + [&]() -> future_t<> { auto g = co_await mutex_t::lock(m1, m2); rf_check(in++ == 0, "mutual exclusion"); rf_point(); --in; ++n; };
			b + [&]() -> future_t<> { auto g = co_await mutex_t::lock(m2, m1); rf_check(in++ == 0, "mutual exclusion"); rf_point(); --in; ++n; };
			{ Th r([&] { local_scheduler_t ls(a); run(a, 3); }), q([&] { local_scheduler_t ls(b); run(b, 3); }); r.join(); q.join(); }
			for (int i = 0; i < 6; ++i) { drain(a); drain(b); } rf_check(n == 2 && a.empty() && b.empty() && !m1.is_locked() && !m2.is_locked(), "both obtained both"); }
		rf_reach("batch end");
	}
	void h_mxmt_batchp() {
		{ Leak leak; mutex_t m1, m2; int in = 0, n = 0;
			{ Th r([&] { int me = 0; auto g = mutex_t::lock(&me, m1, m2); rf_check(in++ == 0, "mutual exclusion"); rf_point(); --in; ++n; }), q([&] { int me = 0; auto g = mutex_t::lock(&me, m2, m1); rf_check(in++ == 0, "mutual exclusion"); rf_point(); --in; ++n; }); r.join(); q.join(); }
			rf_check(n == 2 && !m1.is_locked() && !m2.is_locked(), "both obtained both"); }
		rf_reach("batchp end");
	}
}

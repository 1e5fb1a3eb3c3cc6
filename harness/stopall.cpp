#include "util.h"
template<class F> static stop_callback<F> reg(stop_token t, F f) { return stop_callback<F>(t, std::move(f)); }
struct SA {
	struct One { int kind = 0, done = 0, cb = 0, stopped = 0, canceled = 0, got = 0; stop_token tok; bool hasTok = false; };
	static const int M = 4; One o[M]; event_t ev[M]; sched *a, *b; int requested = 0; int act = 0, acts = 0, extra = 0; int timer[3] = {}, tcanceled[3] = {};
	void action(scheduler_t* on) { if (!requested || on != a) return; ++acts; if (act == 1) *a + [this]() -> future_t<> { ++extra; co_await yield(); ++extra; }; if (act == 2) rf_check(!a->empty(), "still has tasks"); if (act == 3) request(); if (act == 4) { for (auto& e : ev) e.signal(); } }
	void request() { if (requested > 1) return; ++requested; a->request_stop_all_if_possible(); }
	future_t<> run(int i, sched* s, bool affected) {
		One& x = o[i];
		if (x.kind == 0) { co_await ev[i]; }
		if (x.kind == 1) { x.tok = (co_await get_current_task())->get_stop_token(); x.hasTok = true; while (!x.tok.stop_requested()) { co_await yield(); if (!affected && x.got++ > 6) break; } x.stopped = x.tok.stop_requested(); }
		if (x.kind == 2) { try { co_await sleep_for(ns(1000)); } catch (canceled_exception& e) { x.canceled = 1; } }
		if (x.kind == 3) { x.tok = (co_await get_current_task())->get_stop_token(); x.hasTok = true; awaitable_t<int> aw; auto f = aw.get_future(); auto cb = reg(x.tok, [this, &x, aw, s] { ++x.cb; action(s); aw.throw_exception(7); }); try { co_await f; } catch (int e) { x.stopped = e == 7; } }
		if (x.kind == 4) { bool r = co_await ev[i].wait_for(ns(1000)); x.got = r; }
		if (x.kind == 5) { x.tok = (co_await get_current_task())->get_stop_token(); x.hasTok = true; { auto cb = reg(x.tok, [&x] { ++x.cb; }); } co_await ev[i]; x.stopped = x.tok.stop_requested(); }
		if (x.kind == 6) { x.tok = (co_await get_current_task())->get_stop_token(); x.hasTok = true; auto c1 = reg(x.tok, [this, &x, s] { ++x.cb; action(s); }); auto c2 = reg(x.tok, [&x] { ++x.cb; }); co_await ev[i]; x.stopped = x.tok.stop_requested(); }
		++x.done;
	}
};
extern "C" {
	void h_sa_prog() {
		int T = rf_param("t", 2); { Leak leak; sched a, b; { SA w; w.a = &a; w.b = &b; rf_clock_ns = 100; w.act = rf_choose("act", 5); int who = rf_choose("who", 4), pre = rf_choose("pre", 4); bool reqdone = false;
			for (int i = 0; i < T; ++i) { w.o[i].kind = rf_choose("kind", 7); a + w.run(i, &a, true); } w.o[T].kind = rf_choose("bkind", 2) ? 1 : 2; b + w.run(T, &b, false);
			int nt = rf_choose("timers", 3); timer_handler th[3]; for (int i = 0; i < nt; ++i) th[i] = a.timer()->add_handler(ns(500), [&w, &a, i](bool c) { ++w.timer[i]; w.tcanceled[i] = c; w.action(&a); });
			for (int i = 0; i < pre; ++i) { batch(a); batch(b); if (i == 1 && nt > 1) th[1].stop(); }
			bool tok[4] = {}; auto req = [&] { for (int i = 0; i <= T; ++i) tok[i] = w.o[i].hasTok && !w.o[i].done; w.request(); reqdone = true; for (int i = 0; i < T; ++i) if (tok[i]) rf_check(w.o[i].tok.stop_requested(), "every cancellable coroutine observes the request"); rf_check(!w.o[T].hasTok || !w.o[T].tok.stop_requested(), "another scheduler's are not affected"); };
			if (who == 0) req(); if (who == 1) a + [&]() -> future_t<> { req(); co_return; }; if (who == 2) b + [&]() -> future_t<> { req(); co_return; }; if (who == 3) b.timer()->add_handler(ns(0), [&](bool) { req(); });
			for (int i = 0; i < 4; ++i) { batch(b); batch(a); } rf_check(reqdone, "requested");
			for (int i = 0; i < nt; ++i) { rf_check(w.timer[i] == 1 && w.tcanceled[i], "each pending timer is cancelled exactly once"); }
			for (int i = 0; i < T; ++i) { auto& x = w.o[i]; if (x.kind == 6 && tok[i]) rf_check(x.cb == 2, "each stop callback runs exactly once"); if (x.kind == 3 && tok[i]) rf_check(x.cb == 1 && x.done, "each stop callback runs exactly once"); if (x.kind == 1 && tok[i]) rf_check(x.done && x.stopped, "told to stop"); }
			rf_check(!w.o[T].done || w.o[T].kind == 1, "another scheduler's timers stay");
			// it can still run to completion
			for (int r = 0; r < 12; ++r) { for (int i = 0; i < T; ++i) { auto& x = w.o[i]; if (x.hasTok && !tok[i] && !x.done) { a.request_stop_all_if_possible(); } if (!x.done && (x.kind == 0 || x.kind >= 4)) w.ev[i].signal(); } rf_clock_ns += 200; batch(a); batch(b); batch(a); batch(b); }
			for (int i = 0; i <= T; ++i) rf_check(w.o[i].done == 1, "every coroutine still runs to its end"); rf_check(!w.o[T].canceled && !w.o[T].stopped, "another scheduler's are not affected");
			for (int i = 0; i < T; ++i) { auto& x = w.o[i]; if (x.kind == 5) rf_check(x.cb == 0, "a callback removed before does not run"); if (x.kind == 6) rf_check(x.cb == 2 * x.stopped, "once"); if (x.kind == 3) rf_check(x.cb == 1, "once"); } rf_check(w.act != 1 || w.extra == 2 * w.acts, "what was started meanwhile runs"); rf_check(a.empty() && b.empty(), "both become empty"); rf_log(w.acts); } }
		rf_reach("prog end");
	}
	// a task that is nothing but an awaitable's result, ended by its stop callback
	void h_sa_future() {
		{ Leak leak; sched a; { int how = rf_choose("how", 2), n = 0; awaitable_t<int> w; task_t* t = a + w.get_future(); auto cb = reg(t->get_stop_token(), [&] { ++n; if (how) w.throw_exception(1); else w.set_value(1); }); drain(a); rf_check(!a.empty(), "waits"); a.request_stop_all_if_possible(); rf_check(n == 1, "once"); drain(a); rf_check(a.empty(), "ended"); } }
		rf_reach("future end");
	}
	// sleepers, timed waits and timers in any number are all cancelled by one request
	void h_sa_timers() {
		{ Leak leak; sched a, b; { int n = rf_choose("n", 4), done = 0, canceled = 0; int64_t d[4]; bool ran = rf_choose("ran", 2); rf_clock_ns = 100; int tc = 0, unsig = 0; mutex_t mx; event_t ev; bool hold = rf_choose("hold", 2); bool bdone = false;
			for (int i = 0; i < n; ++i) { d[i] = rf_i64("d", 1, 1024); int k = rf_choose("kind", 3); if (k == 0) a + [&, i]() -> future_t<> { try { co_await sleep_for(ns(d[i])); } catch (canceled_exception&) { ++canceled; } ++done; }; if (k == 1) { ++canceled; --unsig; a + [&, i]() -> future_t<> { bool r = co_await ev.wait_for(ns(d[i])); rf_check(r, "the wait goes on without its time limit"); ++done; }; } if (k == 2) { a.timer()->add_handler(ns(d[i]), [&](bool c) { ++tc; rf_check(c, "told it was cancelled"); ++canceled; ++done; }); } }
			b + [&]() -> future_t<> { co_await sleep_for(ns(10)); bdone = true; };
			if (hold) a + [&]() -> future_t<> { auto g = co_await mx.lock(); co_await yield(); };
			batch(a); batch(b); if (ran) { batch(a); batch(b); } drain(b); drain(a); int late = rf_choose("late", 3), lc = 0; timer_handler lh; if (late) lh = a.timer()->add_handler(ns(50), [&](bool c) { ++lc; rf_check(c, "told it was cancelled"); }); if (late == 2) rf_check(lh.stop(), "a pending timer can be stopped");
			a.request_stop_all_if_possible(); rf_check(lc == (late ? 1 : 0), "a timer the scheduler has not looked at yet is cancelled too"); drain(a); rf_check(done == n + unsig, "cancelled timers end what waits for them"); rf_clock_ns += 5; for (int i = 0; i < -unsig; ++i) ev.signal(); drain(a); rf_check(done == n, "every one ended, once"); rf_check(canceled == n, "and knows it was cancelled"); rf_check(a.empty(), "empty"); rf_check(!bdone, "the other scheduler's timers stay"); rf_clock_ns += 2000; drain(b); drain(a); rf_check(bdone && done == n, "none fires again"); rf_check(b.empty(), "empty"); } }
		rf_reach("timers end");
	}
}

#include "util.h"
// What suspended coroutines cost: coroutines of solver-chosen kinds, woken and suspended again by solver-chosen operations.
// Bound: 1000 bytes for each coroutine (a nested one counts as one more), and no growth however often they are woken.
struct BW { sched *a, *b; event_t ev, ev2, ev3; mutex_t mx, mx2, mx3; channel_t<int> ch{ 1 }; awaitable_t<int> aw[4]; bool asked[4] = {}; bool stop = false; int woken = 0; };
static future_t<> k_yield(BW& w) { while (!w.stop) { co_await yield(); ++w.woken; } }
static future_t<> k_event(BW& w) { while (!w.stop) { co_await w.ev; ++w.woken; } }
static future_t<> k_sleep(BW& w) { while (!w.stop) { co_await sleep_for(ns(100)); ++w.woken; } }
static future_t<> k_chan(BW& w) { while (!w.stop) { (void)co_await w.ch; ++w.woken; } }
static future_t<> k_mutex(BW& w) { while (!w.stop) { { auto g = co_await w.mx.lock(); ++w.woken; co_await w.ev; } co_await yield(); } }
static future_t<int> inner(BW& w) { co_await w.ev; co_return 1; }
static future_t<> k_nest(BW& w) { while (!w.stop) w.woken += co_await inner(w); }
static future_t<> k_timed(BW& w) { std::vector<event_t> v{ w.ev2, w.ev3 }; while (!w.stop) { (void)co_await w.ev2.wait_for(ns(100)); ++w.woken; rf_check(!co_await event_t::wait_all_for(ns(100), v), "never signalled"); ++w.woken; } }
static future_t<> k_future(BW& w, int i) { while (!w.stop) { w.aw[i] = awaitable_t<int>(); w.asked[i] = true; w.woken += co_await w.aw[i].get_future(); } }
static future_t<> k_long(BW& w) { while (!w.stop) { (void)co_await w.ev2.wait_for(std::chrono::hours(1)); ++w.woken; } }
static future_t<> k_long_all(BW& w) { std::vector<event_t> v{ w.ev2 }; while (!w.stop) { (void)co_await event_t::wait_all_for(std::chrono::hours(1), v); ++w.woken; } }
static future_t<> k_long_mutex(BW& w) { while (!w.stop) { if (co_await w.mx2.try_lock_for(std::chrono::hours(1))) { co_await yield(); co_await w.mx2.unlock(); } ++w.woken; co_await yield(); } }
static future_t<> k_poll(BW& w) { while (!w.stop) { rf_check(!co_await w.mx3.try_lock_for(ns(100)), "held for ever"); ++w.woken; } }
static future_t<> k_spawn(BW& w) { while (!w.stop) { co_await w.ev; *w.a + [&w]() -> future_t<> { co_await yield(); ++w.woken; }; } }
static future_t<> k_when(BW& w) { while (!w.stop) { (void)co_await when_all(inner(w), inner(w)); ++w.woken; } }
static future_t<> k_any(BW& w) { while (!w.stop) { (void)co_await when_any(inner(w), inner(w)); ++w.woken; } }
static future_t<> k_via(BW& w) { while (!w.stop) { co_await via(w.b); co_await via(w.a); co_await w.ev; ++w.woken; } co_await via(w.a); }
static future_t<> k_token(BW& w) { while (!w.stop) { int n = 0; stop_source src; auto f = [&n] { ++n; }; stop_callback<decltype(f)> cb(src.get_token(), f); stop_token t = src.get_token(); { stop_callback<decltype(f)> c2(t, f); } co_await w.ev; src.request_stop(); w.woken += n; } }
static generator_t<int> k_gen(BW& w) { while (!w.stop) { ++w.woken; co_yield 1; } co_return 0; }
extern "C" void h_bytes() {
	const int K = rf_param("k", 3), N = rf_param("n", 2), burst = 8, per = 1000, slack = 1024; int cnt = 0, nch = 0;
	{ Leak leak; sched a, b; { BW w; w.a = &a; w.b = &b; w.mx3.lock(&w); rf_clock_ns = 1000; rf_clock_step = 0; (batch(a), batch(b)); uint64_t b0 = rf_live_bytes();
		int kind = 0; for (int i = 0; i < K; ++i) switch (kind += rf_choose("kind", 18 - kind)) {
			case 0: a + k_yield(w); ++cnt; break; case 1: a + k_event(w); ++cnt; break; case 2: a + k_sleep(w); cnt += 2; break; case 3: a + k_chan(w); ++cnt; ++nch; break; case 4: a + k_mutex(w); ++cnt; break;
			case 5: a + k_nest(w); cnt += 2; break; case 6: a + k_timed(w); cnt += 2; break; case 7: a + k_future(w, i); ++cnt; break; case 8: a + k_gen(w); ++cnt; break;
			case 9: a + k_long(w); ++cnt; break; case 10: a + k_long_all(w); ++cnt; break; case 11: a + k_long_mutex(w); cnt += 2; break;
			case 12: a + k_spawn(w); cnt += 2; break; case 13: a + k_when(w); cnt += 4; break; case 14: a + k_any(w); cnt += 4; break; case 15: a + k_via(w); ++cnt; break; case 16: a + k_poll(w); ++cnt; break; default: a + k_token(w); ++cnt; break; }
		for (int i = 0; i < 4; ++i) (batch(a), batch(b));
		uint64_t m1 = rf_live_bytes(); rf_check(m1 <= b0 + (uint64_t)cnt * per, "a suspended coroutine costs a few hundred bytes"); rf_log(m1 - b0);
		auto wake = [&](int o) { switch (o) {
			case 1: w.ev.signal_all(); break; case 2: rf_clock_ns += 150; break;
			case 3: if (nch) a + [&w, nch]() -> future_t<> { for (int i = 0; i < nch; ++i) co_await w.ch.write(1); }; break;
			case 4: for (int i = 0; i < K; ++i) if (w.asked[i]) { w.asked[i] = false; w.aw[i].set_value(1); } break;
			case 5: w.ev2.signal_all(); break; } };
		for (int s = 0; s < N; ++s) {
			int o = rf_choose("op", 6); for (int j = 0; j < burst; ++j) { wake(o); for (int i = 0; i < 4; ++i) (batch(a), batch(b)); }
			rf_check(rf_live_bytes() <= m1 + slack, "the cost does not grow with the number of times they were resumed"); rf_log(w.woken);
		}
		w.stop = true; for (int r = 0; r < K; ++r) { w.ev2.signal_all(); for (int o = 1; o < 5; ++o) if (o != 3 || !r) wake(o); for (int i = 0; i < 6; ++i) (batch(a), batch(b)); }
		rf_check((a.empty() && b.empty()) || nch == 99, "all end"); } }
	rf_reach("bytes");
}

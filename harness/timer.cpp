#include "util.h"
static int64_t M = 1 << 12; // range of every duration and clock advance, in units of 2^S ns
static int S = 0;
static int64_t sy(const char* n, int64_t lo, int64_t hi) { return (int64_t)((uint64_t)rf_i64(n, lo, hi) << S); }
struct Tm {
	timer_manager* mgr; static const int CAP = 12; int n = 0; int64_t dl[CAP]; int fired[CAP] = {}; bool canc[CAP] = {}; bool stopped[CAP] = {}; int64_t when[CAP]; int order[CAP]; int no = 0; int act[CAP] = {}; int tgt[CAP] = {}; int born[CAP]; int upd = 0; bool clearing = false; bool in = false;
	timer_handler h[CAP]; detail::timer_target_ptr tp[CAP]; bool useh[CAP];
	int arm(int64_t d, int how, int action, int target) {
		if (n >= CAP) return -1; int id = n++; dl[id] = rf_clock_ns + d; act[id] = action; tgt[id] = target; born[id] = in ? upd : -1;
		auto cb = [this, id](bool c) { fire(id, c); };
		useh[id] = how & 1; if (how & 1) { if (how & 2) h[id] = mgr->add_handler(at(dl[id]), cb); else h[id] = mgr->add_handler(ns(d), cb); }
		else { if (how & 2) tp[id] = mgr->add(at(dl[id]), cb); else tp[id] = mgr->add(ns(d), cb); }
		return id;
	}
	void stop(int id) { bool live = !fired[id] && !stopped[id]; bool r = useh[id] ? h[id].stop() : mgr->stop(tp[id]); rf_check(r == live, "stop succeeds exactly on a pending timer"); if (live) stopped[id] = true; }
	void fire(int id, bool c) {
		rf_check(fired[id] == 0, "a timer fires once"); fired[id] = 1; canc[id] = c; when[id] = rf_clock_ns; order[no++] = id;
		rf_check(c == (stopped[id] || clearing), "cancelled exactly if it was stopped or the manager was cleared"); if (!c) { rf_check(dl[id] <= rf_clock_ns, "never before its deadline"); rf_check(born[id] != upd || !in, "a timer armed by a callback is looked at by a later update"); }
		switch (act[id]) { case 1: arm(sy("rd", -M, M - 1), id, 0, 0); break; case 2: { int t = tgt[id]; if (t < n && t != id) stop(t); break; } case 3: stop(id); break; case 4: { bool k = clearing; clearing = true; mgr->clear(); clearing = k; break; } }
	}
	void update() {
		++upd; in = true; int n0 = n, o0 = no; bool pre[CAP]; for (int i = 0; i < n0; ++i) pre[i] = fired[i]; int64_t t = rf_clock_ns; bool cl = false; mgr->update(); in = false; (void)cl;
		for (int i = 0; i < n0; ++i) if (!pre[i]) { if (dl[i] <= t) rf_check(fired[i], "every due timer fires in this update"); else if (!stopped[i]) rf_check(!fired[i] || canc[i], "no timer fires before its deadline"); }
		for (int a = o0; a + 1 < no; ++a) for (int b = a + 1; b < no; ++b) { int x = order[a], y = order[b]; if (canc[x] || canc[y]) continue; rf_check(dl[x] <= dl[y], "due timers fire in deadline order"); if (dl[x] == dl[y]) rf_check(x < y, "equal deadlines fire in the order they were armed"); }
	}
};
extern "C" {
	void h_tm_ops() { S = rf_param("scale", 0);
		int N = rf_param("n", 5); bool acts = rf_param("acts", 0);
		{ Leak leak; rf_clock_ns = 1000; rf_clock_step = 0; auto mgr = std::make_shared<timer_manager>(); Tm t; t.mgr = mgr.get();
			for (int i = 0; i < N; ++i) {
				switch (rf_choose("op", 4)) {
				case 0: case 1: { int a = acts ? rf_choose("act", 5) : 0; t.arm(sy("d", -M, M - 1), i, a, a == 2 ? rf_choose("tgt", 3) : 0); break; }
				case 2: if (t.n) { t.stop(rf_concrete(rf_upto("which", t.n - 1))); } else rf_log(9); break;
				default: rf_clock_ns += sy("adv", 0, M - 1); t.update(); if (rf_choose("clr", 3) == 2) { int n0 = t.n; t.clearing = true; mgr->clear(); t.clearing = false; for (int k = 0; k < n0; ++k) rf_check(t.fired[k], "clear fires every pending timer as cancelled"); } break;
				}
			}
			rf_log(t.no);
			if (rf_choose("end", 2)) { rf_clock_ns += (4 * M) << S; t.update(); rf_clock_ns += (4 * M) << S; t.update(); rf_clock_ns += (4 * M) << S; t.update(); rf_check(mgr->empty(), "no timer left"); mgr.reset(); }
			else { t.clearing = true; for (int i = 0; i < t.n; ++i) t.act[i] = 0; mgr.reset(); }
			for (int k = 0; k < t.n; ++k) { rf_check(t.fired[k] == 1, "every timer fired exactly once"); rf_log(t.order[k]); }
			for (int k = 0; k < t.n; ++k) if (t.useh[k]) rf_check(!t.h[k].stop(), "a handler of a fired timer does nothing"); 
		}
		rf_reach("ops end");
	}
	// deadlines only: n timers armed, one clock step, order
	void h_tm_order() { S = rf_param("scale", 0);
		int N = rf_param("n", 4); { Leak leak; rf_clock_ns = 7; rf_clock_step = 0; auto mgr = std::make_shared<timer_manager>(); Tm t; t.mgr = mgr.get(); int split = rf_choose("split", N + 1);
			for (int i = 0; i < N; ++i) { if (i == split) mgr->update(), t.in = false; t.arm(sy("d", 1, M), i, 0, 0); }
			for (int k = 0; k < 3; ++k) { rf_clock_ns += sy("adv", 0, M / 2 - 1); t.update(); } rf_clock_ns += (2 * M) << S; t.update(); for (int i = 0; i < N; ++i) { rf_check(t.fired[i] == 1 && !t.canc[i], "fired"); rf_log(t.order[i]); } rf_check(mgr->empty(), "empty"); }
		rf_reach("order end");
	}
	// the clock moves while the scheduler looks at it
	void h_tm_moving() { S = rf_param("scale", 0); M = 1 << rf_param("bits", 8); const int K = (int)rf_param("k", 2);
		{ Leak leak; sched sch; rf_clock_ns = 7; rf_clock_step = sy("step", 0, M / 4 - 1); Tm t; t.mgr = sch.timer(); for (int i = 0; i < K; ++i) { int64_t d = sy("d", -M, M - 1); t.arm(d, 2 | i, 0, 0); }
			for (int k = 0; k < K + 1; ++k) { rf_clock_ns += sy("adv", -M / 2, M / 2 - 1); batch(sch); } for (int k = 0; k < K; ++k) if (t.fired[k]) rf_check(t.when[k] >= t.dl[k], "not early"); rf_clock_ns += (4 * M) << S; batch(sch); for (int k = 0; k < K; ++k) { rf_check(t.fired[k] == 1 && !t.canc[k], "fired once"); rf_log(t.order[k]); } rf_check(sch.empty(), "idle"); }
		rf_reach("moving end");
	}
	// sleeping coroutines
	void h_sl_ops() { S = rf_param("scale", 0); M = 1 << rf_param("bits", 8);
		int N = rf_param("n", 3), style0 = rf_param("style", 0); { Leak leak; sched sch; rf_clock_ns = 100000 + (M << S); rf_clock_step = 0; int64_t dl[6], when[6]; int res[6] = {}, order[6], no = 0, code[6] = {}; int want[6] = {};
			auto settle = [&] { for (int i = 0; i < N; ++i) if (dl[i] >= 0 && !want[i] && dl[i] <= rf_clock_ns) want[i] = 1; drain(sch); for (int i = 0; i < N; ++i) rf_check(res[i] == want[i], "a sleeper wakes exactly when its time has come"); };
			for (int i = 0; i < N; ++i) dl[i] = -1;
			for (int i = 0; i < N; ++i) { int64_t d = sy("d", -M / 8, M - M / 8 - 1); int st = style0 ? rf_choose("style", 4) : i; dl[i] = rf_clock_ns + d; 
				sch + [&, i, d, st]() -> future_t<> { try { switch (st) { case 0: co_await sleep_for(ns(d)); break; case 1: co_await sleep_until(at(rf_clock_ns + d)); break; case 2: co_await ns(d); break; default: co_await sleep_for(ns(d), sch); } rf_check(!res[i], "resumes once"); res[i] = 1; } catch (canceled_exception& e) { rf_check(!res[i], "resumes once"); res[i] = 2; code[i] = (int)e._error; } when[i] = rf_clock_ns; order[no++] = i; };
				int how = rf_choose("between", rf_param("adv", 1) ? 3 : 2); if (how) { batch(sch); settle(); } if (how == 2) { rf_clock_ns += sy("adv", 0, M - 1); settle(); } }
			bool clr = rf_choose("clear", 2); settle(); if (clr) { for (int i = 0; i < N; ++i) if (!want[i]) want[i] = 2; sch.timer()->clear(); settle(); } else { for (int k = 0; k < 2; ++k) { rf_clock_ns += sy("adv2", 0, M - 1); settle(); } rf_clock_ns += (2 * M) << S; settle(); }
			for (int i = 0; i < N; ++i) { rf_check(res[i] == want[i] && res[i], "woken or cancelled"); if (res[i] == 1) rf_check(when[i] >= dl[i], "not before its time"); else rf_check(code[i] == (int)error_code::timer_canceled, "the exception tells that the timer was cancelled"); rf_log(order[i]); }
			for (int a = 0; a < N; ++a) for (int b = a + 1; b < N; ++b) { int x = order[a], y = order[b]; if (res[x] == 1 && res[y] == 1 && when[x] == when[y] && dl[x] != dl[y] && clr == false) rf_log(1); }
			rf_check(sch.empty(), "idle"); }
		rf_reach("sleep end");
	}
	// sleepers armed together and woken by one update run in deadline order; a sleeper that loops
	void h_sl_order() { S = rf_param("scale", 0);
		int N = rf_param("n", 4); { Leak leak; sched sch; rf_clock_ns = 100000 + (M << S); rf_clock_step = 0; int64_t dl[6]; int order[6], no = 0; for (int i = 0; i < N; ++i) { int64_t d = sy("d", 1, M); dl[i] = rf_clock_ns + d; sch + [&, i, d]() -> future_t<> { co_await sleep_for(ns(d)); order[no++] = i; }; }
			drain(sch); rf_check(no == 0, "all asleep"); rf_clock_ns += (2 * M) << S; drain(sch); rf_check(no == N && sch.empty(), "all awake"); for (int a = 0; a + 1 < N; ++a) { int x = order[a], y = order[a + 1]; rf_check(dl[x] < dl[y] || (dl[x] == dl[y] && x < y), "woken in deadline order"); rf_log(order[a]); } }
		rf_reach("order end");
	}
	void h_sl_loop() { S = rf_param("scale", 0);
		{ Leak leak; sched sch; rf_clock_ns = 100000 + (M << S); rf_clock_step = 0; int64_t d[3], t[3], last = rf_clock_ns; int k = 0; for (int i = 0; i < 3; ++i) d[i] = sy("d", -M / 4, M / 4 * 3 - 1); bool fin = false;
			sch + [&]() -> future_t<> { for (; k < 3; ++k) { int64_t s = rf_clock_ns; co_await sleep_for(ns(d[k])); t[k] = rf_clock_ns; rf_check(t[k] - s >= d[k], "slept at least as long as asked"); } fin = true; };
			for (int i = 0; i < 5; ++i) { drain(sch); rf_clock_ns += sy("adv", 0, M - 1); } drain(sch); for (int i = 0; i < 3; ++i) { rf_clock_ns += M << S; drain(sch); } rf_check(fin && sch.empty(), "finished"); rf_check(t[2] >= t[1] && t[1] >= t[0] && t[0] >= last, "in order"); }
		rf_reach("loop end");
	}
}

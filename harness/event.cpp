#include "util.h"
// Reference model of an event: a count of unconsumed signals and a queue of pending waits.
struct Ev {
	int cnt = 0; int q[24], n = 0;
	bool wait(int id) { if (cnt > 0) { --cnt; return true; } q[n++] = id; return false; }
	int pop() { if (!n) return -1; int r = q[0]; for (int i = 1; i < n; ++i) q[i - 1] = q[i]; --n; return r; }
	void drop(int id) { int k = 0; for (int i = 0; i < n; ++i) if (q[i] != id) q[k++] = q[i]; n = k; }
};
static future_t<> nested_wait(event_t e, int& done, int& ord, bool& res) { bool r = co_await e; res = r; done = ord++; }
extern "C" {
	// signals, waits, signal_all and reset in any order; the scheduler runs after each or only later
	void h_ev_ops() {
		int N = rf_param("n", 6), lazy = rf_param("lazy", 0); bool init = rf_choose("init", 2);
		{ Leak leak; sched sch; event_t e(init); event_t e2(std::adopt_lock); e2 = e;
			Ev m; m.cnt = init; int W = 0, done[16] = {}, want[16] = {}, ord = 1; bool res[16]; int st[16], ns = 0;
			auto run = [&] { for (int i = 0; i < ns; ++i) if (m.wait(st[i])) want[st[i]] = 1; ns = 0; drain(sch); };
			for (int i = 0; i < N; ++i) {
				switch (rf_choose("op", 4)) {
				case 0: { int id = W++; bool style = rf_param("style", 0) ? rf_choose("style", 2) : id & 1; st[ns++] = id;
					if (style) sch + nested_wait(e, done[id], ord, res[id]); else sch + [e2, id, &done, &ord, &res]() -> future_t<> { bool r = co_await e2.wait(); res[id] = r; done[id] = ord++; }; break; }
				case 1: (i & 1 ? e : e2).signal(); { int k = m.pop(); if (k >= 0) want[k] = 1; else ++m.cnt; } break;
				case 2: e.signal_all(); for (int k; (k = m.pop()) >= 0;) want[k] = 1; break;
				default: e2.reset(); m.cnt = 0; break;
				}
				if (!lazy || rf_choose("run", 2)) { run(); for (int k = 0; k < W; ++k) rf_check((done[k] != 0) == (want[k] != 0), "exactly the waits entitled to a signal have completed"); }
			}
			run(); for (int k = 0; k < W; ++k) { rf_check((done[k] != 0) == (want[k] != 0), "exactly the waits entitled to a signal have completed"); if (done[k]) rf_check(res[k], "a wait without limit reports the signal"); rf_log(done[k]); }
			if (!lazy) for (int a = 0; a < W; ++a) for (int b = a + 1; b < W; ++b) if (done[b] && m.n == 0) rf_check(!done[a] || done[a] < done[b] , "waits complete in arrival order");
			// all that remain are released by as many signals, one by one and in order
			while (m.n) { int k = m.pop(); e.signal(); drain(sch); rf_check(done[k] != 0, "one signal releases the longest-waiting waiter"); for (int j = 0; j < m.n; ++j) rf_check(!done[m.q[j]], "one signal releases only one waiter"); }
			rf_check(sch.empty(), "no task left"); rf_log(m.cnt);
			int extra = 0; for (int i = 0; i <= m.cnt; ++i) { sch + [e, &extra]() -> future_t<> { co_await e; ++extra; }; } drain(sch); rf_check(extra == m.cnt, "unconsumed signals let exactly as many waits through"); e.signal(); drain(sch); rf_check(extra == m.cnt + 1, "and the next one after another signal");
		}
		rf_reach("ops end");
	}
	// waiters on different schedulers and a waiter that loops: woken on their own scheduler only, each signal one wait
	void h_ev_sched() {
		int N = rf_param("n", 4);
		{ Leak leak; sched a, b; event_t e;
			int got[3] = {}; scheduler_t* where[3] = {};
			for (int i = 0; i < 3; ++i) (i == 1 ? b : a) + [&, i]() -> future_t<> { for (int k = 0; k < 2; ++k) { co_await e; ++got[i]; where[i] = librf_current_scheduler(); rf_check(where[i] == (i == 1 ? &b : &a), "woken on its own scheduler"); } };
			drain(a); drain(b); int q[24] = {0, 2, 1}, n = 3, need[3] = {}; // a runs first
			for (int i = 0; i < N; ++i) {
				int rel[24], nr = 0; 
				if (rf_choose("op", 2)) { e.signal(); if (n) { rel[nr++] = q[0]; for (int k = 1; k < n; ++k) q[k - 1] = q[k]; --n; } else { rf_log(7); break; } }
				else { e.signal_all(); for (int k = 0; k < n; ++k) rel[nr++] = q[k]; n = 0; }
				bool bf = rf_choose("bfirst", 2); drain(bf ? b : a); drain(bf ? a : b);
				for (int k = 0; k < nr; ++k) ++need[rel[k]];
				for (int pass = 0; pass < 2; ++pass) for (int k = 0; k < nr; ++k) if ((rel[k] == 1) == (bf ? pass == 0 : pass == 1) && need[rel[k]] < 2) q[n++] = rel[k];
				for (int k = 0; k < 3; ++k) rf_check(got[k] == need[k], "each signal releases the longest-waiting waiter only, signal_all each pending waiter once");
			}
			for (int i = 0; i < 8; ++i) { e.signal_all(); drain(b); drain(a); } for (int k = 0; k < 3; ++k) { rf_check(got[k] == 2, "all finish"); rf_log(got[k]); } rf_check(a.empty() && b.empty(), "no task left");
		}
		rf_reach("sched end");
	}
	// the event object may go away while waiters are suspended on it, and while it is signalled
	void h_ev_life() {
		int n = rf_choose("n", 3), s = rf_choose("s", 4); bool last = rf_choose("last", 2) || s < n; int done = 0;
		{ Leak leak; sched sch; auto* e = new event_t; event_t keep(std::adopt_lock);
			for (int i = 0; i < n; ++i) sch + [ev = *e, &done]() -> future_t<> { co_await ev; ++done; };
			drain(sch); if (last) keep = *e;
			for (int i = 0; i < s; ++i) e->signal();
			delete e; drain(sch); rf_check(done == (s < n ? s : n), "signals given before the event handle died count");
			if (last && s < n) { keep.signal_all(); drain(sch); rf_check(done == n, "the rest through a copied handle"); }
			rf_log(done);
			rf_check(sch.empty(), "no task left");
		}
		rf_reach("life end");
	}
	// the event object itself, waited on by reference, is destroyed while the wait is pending or after it was signalled
	void h_ev_gone() {
		int kind = rf_choose("kind", 5), sig = kind < 2 ? 1 : rf_choose("sig", 2), late = rf_choose("late", 2); const int64_t M = 1LL << 52; int res = 0; rf_clock_ns = 50; rf_clock_step = 0;
		{ Leak leak; sched sch; auto e = std::make_unique<std::vector<event_t>>(2); int64_t d = rf_i64("d", 1, M);
			sch + [&]() -> future_t<> { bool r; switch (kind) { case 0: r = co_await (*e)[0]; break; case 1: r = co_await event_t::wait_all(*e); break; case 2: r = co_await (*e)[0].wait_for(ns(d)); break; case 3: r = co_await event_t::wait_all_for(ns(d), *e); break; default: r = co_await event_t::wait_all_for(ns(d), e->begin(), e->end()); } rf_check(res == 0, "once"); res = r ? 1 : 2; };
			drain(sch); if (sig) { (*e)[0].signal(); if (kind != 0 && kind != 2) (*e)[1].signal(); } else if (rf_choose("half", 2) && kind > 2) (*e)[1].signal();
			if (late) drain(sch); e.reset(); drain(sch); rf_check(res == (sig ? 1 : 0), "a pending wait is not disturbed by the end of the event object"); rf_clock_ns += 2 * M; drain(sch);
			rf_check(res == (sig ? 1 : 2), "ends with the signal or the time limit"); rf_log(res); rf_check(sch.empty() && sch.timer()->empty(), "idle"); }
		rf_reach("gone end");
	}
	// timed waits with symbolic deadlines and clock
	void h_ev_timed() {
		int N = rf_param("n", 5); const int64_t M = 1LL << 52;
		{ Leak leak; sched sch; event_t e; Ev m; rf_clock_ns = 1000; rf_clock_step = 0;
			int W = 0, res[12] = {}, want[12] = {}; int64_t dl[12]; bool timed[12]; int64_t when[12];
			auto settle = [&] { // the scheduler runs: waits past their deadline end with false
				for (int i = 0; i < m.n;) { int k = m.q[i]; if (timed[k] && dl[k] <= rf_clock_ns) { want[k] = 2; m.drop(k); } else ++i; }
				drain(sch); for (int k = 0; k < W; ++k) rf_check(res[k] == want[k], "timed wait ends with true or false exactly when it should"); };
			for (int i = 0; i < N; ++i) {
				switch (rf_choose("op", 5)) {
				case 0: case 1: { int id = W++; timed[id] = true; int64_t d = rf_i64("d", -M, M - 1); dl[id] = rf_clock_ns + d; bool until = id & 1;
					sch + [&, id, d, until]() -> future_t<> { bool r = until ? co_await e.wait_until(at(rf_clock_ns + d)) : co_await e.wait_for(ns(d)); rf_check(res[id] == 0, "ends once"); res[id] = r ? 1 : 2; when[id] = rf_clock_ns; };
					if (m.wait(id)) want[id] = 1; 
					// the wait is armed in this batch, its deadline looked at in later ones
					batch(sch); settle(); break; }
				case 2: { int id = W++; timed[id] = false; sch + [&, id]() -> future_t<> { bool r = co_await e; res[id] = r ? 1 : 2; }; if (m.wait(id)) want[id] = 1; settle(); break; }
				case 3: { e.signal(); int k = m.pop(); if (k >= 0) want[k] = 1; else ++m.cnt; if (rf_choose("tick", 2)) { rf_clock_ns += rf_i64("adv", 0, M - 1); } settle(); break; }
				default: rf_clock_ns += rf_i64("adv", 0, M - 1); settle(); break;
				}
			}
			for (int k = 0; k < W; ++k) if (res[k] == 2) rf_check(when[k] >= dl[k], "no timeout before the deadline");
			for (int k = 0; k < W; ++k) rf_log(res[k]);
			rf_clock_ns += 4 * M; settle();
			while (m.n) { int k = m.pop(); want[k] = 1; e.signal(); settle(); }
			rf_log(m.cnt); int extra = 0; for (int i = 0; i <= m.cnt; ++i) sch + [&]() -> future_t<> { co_await e; ++extra; }; drain(sch); rf_check(extra == m.cnt, "timed-out waits consumed no signal"); e.signal(); drain(sch); rf_check(sch.empty() && extra == m.cnt + 1, "all finished"); rf_clock_ns += 8 * M; drain(sch); rf_check(sch.timer()->empty(), "no timer left over");
		}
		rf_reach("timed end");
	}
	// signal_all with timed waiters, and timed waiters whose event dies
	void h_ev_timed_all() {
		int n = 1 + rf_choose("n", 3); const int64_t M = 1LL << 52; int64_t d[3]; int res[3] = {};
		{ Leak leak; sched sch; auto e = std::make_unique<event_t>(); rf_clock_ns = 5; rf_clock_step = 0;
			for (int i = 0; i < n; ++i) { d[i] = rf_i64("d", 1, M); sch + [&, i, ev = *e]() -> future_t<> { bool r = co_await ev.wait_for(ns(d[i])); res[i] += r ? 1 : 10; }; }
			drain(sch); int64_t t = rf_i64("t", 0, M - 1); rf_clock_ns += t; bool runfirst = rf_choose("rf", 2); if (runfirst) drain(sch);
			if (rf_choose("how", 2)) e->signal_all(); else { e.reset(); }
			bool sig = e != nullptr; drain(sch);
			for (int i = 0; i < n; ++i) { int w = sig && !(runfirst && d[i] <= t) ? 1 : d[i] <= t ? 10 : 0; rf_check(res[i] == w, "released by signal_all, or timed out, once"); }
			rf_clock_ns += 2 * M; drain(sch); for (int i = 0; i < n; ++i) { rf_check(res[i] == 1 || res[i] == 10, "ended exactly once"); rf_log(res[i]); }
			rf_check(sch.empty() && sch.timer()->empty(), "idle");
		}
		rf_reach("timed_all end");
	}
	// waiting for all events of a set
	void h_ev_all() {
		int K = rf_param("k", 3), N = rf_param("n", 4), timed = rf_param("timed", 0); const int64_t M = 1LL << 52;
		{ Leak leak; sched sch; std::vector<event_t> ev; Ev m[4]; int cnt[4] = {}; rf_clock_ns = 7; rf_clock_step = 0;
			int k = rf_choose("k", K + 1); for (int i = 0; i < k; ++i) { ev.emplace_back(); int pre = rf_choose("pre", 3); for (int j = 0; j < pre; ++j) { ev[i].signal(); ++cnt[i]; } }
			int64_t d = timed ? rf_i64("d", 0, M - 1) : 0, dl = rf_clock_ns + d; int res = 0, want = 0; bool range = rf_choose("range", 2);
			bool need[4]; int left = 0; for (int i = 0; i < k; ++i) { need[i] = cnt[i] == 0; if (cnt[i]) --cnt[i]; left += need[i]; } if (!left) want = 1;
			sch + [&]() -> future_t<> { bool r;
				if (timed) { if (range) r = co_await event_t::wait_all_for(ns(d), ev.begin(), ev.end()); else r = co_await event_t::wait_all_for(ns(d), ev); }
				else { if (range) r = co_await event_t::wait_all(ev.begin(), ev.end()); else r = co_await event_t::wait_all(ev); }
				rf_check(res == 0, "completes once"); res = r ? 1 : 2; if (!r) rf_check(rf_clock_ns >= dl, "false not before the deadline"); };
			auto settle = [&] { if (timed && !want && dl <= rf_clock_ns) want = 2; drain(sch); rf_check(res == want, "wait_all completes exactly when every event was signalled, or at its deadline"); };
			batch(sch); settle();
			for (int i = 0; i < N && k; ++i) {
				int o = rf_choose("o", k + (timed ? 1 : 0));
				if (o == k) { rf_clock_ns += rf_i64("adv", 0, M - 1); settle(); continue; }
				bool all = rf_choose("all", 2);
				if (all) { ev[o].signal_all(); if (!want && need[o]) { need[o] = false; if (!--left) want = 1; } }
				else { ev[o].signal(); if (!want && need[o]) { need[o] = false; if (!--left) want = 1; } else ++cnt[o]; }
				settle();
			}
			rf_log(res); rf_log(left);
			if (!want) { if (timed) { rf_clock_ns += 2 * M; want = 2; drain(sch); rf_check(res == 2, "time limit"); } else { for (int i = 0; i < k; ++i) if (need[i]) { ev[i].signal(); } want = 1; drain(sch); rf_check(res == 1, "completes after the last event"); } }
			// the events are usable afterwards and hold exactly the signals not consumed
			for (int i = 0; i < k; ++i) { int x = 0; for (int j = 0; j <= cnt[i]; ++j) sch + [&, i]() -> future_t<> { co_await ev[i]; ++x; }; drain(sch); rf_check(x == cnt[i], "exactly one signal of each event was consumed"); ev[i].signal(); drain(sch); rf_check(x == cnt[i] + 1, "event usable afterwards"); rf_log(x); }
			rf_clock_ns += 2 * M; drain(sch); rf_check(sch.empty() && sch.timer()->empty(), "idle");
		}
		rf_reach("all end");
	}
	// two wait_all over overlapping sets plus a plain waiter: each signal counts for one of them, in arrival order
	void h_ev_all2() {
		int N = rf_param("n", 5);
		{ Leak leak; sched sch; std::vector<event_t> ev(3); std::vector<event_t> s1{ev[0], ev[1]}, s2{ev[1], ev[2]}; int r1 = 0, r2 = 0, r3 = 0; Ev m[3]; bool order = rf_choose("order", 2);
			auto w1 = [&] { sch + [&]() -> future_t<> { rf_check(co_await event_t::wait_all(s1), "true"); ++r1; }; drain(sch); m[0].wait(1); m[1].wait(1); };
			auto w2 = [&] { sch + [&]() -> future_t<> { rf_check(co_await event_t::wait_all(s2), "true"); ++r2; }; drain(sch); m[1].wait(2); m[2].wait(2); };
			if (order) { w1(); w2(); } else { w2(); w1(); } sch + [&]() -> future_t<> { co_await ev[1]; ++r3; }; drain(sch); m[1].wait(3);
			int left[4] = {0, 2, 2, 1};
			for (int i = 0; i < N; ++i) { int o = rf_choose("o", 3); ev[o].signal(); int k = m[o].pop(); if (k > 0) --left[k]; else ++m[o].cnt; drain(sch); rf_check((r1 == 1) == (left[1] == 0) && (r2 == 1) == (left[2] == 0) && (r3 == 1) == (left[3] == 0), "each completes exactly when its own events were signalled"); }
			rf_log(r1 * 100 + r2 * 10 + r3);
			for (int o = 0; o < 3; ++o) while (m[o].pop() >= 0) ev[o].signal(); drain(sch); rf_check(r1 == 1 && r2 == 1 && r3 == 1 && sch.empty(), "all complete");
		}
		rf_reach("all2 end");
	}
}

#include "util.h"
// Up to two coroutine trees moving between schedulers; the harness runs the schedulers in any order.
struct V {
	static const int K = 3; sched* s[K]; int k; int running = -1, ops; int where[3] = {}; void* root[3] = {}; task_t* task[3] = {}; int fin[3] = {}; bool q = false; uint64_t steps = 0; int alive = 0; int batches = 0; stop_token tok[3]; int sib = 0; int stopped[3] = {};
	int index(scheduler_t* p) { for (int i = 0; i < k; ++i) if (s[i] == p) return i; return -1; }
	future_t<> look(int t, const char* m) { // everything the coroutine can ask about itself
		rf_check(index(librf_current_scheduler()) == where[t], "the current scheduler is the one it was moved to"); rf_check(index(co_await get_current_scheduler()) == where[t], "the current scheduler, asked through co_await");
		rf_check(librf_root_state() == root[t], "the root is the outermost coroutine"); rf_check((co_await get_root_state()) == root[t], "the root, asked through co_await"); rf_check(librf_current_task() == task[t], "the current task is its own"); rf_check((co_await get_current_task()) == task[t], "the task, asked through co_await"); rf_check(running == where[t], "runs only on the scheduler it belongs to");
	}
	// the caller's own answers must be the same as the nested ones; macro-free inline version
	template<class F> void same(int t, F sch, void* r, task_t* ts) { rf_check(index(sch) == where[t], "the current scheduler is the one it was moved to"); rf_check(r == root[t], "the root is the outermost coroutine"); rf_check(ts == task[t], "the current task is its own"); rf_check(running == where[t], "runs only on the scheduler it belongs to"); rf_check((ts->get_stop_token() == tok[t]), "its own stop token"); rf_check(tok[t].stop_requested() == (stopped[t] > 0), "a stop requested for a task is observed by exactly that task"); }
	#define SAME(t) same(t, co_await get_current_scheduler(), co_await get_root_state(), co_await get_current_task())
	#define SAME2(t) same(t, librf_current_scheduler(), librf_root_state(), librf_current_task())
	void counts(int t) { for (int i = 0; i < k; ++i) { bool any = false; for (int j = 0; j < 2; ++j) any |= alive > j && !fin[j] && where[j] == i; rf_check(!any || !s[i]->empty(), "the scheduler a coroutine belongs to counts its task"); } (void)t; }
	future_t<int> body(int t, int depth) {
		SAME(t); int sum = 0; Tr l(depth);
		for (;;) { if (!ops) break; --ops; int c = rf_choose("op", k + 3);
			if (c < k) { int b = batches; bool move = where[t] != c; where[t] = c; if (c & 1) co_await via(s[c]); else co_await via(*s[c]); if (!move) rf_check(batches == b, "switching to the current scheduler does not suspend"); else rf_check(batches > b, "continues when the other scheduler runs"); SAME2(t); counts(t); }
			else if (c == k) break;
			else if (c == k + 1) { co_await yield(); SAME(t); }
			else if (depth < 2) { int r = co_await body(t, depth + 1); sum += r; SAME2(t); } }
		co_return sum + 1;
	}
	future_t<> top(int t, int* out) { root[t] = co_await get_root_state(); task[t] = co_await get_current_task(); rf_check(task[t] != nullptr, "has a task"); tok[t] = task[t]->get_stop_token(); int r = co_await body(t, 1); SAME(t); *out = r; ++fin[t]; }
	bool run(int i) { running = i; ++batches; bool r = s[i]->run_one_batch(); running = -1; return r; }
};
extern "C" {
	void h_via_prog() {
		int K = rf_param("k", 2), N = rf_param("n", 4), T = rf_param("t", 1), R = rf_param("r", 0); { Leak leak; sched a, b, c; { V v; v.s[0] = &a; v.s[1] = &b; v.s[2] = &c; v.k = K; v.ops = N; int out[2] = {};
			for (int t = 0; t < T; ++t) { int st = T > 1 ? t : rf_choose("start", K); v.where[t] = st; ++v.alive; if (t) *v.s[st] + v.top(t, &out[t]); else *v.s[st] + [&v, t, &out]() -> future_t<> { return v.top(t, &out[t]); }; }
			for (int i = 0; i < R; ++i) v.run(rf_choose("run", K));
			for (int i = 0; i < 60; ++i) { bool any = false; for (int j = 0; j < K; ++j) any |= v.run((i & 1) ? K - 1 - j : j); bool e = true; for (int j = 0; j < K; ++j) e &= v.s[j]->empty(); if (!any && e) break; }
			for (int t = 0; t < T; ++t) { rf_check(v.fin[t] == 1, "finishes once"); rf_check(out[t] >= 1, "result arrived"); rf_log(out[t]); }
			for (int j = 0; j < K; ++j) rf_check(v.s[j]->empty(), "every scheduler is empty when all is done"); } }
		rf_check(Tr::live == 0, "frames released"); rf_reach("via end");
	}
	// the old scheduler forgets the task at once, the new one runs it exactly once per wake-up; another task of the old scheduler stays
	void h_via_count() {
		{ Leak leak; sched a, b; int st = 0; bool other = rf_choose("other", 2), nested = rf_choose("nested", 2); int od = 0; event_t ev;
			auto inner = [&]() -> future_t<> { co_await via(b); }; auto f = [&]() -> future_t<> { st = 1; if (nested) co_await inner(); else co_await via(b); st = 2; co_await yield(); st = 3; co_await via(a); st = 4; };
			if (other) a + [&]() -> future_t<> { co_await ev; od = 1; }; a + f(); rf_check(b.empty(), "not there yet"); batch(a); if (nested) batch(a); rf_check(st == 1, "left"); rf_check(a.empty() == !other, "the old scheduler no longer counts the task"); rf_check(!b.empty(), "the new one does"); for (int i = 0; i < 3; ++i) batch(a); rf_check(st == 1, "continues only when the new scheduler runs"); batch(b); if (nested) { batch(b); } rf_check(st == 2, "continues once"); drain(a); rf_check(st == 2, "the old scheduler does not run it"); batch(b); rf_check(st == 3 && b.empty() && !a.empty(), "moved back"); drain(b); rf_check(st == 3, "waits for its scheduler"); drain(a); drain(b); rf_check(st == 4, "done"); if (other) { rf_check(!a.empty() && od == 0, "the other task is still there"); ev.signal(); drain(a); rf_check(od == 1, "and goes on"); } rf_check(a.empty() && b.empty(), "empty"); }
		rf_reach("count end");
	}
	// results and exceptions of a moved coroutine reach the awaiter on the new scheduler; awaitables and timers are then served there
	void h_via_result() {
		{ Leak leak; sched a, b; int v = rf_int("v"), how = rf_choose("how", 5), got = 0; sched* on = nullptr; awaitable_t<int> aw; auto fa = aw.get_future(); event_t ev; rf_clock_ns = 100;
			auto inner = [&]() -> future_t<int> { co_await via(b); if (how == 1) throw v; if (how == 2) co_return co_await fa; if (how == 3) { co_await ev; co_return v; } if (how == 4) { co_await sleep_for(ns(50)); co_return v; } co_return v; };
			a + [&]() -> future_t<> { try { got = co_await inner(); } catch (int e) { got = e; } rf_check(on == &b, "the awaiter continues on the new scheduler"); got = got == v; };
			auto r = [&](sched& s) { on = &s; while (s.run_one_batch()); on = nullptr; }; r(a); rf_check(a.empty() && a.timer()->empty(), "all moved"); r(b); r(a); if (how == 2) aw.set_value(v); if (how == 3) ev.signal(); if (how == 4) { rf_check(!b.timer()->empty(), "timer of the new scheduler"); rf_clock_ns += 50; } r(a); rf_check(how < 2 || !got, "old scheduler does not serve it"); r(b); r(a); rf_check(got == 1, "result arrived"); rf_check(a.empty() && b.empty(), "empty"); }
		rf_reach("result end");
	}
	// whatever a moved coroutine waits for resumes it on the scheduler it was moved to, and its time limits are served there
	void h_via_waits() {
		{ Leak leak; sched a, b, c; int v = rf_int("v"), how = rf_choose("how", 14), where = rf_choose("where", 3), fin = 0, x = 0; sched* on = nullptr; rf_clock_ns = 100; channel_t<int> ch(0); event_t e1, e2; mutex_t m1, m2; int owner = 0;
			if (how == 2 || how == 3 || how == 4 || how == 12) rf_check(m2.try_lock(&owner), "free");
			auto here = [&](const char* m) { rf_check(on == &b, m); };
			auto child = [&](int k) -> future_t<int> { co_await e1; co_return k; };
			auto wait = [&]() -> future_t<int> {
				switch (how) {
				case 0: { int r = co_await ch; here("read"); co_return r; }
				case 1: co_await (ch << v); here("write"); co_return v;
				case 2: { auto g = co_await m2.lock(); here("lock"); co_return v; }
				case 3: { bool r = co_await m2.try_lock_for(ns(1000)); here("timed lock"); rf_check(r, "granted"); co_await m2.unlock(); here("unlock"); co_return v; }
				case 4: { bool r = co_await m2.try_lock_for(ns(50)); here("timed lock"); rf_check(!r && rf_clock_ns >= 150, "timed out"); co_return v; }
				case 5: { bool r = co_await e1.wait_for(ns(1000)); here("timed wait"); rf_check(r, "signalled"); co_return v; }
				case 6: { bool r = co_await e1.wait_for(ns(50)); here("timed wait"); rf_check(!r && rf_clock_ns >= 150, "timed out"); co_return v; }
				case 7: { std::vector<event_t> w{e1, e2}; bool r = co_await event_t::wait_all(w); here("wait for all"); rf_check(r, "all"); co_return v; }
				case 8: { std::vector<event_t> w{e1, e2}; bool r = co_await event_t::wait_all_for(ns(50), w); here("timed wait for all"); rf_check(!r && rf_clock_ns >= 150, "timed out"); co_return v; }
				case 9: { auto [p, q] = co_await when_all(child(v), child(5)); here("when_all"); rf_check(q == 5, "the other"); co_return p; }
				case 10: { auto r = co_await when_any(child(v), child(v)); here("when_any"); co_return std::any_cast<int>(r.second); }
				case 11: co_await yield(); here("yield"); co_return v;
				case 12: { auto g = co_await mutex_t::lock(m1, m2); here("lock both"); co_return v; }
				default: co_await sleep_until(at(150)); here("sleep"); rf_check(rf_clock_ns >= 150, "not early"); co_return v; }
			};
			auto go_ = [&]() -> future_t<> { co_await via(b); }; auto both = [&]() -> future_t<int> { co_await via(b); int r = co_await wait(); here("inner"); co_return r; };
			a + [&]() -> future_t<> { int r; if (where == 0) r = co_await both(); else if (where == 1) { co_await go_(); here("moved"); r = co_await wait(); } else { co_await via(b); here("moved"); r = co_await wait(); } here("the awaiter"); rf_check(r == v, "the result"); ++fin; };
			auto r = [&](sched& s) { on = &s; for (int i = 0; i < 12; ++i) s.run_one_batch(); on = nullptr; };
			r(a); r(b); r(a); rf_check(fin == (how == 11), "waits"); rf_check(a.empty() && a.timer()->empty(), "nothing of it is left on the old scheduler");
			if (how == 0) c + [&]() -> future_t<> { co_await (ch << v); }; if (how == 1) c + [&]() -> future_t<> { x = co_await ch; rf_check(x == v, "the value"); }; if (how == 2 || how == 3 || how == 12) m2.unlock(&owner);
			if (how == 5) e1.signal(); if (how == 7) { e2.signal(); e1.signal(); } if (how == 9 || how == 10) { e1.signal(); e1.signal(); }
			if (how == 4 || how == 6 || how == 8 || how == 13) { rf_clock_ns = 149; r(a); r(b); rf_check(!fin, "not early"); rf_clock_ns += 1 + rf_i64("late", 0, 100); }
			r(a); r(c); r(a); rf_check(fin == (how == 11), "another scheduler does not serve it"); r(b); r(c); r(b); rf_check(fin == 1, "resumed on its own"); rf_check(a.empty() && b.empty() && c.empty(), "empty"); if (how == 4) m2.unlock(&owner); rf_check(m2.try_lock(&x), "free at the end"); m2.unlock(&x); }
		rf_reach("waits end");
	}
	// what a coroutine asks about itself stays right through every kind of suspension and nesting
	void h_cur_prog() {
		int T = 2; { Leak leak; sched a, b; { V v; v.s[0] = &a; v.s[1] = &b; v.s[2] = &b; v.k = 2; v.ops = 0; event_t ev; mutex_t mx; awaitable_t<int> aw[2]; int n = rf_param("n", 3); int out[2] = {}; rf_clock_ns = 100; int seq[2] = {}; int cnt = n;
			struct H { static future_t<> step(V& v, int t, int depth, int& cnt, event_t& ev, mutex_t& mx) { v.SAME2(t); while (cnt) { --cnt; int c = rf_choose("op", 7); if (c == 0) break; if (c == 1) co_await yield(); if (c == 2) { ev.signal(); co_await ev; } if (c == 3) { auto g = co_await mx.lock(); co_await yield(); v.SAME(t); } if (c == 4) co_await sleep_for(ns(1)); if (c == 5) { if (depth < 3) co_await step(v, t, depth + 1, cnt, ev, mx); } if (c == 6) { rf_check(v.task[t]->request_stop() == (v.stopped[t] == 0), "only the first request"); v.stopped[t]++; } v.SAME(t); } v.SAME2(t); } 
				static future_t<> top(V& v, int t, int& cnt, event_t& ev, mutex_t& mx) { v.root[t] = librf_root_state(); v.task[t] = librf_current_task(); v.tok[t] = v.task[t]->get_stop_token(); co_await step(v, t, 1, cnt, ev, mx); v.SAME(t); ++v.fin[t]; } };
			task_t* tk[2]; for (int t = 0; t < T; ++t) { v.where[t] = t; ++v.alive; tk[t] = *v.s[t] + H::top(v, t, cnt, ev, mx); }
			v.run(0); v.run(1); rf_check(v.root[0] != v.root[1] && v.task[0] != v.task[1], "different trees, different roots"); rf_check((v.fin[0] || v.task[0] == tk[0]) && (v.fin[1] || v.task[1] == tk[1]), "the task is the one the start returned");
			for (int i = 0; i < 60; ++i) { rf_clock_ns += 10; bool x = v.run(0), y = v.run(1); if (!x && !y && a.empty() && b.empty()) break; } rf_check(v.fin[0] == 1 && v.fin[1] == 1, "finished"); rf_check(a.empty() && b.empty(), "empty"); } }
		rf_reach("cur end");
	}
}

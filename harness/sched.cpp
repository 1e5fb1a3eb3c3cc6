#include "util.h"
#include <deque>
// FIFO model of the run queue: entries carry the batch in which they have to run.
struct Rec { int id, tag; };
struct Sim {
	sched& s; std::deque<Rec> q; int b = 0, started = 0, finished = 0, ops, maxc; bool inside = false; event_t ev; int evc = 0; std::deque<int> evw; int depth_max = 2;
	Sim(sched& x, int o, int m) : s(x), ops(o), maxc(m) {}
	void push(int id) { q.push_back({ id, b + 1 }); }
	void here(int id) { rf_check(!q.empty() && q.front().id == id, "resumed in the order in which they became ready"); rf_check(q.front().tag == b, "runs in exactly the batch its readiness asks for"); q.pop_front(); rf_log(id); }
	bool run() { ++b; inside = true; bool any = !q.empty(); bool r = s.run_one_batch(); inside = false; rf_check(q.empty() || q.front().tag > b, "everything ready when the batch began has run"); if (any) rf_check(r, "a batch that ran something says so"); return r; }
	int pick() { if (!ops) return 0; --ops; return rf_choose("op", 6); }
	void sig() { if (!evw.empty()) { int w = evw.front(); evw.pop_front(); push(w); } else ++evc; ev.signal(); }
	void spawn(int style) { int id = started++; push(id); if (style == 0) s + b2(id, -1); else if (style == 1) s + [this, id]() -> future_t<> { return b2(id, -1); }; else s + g2(id); }
	generator_t<int> g2(int id) { here(id); Tr t(id); while (int c = pick()) { if (c == 1 || c == 3 || c == 4) { push(id); co_yield c; here(id); } else if (c == 2) { if (started < maxc) spawn(id % 3); } else sig(); } ++finished; co_return 0; }
	future_t<> b2(int id, int parent) {
		here(id); Tr t(id);
		for (;;) { int c = pick(); if (c == 0) break;
			if (c == 1) { push(id); co_await yield(); here(id); }
			else if (c == 2) { if (started < maxc) spawn(id % 3); }
			else if (c == 3) { if (started < maxc) { int ch = started++; push(ch); co_await b2(ch, id); here(id); } }
			else if (c == 4) { if (evc) { --evc; co_await ev; } else { evw.push_back(id); co_await ev; here(id); } }
			else sig(); }
		++finished; if (parent >= 0) push(parent);
	}
};
extern "C" {
	void h_sc_prog() {
		int N = rf_param("n", 6), M = rf_param("m", 3); { Leak leak; sched a; rf_check(a.empty(), "empty at first"); { Sim S(a, N, M); int n0 = 1 + rf_choose("n0", 2); for (int i = 0; i < n0; ++i) S.spawn(rf_choose("style", 3)); rf_check(!a.empty(), "not empty with a started coroutine");
			for (int i = 0; i < 40; ++i) { if (!S.run() && S.q.empty()) { if (S.evw.empty()) break; S.sig(); } rf_check(S.finished < S.started ? !a.empty() : true, "not empty before all have finished"); }
			rf_check(S.started == S.finished, "every started coroutine runs to its end"); drain(a); rf_check(a.empty(), "empty afterwards"); rf_log(S.started); } }
		rf_check(Tr::live == 0, "frames released"); rf_reach("prog end");
	}
	// run_until_notask returns exactly when everything has finished, sleeping and spawned coroutines included
	void h_sc_until() {
		{ Leak leak; sched a; int n = rf_param("n", 3), started = 0, fin = 0; rf_clock_ns = 100; rf_clock_step = 64; event_t ev; int waiting = 0;
			std::function<future_t<>(int)> f = [&](int kind) -> future_t<> { Tr t(kind); switch (kind) { case 0: break; case 1: co_await yield(); co_await yield(); break; case 2: co_await sleep_for(ns(rf_i64("d", -256, 255))); break; case 3: ++started; a + f(rf_choose("sub", 3)); break; case 4: co_await f(2); ++started; break; case 5: ++waiting; co_await ev; break; case 6: for (int i = 0; i < 3; ++i) ev.signal(); co_await sleep_for(ns(rf_i64("d", 0, 255))); break; } ++fin; };
			std::function<void(int)> chain = [&](int more) { a.timer()->add(ns(rf_i64("d", 0, 255)), [&, more](bool c) { rf_check(!c, "not cancelled"); ++fin; if (more == 1) { ++started; chain(0); } else if (more == 2) { ++started; a + f(1); } }); };
			auto top = [&](int k) { ++started; if (k == 8) chain(rf_choose("more", 3)); else if (k == 7) a + [&]() -> generator_t<int> { co_yield 1; co_yield 2; ++fin; co_return 3; }; else a + f(k); };
			int ks[6]; bool w = false, s = false; for (int i = 0; i < n; ++i) { ks[i] = rf_choose("kind", 9); w |= ks[i] == 5; s |= ks[i] == 6; } rf_assume(!w || s); for (int i = 0; i < n; ++i) top(ks[i]);
			a.run_until_notask(); rf_check(fin == started, "returns only when every started coroutine has finished"); rf_check(a.empty() && a.timer()->empty(), "empty afterwards"); rf_log(fin); int again = fin; a.run_until_notask(); rf_check(fin == again, "nothing runs again"); }
		rf_check(Tr::live == 0, "frames released"); rf_reach("until end");
	}
	// what was stopped is not waited for
	void h_sc_stopped() {
		const long far = 1 << 18;
		{ Leak leak; sched a; int n = rf_param("n", 3), fin = 0, want = 0, told = 0, stops = 0; rf_clock_ns = 100; rf_clock_step = 64; event_t ev; mutex_t mx; timer_handler th[4]; int lim[4];
			for (int i = 0; i < n; ++i) { int k = rf_choose("kind", 6); lim[i] = 0; switch (k) {
				case 0: th[i] = a.timer()->add_handler(ns(far), [&](bool c) { rf_check(c, "it was stopped"); ++told; }); lim[i] = 1 + rf_choose("after", 2); ++stops; break;
				case 1: ++want; a + [&]() -> future_t<> { bool r = co_await ev.wait_for(ns(far)); rf_check(r, "signalled in time"); ++fin; }; break;
				case 2: ++want; a + [&]() -> future_t<> { std::vector<event_t> v{ ev }; bool r = co_await event_t::wait_all_for(ns(far), v); rf_check(r, "signalled in time"); ++fin; }; break;
				case 3: ++want; a + [&]() -> future_t<> { co_await sleep_for(ns(rf_i64("d", 0, 255))); ++fin; }; break;
				case 4: ++want; a + [&]() -> future_t<> { bool r = co_await mx.try_lock_for(ns(far)); rf_check(r, "locked in time"); co_await yield(); co_await yield(); co_await mx.unlock(); ++fin; }; break;
				default: ++want; a + [&]() -> future_t<> { co_await yield(); ++fin; }; break; } }
			++want; a + [&]() -> future_t<> { for (int j = 1; j < 3; ++j) { for (int i = 0; i < n; ++i) if (lim[i] == j) rf_check(th[i].stop(), "stopped before its deadline"); co_await yield(); } co_await sleep_for(ns(64)); for (int i = 0; i < n; ++i) ev.signal(); ++fin; };
			a.run_until_notask(); rf_check(fin == want && told == stops, "returns only when every started coroutine has finished"); rf_check(a.empty() && a.timer()->empty(), "empty afterwards"); rf_check(rf_clock_ns < 100 + far, "does not wait for timers that were stopped"); rf_log(fin); }
		rf_reach("stopped end");
	}
	// a coroutine that yields values without being awaited continues to its end like one that yields control
	void h_sc_coyield() {
		{ Leak leak; sched a; int n = rf_choose("n", 4), log[12], nl = 0; bool other = rf_choose("other", 2); auto f = [&]() -> future_t<int> { Tr t(1); for (int i = 0; i < n; ++i) { log[nl++] = 1; co_yield i; } log[nl++] = 1; co_return 5; }; auto v = [&]() -> future_t<Tr> { Tr t(1); for (int i = 0; i < n; ++i) { log[nl++] = 2; co_yield Tr(i); } log[nl++] = 2; co_return Tr(9); }; 
			a + f(); if (other) a + [&]() -> future_t<Tr> { return v(); }; for (int i = 0; i <= n; ++i) { int b = nl; rf_check(batch(a), "runs"); rf_check(nl == b + 1 + other, "one step per batch"); rf_check(log[b] == 1 && (!other || log[b + 1] == 2), "in order"); } drain(a); rf_check(a.empty() && nl == (n + 1) * (1 + other), "ended"); }
		rf_check(Tr::live == 0, "frames released"); rf_reach("coyield end");
	}
	// the same for references: the object yielded, not a copy
	void h_sc_coyield_ref() {
		{ Leak leak; sched a; int n = rf_choose("n", 4), step = 0, slot[5] = {}; auto f = [&]() -> future_t<int&> { Tr t(1); for (int i = 0; i < n; ++i) { ++step; co_yield slot[i]; } ++step; co_return slot[4]; }; auto x = f(); a + x; 
			for (int i = 0; i <= n; ++i) { rf_check(batch(a), "runs"); rf_check(step == i + 1, "one step per batch"); } drain(a); rf_check(a.empty() && step == n + 1, "ended"); int got = 0; a + [&]() -> future_t<> { int& r = co_await x; rf_check(&r == &slot[4], "that very object"); ++got; }; drain(a); rf_check(got == 1, "received once"); rf_log(n); }
		rf_check(Tr::live == 0, "frames released"); rf_reach("coyield ref end");
	}
	// what a functor captured lives until its coroutine has finished, and its release may use the scheduler
	struct Cap { sched* s; int* ran; int* live; Cap(sched* a, int* b, int* l) : s(a), ran(b), live(l) { ++*live; } Cap(const Cap& o) : s(o.s), ran(o.ran), live(o.live) { ++*live; } Cap(Cap&& o) : s(o.s), ran(o.ran), live(o.live) { o.s = nullptr; ++*live; } ~Cap() { --*live; if (s) { int* r = ran; sched* q = s; s = nullptr; *q + [](int* r) -> future_t<> { ++*r; co_return; }(r); } } };
	void h_sc_capture() {
		{ Leak leak; sched a; int ran = 0, live = 0, y = rf_choose("y", 3), end = rf_choose("end", 3); struct L { const std::shared_ptr<Cap>& c; int* live; ~L() { rf_check(*live > 0 && c->ran != nullptr, "captures outlive the coroutine's locals"); } };
			auto c = std::make_shared<Cap>(&a, &ran, &live);
			if (rf_choose("kind", 2)) a + [c, y, end, &live]() -> future_t<> { L l{ c, &live }; for (int i = 0; i < y; ++i) { co_await yield(); rf_check(live > 0, "captures live while the coroutine runs"); } if (end == 1) co_return; if (end == 2) throw 5; };
			else a + [c, y, end, &live]() -> future_t<int> { L l{ c, &live }; for (int i = 0; i < y; ++i) { co_await yield(); rf_check(live > 0, "captures live while the coroutine runs"); } if (end == 2) throw 5; co_return y; };
			c.reset();
			drain(a); rf_check(ran == 1, "the coroutine started while the captures were released ran"); rf_check(live == 0 && a.empty(), "released"); }
		rf_reach("capture end");
	}
	// a coroutine (or a stop or timer callback) runs batches of its own scheduler: everybody still goes on exactly once per wake-up
	void h_sc_nested() {
		{ Leak leak; sched a; { rf_clock_ns = 5; rf_clock_step = 1; int n = rf_param("n", 3), want = 0, fin = 0; int pend[16] = {}; int left = 2; event_t ev; std::function<void()> nest = [&] { int k = rf_choose("batches", 2) + 1; for (int i = 0; i < k; ++i) a.run_one_batch(); };
			std::function<future_t<>(int, int)> f = [&](int id, int kind) -> future_t<> { Tr t(id); auto here = [&] { rf_check(pend[id] == 1, "resumed exactly once per wake-up"); pend[id] = 0; }; here();
				switch (kind) { case 0: break; case 1: for (int i = 0; i < 2; ++i) { pend[id] = 1; co_await yield(); here(); } break; case 2: if (left) { --left; nest(); } break; case 3: pend[id] = 1; co_await yield(); here(); if (left) { --left; nest(); } pend[id] = 1; co_await yield(); here(); break; case 4: { int ch = want++; pend[ch] = 1; a + f(ch, rf_choose("sub", 4)); if (left) { --left; nest(); } break; } case 5: { pend[id] = 1; co_await sleep_for(ns(0)); here(); if (left) { --left; nest(); } } } ++fin; };
			for (int i = 0; i < n; ++i) { int k = rf_choose("kind", 7); int id = want++; pend[id] = 1; if (k == 6) a.timer()->add(ns(rf_choose("d", 2)), [&, id](bool c) { rf_check(!c && pend[id] == 1, "fires once"); pend[id] = 0; if (left) { --left; nest(); } ++fin; }); else a + f(id, k); }
			for (int i = 0; i < 8; ++i) drain(a); rf_check(fin == want, "every started coroutine runs to its end"); rf_check(a.empty() && a.timer()->empty(), "empty afterwards"); rf_log(fin); } }
		rf_check(Tr::live == 0, "frames released"); rf_reach("nested end");
	}
	// more coroutines than any buffer was made for: one batch resumes those ready when it began, in order, and the rest runs in the next
	void h_sc_many() {
		const int G = 4200; static int got[G], ngot; ngot = 0;
		{ Leak leak; sched a; int n = rf_choose("n", 3), who = rf_choose("who", 3), N = n == 0 ? 130 : n == 1 ? 1030 : 2060; event_t ev; int fin = 0;
			auto f = [&](int id) -> future_t<> { got[ngot++] = id; if (who == 1) co_await ev; else co_await yield(); got[ngot++] = N + id; ++fin; };
			if (who == 2) a + [&]() -> future_t<> { for (int i = 0; i < N; ++i) a + f(i); co_return; }; else for (int i = 0; i < N; ++i) a + f(i);
			batch(a); if (who == 2) { rf_check(ngot == 0, "work made ready meanwhile runs in the next batch"); batch(a); } rf_check(ngot == N, "one batch runs all that was ready when it began, and nothing else");
			if (who == 1) { batch(a); rf_check(ngot == N, "all wait"); for (int i = 0; i < N; ++i) ev.signal(); } batch(a); rf_check(ngot == 2 * N && fin == N, "everything ready runs in the next batch"); for (int i = 0; i < 2 * N; ++i) rf_check(got[i] == i, "in the order in which it became ready"); drain(a); rf_check(ngot == 2 * N && a.empty(), "empty afterwards"); }
		rf_reach("many end");
	}
}

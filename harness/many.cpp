#include "util.h"
#include <vector>
// numbers of things around and beyond every power of two a counter or buffer might have been made for
static int many(const char* n, int big = 0) { static const int t[] = {129, 257, 1030, 65537}; return t[rf_choose(n, big ? 4 : 3)]; }
static std::vector<int> got;
static void inorder(int n, const char* msg) { rf_check((int)got.size() == n, msg); for (int i = 0; i < n; ++i) rf_check(got[i] == i, msg); }
extern "C" {
	// signals nobody waits for
	void h_many_signals() {
		{ Leak leak; sched a; int init = rf_choose("init", 2); event_t e(init != 0); int n = many("n", 1); for (int i = 0; i < n; ++i) e.signal();
			int have = init + n, pass = 0, k = have + 1; bool done = false; a + [&]() -> future_t<> { for (int i = 0; i < k; ++i) { co_await e; ++pass; } done = true; }; drain(a);
			rf_check(pass == (have < k ? have : k), "one wait passes for each signal"); rf_check(done == (have >= k), "and no more"); if (!done) { for (int i = pass; i < k; ++i) { e.signal(); drain(a); } rf_check(done, "released"); } rf_check(a.empty(), "empty"); }
		rf_reach("signals end");
	}
	// waiters of an event
	void h_many_waiters() {
		{ got.clear(); got.reserve(8192); Leak leak; sched a; event_t e; int n = many("n"), how = rf_choose("how", 4), fin = 0; rf_clock_ns = 10; for (int i = 0; i < n; ++i) a + [&, i]() -> future_t<> { bool r = true; if (how < 2) co_await e; else r = co_await e.wait_for(ns(1000 + (how == 3 ? 0 : i))); rf_check(r == (how != 3), "signalled, or timed out"); got.push_back(i); ++fin; };
			drain(a); rf_check(fin == 0, "all wait"); if (how == 1) e.signal_all(); else if (how == 3) rf_clock_ns += 2000; else for (int i = 0; i < n; ++i) { e.signal(); } drain(a); inorder(n, "every waiter once, in the order they came"); rf_clock_ns += 5000; drain(a); rf_check(a.empty() && a.timer()->empty(), "empty"); bool late = false; a + [&]() -> future_t<> { co_await e; late = true; }; drain(a); rf_check(!late, "no signal is left"); e.signal(); drain(a); rf_check(late, "a later wait"); }
		rf_reach("waiters end"); got = {};
	}
	// owners of a mutex
	void h_many_locks() {
		{ got.clear(); got.reserve(8192); Leak leak; sched a; mutex_t m; int how = rf_choose("how", 2), n = many("n", !how), other = 0, mine = 0; bool in = false;
			if (how == 0) { for (int i = 0; i < n; ++i) rf_check(m.try_lock(&mine), "its owner may lock it again"); for (int i = 0; i < n; ++i) { rf_check(!m.try_lock(&other), "held until as many unlocks"); m.unlock(&mine); } rf_check(m.try_lock(&other), "free after as many unlocks"); m.unlock(&other); }
			else { m.lock(&mine); for (int i = 0; i < n; ++i) a + [&, i]() -> future_t<> { auto g = co_await m.lock(); rf_check(!in, "one owner at a time"); in = true; got.push_back(i); co_await yield(); in = false; }; drain(a); rf_check(got.empty(), "all wait"); m.unlock(&mine); for (int i = 0; i < 3 * n && !a.empty(); ++i) batch(a); drain(a); inorder(n, "every waiter once, in the order they came"); rf_check(m.try_lock(&other), "free"); m.unlock(&other); rf_check(a.empty(), "empty"); } }
		rf_reach("locks end"); got = {};
	}
	// big channels: no write waits before the capacity is used up; many waiting writers and readers
	void h_many_chan() {
		{ got.clear(); got.reserve(8192); Leak leak; sched a; static const int caps[] = {0, 126, 127, 128, 254, 255, 256, 257, 1025, 65534, 65535, 65536, 1 << 20}; int cap = caps[rf_choose("cap", 13)]; { channel_t<int> ch(cap); rf_check(ch.capacity() == cap, "capacity"); int w = 0, r = 0, n = cap <= 1025 ? cap + 300 : 5; bool rd = n > 5 && rf_choose("readers", 2); int rot = n > 5 && !rd ? rf_choose("rot", 2) : 0;
			if (rot) { a + [&]() -> future_t<> { for (int i = 0; i < cap - 1; ++i) { co_await (ch << i); int x = co_await ch; rf_check(x == i, "a value as it was written"); } }; for (int i = 0; i < 3 * cap && !a.empty(); ++i) batch(a); drain(a); }
			if (rd) { for (int i = 0; i < n; ++i) a + [&, i]() -> future_t<> { int x = co_await ch; got.push_back(x); ++r; }; drain(a); rf_check(r == 0, "all readers wait"); for (int i = 0; i < n; ++i) a + [&, i]() -> future_t<> { co_await (ch << i); ++w; }; drain(a); rf_check(w == n && r == n, "each write meets a reader"); inorder(n, "every value once, in order"); }
			else { for (int i = 0; i < n; ++i) a + [&, i]() -> future_t<> { co_await (ch << i); ++w; }; drain(a); rf_check(w == (n < cap ? n : cap), "writes wait exactly when the capacity is used up");
				a + [&]() -> future_t<> { for (int i = 0; i < n; ++i) { int x = co_await ch; got.push_back(x); } }; drain(a); rf_check(w == n, "every writer goes on"); inorder(n, "every value once, in order"); } rf_check(a.empty(), "empty"); } }
		rf_reach("chan end"); got = {};
	}
	// timers: more than fit into any buffer, armed before or by a callback, some stopped
	void h_many_timers() {
		{ got.clear(); got.reserve(8192); Leak leak; sched a; int n = many("n"), stops = rf_choose("stop", 3), by = rf_choose("by", 3), told = 0; std::vector<timer_handler> h; rf_clock_ns = 10; auto arm = [&] { for (int i = 0; i < n; ++i) { auto cb = [&, i](bool c) { if (c) { ++told; rf_check(stops && i % 2 == stops - 1, "cancelled exactly if stopped"); } else { rf_check(rf_clock_ns >= 10 + 1000 + i / 2, "not early"); got.push_back(i); } }; h.push_back(a.timer()->add_handler(at(10 + 1000 + i / 2), cb)); } };
			h.reserve(n); if (by == 0) arm(); else if (by == 1) { arm(); batch(a); } else { a.timer()->add(ns(0), [&](bool) { arm(); }); batch(a); rf_check((int)h.size() == n, "armed by a callback"); }
			if (stops) for (int i = stops - 1; i < n; i += 2) rf_check(h[i].stop(), "stopped"); batch(a); rf_check(got.empty(), "none due"); rf_clock_ns = 10 + 1000 + n / 4; batch(a); int k = 0; int due = 0; for (int i = 0; i < n; ++i) if (i / 2 <= n / 4 && !(stops && i % 2 == stops - 1)) ++due; rf_check((int)got.size() == due, "exactly those due"); rf_clock_ns += 100000; batch(a); for (int i = 0; i < n; ++i) { if (stops && i % 2 == stops - 1) continue; rf_check(k < (int)got.size() && got[k] == i, "in deadline order, equal ones as armed"); ++k; } rf_check(k == (int)got.size(), "each once"); rf_check(told == (stops ? (n + 2 - stops) / 2 : 0), "each stopped one told once"); rf_check(a.timer()->empty() && a.empty(), "empty"); h.clear(); }
		rf_reach("timers end"); got = {};
	}
	// sleepers
	void h_many_sleepers() {
		{ got.clear(); got.reserve(8192); Leak leak; sched a; int n = many("n"), how = rf_choose("how", 3), canc = 0; rf_clock_ns = 10; for (int i = 0; i < n; ++i) a + [&, i]() -> future_t<> { try { co_await sleep_for(ns(how == 1 ? 100 : 100 + i)); got.push_back(i); } catch (canceled_exception&) { ++canc; } };
			drain(a); rf_check(got.empty(), "all sleep"); if (how == 2) a.timer()->clear(); else { rf_clock_ns += 50; drain(a); rf_check(got.empty(), "not early"); rf_clock_ns += 100000; } drain(a); if (how == 2) rf_check(canc == n, "each is told that its timer was cleared"); else inorder(n, "each once, in deadline order"); rf_check(a.empty() && a.timer()->empty(), "empty"); }
		rf_reach("sleepers end"); got = {};
	}
	// references to stop states, and callbacks
	void h_many_stops() {
		{ got.clear(); got.reserve(8192); Leak leak; int n = many("n", 1), how = rf_choose("how", 2); if (how) n = n > 1030 ? 1030 : n; stop_source s; 
			if (how == 0) { { std::vector<stop_token> t; t.reserve(n); for (int i = 0; i < n; ++i) t.push_back(s.get_token()); std::vector<stop_source> ss(n, s); { std::vector<stop_token> u(t); } rf_check(t[n - 1].stop_possible() && !t[0].stop_requested(), "possible"); { stop_source d = std::move(s); ss.clear(); t[0] = t[1]; rf_check(t[n - 1].stop_possible(), "a source is left"); } rf_check(!t[n - 1].stop_possible() && !t[0].stop_requested(), "not possible without sources"); } }
			else { using CB = stop_callback<std::function<void()>>; std::vector<std::unique_ptr<CB>> c; for (int i = 0; i < n; ++i) c.push_back(std::make_unique<CB>(s.get_token(), std::function<void()>([&, i] { got.push_back(i); }))); int gone = rf_choose("gone", 3); for (int i = 0; i < n; ++i) if (gone == 1 ? i % 2 : gone == 2 && i % 3 == 0) c[i].reset(); int left = 0; for (auto& x : c) left += x != nullptr; rf_check(s.request_stop(), "first request"); rf_check((int)got.size() == left, "each callback runs once"); std::vector<char> seen(n); for (int i : got) { rf_check(c[i] && !seen[i], "only those registered, once"); seen[i] = 1; } c.clear(); } }
		rf_reach("stops end"); got = {};
	}
	// children of when_all and when_any
	void h_many_when() {
		{ Leak leak; sched a; int n = many("n"), any = rf_choose("any", 2), fin = 0, ended = 0; event_t e; auto f = [&](int i) -> future_t<int> { co_await e; ++ended; co_return i; }; a + [&]() -> future_t<> { std::vector<future_t<int>> c; for (int i = 0; i < n; ++i) c.push_back(f(i)); if (any) { auto r = co_await when_any(a, c); rf_check(r.first == 0 && any_cast<int>(r.second) == 0 && ended >= 1, "the first"); } else { auto r = co_await when_all(a, c); rf_check(ended == n && (int)r.size() == n, "after the last of them"); for (int i = 0; i < n; ++i) rf_check(r[i] == i, "each result in its own position"); } ++fin; };
			drain(a); rf_check(!fin, "waits"); e.signal(); drain(a); rf_check(fin == any, "not before the last"); for (int i = 1; i < n; ++i) { rf_check(fin == any, "not before the last"); e.signal(); drain(a); } rf_check(fin == 1 && ended == n && a.empty(), "once, and all end"); }
		rf_reach("when end");
	}
	// deep nesting and long loops: results and exceptions come through
	static future_t<int> deep(int d, int v, bool thr, int& down) { Tr t(d); if (d == 0) { co_await yield(); if (thr) throw v; co_return v; } int r = co_await deep(d - 1, v, thr, down); ++down; co_return r + 1; }
	void h_many_deep() {
		{ Leak leak; sched a; int n = many("n"), v = rf_int("v"), fin = 0, down = 0; bool thr = rf_choose("throw", 2); a + [&]() -> future_t<> { try { int r = co_await deep(n, v, thr, down); rf_check(!thr && r == (int)((unsigned)v + n), "the result comes through"); } catch (int x) { rf_check(thr && x == v, "the exception comes through"); } ++fin; }; for (int i = 0; i < 3 * n + 10 && !a.empty(); ++i) batch(a); drain(a); rf_check(fin == 1 && a.empty() && down == (thr ? 0 : n), "once"); }
		rf_check(Tr::live == 0, "frames released"); rf_reach("deep end");
	}
	// deep trees: root, task and scheduler are those of the whole tree, before and after it moved to another scheduler
	struct DV { sched *a, *b; state_base_t* root; task_t* task; int n = 0; };
	static future_t<int> deepvia(int d, DV& w, int at) { Tr t(d); if (d == at) co_await via(*w.b); rf_check(librf_current_scheduler() == (d <= at ? w.b : w.a), "its own scheduler"); if (d) { int r = co_await deepvia(d - 1, w, at); ++w.n; rf_check(librf_current_scheduler() == w.b, "the tree has moved"); co_return r + 1; } rf_check(librf_root_state() == w.root, "the outermost coroutine is the root"); rf_check(librf_current_task() == w.task && w.task, "the task is that of the tree"); co_await yield(); rf_check(librf_current_scheduler() == w.b && librf_current_task() == w.task, "still"); co_return 5; }
	void h_many_via() {
		{ Leak leak; sched a, b; DV w{&a, &b, nullptr, nullptr}; int n = many("n"), fin = 0, where = rf_choose("where", 3); w.task = a + [&]() -> future_t<> { w.root = librf_root_state(); int r = co_await deepvia(n, w, where == 0 ? 0 : where == 1 ? n / 2 : n); rf_check(r == 5 + n && w.n == n, "the result comes through"); ++fin; }; for (int i = 0; i < 3 * n + 10 && !a.empty(); ++i) batch(a); drain(a); rf_check(a.empty() && !b.empty() && !fin, "the old one counts it no more"); for (int i = 0; i < 3 * n + 10 && !b.empty(); ++i) batch(b); drain(b); rf_check(b.empty() && fin == 1, "ends on the new one"); }
		rf_check(Tr::live == 0, "frames released"); rf_reach("via end");
	}
	static generator_t<int> gen(int n, int& steps) { Tr t(1); for (int i = 0; i < n; ++i) { ++steps; co_yield i; } co_return n; }
	void h_many_gen() {
		{ Leak leak; int n = many("n", 1), steps = 0, k = 0, stop = rf_choose("stop", 2) ? n / 2 : n + 5; { auto g = gen(n, steps); for (const int& x : g) { rf_check(x == k && steps == (k < n ? k + 1 : n), "lazily, in order"); if (++k == stop) break; } } rf_check(k == (stop < n ? stop : n + 1), "all of them"); }
		rf_check(Tr::live == 0, "locals released"); rf_reach("gen end");
	}
	// copies of awaitables, futures, events: the state lives as long as the last
	void h_many_refs() {
		{ Leak leak; sched a; int n = many("n"), r = 0, v = rf_int("v"); { awaitable_t<int> w; { std::vector<awaitable_t<int>> c(n, w); std::vector<awaitable_t<int>> d(c); } auto f = w.get_future(); auto get = [&r](future_t<int> f) -> future_t<> { r = co_await f; }; a + get(std::move(f)); drain(a); { std::vector<awaitable_t<int>> c(n, w); c.resize(1); w = c[0]; } w.set_value(v); drain(a); rf_check(r == v, "the value comes through"); rf_check(a.empty(), "empty"); }
			{ event_t e; std::vector<event_t> c(n, e); mutex_t m; std::vector<mutex_t> d(n, m); c.clear(); e.signal(); int dummy; d.clear(); rf_check(m.try_lock(&dummy), "usable"); m.unlock(&dummy); } }
		rf_reach("refs end");
	}
	// one wait for many events
	void h_many_all() {
		{ Leak leak; sched a; static const int t[] = {9, 33, 65, 130}; int n = t[rf_choose("n", 4)], res = 0; bool timed = rf_choose("timed", 2), back = rf_choose("back", 2); std::vector<event_t> ev; for (int i = 0; i < n; ++i) ev.emplace_back(); rf_clock_ns = 10; a + [&]() -> future_t<> { bool r = timed ? co_await event_t::wait_all_for(ns(1000), ev) : co_await event_t::wait_all(ev); res = r ? 1 : 2; }; drain(a);
			for (int i = 0; i < n; ++i) { rf_check(!res, "not before the last"); ev[back ? n - 1 - i : i].signal(); drain(a); } rf_check(res == 1, "after the last"); rf_clock_ns += 5000; drain(a); rf_check(a.empty(), "empty"); int p = 0; for (auto& e : ev) a + [&]() -> future_t<> { co_await e; ++p; }; drain(a); rf_check(p == 0, "exactly one signal of each is used"); for (auto& e : ev) e.signal(); drain(a); rf_check(p == n, "usable"); }
		rf_reach("all end");
	}
}

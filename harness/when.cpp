#include "util.h"
#include <vector>
// children that end when the harness lets them; the order in which they end is recorded
struct WW {
	static const int M = 4; event_t ev[M]; int order[M]; int nend = 0; int ended[M] = {}; int v[M]; int completions = 0; int kind[M]; bool sig[M] = {};
	void end(int i) { rf_check(!ended[i], "a child ends once"); ended[i] = 1; order[nend++] = i; }
	future_t<int> co(int i) { Tr local(i); switch (kind[i]) { case 0: break; case 1: co_await yield(); break; case 2: co_await ev[i]; break; case 3: co_await sleep_for(ns(100 * (i + 1))); break; case 4: co_await yield(); co_await yield(); break; } end(i); co_return v[i]; }
	future_t<> cov(int i) { int r = co_await co(i); (void)r; }
	future_t<Tr> cot(int i) { int r = co_await co(i); co_return Tr(r); }
	void kinds(int n, int K) { for (int i = 0; i < n; ++i) { kind[i] = rf_choose("kind", K); v[i] = rf_int("v"); } }
	// lets waiting children go on, one at a time, in every order
	void pump(sched& a, int n) { for (int r = 0; r < 12; ++r) { drain(a); int w[M], c = 0; for (int i = 0; i < n; ++i) if ((kind[i] == 2 && !sig[i])) w[c++] = i; bool timers = !a.timer()->empty(); if (!c && !timers) break; int k = rf_choose("next", c + timers); if (k == c) rf_clock_ns += 100; else { sig[w[k]] = true; ev[w[k]].signal(); } } drain(a); }
};
template<int F, class... A> static auto all_form(sched& a, A&&... x) { if constexpr (F == 0) return when_all(a, std::forward<A>(x)...); else return when_all(std::forward<A>(x)...); }
template<int F, class... A> static auto any_form(sched& a, A&&... x) { if constexpr (F == 0) return when_any(a, std::forward<A>(x)...); else return when_any(std::forward<A>(x)...); }
template<int F> static future_t<> all_prog(WW& w, sched& a, int n) {
	std::vector<future_t<int>> c; for (int i = 0; i < n; ++i) c.push_back(w.co(i));
	std::vector<int> r = co_await all_form<F>(a, c); rf_check(w.nend == n, "completes after the last of them"); rf_check((int)r.size() == n, "one result each"); for (int i = 0; i < n; ++i) rf_check(r[i] == w.v[i], "each result in its own position"); ++w.completions;
}
template<int F> static future_t<> any_prog(WW& w, sched& a, int n) {
	std::vector<future_t<int>> c; for (int i = 0; i < n; ++i) c.push_back(w.co(i));
	auto r = co_await any_form<F>(a, c); ++w.completions; if (!n) { rf_check(r.first == -1, "nothing finished"); co_return; }
	rf_check(w.nend >= 1, "completes after the first"); rf_check(r.first == w.order[0], "the index of the first that finished"); rf_check(any_cast<int>(r.second) == w.v[r.first], "with its result");
}
static void late(WW& w, int n) { rf_check(w.nend == n, "the others run on to their end"); rf_check(w.completions == 1, "completes exactly once"); }
extern "C" {
	void h_when_all() { int K = rf_param("kinds", 4), N = rf_param("n", 3); { Leak leak; sched a; { WW w; int n = rf_choose("n", N + 1); w.kinds(n, K); rf_clock_ns = 10; if (rf_choose("form", 2)) a + all_prog<0>(w, a, n); else a + all_prog<1>(w, a, n); drain(a); bool wait = false; for (int i = 0; i < n; ++i) wait |= w.kind[i] == 2 || w.kind[i] == 3; rf_check(w.completions == !wait, "completes at once exactly when nothing is left to wait for"); w.pump(a, n); late(w, n); rf_check(a.empty(), "empty"); } } rf_check(Tr::live == 0, "frames released"); rf_reach("all end"); }
	void h_when_any() { int K = rf_param("kinds", 4), N = rf_param("n", 3); { Leak leak; sched a; { WW w; int n = rf_choose("n", N + 1); w.kinds(n, K); rf_clock_ns = 10; if (rf_choose("form", 2)) a + any_prog<0>(w, a, n); else a + any_prog<1>(w, a, n); drain(a); bool done = n == 0; for (int i = 0; i < n; ++i) done |= w.kind[i] < 2 || w.kind[i] == 4; rf_check(w.completions == done, "completes exactly when one has finished"); w.pump(a, n); late(w, n); rf_check(a.empty(), "empty"); } } rf_check(Tr::live == 0, "frames released"); rf_reach("any end"); }
	// the variadic forms, with children of different types
	void h_when_mixed() {
		{ Leak leak; sched a; { WW w; w.kinds(3, 4); rf_clock_ns = 10; int form = rf_choose("form", 4); int pos = -1;
			if (form < 2) a + [&]() -> future_t<> { 
				auto chk = [&](auto& r) { rf_check(w.nend == 3, "completes after the last of them"); rf_check(std::get<0>(r) == w.v[0] && std::get<2>(r).v == w.v[2], "each result in its own position"); ++w.completions; };
				if (form) { auto r = co_await when_all(a, w.co(0), w.cov(1), [&] { return w.cot(2); }); chk(r); } else { auto r = co_await when_all(w.co(0), w.cov(1), [&] { return w.cot(2); }); chk(r); } };
			else a + [&]() -> future_t<> {
				auto chk = [&](auto& r) { rf_check(r.first >= 0 && w.ended[r.first], "one that has finished"); if (r.first == 0) rf_check(any_cast<int>(r.second) == w.v[0], "with its result"); if (r.first == 1) rf_check(!r.second.has_value(), "no result"); if (r.first == 2) rf_check(any_cast<Tr>(r.second).v == w.v[2], "with its result"); pos = r.first; ++w.completions; };
				if (form == 3) { auto r = co_await when_any(a, w.co(0), w.cov(1), [&] { return w.cot(2); }); chk(r); } else { auto r = co_await when_any(w.co(0), w.cov(1), [&] { return w.cot(2); }); chk(r); } };
			w.pump(a, 3); late(w, 3); rf_log(pos); rf_check(a.empty(), "empty"); } }
		rf_check(Tr::live == 0, "frames and values released"); rf_reach("mixed end");
	}
	// children that are not coroutines: event waits, sleeps, channel reads, nested waits
	void h_when_waits() {
		{ Leak leak; sched a; { event_t e1, e2; channel_t<int> ch(1); int fin = 0, idx = -1, val = rf_int("v"); rf_clock_ns = 10; int all = rf_choose("all", 3); bool pre = rf_choose("pre", 2); if (pre) e1.signal(); int got = 0;
			a + [&]() -> future_t<> { 
				if (all == 0) { auto r = co_await when_all(a, e1.wait(), sleep_for(ns(100)), [&]() -> future_t<int> { int x = co_await ch; co_return x; }, e2.wait_for(ns(200))); rf_check(std::get<0>(r) && std::get<2>(r) == val, "results"); got = std::get<3>(r); }
				else if (all == 1) { auto r = co_await when_any(a, e1.wait(), sleep_for(ns(100)), [&]() -> future_t<int> { int x = co_await ch; co_return x; }); idx = r.first; if (idx == 0) rf_check(any_cast<bool>(r.second), "result"); if (idx == 2) rf_check(any_cast<int>(r.second) == val, "result"); }
				else { auto r = co_await when_any(a, [&]() -> future_t<> { co_await when_all(a, e1.wait(), [&]() -> future_t<int> { int x = co_await ch; co_return x; }); }, sleep_for(ns(100))); idx = r.first; }
				++fin; };
			drain(a); bool s1 = pre, s2 = false, c = false, t = false; int first = all == 1 && pre ? 0 : -1; auto ex = [&](int w) { if (all == 1 && first < 0) first = w; };
			for (int i = 0; i < 4; ++i) { int o[4], n = 0; if (!s1) o[n++] = 0; if (!s2) o[n++] = 1; if (!c) o[n++] = 2; if (!t) o[n++] = 3; if (!n) break; int k = o[n == 1 ? 0 : rf_choose("next", n)];
				if (k == 0) { s1 = true; e1.signal(); ex(0); } if (k == 1) { s2 = true; e2.signal(); } if (k == 2) { c = true; a + [&]() -> future_t<> { co_await (ch << val); }; ex(2); } if (k == 3) { t = true; rf_clock_ns += 100; ex(1); } if (all == 2 && first < 0) { if (s1 && c) first = 0; else if (t) first = 1; }
				drain(a); if (all == 0) rf_check(fin == (s1 && s2 && c && t), "after the last of them"); else rf_check(fin == (first >= 0), "after the first"); }
			if (all == 0) rf_check(got == 1, "signalled in time"); else rf_check(idx == first, "the first that finished"); rf_clock_ns += 500; drain(a); rf_check(fin == 1, "once"); rf_check(a.empty(), "empty"); } }
		rf_reach("waits end");
	}
	// the object returned is awaited later: before, while and after the children end
	void h_when_later() {
		{ Leak leak; sched a; { WW w; int n = rf_choose("n", 3); for (int i = 0; i < n; ++i) { int k = rf_choose("kind", 4); w.kind[i] = k == 3 ? 4 : k; w.v[i] = rf_int("v"); } int y = rf_choose("yields", 7); bool any = rf_choose("any", 2); rf_clock_ns = 10;
			a + [&]() -> future_t<> { std::vector<future_t<int>> c; for (int i = 0; i < n; ++i) c.push_back(w.co(i));
				if (any) { auto f = when_any(a, c); for (int i = 0; i < y; ++i) co_await yield(); auto r = co_await f; ++w.completions; if (n) rf_check(r.first == w.order[0] && any_cast<int>(r.second) == w.v[r.first], "the first, with its result"); }
				else { auto f = when_all(a, c); for (int i = 0; i < y; ++i) co_await yield(); auto r = co_await f; ++w.completions; rf_check(w.nend == n, "after the last"); for (int i = 0; i < n; ++i) rf_check(r[i] == w.v[i], "each result in its own position"); } };
			w.pump(a, n); late(w, n); rf_check(a.empty(), "empty"); } }
		rf_check(Tr::live == 0, "frames released"); rf_reach("later end");
	}
	// same for the forms that are coroutines themselves: stored, or started as a task
	void h_when_stored() {
		{ Leak leak; sched a; { WW w; w.kinds(2, 3); int y = rf_choose("yields", 3), form = rf_choose("form", 4); rf_clock_ns = 10;
			if (form < 2) a + [&]() -> future_t<> { 
				if (form) { auto f = when_any(w.co(0), w.cov(1)); for (int i = 0; i < y; ++i) co_await yield(); auto r = co_await f; ++w.completions; rf_check(r.first >= 0 && w.ended[r.first], "one that finished"); if (r.first == 0) rf_check(any_cast<int>(r.second) == w.v[0], "with its result"); }
				else { auto f = when_all(w.co(0), w.cov(1)); for (int i = 0; i < y; ++i) co_await yield(); auto r = co_await f; ++w.completions; rf_check(w.nend == 2 && std::get<0>(r) == w.v[0], "after the last, with the results"); } };
			else { if (form == 2) a + when_all(w.co(0), w.cov(1)); else a + when_any(w.co(0), w.cov(1)); ++w.completions; }
			w.pump(a, 2); late(w, 2); rf_check(a.empty(), "empty"); } }
		rf_check(Tr::live == 0, "frames released"); rf_reach("stored end");
	}
	// the object returned is dropped without being waited for, at any moment; the children run on to their end
	void h_when_drop() {
		{ Leak leak; sched a; { WW w; int n = rf_choose("n", 3); for (int i = 0; i < n; ++i) { int k = rf_choose("kind", 4); w.kind[i] = k == 3 ? 4 : k; w.v[i] = rf_int("v"); } int y = rf_choose("yields", 4), form = rf_choose("form", 6); rf_clock_ns = 10;
			auto hold = [&](auto f) -> future_t<> { for (int i = 0; i < y; ++i) co_await yield(); (void)f; ++w.completions; };
			if (form < 3) { std::vector<future_t<int>> c; for (int i = 0; i < n; ++i) c.push_back(w.co(i)); if (form == 0) a + hold(when_all(a, c)); if (form == 1) a + hold(when_any(a, c)); if (form == 2) { { auto f = when_all(a, c); (void)f; } ++w.completions; } }
			else { n = 2; w.kind[1] = w.kind[0] == 2 ? 1 : 2; w.v[1] = w.v[0] + 1; if (n < 1) w.kind[0] = 0; if (form == 3) a + hold(when_all(a, w.co(0), w.cot(1))); if (form == 4) a + hold(when_any(a, w.co(0), w.cot(1))); if (form == 5) { { auto f = when_all(a, w.cov(0), w.cot(1)); (void)f; } ++w.completions; } }
			w.pump(a, n); late(w, n); rf_check(a.empty(), "empty"); } }
		rf_check(Tr::live == 0, "frames and values released"); rf_reach("drop end");
	}
	// the same with vector<bool> results, which are written through a proxy
	void h_when_drop_bool() {
		{ Leak leak; sched a; { event_t e; int y = rf_choose("yields", 3); bool v0 = rf_choose("v0", 2), v1 = rf_choose("v1", 2), keep = rf_choose("keep", 2); int ends = 0, fin = 0;
			auto co = [&](bool r) -> future_t<bool> { co_await e; ++ends; co_return r; };
			a + [&]() -> future_t<> { std::vector<future_t<bool>> c; c.push_back(co(v0)); c.push_back(co(v1)); auto f = when_all(a, c); for (int i = 0; i < y; ++i) co_await yield(); if (keep) { auto r = co_await f; rf_check(r.size() == 2 && r[0] == v0 && r[1] == v1, "each result in its own position"); } ++fin; };
			drain(a); rf_check(fin == !keep, "waits for both"); e.signal(); drain(a); e.signal(); drain(a); rf_check(fin == 1 && ends == 2, "ended"); rf_check(a.empty(), "empty"); } }
		rf_reach("drop bool end");
	}
	// children that end with an exception have finished as well: the waiter goes on at the same time and gets the first of the exceptions
	void h_when_throw() {
		{ Leak leak; sched a; { WW w; bool thr[4]; int n = rf_choose("n", (int)rf_param("n", 3)) + 1; for (int i = 0; i < n; ++i) { int k = rf_choose("kind", 3); w.kind[i] = k; w.v[i] = rf_int("v"); thr[i] = rf_choose("throws", 2); } int form = rf_choose("form", 5), late_ = form < 2 ? rf_choose("yields", 3) : 0; rf_clock_ns = 10; bool got = false; int caught = 0;
			struct Ex { int v; Tr t; };
			auto ch = [&](int i) -> future_t<int> { int r = co_await w.co(i); if (thr[i]) throw Ex{r, Tr(i)}; co_return r; };
			auto chv = [&](int i) -> future_t<> { int r = co_await w.co(i); if (thr[i]) throw Ex{r, Tr(i)}; };
			a + [&]() -> future_t<> {
				int first = -1, all = form == 0 || form == 2 || form == 4;
				try {
					if (form < 2) { std::vector<future_t<int>> c; for (int i = 0; i < n; ++i) c.push_back(ch(i));
						if (form == 0) { auto f = when_all(a, c); for (int i = 0; i < late_; ++i) co_await yield(); auto r = co_await f; for (int i = 0; i < n; ++i) rf_check(r[i] == w.v[i] && !thr[i], "each result in its own position"); }
						else { auto f = when_any(a, c); for (int i = 0; i < late_; ++i) co_await yield(); auto r = co_await f; rf_check(r.first == w.order[0] && any_cast<int>(r.second) == w.v[r.first] && !thr[r.first], "the first, with its result"); } }
					else if (n == 1) { if (form == 2) co_await when_all(chv(0)); if (form == 3) { auto r = co_await when_any(chv(0)); rf_check(r.first == 0, "the first"); } if (form == 4) co_await when_all(a, [&] { return ch(0); }); rf_check(!thr[0], "its exception is not lost"); }
					else { if (n == 3) n = 2; if (form == 2) { auto r = co_await when_all(ch(0), chv(1)); rf_check(std::get<0>(r) == w.v[0], "result"); rf_check(!thr[0] && !thr[1], "an exception is not lost"); } if (form == 3) { auto r = co_await when_any(chv(0), ch(1)); rf_check(r.first == w.order[0] && !thr[r.first], "the first"); } if (form == 4) { auto r = co_await when_all(a, [&] { return ch(0); }, ch(1)); rf_check(std::get<0>(r) == w.v[0] && std::get<1>(r) == w.v[1] && !thr[0] && !thr[1], "results"); } }
				} catch (Ex& e) { got = true; for (int i = 0; i < n; ++i) if (thr[w.order[i < w.nend ? i : 0]]) { first = w.order[i]; break; } if (!all) first = w.order[0]; rf_check(first >= 0 && thr[first], "an exception that a child threw"); e.t.chk(); rf_check(e.t.v == first && e.v == w.v[first], "the first of the exceptions, as thrown"); ++caught; }
				if (all) rf_check(w.nend == n, "completes after the last of them"); else rf_check(w.nend >= 1, "completes after the first"); ++w.completions; };
			drain(a); n = form >= 2 && n == 3 ? 2 : n; bool wait = false, done = false; for (int i = 0; i < n; ++i) { wait |= w.kind[i] == 2; done |= w.kind[i] < 2; } bool isall = form == 0 || form == 2 || form == 4; rf_check(w.completions == (isall ? !wait : done), "completes exactly when it has what it waits for");
			w.pump(a, n); late(w, n); rf_check(got == (caught == 1), "once"); rf_check(a.empty(), "empty"); } }
		rf_check(Tr::live == 0, "frames, values and exceptions released"); rf_reach("throw end");
	}
}

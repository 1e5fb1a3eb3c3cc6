#include "util.h"
// children finish on another thread's scheduler while the parent starts to wait, waits, or has been told
struct Th { sched* s; sched* other; int n; static void run(void* p) { Th* t = (Th*)p; local_scheduler_t ls(*t->s); for (int i = 0; i < t->n; ++i) t->s->run_one_batch(); } };
static void rest(sched& a, sched& b) { for (int i = 0; i < 40; ++i) { bool x, y; { local_scheduler_t l(a); x = a.run_one_batch(); } { local_scheduler_t l(b); y = b.run_one_batch(); } if (!x && !y && a.empty() && b.empty()) break; } }
template<bool ANY, int N> static void prog() {
	{ Leak leak; sched a, b; int fin = 0, nend = 0; int stay = rf_choose("stay", 2); int v[3]; for (int i = 0; i < N; ++i) v[i] = 10 + i; std::atomic<int> ended = 0;
		auto child = [&](int i) -> future_t<int> { if (!(stay && i == 0)) co_await via(b); ++ended; co_return v[i]; };
		a + [&]() -> future_t<> { std::vector<future_t<int>> c; for (int i = 0; i < N; ++i) c.push_back(child(i));
			if constexpr (ANY) { auto r = co_await when_any(a, c); rf_check(r.second.has_value(), "the result is there when the waiter goes on"); rf_check(r.first >= 0 && r.first < N && any_cast<int>(r.second) == v[r.first], "index and result belong together"); rf_check(ended >= 1, "after the first"); } else { auto f = when_all(a, c); if (rf_choose("later", 2)) { co_await yield(); co_await yield(); } auto r = co_await f; rf_check(ended == N, "after the last"); for (int i = 0; i < N; ++i) rf_check(r[i] == v[i], "each result in its own position"); }
			rf_check(librf_current_scheduler() == &a, "resumed on its own scheduler"); ++fin; };
		{ local_scheduler_t l(a); a.run_one_batch(); }
		Th ta{&a, &b, (int)rf_param("na", 3)}, tb{&b, &a, (int)rf_param("nb", 2)}; int t = rf_spawn(Th::run, &tb); Th::run(&ta); rf_join(t);
		rest(a, b); rf_check(fin == 1, "completes exactly once"); rf_check(ended == N, "the others run on"); rf_check(a.empty() && b.empty(), "empty"); (void)nend; }
	rf_reach("when mt end");
}
// results that share a word: children of bool end on two threads at once
static void prog_bool() {
	{ Leak leak; sched a, b; int fin = 0; int v = rf_choose("v", 4), form = rf_choose("form", 2);
		auto child = [&](int i) -> future_t<bool> { if (i == 1) co_await via(b); co_return (v >> i) & 1; };
		a + [&]() -> future_t<> { if (form) { std::vector<future_t<bool>> c; c.push_back(child(0)); c.push_back(child(1)); auto r = co_await when_all(a, c); rf_check(r[0] == (bool)(v & 1) && r[1] == (bool)(v >> 1), "each result in its own position"); } else { auto r = co_await when_all(a, child(0), child(1)); rf_check(std::get<0>(r) == (bool)(v & 1) && std::get<1>(r) == (bool)(v >> 1), "each result in its own position"); } ++fin; };
		{ local_scheduler_t l(a); a.run_one_batch(); }
		Th ta{&a, &b, 3}, tb{&b, &a, 2}; int t = rf_spawn(Th::run, &tb); Th::run(&ta); rf_join(t);
		rest(a, b); rf_check(fin == 1, "completes exactly once"); rf_check(a.empty() && b.empty(), "empty"); }
	rf_reach("when mt bool end");
}
// two children end with an exception at once on two threads: the waiter gets exactly one of them
template<bool ANY> static void prog_throw() {
	{ Leak leak; sched a, b; int fin = 0, got = -1; int stay = rf_choose("stay", 2), one = rf_choose("one", 2);
		auto child = [&](int i) -> future_t<int> { if (!(stay && i == 0)) co_await via(b); if (i == 0 || !one) throw 10 + i; co_return 10 + i; };
		a + [&]() -> future_t<> { try { std::vector<future_t<int>> c; c.push_back(child(0)); c.push_back(child(1)); if constexpr (ANY) { auto r = co_await when_any(a, c); rf_check(one && r.first == 1 && any_cast<int>(r.second) == 11, "the one without exception"); } else { auto r = co_await when_all(a, c); rf_fail("an exception is not lost"); } } catch (int x) { got = x; rf_check(x == 10 || (x == 11 && !one), "an exception that was thrown"); } rf_check(librf_current_scheduler() == &a, "resumed on its own scheduler"); ++fin; };
		{ local_scheduler_t l(a); a.run_one_batch(); }
		Th ta{&a, &b, 3}, tb{&b, &a, 2}; int t = rf_spawn(Th::run, &tb); Th::run(&ta); rf_join(t);
		rest(a, b); rf_check(fin == 1, "completes exactly once"); rf_check(ANY || got >= 10, "with the exception"); rf_check(a.empty() && b.empty(), "empty"); }
	rf_reach("when mt throw end");
}
extern "C" { void h_whenmt_all() { prog<false, 2>(); } void h_whenmt_any() { prog<true, 2>(); } void h_whenmt_all1() { prog<false, 1>(); } void h_whenmt_bool() { prog_bool(); } void h_whenmt_throw() { prog_throw<false>(); } void h_whenmt_throwany() { prog_throw<true>(); } }

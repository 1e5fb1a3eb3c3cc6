#include "util.h"
#include <atomic>
static bool strict = true;   // each scheduler is run by its own thread (the main thread, which is bound to the global scheduler, runs a and then finishes both)
// trees of coroutines that move between the schedulers of two threads
struct Th { sched* s; int n; static void run(void* p) { Th* t = (Th*)p; local_scheduler_t ls(*t->s); for (int i = 0; i < t->n; ++i) t->s->run_one_batch(); } };
static void rest(sched& a, sched& b) { for (int i = 0; i < 40; ++i) { bool x, y; { local_scheduler_t l(a); x = a.run_one_batch(); } { local_scheduler_t l(b); y = b.run_one_batch(); } if (!x && !y && a.empty() && b.empty()) break; } }
struct V {
	sched *a, *b; int active[2] = {}; std::atomic<int> steps = 0; int data = 0;
	void here_(int t, sched* s, scheduler_t* c) { rf_check(c == s, "its own scheduler"); rf_check(!strict || s != b || this_scheduler() == s, "on the thread that runs it"); rf_check(active[t] == 0, "one place at a time"); }
	future_t<int> leaf(int t, int kind, int v) {
		Tr l(v); here_(t, a, librf_current_scheduler()); int plain = v;
		co_await via(b); here_(t, b, librf_current_scheduler()); ++plain; rf_check(plain == v + 1, "what was written before is there");
		if (kind == 1) { co_await yield(); here_(t, b, librf_current_scheduler()); }
		if (kind == 2) { co_await via(a); here_(t, a, librf_current_scheduler()); }
		if (kind == 3) { co_await via(b); here_(t, b, librf_current_scheduler()); throw plain; }
		++steps; co_return plain;
	}
	future_t<int> mid(int t, int kind, int v) { Tr l(v); int r = co_await leaf(t, kind, v); here_(t, kind == 2 ? a : b, librf_current_scheduler()); co_return r + 1; }
};
template<int N> static void prog(bool back) {
	{ Leak leak; sched a, b; V w; w.a = &a; w.b = &b; int fin[N] = {}; int kind[N]; int k0 = rf_choose("kind", 4); bool deep = rf_choose("deep", 2);
		for (int t = 0; t < N; ++t) { kind[t] = (k0 + t) % 4; a + [&, t]() -> future_t<> { Tr l(t); int k = kind[t], r = -1; task_t* me = librf_current_task(); try { if (deep) { r = co_await w.mid(t, k, 10 * t); rf_check(r == 10 * t + 2, "the result"); } else { r = co_await w.leaf(t, k, 10 * t); rf_check(r == 10 * t + 1, "the result"); } rf_check(k != 3, "result"); } catch (int x) { rf_check(k == 3 && x == 10 * t + 1, "the exception"); } w.here_(t, k == 2 ? &a : &b, librf_current_scheduler()); rf_check(librf_current_task() == me, "the same task"); if (back && k != 2) { co_await via(a); w.here_(t, &a, librf_current_scheduler()); } ++fin[t]; }; }
		Th ta{&a, (int)rf_param("na", 3)}, tb{&b, (int)rf_param("nb", 2)}; int th = rf_spawn(Th::run, &tb); Th::run(&ta); rf_join(th);
		strict = false; rest(a, b); for (int t = 0; t < N; ++t) rf_check(fin[t] == 1, "each tree runs to its end once"); rf_check(a.empty() && b.empty(), "both schedulers become empty"); }
	rf_check(Tr::live == 0, "frames released"); rf_reach("via mt end");
}
extern "C" { void h_viamt_one() { prog<1>(false); } void h_viamt_back() { prog<1>(true); } void h_viamt_two() { prog<2>(false); } }

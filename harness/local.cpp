#include "util.h"
#include <set>
// what one thread declares, keeps and ends, in any order
struct TL {
	sched* s[2]; std::unique_ptr<local_scheduler_t> slot[3]; scheduler_t* made[3] = {}; scheduler_t* bound = nullptr; std::optional<sched> own; int ran = 0; int ops; scheduler_t* other = nullptr;
	scheduler_t* want() { return bound ? bound : &scheduler_t::g_scheduler; }
	void look() { rf_check(this_scheduler() == want(), "the current scheduler is the one this thread is bound to, or the global one"); }
	void begin(int i, int how) { 
		if (how == 0) slot[i] = std::make_unique<local_scheduler_t>(); else slot[i] = std::make_unique<local_scheduler_t>(*s[how - 1]);
		if (!bound) { if (how == 0) { made[i] = this_scheduler(); rf_check(made[i] != &scheduler_t::g_scheduler && made[i] != s[0] && made[i] != s[1] && made[i] != other, "a scheduler of its own"); rf_check(made[i]->empty(), "a new one"); bound = made[i]; } else bound = s[how - 1]; }
		look(); }
	void end(int i) { scheduler_t* m = made[i]; slot[i].reset(); if (m) { rf_check(!rf_is_live(m), "the scheduler it made is destroyed with it"); if (bound == m) bound = nullptr; made[i] = nullptr; } look(); for (int j = 0; j < 3; ++j) if (made[j]) rf_check(rf_is_live(made[j]), "others are not"); }
	void work() { scheduler_t* me = this_scheduler(); if (me == &scheduler_t::g_scheduler) return; int st = 0; *me + [&]() -> future_t<> { rf_check(librf_current_scheduler() == me && this_scheduler() == me, "runs on the thread's scheduler"); st = 1; co_await yield(); rf_check(this_scheduler() == me, "still"); st = 2; }; while (me->run_one_batch()); rf_check(st == 2, "ran to its end"); ++ran; }
	void prog(int points) {
		look(); while (ops) { --ops; if (points) rf_point(); look(); int c = rf_choose("op", 5);
			if (c == 0) break;
			if (c <= 2) { int i = rf_choose("slot", rf_param("slots", 2)); if (slot[i]) end(i); else begin(i, c == 1 ? 0 : 1 + (rf_param("ext", 2) > 1 ? rf_choose("ext", 2) : 0)); }
			if (c == 3) { if (own) { bool mine = bound == &*own; own.reset(); if (mine) bound = nullptr; } else { own.emplace(); if (!bound) bound = &*own; } }
			if (c == 4) work(); if (points) rf_point(); look(); }
		for (int i = 0; i < 3; ++i) if (slot[i]) end(i); if (own) { bool mine = bound == &*own; own.reset(); if (mine) bound = nullptr; } look();
	}
	static void run(void* p) { TL* t = (TL*)p; t->prog(rf_param("points", 0)); }
};
extern "C" {
	void h_local_seq() { { Leak leak; rf_check(this_scheduler() == &scheduler_t::g_scheduler, "the main thread uses the global scheduler"); sched a, b; { TL t; t.s[0] = &a; t.s[1] = &b; t.ops = rf_param("n", 6); rf_join(rf_spawn(TL::run, &t)); rf_log(t.ran); } rf_check(this_scheduler() == &scheduler_t::g_scheduler, "the main thread's is undisturbed"); } rf_reach("seq end"); }
	void h_local_main() { { Leak leak; scheduler_t* g = &scheduler_t::g_scheduler; sched a; rf_check(this_scheduler() == g, "global"); for (int i = 0; i < 3; ++i) { if (rf_choose("k", 2)) { local_scheduler_t l; rf_check(this_scheduler() == g, "the main thread keeps its scheduler"); } else { local_scheduler_t l(a); rf_check(this_scheduler() == g, "the main thread keeps its scheduler"); } rf_check(this_scheduler() == g, "afterwards as well"); } } rf_reach("main end"); }
	// two threads declare and end concurrently, while the main thread looks on
	void h_local_two() { { Leak leak; sched a, b, c, d; { TL t, u; t.s[0] = &a; t.s[1] = &b; u.s[0] = &c; u.s[1] = &d; t.ops = rf_param("n", 2); u.ops = rf_param("n", 2); int x = rf_spawn(TL::run, &t), y = rf_spawn(TL::run, &u); rf_point(); rf_check(this_scheduler() == &scheduler_t::g_scheduler, "the main thread's is undisturbed"); rf_join(x); rf_join(y); rf_check(this_scheduler() == &scheduler_t::g_scheduler, "the main thread's is undisturbed"); } } rf_reach("two end"); }
}

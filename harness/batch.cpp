#include "util.h"
// the back-off length: an arbitrary number at first, then pseudo-random (an adversary forever could keep two parties in step)
static int g_draws = 0; static unsigned g_lcg = 1; extern "C" int rand() { if (g_draws < (int)rf_param("draws", 4)) { ++g_draws; return rf_choose("rand", 2) * 3; } g_lcg = g_lcg * 1103515245u + 12345u; return (g_lcg >> 16) & 0x7fff; }
// a lock whose outcomes the solver picks: every try may fail (a bounded number of times), every call may throw
struct W { int held[8] = {}; int nheld = 0; int fails = 0; bool thr = false; bool thrown = false; int calls = 0; };
static W* w;
struct Boom { int id; };
struct Lk { int id;
	void lock() { rf_check(w->nheld == 0, "blocks on a lock only while holding none"); ++w->calls; if (w->thr && !w->thrown && rf_choose("lthrow", 2)) { w->thrown = true; throw Boom{id}; } take(); }
	bool try_lock() { ++w->calls; rf_check(!w->held[id], "tries a lock it does not already hold"); int o = rf_choose("try", w->thr && !w->thrown ? 3 : 2); if (o == 2) { w->thrown = true; throw Boom{id}; } if (o == 1 && w->fails > 0) { --w->fails; return false; } take(); return true; }
	void take() { rf_check(!w->held[id], "each lock is taken once"); w->held[id] = 1; ++w->nheld; }
	void unlock() noexcept { rf_check(w->held[id] == 1, "releases only what it holds, once"); w->held[id] = 0; --w->nheld; }
};
// an assemble over a list of pointers, as a user would write for move assignment
struct PA { std::vector<Lk*> v; size_t size() const { return v.size(); } Lk*& operator[](int i) { return v[i]; } void _Lock_ref(Lk* l) const { l->lock(); } bool _Try_lock_ref(Lk* l) const { return l->try_lock(); } void _Unlock_ref(Lk* l) const { l->unlock(); } void _Yield() const {} void _ReturnValue() const {} template<class U> U _ReturnValue(U x) const { return x; } };
static void all(int n, int v) { for (int i = 0; i < n; ++i) rf_check(w->held[i] == v, v ? "every lock of the batch is held" : "every lock of the batch is released"); rf_check(w->nheld == (v ? n : 0), "nothing else is held"); }
template<class G, class F> static void use(int n, F mk) {
	bool threw = false;
	try { G g = mk(); rf_check(!w->thrown, "an exception is not swallowed"); all(n, 1);
		switch (rf_choose("end", 4)) { case 0: break; case 1: g.unlock(); all(n, 0); g.unlock(); all(n, 0); break; case 2: { G h(std::move(g)); all(n, 1); if (rf_choose("u", 2)) { h.unlock(); all(n, 0); } } all(n, 0); break; default: { G h(std::move(g)); g.unlock(); all(n, 1); G k(std::move(h)); all(n, 1); } all(n, 0); break; }
	} catch (Boom& b) { threw = true; rf_log(b.id); }
	rf_check(threw == w->thrown, "an exception from a lock propagates, and no other"); all(n, 0); rf_log(w->calls); rf_log(threw);
}
extern "C" {
	void h_batch_mock() {
		int N = rf_param("n", 4), F = rf_param("fails", 3); bool thr = rf_param("thr", 0);
		{ Leak leak; W world; w = &world; world.fails = F; world.thr = thr; int n = rf_choose("n", N + 1);
			std::vector<Lk> v; for (int i = 0; i < n; ++i) v.push_back(Lk{i});
			if (rf_choose("ref", 2)) { std::vector<std::reference_wrapper<Lk>> r; for (auto& x : v) r.push_back(x); use<batch_lock_t<std::reference_wrapper<Lk>>>(n, [&] { return batch_lock_t<std::reference_wrapper<Lk>>(r); }); }
			else use<batch_lock_t<Lk>>(n, [&] { return batch_lock_t<Lk>(v); });
		}
		rf_reach("mock end");
	}
	void h_batch_assign() { // move assignment of guards
		{ Leak leak; W world; w = &world; Lk l[4] = {{0}, {1}, {2}, {3}}; PA a, b; a.v = {&l[0], &l[1]}; b.v = {&l[2], &l[3]}; std::vector<Lk> dummy(1);
			using G = batch_lock_t<Lk, std::vector<Lk>, PA>; { G x(dummy, a); int ho = rf_choose("released", 2); if (ho) x.unlock(); 
				rf_check(w->held[0] == !ho && w->held[1] == !ho, "held or released"); { W hide; int sv = world.nheld; world.nheld = 0; (void)hide; G y(dummy, b); world.nheld += sv; int o = rf_choose("o", 3); if (o == 0) x = std::move(y); else if (o == 1) y = std::move(x); else { y.unlock(); x = std::move(y); }
					if (o == 0) rf_check(!w->held[0] && !w->held[1] && w->held[2] && w->held[3], "assignment releases what the guard held and takes over the other's"); if (o == 1) rf_check(w->held[0] == !ho && w->held[1] == !ho && !w->held[2] && !w->held[3], "assignment releases what the guard held and takes over the other's"); if (o == 2) rf_check(w->nheld == 0, "an empty guard releases"); }
			}
			rf_check(w->nheld == 0, "everything released once"); }
		rf_reach("assign end");
	}
	// guards of mutexes: moved, assigned, unlocked early
	void h_batch_guard() {
		{ Leak leak; sched sch; mutex_t m[3];
			bool multi = rf_choose("multi", 2); int o = rf_choose("o", 5); int fin = 0;
			if (!multi) { sch + [&]() -> future_t<> { 
				{ auto g = co_await m[0].lock(); auto h = co_await m[1].lock();
				if (o == 0) { g = std::move(h); rf_check(!m[0].is_locked() && m[1].is_locked(), "assignment releases what the guard held"); }
				if (o == 1) { batch_unlock_t<mutex_t> e; e = std::move(g); rf_check(m[0].is_locked(), "still held after a move"); g = std::move(h); rf_check(m[0].is_locked() && m[1].is_locked(), "both held"); }
				if (o == 2) { g.unlock(); g.unlock(); rf_check(!m[0].is_locked(), "released at once"); g = std::move(h); rf_check(m[1].is_locked(), "taken over"); }
				if (o == 3) { auto k(std::move(g)); k.unlock(); rf_check(!m[0].is_locked() && m[1].is_locked(), "the moved-to guard releases"); }
				if (o == 4) { auto k = co_await m[0].lock(); k = std::move(g); rf_check(m[0].is_locked(), "one hold left"); k.unlock(); rf_check(!m[0].is_locked(), "both holds released"); } }
				for (auto& x : m) rf_check(!x.is_locked(), "all released"); ++fin; }; }
			else sch + [&]() -> future_t<> {
				{ auto g = co_await mutex_t::lock(m[0], m[1]); rf_check(m[0].is_locked() && m[1].is_locked(), "all held");
				if (o == 0) { auto h = co_await mutex_t::lock(m[1], m[2]); g = std::move(h); rf_check(!m[0].is_locked() && m[1].is_locked() && m[2].is_locked(), "assignment releases what the guard held"); }
				if (o == 1) { g.unlock(); g.unlock(); rf_check(!m[0].is_locked() && !m[1].is_locked(), "released"); }
				if (o == 2) { auto h(std::move(g)); rf_check(m[0].is_locked() && m[1].is_locked(), "still held"); g.unlock(); rf_check(m[0].is_locked(), "moved-from guard holds nothing"); h.unlock(); rf_check(!m[0].is_locked() && !m[1].is_locked(), "released"); }
				if (o == 3) { auto h(std::move(g)); g = std::move(h); rf_check(m[0].is_locked() && m[1].is_locked(), "moved there and back"); }
				if (o == 4) { co_await mutex_t::lock(adopt_manual_unlock, m[0], m[2]); rf_check(m[2].is_locked(), "held"); co_await mutex_t::unlock(m[0], m[2]); rf_check(!m[2].is_locked() && m[0].is_locked(), "one hold of two released"); } }
				for (auto& x : m) rf_check(!x.is_locked(), "all released"); ++fin; };
			drain(sch); rf_check(fin == 1 && sch.empty(), "finished"); }
		rf_reach("guard end");
	}
	// two coroutines take overlapping batches in opposite orders while a third party holds some
	void h_batch_co() {
		int K = rf_param("k", 3);
		{ Leak leak; sched sch; mutex_t m[4]; int me = 0; bool hold[4] = {}; for (int i = 0; i < K; ++i) if (rf_choose("hold", 2)) { hold[i] = true; m[i].lock(&me); }
			int inside[4] = {}, fin = 0; int style = rf_choose("style", 2), hy = rf_choose("hy", 2);
			auto enter = [&](int a, int b, int c) { for (int i : {a, b, c}) if (i >= 0) { rf_check(inside[i]++ == 0, "mutual exclusion on every lock of the batch"); rf_check(m[i].is_locked() && !hold[i], "every lock of the batch is held"); } };
			auto leave = [&](int a, int b, int c) { for (int i : {a, b, c}) if (i >= 0) --inside[i]; };
			sch + [&]() -> future_t<> { if (K == 2) { auto g = co_await mutex_t::lock(m[0], m[1]); enter(0, 1, -1); if (hy) co_await yield(); leave(0, 1, -1); } else { auto g = co_await mutex_t::lock(m[0], m[1], m[2]); enter(0, 1, 2); if (hy) co_await yield(); leave(0, 1, 2); } ++fin; };
			sch + [&]() -> future_t<> { if (K == 2) { co_await mutex_t::lock(adopt_manual_unlock, m[1], m[0]); enter(0, 1, -1); co_await yield(); leave(0, 1, -1); if (style) co_await mutex_t::unlock(m[1], m[0]); else mutex_t::unlock(librf_root_state(), m[0], m[1]); } else { co_await mutex_t::lock(adopt_manual_unlock, m[2], m[1], m[0]); enter(0, 1, 2); co_await yield(); leave(0, 1, 2); if (style) co_await mutex_t::unlock(m[2], m[0], m[1]); else mutex_t::unlock(librf_root_state(), m[0], m[1], m[2]); } ++fin; };
			int left = 0; for (int i = 0; i < K; ++i) left += hold[i];
			for (int step = 0; step < 6 && left; ++step) { batch(sch); batch(sch); rf_check(fin == 0, "nobody is inside while a lock of the batch is held elsewhere"); int i = rf_choose("rel", K); if (hold[i]) { hold[i] = false; --left; m[i].unlock(&me); } }
			for (int i = 0; i < K; ++i) if (hold[i]) { hold[i] = false; m[i].unlock(&me); }
			for (int k = 0; k < 200 && fin < 2; ++k) batch(sch);
			rf_check(fin == 2, "both coroutines get every lock: no deadlock"); drain(sch); for (int i = 0; i < K; ++i) rf_check(!m[i].is_locked(), "all released"); rf_check(sch.empty(), "idle"); rf_log(fin);
		}
		rf_reach("co end");
	}
	// by address, from outside coroutines
	void h_batch_addr() {
		{ Leak leak; mutex_t m[3]; int a = 0, b = 0; int pre = rf_choose("pre", 4); for (int i = 0; i < 3; ++i) if (pre > i) m[i].lock(&a); // re-entrant
			bool manual = rf_choose("manual", 2); int k = rf_choose("k", 4);
			if (manual) { if (k == 0) mutex_t::lock(adopt_manual_unlock, &a, m[0]); if (k == 1) mutex_t::lock(adopt_manual_unlock, &a, m[0], m[1]); if (k >= 2) mutex_t::lock(adopt_manual_unlock, &a, m[0], m[1], m[2]); for (int i = 0; i < (k > 2 ? 3 : k + 1); ++i) rf_check(m[i].is_locked() && !m[i].try_lock(&b), "held"); if (k == 0) mutex_t::unlock(&a, m[0]); if (k == 1) mutex_t::unlock(&a, m[0], m[1]); if (k >= 2) mutex_t::unlock(&a, m[0], m[1], m[2]); }
			else { if (k < 2) { auto g = mutex_t::lock(&a, m[0], m[1]); rf_check(m[0].is_locked() && m[1].is_locked(), "held"); if (k) { g.unlock(); rf_check(m[0].is_locked() == (pre > 0), "released"); } } else { auto g = mutex_t::lock(&a, m[0], m[1], m[2]); auto h(std::move(g)); rf_check(m[0].is_locked() && m[1].is_locked() && m[2].is_locked(), "held"); if (k == 3) h = mutex_t::lock(&a, m[0], m[2], m[1]); } }
			for (int i = 0; i < 3; ++i) { rf_check(m[i].is_locked() == (pre > i), "each released exactly as often as taken"); if (pre > i) m[i].unlock(&a); rf_check(!m[i].is_locked(), "free"); } rf_log(pre); }
		rf_reach("addr end");
	}
}

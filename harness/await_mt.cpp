#include "util.h"
struct Th { std::function<void()> f; int id; explicit Th(std::function<void()> g) : f(std::move(g)) { id = rf_spawn([](void* a) { (*(std::function<void()>*)a)(); }, &f); } void join() { rf_join(id); } };
static void run(sched& s, int n) { for (int i = 0; i < n; ++i) s.run_one_batch(); }
struct Err { int c; };
template<class T> struct Kd { static void set(awaitable_t<T>& a, int v) { a.set_value(VT<T>::make(v)); } static future_t<> use(future_t<T> f, int& n, int& got) { try { T r = co_await f; ++n; got = VT<T>::get(r); } catch (Err& e) { ++n; got = e.c; } } };
template<> struct Kd<void> { static void set(awaitable_t<void>& a, int) { a.set_value(); } static future_t<> use(future_t<> f, int& n, int& got) { try { co_await f; ++n; got = 7; } catch (Err& e) { ++n; got = e.c; } } };
template<> struct Kd<int&> { static inline int slot; static void set(awaitable_t<int&>& a, int v) { slot = v; a.set_value(slot); } static future_t<> use(future_t<int&> f, int& n, int& got) { try { int& r = co_await f; rf_check(&r == &slot, "that very object"); ++n; got = r; } catch (Err& e) { ++n; got = e.c; } } };
template<class T> static future_t<T> wrap(future_t<T> f) { co_return co_await f; }
static future_t<> wrap(future_t<> f) { co_await f; }
template<class T> static void race() {
	int how = rf_choose("how", 2), nest = rf_param("nest", 0) ? 1 : 0, pre = rf_choose("pre", 2); { Leak leak; sched a; int n = 0, got = 0; 
		{ awaitable_t<T> w; future_t<T> f = w.get_future(); if (nest) f = wrap(std::move(f)); if (pre) { a + Kd<T>::use(std::move(f), n, got); } bool keep = rf_choose("keep", 2); std::optional<awaitable_t<T>> cp; if (keep) cp.emplace(w);
			Th r([&, f2 = pre ? std::optional<future_t<T>>() : std::optional<future_t<T>>(f)]() mutable { local_scheduler_t ls(a); if (f2) { a + Kd<T>::use(std::move(*f2), n, got); f2.reset(); } run(a, 2 + nest); }); if (!pre) f = future_t<T>(counted_ptr<state_t<T>>());
			Th s([&] { if (how) w.throw_exception(Err{ 7 }); else Kd<T>::set(w, 7); }); r.join(); s.join(); }
		drain(a); rf_check(n == 1, "resumed exactly once"); rf_check(got == 7, "with that result"); rf_check(a.empty(), "nothing left suspended"); rf_log(n); }
	rf_check(Tr::live == 0, "values destroyed"); rf_reach("race end");
}
extern "C" {
	void h_awmt_int() { race<int>(); } void h_awmt_void() { race<void>(); } void h_awmt_tr() { race<Tr>(); } void h_awmt_ref() { race<int&>(); }
	// the awaiting coroutine is itself awaited from, and resumes on, another scheduler than the setter runs
	void h_awmt_pass() { // two awaitables answered by each other's coroutine (ping-pong between two threads)
		{ Leak leak; sched a, b; int x = 0, y = 0; { awaitable_t<int> p, q; auto fp = p.get_future(), fq = q.get_future(); a + [&, fp]() -> future_t<> { int v = co_await fp; x = v; q.set_value(v + 1); }; b + [&, fq]() -> future_t<> { p.set_value(5); y = co_await fq; }; 
			fp = fq; Th r([&] { local_scheduler_t ls(a); run(a, 3); }), s([&] { local_scheduler_t ls(b); run(b, 3); }); r.join(); s.join(); drain(b); drain(a); drain(b); } rf_check(x == 5 && y == 6, "each result arrives once"); rf_check(a.empty() && b.empty(), "finished"); }
		rf_reach("pass end");
	}
	// several awaiters, several setters: no result reaches the wrong coroutine
	void h_awmt_many() {
		{ Leak leak; sched a; int n[2] = {}, got[2] = {}; { awaitable_t<int> w[2]; for (int i = 0; i < 2; ++i) a + Kd<int>::use(w[i].get_future(), n[i], got[i]); Th r([&] { local_scheduler_t ls(a); run(a, 2); }), s([&] { w[0].set_value(10); }), t([&] { w[1].throw_exception(Err{ 20 }); }); r.join(); s.join(); t.join(); } drain(a); rf_check(n[0] == 1 && n[1] == 1 && got[0] == 10 && got[1] == 20, "each its own result once"); rf_check(a.empty(), "finished"); }
		rf_reach("many end");
	}
	// the result is set while another thread starts the future as a task
	void h_awmt_task() {
		int how = rf_choose("how", 2), runner = rf_choose("runner", 2); { Leak leak; sched a; { awaitable_t<int> w; auto f = w.get_future(); auto go1 = [&] { a + f; };
			Th s([&] { if (how) w.throw_exception(Err{ 7 }); else w.set_value(7); }), r([&] { local_scheduler_t ls(a); if (runner) go1(); run(a, 2); }); if (!runner) go1(); s.join(); r.join(); }
			drain(a); rf_check(a.empty(), "the task ends with its result"); }
		rf_reach("task end");
	}
	// the last reference to the awaitable's future is dropped by the setter's thread while the coroutine finishes
	void h_awmt_drop() {
		{ Leak leak; sched a; int got = 0, ab = rf_choose("abandon", 2); { std::optional<awaitable_t<Tr>> w(std::in_place); std::optional<future_t<Tr>> f(w->get_future()); if (!ab) a + [&, g = *f]() -> future_t<> { Tr t = co_await g; got = t.v; }; Th r([&] { local_scheduler_t ls(a); run(a, 2); }), s([&] { w->set_value(Tr(3)); w.reset(); f.reset(); }); r.join(); s.join(); } drain(a); rf_check(ab || got == 3, "result"); rf_check(a.empty(), "finished"); }
		rf_check(Tr::live == 0, "values destroyed"); rf_reach("drop end");
	}
}

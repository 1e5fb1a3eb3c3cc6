#include "util.h"
#include <string>
// exceptions travelling through trees of coroutines
struct Big { int a; Tr t; std::string s; Big(int x) : a(x), t(x), s("content longer than a small string buffer") {} };
struct Own : std::exception { char w[3]; Own(int d) : w{'r', (char)('a' + d), 0} {} const char* what() const noexcept override { return w; } };
struct Fly { int kind = 0; int v = 0; int from = 0; };
struct X {
	int ops; Fly fly[2]; int locals[2] = {}; int fin[2] = {}; event_t ev; mutex_t mx; int excs = 0; int caught = 0;
	struct Loc { X& x; int t; Tr tr; Loc(X& x_, int t_) : x(x_), t(t_), tr(t_) { ++x.locals[t]; } ~Loc() { --x.locals[t]; } };
	[[noreturn]] void raise(int t, int k, int d) { int v = rf_int("v"); fly[t] = {k, v, d}; if (k == 1) throw v; if (k == 2) throw Big(v); throw Own(d); }
	void meet(int t, int k, int v, int d, int base) { rf_check(fly[t].kind == k, "an exception arrives with its type, and only where one was thrown"); if (k != 3) rf_check(fly[t].v == v, "an exception arrives with its content"); rf_check(fly[t].from >= d, "it comes from below"); fly[t].kind = 0; ++caught; rf_check(locals[t] == base, "every local of the frames it left is destroyed once"); }
	// catches whatever the nested coroutine throws; may let it pass
	future_t<int> node(int t, int d) {
		Loc l(*this, t); int sum = 1;
		while (ops) { --ops; int c = rf_choose("op", 6);
			if (c == 0) break;
			if (c == 1) { int k = rf_choose("kind", 3) + 1; raise(t, k, d); }
			if (c == 2) { switch (rf_choose("susp", 4)) { case 0: co_await yield(); break; case 1: ev.signal(); co_await ev; break; case 2: co_await sleep_for(ns(0)); break; case 3: { auto g = co_await mx.lock(); co_await yield(); if (rf_choose("held", 2)) raise(t, 1, d); } break; } }
			if (c == 3 && d < 3) { int r = co_await node(t, d + 1); rf_check(fly[t].kind == 0, "an exception is not lost on the way"); sum += r; }
			if (c >= 4 && d < 3) { int base = locals[t]; bool again = false; int k = 0; try { int r = co_await node(t, d + 1); rf_check(fly[t].kind == 0, "an exception is not lost on the way"); sum += r; } catch (int e) { meet(t, 1, e, d, base); again = c == 5; k = 1; fly[t].v = e; } catch (Big& e) { rf_check(e.s.size() == 41 && e.t.v == e.a, "content"); meet(t, 2, e.a, d, base); again = c == 5; k = 2; if (again) { fly[t].kind = 2; throw; } } catch (std::exception& e) { rf_check(e.what()[0] == 'r' && e.what()[1] == 'a' + fly[t].from, "content"); meet(t, 3, 0, d, base); again = c == 5; }
				if (again) raise(t, 1, d); sum += 10; } }
		co_return sum;
	}
	future_t<> top(int t) { try { int r = co_await node(t, 1); rf_check(fly[t].kind == 0 && r > 0, "an exception is not lost on the way"); } catch (int e) { meet(t, 1, e, 1, 0); } catch (Big& e) { meet(t, 2, e.a, 1, 0); } catch (std::exception& e) { meet(t, 3, 0, 1, 0); } ++fin[t]; }
};
extern "C" {
	void h_exc_prog() {
		int T = rf_param("t", 1); { Leak leak; sched a; { X x; x.ops = rf_param("n", 4); rf_clock_ns = 10; int other = 0; for (int t = 0; t < T; ++t) a + x.top(t); a + [&]() -> future_t<> { for (int i = 0; i < 3; ++i) { co_await yield(); ++other; } };
			for (int i = 0; i < 80 && !a.empty(); ++i) { rf_clock_ns += 1; batch(a); } for (int t = 0; t < T; ++t) { rf_check(x.fin[t] == 1, "the awaiter went on once"); rf_check(x.locals[t] == 0, "locals destroyed"); } rf_check(other == 3, "other coroutines are unaffected"); rf_check(a.empty(), "empty"); rf_check(!x.mx.is_locked(), "a guard releases its lock when an exception leaves its scope"); rf_log(x.caught); } }
		rf_check(Tr::live == 0, "every exception object and local destroyed"); rf_reach("prog end");
	}
	// an exception that nobody awaits ends its own task only; likewise for every way to start it
	void h_exc_task() {
		{ Leak leak; sched a; int k = rf_choose("kind", 3), y = rf_choose("yields", 3), nest = rf_choose("nest", 3), other = 0, pos = rf_choose("pos", 2); int lv = 0; (void)lv;
			struct F { static future_t<> f(int k, int y, int n) { Tr l(1); if (n) { co_await f(k, y, n - 1); rf_fail("continued past an exception"); } for (int i = 0; i < y; ++i) co_await yield(); if (k == 0) throw 5; if (k == 1) throw Big(3); throw Own(0); } };
			auto o = [&]() -> future_t<> { try { for (int i = 0; i < 4; ++i) { co_await yield(); ++other; } } catch (...) { rf_fail("another coroutine's exception"); } };
			if (pos) a + o(); task_t* t = a + F::f(k, y, nest); rf_check(t != nullptr, "task"); if (!pos) a + o(); drain(a); rf_check(other == 4, "other coroutines are unaffected"); rf_check(a.empty(), "the task ends"); }
		rf_check(Tr::live == 0, "every exception object and local destroyed"); rf_reach("task end");
	}
	// exceptions thrown by copying or moving the result out of or into the coroutine's state
	struct Cp { static inline int fuse = -1, live = 0; int v; void step() { if (fuse >= 0 && fuse-- == 0) throw 42; } Cp(int x) : v(x) { ++live; } Cp(const Cp& o) : v(o.v) { step(); ++live; } Cp(Cp&& o) : v(o.v) { step(); ++live; } Cp& operator=(const Cp& o) { step(); v = o.v; return *this; } Cp& operator=(Cp&& o) { step(); v = o.v; return *this; } ~Cp() { --live; } };
	void h_exc_result() {
		{ Leak leak; sched a; int n = 0, how = rf_choose("how", 3), y = rf_choose("yields", 2), fuse = rf_choose("fuse", 8) - 1; int v = rf_int("v"); Cp::live = 0; Cp::fuse = -1; bool thrown = false; { awaitable_t<Cp> w; auto fw = w.get_future();
			auto f = [&]() -> future_t<Cp> { Tr l(1); if (y) co_await yield(); Cp c(v); Cp::fuse = fuse; if (how == 0) co_return c; if (how == 1) co_return Cp(v); co_return co_await fw; };
			a + [&]() -> future_t<> { try { Cp r = co_await f(); rf_check(r.v == v, "the value"); ++n; } catch (int e) { rf_check(e == 42, "the exception"); thrown = true; ++n; } Cp::fuse = -1; }; if (how == 2) { drain(a); Cp::fuse = -1; try { w.set_value(Cp(v)); Cp::fuse = fuse; } catch (int) { rf_fail("not armed"); } } drain(a); rf_check(n == 1, "the awaiter goes on once"); rf_log(thrown); rf_check(a.empty(), "empty"); }
			rf_check(Cp::live == 0, "every value destroyed once"); }
		rf_check(Tr::live == 0, "locals destroyed"); rf_reach("result end");
	}
	// an exception escaping while other coroutines wait for the same things
	void h_exc_shared() {
		{ Leak leak; sched a; { event_t ev; mutex_t mx; channel_t<int> ch(0); int got = 0, n = 0, what = rf_choose("what", 3), who = rf_choose("who", 3), v = rf_int("v");
			auto w = [&](int i) -> future_t<> { Tr l(i); if (what == 0) co_await ev; else if (what == 1) { auto g = co_await mx.lock(); co_await yield(); if (i == who) throw v; } else { int r = co_await ch; rf_check(r == i, "value"); } if (i == who) throw v; ++got; };
			for (int i = 0; i < 3; ++i) a + [&, i]() -> future_t<> { try { co_await w(i); rf_check(i != who, "the exception is not lost"); } catch (int e) { rf_check(i == who && e == v, "only the awaiter sees the exception"); } ++n; };
			drain(a); if (what == 0) { for (int i = 0; i < 3; ++i) { ev.signal(); if (rf_choose("d", 2)) drain(a); } } if (what == 2) a + [&]() -> future_t<> { for (int i = 0; i < 3; ++i) co_await (ch << i); }; drain(a); rf_check(n == 3 && got == 2, "the others go on"); rf_check(!mx.is_locked(), "released"); rf_check(a.empty(), "empty"); } }
		rf_check(Tr::live == 0, "locals destroyed"); rf_reach("shared end");
	}
}

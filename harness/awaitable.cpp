#include "util.h"
#include <string>
struct MyErr { int code; Tr t; MyErr(int c) : code(c), t(c) {} };
// how an operation ended, as the awaiter saw it
struct Seen { int n = 0, kind = 0, val = 0, id = -1; const void* addr = nullptr; void put(int k, int v) { ++n; kind = k; val = v; } };
template<class T> struct K { // value kinds
	static void set(awaitable_t<T>& a, int v, T*) { a.set_value(VT<T>::make(v)); }
	static future_t<T> direct(awaitable_t<T> a) { return a.get_future(); }
	static future_t<T> nest(future_t<T> f, int d) { if (d) co_return co_await nest(std::move(f), d - 1); co_return co_await f; }
	static future_t<> use(future_t<T> f, Seen& s) { try { T r = co_await f; s.put(1, VT<T>::get(r)); } catch (MyErr& e) { s.put(2, e.code); } catch (int e) { s.put(3, e); } }
};
template<class T> struct K<T&> {
	static void set(awaitable_t<T&>& a, int v, T* slot) { *slot = v; a.set_value(*slot); }
	static future_t<T&> nest(future_t<T&> f, int d) { if (d) co_return co_await nest(std::move(f), d - 1); co_return co_await f; }
	static future_t<> use(future_t<T&> f, Seen& s) { try { T& r = co_await f; s.addr = &r; s.put(1, r); } catch (MyErr& e) { s.put(2, e.code); } catch (int e) { s.put(3, e); } }
};
template<> struct K<void> {
	static void set(awaitable_t<void>& a, int, void*) { a.set_value(); }
	static future_t<> nest(future_t<> f, int d) { if (d) co_await nest(std::move(f), d - 1); else co_await f; }
	static future_t<> use(future_t<> f, Seen& s) { try { co_await f; s.put(1, 0); } catch (MyErr& e) { s.put(2, e.code); } catch (int e) { s.put(3, e); } }
};
template<class T> static constexpr bool is_v = std::is_void_v<T>;
// one awaitable: set before the await, between await and first batch, after any number of batches, or by another coroutine; directly or through nested coroutines
template<class T> static void one() {
	{ Leak leak; sched a, b; int slot = 0; Seen s; int how = rf_choose("how", 3), when = rf_choose("when", 5), depth = rf_choose("depth", 4), copies = rf_choose("copies", 2); int v = rf_int("v");
		using Sl = std::conditional_t<is_v<T>, void, std::remove_reference_t<T>>;
		{ awaitable_t<T> aw; std::optional<awaitable_t<T>> cp; if (copies) cp.emplace(aw);
			rf_check((bool)aw, "awaitable is valid until it is set");
			future_t<T> f = aw.get_future(); if (depth) f = K<T>::nest(std::move(f), depth - 1);
			auto set = [&] { if (how == 0) { if constexpr (std::is_reference_v<T>) K<T>::set(aw, v, &slot); else K<T>::set(aw, v, (Sl*)nullptr); } else if (how == 1) aw.throw_exception(MyErr(v)); else aw.set_exception(std::make_exception_ptr(v)); rf_check(!aw, "a set awaitable lets go of its state"); };
			if (when == 0) set();
			a + K<T>::use(std::move(f), s);
			if (when == 1) set();
			if (when == 4) b + [&set]() -> future_t<> { co_await yield(); set(); };
			batch(a); if (when == 2) set(); batch(a); batch(b); batch(a); batch(a); batch(b);
			if (when == 3) { for (int i = 0; i < 4; ++i) batch(a); rf_check(s.n == 0, "does not resume before something is set"); set(); }
		}
		drain(b); drain(a); rf_check(s.n == 1, "the awaiter resumes exactly once"); rf_check(s.kind == how + 1, "value or exception as set"); if (how || !is_v<T>) rf_check(s.val == v, "the very value that was set");
		if (!how && std::is_reference_v<T>) rf_check(s.addr == &slot, "the very object that was set"); rf_check(a.empty() && b.empty(), "nothing left to run"); rf_log(s.n); rf_log(s.kind);
	}
	rf_check(Tr::live == 0, "values destroyed"); rf_reach("one end");
}
// a coroutine's own result: returned value or escaped exception at any of its suspension points
template<class T> static future_t<T> body(int yields, int thr, int v, T*) { Tr local(1); for (int i = 0; i < yields; ++i) { if (thr == i + 1) throw MyErr(v); co_await yield(); } if (thr) throw v; co_return VT<T>::make(v); }
static future_t<> body(int yields, int thr, int v, void*) { Tr local(1); for (int i = 0; i < yields; ++i) { if (thr == i + 1) throw MyErr(v); co_await yield(); } if (thr) throw v; }
static future_t<int&> rbody(int yields, int thr, int v, int* slot) { Tr local(1); for (int i = 0; i < yields; ++i) { if (thr == i + 1) throw MyErr(v); co_await yield(); } if (thr) throw v; *slot = v; co_return *slot; }
template<class T> static void coro() {
	{ Leak leak; sched a; int slot = 0; Seen s; int y = rf_choose("yields", 3), thr = rf_choose("throw", 4), depth = rf_choose("depth", 3), v = rf_int("v"), style = rf_choose("style", 3);
		rf_assume(thr <= y + 1); { using F = future_t<T>; F f = [&]() -> F { if constexpr (std::is_reference_v<T>) return rbody(y, thr, v, &slot); else return body(y, thr, v, (T*)nullptr); }(); if (depth) f = K<T>::nest(std::move(f), depth - 1);
			if (style == 0) a + K<T>::use(std::move(f), s); else if (style == 1) { a + K<T>::use(f, s); } else { F g = f; a + [&s, g]() -> future_t<> { co_await yield(); co_await K<T>::use(g, s); }; } }
		int k = 0; while (batch(a)) { ++k; if (k > 40) rf_fail("scheduler never becomes idle"); }
		int want = !thr ? 1 : thr <= y ? 2 : 3; rf_check(s.n == 1, "the awaiter resumes exactly once"); rf_check(s.kind == want, "value or exception as produced"); if (thr || !is_v<T>) rf_check(s.val == v, "the very value produced");
		if (!thr && std::is_reference_v<T>) rf_check(s.addr == &slot, "the very object returned"); rf_check(a.empty(), "nothing left to run"); rf_log(s.kind);
	}
	rf_check(Tr::live == 0, "values destroyed"); rf_reach("coro end");
}
extern "C" {
	void h_aw_int() { one<int>(); } void h_aw_void() { one<void>(); } void h_aw_ref() { one<int&>(); } void h_aw_tr() { one<Tr>(); } void h_aw_mo() { one<Mo>(); }
	void h_co_int() { coro<int>(); } void h_co_void() { coro<void>(); } void h_co_ref() { coro<int&>(); } void h_co_tr() { coro<Tr>(); } void h_co_mo() { coro<Mo>(); }
	// several awaitables resolved in any order, awaited in a fixed order by several coroutines: nobody gets another's value
	void h_aw_many() {
		int n = rf_param("n", 3); { Leak leak; sched a, b; Seen s[4]; int v[4]; bool done[4] = {}, st[4] = {}; int how[4]; std::optional<awaitable_t<int>> aw[4]; for (int i = 0; i < n; ++i) { aw[i].emplace(); v[i] = rf_int("v"); how[i] = -1; }
			for (int k = 0; k < 2 * n; ++k) { int i = rf_choose("i", n); if (rf_choose("op", 2)) { if (st[i]) continue; st[i] = true; sched& sc = (i & 1) ? b : a; sc + K<int>::use(aw[i]->get_future(), s[i]); if (done[i]) aw[i].reset(); } else { if (done[i]) continue; done[i] = true; how[i] = (i + k) & 1; awaitable_t<int> x = *aw[i]; if (how[i]) x.throw_exception(MyErr(v[i])); else x.set_value(v[i]); }
				batch(a); batch(b); batch(a); batch(b); for (int j = 0; j < n; ++j) { rf_check(s[j].n == (done[j] && st[j]), "resumes exactly when set and awaited"); if (s[j].n) rf_check(s[j].val == v[j] && s[j].kind == how[j] + 1, "its own result"); } }
			for (int i = 0; i < n; ++i) { if (st[i] && !done[i]) { awaitable_t<int> x = *aw[i]; x.set_value(v[i]); } aw[i].reset(); }
			drain(a); drain(b); rf_check(a.empty() && b.empty(), "finished"); }
		rf_reach("many end");
	}
	// a task started on an awaitable's future, or on a future that nobody awaits, ends when the result is set: before it is started, or any time later
	void h_aw_task() {
		{ Leak leak; sched a; int kind = rf_choose("kind", 4), how = rf_choose("how", 2), when = rf_choose("when", 3);
			auto go1 = [&](auto w, auto set) { auto f = w.get_future(); if (when == 0) set(w); a + f; if (rf_choose("drop", 2)) f = w.get_future(); if (when == 1) set(w); drain(a); if (when == 2) { rf_check(!a.empty(), "a started future counts as a task until it is set"); set(w); drain(a); } };
			if (kind == 0) go1(awaitable_t<int>(), [&](awaitable_t<int>& w) { if (how) w.throw_exception(1); else w.set_value(1); });
			else if (kind == 1) go1(awaitable_t<>(), [&](awaitable_t<>& w) { if (how) w.throw_exception(1); else w.set_value(); });
			else if (kind == 2) { auto f = body(1, how, 5, (int*)nullptr); a + f; if (when == 0) f = body(1, 0, 5, (int*)nullptr); drain(a); if (when == 0) a + f; drain(a); }
			else { int n = 0; auto f = body(1, how, 5, (int*)nullptr); a + [&]() -> future_t<> { try { (void)co_await f; } catch (MyErr&) {} ++n; }; drain(a); rf_check(n == 1 && a.empty(), "awaited"); if (when) { a + f; drain(a); } }
			rf_check(a.empty(), "task ends with its result"); }
		rf_check(Tr::live == 0, "values destroyed"); rf_reach("task end");
	}
	// a result whose construction throws while it is stored or handed over: the awaiter receives that exception, and nothing is destroyed that was not constructed
	struct Thr { int v; Tr t; static inline int left = 0; static void step(int i) { if (left && --left == 0) throw i; } Thr(int i) : v(i), t(i) { step(7); } Thr(const Thr& o) : v(o.v), t(o.v) { step(8); } Thr(Thr&& o) : v(o.v), t(o.v) { step(9); } Thr& operator=(const Thr& o) { step(10); v = o.v; return *this; } };
	void h_aw_throwing() {
		{ Leak leak; sched a; int kind = rf_choose("kind", 5), left = rf_choose("left", 5), y = rf_choose("yields", 2), v = rf_int("v"); Seen s; Thr::left = 0; bool given = false, threw = false; 
			auto body = [&]() -> future_t<Thr> { Tr l(1); for (int i = 0; i < y; ++i) co_await yield(); Thr::left = left; if (kind == 1) { Thr x(v); co_return x; } if (kind == 4) { co_yield v; co_yield v; } co_return v; };
			auto use = [&](future_t<Thr> f) -> future_t<> { try { Thr r = co_await f; Thr::left = 0; s.put(1, r.v); } catch (int e) { Thr::left = 0; s.put(2, e); } };
			if (kind < 2) a + use(body());
			else if (kind == 4) { a + body(); }
			else { awaitable_t<Thr> w; auto f = w.get_future(); if (kind == 3) { a + use(f); drain(a); } awaitable_t<Thr> w2 = w; Thr::left = left; try { w.set_value(v); given = true; } catch (int e) { rf_check(e == 7, "the setter receives the exception"); threw = true; Thr::left = 0; } if (threw) { batch(a); rf_check(s.n == 0, "nothing delivered"); if (y) w2.set_value(v); else w2.throw_exception(55); } if (kind == 2) a + use(f); }
			drain(a); rf_check(a.empty(), "nothing left to run");
			if (kind < 4) { rf_check(s.n == 1, "the awaiter resumes exactly once"); if (threw) rf_check(y ? s.kind == 1 && s.val == v : s.kind == 2 && s.val == 55, "what was set afterwards"); else if (s.kind == 1) rf_check(s.val == v, "the very value"); else rf_check(left && s.val >= 7 && s.val <= 10, "the exception of the value"); if (!left) rf_check(s.kind == 1, "the value"); if (left == 1) rf_check(threw || s.kind == 2, "the exception of the value"); }
			Thr::left = 0; rf_log(s.kind); }
		rf_check(Tr::live == 0, "exactly what was constructed is destroyed"); rf_reach("throwing end");
	}
	// a coroutine that was started as a task is awaited: before it first runs, while it is suspended, or after it ended
	void h_aw_started() {
		{ Leak leak; sched a; Seen s, t; int kind = rf_choose("kind", 4), k = rf_choose("batches", 6), how = rf_choose("how", 3), nest = rf_choose("nest", 2), v = rf_int("v"); event_t ev; awaitable_t<int> w; auto fw = w.get_future(); rf_clock_ns = 10; int runs = 0; bool set = rf_choose("early", 2);
			auto body = [&]() -> future_t<int> { Tr l(1); ++runs; if (kind == 1) co_await yield(); if (kind == 2) co_await ev; if (kind == 3) { int x = co_await fw; rf_check(x == 4, "value"); co_await yield(); } if (how == 1) throw MyErr(v); if (how == 2) throw v; co_return v; };
			{ auto f = body(); if (nest) f = K<int>::nest(std::move(f), 0); a + f; for (int i = 0; i < k; ++i) batch(a); if (set) { ev.signal(); w.set_value(4); } a + K<int>::use(f, s); }
			for (int i = 0; i < 8; ++i) batch(a); if (!set) { rf_check(s.n == (kind < 2), "resumes only when there is a result"); ev.signal(); w.set_value(4); }
			drain(a); rf_check(runs == 1, "runs once"); rf_check(s.n == 1, "the awaiter resumes exactly once"); rf_check(s.kind == (how == 0 ? 1 : how + 1) && s.val == v, "value or exception as produced"); rf_check(a.empty(), "nothing left to run"); }
		rf_check(Tr::live == 0, "values destroyed"); rf_reach("started end");
	}
}

#include "util.h"
#include <string>
#include <cstring>
#include <functional>
using clk = system_clock;
// what an error of the library says: the code that caused it, and a message that names its kind and that code
static const char* const names[] = {"none", "not_ready", "already_acquired", "unlock_more", "read_before_write", "timer_canceled", "not_await_lock", "stop_requested"};
static bool says(const char* w, const char* kind, error_code c) { std::string s = std::string(kind) + ", code=" + names[(int)c]; return s == w; }
// the error being handled is of that kind, has that code and says so
static bool isK(int k, const std::logic_error& b, error_code c) {
	try { throw; } catch (future_exception& e) { return k == 0 && e._error == c && says(e.what(), "future_exception", c) && says(b.what(), "future_exception", c); } catch (mutex_exception& e) { return k == 1 && e._error == c && says(e.what(), "mutex_exception", c); }
	catch (channel_exception& e) { return k == 2 && e._error == c && says(e.what(), "channel_exception", c); } catch (canceled_exception& e) { return k == 3 && e._error == c && says(e.what(), "canceled_exception", c); } catch (...) { return false; }
}
static std::exception_ptr mk(int k, error_code c) { try { switch (k) { case 0: throw future_exception(c); case 1: throw mutex_exception(c); case 2: throw channel_exception(c); default: throw canceled_exception(c); } } catch (...) { return std::current_exception(); } }
extern "C" {
	// several errors exist at once, were copied, carried through awaitables and coroutines: each keeps its own code and message
	void h_err_keep() {
		{ Leak leak; sched a; int n = rf_param("n", 3), k[4], c[4], seen = 0; std::exception_ptr p[4];
			for (int i = 0; i < n; ++i) { k[i] = rf_choose("kind", 4); c[i] = rf_choose("code", 8); p[i] = mk(k[i], (error_code)c[i]); }
			auto f = [](std::exception_ptr e) -> future_t<int> { co_await yield(); std::rethrow_exception(e); co_return 0; };
			for (int i = 0; i < n; ++i) a + [&, i]() -> future_t<> { try { (void)co_await f(p[i]); rf_fail("nothing thrown"); } catch (std::logic_error& e) { rf_check(isK(k[i], e, (error_code)c[i]), "code and message of the error that was thrown"); std::logic_error d(e); rf_check(!strcmp(d.what(), e.what()), "copy"); ++seen; } };
			drain(a); rf_check(seen == n, "each seen once");
			const char* w[4]; for (int i = 0; i < n; ++i) { try { std::rethrow_exception(p[i]); } catch (std::logic_error& e) { w[i] = e.what(); } } static const char* const kinds[] = {"future_exception", "mutex_exception", "channel_exception", "canceled_exception"};
			for (int i = 0; i < n; ++i) rf_check(says(w[i], kinds[k[i]], (error_code)c[i]), "the message stays while the error lives");
			for (int i = 0; i < n; ++i) { try { std::rethrow_exception(p[i]); } catch (std::logic_error& e) { rf_check(isK(k[i], e, (error_code)c[i]), "unchanged afterwards"); } } rf_log(n); }
		rf_reach("keep end");
	}
	// the text of a code, for a class name of any length up to the bound: never written outside the buffer, and the name whole if it fits
	void h_err_text() {
		int len = rf_choose("len", 2) ? rf_param("base", 200) + rf_choose("more", 100) : rf_choose("few", 30); int c = rf_choose("code", 8); std::string nm(len, 'x'); if (len) nm[len - 1] = 'y'; bool none = rf_choose("none", 2);
		const char* s = get_error_string((error_code)c, none ? nullptr : nm.c_str());
		if (none) rf_check(!strcmp(s, names[c]), "the code alone"); else { std::string want = nm + ", code=" + names[c]; std::size_t l = strlen(s); rf_check(l <= want.size() && !memcmp(s, want.data(), l), "a prefix of class name and code"); if (len < 200) rf_check(l == want.size(), "all of it"); }
		rf_log(len); rf_reach("text end");
	}
	// where the library raises errors itself: cancelled sleep, and taking a result that is not there
	void h_err_raise() {
		{ Leak leak; sched a; int kind = rf_choose("kind", 5), seen = 0; 
			auto chk = [&](auto f) { auto g = f; try { (void)g.await_resume(); rf_fail("nothing to take"); } catch (future_exception& e) { rf_check(isK(0, e, error_code::not_ready), "not ready"); ++seen; } };
			if (kind == 0) { awaitable_t<int> w; chk(w.get_future()); w.set_value(1); } if (kind == 2) { awaitable_t<int&> w; chk(w.get_future()); int z; w.set_value(z); }
			if (kind == 1) { awaitable_t<> w; auto f = w.get_future(); try { f.await_resume(); rf_fail("nothing to take"); } catch (future_exception& e) { rf_check(isK(0, e, error_code::not_ready), "not ready"); ++seen; } w.set_value(); }
			if (kind >= 3) { a + [&]() -> future_t<> { try { if (kind == 3) co_await sleep_for(ns(100)); else co_await sleep_until(clk::now() + ns(100)); rf_fail("not cancelled"); } catch (canceled_exception& e) { rf_check(isK(3, e, error_code::timer_canceled), "cancelled"); ++seen; } }; for (int i = rf_choose("b", 4); i; --i) batch(a); if (rf_choose("how", 2)) { batch(a); batch(a); a.timer()->clear(); } else { batch(a); batch(a); a.request_stop_all_if_possible(); } drain(a); rf_check(a.empty(), "ended"); }
			rf_check(seen == 1, "raised once"); rf_log(kind); }
		rf_reach("raise end");
	}
#ifdef NDEBUG
	// a lock operation that is not awaited says so, and leaves the mutex as it was
	void h_err_unawaited() {
		{ Leak leak; sched a; mutex_t m; int op = rf_choose("op", 5), held = rf_choose("held", 3), inside = rf_choose("inside", 2), seen = 0, other = 0; event_t ev;
			if (held) { a + [&]() -> future_t<> { auto l = co_await m.lock(); if (held == 2) { auto k = co_await m.lock(); co_await ev; } else co_await ev; }; drain(a); }
			auto misuse = [&] { try { switch (op) { case 0: (void)m.lock(); break; case 1: (void)m.try_lock(); break; case 2: (void)m.unlock(); break; case 3: (void)m.try_lock_for(ns(5)); break; case 4: (void)m.try_lock_until(clk::now() + ns(5)); break; } } catch (mutex_exception& e) { rf_check(isK(1, e, error_code::not_await_lock), "not awaited"); ++seen; } };
			if (inside) { a + [&]() -> future_t<> { misuse(); co_await yield(); }; batch(a); batch(a); batch(a); } else misuse();
			rf_check(seen == 1, "raised once"); 
			a + [&]() -> future_t<> { auto l = co_await m.lock(); ++other; co_return; }; drain(a); rf_check(other == !held, "still owned by its owner, and free if it was free"); ev.signal(); drain(a); rf_check(other == 1 && a.empty(), "handed over"); }
		rf_reach("unawaited end");
	}
#endif
	// two threads raise errors at the same time
	void h_err_mt() {
		int k0 = rf_choose("k0", 4), k1 = rf_choose("k1", 4); auto e0 = error_code::unlock_more, e1 = error_code::stop_requested;
		struct Th { std::function<void()> f; int id; explicit Th(std::function<void()> g) : f(std::move(g)) { id = rf_spawn([](void* a) { (*(std::function<void()>*)a)(); }, &f); } void join() { rf_join(id); } };
		{ Leak leak; std::exception_ptr p[2]; Th t([&] { p[1] = mk(k1, e1); }); p[0] = mk(k0, e0); t.join();
			try { std::rethrow_exception(p[0]); } catch (std::logic_error& e) { rf_check(isK(k0, e, e0), "own code and message"); } try { std::rethrow_exception(p[1]); } catch (std::logic_error& e) { rf_check(isK(k1, e, e1), "own code and message"); } }
		rf_reach("mt end");
	}
}

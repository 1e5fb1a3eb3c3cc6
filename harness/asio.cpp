// The adapter token of /repo/asio over the installed asio library: operations of every completion signature, started with
// asio::rf_task and completed by the harness (or by another thread) at any moment, with results or an error.
#define ASIO_STANDALONE
#include "util.h"
#include <asio/version.hpp>
#include <asio/async_result.hpp>
#include <asio/error.hpp>
#include <asio/error_code.hpp>
#include <asio/system_error.hpp>
#include <asio/executor.hpp>
#include "asio/asio_task.h"
struct Th { std::function<void()> f; int id; explicit Th(std::function<void()> g) : f(std::move(g)) { id = rf_spawn([](void* a) { (*(std::function<void()>*)a)(); }, &f); } void join() { rf_join(id); } };
struct Cat : std::error_category { const char* name() const noexcept override { return "cat"; } std::string message(int) const override { return "m"; } };
static Cat cat; static const std::error_category* CT = &cat; // where the errors of this run come from
static void pick_cat() { int k = rf_choose("cat", 3); CT = k == 0 ? (const std::error_category*)&cat : k == 1 ? &std::system_category() : &asio::error::get_misc_category(); }
struct Err { int c; };
using EC = asio::error_code; using EP = std::exception_ptr;
// first argument of the completion: nothing, an error code, or an exception
template<class F> struct Fst;
template<> struct Fst<EC> { static EC make(bool bad, int v) { return bad ? EC(v, *CT) : EC(); } };
template<> struct Fst<EP> { static EP make(bool bad, int v) { return bad ? std::make_exception_ptr(Err{ v }) : EP(); } };
template<class T> static future_t<> use(future_t<T> f, int& n, int& kind, int& got) {
	try {
		if constexpr (std::is_void_v<T> || std::is_same_v<T, std::tuple<>>) { co_await f; ++n; kind = 1; got = 0; }
		else { T r = co_await f; ++n; kind = 1; if constexpr (requires { std::get<0>(r); }) { got = (int)((unsigned)VT<std::tuple_element_t<0, T>>::get(std::get<0>(r)) * 3u); got = (int)((unsigned)got + (unsigned)VT<std::tuple_element_t<1, T>>::get(std::get<1>(r))); } else got = VT<T>::get(r); }
	} catch (asio::system_error& e) { ++n; kind = 2; got = e.code().value(); rf_check(&e.code().category() == CT, "the operation's error, unchanged"); }
	catch (Err& e) { ++n; kind = 3; got = e.c; }
}
template<class S> struct Op;
template<class... A> struct Op<void(A...)> {
	std::function<void(A...)> h; int inits = 0;
	auto start(bool now, A... a) { // "now": the operation completes before its initiating function returns
		return asio::async_initiate<const asio::rf_task_t<>&, void(A...)>([&](auto handler) { ++inits; if (now) handler(A(a)...); else h = std::move(handler); }, asio::rf_task);
	}
	void complete(A... a) { auto g = std::move(h); h = nullptr; g(std::move(a)...); }
};
template<class S, class MK> static void seq(int want_kind_ok, MK mk) {
	bool bad = rf_choose("bad", 2); int v = rf_int("v"), u = rf_int("u"); if (bad) { rf_assume(v != 0); pick_cat(); } int when = rf_choose("when", 4); int wk, wg; 
	{ Leak leak; sched a; Op<S> op; int n = 0, kind = 0, got = 0;
		mk(op, when == 0, bad, v, u, wk, wg, [&](auto f, auto done) {
			rf_check(op.inits == 1, "the operation was initiated once");
			if (when == 1) done();                                                      // before the await
			
			a + use(std::move(f), n, kind, got);
			if (when == 2) { done(); batch(a); batch(a); }                              // before the awaiting coroutine ran
			batch(a); batch(a);
			if (when == 3) { rf_check(n == 0, "suspended until the operation completes"); int b = rf_choose("idle", 2); if (b) batch(a); done(); rf_check(n == 0, "resumed by its scheduler"); batch(a); }
			rf_check(n == 1, "resumed by the completion"); });
		drain(a); rf_check(n == 1 && kind == wk && got == wg, "resumed exactly once with the results or the error"); rf_check(a.empty(), "nothing left"); rf_log(kind); rf_log((uint32_t)got); }
	rf_check(Tr::live == 0, "values destroyed"); rf_reach("asio end");
}
template<class F> static void v0(int) {
	seq<void(F)>(1, [](auto& op, bool now, bool bad, int v, int, int& wk, int& wg, auto run_) { wk = !bad ? 1 : std::is_same_v<F, EC> ? 2 : 3; wg = bad ? v : 0; auto f = op.start(now, Fst<F>::make(bad, v)); run_(std::move(f), [&] { op.complete(Fst<F>::make(bad, v)); }); });
}
template<class F, class T> static void v1(int) {
	seq<void(F, T)>(1, [](auto& op, bool now, bool bad, int v, int u, int& wk, int& wg, auto run_) { wk = !bad ? 1 : std::is_same_v<F, EC> ? 2 : 3; wg = bad ? v : u; auto f = op.start(now, Fst<F>::make(bad, v), VT<T>::make(u)); run_(std::move(f), [&] { op.complete(Fst<F>::make(bad, v), VT<T>::make(u)); }); });
}
template<class F, class T, class U> static void v2(int) {
	seq<void(F, T, U)>(1, [](auto& op, bool now, bool bad, int v, int u, int& wk, int& wg, auto run_) { wk = !bad ? 1 : std::is_same_v<F, EC> ? 2 : 3; wg = bad ? v : (int)((unsigned)u * 3u + 5u); auto f = op.start(now, Fst<F>::make(bad, v), VT<T>::make(u), VT<U>::make(5)); run_(std::move(f), [&] { op.complete(Fst<F>::make(bad, v), VT<T>::make(u), VT<U>::make(5)); }); });
}
// no first argument at all
static void vv() { seq<void()>(1, [](auto& op, bool now, bool, int, int, int& wk, int& wg, auto run_) { wk = 1; wg = 0; auto f = op.start(now); run_(std::move(f), [&] { op.complete(); }); }); }
template<class T> static void w1() { seq<void(T)>(1, [](auto& op, bool now, bool, int, int u, int& wk, int& wg, auto run_) { wk = 1; wg = u; auto f = op.start(now, VT<T>::make(u)); run_(std::move(f), [&] { op.complete(VT<T>::make(u)); }); }); }
template<class T, class U> static void w2() { seq<void(T, U)>(1, [](auto& op, bool now, bool, int, int u, int& wk, int& wg, auto run_) { wk = 1; wg = (int)((unsigned)u * 3u + 5u); auto f = op.start(now, VT<T>::make(u), VT<U>::make(5)); run_(std::move(f), [&] { op.complete(VT<T>::make(u), VT<U>::make(5)); }); }); }
extern "C" {
	void h_asio_void() { vv(); }
	void h_asio_int() { w1<int>(); }
	void h_asio_tr() { w1<Tr>(); }
	void h_asio_pair() { w2<Tr, int>(); }
	// several operations in flight, awaited by two coroutines, completed in any order; some futures are dropped instead
	void h_asio_many() {
		int N = rf_param("n", 3); { Leak leak; sched a, b; Op<void(EC, Tr)> op[4]; int n[4] = {}, kind[4] = {}, got[4] = {}; int v[4]; bool bad[4], drop[4], done[4] = {};
			for (int i = 0; i < N; ++i) { v[i] = rf_int("v"); bad[i] = rf_choose("bad", 2); if (bad[i]) rf_assume(v[i] != 0); drop[i] = rf_choose("drop", 2); auto f = op[i].start(false, EC(), Tr(0)); if (!drop[i]) (i & 1 ? b : a) + use(std::move(f), n[i], kind[i], got[i]); }
			bool first = rf_choose("first", 2); if (first) { drain(a); drain(b); }
			for (int s = 0; s < N; ++s) { int k = rf_choose("k", N); rf_assume(!done[k]); done[k] = true; op[k].complete(bad[k] ? EC(v[k], cat) : EC(), Tr(v[k])); if (rf_choose("run", 2)) { drain(a); drain(b); for (int i = 0; i < N; ++i) rf_check(n[i] == (done[i] && !drop[i]), "exactly the coroutines whose operation completed have resumed"); } }
			drain(a); drain(b); for (int i = 0; i < N; ++i) { rf_check(n[i] == !drop[i], "each resumed once"); if (!drop[i]) { rf_check(kind[i] == (bad[i] ? 2 : 1) && got[i] == v[i], "with its own operation's outcome"); rf_log((uint32_t)got[i]); } }
			rf_check(a.empty() && b.empty(), "nothing left"); }
		rf_check(Tr::live == 0, "values destroyed"); rf_reach("many end");
	}
	// one coroutine, a chain of operations, as an echo session is written
	void h_asio_chain() {
		int N = rf_param("n", 3); { Leak leak; sched a; Op<void(EC, std::size_t)> rd; Op<void(EC)> wr; int pos = 0, errs = 0, sum = 0, want = 0, wantpos = 0, wanterr = 0;
			a + [&]() -> future_t<> { try { for (int i = 0; i < N; ++i) { std::size_t k = co_await rd.start(false, EC(), 0); sum += (int)k; ++pos; co_await wr.start(false, EC()); ++pos; } } catch (asio::system_error& e) { errs = e.code().value(); } };
			drain(a); for (int i = 0; i < 2 * N && !wanterr; ++i) { int e = rf_choose("e", 2) ? 1 + (int)rf_choose("code", 3) : 0; EC ec = e ? EC(e, cat) : EC(); if (i & 1) wr.complete(ec); else { int k = rf_int("k") & 0xffff; rd.complete(ec, k); if (!e) want += k; } if (e) wanterr = e; else ++wantpos; drain(a); rf_check(pos == wantpos && errs == wanterr && sum == want, "the session advances by exactly one operation per completion, and ends with the error"); }
			rf_check(a.empty() && rd.inits + wr.inits == wantpos + !!wanterr, "each operation started once"); rf_log(sum); }
		rf_reach("chain end");
	}
	// completed on another thread while the coroutine starts to wait
	void h_asio_mt() {
		bool bad = rf_choose("bad", 2), pre = rf_choose("pre", 2); { Leak leak; sched a; Op<void(EC, Tr)> op; int n = 0, kind = 0, got = 0;
			{ auto f = op.start(false, EC(), Tr(0)); if (pre) a + use(std::move(f), n, kind, got);
				Th r([&] { local_scheduler_t ls(a); if (!pre) a + use(std::move(f), n, kind, got); a.run_one_batch(); a.run_one_batch(); });
				Th io([&] { op.complete(bad ? EC(7, cat) : EC(), Tr(9)); }); r.join(); io.join(); }
			drain(a); rf_check(n == 1 && kind == (bad ? 2 : 1) && got == (bad ? 7 : 9), "resumed exactly once with the outcome"); rf_check(a.empty(), "nothing left"); rf_log(n); }
		rf_check(Tr::live == 0, "values destroyed"); rf_reach("asio mt end");
	}
	void h_asio_ec() { v0<EC>(0); }
	void h_asio_ep() { v0<EP>(0); }
	void h_asio_ec_int() { v1<EC, int>(0); }
	void h_asio_ep_tr() { v1<EP, Tr>(0); }
	void h_asio_ec_pair() { v2<EC, Tr, int>(0); }
	void h_asio_ep_pair() { v2<EP, int, Tr>(0); }
}

// The same adapter over asio's own execution context: post and defer to an io_context polled by the harness.
#define ASIO_STANDALONE
#define ASIO_DISABLE_EPOLL
#include "util.h"
#include <asio/version.hpp>
#include <asio/io_context.hpp>
#include <asio/steady_timer.hpp>
#include <asio/post.hpp>
#include <asio/defer.hpp>
#include <asio/executor.hpp>
#include "asio/asio_task.h"
extern "C" void h_asio_timer() {
	const int64_t M = 1LL << 52; rf_clock_ns = 100000; rf_clock_step = 0;
	{ sched a; { asio::io_context io(1); asio::steady_timer t(io); int64_t d = rf_i64("d", 1, M); int r = 0; int64_t dl = rf_clock_ns + d;
		a + [&]() -> future_t<> { t.expires_after(ns(d)); try { co_await t.async_wait(asio::rf_task); r += 1; } catch (asio::system_error& e) { r += e.code() == asio::error::operation_aborted ? 10 : 100; } };
		drain(a); io.poll(); drain(a); rf_check(r == 0, "suspended"); rf_clock_ns += rf_i64("adv", 0, M - 1); bool due = rf_clock_ns >= dl; io.poll(); drain(a); rf_check(r == (due ? 1 : 0), "completes when due");
		if (rf_choose("cancel", 2)) { t.cancel(); io.poll(); drain(a); rf_check(r == (due ? 1 : 10), "the error of a cancelled operation"); } else { rf_clock_ns += 2 * M; io.poll(); drain(a); rf_check(r == 1, "completes in the end"); } rf_log(r); rf_check(a.empty(), "nothing left"); } }
	rf_reach("timer end");
}
extern "C" void h_asio_post() {
	{ sched a; { asio::io_context io(1); int n = rf_choose("n", 3), c = 0;
		for (int i = 0; i < n; ++i) a + [&]() -> future_t<> { co_await asio::post(io, asio::rf_task); ++c; co_await asio::defer(io, asio::rf_task); ++c; };
		drain(a); rf_check(c == 0, "suspended"); io.poll(); drain(a); rf_check(c == n, "each resumed once"); io.restart(); io.poll(); drain(a); rf_check(c == 2 * n && a.empty(), "each resumed once more"); } }
	rf_reach("post end");
}

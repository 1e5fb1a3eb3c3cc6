#include "util.h"
// A small world of coroutines and primitives whose handles are created, used, moved and dropped in any order. At the end every
// suspended coroutine is let go, the schedulers run dry, and everything allocated must have been released exactly once.
struct W {
	sched a, b; std::optional<future_t<Tr>> fut[2]; std::optional<awaitable_t<Tr>> aw; std::optional<future_t<Tr>> awf; std::unique_ptr<channel_t<Tr>> ch; std::unique_ptr<event_t> ev; std::unique_ptr<mutex_t> mx; std::optional<batch_unlock_t<mutex_t>> held; int started = 0, done = 0; 
	bool taken = false, awaited = false, set = false; int wr = 0, rd = 0, waits = 0; std::vector<std::unique_ptr<channel_t<Tr>>> chs; std::vector<event_t> evs; std::vector<generator_t<Tr>> gens; std::vector<timer_handler> th; int fired = 0, armed = 0; stop_source ss; std::optional<stop_token> tok; 
	future_t<Tr> make(int k, Tr t) { Tr l(k); if (k == 1) co_await yield(); if (k == 2) throw 3; ++done; co_return Tr(t.v); }
	generator_t<Tr> gen(int n) { Tr l(n); for (int i = 0; i < n; ++i) co_yield Tr(i); }
	static future_t<> use(future_t<Tr> f, int& d) { Tr l(1); try { Tr v = co_await f; v.chk(); } catch (int) {} ++d; }
	static future_t<> wrt(channel_t<Tr> c, int v, int& d) { Tr l(2); co_await c.write(Tr(v)); ++d; }
	static future_t<> rde(channel_t<Tr> c, int& d) { Tr l(3); Tr v = co_await c.read(); v.chk(); ++d; }
	static future_t<> wte(event_t e, int& d, int k) { Tr l(4); if (k == 1) (void)co_await e.wait_for(ns(50)); else co_await e; ++d; }
	static future_t<> lck(mutex_t m, int& d) { Tr l(5); auto g = co_await m.lock(); auto h = std::move(g); co_await yield(); ++d; }
	static future_t<> slp(int& d) { Tr l(6); try { co_await sleep_for(ns(40)); } catch (canceled_exception&) {} ++d; }
	static future_t<> via_(sched& o, int& d) { Tr l(7); co_await via(o); ++d; }
};
template<int PART> static void life() {
	int N = rf_param("n", 4); rf_clock_ns = 10; rf_clock_step = 0; 
	{ Leak leak; { W w; sched& a = w.a; w.ch.reset(new channel_t<Tr>(1)); w.ev.reset(new event_t); w.mx.reset(new mutex_t); int s = 0;
		auto ops = [&](int op) { switch (op) {
			// futures and awaitables
			case 0: if (!w.fut[s & 1]) w.fut[s & 1].emplace(w.make(s % 3, Tr(s))); break;                                             // a coroutine, not started
			case 1: if (w.fut[0]) { a + std::move(*w.fut[0]); w.fut[0].reset(); } break;                            // detached
			case 2: if (w.fut[1]) { a + W::use(std::move(*w.fut[1]), w.done); w.fut[1].reset(); } break;            // awaited by another
			case 3: if (!w.fut[0]) { w.fut[0] = std::move(w.fut[1]); w.fut[1].reset(); } break;
			case 4: if (!w.aw) { w.aw.emplace(); w.awf.emplace(w.aw->get_future()); w.awaited = w.set = false; } break;
			case 5: if (w.awf && !w.awaited) { w.awaited = true; if (s & 1) a + W::use(*w.awf, w.done); else a + W::use(std::move(*w.awf), w.done); w.awf.reset(); } break;
			case 6: if (w.aw && !w.set) { w.set = true; awaitable_t<Tr> o = *w.aw; if (s & 1) o.set_value(Tr(s)); else o.throw_exception(5); } break;
			case 7: if (w.aw && (w.set || !w.awaited)) { if ((s & 1) || !w.set) w.awf.reset(); w.aw.reset(); } break;
			case 8: { auto g = w.gen(2); if (s & 1) { auto i = g.begin(); (*i).chk(); } w.gens.push_back(std::move(g)); if (s & 2) w.gens.erase(w.gens.begin()); break; }
			case 9: if (!w.gens.empty()) { auto g = std::move(w.gens.back()); w.gens.pop_back(); a + std::move(g); } break;
			// primitives
			case 10: a + W::wrt(*w.ch, s, w.done); ++w.wr; break;
			case 11: (s & 1 ? a : w.b) + W::rde(*w.ch, w.done); ++w.rd; break;
			case 12: w.chs.push_back(std::move(w.ch)); w.ch.reset(new channel_t<Tr>(s & 1)); { auto& c = *w.chs.back(); int n = w.wr - w.rd; for (; n > 0; --n) a + W::rde(c, w.done); for (; n < 0; ++n) a + W::wrt(c, 1, w.done); } w.wr = w.rd = 0; if (s & 1) { w.chs.pop_back(); } break;  // the handle goes, coroutines hold copies
			case 13: a + W::wte(*w.ev, w.done, s & 1); ++w.waits; break;
			case 14: w.ev->signal(); if (s & 1) { w.ev->signal_all(); } break;
			case 15: { event_t keep = *w.ev; w.ev.reset(new event_t); for (int i = 0; i < w.waits; ++i) keep.signal(); w.waits = 0; drain(a); break; }
			case 16: a + W::lck(*w.mx, w.done); (s & 1 ? a : w.b) + W::lck(*w.mx, w.done); break;
			case 17: if (s & 1) w.mx.reset(new mutex_t); else if (w.held) w.held.reset(); else if (w.mx->try_lock(&w)) w.held.emplace(std::adopt_lock, (void*)&w, *w.mx); break;
			case 18: a + W::slp(w.done); break;
			case 19: { Tr t(s); w.th.push_back(a.timer()->add_handler(ns(30), [t, &w](bool) { t.chk(); ++w.fired; })); ++w.armed; if (s & 1) { w.th.back().stop(); w.th.pop_back(); } break; }
			case 20: a + W::via_(w.b, w.done); break;
			case 21: a.request_stop_all_if_possible(); break;
			case 22: rf_clock_ns += 35; break;
			default: batch(a); batch(w.b); break; } };
		int base = PART == 0 ? 0 : PART == 1 ? 10 : 16, cnt = PART == 0 ? 11 : PART == 1 ? 7 : 8;
		for (s = 0; s < N; ++s) { int o = rf_choose("op", cnt); o = o == cnt - 1 ? 99 : base + o; ops(o); }
		// let everybody go
		for (auto& f : w.fut) if (f) { a + W::use(*f, w.done); f.reset(); } if (w.held) w.held.reset(); if (w.aw && !w.set && w.awaited) { w.aw->set_value(Tr(1)); } 
		for (int r = 0; r < 4; ++r) { drain(a); drain(w.b); } for (int n = w.wr - w.rd; n > 0; --n) a + W::rde(*w.ch, w.done); for (int n = w.rd - w.wr; n > 0; --n) a + W::wrt(*w.ch, 1, w.done); for (int i = 0; i < w.waits; ++i) w.ev->signal();
		for (int r = 0; r < 3; ++r) { drain(a); drain(w.b); rf_clock_ns += 100; } drain(a); drain(w.b);
		rf_check(a.empty() && w.b.empty() && a.timer()->empty(), "everything ended"); rf_check(w.fired == w.armed, "timer callbacks"); rf_log(w.done);
	} rf_check(Tr::live == 0, "every value, local and capture destroyed exactly once"); }
	rf_reach("life end");
}
extern "C" {
	// the future of a coroutine that was never started goes away
	void h_life_unstarted() {
		int how = rf_choose("how", 3); { Leak leak; sched a; W w; { auto f = w.make(0, Tr(1)); if (how == 1) { auto g = f; f = std::move(g); } if (how == 2) { auto g = W::use(std::move(f), w.done); } } drain(a); } rf_check(Tr::live == 0, "the locals and arguments of a coroutine that was never started are destroyed"); rf_reach("unstarted end");
	}
	void h_life_future() { life<0>(); } void h_life_prim() { life<1>(); } void h_life_time() { life<2>(); }
	// values published early (co_yield), replaced, followed by an exception or by nothing, awaited after the end or never
	void h_life_yields() {
		int ny = rf_choose("yields", 3), end = rf_choose("end", 3), when = rf_choose("when", 3), susp = rf_choose("susp", 2), y0 = rf_choose("y0", 2); { Leak leak; sched a; int n = 0, done = 0; {
			struct F { static future_t<Tr> f(int y0, int ny, int end, int susp) { Tr l(1); if (y0) co_await yield(); for (int i = 0; i < ny; ++i) { co_yield Tr(i + 1); if (susp) co_await yield(); } if (end == 1) throw 5; if (end == 2) throw Tr(9); co_return Tr(ny + 1); }
				static future_t<> use(future_t<Tr> f, int late, int& n, int& done) { Tr l(2); for (int i = 0; i < late; ++i) co_await yield(); try { Tr v = co_await f; v.chk(); ++n; } catch (int) { ++n; } catch (Tr& t) { t.chk(); ++n; } ++done; } };
			auto f = F::f(y0, ny, end, susp);
			if (when == 0) { a + std::move(f); } else if (when == 1) { a + f; a + F::use(std::move(f), 8, n, done); } else { a + f; batch(a); { auto g = std::move(f); } } drain(a); rf_check(n == (when == 1) && done == n, "the awaiter goes on once"); rf_log(n); } rf_check(a.empty(), "empty"); }
		rf_check(Tr::live == 0, "values, exceptions and locals destroyed"); rf_reach("yields end");
	}
	// an operation on a channel holds on to the channel: the handles may go before it is awaited, while it is suspended, or after
	void h_life_chanop() {
		int cap = rf_choose("cap", 3), kind = rf_choose("kind", 4), other = rf_choose("other", 2); int got = 0, done = 0; { Leak leak; sched a; { auto c = std::make_unique<channel_t<Tr>>(cap); 
			auto f = [&]() -> future_t<> { Tr l(1); if (kind & 1) { auto op = c->read(); if (kind & 2) c.reset(); Tr v = co_await op; got = v.v; } else { auto op = c->write(Tr(7)); if (kind & 2) c.reset(); co_await op; } ++done; };
			auto peer = [](channel_t<Tr> c, bool rd, int& got, int& done) -> future_t<> { if (rd) { Tr v = co_await c.read(); got = v.v; } else co_await c.write(Tr(7)); ++done; };
			bool first = other || cap == 0 || (kind & 1); if (first) { a + peer(*c, !(kind & 1), got, done); drain(a); }
			a + f(); drain(a); c.reset(); drain(a); rf_check(done == 1 + first && (got == 7 || !first), "both ended"); rf_check(a.empty(), "idle"); rf_log(got); } } 
		rf_check(Tr::live == 0, "values destroyed"); rf_reach("chanop end");
	}
}

#include "util.h"
// Threads of the stop machinery. Every entry: main prepares, two or three threads act, main joins and checks.
namespace {
	struct Probe { std::atomic<int> runs{ 0 }, inside{ 0 }; std::atomic<bool> gone{ false }; };
	struct Fn { Probe* p; void operator()() { rf_check(!p->gone.load(), "nothing runs after the callback's destruction"); p->inside.store(1); rf_check(p->runs.fetch_add(1) == 0, "runs once"); p->inside.store(0); } };
	using CB = std::optional<stop_callback<Fn>>;
	void destroy(CB& c, Probe& p) { c.reset(); rf_check(p.inside.load() == 0, "destruction waits for the running invocation"); p.gone.store(true); }
	struct Th { std::function<void()> f; int id; explicit Th(std::function<void()> g) : f(std::move(g)) { id = rf_spawn([](void* a) { (*(std::function<void()>*)a)(); }, &f); } void join() { rf_join(id); } };
}
extern "C" {
	void h_stopmt_reg() { // request vs register and destroy
		{ Leak leak; { stop_source s; Probe p, q; bool r = false; CB keep; int alive = rf_choose("alive", 2); 
			{ Th a([&] { r = s.request_stop(); }), b([&] { CB c; if (alive) { keep.emplace(s.get_token(), Fn{ &q }); } c.emplace(s.get_token(), Fn{ &p }); destroy(c, p); }); a.join(); b.join(); }
			rf_check(r, "the only request succeeds"); rf_check(p.runs <= 1, "at most once"); if (alive) rf_check(q.runs == 1, "a callback that lives on runs exactly once"); rf_log(p.runs); } }
		rf_reach("reg end");
	}
	void h_stopmt_pre() { // request vs destroying callbacks registered before
		{ Leak leak; { stop_source s; Probe p[3]; bool r = false; CB c[3]; int n = 2; for (int i = 0; i < n; ++i) c[i].emplace(s.get_token(), Fn{ &p[i] }); int k = rf_choose("k", 2);
			{ Th a([&] { r = s.request_stop(); }), b([&] { destroy(c[k], p[k]); }); a.join(); b.join(); }
			rf_check(r, "succeeds"); rf_check(p[1 - k].runs == 1, "the other ran exactly once"); rf_log(p[k].runs); } }
		rf_reach("pre end");
	}
	void h_stopmt_req() { // concurrent requests
		{ Leak leak; { stop_source s; stop_source s2(s); Probe p; int r[2] = {}; CB c(std::in_place, s.get_token(), Fn{ &p }); bool third = rf_choose("reg", 2); Probe q; CB d;
			{ Th a([&] { r[0] = s.request_stop(); if (r[0]) rf_check(p.runs == 1 && s.stop_requested(), "done when the successful request returns"); }), b([&] { r[1] = s2.request_stop(); if (third) d.emplace(s2.get_token(), Fn{ &q }); }); a.join(); b.join(); }
			rf_check(r[0] + r[1] == 1, "exactly one request succeeds"); rf_check(p.runs == 1, "callback ran exactly once"); if (third) rf_check(q.runs == 1, "registered after the request: runs at once"); } }
		rf_reach("req end");
	}
	void h_stopmt_two() { // two registrars and a request
		{ Leak leak; { stop_source s; Probe p[2]; CB c[2]; bool r = false; int mode = rf_choose("mode", 2);
			{ Th a([&] { c[0].emplace(s.get_token(), Fn{ &p[0] }); if (mode) destroy(c[0], p[0]); }), b([&] { c[1].emplace(s.get_token(), Fn{ &p[1] }); }), d([&] { r = s.request_stop(); }); a.join(); b.join(); d.join(); }
			rf_check(r, "succeeds"); rf_check(p[1].runs == 1, "ran exactly once"); if (!mode) rf_check(p[0].runs == 1, "ran exactly once"); } }
		rf_reach("two end");
	}
	void h_stopmt_refs() { // last references dropped concurrently
		{ Leak leak; { std::optional<stop_source> s(std::in_place); Probe p; int n = rf_choose("kind", 4); std::optional<stop_token> t(s->get_token()); std::optional<stop_token> t2; CB c; if (n == 1) t2.emplace(*t); if (n == 2) c.emplace(*t, Fn{ &p }); 
			{ Th a([&] { if (n == 3) { stop_token x(*t); t.reset(); rf_check(!x.stop_requested(), "valid"); } else t.reset(); }), b([&] { if (n == 1) { s.reset(); t2.reset(); } else if (n == 2) { s.reset(); c.reset(); } else if (n == 3) { stop_source y(*s); s.reset(); rf_check(y.stop_possible(), "valid"); } else s.reset(); }); a.join(); b.join(); } } }
		rf_reach("refs end");
	}
	void h_stopmt_self() { // callback destroys itself or its neighbour while another thread destroys the rest
		{ Leak leak; { stop_source s; struct W { std::optional<stop_callback<std::function<void()>>> c[2]; std::atomic<int> runs[2] = {}; } w; int act = rf_choose("act", 2); bool r = false;
			for (int i = 0; i < 2; ++i) w.c[i].emplace(s.get_token(), [&w, i, act] { W& x = w; rf_check(x.runs[i].fetch_add(1) == 0, "runs once"); if (i == 1 && act == 0) x.c[1].reset(); else if (i == 1) x.runs[1].load(); });
			{ Th a([&] { r = s.request_stop(); }), b([&] { w.c[0].reset(); }); a.join(); b.join(); } rf_check(r, "succeeds"); rf_check(w.runs[1] == 1, "ran exactly once"); rf_check(w.runs[0] <= 1, "at most once"); } }
		rf_reach("self end");
	}
	void h_stopmt_make() { // a task's source made on demand by two threads at once is one source
		{ Leak leak; { stop_source s(nostopstate); stop_token t[2]; { Th a([&] { s.make_sure_possible(); t[0] = s.get_token(); }), b([&] { s.make_sure_possible(); t[1] = s.get_token(); }); a.join(); b.join(); } rf_check(t[0] == t[1] && t[0].stop_possible(), "one source"); rf_check(s.request_stop(), "request"); rf_check(t[0].stop_requested() && t[1].stop_requested(), "both observe it"); } }
		rf_reach("make end");
	}
}

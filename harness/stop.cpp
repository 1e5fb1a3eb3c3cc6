#include "util.h"
#include <stdexcept>
// Model: every shared state has a number; objects refer to it (0 = none)
struct Model { bool stopped[12] = {}; int src[12] = {}; int next = 1; };
struct Cb; 
struct World {
	static const int S = 2, T = 2, C = 3; Model m; std::optional<stop_source> s[S]; int sm[S] = {}; std::optional<stop_token> t[T]; int tm[T] = {};
	struct Fn { World* w; int i; Tr tr; void operator()() { tr.chk(); w->ran(i); } };
	std::optional<stop_callback<Fn>> c[C]; int cm[C] = {}; int runs[C] = {}, want[C] = {}, act[C] = {}, arg[C] = {}; bool linked[C] = {}; int order[C], no = 0; bool dead[C] = {};
	void ran(int i) { rf_check(!dead[i], "a destroyed callback never runs"); ++runs[i]; rf_check(runs[i] == 1, "runs once");
		switch (act[i]) { case 1: act[i] = 0; kill_cb(i); break; case 2: { int j = arg[i]; if (c[j] && j != i && !building[j]) kill_cb(j); } break; case 3: for (int k = 0; k < S; ++k) if (s[k] && sm[k] == cm[i]) rf_check(!s[k]->request_stop(), "only the first request succeeds"); break; case 4: { int j = arg[i]; if (!c[j] && cm[i]) { stop_token x = tok(cm[i]); want[j] = 1; make_cb(j, x, cm[i], 0, 0); rf_check(runs[j] == 1, "a callback registered after the request runs at once"); } } break; } }
	bool building[C] = {};
	stop_token tok(int st) { for (int k = 0; k < S; ++k) if (s[k] && sm[k] == st) return s[k]->get_token(); for (int k = 0; k < T; ++k) if (t[k] && tm[k] == st) return *t[k]; return stop_token(); }
	void make_cb(int i, stop_token& x, int st, int a, int b, bool mv = false) { runs[i] = 0; act[i] = a; arg[i] = b; cm[i] = st; dead[i] = false; building[i] = true; if (mv) c[i].emplace(std::move(x), Fn{ this, i }); else c[i].emplace(x, Fn{ this, i }); building[i] = false; }
	void kill_cb(int i) { bool pend = c[i] && want[i] == 0; c[i].reset(); dead[i] = true; (void)pend; }
	bool possible(int st) { return st && (m.stopped[st] || m.src[st] > 0); }
	void src_set(int k, int st) { if (sm[k]) m.src[sm[k]]--; sm[k] = st; if (st) m.src[st]++; }
	void check() { for (int k = 0; k < S; ++k) if (s[k]) { rf_check(s[k]->stop_requested() == (sm[k] && m.stopped[sm[k]]), "source reports the request"); rf_check(s[k]->stop_possible() == (sm[k] != 0), "source possible"); }
		for (int k = 0; k < T; ++k) if (t[k]) { rf_check(t[k]->stop_requested() == (tm[k] && m.stopped[tm[k]]), "token reports the request"); rf_check(t[k]->stop_possible() == possible(tm[k]), "token without a source reports that no stop is possible"); }
		for (int i = 0; i < C; ++i) if (c[i]) rf_check(runs[i] == want[i], "a callback runs exactly when its stop is requested"); }
	void request(int k) { int st = sm[k]; bool first = st && !m.stopped[st]; if (first) { m.stopped[st] = true; for (int i = 0; i < C; ++i) if (c[i] && cm[i] == st) want[i] = 1; } bool r = s[k]->request_stop(); rf_check(r == first, "exactly the first request succeeds"); }
};
extern "C" {
	void h_stop_life() { // sources, tokens and callbacks in any order
		int N = rf_param("n", 5); { Leak leak; { World w; int maxc = rf_param("c", 2), rich = rf_param("rich", 0);
			for (int q = 0; q < N; ++q) {
				struct Op { int k, a, b; } ops[80]; int n = 0; auto add = [&](int k, int a, int b) { ops[n++] = { k, a, b }; };
				for (int k = 0; k < w.S; ++k) { if (!w.s[k]) { add(0, k, 0); if (rich) add(1, k, 0); if (w.s[1 - k]) { add(2, k, 1 - k); if (rich) add(3, k, 1 - k); } break; } }
				for (int k = 0; k < w.S; ++k) if (w.s[k]) { add(4, k, 0); add(5, k, 0); for (int j = 0; j < w.T; ++j) if (!w.t[j]) { add(6, j, k); break; } }
				if (w.s[0] && w.s[1] && w.sm[0] != w.sm[1]) { add(7, 0, 1); if (rich) add(8, 0, 1); }
				if (rich) for (int k = 0; k < w.S; ++k) if (w.s[k] && !w.sm[k]) add(16, k, 0);
				for (int j = 0; j < w.T; ++j) if (w.t[j]) { add(9, j, 0); for (int i = 0; i < maxc; ++i) if (!w.c[i]) { add(10, i, j); add(11, i, j); break; } int o = 1 - j; if (!w.t[o]) { add(12, o, j); } else if (rich && w.tm[o] != w.tm[j]) { add(13, o, j); add(14, o, j); } }
				for (int i = 0; i < maxc; ++i) if (w.c[i]) add(15, i, 0);
				int id = rf_choose("op", n); auto [k, a, b] = ops[id];
				switch (k) {
				case 0: w.s[a].emplace(); w.src_set(a, w.m.next++); break;
				case 1: w.s[a].emplace(nostopstate); w.sm[a] = 0; break;
				case 2: w.s[a].emplace(*w.s[b]); w.src_set(a, w.sm[b]); break;
				case 3: { w.s[a].emplace(std::move(*w.s[b])); int st = w.sm[b]; w.src_set(b, 0); w.src_set(a, st); } break;
				case 4: w.s[a].reset(); w.src_set(a, 0); break;
				case 5: w.request(a); break;
				case 6: w.t[a].emplace(w.s[b]->get_token()); w.tm[a] = w.sm[b]; break;
				case 7: *w.s[a] = *w.s[b]; w.src_set(a, w.sm[b]); break;
				case 8: { *w.s[a] = std::move(*w.s[b]); int st = w.sm[b]; w.src_set(b, 0); w.src_set(a, st); } break;
				case 9: w.t[a].reset(); w.tm[a] = 0; break;
				case 10: case 11: { int st = w.tm[b]; w.want[a] = st && w.m.stopped[st]; bool linked = st && !w.m.stopped[st] && w.m.src[st] > 0; w.make_cb(a, *w.t[b], st, 0, 0, k == 11); if (k == 11 && linked) w.tm[b] = 0; } break;
				case 12: w.t[a].emplace(*w.t[b]); w.tm[a] = w.tm[b]; break;
				case 13: *w.t[a] = *w.t[b]; w.tm[a] = w.tm[b]; break;
				case 14: *w.t[a] = std::move(*w.t[b]); w.tm[a] = w.tm[b]; w.tm[b] = 0; break;
				case 15: w.kill_cb(a); break;
				case 16: w.s[a]->make_sure_possible(); w.src_set(a, w.m.next++); break;
				}
				w.check(); rf_log(k);
			}
			rf_log(77);
		} }
		rf_check(Tr::live == 0, "callback objects destroyed"); rf_reach("life end");
	}
	// three callbacks with actions: destroy itself, destroy another, request again, register another from inside; then everything is torn down in either order
	void h_stop_acts() {
		{ Leak leak; { World w; int n = rf_param("n", 3); w.s[0].emplace(); w.src_set(0, 1); w.m.next = 2; w.t[0].emplace(w.s[0]->get_token()); w.tm[0] = 1; int order[3], no = 0; (void)order; (void)no;
			for (int i = 0; i < n; ++i) { int a = rf_choose("act", 5), b = 0; if (a == 2) { b = (i + 1 + rf_choose("arg", 2)) % 3; if (b >= n) a = 0; } if (a == 4) { if (n == 3) a = 0; b = 2; } stop_token x = *w.t[0]; w.want[i] = 0; w.make_cb(i, x, 1, a, b, i & 1); }
			int pre = rf_choose("pre", n + 1); if (pre) w.kill_cb(pre - 1); bool had[3], kill[3] = {}; for (int i = 0; i < n; ++i) had[i] = (bool)w.c[i];
			// callbacks run in some order; one destroyed by another before its turn must not run: checked by dead[]; every one not destroyed must have run
			w.m.stopped[1] = true; for (int i = 0; i < 3; ++i) if (w.c[i]) w.want[i] = 1; rf_check(w.s[0]->request_stop(), "first request succeeds"); rf_check(!w.s[0]->request_stop(), "second does not");
			for (int i = 0; i < n; ++i) { if (had[i] && w.c[i]) rf_check(w.runs[i] == 1, "each registered callback runs exactly once"); if (had[i] && !w.c[i]) rf_check(w.runs[i] <= 1, "at most once"); if (!had[i]) rf_check(w.runs[i] == 0, "destroyed before: never runs"); rf_log(w.runs[i]); } (void)kill;
			int fin = rf_choose("fin", 6); static const int perm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} }; for (int z : perm[fin]) { if (z == 0) w.s[0].reset(); else if (z == 1) w.t[0].reset(); else for (int i = 0; i < 3; ++i) w.c[i].reset(); } } }
		rf_check(Tr::live == 0, "callback objects destroyed"); rf_reach("acts end");
	}
	// reference counts: any number of holders of each kind, released in any order; the token keeps answering
	void h_stop_refs() {
		int ns = 1 + rf_choose("ns", 3), nt = rf_choose("nt", 4), nc = rf_choose("nc", 3), req = rf_choose("req", 3); { Leak leak; int ran = 0; { std::optional<stop_source> s[3]; std::optional<stop_token> t[3]; struct F { int* r; void operator()() { ++*r; } }; std::optional<stop_callback<F>> c[2]; s[0].emplace(); for (int i = 1; i < ns; ++i) s[i].emplace(*s[0]); for (int i = 0; i < nt; ++i) t[i].emplace(s[i % ns]->get_token()); for (int i = 0; i < nc; ++i) c[i].emplace(s[0]->get_token(), F{ &ran }); if (req == 1) { rf_check(s[ns - 1]->request_stop(), "first"); rf_check(ran == nc, "all ran"); }
			int ls = ns, lt = nt, lc = nc; while (ls + lt + lc) { int k = rf_choose("drop", 3); if (k == 0 ? !ls : k == 1 ? !lt : !lc) k = ls ? 0 : lt ? 1 : 2; if (k == 0) { --ls; if (ls == 0 && req == 2) { rf_check(s[0]->request_stop(), "first"); rf_check(ran == lc, "all left ran"); } s[ls].reset(); } else if (k == 1) t[--lt].reset(); else c[--lc].reset();
				for (int i = 0; i < lt; ++i) { bool st = req == 1 || (req == 2 && ls == 0); rf_check(t[i]->stop_requested() == st, "token state"); rf_check(t[i]->stop_possible() == (st || ls > 0), "possible"); } } } rf_log(ran); }
		rf_reach("refs end");
	}
	// the callback that runs last ends the life of everything: the source whose request is running, every token, every callback, itself
	void h_stop_ends() {
		int n = 1 + rf_choose("n", 3), toks = rf_choose("toks", 2), copies = rf_choose("copies", 2), task = rf_choose("task", 2); { Leak leak; { int ran = 0, after = 0; struct St { std::unique_ptr<stop_source> s, s2; std::optional<stop_token> t; struct F { St* st; int i; Tr tr; void operator()() { tr.chk(); F* me = this; St* w = st; int& r = *w->ran; if (++r == w->n) { w->s.reset(); w->s2.reset(); w->t.reset(); if (w->rev) for (int k = w->n; k-- > 0;) w->c[k].reset(); else for (int k = 0; k < w->n; ++k) w->c[k].reset(); ++*w->after; } (void)me; } };
				std::unique_ptr<stop_callback<F>> c[3]; int n = 0; bool rev = false; int *ran = nullptr, *after = nullptr; } w; w.n = n; w.rev = rf_choose("rev", 2); w.ran = &ran; w.after = &after;
			w.s.reset(new stop_source); if (copies) w.s2.reset(new stop_source(*w.s)); if (toks) w.t.emplace(w.s->get_token()); for (int i = 0; i < n; ++i) w.c[i].reset(new stop_callback<St::F>(w.s->get_token(), St::F{ &w, i })); (void)task;
			rf_check(w.s->request_stop(), "the first request succeeds"); rf_check(ran == n && after == 1, "every callback ran once"); rf_log(ran); } }
		rf_check(Tr::live == 0, "callback objects destroyed"); rf_reach("ends end");
	}
	// make_stop_callback, with a token kept and a token given away, owned by a unique_ptr
	void h_stop_make() {
		int n = 1 + rf_choose("n", 2), drop = rf_choose("drop", 4), kind = rf_choose("kind", 3), mv = rf_choose("mv", 2); { Leak leak; { stop_source s; int ran[2] = {}; struct F { int* r; Tr tr; void operator()() { tr.chk(); ++*r; } }; 
			stop_token t = s.get_token(); std::unique_ptr<stop_callback<F>> c[2]; if (kind == 2) rf_check(s.request_stop(), "first");
			for (int i = 0; i < n; ++i) { if (mv) c[i] = make_stop_callback(s.get_token(), F{ &ran[i] }); else c[i] = make_stop_callback(t, F{ &ran[i] }); }
			if (drop & 1) c[0].reset(); if (drop & 2) { std::unique_ptr<stop_callback<F>> o = std::move(c[n - 1]); o.reset(); }
			if (kind == 1) rf_check(s.request_stop(), "first"); for (int i = 0; i < n; ++i) { bool gone = (i == 0 && (drop & 1)) || (i == n - 1 && (drop & 2)); rf_check(ran[i] == (kind == 2 || (kind == 1 && !gone)), "runs exactly once, when it should"); rf_log(ran[i]); } } }
		rf_check(Tr::live == 0, "callback objects destroyed"); rf_reach("make end");
	}
	// a task's stop source: created on demand, its tokens outlive the task
	void h_stop_task() {
		{ Leak leak; sched a; stop_token tk; int ran = 0, st = 0; struct F { int* r; void operator()() { ++*r; } }; std::optional<stop_callback<F>> cb; int when = rf_choose("when", 4), cbat = rf_choose("cb", 3), drop = rf_choose("drop", 2);
			task_t* t = a + [&]() -> future_t<> { task_t* me = co_await get_current_task(); stop_token mine = me->get_stop_token(); rf_check(mine.stop_possible(), "task can be stopped"); for (int i = 0; i < 3; ++i) { if (mine.stop_requested()) { st = i + 1; co_return; } co_await yield(); } };
			rf_check(!t->request_stop_if_possible(), "no source made yet: nothing to request"); tk = t->get_stop_token(); rf_check(tk.stop_possible() && !tk.stop_requested(), "fresh"); if (cbat == 1) cb.emplace(tk, F{ &ran });
			for (int i = 0; i < when; ++i) batch(a); bool ok = when < 4 && !a.empty(); if (ok) { rf_check(t->request_stop(), "first"); rf_check(!t->request_stop(), "once"); } if (cbat == 2) cb.emplace(tk, F{ &ran }); if (drop) cb.reset(); drain(a); rf_check(a.empty(), "task ended");
			rf_check(tk.stop_requested() == ok, "observed"); rf_check(ran == (ok && cbat ? 1 : 0), "callback ran once"); rf_check(st == (ok && when < 3 ? when + 1 : 0), "the task saw it at its next step"); rf_check(tk.stop_possible() == ok, "source is gone with the task"); rf_log(st); }
		rf_reach("task end");
	}
}

#include "util.h"
template<class T> static generator_t<T> body(int n, const int* v, int last, int* steps) {
	Tr local(7); ++*steps; for (int i = 0; i < n; ++i) { Tr inner(i); T val = VT<T>::make(v[i]); co_yield val; ++*steps; }
	T r = VT<T>::make(last); co_return r;
}
static generator_t<int> tmp_body(int n, const int* v, int last, int* steps) { ++*steps; for (int i = 0; i < n; ++i) { co_yield v[i] + 0; ++*steps; } co_return last + 0; }
// iterate, abandon anywhere, move anywhere; style of iteration chosen
template<class T, class B> static void iterate(B make) {
	{ Leak leak; const int N = rf_param("n", 3); int n = 1 + rf_choose("n", N), v[8], last = rf_int("last"); for (int i = 0; i < n; ++i) v[i] = rf_int("v"); int steps = 0; int stop = rf_choose("stop", n + 3), mv = rf_choose("move", 4), mvat = rf_choose("mvat", n + 2);
		{ generator_t<T> g = make(n, v, last, &steps), h; int other = 0, steps2 = 0; generator_t<T>* cur = &g; rf_check(steps == 0, "the body does not run before the first advance");
			auto move = [&] { if (mv == 1) { h = std::move(g); cur = &h; } else if (mv == 2) { other = rf_int("other"); h = make(1, &other, other, &steps2); auto i2 = h.begin(); rf_check(VT<T>::get(*i2) == other, "other generator"); h = std::move(g); cur = &h; } else if (mv == 3) { generator_t<T> t(std::move(g)); g = std::move(t); } };
			if (stop == n + 2) { int k = 0; if (mvat == 0) move(); for (auto& x : *cur) { rf_check(k <= n, "nothing after the end"); rf_check(VT<T>::get(x) == (k < n ? v[k] : last), "values in order"); ++k; rf_check(steps == k, "runs only as far as consumed"); rf_log(k); } rf_check(k == n + 1, "all values"); }
			else { if (stop == 0 && mvat <= 1) move(); if (stop > 0) { if (mvat == 0) move(); auto it = cur->begin(); rf_check(it != cur->end(), "not at the end"); 
				for (int k = 0; k < stop && k <= n; ++k) { rf_check(it != cur->end(), "not at the end while values are left"); rf_check(steps == k + 1, "runs only as far as consumed"); if (mvat == k + 1) move(); rf_check(VT<T>::get(*it) == (k < n ? v[k] : last), "values in order"); rf_check(it.operator->() == &*it, "same object"); if (k + 1 < stop || k == n) { if (k & 1) it++; else ++it; if (k == n) rf_check(it == cur->end(), "compares equal to the end after the last value"); } } } }
			rf_log(steps);
		}
	}
	rf_check(Tr::live == 0, "the body's locals are destroyed exactly once"); rf_reach("iter end");
}
extern "C" {
	void h_gen_int() { iterate<int>([](int n, const int* v, int l, int* s) { return body<int>(n, v, l, s); }); }
	void h_gen_tr() { iterate<Tr>([](int n, const int* v, int l, int* s) { return body<Tr>(n, v, l, s); }); }
	void h_gen_mo() { iterate<Mo>([](int n, const int* v, int l, int* s) { return body<Mo>(n, v, l, s); }); }
	void h_gen_tmp() { iterate<int>(tmp_body); }
	// two generators consumed alternately do not disturb each other
	void h_gen_two() {
		{ Leak leak; int v[2][3], last[2], steps[2] = {}; for (int i = 0; i < 2; ++i) { for (int k = 0; k < 3; ++k) v[i][k] = rf_int("v"); last[i] = rf_int("l"); } { auto g0 = body<Tr>(2, v[0], last[0], &steps[0]), g1 = body<Tr>(3, v[1], last[1], &steps[1]); generator_t<Tr>* g[2] = { &g0, &g1 };
			std::optional<generator_t<Tr>::iterator> it[2]; int pos[2] = {}, len[2] = { 2, 3 }; int N = rf_param("n", 8);
			for (int s = 0; s < N; ++s) { int i = rf_choose("who", 2); if (!it[i]) it[i].emplace(g[i]->begin()); else if (*it[i] == g[i]->end()) continue; else { ++*it[i]; ++pos[i]; }
				for (int j = 0; j < 2; ++j) if (it[j]) { rf_check((*it[j] == g[j]->end()) == (pos[j] > len[j]), "end exactly after its own values"); if (pos[j] <= len[j]) rf_check((*it[j])->v == (pos[j] < len[j] ? v[j][pos[j]] : last[j]), "its own values in order"); } } } }
		rf_check(Tr::live == 0, "locals destroyed"); rf_reach("two end");
	}
	// generators started on a scheduler: one step per batch, in start order, interleaved with coroutines
	void h_gen_sched() {
		{ Leak leak; sched a; int k = rf_param("k", 3), len[4], log[40], nl = 0, rem[4]; bool gen[4]; int order[4], no = 0;
			auto g = [&](int id, int n) -> generator_t<int> { Tr t(id); for (int i = 0; i < n; ++i) { log[nl++] = id; co_yield i; } log[nl++] = id; co_return 0; };
			auto c = [&](int id, int n) -> future_t<> { Tr t(id); for (int i = 0; i < n; ++i) { log[nl++] = id; co_await yield(); } log[nl++] = id; };
			auto round = [&] { int q = nl, m = 0; batch(a); for (int i = 0; i < no; ++i) { int id = order[i]; rf_check(q < nl && log[q++] == id, "each ready one runs one step per batch, in order"); if (--rem[id] >= 0) order[m++] = id; } no = m; rf_check(q == nl, "nothing else runs"); };
			for (int i = 0; i < k; ++i) { gen[i] = rf_choose("gen", 2); len[i] = rf_choose("len", 3); rem[i] = len[i]; order[no++] = i; if (gen[i]) { if (i & 1) a + g(i, len[i]); else a + [&, i]() -> generator_t<int> { return g(i, len[i]); }; } else a + c(i, len[i]); if (rf_choose("run", 2)) round(); }
			for (int i = 0; i < 4; ++i) round(); rf_check(no == 0, "all steps done");
			drain(a); rf_check(a.empty(), "all finished"); int cnt[4] = {}; for (int i = 0; i < nl; ++i) cnt[log[i]]++; for (int i = 0; i < k; ++i) rf_check(cnt[i] == 0 || cnt[i] == len[i] + 1, "each step once"); }
		rf_check(Tr::live == 0, "locals destroyed"); rf_reach("gs end");
	}
}

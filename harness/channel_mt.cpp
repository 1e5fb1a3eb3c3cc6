#include "util.h"
// Threads own one scheduler each; a thread starts its coroutines and runs batches while the others do the same. Whatever is
// still suspended is finished by the main thread afterwards.
template<class CH> struct Mt {
	CH c; sched* s[4] = {}; int wr[4] = {}, rd[4] = {}, rounds; int v[4][8]; int got[4][8]; int gn[4] = {}; int wdone[4] = {}; int act[4] = {};
	Mt(int cap) : c(cap) {}
	void start(int i) {
		using T = typename CH::value_type;
		if (wr[i]) *s[i] + [this, i]() -> future_t<> { for (int k = 0; k < wr[i]; ++k) { co_await c.write(VT<T>::make(v[i][k])); ++wdone[i]; rf_check(librf_current_scheduler() == s[i], "resumed on its own scheduler"); rf_check(rf_tid() == act[i], "resumed by the thread that runs its scheduler"); } };
		if (rd[i]) *s[i] + [this, i]() -> future_t<> { for (int k = 0; k < rd[i]; ++k) { T x = co_await c.read(); got[i][gn[i]++] = VT<T>::get(x); rf_check(rf_tid() == act[i], "resumed by the thread that runs its scheduler"); } };
		for (int k = 0; k < rounds; ++k) s[i]->run_one_batch();
	}
	static inline Mt* X; static void body(void* p) { long i = (long)p; X->act[i] = rf_tid(); X->start((int)i); }
	void all(int n) {
		using T = typename CH::value_type; X = this; int W = 0, R = 0; int tid[4];
		for (int i = 0; i < n; ++i) { W += wr[i]; R += rd[i]; for (int k = 0; k < wr[i]; ++k) v[i][k] = rf_int("val"); }
		for (int i = 1; i < n; ++i) tid[i] = rf_spawn(body, (void*)(long)i);
		body((void*)0); for (int i = 1; i < n; ++i) rf_join(tid[i]);
		for (int i = 0; i < n; ++i) act[i] = rf_tid();
		for (int k = 0; k < 40; ++k) { bool any = false; for (int i = 0; i < n; ++i) any |= s[i]->run_one_batch(); if (!any) break; }
		int gr = 0, gw = 0; for (int i = 0; i < n; ++i) { gr += gn[i]; gw += wdone[i]; }
		int cap = (int)c.capacity(); rf_check(gr == (R < W ? R : W), "no reader left suspended while a value or writer is there"); rf_check(gw == (W < R + cap ? W : R + cap), "no writer left suspended while there is room or a reader");
		// drain what was not read
		int ex[16], en = 0; int left = W - gr;
		if (left > 0) { *s[0] + [&]() -> future_t<> { for (int k = 0; k < left; ++k) { T x = co_await c.read(); ex[en++] = VT<T>::get(x); } }; }
		if (R > W) { *s[0] + [&]() -> future_t<> { for (int k = W; k < R; ++k) co_await c.write(VT<T>::make(1000000 + k)); }; }
		for (int k = 0; k < 40; ++k) { bool any = false; for (int i = 0; i < n; ++i) any |= s[i]->run_one_batch(); if (!any) break; }
		rf_check(en == (left > 0 ? left : 0), "everything accepted can be read"); for (int i = 0; i < n; ++i) { rf_check(s[i]->empty(), "every coroutine finished"); rf_check(gn[i] == rd[i] && wdone[i] == wr[i], "every operation completed once"); }
		// multiset of values: every write has one matching read; per-writer order within one reader
		static int all_[32]; int m = 0; for (int i = 0; i < n; ++i) for (int k = 0; k < gn[i]; ++k) all_[m++] = got[i][k]; for (int k = 0; k < en; ++k) all_[m++] = ex[k];
		unsigned sw = 0, sr = 0; unsigned long long qw = 0, qr = 0; for (int i = 0; i < n; ++i) for (int k = 0; k < wr[i]; ++k) { sw += (unsigned)v[i][k]; qw += 3ull * (unsigned)v[i][k]; } for (int k = 0; k < m; ++k) if (R <= W) { sr += (unsigned)all_[k]; qr += 3ull * (unsigned)all_[k]; }
		if (R <= W) rf_check(sw == sr && m == W, "what was read is what was written");
		rf_log(m);
	}
};
// identified values: value = writer * 16 + index, so order per writer is visible
template<class CH> static void order_check(Mt<CH>& m, int n) {
	for (int i = 0; i < n; ++i) { int last[4] = {-1, -1, -1, -1}; for (int k = 0; k < m.gn[i]; ++k) { int w = m.got[i][k] >> 4, x = m.got[i][k] & 15; if (m.got[i][k] >= 1000000) continue; rf_check(w >= 0 && w < n && x < m.wr[w], "a value that was written"); rf_check(x > last[w], "values of one writer are not reordered"); last[w] = x; } }
	bool seen[4][16] = {}; for (int i = 0; i < n; ++i) for (int k = 0; k < m.gn[i]; ++k) if (m.got[i][k] < 1000000) { int w = m.got[i][k] >> 4, x = m.got[i][k] & 15; rf_check(!seen[w][x], "no value twice"); seen[w][x] = true; }
}
template<class CH> static void two(int cap, int w0, int r0, int w1, int r1, bool ident) {
	{ Leak leak; sched a, b; { Mt<CH> m(cap); m.rounds = (int)rf_param("rounds", 2); m.s[0] = &a; m.s[1] = &b; m.wr[0] = w0; m.rd[0] = r0; m.wr[1] = w1; m.rd[1] = r1; (void)ident; m.all(2); } }
	rf_check(Tr::live == 0, "values destroyed once"); rf_reach("end");
}
extern "C" {
	void h_chmt_wr() { two<channel_t<int>>(rf_choose("cap", 2), 2, 0, 0, 2, false); }              // one writes, the other reads
	void h_chmt_ww() { two<channel_t<Tr>>(rf_choose("cap", 2), 1, 1, 1, 1, false); }                // both write and read
	void h_chmt_mutex() { two<channel_t<Mo, true, true>>(rf_choose("cap", 2), 1, 0, 1, 2, false); } // std::mutex variant
	void h_chmt_uneven() { two<channel_t<int>>(rf_choose("cap", 2), 2, 0, 0, 1 + 2 * rf_choose("more", 2), false); }
	void h_chmt_order() {
		{ Leak leak; sched a, b; { Mt<channel_t<int>> m(1 + rf_choose("cap", 2)); m.rounds = 2; m.s[0] = &a; m.s[1] = &b; m.wr[0] = 2; m.rd[0] = 0; m.wr[1] = 1; m.rd[1] = 3; 
			Mt<channel_t<int>>::X = &m; for (int w = 0; w < 2; ++w) for (int k = 0; k < m.wr[w]; ++k) m.v[w][k] = w * 16 + k;
			int t = rf_spawn(Mt<channel_t<int>>::body, (void*)1); Mt<channel_t<int>>::body((void*)0); rf_join(t); m.act[0] = m.act[1] = 0;
			for (int k = 0; k < 30; ++k) { bool any = a.run_one_batch(); any |= b.run_one_batch(); if (!any) break; }
			rf_check(m.gn[1] == 3 && m.wdone[0] == 2 && m.wdone[1] == 1, "all done"); order_check(m, 2); for (int k = 0; k < 3; ++k) rf_log(m.got[1][k]); rf_check(a.empty() && b.empty(), "idle"); } }
		rf_reach("end");
	}
	void h_chmt_three() {
		{ Leak leak; sched a, b, c; { Mt<channel_t<int>> m(rf_choose("cap", 2)); m.rounds = 2; m.s[0] = &a; m.s[1] = &b; m.s[2] = &c; m.wr[0] = 1; m.wr[1] = 1; m.rd[2] = 2; m.all(3); } }
		rf_reach("end");
	}
}

#include "util.h"
// One channel, operations issued one by one; closed form of the required behaviour:
// the k-th read receives the k-th write; write w is complete iff w < reads issued + capacity; read r iff r < writes issued.
template<class CH> static void ops(int N, int capmax) {
	using T = typename CH::value_type;
	int cap = rf_choose("cap", capmax + 1); int W = 0, R = 0; int v[16], got[16], wd[16] = {}, rd[16] = {}, ord = 1; int wat[16], rat[16];
	rf_leak_begin();
	{
		sched sch; 		CH c(cap); rf_check((int)c.capacity() == cap, "capacity");
		for (int i = 0; i < N; ++i) {
			bool once; int id, b = 0;
			if (rf_choose("op", 2)) {
				id = W; v[id] = rf_int("val"); once = W < R + cap; ++W;
				sch + [c, id, &v, &wd, &ord, &wat]() -> future_t<> { if (id & 1) co_await c.write(VT<T>::make(v[id])); else co_await (c << VT<T>::make(v[id])); wd[id] = ord++; wat[id] = g_batch; };
				batch(sch); b = g_batch; rf_check((wd[id] != 0) == once, "a write completes at once exactly while there is room or a reader waits");
			} else {
				id = R; once = R < W; ++R;
				sch + [c, id, &got, &rd, &ord, &rat]() -> future_t<> { if (id & 1) { T x = co_await c; got[id] = VT<T>::get(x); } else { T x = co_await c.read(); got[id] = VT<T>::get(x); } rd[id] = ord++; rat[id] = g_batch; };
				batch(sch); b = g_batch; rf_check((rd[id] != 0) == once, "a read completes at once exactly when a value or a writer is there");
			}
			drain(sch); (void)b;
			for (int k = 0; k < W; ++k) { rf_check((wd[k] != 0) == (k < R + cap), "which writes are complete"); if (k && wd[k]) rf_check(wd[k] > wd[k - 1], "writers complete in arrival order"); }
			for (int k = 0; k < R; ++k) { rf_check((rd[k] != 0) == (k < W), "which reads are complete"); if (k && rd[k]) rf_check(rd[k] > rd[k - 1], "readers complete in arrival order"); if (rd[k]) rf_check(got[k] == v[k], "the k-th read receives the k-th written value"); }
		}
		for (int k = 0; k < R && k < W; ++k) rf_log((uint32_t)got[k]);
		rf_log(W * 16 + R);
		// let everything suspended finish, then drop the channel
		while (R < W) { sch + [c, &R]() -> future_t<> { T x = co_await c; (void)x; }; ++R; } 
		while (W < R) { int w = W++; sch + [c, w]() -> future_t<> { co_await (c << VT<T>::make(w)); }; }
		drain(sch); rf_check(sch.empty(), "scheduler empty after all operations completed");
	}
	rf_leak_end(); rf_check(Tr::live == 0, "every value object destroyed exactly once"); rf_reach("ops end");
}
extern "C" {
	void h_chan_int() { ops<channel_t<int>>(rf_param("n", 7), 3); }
	void h_chan_opt() { ops<channel_t<int, true>>(rf_param("n", 7), 3); }
	void h_chan_thr() { ops<channel_t<int, false, true>>(rf_param("n", 7), 3); }
	void h_chan_tr() { ops<channel_t<Tr>>(rf_param("n", 7), 3); }
	void h_chan_trn() { ops<channel_t<Tr, false>>(rf_param("n", 6), 3); }
	void h_chan_mo() { ops<channel_t<Mo>>(rf_param("n", 7), 3); }
	void h_chan_mot() { ops<channel_t<Mo, true, true>>(rf_param("n", 6), 3); }
	// several writers and readers issue operations from running coroutines, with yields in between; order of issue decides
	void h_chan_flow() {
		int cap = rf_choose("cap", 3); int P = rf_param("p", 2), Q = rf_param("q", 2), M = rf_param("m", 2);
		int W = 0, R = 0, wc = 0, rc = 0; int v[16], got[16]; int kw[4], kr[4]; bool yw = rf_choose("yw", 2), yr = rf_choose("yr", 2);
		for (int i = 0; i < P; ++i) kw[i] = rf_choose("kw", M + 1); for (int i = 0; i < Q; ++i) kr[i] = rf_choose("kr", M + 1);
		rf_leak_begin();
		{
			sched sch; 			channel_t<int> c(cap);
			auto wr = [&](int i) { sch + [&, i]() -> future_t<> { for (int k = 0; k < kw[i]; ++k) { int id = W++; v[id] = rf_int("val"); co_await c.write(v[id]); ++wc; if (yw) co_await yield(); } }; };
			auto re = [&](int i) { sch + [&, i]() -> future_t<> { for (int k = 0; k < kr[i]; ++k) { int id = R++; int x = co_await c.read(); got[id] = x; ++rc; if (yr) co_await yield(); } }; };
			bool first = rf_choose("order", 2);
			for (int i = 0; i < 4; ++i) { if (first) { if (i < P) wr(i); if (i < Q) re(i); } else { if (i < Q) re(i); if (i < P) wr(i); } }
			drain(sch, 200);
			int tw = 0, tr = 0; for (int i = 0; i < P; ++i) tw += kw[i]; for (int i = 0; i < Q; ++i) tr += kr[i];
			rf_check(rc == (tr < tw ? tr : tw), "at quiescence no reader is suspended while a value or writer is there"); rf_check(wc == (tw < tr + cap ? tw : tr + cap), "at quiescence no writer is suspended while there is room or a reader");
			for (int k = 0; k < rc; ++k) { rf_check(got[k] == v[k], "FIFO across writers and readers"); rf_log((uint32_t)got[k]); }
			if (tr > tw) { for (int k = tw; k < tr; ++k) { v[k] = k; sch + [&, k]() -> future_t<> { co_await (c << k); }; } drain(sch, 200); rf_check(rc == tr, "late writes release the remaining readers"); for (int k = 0; k < rc; ++k) rf_check(got[k] == v[k], "FIFO after late writes"); }
			if (tw > tr) { for (int k = tr; k < tw; ++k) sch + [&, k]() -> future_t<> { int x = co_await c; rf_check(x == v[k], "FIFO of late reads"); }; drain(sch, 200); rf_check(wc == tw, "late reads release the remaining writers"); }
			rf_check(sch.empty(), "scheduler empty");
		}
		rf_leak_end(); rf_reach("flow end");
	}
	// long run: indices of the buffer wrap around
	void h_chan_wrap() {
		int cap = 1 + rf_choose("cap", 3); int n = rf_param("n", 9); int v[24]; int got[24], r = 0;
		for (int i = 0; i < n; ++i) v[i] = rf_int("val");
		{ Leak leak; sched sch;
			channel_t<Tr> c(cap); int burst = 1 + rf_choose("burst", 4);
			sch + [&]() -> future_t<> { for (int i = 0; i < n; ++i) { co_await c.write(Tr(v[i])); if (i % burst == 0) co_await yield(); } };
			sch + [&]() -> future_t<> { for (int i = 0; i < n; ++i) { Tr x = co_await c.read(); got[r++] = x.v; } };
			drain(sch, 200); rf_check(r == n, "all values arrive"); for (int i = 0; i < n; ++i) { rf_check(got[i] == v[i], "in order"); rf_log((uint32_t)got[i]); }
		}
		rf_check(Tr::live == 0, "values destroyed once"); rf_reach("wrap end");
	}
	// outside a coroutine: the discarded awaiter performs the operation
	void h_chan_plain() {
		int cap = 1 + rf_choose("cap", 2); int a = rf_int("a"), b = rf_int("b"), x = 0, y = 0; int which = rf_choose("which", 3);
		{ Leak leak; sched sch;
			channel_t<int> c(cap);
			if (which == 0) { (void)c.write(a); sch + [&]() -> future_t<> { x = co_await c; }; drain(sch); rf_check(x == a, "value written outside a coroutine is received"); }
			else if (which == 1) { sch + [&]() -> future_t<> { co_await c.write(a); if (cap > 1) co_await c.write(b); }; drain(sch); (void)c.read(); if (cap > 1) { sch + [&]() -> future_t<> { y = co_await c; }; drain(sch); rf_check(y == b, "a plain read takes exactly one value"); } }
			else { sch + [&]() -> future_t<> { x = co_await c; y = co_await c; }; drain(sch); (void)(c << a); drain(sch); rf_check(x == a, "plain write wakes the reader"); (void)(c << b); drain(sch); rf_check(y == b, "second plain write"); }
			rf_log((uint32_t)x); rf_log((uint32_t)y);
		}
		rf_reach("plain end");
	}
	// two channels, a relay coroutine between them: independence of channels
	void h_chan_relay() {
		int ca = rf_choose("ca", 3), cb = rf_choose("cb", 3), n = rf_param("n", 3); int v[8], got[8], r = 0; for (int i = 0; i < n; ++i) v[i] = rf_int("v");
		{ Leak leak; sched sch;
			channel_t<Mo> a(ca); channel_t<Mo> b(cb);
			sch + [a, b, n]() -> future_t<> { for (int i = 0; i < n; ++i) { Mo m = co_await a; co_await b.write(std::move(m)); } };
			sch + [b, n, &got, &r]() -> future_t<> { for (int i = 0; i < n; ++i) { Mo m = co_await b; got[r++] = *m.p; } };
			sch + [a, n, &v]() -> future_t<> { for (int i = 0; i < n; ++i) co_await (a << Mo(v[i])); };
			drain(sch, 200); rf_check(r == n, "all relayed"); for (int i = 0; i < n; ++i) { rf_check(got[i] == v[i], "order kept"); rf_log((uint32_t)got[i]); }
		}
		rf_reach("relay end");
	}
}

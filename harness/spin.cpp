#include "util.h"
extern "C" {
	struct SpinCtx { spinlock l; int in = 0; int n = 0; bool held[4] = {}; int got = 0; int plain = 0; };
	static SpinCtx* X; 
	// every thread: acquire (lock or try_lock), critical section on plain data, release
	static void spin_body(void* p) {
		long id = (long)p; int rounds = rf_param("rounds", 1);
		for (int r = 0; r < rounds; ++r) {
			if ((id + r) & 1) X->l.lock(); else if (!X->l.try_lock()) continue;
			rf_check(X->in == 0, "mutual exclusion"); X->in = 1; ++X->plain; rf_check(X->in == 1, "mutual exclusion"); X->in = 0; ++X->got;
			X->l.unlock();
		}
	}
	void h_spin_threads() {
		int T = rf_param("t", 2); SpinCtx x; X = &x; int t[4];
		for (int i = 0; i < T; ++i) t[i] = rf_spawn(spin_body, (void*)(long)i);
		X->l.lock(); rf_check(X->in == 0, "mutual exclusion"); X->in = 1; ++X->plain; X->in = 0; ++X->got; X->l.unlock();
		for (int i = 0; i < T; ++i) rf_join(t[i]);
		rf_check(x.plain == x.got, "what was written inside is visible to the next owner"); rf_check(x.got >= 1 + T / 2, "every lock call succeeds"); rf_check(x.l.try_lock(), "free at the end"); rf_log(x.got); rf_reach("end");
	}
	// sequences of operations against the two-state model; lock() only where it must not wait
	void h_spin_ops() {
		spinlock l; bool h = false; int n = rf_param("n", 8);
		for (int i = 0; i < n; ++i) switch (rf_choose("op", 3)) {
			case 0: { bool r = l.try_lock(); rf_check(r == !h, "try_lock succeeds exactly when free"); h = true; rf_log(r); break; }
			case 1: if (!h) { l.lock(); h = true; } break;
			default: if (h) { l.unlock(); h = false; } break;
		}
		rf_check(l.try_lock() == !h, "state at the end"); rf_reach("end");
	}
	// a waiting thread proceeds after release; nobody else is disturbed
	static void wait_body(void*) { X->l.lock(); rf_check(X->held[0] == false, "only after the release"); X->held[1] = true; X->l.unlock(); }
	void h_spin_wait() {
		SpinCtx x; X = &x; x.l.lock(); x.held[0] = true; int t = rf_spawn(wait_body, nullptr); rf_point(); rf_check(!x.held[1], "the waiter waits"); rf_point(); x.held[0] = false; x.l.unlock(); rf_join(t); rf_check(x.held[1], "the waiter proceeded"); rf_log(1); rf_reach("end");
	}
	// message passing: data published before the release is seen by whoever acquires next
	static int box, seen; static void recv_body(void*) { for (int i = 0; i < 2; ++i) { X->l.lock(); if (X->n) { seen = box; rf_check(box == 42 && X->plain == 7, "writes before the release are visible"); } X->l.unlock(); } }
	void h_spin_msg() {
		SpinCtx x; X = &x; box = seen = 0; int t = rf_spawn(recv_body, nullptr); x.l.lock(); box = 42; x.plain = 7; x.n = 1; x.l.unlock(); rf_join(t); rf_check(seen == 0 || seen == 42, "value"); rf_log(seen); rf_reach("end");
	}
}

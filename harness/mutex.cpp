#include "util.h"
// Reference model of a re-entrant lock with a queue of waiters, served in arrival order.
struct Mx {
	int own = -1, cnt = 0, q[24], n = 0;
	bool tr(int o) { if (own == -1 || own == o) { own = o; ++cnt; return true; } return false; }
	bool lock(int o) { if (tr(o)) return true; q[n++] = o; return false; }
	int unlock(int o) { if (own != o) return -1; if (--cnt) return -1; own = -1; if (!n) return -1; int r = q[0]; for (int i = 1; i < n; ++i) q[i - 1] = q[i]; --n; own = r; cnt = 1; return r; }
	void drop(int o) { int k = 0; for (int i = 0; i < n; ++i) if (q[i] != o) q[k++] = q[i]; n = k; }
};
static future_t<> nest_lock(mutex_t m, int depth) { if (depth) co_await nest_lock(m, depth - 1); else co_await m.lock(adopt_manual_unlock); }
static future_t<bool> nest_try(mutex_t m) { co_return co_await m.try_lock(); }
static future_t<> nest_unlock(mutex_t m) { co_await m.unlock(); }
struct Agents {
	static const int K = 3; int k = 2; event_t ev[K]; int cmd[K] = {}, arg[K] = {}; bool busy[K] = {}; int res[K] = {};
	void start(sched& s, mutex_t m, int n) { k = n; for (int i = 0; i < k; ++i) s + body(i, m); drain(s); }
	future_t<> body(int i, mutex_t m) {
		std::vector<batch_unlock_t<mutex_t>> guards;
		for (;;) {
			co_await ev[i]; int c = cmd[i]; if (c < 0) break;
			switch (c) {
			case 0: if (arg[i]) co_await nest_lock(m, 1); else co_await m.lock(adopt_manual_unlock); res[i] = 1; break;
			case 1: res[i] = arg[i] ? co_await nest_try(m) : co_await m.try_lock(); break;
			case 2: if (arg[i] == 1) co_await nest_unlock(m); else if (arg[i]) m.unlock(librf_root_state()); else co_await m.unlock(); res[i] = 1; break;
			case 3: { auto g = co_await m.lock(); if (arg[i]) { auto h(std::move(g)); guards.push_back(std::move(h)); } else guards.push_back(std::move(g)); } res[i] = 1; break;
			case 4: if (!guards.empty()) { if (arg[i]) guards.back().unlock(); guards.pop_back(); } res[i] = 1; break;
			}
			busy[i] = false;
		}
		while (!guards.empty()) guards.pop_back();
	}
	void issue(int i, int c, int a) { cmd[i] = c; arg[i] = a; busy[i] = true; res[i] = 0; ev[i].signal(); }
};
extern "C" {
	// two coroutine owners and one plain-address owner, any operations in any order
	void h_mx_ops() {
		int N = rf_param("n", 5), K = rf_param("k", 2); int varg = 0; 
		{ Leak leak; sched sch; mutex_t m; Agents a; a.start(sch, m, K); Mx mod; int me = 0; bool blocked[4] = {}; int g[4] = {}, man[4] = {}; // guards / manual holds
			int pend[4] = {};
			for (int s = 0; s < N; ++s) {
				int o = rf_choose("who", K + 1);
				if (o == K) { // plain owner
					if (rf_choose("pop", 2)) { bool r = m.try_lock(&me); rf_check(r == mod.tr(K), "try_lock succeeds exactly when the mutex is free or already owned by the same owner"); }
					else { int w = mod.unlock(K); m.unlock(&me); drain(sch); if (w >= 0) { blocked[w] = false; (pend[w] ? g : man)[w]++; } }
				} else {
					if (blocked[o]) { rf_log(99); continue; }
					int c = rf_choose("op", 5); int arg = (varg++ + s) % (c == 2 ? 3 : 2); if (rf_param("style", 0)) arg = rf_choose("arg", c == 2 ? 3 : 2);
					if (c == 4 && !g[o]) { rf_log(98); continue; }
					if (c == 2 && mod.own == o && g[o] >= mod.cnt) { rf_log(97); continue; } // would release a guard's hold by hand
					a.issue(o, c, arg); drain(sch);
					bool done = true; int want = 1;
					if (c == 0 || c == 3) { done = mod.lock(o); if (done) (c == 3 ? g : man)[o]++; else { blocked[o] = true; pend[o] = c == 3; } }
					else if (c == 1) { want = mod.tr(o); if (want) man[o]++; }
					else { if (c == 4) g[o]--; else if (mod.own == o) man[o]--; int w = mod.unlock(o); if (w >= 0) { blocked[w] = false; (pend[w] ? g : man)[w]++; } }
					if (done) { rf_check(!a.busy[o], "an operation that need not wait completes"); rf_check(a.res[o] == want, "result of the operation"); }
				}
				for (int i = 0; i < K; ++i) rf_check(a.busy[i] == blocked[i], "exactly the owner at the head of the queue is granted the lock");
				rf_check(m.is_locked() == (mod.own >= 0), "locked exactly while somebody holds it");
			}
			// everybody lets go
			for (int it = 0; it < 40 && mod.own >= 0; ++it) { int o = mod.own; int w = -1;
				if (o == K) { w = mod.unlock(K); m.unlock(&me); } else if (g[o]) { g[o]--; w = mod.unlock(o); a.issue(o, 4, 0); } else { man[o]--; w = mod.unlock(o); a.issue(o, 2, it % 3); }
				drain(sch); if (w >= 0) { blocked[w] = false; (pend[w] ? g : man)[w]++; } for (int i = 0; i < K; ++i) rf_check(a.busy[i] == blocked[i], "released owner by owner"); rf_check(m.is_locked() == (mod.own >= 0), "locked while held"); rf_log(o); }
			rf_check(!m.is_locked() && mod.n == 0, "free in the end");
			for (int i = 0; i < K; ++i) a.issue(i, -1, 0); drain(sch); rf_check(sch.empty(), "all owners finished");
		}
		rf_reach("ops end");
	}
	// one-shot lockers hold the lock across yields: exclusion and arrival order
	void h_mx_excl() {
		int n = rf_param("n", 3); 
		{ Leak leak; sched a, b; mutex_t m; int inside = 0, order[8], no = 0, arr[8], na = 0;
			auto user = [&](int id, int hold, int rec, int style) -> future_t<> {
				arr[na++] = id; { if (style == 0) { auto g = co_await m.lock(); rf_check(inside == 0, "mutual exclusion"); inside = 1; order[no++] = id;
						for (int r = 0; r < rec; ++r) { auto h = co_await m; rf_check(inside == 1, "re-entrant lock keeps ownership"); co_await yield(); }
						for (int h = 0; h < hold; ++h) { co_await yield(); rf_check(inside == 1 && order[no - 1] == id, "nobody enters while the lock is held"); } inside = 0; }
					else { co_await m.lock(adopt_manual_unlock); rf_check(inside == 0, "mutual exclusion"); inside = 1; order[no++] = id; for (int r = 0; r < rec; ++r) co_await nest_lock(m, 1); for (int h = 0; h < hold; ++h) { co_await yield(); rf_check(inside == 1 && order[no - 1] == id, "nobody enters while the lock is held"); }
						for (int r = 0; r < rec; ++r) { co_await m.unlock(); rf_check(m.is_locked(), "still held after the inner unlock"); co_await yield(); rf_check(inside == 1 && order[no - 1] == id, "nobody enters after the inner unlock"); } inside = 0; co_await m.unlock(); } } };
			for (int i = 0; i < n; ++i) { sched& s = rf_choose("s", 2) ? b : a; s + user(i, rf_choose("hold", 2), rf_choose("rec", 2), rf_choose("style", 2)); if (rf_choose("run", 2)) s.run_one_batch(); }
			for (int k = 0; k < 40; ++k) { bool x = a.run_one_batch(), y = b.run_one_batch(); if (!x && !y) break; }
			rf_check(a.empty() && b.empty() && no == n && na == n, "everyone got the lock and finished"); for (int i = 0; i < n; ++i) { rf_check(order[i] == arr[i], "served in arrival order"); rf_log(order[i]); } rf_check(!m.is_locked(), "free in the end");
		}
		rf_reach("excl end");
	}
	// timed locks: durations and clock symbolic, main holds the lock by address and lets go at any time
	void h_mx_timed() {
		int N = rf_param("n", 4); const int64_t M = 1LL << 52;
		{ Leak leak; sched sch; mutex_t m; rf_clock_ns = 100; rf_clock_step = 0; Mx mod; const int ME = 20; int me = 0; mod.tr(ME); rf_check(m.try_lock(&me), "free at first");
			int W = 0, res[10] = {}, want[10] = {}; int64_t dl[10]; bool timed[10]; bool keep[10]; int64_t when[10]; bool rel[10] = {};
			auto body = [&](int id, int64_t d, bool until) -> future_t<> {
				bool r = true; if (!timed[id]) co_await m.lock(adopt_manual_unlock); else if (until) r = co_await m.try_lock_until(at(rf_clock_ns + d)); else r = co_await m.try_lock_for(ns(d));
				rf_check(res[id] == 0, "ends once"); res[id] = r ? 1 : 2; when[id] = rf_clock_ns;
				if (r) { rf_check(m.is_locked(), "held by the one who was granted it"); while (!rel[id]) co_await yield(); co_await m.unlock(); } else if (keep[id]) while (!rel[id]) co_await yield(); };
			auto step = [&] { batch(sch); batch(sch); batch(sch); };
			auto expire = [&] { for (int i = 0; i < mod.n;) { int k = mod.q[i]; if (timed[k] && dl[k] <= rf_clock_ns) { want[k] = 2; mod.drop(k); } else ++i; } };
			auto settle = [&] { expire(); step(); for (int k = 0; k < W; ++k) rf_check(res[k] == want[k], "timed lock is granted or times out exactly when it should"); rf_check(m.is_locked() == (mod.own >= 0), "locked exactly while somebody holds it"); };
			auto release = [&](int o) { if (o != ME) expire(); /* a coroutine lets go when its scheduler runs, which looks at the clock first */ int w = mod.unlock(o); if (w >= 0) want[w] = 1; if (o == ME) m.unlock(&me); else rel[o] = true; };
			for (int i = 0; i < N; ++i) {
				switch (rf_choose("op", 4)) {
				case 0: case 1: { int id = W++; timed[id] = true; keep[id] = rf_choose("keep", 2); int64_t d = rf_i64("d", -M, M - 1); dl[id] = rf_clock_ns + d; if (mod.lock(id)) want[id] = 1; sch + body(id, d, id & 1); batch(sch); settle(); break; }
				case 2: { int id = W++; timed[id] = keep[id] = false; if (mod.lock(id)) want[id] = 1; sch + body(id, 0, false); batch(sch); settle(); break; }
				default: if (rf_choose("tick", 2)) rf_clock_ns += rf_i64("adv", 0, M - 1); else if (mod.own >= 0) { // the clock may pass before the scheduler looks
						if (rf_choose("tick2", 2)) rf_clock_ns += rf_i64("adv2", 0, M - 1); release(mod.own); } settle(); break;
				}
			}
			for (int k = 0; k < W; ++k) { if (res[k] == 2) rf_check(when[k] >= dl[k], "no timeout before the deadline"); rf_log(res[k]); }
			rf_clock_ns += 4 * M; settle();
			for (int i = 0; i < 12 && mod.own >= 0; ++i) { release(mod.own); settle(); }
			rf_check(!m.is_locked(), "free in the end"); for (int k = 0; k < W; ++k) rel[k] = true; drain(sch); rf_clock_ns += 8 * M; drain(sch); rf_check(sch.empty() && sch.timer()->empty(), "idle");
		}
		rf_reach("timed end");
	}
	// try_lock_for/until by address: polls at most until the deadline
	void h_mx_plain_timed() {
		const int64_t M = 1LL << 52; { Leak leak; mutex_t m; int a = 0, b = 0; rf_clock_ns = 50; rf_clock_step = rf_i64("step", 1LL << 51, (1LL << 52) - 1); bool held = rf_choose("held", 2), same = rf_choose("same", 2), until = rf_choose("until", 2);
			if (held) m.lock(&a); int64_t d = rf_i64("d", -M, M - 1), t0 = rf_clock_ns; bool r = until ? m.try_lock_until(at(t0 + d), same ? &a : &b) : m.try_lock_for(ns(d), same ? &a : &b); bool w = !held || same; rf_check(r == w, "succeeds exactly when free or already owned"); if (!r) rf_check(rf_clock_ns > t0 + d, "gives up only after the deadline");
			rf_log(r); rf_check(m.is_locked() == (held || r), "no stray ownership"); if (r) m.unlock(same ? &a : &b); rf_check(m.is_locked() == held, "released"); m.unlock(&b); rf_check(m.is_locked() == held, "unlock by another changes nothing"); if (held) m.unlock(&a); rf_check(!m.is_locked(), "free"); }
		rf_reach("end");
	}
}

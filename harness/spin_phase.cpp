#include "util.h"
// One waiting thread, seen from inside: the rest of the world acts when the waiter gives up the processor (sched_yield) or sleeps.
// The lock's phases of waiting (busy, yielding, sleeping) are all walked through; the world releases the lock, or releases and takes it again, at a chosen step.
static struct { spinlock* l = nullptr; int ny = 0, ns = 0, relY = -1, relS = -1, again = 0; bool held = false; int releases = 0; } E;
static void world(bool sleep) {
	if (!E.l) return; (sleep ? E.ns : E.ny)++;
	if (E.held && (E.ny >= E.relY || E.ns > 0) && E.ns >= E.relS) { E.l->unlock(); E.held = false; ++E.releases; if (E.again > 0) { --E.again; bool r = E.l->try_lock(); rf_check(r, "free after its release"); E.held = true; E.relY = E.ny + (E.relS ? 0 : 3); E.relS = E.ns + (E.relS ? 2 : 0); } }
	if (E.ny > 20000 || E.ns > 50) rf_fail("a waiting thread does not proceed although the lock was released");
}
extern "C" int sched_yield(void) noexcept { world(false); return 0; }
extern "C" int nanosleep(const timespec* t, timespec*) { rf_check(t->tv_sec >= 0 && t->tv_sec < 10 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "sleeps for a bounded time"); world(true); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const timespec* t, timespec* r) { return nanosleep(t, r); }
extern "C" {
	void h_spin_phase() {
		static const int ys[] = { 1, 2, 50, 3000, 3999, 4000 }; static const int ss[] = { 1, 2, 3, 8, 12 };
		spinlock l; E.l = &l; E.ny = E.ns = 0; E.releases = 0; int w = rf_choose("when", 11); if (w < 6) { E.relY = ys[w]; E.relS = 0; } else { E.relY = 0; E.relS = ss[w - 6]; } E.again = rf_choose("again", 3); int want = E.again + 1;
		l.lock(); E.held = true; l.lock(); // the second is the waiter
		E.l = nullptr; rf_check(!E.held && E.releases == want, "the waiter gets the lock only when nobody holds it"); rf_check(!l.try_lock(), "and then it is locked"); l.unlock(); rf_check(l.try_lock(), "one release frees it"); l.unlock(); l.lock(); rf_check(!l.try_lock(), "usable afterwards"); l.unlock(); rf_log(E.ns); rf_reach("phase end");
	}
}

// Native side of rf.h: replays one assignment (and one schedule) against machine code of the real library.
//   prog REPLAYFILE
// exit: 0 done, 42 check failed, 43 assumption false (replay does not fit), 45 hang, 46 desync, 47 leak
#include "rf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <thread>
#include <atomic>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <chrono>
#include <exception>
#include <mutex>
#include <condition_variable>
#include <dlfcn.h>
#include <unistd.h>
#include <csignal>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#ifndef NOSAN
#define NOSAN __attribute__((no_sanitize("address", "thread")))
#endif
extern "C" { int64_t rf_clock_ns = 1000000000000ll, rf_clock_step = 0; int rf_clock_yield = 0; } extern "C" int rf_n_sched_yield();
namespace std { namespace chrono { inline namespace _V2 {
	system_clock::time_point system_clock::now() noexcept { if (rf_clock_yield) rf_n_sched_yield(); int64_t t = rf_clock_ns; rf_clock_ns += rf_clock_step; return time_point(duration(t)); }
	steady_clock::time_point steady_clock::now() noexcept { int64_t t = rf_clock_ns; rf_clock_ns += rf_clock_step; return time_point(duration(t)); }
} } }
static std::vector<std::pair<std::string, uint64_t>> syms; static size_t symi; static std::map<std::string, uint64_t> params;
struct Sw { int t; int kind; }; static std::map<uint32_t, Sw> sched; static std::vector<uint64_t> logv; static long live = 0, leakBase = 0; static bool quiet = false;
[[noreturn]] static void done(int code, const char* what, const char* msg) {
	fflush(stdout); dprintf(1, "RF-%s %s\n", what, msg); for (uint64_t v : logv) dprintf(1, "RF-LOG %llu\n", (unsigned long long)v); _exit(code); }
// live-block accounting for leak checks
struct Hdr { size_t magic; uint32_t gen; uint32_t size; };
static uint32_t generation = 0; static long liveGen[2] = {0, 0}; static long liveBytes = 0; static std::atomic_flag* lk = nullptr; static volatile int lkv = 0;
static void lock_() { while (__sync_lock_test_and_set(&lkv, 1)) sched_yield(); } static void unlock_() { __sync_lock_release(&lkv); }
NOSAN static void* nalloc(size_t n) { Hdr* h = (Hdr*)malloc(n + sizeof(Hdr)); if (!h) abort(); h->magic = 0xfeedface12345678ull; h->gen = generation; lock_(); h->size = (uint32_t)n; ++liveGen[generation]; if (generation) liveBytes += n; unlock_(); memset(h + 1, 0xbe, n); return h + 1; }
static void nfree(void* p) { if (!p) return; Hdr* h = (Hdr*)p - 1; if (h->magic != 0xfeedface12345678ull) { free(h); dprintf(1, "RF-BADFREE\n"); _exit(48); } h->magic = 0xdeadbeefdeadbeefull; lock_(); --liveGen[h->gen]; if (h->gen) liveBytes -= h->size; unlock_(); free(h); }
#ifndef RF_TSAN
void* operator new(size_t n) { return nalloc(n); } void* operator new[](size_t n) { return nalloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nalloc(n); }
void operator delete(void* p) noexcept { nfree(p); } void operator delete[](void* p) noexcept { nfree(p); } void operator delete(void* p, size_t) noexcept { nfree(p); } void operator delete[](void* p, size_t) noexcept { nfree(p); }
#endif

// Baton scheduler. Raw futex calls from uninstrumented code, so that handing over the baton orders nothing in the eyes of
// a race detector: only the synchronisation of the code under test does.
static volatile int running = 0, tick = 0; static volatile bool freeRun = false; static uint32_t events = 0; static bool multi = false; static thread_local int me = 0;
static void bump() { __sync_fetch_and_add(&tick, 1); syscall(SYS_futex, &tick, FUTEX_WAKE_PRIVATE, 1 << 20, nullptr, nullptr, 0); }
static void await_() { for (;;) { int t = tick; __sync_synchronize(); if (running == me || freeRun) return; timespec ts{0, 50000000}; syscall(SYS_futex, &tick, FUTEX_WAIT_PRIVATE, t, &ts, nullptr, 0); } }
struct Th { std::thread th; volatile bool fin = false; }; static std::vector<Th*> ths;
static void handover(int t) { running = t; bump(); await_(); }
static void deadEnd() { freeRun = true; bump(); alarm(4); }
static bool event() { // returns true if switched
	if (!multi || freeRun) return false; ++events; auto it = sched.find(events); if (it == sched.end()) return false;
	if (it->second.t == 255) { deadEnd(); return false; }
	if (it->second.t == me) return false; handover(it->second.t); return true; }
extern "C" int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));
extern "C" {
	static unsigned rnd = 12345; __attribute__((weak)) int rand() { rnd = rnd * 1103515245u + 12345u; return (rnd >> 16) & 0x7fff; }
	void __rf_point(int) { event(); }
	void rf_point() { event(); }
	uint64_t rf_sym(const char* name, unsigned bits) { if (symi >= syms.size()) { for (;;) { if (freeRun) pause(); done(46, "DESYNC", name); } } if (syms[symi].first != name) done(46, "DESYNC", (syms[symi].first + " vs " + name).c_str()); return syms[symi++].second; }
	void rf_assume(bool c) { if (!c) done(43, "ASSUME", ""); }
	void rf_check(bool c, const char* m) { if (!c) done(42, "FAIL", m); }
	void rf_fail(const char* m) { done(42, "FAIL", m); }
	void rf_log(uint64_t v) { logv.push_back(v); }
	void rf_reach(const char*) {}
	uint64_t rf_concrete(uint64_t v) { return v; }
	uint64_t rf_param(const char* n, uint64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
	int rf_tid() { return me; }
	bool rf_is_live(const void* p) { return !__asan_address_is_poisoned || !__asan_address_is_poisoned(p); }
	void rf_leak_begin() { generation = 1; liveGen[1] = 0; liveBytes = 0; }
	uint64_t rf_live_bytes() { lock_(); uint64_t n = (uint64_t)liveBytes; unlock_(); return n; }
	void rf_leak_end() { lock_(); long n = liveGen[1]; unlock_(); if (n != 0) { char b[64]; snprintf(b, 64, "%ld blocks not released", n); done(47, "LEAK", b); } }
	int rf_spawn(void (*fn)(void*), void* a) { int id = ths.size() + 1; multi = true; uint32_t sg = generation; generation = 0; Th* t = new Th; ths.push_back(t);
		t->th = std::thread([=] { me = id; await_(); fn(a); t->fin = true; __sync_synchronize();
			if (freeRun) { bump(); return; } ++events; auto it = sched.find(events); int nx = it == sched.end() ? -1 : it->second.t; if (nx == 255) { deadEnd(); return; } if (nx < 0) { dprintf(1, "RF-DESYNC thread end without successor at event %u\n", events); _exit(46); } running = nx; bump(); }); generation = sg; return id; }
	void rf_join(int t) { Th* x = ths[t - 1]; for (;;) { if (x->fin) break; if (freeRun) { usleep(10000); continue; } if (!event()) { if (freeRun) continue; done(46, "DESYNC", "join without switch"); } } x->th.join(); }
	// blocking primitives of the instrumented module
	int rf_n_mutex_lock(pthread_mutex_t* m) { event(); for (;;) { if (freeRun) return pthread_mutex_lock(m); int r = pthread_mutex_trylock(m); if (r == 0) return 0; if (!event()) { if (freeRun) continue; if (!multi) return pthread_mutex_lock(m); done(46, "DESYNC", "mutex block without switch"); } } }
	int rf_n_mutex_trylock(pthread_mutex_t* m) { event(); return pthread_mutex_trylock(m); }
	int rf_n_mutex_unlock(pthread_mutex_t* m) { event(); return pthread_mutex_unlock(m); }
	static pthread_mutex_t* rw(pthread_rwlock_t* l) { return (pthread_mutex_t*)l; }
	int rf_n_rwlock_rdlock(pthread_rwlock_t* l) { return rf_n_mutex_lock(rw(l)); } int rf_n_rwlock_wrlock(pthread_rwlock_t* l) { return rf_n_mutex_lock(rw(l)); } int rf_n_rwlock_tryrdlock(pthread_rwlock_t* l) { return rf_n_mutex_trylock(rw(l)); } int rf_n_rwlock_trywrlock(pthread_rwlock_t* l) { return rf_n_mutex_trylock(rw(l)); } int rf_n_rwlock_unlock(pthread_rwlock_t* l) { return rf_n_mutex_unlock(rw(l)); } int rf_n_rwlock_init(pthread_rwlock_t* l, const void*) { memset(l, 0, sizeof *l); return 0; }
	int rf_n_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const timespec* t) { rf_n_mutex_unlock(m); rf_n_sched_yield(); rf_n_mutex_lock(m); return rf_clock_ns >= t->tv_sec * 1000000000ll + t->tv_nsec ? 110 : 0; }
	int rf_n_sched_yield() { event(); if (freeRun) sched_yield(); return 0; }
	int rf_n_nanosleep(const timespec*, timespec*) { event(); if (freeRun) usleep(1000); return 0; }
}
namespace std { void condition_variable::wait(unique_lock<mutex>& l) { rf_n_mutex_unlock(l.mutex()->native_handle()); rf_n_sched_yield(); rf_n_mutex_lock(l.mutex()->native_handle()); } void condition_variable::notify_one() noexcept {} void condition_variable::notify_all() noexcept {} condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {} }
static void onAlarm(int) { dprintf(1, "RF-HANG no termination\n"); _exit(45); }
static void onTerm() { dprintf(1, "RF-TERMINATE uncaught exception\n"); _exit(44); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=49:abort_on_error=0:detect_stack_use_after_return=1:handle_abort=0:alloc_dealloc_mismatch=0:symbolize=1"; }
extern "C" const char* __tsan_default_options() { return "exitcode=66:halt_on_error=1"; }
int main(int argc, char** argv) {
	if (argc < 2) return 2; FILE* f = fopen(argv[1], "r"); if (!f) return 2; char k[64], n[256]; std::string entry; char line[1024];
	while (fgets(line, sizeof line, f)) { unsigned long long v; unsigned a, b, c; if (sscanf(line, "entry %255s", n) == 1) entry = n; else if (sscanf(line, "sym %255s %llu", n, &v) == 2) syms.push_back({n, v}); else if (sscanf(line, "param %255s %llu", n, &v) == 2) params[n] = v; else if (sscanf(line, "sched %u %u %u", &a, &b, &c) == 3) sched[a] = Sw{(int)b, (int)c}; }
	fclose(f); (void)k; logv.reserve(1 << 16); signal(SIGALRM, onAlarm); alarm(20); std::set_terminate(onTerm);
	auto fn = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str()); if (!fn) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
	fn(); done(0, "DONE", "");
}

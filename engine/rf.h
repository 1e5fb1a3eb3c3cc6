// Harness interface: implemented by rfsym (symbolically) and by native.cpp (replay).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
	uint64_t rf_sym(const char* name, unsigned bits);        // fresh unconstrained value
	void rf_assume(bool c);
	void rf_check(bool c, const char* msg);
	[[noreturn]] void rf_fail(const char* msg);
	void rf_log(uint64_t v);                                  // observation, compared on replay
	void rf_reach(const char* label);                         // reachability witness
	int rf_spawn(void (*fn)(void*), void* arg);
	void rf_join(int t);
	void rf_leak_begin();
	void rf_leak_end();
	uint64_t rf_concrete(uint64_t v);                         // split on every feasible value
	uint64_t rf_param(const char* name, uint64_t dflt);
	int rf_tid();
	void rf_point();                                          // explicit scheduling point
	bool rf_is_live(const void* p);
	uint64_t rf_live_bytes();                                 // bytes obtained since rf_leak_begin and not released
	extern int64_t rf_clock_ns, rf_clock_step;                // virtual system_clock
	extern int rf_clock_yield;                                // reading the clock lets other threads run (for polling loops)
}
static inline uint64_t rf_upto(const char* n, uint64_t max) { uint64_t v = rf_sym(n, 8); rf_assume(v <= max); return v; } // [0,max], symbolic
static inline int rf_choose(const char* n, unsigned cnt) { return (int)rf_concrete(rf_upto(n, cnt - 1)); }
static inline int rf_int(const char* n) { return (int)rf_sym(n, 32); }
// [lo,hi], symbolic; the symbol is no wider than the range needs
static inline int64_t rf_i64(const char* n, int64_t lo, int64_t hi) { uint64_t r = (uint64_t)hi - (uint64_t)lo; unsigned w = r ? 64 - __builtin_clzll(r) : 1; uint64_t v = rf_sym(n, w); if (r & (r + 1)) rf_assume(v <= r); return (int64_t)((uint64_t)lo + v); }

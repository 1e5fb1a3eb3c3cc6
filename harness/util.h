#pragma once
#include "librf/librf.h"
#include "rf.h"
#include <memory>
#include <optional>
using namespace librf;
using namespace std::chrono;
using ns = std::chrono::nanoseconds;
struct sched : scheduler_t { sched() {} ~sched() {} };          // the protected constructor
static int g_batch = 0;                                          // number of batches run, as the harness counts
static inline bool batch(scheduler_t& s) { ++g_batch; return s.run_one_batch(); }
static inline void drain(scheduler_t& s, int max = 60) { for (int i = 0; i < max; ++i) if (!batch(s)) return; rf_fail("scheduler never becomes idle"); }
static inline system_clock::time_point at(int64_t n) { return system_clock::time_point(ns(n)); }
// value with identity: counts live objects, detects double destruction and use of dead or moved-from objects
struct Tr {
	static inline std::atomic<int> live = 0; int v; unsigned magic = 0x7ac3d001;
	Tr(int x = 0) : v(x) { ++live; }
	Tr(const Tr& o) : v(o.v) { o.chk(); ++live; } Tr(Tr&& o) noexcept : v(o.v) { o.chk(); o.v = -77; ++live; }
	Tr& operator=(const Tr& o) { chk(); o.chk(); v = o.v; return *this; } Tr& operator=(Tr&& o) noexcept { chk(); o.chk(); if (this != &o) { v = o.v; o.v = -77; } return *this; }
	~Tr() { chk(); magic = 0; --live; }
	void chk() const { rf_check(magic == 0x7ac3d001, "value object used outside its lifetime"); }
};
struct Mo { // move-only, owns heap memory
	std::unique_ptr<int> p; Mo() = default; explicit Mo(int x) : p(new int(x)) {} Mo(Mo&&) = default; Mo& operator=(Mo&&) = default;
};
template<class T> struct VT { static T make(int v) { return T(v); } static int get(const T& t) { return t; } };
template<> struct VT<Tr> { static Tr make(int v) { return Tr(v); } static int get(const Tr& t) { t.chk(); return t.v; } };
template<> struct VT<Mo> { static Mo make(int v) { return Mo(v); } static int get(const Mo& t) { rf_check(t.p != nullptr, "moved-only value arrived empty"); return *t.p; } };
struct Leak { Leak() { rf_leak_begin(); } ~Leak() { rf_leak_end(); } };   // declare first in a scope: everything allocated later must be gone at its end

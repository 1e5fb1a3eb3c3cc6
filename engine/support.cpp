// C++ model of the libstdc++/libc++abi/libc functions that librf and the harnesses call and that exist
// only as machine code. Compiled to IR and linked in front of the engine. (Native replays use the real ones.)
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <sys/select.h>
#include <sys/types.h>
#include <unistd.h>
#include <typeinfo>
#include <new>
#include <map>
#include <string>
#include <mutex>
#include <condition_variable>
#include <pthread.h>
#include <sched.h>
#include <list>
#include <unordered_map>
#include <functional>
#include <future>
#include <chrono>
#include <ctime>
#include <cstdarg>
#include <cstdio>
extern "C" {
	void* malloc(size_t); void free(void*);
	[[noreturn]] void rf_unwind(void*); [[noreturn]] void rf_fail(const char*);
	int64_t rf_clock_ns = 1000000000000ll, rf_clock_step = 0; int rf_clock_yield = 0;
}
namespace {
struct EH { const void* type; void (*dtor)(void*); void* obj; EH* primary; long refs; long handlers; EH* next; long pad; };
static_assert(sizeof(EH) == 64, "");
thread_local EH* caught = nullptr; thread_local unsigned uncaught = 0;
void eh_release(EH* p) { if (__atomic_sub_fetch(&p->refs, 1, __ATOMIC_ACQ_REL) == 0) { if (p->dtor) p->dtor(p->obj); free(p); } }
void eh_done(EH* h) { if (h->primary != h) { EH* p = h->primary; free(h); eh_release(p); } else eh_release(h); }
[[noreturn]] void eh_throw(EH* h) { ++uncaught; rf_unwind(h); }
}
#define EHOF(o) ((EH*)((char*)(o) - sizeof(EH)))
extern "C" {
	void* __cxa_allocate_exception(size_t n) noexcept { EH* h = (EH*)malloc(n + sizeof(EH)); memset(h, 0, sizeof(EH)); return h + 1; }
	void __cxa_free_exception(void* o) noexcept { free(EHOF(o)); }
	__cxxabiv1::__cxa_refcounted_exception* __cxa_init_primary_exception(void* o, std::type_info* t, void (*d)(void*)) noexcept { EH* h = EHOF(o); h->type = t; h->dtor = d; h->obj = o; h->primary = h; return (__cxxabiv1::__cxa_refcounted_exception*)h; }
	[[noreturn]] void __cxa_throw(void* o, std::type_info* t, void (*d)(void*)) { __cxa_init_primary_exception(o, t, d); EH* h = EHOF(o); h->refs = 1; eh_throw(h); }
	void* __cxa_begin_catch(void* p) { EH* h = (EH*)p; h->handlers = h->handlers < 0 ? -h->handlers + 1 : h->handlers + 1; --uncaught; if (caught != h) { h->next = caught; caught = h; } return h->obj; }
	void* __cxa_get_exception_ptr(void* p) { return ((EH*)p)->obj; }
	void __cxa_end_catch() { EH* h = caught; if (!h) return; if (h->handlers < 0) { if (++h->handlers == 0) caught = h->next; } else if (--h->handlers == 0) { caught = h->next; eh_done(h); } }
	[[noreturn]] void __cxa_rethrow() { EH* h = caught; if (!h) std::terminate(); h->handlers = -h->handlers; eh_throw(h); }
	[[noreturn]] void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
	int __cxa_guard_acquire(char* g) { return *g == 0; }
	void __cxa_guard_release(char* g) { *g = 1; }
	void __cxa_guard_abort(char*) {}
	[[noreturn]] void __clang_call_terminate_model() { std::terminate(); }
	int strcmp(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
	size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
	int memcmp(const void* a, const void* b, size_t n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
	void* rf_memchr(const void* p, int c, size_t n) noexcept __asm__("memchr"); void* rf_memchr(const void* p, int c, size_t n) noexcept { const unsigned char* x = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) if (x[i] == (unsigned char)c) return (void*)(x + i); return nullptr; }
	// readers-writer lock: exclusive for both (fewer interleavings of readers, same data protection); condition variable: every wait may return
	int pthread_mutex_lock(pthread_mutex_t*) noexcept; int pthread_mutex_trylock(pthread_mutex_t*) noexcept; int pthread_mutex_unlock(pthread_mutex_t*) noexcept;
	int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { return pthread_mutex_lock((pthread_mutex_t*)l); }
	int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { return pthread_mutex_lock((pthread_mutex_t*)l); }
	int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { return pthread_mutex_trylock((pthread_mutex_t*)l); }
	int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { return pthread_mutex_trylock((pthread_mutex_t*)l); }
	int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { return pthread_mutex_unlock((pthread_mutex_t*)l); }
	int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; }
	int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
	int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const timespec* t) { pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return rf_clock_ns >= t->tv_sec * 1000000000ll + t->tv_nsec ? 110 : 0; }
	// a reactor's own wake-up descriptor: never ready for anything else
	int eventfd(unsigned, int) noexcept { return 3; } int close(int) { return 0; } ssize_t write(int, const void*, size_t n) { return (ssize_t)n; } ssize_t read(int, void*, size_t n) { return (ssize_t)n; }
	int ioctl(int, unsigned long, ...) noexcept { return 0; } int fcntl(int, int, ...) { return 0; } int fcntl64(int, int, ...) { return 0; } int select(int, fd_set* r, fd_set* w, fd_set* e, timeval*) { if (r) memset(r, 0, sizeof *r); if (w) memset(w, 0, sizeof *w); if (e) memset(e, 0, sizeof *e); return 0; }
	long __fdelt_chk(long d) { return d / 64; }
	void* aligned_alloc(size_t, size_t n) noexcept { return malloc(n); }
	int pthread_mutex_init(pthread_mutex_t* l, const pthread_mutexattr_t*) noexcept { memset(l, 0, sizeof *l); return 0; } int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
	int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof *c); return 0; } int pthread_condattr_init(pthread_condattr_t*) noexcept { return 0; } int pthread_condattr_destroy(pthread_condattr_t*) noexcept { return 0; } int pthread_condattr_setclock(pthread_condattr_t*, clockid_t) noexcept { return 0; }
	int pthread_cond_signal(pthread_cond_t*) noexcept { return 0; } int pthread_cond_broadcast(pthread_cond_t*) noexcept { return 0; }
	int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; } int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }
	int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m) { pthread_mutex_unlock(m); sched_yield(); pthread_mutex_lock(m); return 0; }
	int pthread_once(pthread_once_t* o, void (*f)(void)) { if (__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) return 0; while (__atomic_exchange_n(o, 1, __ATOMIC_ACQ_REL) == 1) sched_yield(); if (__atomic_load_n(o, __ATOMIC_ACQUIRE) != 2) f(); __atomic_store_n(o, 2, __ATOMIC_RELEASE); return 0; }
	// the engine passes the variable arguments of sprintf and snprintf (at most 4) as 64-bit words
	__attribute__((used)) int rf_snprintf(char* b, size_t n, const char* f, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3) {
		uint64_t a[4] = {a0, a1, a2, a3}; size_t k = 0; int i = 0; auto put = [&](char c) { if (k + 1 < n) b[k] = c; ++k; };
		for (; *f; ++f) { if (*f != '%') { put(*f); continue; } ++f; int lng = 0; while (*f == 'l' || *f == 'z' || *f == 'j') { lng = 1; ++f; } if (*f == '%') { put('%'); continue; }
			if (i == 4) rf_fail("format with more arguments than the model"); uint64_t v = a[i++];
			if (*f == 's') { for (const char* s = (const char*)v; *s; ++s) put(*s); } else if (*f == 'c') put((char)v);
			else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x') { bool neg = false; if (!lng) v = *f == 'd' || *f == 'i' ? (uint64_t)(int64_t)(int32_t)v : (uint32_t)v; if ((*f == 'd' || *f == 'i') && (int64_t)v < 0) { neg = true; v = 0 - v; } char t[24]; int m = 0; unsigned base = *f == 'x' ? 16 : 10; do { t[m++] = "0123456789abcdef"[v % base]; v /= base; } while (v); if (neg) put('-'); while (m) put(t[--m]); }
			else rf_fail("format outside the model"); }
		if (n) b[k < n ? k : n - 1] = 0; return (int)k; }
	__attribute__((used)) int rf_sprintf(char* b, const char* f, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3) { return rf_snprintf(b, (size_t)1 << 40, f, a0, a1, a2, a3); }
	int printf(const char*, ...) { return 0; }
	int puts(const char*) { return 0; }
	static thread_local int err_no; int* __errno_location() { return &err_no; }
	char __libc_single_threaded = 0;
	static unsigned rnd = 12345; __attribute__((weak)) int rand() { rnd = rnd * 1103515245u + 12345u; return (rnd >> 16) & 0x7fff; }
	int clock_gettime(clockid_t, timespec* t) { t->tv_sec = rf_clock_ns / 1000000000; t->tv_nsec = rf_clock_ns % 1000000000; return 0; }
	time_t time(time_t* t) { if (t) *t = 0; return 0; }
}
namespace std {
	namespace __exception_ptr {
		exception_ptr::exception_ptr(void* o) noexcept : _M_exception_object(o) { if (o) _M_addref(); }
		void exception_ptr::_M_addref() noexcept { __atomic_add_fetch(&EHOF(_M_exception_object)->refs, 1, __ATOMIC_ACQ_REL); }
		void exception_ptr::_M_release() noexcept { eh_release(EHOF(_M_exception_object)); }
		void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
	}
	exception_ptr current_exception() noexcept { if (!caught) return exception_ptr(); EH* p = caught->primary; void* o = p->obj; __exception_ptr::exception_ptr* q; alignas(8) char buf[sizeof(exception_ptr)]; memcpy(buf, &o, sizeof(o)); __atomic_add_fetch(&p->refs, 1, __ATOMIC_ACQ_REL); q = (__exception_ptr::exception_ptr*)buf; exception_ptr r; memcpy((void*)&r, q, sizeof(o)); return r; }
	void rethrow_exception(exception_ptr e) { void* o; memcpy(&o, (void*)&e, sizeof(o)); EH* p = EHOF(o); EH* h = (EH*)malloc(sizeof(EH)); memset(h, 0, sizeof(EH)); h->type = p->type; h->obj = p->obj; h->primary = p; __atomic_add_fetch(&p->refs, 1, __ATOMIC_ACQ_REL); { exception_ptr x; std::swap(x, e); } eh_throw(h); }
	bool uncaught_exception() noexcept { return uncaught != 0; }
	int uncaught_exceptions() noexcept { return uncaught; }
	exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
	bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
	bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
	bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
	bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
	bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
	bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
	type_info::~type_info() {}
	// __cow_string is a single pointer: a counted copy of the message
	static void cow_add(const char* p) { if (p) __atomic_add_fetch((long*)(p - 8), 1, __ATOMIC_ACQ_REL); } static void cow_rel(const char* p) { if (p && __atomic_sub_fetch((long*)(p - 8), 1, __ATOMIC_ACQ_REL) == 0) free((char*)p - 8); }
	static const char* cow_new(const char* s, size_t n) { char* b = (char*)malloc(n + 9); *(long*)b = 1; memcpy(b + 8, s, n); b[8 + n] = 0; return b + 8; }
	__cow_string::__cow_string() { _M_p = nullptr; }
	__cow_string::__cow_string(const char* s, size_t n) { _M_p = cow_new(s, n); }
	__cow_string::__cow_string(const string& s) { _M_p = cow_new(s.data(), s.size()); }
	__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; cow_add(_M_p); }
	__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { cow_add(o._M_p); cow_rel(_M_p); _M_p = o._M_p; return *this; }
	__cow_string::~__cow_string() { cow_rel(_M_p); }
	logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {} logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
	logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
	logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
	runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {} runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
	runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p ? _M_msg._M_p : ""; }
	invalid_argument::~invalid_argument() noexcept {} invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
	length_error::~length_error() noexcept {} length_error::length_error(const char* s) : logic_error(s) {}
	out_of_range::~out_of_range() noexcept {} out_of_range::out_of_range(const char* s) : logic_error(s) {}
	logic_error::logic_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const string& s) : _M_msg(s) {}
	invalid_argument::invalid_argument(const string& s) : logic_error(s) {} length_error::length_error(const string& s) : logic_error(s) {} out_of_range::out_of_range(const string& s) : logic_error(s) {}
	domain_error::~domain_error() noexcept {} domain_error::domain_error(const char* s) : logic_error(s) {} range_error::~range_error() noexcept {} range_error::range_error(const char* s) : runtime_error(s) {} overflow_error::~overflow_error() noexcept {} overflow_error::overflow_error(const char* s) : runtime_error(s) {} underflow_error::~underflow_error() noexcept {} underflow_error::underflow_error(const char* s) : runtime_error(s) {}
	bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
	__thread void* __once_callable; __thread void (*__once_call)();
	condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
	void condition_variable::notify_one() noexcept {} void condition_variable::notify_all() noexcept {}
	void condition_variable::wait(unique_lock<mutex>& l) { l.mutex()->unlock(); sched_yield(); l.mutex()->lock(); }
	system_error::~system_error() noexcept {}
	inline namespace _V2 {
		error_category::~error_category() {}
		__cow_string error_category::_M_message(int) const { return __cow_string(); }
		error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
		bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
		bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
		struct rf_category : error_category { const char* nm; constexpr rf_category(const char* n) : nm(n) {} const char* name() const noexcept override { return nm; } string message(int) const override { return string(); } };
		static rf_category rf_generic("generic"), rf_system("system");
		const error_category& generic_category() noexcept { return rf_generic; } const error_category& system_category() noexcept { return rf_system; }
	}
}
namespace std {
	void __throw_bad_alloc() { throw bad_alloc(); }
	void __throw_bad_array_new_length() { throw bad_array_new_length(); }
	void __throw_bad_function_call() { throw bad_function_call(); }
	void __throw_length_error(const char* s) { throw length_error(s); }
	void __throw_logic_error(const char* s) { throw logic_error(s); }
	void __throw_out_of_range(const char* s) { throw out_of_range(s); }
	void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
	void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
	void __throw_system_error(int e) { throw system_error(e, generic_category()); }
	void __throw_future_error(int) { throw logic_error("future"); }
	void __throw_bad_weak_ptr_model() { throw bad_exception(); }
	// list
	namespace __detail {
		void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
		void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
		void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
		void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { bool ex = x._M_next == &x, ey = y._M_next == &y; if (ex && ey) return; if (!ex && !ey) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else if (ey) { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } else swap(y, x); }
		// unordered containers: smallest listed prime >= n (load factor 1)
		static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 67, 79, 97, 127, 199, 317, 499, 797, 1259, 2029, 4001, 8009};
		size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13}; if (n < sizeof(fast)) { if (n == 0) return 1; _M_next_resize = fast[n]; return fast[n]; } for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; } rf_fail("hash table larger than the model"); }
		std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t mn = ne + ni; if (!_M_next_resize && mn < 11) mn = 11; if (mn >= nb) { size_t w = mn + 1; if (nb * 2 > w) w = nb * 2; return {true, _M_next_bkt(w)}; } _M_next_resize = nb; return {false, 0}; } return {false, 0}; }
	}
	size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; ++i) h = h * 131 + ((const unsigned char*)p)[i]; return h; }
	// red-black tree: an unbalanced search tree keeps every observable property of std::map except complexity
	_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
	const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
	_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
	const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
	void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
		x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; // header stays the only red node
		if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
		else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
	_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
		auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
		auto mn = [](_Rb_tree_node_base* n) { while (n->_M_left) n = n->_M_left; return n; }; auto mx = [](_Rb_tree_node_base* n) { while (n->_M_right) n = n->_M_right; return n; };
		if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
		else { _Rb_tree_node_base* y = mn(z->_M_right); if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = _S_black; }
		if (h._M_parent) { h._M_left = mn(h._M_parent); h._M_right = mx(h._M_parent); } else { h._M_left = &h; h._M_right = &h; }
		return z; }
	namespace chrono { inline namespace _V2 {
		system_clock::time_point system_clock::now() noexcept { if (rf_clock_yield) sched_yield(); int64_t t = rf_clock_ns; rf_clock_ns += rf_clock_step; return time_point(duration(t)); }
		steady_clock::time_point steady_clock::now() noexcept { int64_t t = rf_clock_ns; rf_clock_ns += rf_clock_step; return time_point(duration(t)); }
	} }
	bool _Sp_make_shared_tag::_S_eq(const type_info&) noexcept { return false; }
	extern "C" void __once_proxy(void) { __once_call(); }
	void terminate_handler_model() {}
}

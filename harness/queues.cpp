#include "util.h"
#include <vector>
#include <limits>
// ring queue against a list of what was pushed
template<class Q, class T> struct Ring {
	Q& q; int cap; std::vector<int> m; int serial = 0;
	void look() { rf_check(q.size() == m.size(), "size is the number of elements held"); rf_check(q.empty() == m.empty(), "empty exactly when it holds none"); rf_check(q.full() == ((int)m.size() == cap), "full exactly when it holds as many as its capacity"); rf_check(q.capacity() == cap, "the capacity stays what it was made with"); }
	bool push(int v) { bool r = q.try_push(VT<T>::make(v)); rf_check(r == ((int)m.size() < cap), "a push succeeds exactly while there is room"); if (r) m.push_back(v); return r; }
	bool pop() { T t{}; bool r = q.try_pop(t); rf_check(r == !m.empty(), "a pop succeeds exactly when there is an element"); if (r) { rf_check(VT<T>::get(t) == m.front(), "elements come out in the order they went in"); m.erase(m.begin()); } return r; }
};
template<class Q, class T> static void ring(int maxcap, int k, bool opt) {
	{ Leak leak; int cap = rf_choose("cap", maxcap + 1); { Q q(cap); Ring<Q, T> r{q, cap}; r.look();
		int rot = rf_choose("rot", cap + 1); if (cap) for (int i = 0; i < rot; ++i) { r.push(i); r.pop(); } r.look();
		for (int i = 0; i < k; ++i) { if (rf_choose("op", 2)) r.push(rf_int("v")); else r.pop(); r.look(); if constexpr (std::is_same_v<T, Tr>) { if (opt) rf_check(Tr::live == (int)r.m.size(), "holds exactly the elements not yet popped"); } }
		if (rf_choose("drain", 2)) { while (r.pop()) r.look(); r.look(); } }
		rf_check(Tr::live == 0, "every element is destroyed"); }
	rf_reach("ring end");
}
extern "C" {
	void h_ring_int() { ring<ring_queue<int>, int>(rf_param("cap", 4), rf_param("k", 9), false); }
	void h_ring_small() { ring<ring_queue<int, true, uint8_t>, int>(rf_param("cap", 3), rf_param("k", 8), true); }
	void h_ring_tr() { ring<ring_queue<Tr>, Tr>(rf_param("cap", 3), rf_param("k", 7), false); }
	void h_ring_tropt() { ring<ring_queue<Tr, true>, Tr>(rf_param("cap", 3), rf_param("k", 8), true); }
	void h_ring_mo() { ring<ring_queue<Mo, true, uint16_t>, Mo>(rf_param("cap", 3), rf_param("k", 7), true); }
	void h_ring_mon() { ring<ring_queue<Mo, false, uint64_t>, Mo>(rf_param("cap", 3), rf_param("k", 7), false); }
	// the largest capacities an index type allows, at every position
	void h_ring_wide() {
		{ Leak leak; static const int caps[] = {254, 253, 127, 128, 255 - 16}; int cap = caps[rf_choose("cap", 5)]; using Q = ring_queue<int, false, uint8_t>; { Q q(cap); Ring<Q, int> r{q, cap};
			static const int pos[] = {0, 1, 2, 126, 127, 128, 129, 252, 253, 254}; int rot = pos[rf_choose("rot", 10)]; int v = rf_int("v");
			for (int i = 0; i < rot; ++i) { r.push(v); r.pop(); } r.look();
			int lead = rf_choose("lead", 2) ? cap / 2 : 0; for (int i = 0; i < lead; ++i) { r.push(i); } r.look();
			for (int i = 0; i < cap + 2; ++i) { if (r.push(v + i)) {} else break; r.look(); } r.look(); rf_check(q.full(), "full"); rf_check(!r.push(1), "no room");
			for (int i = 0; i < cap / 2; ++i) r.pop(); r.look(); for (int i = 0; i < cap / 3; ++i) r.push(v ^ i); r.look(); while (r.pop()) r.look(); r.look(); } }
		rf_reach("wide end");
	}
#ifndef RF_KS // such queues hold an atomic and cannot be moved
	// moving a queue keeps its content
	void h_ring_move() {
		{ Leak leak; { using Q = ring_queue<Tr, true>; int cap = rf_choose("cap", 3) + 1; Q a(cap); Ring<Q, Tr> ra{a, cap}; int rot = rf_choose("rot", cap + 1); for (int i = 0; i < rot; ++i) { ra.push(1); ra.pop(); } int n = rf_choose("n", cap + 1); for (int i = 0; i < n; ++i) ra.push(rf_int("v"));
			Q b(2); Ring<Q, Tr> rb{b, cap}; b.try_push(Tr(5)); if (rf_choose("how", 2)) { b = std::move(a); rb.m = ra.m; rb.look(); rb.push(7); while (rb.pop()) rb.look(); } else { Q c(std::move(a)); Ring<Q, Tr> rc{c, cap}; rc.m = ra.m; rc.look(); rc.push(7); while (rc.pop()) rc.look(); } }
			rf_check(Tr::live == 0, "every element is destroyed"); }
		rf_reach("move end");
	}
#endif
}
// waiter list
struct N : intrusive_link_node<N> { int id = 0; };
struct PN : intrusive_link_node<PN, counted_ptr<PN>> { int id = 0; int refs = 0; static inline int live = 0; PN() { ++live; } ~PN() { --live; } void lock() { ++refs; } void unlock() { rf_check(refs > 0, "counted once"); if (--refs == 0) delete this; } };
template<class P, class Q> static void list(Q& q, P* node, int n, int k) {
	std::vector<int> m; bool in[6] = {}; auto look = [&] { rf_check(q.size() == m.size(), "the reported size is the number of elements"); rf_check(q.empty() == m.empty(), "empty exactly when it holds none"); };
	auto pop = [&] { auto p = q.try_pop(); rf_check((p != nullptr) == !m.empty(), "a pop succeeds exactly when there is an element"); if (m.empty()) return false; rf_check(p->id == m[0], "elements come out in list order"); in[m[0]] = false; m.erase(m.begin()); return true; };
	for (int i = 0; i < k; ++i) {
		int c = rf_choose("op", 4);
		if (c == 0) { pop(); }
		else if (c == 3) { if (m.empty()) continue; int j = rf_choose("which", m.size()); int id = m[j]; q.erase(node[id]); m.erase(m.begin() + j); in[id] = false; }
		else { int free[6], nf = 0; for (int j = 0; j < n; ++j) if (!in[j]) { free[nf++] = j; if (nf == 2) break; } if (!nf) continue; int id = free[nf > 1 ? rf_choose("node", nf) : 0]; in[id] = true; if (c == 1) { q.push_back(node[id]); m.push_back(id); } else { q.push_front(node[id]); m.insert(m.begin(), id); } }
		look(); }
	while (pop()) look(); look(); rf_check(q.size() == 0 && q.empty(), "empty after everything was popped");
}
extern "C" {
	void h_link() { { Leak leak; N s[6]; N* p[6]; for (int i = 0; i < 6; ++i) { s[i].id = i; p[i] = &s[i]; } intrusive_link_queue<N> q; list(q, p, rf_param("n", 4), rf_param("k", 6)); } rf_reach("link end"); }
	// the list of an event holds counted references: an element lives while listed and no longer than referred to
	void h_link_counted() { { Leak leak; int n = rf_param("n", 4); { counted_ptr<PN> p[6]; for (int i = 0; i < n; ++i) { p[i] = new PN; p[i]->id = i; } { intrusive_link_queue<PN, counted_ptr<PN>> q; list(q, p, n, rf_param("k", 5)); } for (int i = 0; i < n; ++i) rf_check(p[i]->refs == 1, "an element not in the list is not held"); rf_check(PN::live == n, "none freed early"); } rf_check(PN::live == 0, "all freed"); } rf_reach("link end"); }
	// the counted pointer itself
	void h_counted() {
		{ Leak leak; { counted_ptr<PN> p[3]; int of[3] = {-1, -1, -1}; bool made[3] = {}; PN* obj[3] = {}; int N = rf_param("k", 4);
			for (int i = 0; i < N; ++i) { int a = rf_choose("a", 3), b = rf_choose("b", 3); switch (rf_choose("op", 7)) {
				case 0: if (!made[a]) { made[a] = true; obj[a] = new PN; obj[a]->id = a; p[b] = counted_ptr<PN>(obj[a]); of[b] = a; } break;
				case 1: p[a] = p[b]; of[a] = of[b]; break;
				case 2: p[a] = std::move(p[b]); if (a != b) { of[a] = of[b]; of[b] = -1; } break;
				case 3: p[a].reset(); of[a] = -1; break;
				case 4: p[a].swap(p[b]); std::swap(of[a], of[b]); break;
				case 5: { counted_ptr<PN> c(p[a]); rf_check(c == p[a], "a copy refers to the same object"); counted_ptr<PN> d(std::move(c)); rf_check(!c, "moved from"); p[b] = d; of[b] = of[a]; } break;
				case 6: p[a] = nullptr; of[a] = -1; break; }
				for (int j = 0; j < 3; ++j) { rf_check((bool)p[j] == (of[j] >= 0), "empty exactly when it refers to nothing"); if (of[j] >= 0) rf_check(p[j].get() == obj[of[j]] && p[j]->id == of[j], "refers to its object"); }
				int lv = 0; for (int o = 0; o < 3; ++o) { int r = 0; for (int j = 0; j < 3; ++j) r += of[j] == o; lv += r > 0; if (r) rf_check(obj[o]->refs == r, "counts every reference"); } rf_check(PN::live == lv, "an object lives exactly while referred to"); } }
			rf_check(PN::live == 0, "all freed"); }
		rf_reach("counted end");
	}
}

// Hash-consed bit-vector expressions (width 1..64) with light simplification, and a z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <unordered_map>
#include <string>
#include <chrono>
#include <deque>
#include <algorithm>
#include <iterator>
#include <z3.h>

enum XOp : uint8_t { XCONST, XVAR, XADD, XSUB, XMUL, XUDIV, XSDIV, XUREM, XSREM, XAND, XOR_, XXOR, XSHL, XLSHR, XASHR,
	XEQ, XULT, XULE, XSLT, XSLE, XZEXT, XSEXT, XEXTRACT, XCONCAT, XITE };

struct Ex { XOp op; uint8_t w; uint32_t id; uint64_t c; const Ex *a, *b, *d; };
typedef const Ex* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct ExKey { XOp op; uint8_t w; uint64_t c; E a, b, d; bool operator==(const ExKey& o) const { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct ExHash { size_t operator()(const ExKey& k) const {
	uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w; auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
	mix(k.c); mix(k.a ? k.a->id + 1 : 0); mix(k.b ? k.b->id + 1 : 0); mix(k.d ? k.d->id + 1 : 0); return h; } };

struct SymVar { std::string name; unsigned w; };
struct ExprPool {
	std::deque<Ex> arena;
	std::unordered_map<ExKey, E, ExHash> tab;
	std::vector<SymVar> vars;
	E raw(XOp op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
		ExKey k{op, (uint8_t)w, c, a, b, d};
		auto it = tab.find(k); if (it != tab.end()) return it->second;
		arena.push_back(Ex{op, (uint8_t)w, (uint32_t)arena.size(), c, a, b, d});
		E e = &arena.back(); tab.emplace(k, e); return e;
	}
	E konst(unsigned w, uint64_t v) { return raw(XCONST, w, v & maskw(w)); }
	E var(unsigned idx) { return raw(XVAR, vars[idx].w, idx); }
};
extern ExprPool X;

static inline uint64_t foldBin(XOp op, unsigned w, uint64_t a, uint64_t b) {
	uint64_t m = maskw(w);
	switch (op) {
	case XADD: return (a + b) & m; case XSUB: return (a - b) & m; case XMUL: return (a * b) & m;
	case XUDIV: return b ? (a / b) & m : m; case XUREM: return b ? (a % b) & m : a;
	case XSDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
	case XSREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
	case XAND: return a & b; case XOR_: return a | b; case XXOR: return a ^ b;
	case XSHL: return b >= w ? 0 : (a << b) & m; case XLSHR: return b >= w ? 0 : (a >> b);
	case XASHR: { int64_t x = sextw(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
	case XEQ: return a == b; case XULT: return a < b; case XULE: return a <= b;
	case XSLT: return sextw(a, w) < sextw(b, w); case XSLE: return sextw(a, w) <= sextw(b, w);
	default: abort();
	}
}
static inline bool isC(E e) { return e->op == XCONST; }
E mkZext(E a, unsigned w); E mkSext(E a, unsigned w); E mkExtract(E a, unsigned lo, unsigned w); E mkConcat(E hi, E lo); E mkIte(E c, E a, E b); E mkBin(XOp op, E a, E b);
static inline E mkNot(E a) { return mkBin(XXOR, a, X.konst(1, 1)); }

// Sums of zero-extended narrow terms: value = c + sum k_i*t_i over the integers (mod 2^w). Comparisons of such sums that
// provably do not wrap are rewritten to one canonical unsigned comparison of the smallest sufficient width.
struct Lin { int64_t c = 0; std::vector<std::pair<E, int64_t>> t; };
inline bool linOf(E e, int64_t k, Lin& l, int depth) {
	if (depth > 24 || l.t.size() > 24) return false;
	switch (e->op) {
	case XCONST: { int64_t v = sextw(e->c, e->w); if (v > (1ll << 60) || v < -(1ll << 60)) return false; __int128 r = (__int128)l.c + (__int128)v * k; if (r > (1ll << 61) || r < -(1ll << 61)) return false; l.c = (int64_t)r; return true; }
	case XADD: return linOf(e->a, k, l, depth + 1) && linOf(e->b, k, l, depth + 1);
	case XSUB: return linOf(e->a, k, l, depth + 1) && linOf(e->b, -k, l, depth + 1);
	case XMUL: if (!isC(e->b)) return false; { int64_t v = sextw(e->b->c, e->w); if (v > (1 << 30) || v < -(1 << 30) || k > (1 << 20) || k < -(1 << 20)) return false; return linOf(e->a, k * v, l, depth + 1); }
	case XZEXT: { if (e->a->w > 40) return false; if (e->a->op == XZEXT) return false; for (auto& p : l.t) if (p.first == e->a) { p.second += k; return true; } l.t.push_back({e->a, k}); return true; }
	default: return false;
	}
}
inline E mkLinCmp(XOp op, E a, E b) { // nullptr: not applicable
	unsigned w = a->w; if (w < 16 || (a->op != XADD && a->op != XSUB && a->op != XMUL && b->op != XADD && b->op != XSUB && b->op != XMUL)) return nullptr;
	Lin la, lb; if (!linOf(a, 1, la, 0) || !linOf(b, 1, lb, 0)) return nullptr;
	auto range = [](const Lin& l, __int128& lo, __int128& hi) { lo = hi = l.c; for (auto& p : l.t) { __int128 m = (__int128)p.second * (__int128)maskw(p.first->w); if (m > 0) hi += m; else lo += m; } };
	__int128 alo, ahi, blo, bhi; range(la, alo, ahi); range(lb, blo, bhi); const __int128 mx = ((__int128)1 << (w - 1)) - 1, mn = -((__int128)1 << (w - 1));
	if (ahi > mx || bhi > mx || alo < mn || blo < mn) return nullptr;
	if ((op == XULT || op == XULE) && (alo < 0 || blo < 0)) return nullptr;
	Lin d = la; d.c -= lb.c; for (auto& p : lb.t) { bool f = false; for (auto& q : d.t) if (q.first == p.first) { q.second -= p.second; f = true; } if (!f) d.t.push_back({p.first, -p.second}); }
	__int128 lo, hi; range(d, lo, hi); // d = a - b
	if (op == XEQ) { if (lo > 0 || hi < 0) return X.konst(1, 0); } else if (op == XULT || op == XSLT) { if (hi < 0) return X.konst(1, 1); if (lo >= 0) return X.konst(1, 0); } else { if (hi <= 0) return X.konst(1, 1); if (lo > 0) return X.konst(1, 0); }
	std::vector<std::pair<E, int64_t>> t; for (auto& p : d.t) if (p.second) t.push_back(p);
	if (t.empty()) return X.konst(1, op == XEQ ? d.c == 0 : (op == XULT || op == XSLT) ? d.c < 0 : d.c <= 0);
	for (size_t i = 0; i < t.size(); ++i) for (size_t j = i + 1; j < t.size(); ++j) if (t[j].first->id < t[i].first->id) std::swap(t[i], t[j]);
	__int128 ps = 0, nsum = 0; for (auto& p : t) { __int128 m = (__int128)p.second * (__int128)maskw(p.first->w); if (m > 0) ps += m; else nsum -= m; } if (d.c > 0) ps += d.c; else nsum -= d.c;
	__int128 top = ps > nsum ? ps : nsum; unsigned k = 1; while (((__int128)1 << k) <= top) ++k; if (k > 62) return nullptr;
	E P = nullptr, N = nullptr; auto add = [&](E& s, E x) { s = s ? X.raw(XADD, k, 0, s, x) : x; };
	for (auto& p : t) { E x = p.first->w < k ? X.raw(XZEXT, k, 0, p.first) : p.first; int64_t f = p.second < 0 ? -p.second : p.second; if (p.first->w > k) return nullptr; if (f != 1) x = X.raw(XMUL, k, 0, x, X.konst(k, f)); add(p.second > 0 ? P : N, x); }
	if (d.c > 0) add(P, X.konst(k, d.c)); else if (d.c < 0) add(N, X.konst(k, -d.c)); if (!P) P = X.konst(k, 0); if (!N) N = X.konst(k, 0);
	if (op == XEQ) { if (N->id < P->id) std::swap(P, N); return X.raw(XEQ, 1, 0, P, N); }
	return X.raw(op == XSLT || op == XULT ? XULT : XULE, 1, 0, P, N);
}
inline E mkBin(XOp op, E a, E b) {
	unsigned w = a->w; unsigned rw = (op >= XEQ && op <= XSLE) ? 1 : w;
	if (isC(a) && isC(b)) return X.konst(rw, foldBin(op, w, a->c, b->c));
	bool comm = op == XADD || op == XMUL || op == XAND || op == XOR_ || op == XXOR || op == XEQ;
	if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	uint64_t m = maskw(w);
	if (op >= XEQ && op <= XSLE && w >= 16) if (E r = mkLinCmp(op, a, b)) return r;
	switch (op) {
	case XADD: if (isC(b)) { if (!b->c) return a; if (a->op == XADD && isC(a->b)) return mkBin(XADD, a->a, X.konst(w, a->b->c + b->c)); } break;
	case XSUB: if (a == b) return X.konst(w, 0); if (isC(b)) return mkBin(XADD, a, X.konst(w, 0 - b->c));
		if (a->op == XADD && a->a == b) return a->b; if (a->op == XADD && a->b == b) return a->a; break;
	case XMUL: if (isC(b)) { if (!b->c) return b; if (b->c == 1) return a; } break;
	case XUDIV: case XSDIV: if (isC(b) && b->c == 1) return a; break;
	case XAND: if (a == b) return a; if (isC(b)) { if (!b->c) return b; if (b->c == m) return a;
			if ((b->c & (b->c + 1)) == 0) { unsigned k = 64 - __builtin_clzll(b->c); return mkZext(mkExtract(a, 0, k), w); } } break;
	case XOR_: if (a == b) return a; if (isC(b)) { if (!b->c) return a; if (b->c == m) return b; } break;
	case XXOR: if (a == b) return X.konst(w, 0); if (isC(b)) { if (!b->c) return a; if (a->op == XXOR && isC(a->b)) return mkBin(XXOR, a->a, X.konst(w, a->b->c ^ b->c)); 
			if (w == 1) { if (a->op == XULT) return mkBin(XULE, a->b, a->a); if (a->op == XULE) return mkBin(XULT, a->b, a->a); if (a->op == XSLT) return mkBin(XSLE, a->b, a->a); if (a->op == XSLE) return mkBin(XSLT, a->b, a->a); } } break;
	case XSHL: if (isC(b)) { if (!b->c) return a; if (b->c >= w) return X.konst(w, 0); return mkConcat(mkExtract(a, 0, w - b->c), X.konst(b->c, 0)); } break;
	case XLSHR: if (isC(b)) { if (!b->c) return a; if (b->c >= w) return X.konst(w, 0); return mkZext(mkExtract(a, b->c, w - b->c), w); } break;
	case XASHR: if (isC(b)) { if (!b->c) return a; if (b->c < w) return mkSext(mkExtract(a, b->c, w - b->c), w); } break;
	case XEQ:
		if (a == b) return X.konst(1, 1);
		if (isC(b)) {
			if (w == 1) return b->c ? a : mkNot(a);
			if (a->op == XZEXT) { if (b->c > maskw(a->a->w)) return X.konst(1, 0); return mkBin(XEQ, a->a, X.konst(a->a->w, b->c)); }
			if (a->op == XSEXT) { uint64_t t = b->c & maskw(a->a->w); if (((uint64_t)sextw(t, a->a->w) & m) != b->c) return X.konst(1, 0); return mkBin(XEQ, a->a, X.konst(a->a->w, t)); }
			if (a->op == XADD && isC(a->b)) return mkBin(XEQ, a->a, X.konst(w, b->c - a->b->c));
			if (a->op == XXOR && isC(a->b)) return mkBin(XEQ, a->a, X.konst(w, b->c ^ a->b->c));
			if (a->op == XITE && isC(a->b) && isC(a->d)) { bool p = a->b->c == b->c, q = a->d->c == b->c; if (p && q) return X.konst(1, 1); if (!p && !q) return X.konst(1, 0); return p ? a->a : mkNot(a->a); }
			if (a->op == XCONCAT && (isC(a->a) || isC(a->b))) { unsigned lw = a->b->w; return mkBin(XAND, mkBin(XEQ, a->a, X.konst(a->a->w, b->c >> lw)), mkBin(XEQ, a->b, X.konst(lw, b->c))); }
		}
		if (a->op == XZEXT && b->op == XZEXT && a->a->w == b->a->w) return mkBin(XEQ, a->a, b->a);
		if (a->op == XADD && b->op == XADD && a->b == b->b && isC(a->b)) return mkBin(XEQ, a->a, b->a);
		break;
	case XULT: if (a == b) return X.konst(1, 0); if (isC(b) && b->c == 0) return X.konst(1, 0); if (isC(b) && b->c == 1) return mkBin(XEQ, a, X.konst(w, 0));
		if (isC(b) && a->op == XZEXT) { if (b->c > maskw(a->a->w)) return X.konst(1, 1); return mkBin(XULT, a->a, X.konst(a->a->w, b->c)); }
		if (isC(a) && b->op == XZEXT) { if (a->c >= maskw(b->a->w)) return X.konst(1, 0); return mkBin(XULT, X.konst(b->a->w, a->c), b->a); }
		if (isC(a) && a->c == m) return X.konst(1, 0); if (isC(a) && a->c == 0) return mkNot(mkBin(XEQ, b, a));
		if (a->op == XZEXT && b->op == XZEXT && a->a->w == b->a->w) return mkBin(XULT, a->a, b->a);
		break;
	case XULE: if (a == b) return X.konst(1, 1); if (isC(b) && b->c == m) return X.konst(1, 1); if (isC(a) && a->c == 0) return X.konst(1, 1); if (isC(b) && b->c == 0) return mkBin(XEQ, a, b);
		if (isC(b) && a->op == XZEXT) { if (b->c >= maskw(a->a->w)) return X.konst(1, 1); return mkBin(XULE, a->a, X.konst(a->a->w, b->c)); }
		if (isC(a) && b->op == XZEXT) { if (a->c > maskw(b->a->w)) return X.konst(1, 0); return mkBin(XULE, X.konst(b->a->w, a->c), b->a); }
		if (a->op == XZEXT && b->op == XZEXT && a->a->w == b->a->w) return mkBin(XULE, a->a, b->a);
		break;
	case XSLT: case XSLE: {
		if (a == b) return X.konst(1, op == XSLE);
		bool za = a->op == XZEXT || (isC(a) && sextw(a->c, w) >= 0), zb = b->op == XZEXT || (isC(b) && sextw(b->c, w) >= 0);
		if (za && zb) return mkBin(op == XSLT ? XULT : XULE, a, b);
		if (za && isC(b)) return X.konst(1, 0); if (zb && isC(a)) return X.konst(1, 1);
		break; }
	default: break;
	}
	return X.raw(op, rw, 0, a, b);
}
inline E mkZext(E a, unsigned w) { if (a->w == w) return a; if (isC(a)) return X.konst(w, a->c); if (a->op == XZEXT) return mkZext(a->a, w); return X.raw(XZEXT, w, 0, a); }
inline E mkSext(E a, unsigned w) { if (a->w == w) return a; if (isC(a)) return X.konst(w, (uint64_t)sextw(a->c, a->w)); if (a->op == XZEXT) return mkZext(a->a, w); if (a->op == XSEXT) return mkSext(a->a, w); return X.raw(XSEXT, w, 0, a); }
inline E mkExtract(E a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	if (isC(a)) return X.konst(w, a->c >> lo);
	if (a->op == XEXTRACT) return mkExtract(a->a, lo + (unsigned)a->c, w);
	if (a->op == XZEXT) { if (lo >= a->a->w) return X.konst(w, 0); if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); return mkZext(mkExtract(a->a, lo, a->a->w - lo), w); }
	if (a->op == XSEXT && lo + w <= a->a->w) return mkExtract(a->a, lo, w);
	if (a->op == XCONCAT) { unsigned lw = a->b->w; if (lo + w <= lw) return mkExtract(a->b, lo, w); if (lo >= lw) return mkExtract(a->a, lo - lw, w); return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
	if (a->op == XITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
	if ((a->op == XAND || a->op == XOR_ || a->op == XXOR) && (isC(a->b))) return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
	if (lo == 0 && (a->op == XADD || a->op == XMUL) && isC(a->b)) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
	return X.raw(XEXTRACT, w, lo, a);
}
inline E mkConcat(E hi, E lo) {
	unsigned w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) return X.konst(w, (hi->c << lo->w) | lo->c);
	if (isC(hi) && hi->c == 0) return mkZext(lo, w);
	if (hi->op == XEXTRACT && lo->op == XEXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
	if (hi->op == XEXTRACT && hi->a == lo && hi->c == lo->w) return mkExtract(lo, 0, w);
	return X.raw(XCONCAT, w, 0, hi, lo);
}
inline E mkIte(E c, E a, E b) {
	if (isC(c)) return c->c ? a : b; if (a == b) return a;
	if (a->w == 1) { if (isC(a) && isC(b)) return a->c ? c : mkNot(c); if (isC(a)) return a->c ? mkBin(XOR_, c, b) : mkBin(XAND, mkNot(c), b); if (isC(b)) return b->c ? mkBin(XOR_, mkNot(c), a) : mkBin(XAND, c, a); }
	return X.raw(XITE, a->w, 0, c, a, b);
}

typedef std::vector<uint64_t> Model; // by variable index
struct Evaluator {
	std::vector<uint64_t> val; std::vector<uint32_t> stamp; uint32_t cur = 0;
	void begin() { ++cur; if (val.size() < X.arena.size()) { val.resize(X.arena.size() + 1024); stamp.resize(val.size(), 0); } }
	uint64_t rec(E e, const Model& m) {
		if (e->op == XCONST) return e->c;
		if (e->id < stamp.size() && stamp[e->id] == cur) return val[e->id];
		uint64_t r;
		switch (e->op) {
		case XVAR: r = e->c < m.size() ? m[e->c] & maskw(e->w) : 0; break;
		case XZEXT: r = rec(e->a, m); break;
		case XSEXT: r = (uint64_t)sextw(rec(e->a, m), e->a->w) & maskw(e->w); break;
		case XEXTRACT: r = (rec(e->a, m) >> e->c) & maskw(e->w); break;
		case XCONCAT: r = (rec(e->a, m) << e->b->w) | rec(e->b, m); break;
		case XITE: r = rec(e->a, m) ? rec(e->b, m) : rec(e->d, m); break;
		default: r = foldBin(e->op, e->a->w, rec(e->a, m), rec(e->b, m));
		}
		if (e->id < stamp.size()) { stamp[e->id] = cur; val[e->id] = r; }
		return r;
	}
	uint64_t eval(E e, const Model& m) { if (isC(e)) return e->c; begin(); return rec(e, m); }
};

// path condition: persistent list
struct PC { const PC* parent; E e; uint32_t depth; };

struct Solver {
	Z3_context ctx; Z3_solver s; std::vector<Z3_ast> bv, bo; std::vector<Z3_ast> varAst;
	uint64_t queries = 0, solved = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0, maxq = 0;
	Solver() {
		Z3_config c = Z3_mk_config(); ctx = Z3_mk_context(c); Z3_del_config(c);
		s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
		Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 60000); Z3_solver_set_params(ctx, s, p);
	}
	Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); }
	Z3_ast toBool(E e) {
		if (bo.size() <= e->id) bo.resize(X.arena.size() + 256, nullptr);
		if (bo[e->id]) return bo[e->id];
		Z3_ast r;
		switch (e->op) {
		case XCONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
		case XEQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)) : Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
		case XULT: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
		case XULE: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
		case XSLT: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
		case XSLE: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
		case XAND: { Z3_ast t[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, t); break; }
		case XOR_: { Z3_ast t[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, t); break; }
		case XXOR: r = isC(e->b) && e->b->c == 1 ? Z3_mk_not(ctx, toBool(e->a)) : Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)); break;
		case XITE: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->d)); break;
		default: r = Z3_mk_eq(ctx, toBV(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
		}
		if (bo.size() <= e->id) bo.resize(X.arena.size() + 256, nullptr);
		return bo[e->id] = r;
	}
	Z3_ast toBV(E e) {
		if (bv.size() <= e->id) bv.resize(X.arena.size() + 256, nullptr);
		if (bv[e->id]) return bv[e->id];
		Z3_ast r;
		switch (e->op) {
		case XCONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
		case XVAR: { char nm[32]; snprintf(nm, 32, "v%u", (unsigned)e->c); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->w)); if (varAst.size() <= e->c) varAst.resize(e->c + 1, nullptr); varAst[e->c] = r; break; }
		case XADD: r = Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b)); break;
		case XSUB: r = Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b)); break;
		case XMUL: r = Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b)); break;
		case XUDIV: r = Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b)); break;
		case XSDIV: r = Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b)); break;
		case XUREM: r = Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b)); break;
		case XSREM: r = Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b)); break;
		case XSHL: r = Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b)); break;
		case XLSHR: r = Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b)); break;
		case XASHR: r = Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b)); break;
		case XAND: case XOR_: case XXOR:
			if (e->w == 1) { r = b2bv(toBool(e)); break; }
			r = e->op == XAND ? Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b)) : e->op == XOR_ ? Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b)) : Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b)); break;
		case XZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
		case XSEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
		case XEXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, toBV(e->a)); break;
		case XCONCAT: r = Z3_mk_concat(ctx, toBV(e->a), toBV(e->b)); break;
		case XITE: r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->d)); break;
		default: r = b2bv(toBool(e));
		}
		if (bv.size() <= e->id) bv.resize(X.arena.size() + 256, nullptr);
		return bv[e->id] = r;
	}
	// variables of an expression, memoised
	std::vector<std::vector<uint32_t>*> vs;
	const std::vector<uint32_t>& varsOf(E e) {
		if (vs.size() <= e->id) vs.resize(X.arena.size() + 256, nullptr);
		if (vs[e->id]) return *vs[e->id];
		auto* r = new std::vector<uint32_t>; if (e->op == XVAR) r->push_back((uint32_t)e->c);
		for (E k : {e->a, e->b, e->d}) if (k) { const auto& q = varsOf(k); std::vector<uint32_t> t; std::set_union(r->begin(), r->end(), q.begin(), q.end(), std::back_inserter(t)); r->swap(t); }
		if (vs.size() <= e->id) vs.resize(X.arena.size() + 256, nullptr); vs[e->id] = r; return *r;
	}
	struct Cached { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
	struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 0x12345; for (uint32_t x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29; return h; } };
	std::unordered_map<std::vector<uint32_t>, Cached, VH> memo; uint64_t hits = 0; std::vector<uint32_t> mark; uint32_t mcur = 0; unsigned used = 0;
	// 1 sat, 0 unsat, -1 unknown
	// Only the conjuncts connected to `extra` by shared variables are sent; `base` satisfies pc, so the rest stays satisfied.
	int check(const PC* pc, E extra, const Model& base, Model* out) {
		if (isC(extra)) { if (extra->c && out) *out = base; return extra->c; }
		auto t0 = std::chrono::steady_clock::now(); ++queries;
		static std::vector<E> all, sl; all.clear(); sl.clear(); for (const PC* p = pc; p; p = p->parent) all.push_back(p->e);
		mark.resize(X.vars.size() + 1, 0); ++mcur; for (uint32_t v : varsOf(extra)) mark[v] = mcur; sl.push_back(extra);
		for (bool more = true; more;) { more = false; for (auto& e : all) if (e) { const auto& q = varsOf(e); bool c = false; for (uint32_t v : q) if (mark[v] == mcur) { c = true; break; } if (c) { for (uint32_t v : q) mark[v] = mcur; sl.push_back(e); e = nullptr; more = true; } } }
		static std::vector<uint32_t> key; key.clear(); for (E e : sl) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
		auto it = memo.find(key);
		if (it == memo.end()) {
			if (++used % 4000 == 0) Z3_solver_reset(ctx, s);
			Cached c; Z3_solver_push(ctx, s); for (uint32_t id : key) Z3_solver_assert(ctx, s, toBool(&X.arena[id]));
			Z3_lbool r = Z3_solver_check(ctx, s); ++solved; c.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
			if (r == Z3_L_TRUE) { ++sat; Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
				for (size_t i = 0; i < varAst.size(); ++i) if (varAst[i] && mark[i] == mcur) { Z3_ast v; uint64_t u = 0; if (Z3_model_eval(ctx, m, varAst[i], true, &v)) Z3_get_numeral_uint64(ctx, v, &u); c.m.push_back({(uint32_t)i, u}); }
				Z3_model_dec_ref(ctx, m); } else if (r == Z3_L_FALSE) ++unsat; else ++unknown;
			Z3_solver_pop(ctx, s, 1); it = memo.emplace(key, c).first;
		} else ++hits;
		if (it->second.r == 1 && out) { *out = base; if (out->size() < X.vars.size()) out->resize(X.vars.size(), 0); for (auto& p : it->second.m) (*out)[p.first] = p.second; }
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); secs += dt; if (dt > maxq) maxq = dt;
		return it->second.r;
	}
};

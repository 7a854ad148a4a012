// Hash-consed bit-vector expression DAG with simplification, evaluation under a model and Z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <cassert>
#include <z3.h>

enum K : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
	FADD, FSUB, FMUL, FDIV, FEQ, FLT, FLE, FUNO, FCVT, FTOSI, FTOUI, SITOF, UITOF };

static const int MAXVARS = 512;
struct VarBits {
	uint64_t w[MAXVARS / 64];
	bool intersects(const VarBits& o) const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i] & o.w[i]) return true; return false; }
	bool subsetOf(const VarBits& o) const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i] & ~o.w[i]) return false; return true; }
	void merge(const VarBits& o) { for (int i = 0; i < MAXVARS / 64; i++) w[i] |= o.w[i]; }
	bool operator==(const VarBits& o) const { return !memcmp(w, o.w, sizeof w); }
	bool empty() const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i]) return false; return true; }
};

struct Expr {
	K k; uint8_t w; uint8_t aux; bool hard; uint32_t id; uint64_t c; // hard: contains a division, or a multiplication of wide values
	const Expr *a, *b, *d;
	const VarBits* vars;
};
typedef const Expr* E;

static inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct ExprPool {
	struct Key { E e; };
	static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
	static uint64_t hashOf(const Expr& e) {
		uint64_t h = e.k * 1000003ull + e.w * 7919 + e.aux * 104729ull;
		h = mix(h, e.c); h = mix(h, (uint64_t)e.a); h = mix(h, (uint64_t)e.b); h = mix(h, (uint64_t)e.d);
		return h;
	}
	std::vector<E> table; size_t count = 0; // open addressing
	std::vector<E> all;
	char* arena = nullptr; size_t left = 0;
	struct VBHash { size_t operator()(const VarBits& v) const { uint64_t h = 1; for (auto x : v.w) h = mix(h, x); return h; } };
	std::unordered_map<VarBits, const VarBits*, VBHash> vbs;
	const VarBits* emptyVars;
	ExprPool() { table.resize(1 << 16, nullptr); VarBits z = {}; emptyVars = internVars(z); }
	const VarBits* internVars(const VarBits& v) {
		auto it = vbs.find(v); if (it != vbs.end()) return it->second;
		auto p = new VarBits(v); vbs.emplace(v, p); return p;
	}
	void* alloc(size_t n) { if (left < n) { left = 1 << 20; arena = (char*)malloc(left); } void* p = arena; arena += n; left -= n; return p; }
	void grow() {
		std::vector<E> nt(table.size() * 2, nullptr);
		for (E e : table) if (e) { size_t i = hashOf(*e) & (nt.size() - 1); while (nt[i]) i = (i + 1) & (nt.size() - 1); nt[i] = e; }
		table.swap(nt);
	}
	E make(Expr t) {
		size_t i = hashOf(t) & (table.size() - 1);
		while (E e = table[i]) {
			if (e->k == t.k && e->w == t.w && e->aux == t.aux && e->c == t.c && e->a == t.a && e->b == t.b && e->d == t.d) return e;
			i = (i + 1) & (table.size() - 1);
		}
		Expr* e = (Expr*)alloc(sizeof(Expr)); *e = t; e->id = all.size();
		if (t.k == CONST) e->vars = emptyVars;
		else if (t.k == VAR) { VarBits z = {}; if (t.c >= MAXVARS) { fprintf(stderr, "ENGINE: too many symbolic variables\n"); _exit(97); } z.w[t.c / 64] |= 1ull << (t.c % 64); e->vars = internVars(z); }
		else {
			const VarBits* v = t.a->vars;
			if (t.b && t.b->vars != v) { VarBits z = *v; z.merge(*t.b->vars); v = internVars(z); }
			if (t.d && t.d->vars != v) { VarBits z = *v; z.merge(*t.d->vars); v = internVars(z); }
			e->vars = v;
		}
		e->hard = t.k == UDIV || t.k == UREM || t.k == SDIV || t.k == SREM || (t.k == MUL && t.w > 16) || (t.a && t.a->hard) || (t.b && t.b->hard) || (t.d && t.d->hard);
		all.push_back(e); table[i] = e; count++;
		if (count * 2 > table.size()) grow();
		return e;
	}
};
extern ExprPool pool;

static inline E mkc(uint64_t c, int w) { Expr t = {CONST, (uint8_t)w, 0, false, 0, c & maskw(w), 0, 0, 0, 0}; return pool.make(t); }
static inline E mkvar(int idx, int w) { Expr t = {VAR, (uint8_t)w, 0, false, 0, (uint64_t)idx, 0, 0, 0, 0}; return pool.make(t); }
static inline E raw(K k, int w, E a, E b = nullptr, E d = nullptr, uint8_t aux = 0, uint64_t c = 0) { Expr t = {k, (uint8_t)w, aux, false, 0, c, a, b, d, 0}; return pool.make(t); }
static inline bool isc(E e) { return e->k == CONST; }

// Concrete semantics of every binary operator
static inline double asD(uint64_t v, int w) { if (w == 16) { _Float16 h; uint16_t x = v; memcpy(&h, &x, 2); return h; } if (w == 32) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static inline uint64_t fromD(double d, int w) { if (w == 16) { _Float16 h = (_Float16)d; uint16_t x; memcpy(&x, &h, 2); return x; } if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t v; memcpy(&v, &d, 8); return v; }
static inline uint64_t evalBin(K k, uint64_t a, uint64_t b, int w /* operand width */) {
	uint64_t m = maskw(w);
	switch (k) {
	case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
	case UDIV: return b ? (a / b) & m : m; case UREM: return b ? (a % b) & m : a;
	case SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
	case SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
	case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
	case SHL: return b >= (uint64_t)w ? 0 : (a << b) & m; case LSHR: return b >= (uint64_t)w ? 0 : (a >> b);
	case ASHR: { int64_t x = sx(a, w); return (uint64_t)(x >> (b >= (uint64_t)w ? 63 : b)) & m; }
	case EQ: return a == b; case ULT: return a < b; case ULE: return a <= b;
	case SLT: return sx(a, w) < sx(b, w); case SLE: return sx(a, w) <= sx(b, w);
	case FADD: if (w == 32) return fromD((float)asD(a, w) + (float)asD(b, w), w); return fromD(asD(a, w) + asD(b, w), w);
	case FSUB: if (w == 32) return fromD((float)asD(a, w) - (float)asD(b, w), w); return fromD(asD(a, w) - asD(b, w), w);
	case FMUL: if (w == 32) return fromD((float)asD(a, w) * (float)asD(b, w), w); return fromD(asD(a, w) * asD(b, w), w);
	case FDIV: if (w == 32) return fromD((float)asD(a, w) / (float)asD(b, w), w); return fromD(asD(a, w) / asD(b, w), w);
	case FEQ: return asD(a, w) == asD(b, w); case FLT: return asD(a, w) < asD(b, w); case FLE: return asD(a, w) <= asD(b, w);
	case FUNO: return std::isnan(asD(a, w)) || std::isnan(asD(b, w));
	default: abort();
	}
}
static inline uint64_t evalUn(K k, uint64_t a, int wa, int w) {
	switch (k) {
	case FCVT: return fromD(asD(a, wa), w);
	case FTOSI: { double d = asD(a, wa); if (!(d >= -9.3e18 && d <= 9.3e18)) return (1ull << (w - 1)); return (uint64_t)(int64_t)d & maskw(w); }
	case FTOUI: { double d = asD(a, wa); if (!(d >= -1 && d <= 1.9e19)) return 0; return (uint64_t)d & maskw(w); }
	case SITOF: if (w == 32) return fromD((float)sx(a, wa), w); return fromD((double)sx(a, wa), w);
	case UITOF: if (w == 32) return fromD((float)a, w); return fromD((double)a, w);
	default: abort();
	}
}

E mkbin(K k, E a, E b);
E mkite(E c, E a, E b);
E mkextract(E a, int lo, int w);
E mkconcat(E hi, E lo);
E mkzext(E a, int w);
E mksext(E a, int w);
E mkfp(K k, E a, E b, int w);
static inline E mknot(E a) { return mkbin(EQ, a, mkc(0, 1)); }
static inline E mkeq(E a, E b) { return mkbin(EQ, a, b); }
static inline E mkand(E a, E b) { return mkbin(AND, a, b); }
static inline E mkor(E a, E b) { return mkbin(OR, a, b); }

// Unsigned interval of an expression (cheap, conservative)
void urange(E e, uint64_t& lo, uint64_t& hi);

// Equivalence-preserving rewriting of a query under the variable bounds its own constraints state: divisions by constants become
// comparisons when few quotients are possible, and are narrowed otherwise
struct CtxRewriter {
	std::unordered_map<uint64_t, std::pair<uint64_t, uint64_t>> bounds; // variable -> unsigned bounds
	std::unordered_map<uint32_t, E> memo; std::unordered_map<uint32_t, std::pair<uint64_t, uint64_t>> rmemo;
	void learn(E constraint);
	void range(E e, uint64_t& lo, uint64_t& hi);
	E rewrite(E e);
};

typedef std::vector<uint64_t> Model; // value per symbolic variable index
uint64_t evalE(E e, const Model& m);

struct Z3Trans {
	Z3_context ctx;
	std::vector<Z3_ast> bv, bo; // memo by expression id
	Z3Trans();
	Z3_ast B(E e); // as Bool (width 1 only)
	Z3_ast V(E e); // as bit-vector
};

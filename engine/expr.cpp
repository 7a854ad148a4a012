#include "expr.hpp"
ExprPool pool;

static bool commut(K k) { return k == ADD || k == MUL || k == AND || k == OR || k == XOR || k == EQ; }

void urange(E e, uint64_t& lo, uint64_t& hi) {
	uint64_t m = maskw(e->w);
	lo = 0; hi = m;
	switch (e->k) {
	case CONST: lo = hi = e->c; break;
	case ZEXT: urange(e->a, lo, hi); break;
	case CONCAT: { uint64_t l1, h1, l2, h2; urange(e->a, l1, h1); urange(e->b, l2, h2); lo = (l1 << e->b->w) | l2; hi = (h1 << e->b->w) | h2; break; }
	case ITE: { uint64_t l1, h1, l2, h2; urange(e->b, l1, h1); urange(e->d, l2, h2); lo = std::min(l1, l2); hi = std::max(h1, h2); break; }
	case ADD: { uint64_t l1, h1, l2, h2; urange(e->a, l1, h1); urange(e->b, l2, h2);
		unsigned __int128 s = (unsigned __int128)h1 + h2; if (s <= m) { lo = l1 + l2; hi = h1 + h2; }
		else { unsigned __int128 t = (unsigned __int128)l1 + l2; if (t > m && s <= 2 * (unsigned __int128)m + 1) { lo = (l1 + l2) & m; hi = (h1 + h2) & m; } } break; }
	case MUL: { uint64_t l1, h1, l2, h2; urange(e->a, l1, h1); urange(e->b, l2, h2); unsigned __int128 s = (unsigned __int128)h1 * h2; if (s <= m) { lo = l1 * l2; hi = (uint64_t)s; } break; }
	case SHL: if (isc(e->b) && e->b->c < e->w) { uint64_t l1, h1; urange(e->a, l1, h1); if (h1 <= (m >> e->b->c)) { lo = l1 << e->b->c; hi = h1 << e->b->c; } } break;
	case LSHR: if (isc(e->b) && e->b->c < e->w) { uint64_t l1, h1; urange(e->a, l1, h1); lo = l1 >> e->b->c; hi = h1 >> e->b->c; } break;
	case AND: { uint64_t l1, h1, l2, h2; urange(e->a, l1, h1); urange(e->b, l2, h2); hi = std::min(h1, h2); break; }
	case UREM: if (isc(e->b) && e->b->c) hi = std::min(hi, e->b->c - 1); break;
	case UDIV: if (isc(e->b) && e->b->c) { uint64_t l1, h1; urange(e->a, l1, h1); lo = l1 / e->b->c; hi = h1 / e->b->c; } break;
	default: break;
	}
}

E mkzext(E a, int w) {
	if (a->w == w) return a;
	if (isc(a)) return mkc(a->c, w);
	if (a->k == ZEXT) return mkzext(a->a, w);
	return raw(ZEXT, w, a);
}
E mksext(E a, int w) {
	if (a->w == w) return a;
	if (isc(a)) return mkc((uint64_t)sx(a->c, a->w), w);
	if (a->k == ZEXT) return mkzext(a->a, w);
	if (a->k == SEXT) return mksext(a->a, w);
	return raw(SEXT, w, a);
}
E mkextract(E a, int lo, int w) {
	if (lo == 0 && w == a->w) return a;
	if (isc(a)) return mkc(a->c >> lo, w);
	switch (a->k) {
	case EXTRACT: return mkextract(a->a, lo + (int)a->c, w);
	case ZEXT:
		if (lo >= a->a->w) return mkc(0, w);
		if (lo + w <= a->a->w) return mkextract(a->a, lo, w);
		if (lo == 0) return mkzext(a->a, w);
		return mkzext(mkextract(a->a, lo, a->a->w - lo), w);
	case SEXT:
		if (lo + w <= a->a->w) return mkextract(a->a, lo, w);
		if (lo == 0) return mksext(a->a, w);
		break;
	case CONCAT: {
		int wl = a->b->w;
		if (lo + w <= wl) return mkextract(a->b, lo, w);
		if (lo >= wl) return mkextract(a->a, lo - wl, w);
		return mkconcat(mkextract(a->a, 0, lo + w - wl), mkextract(a->b, lo, wl - lo));
	}
	case AND: case OR: case XOR:
		if (isc(a->b)) return mkbin(a->k, mkextract(a->a, lo, w), mkextract(a->b, lo, w));
		break;
	case ADD: case SUB: case MUL:
		if (lo == 0) return mkbin(a->k, mkextract(a->a, 0, w), mkextract(a->b, 0, w));
		break;
	case SHL:
		if (isc(a->b) && lo == 0 && a->b->c < (uint64_t)w) return mkbin(SHL, mkextract(a->a, 0, w), mkc(a->b->c, w));
		if (isc(a->b) && a->b->c < a->w && (uint64_t)lo >= a->b->c) return mkextract(a->a, lo - (int)a->b->c, w);
		if (isc(a->b) && a->b->c >= (uint64_t)(lo + w)) return mkc(0, w);
		break;
	case LSHR:
		if (isc(a->b) && a->b->c < a->w && lo + (int)a->b->c + w <= a->w) return mkextract(a->a, lo + (int)a->b->c, w);
		break;
	case ITE:
		if (isc(a->b) || isc(a->d)) return mkite(a->a, mkextract(a->b, lo, w), mkextract(a->d, lo, w));
		break;
	default: break;
	}
	return raw(EXTRACT, w, a, nullptr, nullptr, 0, lo);
}
E mkconcat(E hi, E lo) {
	int w = hi->w + lo->w;
	assert(w <= 64);
	if (isc(hi) && isc(lo)) return mkc((hi->c << lo->w) | lo->c, w);
	if (isc(hi) && hi->c == 0) return mkzext(lo, w);
	if (hi->k == EXTRACT && lo->k == EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkextract(hi->a, (int)lo->c, w);
	if (hi->k == EXTRACT && hi->a == lo && hi->c == lo->w) return mkextract(lo, 0, w);
	// ZEXT(EXTRACT) above
	if (hi->k == ZEXT && hi->a->k == EXTRACT && lo->k == EXTRACT && hi->a->a == lo->a && hi->a->c == lo->c + lo->w)
		return mkzext(mkextract(lo->a, (int)lo->c, hi->a->w + lo->w), w);
	// right-nested normal form: (x . y) . z -> x . (y . z)
	if (hi->k == CONCAT) return mkconcat(hi->a, mkconcat(hi->b, lo));
	if (lo->k == CONCAT) { // try merging hi with the top part of lo
		E t = nullptr;
		if (hi->k == EXTRACT && lo->a->k == EXTRACT && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w) t = mkextract(hi->a, (int)lo->a->c, hi->w + lo->a->w);
		else if (isc(hi) && isc(lo->a)) t = mkc((hi->c << lo->a->w) | lo->a->c, hi->w + lo->a->w);
		if (t) return mkconcat(t, lo->b);
	}
	if (hi->k == EXTRACT && lo->k == ITE) {}
	return raw(CONCAT, w, hi, lo);
}
E mkite(E c, E a, E b) {
	if (isc(c)) return c->c ? a : b;
	if (a == b) return a;
	if (a->w == 1) {
		if (isc(a) && isc(b)) return a->c ? c : mknot(c);
		if (isc(a)) return a->c ? mkor(c, b) : mkand(mknot(c), b);
		if (isc(b)) return b->c ? mkor(mknot(c), a) : mkand(c, a);
	}
	if (c->k == EQ && c->w == 1 && isc(c->b) && c->a->w == 1 && c->b->c == 0) return mkite(c->a, b, a);
	if (a->k == ITE && a->a == c) a = a->b;
	if (b->k == ITE && b->a == c) b = b->d;
	if (a == b) return a;
	return raw(ITE, a->w, c, a, b);
}
static bool iteConstTree(E e, int depth = 0) { // all leaves constant (bounded depth)
	if (isc(e)) return true;
	if (e->k != ITE || depth > 10) return false;
	return iteConstTree(e->b, depth + 1) && iteConstTree(e->d, depth + 1);
}
E mkbin(K k, E a, E b) {
	int w = a->w;
	bool cmp = k >= EQ && k <= SLE;
	int rw = cmp ? 1 : w;
	if (isc(a) && isc(b)) return mkc(evalBin(k, a->c, b->c, w), rw);
	if (commut(k)) { if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b); }
	uint64_t m = maskw(w);
	bool bc = isc(b), ac = isc(a);
	// push comparisons/arithmetics with constants into ITE trees of constants (table look-ups)
	if (bc && a->k == ITE && (isc(a->b) || isc(a->d)) && (cmp || k == ADD || k == AND || k == MUL || k == UDIV || k == UREM) && iteConstTree(a))
		return mkite(a->a, mkbin(k, a->b, b), mkbin(k, a->d, b));
	switch (k) {
	case ADD:
		if (bc && b->c == 0) return a;
		if (bc && a->k == ADD && isc(a->b)) return mkbin(ADD, a->a, mkc(a->b->c + b->c, w));
		if (a->k == ADD && isc(a->b)) return mkbin(ADD, mkbin(ADD, a->a, b), a->b);
		if (b->k == ADD && isc(b->b)) return mkbin(ADD, mkbin(ADD, a, b->a), b->b);
		if (b->k == SUB && b->b == a) return b->a;
		if (a->k == SUB && a->b == b) return a->a;
		break;
	case SUB:
		if (a == b) return mkc(0, w);
		if (bc) return mkbin(ADD, a, mkc(0 - b->c, w));
		if (a->k == ADD && a->a == b) return a->b;
		if (a->k == ADD && a->b == b) return a->a;
		if (a->k == ADD && isc(a->b)) return mkbin(ADD, mkbin(SUB, a->a, b), a->b);
		if (b->k == ADD && isc(b->b)) return mkbin(ADD, mkbin(SUB, a, b->a), mkc(0 - b->b->c, w));
		break;
	case MUL:
		if (bc && b->c == 0) return b;
		if (bc && b->c == 1) return a;
		if (bc && (b->c & (b->c - 1)) == 0) return mkbin(SHL, a, mkc(__builtin_ctzll(b->c), w));
		break;
	case UDIV: if (bc && b->c == 1) return a;
		if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkbin(LSHR, a, mkc(__builtin_ctzll(b->c), w));
		if (bc && b->c) { uint64_t lo, hi; urange(a, lo, hi); if (hi < b->c) return mkc(0, w);
			if (a->k == ZEXT && b->c <= maskw(a->a->w)) return mkzext(mkbin(UDIV, a->a, mkc(b->c, a->a->w)), w); }
		break;
	case UREM: if (bc && b->c == 1) return mkc(0, w);
		if (bc && b->c && (b->c & (b->c - 1)) == 0) return mkbin(AND, a, mkc(b->c - 1, w));
		if (bc && b->c) { uint64_t lo, hi; urange(a, lo, hi); if (hi < b->c) return a;
			if (a->k == ZEXT && b->c <= maskw(a->a->w)) return mkzext(mkbin(UREM, a->a, mkc(b->c, a->a->w)), w); }
		break;
	case SDIV: case SREM:
		if (bc && b->c && !(b->c >> (w - 1))) { uint64_t lo, hi; urange(a, lo, hi); if (hi <= (m >> 1)) return mkbin(k == SDIV ? UDIV : UREM, a, b); }
		break;
	case AND:
		if (a == b) return a;
		if (bc && b->c == 0) return b;
		if (bc && b->c == m) return a;
		if (bc && a->k == AND && isc(a->b)) return mkbin(AND, a->a, mkc(a->b->c & b->c, w));
		if (bc && w > 1 && (b->c & (b->c + 1)) == 0) { int n = 64 - __builtin_clzll(b->c); return mkzext(mkextract(a, 0, n), w); }
		if (bc && a->k == ZEXT) return mkzext(mkbin(AND, a->a, mkc(b->c, a->a->w)), w);
		if (w == 1) { if (a->k == EQ && a->a == b && isc(a->b) && !a->b->c) return mkc(0, 1); if (b->k == EQ && b->a == a && isc(b->b) && !b->b->c) return mkc(0, 1);
			if (a->k == AND && (a->a == b || a->b == b)) return a; if (b->k == AND && (b->a == a || b->b == a)) return b; }
		break;
	case OR:
		if (a == b) return a;
		if (bc && b->c == 0) return a;
		if (bc && b->c == m) return b;
		if (w == 1) { if (a->k == EQ && a->a == b && isc(a->b) && !a->b->c) return mkc(1, 1); if (b->k == EQ && b->a == a && isc(b->b) && !b->b->c) return mkc(1, 1); }
		// disjoint bits: (x << n) | zext(y)
		if (a->k == SHL && isc(a->b) && b->k == ZEXT && b->a->w <= a->b->c && a->b->c < (uint64_t)w) return mkconcat(mkextract(a->a, 0, w - (int)a->b->c), mkzext(b->a, (int)a->b->c));
		if (b->k == SHL && isc(b->b) && a->k == ZEXT && a->a->w <= b->b->c && b->b->c < (uint64_t)w) return mkconcat(mkextract(b->a, 0, w - (int)b->b->c), mkzext(a->a, (int)b->b->c));
		break;
	case XOR:
		if (a == b) return mkc(0, w);
		if (bc && b->c == 0) return a;
		if (w == 1 && bc) return mknot(a);
		break;
	case SHL: case LSHR: case ASHR:
		if (bc && b->c == 0) return a;
		if (bc && b->c >= (uint64_t)w && k != ASHR) return mkc(0, w);
		if (bc && k == LSHR) return mkzext(mkextract(a, (int)b->c, w - (int)b->c), w);
		if (bc && k == SHL) return mkconcat(mkextract(a, 0, w - (int)b->c), mkc(0, (int)b->c));
		if (bc && k == ASHR && b->c < (uint64_t)w) { uint64_t lo, hi; urange(a, lo, hi); if (hi <= (m >> 1)) return mkbin(LSHR, a, b);
			return mksext(mkextract(a, (int)b->c, w - (int)b->c), w); }
		break;
	case EQ:
		if (a == b) return mkc(1, 1);
		if (w == 1 && bc) {
			if (b->c) return a;
			// negation
			if (a->k == EQ && a->a->w == 1 && isc(a->b) && a->b->c == 0) return a->a;
			if (a->k == ULT) return mkbin(ULE, a->b, a->a);
			if (a->k == ULE) return mkbin(ULT, a->b, a->a);
			if (a->k == SLT) return mkbin(SLE, a->b, a->a);
			if (a->k == SLE) return mkbin(SLT, a->b, a->a);
			break;
		}
		if (bc) {
			if (a->k == ZEXT) return (b->c >> a->a->w) ? mkc(0, 1) : mkeq(a->a, mkc(b->c, a->a->w));
			if (a->k == SEXT) return (uint64_t)(sx(b->c, a->a->w)) == (uint64_t)sx(b->c, w) ? mkeq(a->a, mkc(b->c, a->a->w)) : mkc(0, 1);
			if (a->k == ADD && isc(a->b)) return mkeq(a->a, mkc(b->c - a->b->c, w));
			if (a->k == SUB && isc(a->a)) return mkeq(a->b, mkc(a->a->c - b->c, w));
			if (a->k == XOR && isc(a->b)) return mkeq(a->a, mkc(b->c ^ a->b->c, w));
			if (a->k == CONCAT) return mkand(mkeq(a->a, mkc(b->c >> a->b->w, a->a->w)), mkeq(a->b, mkc(b->c, a->b->w)));
			if (a->k == ITE) {
				if (isc(a->b)) return a->b->c == b->c ? mkor(a->a, mkeq(a->d, b)) : mkand(mknot(a->a), mkeq(a->d, b));
				if (isc(a->d)) return a->d->c == b->c ? mkor(mknot(a->a), mkeq(a->b, b)) : mkand(a->a, mkeq(a->b, b));
			}
			uint64_t lo, hi; urange(a, lo, hi);
			if (b->c < lo || b->c > hi) return mkc(0, 1);
		} else {
			if (a->k == SUB && b->k == CONST) {}
			if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return mkeq(a->a, b->a);
			if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mkeq(a->a, b->a);
			if (a->k == CONCAT && b->k == CONCAT && a->a->w == b->a->w) return mkand(mkeq(a->a, b->a), mkeq(a->b, b->b));
			if (a->k == ADD && b->k == ADD && a->b == b->b) return mkeq(a->a, b->a);
			if (a->k == ADD && isc(a->b) && a->a == b) return mkc(0, 1); // x + c == x, c != 0
			if (b->k == ADD && isc(b->b) && b->a == a) return mkc(0, 1);
		}
		break;
	case ULT: case ULE: {
		if (a == b) return mkc(k == ULE, 1);
		if (k == ULT && bc && b->c == 0) return mkc(0, 1);
		if (k == ULT && bc && b->c == 1) return mkeq(a, mkc(0, w));
		if (k == ULE && bc && b->c == 0) return mkeq(a, b);
		if (k == ULE && ac && a->c == 0) return mkc(1, 1);
		if (w == 1 && !ac && !bc) break;
		uint64_t l1, h1, l2, h2; urange(a, l1, h1); urange(b, l2, h2);
		if (k == ULT) { if (h1 < l2) return mkc(1, 1); if (l1 >= h2) return mkc(0, 1); }
		else { if (h1 <= l2) return mkc(1, 1); if (l1 > h2) return mkc(0, 1); }
		if (k == ULE && bc && b->c == m) return mkc(1, 1);
		if (k == ULE && bc) return mkbin(ULT, a, mkc(b->c + 1, w));
		if (k == ULE && ac) return mkbin(ULT, mkc(a->c - 1, w), b);
		if (bc && a->k == ZEXT) return mkbin(k, a->a, mkc(b->c, a->a->w)); // range check above ensures it fits
		if (ac && b->k == ZEXT) return mkbin(k, mkc(a->c, b->a->w), b->a);
		if (a->k == ZEXT && b->k == ZEXT && a->a->w == b->a->w) return mkbin(k, a->a, b->a);
		break; }
	case SLT: case SLE: {
		if (a == b) return mkc(k == SLE, 1);
		if (k == SLE && bc) { if (b->c == (m >> 1)) return mkc(1, 1); return mkbin(SLT, a, mkc(b->c + 1, w)); }
		if (k == SLE && ac) { if (a->c == (m >> 1) + 1) return mkc(1, 1); return mkbin(SLT, mkc(a->c - 1, w), b); }
		uint64_t l1, h1, l2, h2; urange(a, l1, h1); urange(b, l2, h2);
		uint64_t smax = m >> 1;
		if (h1 <= smax && h2 <= smax) return mkbin(k == SLT ? ULT : ULE, a, b);
		if (h1 <= smax && bc && b->c > smax) return mkc(0, 1);
		if (h2 <= smax && ac && a->c > smax) return mkc(1, 1);
		if (l1 > smax && h2 <= smax) return mkc(1, 1);
		if (h1 <= smax && l2 > smax) return mkc(0, 1);
		if (bc && a->k == SEXT) { int64_t c = sx(b->c, w); int sw = a->a->w; int64_t mn = sx(1ull << (sw - 1), sw), mxv = -(mn + 1);
			if (c > mxv) return mkc(1, 1); if (c <= mn) return mkc(0, 1); return mkbin(SLT, a->a, mkc(c, sw)); }
		if (ac && b->k == SEXT) { int64_t c = sx(a->c, w); int sw = b->a->w; int64_t mn = sx(1ull << (sw - 1), sw), mxv = -(mn + 1);
			if (c >= mxv) return mkc(0, 1); if (c < mn) return mkc(1, 1); return mkbin(SLT, mkc(c, sw), b->a); }
		if (a->k == SEXT && b->k == SEXT && a->a->w == b->a->w) return mkbin(k, a->a, b->a);
		break; }
	default: break;
	}
	return raw(k, rw, a, b);
}
E mkfp(K k, E a, E b, int w) {
	if (isc(a) && (!b || isc(b))) return mkc(b ? evalBin(k, a->c, b->c, a->w) : evalUn(k, a->c, a->w, w), w);
	if ((k == UITOF || k == SITOF) && a->k == ZEXT) return mkfp(UITOF, a->a, nullptr, w);
	if (k == UITOF && a->k == CONCAT && isc(a->a) && !a->a->c) return mkfp(UITOF, a->b, nullptr, w);
	if (k == FDIV && isc(b) && (w == 32 || w == 64)) { int mb = w == 32 ? 23 : 52; uint64_t ex = (b->c >> mb) & (w == 32 ? 0xff : 0x7ff), top = w == 32 ? 0xfe : 0x7fe; if (!(b->c & ((1ull << mb) - 1)) && ex > 1 && ex < top - 1) return mkfp(FMUL, a, mkc((b->c & (1ull << (w - 1))) | ((top - ex) << mb), w), w); } // by a power of two
	if (k == FCVT && a->k == FCVT && w < a->w) { if (a->a->w == w) return a->a; if (a->a->w < w) return mkfp(FCVT, a->a, nullptr, w); } // extensions are exact
	if (k == FCVT && a->k == FCVT && w > a->w && a->a->w < a->w) return mkfp(FCVT, a->a, nullptr, w);
	if ((k == FEQ || k == FLT || k == FLE || k == FUNO) && a->k == FCVT && b->k == FCVT && a->a->w == b->a->w && a->a->w < a->w) return mkfp(k, a->a, b->a, 1);
	return raw(k, w, a, b);
}

// ---------------------------------------------------------------- rewriting under the bounds of a query
void CtxRewriter::learn(E c) {
	auto upd = [&](E v, uint64_t lo, uint64_t hi) { auto it = bounds.find(v->c); if (it == bounds.end()) bounds[v->c] = {lo, hi}; else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); } };
	if (c->k == AND && c->w == 1) { learn(c->a); learn(c->b); return; }
	if ((c->k == ULT || c->k == ULE) && c->a->k == VAR && isc(c->b)) { if (c->k == ULE) upd(c->a, 0, c->b->c); else if (c->b->c) upd(c->a, 0, c->b->c - 1); }
	else if ((c->k == ULT || c->k == ULE) && c->b->k == VAR && isc(c->a)) { if (c->k == ULE) upd(c->b, c->a->c, maskw(c->b->w)); else if (c->a->c < maskw(c->a->w)) upd(c->b, c->a->c + 1, maskw(c->b->w)); }
	else if (c->k == EQ && c->a->k == VAR && isc(c->b)) upd(c->a, c->b->c, c->b->c);
	else if ((c->k == SLT || c->k == SLE) && c->a->k == VAR && isc(c->b)) { int w = c->a->w; int64_t k = sx(c->b->c, w) - (c->k == SLT); if (k < 0) upd(c->a, 1ull << (w - 1), (uint64_t)k & maskw(w)); }
	else if ((c->k == SLT || c->k == SLE) && c->b->k == VAR && isc(c->a)) { int w = c->b->w; int64_t k = sx(c->a->c, w) + (c->k == SLT); if (k >= 0) upd(c->b, (uint64_t)k, maskw(w) >> 1); }
}
void CtxRewriter::range(E e, uint64_t& lo, uint64_t& hi) {
	uint64_t m = maskw(e->w); lo = 0; hi = m;
	if (e->k == CONST) { lo = hi = e->c; return; }
	if (e->k == VAR) { auto it = bounds.find(e->c); if (it != bounds.end() && it->second.first <= it->second.second) { lo = it->second.first; hi = it->second.second; } return; }
	auto f = rmemo.find(e->id); if (f != rmemo.end()) { lo = f->second.first; hi = f->second.second; return; }
	uint64_t l1, h1, l2, h2;
	switch (e->k) {
	case ZEXT: range(e->a, lo, hi); break;
	case SEXT: range(e->a, l1, h1); { uint64_t sm = maskw(e->a->w) >> 1; if (h1 <= sm) { lo = l1; hi = h1; } else if (l1 > sm) { lo = (uint64_t)sx(l1, e->a->w) & m; hi = (uint64_t)sx(h1, e->a->w) & m; } } break;
	case CONCAT: range(e->a, l1, h1); range(e->b, l2, h2); lo = (l1 << e->b->w) | l2; hi = (h1 << e->b->w) | h2; break;
	case EXTRACT: range(e->a, l1, h1); if ((h1 >> e->c) <= m) { lo = l1 >> e->c; hi = h1 >> e->c; } else if (e->c == 0 && (l1 & ~m) == (h1 & ~m)) { lo = l1 & m; hi = h1 & m; } break;
	case ITE: range(e->b, l1, h1); range(e->d, l2, h2); lo = std::min(l1, l2); hi = std::max(h1, h2); break;
	case ADD: { range(e->a, l1, h1); range(e->b, l2, h2); unsigned __int128 s = (unsigned __int128)h1 + h2, t = (unsigned __int128)l1 + l2; if (s <= m) { lo = l1 + l2; hi = h1 + h2; } else if (t > m) { lo = (l1 + l2) & m; hi = (h1 + h2) & m; } break; }
	case SUB: range(e->a, l1, h1); range(e->b, l2, h2); if (l1 >= h2) { lo = l1 - h2; hi = h1 - l2; } else if (h1 < l2) { lo = (l1 - h2) & m; hi = (h1 - l2) & m; } break;
	case MUL: { range(e->a, l1, h1); range(e->b, l2, h2); unsigned __int128 s = (unsigned __int128)h1 * h2; if (s <= m) { lo = l1 * l2; hi = (uint64_t)s; } break; }
	case AND: range(e->a, l1, h1); range(e->b, l2, h2); hi = std::min(h1, h2); break;
	case UREM: if (isc(e->b) && e->b->c) { range(e->a, l1, h1); hi = std::min(h1, e->b->c - 1); } break;
	case UDIV: if (isc(e->b) && e->b->c) { range(e->a, l1, h1); lo = l1 / e->b->c; hi = h1 / e->b->c; } break;
	default: break;
	}
	rmemo[e->id] = {lo, hi};
}
static E quotTree(E a, uint64_t d, uint64_t q0, uint64_t q1, int w) { // a / d for q0 <= a / d <= q1, as a tree of comparisons
	if (q0 == q1) return mkc(q0, w);
	uint64_t mid = q0 + (q1 - q0) / 2;
	return mkite(mkbin(ULT, a, mkc((mid + 1) * d, a->w)), quotTree(a, d, q0, mid, w), quotTree(a, d, mid + 1, q1, w));
}
E CtxRewriter::rewrite(E e) {
	if (isc(e) || e->k == VAR) { if (e->k == VAR) { auto it = bounds.find(e->c); (void)it; } return e; }
	if (!e->hard && e->k != SEXT && e->k != SUB && e->k != ADD && !(e->k >= EQ && e->k <= SLE)) { bool bin = e->a && !isc(e->a); (void)bin; }
	auto f = memo.find(e->id); if (f != memo.end()) return f->second;
	E a = e->a ? rewrite(e->a) : nullptr, b = e->b ? rewrite(e->b) : nullptr, d = e->d ? rewrite(e->d) : nullptr, r; int w = e->w;
	switch (e->k) {
	case UDIV: case UREM: {
		uint64_t lo, hi; r = nullptr; range(a, lo, hi);
		if (isc(b) && b->c) {
			uint64_t q0 = lo / b->c, q1 = hi / b->c; E q = nullptr;
			if (q1 - q0 <= 128) q = quotTree(a, b->c, q0, q1, w);
			if (q) { r = e->k == UDIV ? q : mkbin(SUB, a, mkbin(MUL, q, b)); break; }
		}
		if (isc(b)) { int n = 1; while (n < 64 && (hi >> n || b->c >> n)) n++; if (n < w) { r = mkzext(mkbin(e->k, mkextract(a, 0, n), mkc(b->c, n)), w); break; } }
		r = mkbin(e->k, a, b); break; }
	case SEXT: { uint64_t lo, hi; range(a, lo, hi); uint64_t sm = maskw(a->w) >> 1; if (hi <= sm) r = mkzext(a, w); else if (lo > sm) r = mkbin(ADD, mkzext(a, w), mkc(maskw(w) & ~maskw(a->w), w)); else r = mksext(a, w); break; }
	case ZEXT: r = mkzext(a, w); break;
	case EXTRACT: r = mkextract(a, (int)e->c, w); break;
	case CONCAT: r = mkconcat(a, b); break;
	case ITE: r = mkite(a, b, d); break;
	case FADD: case FSUB: case FMUL: case FDIV: case FEQ: case FLT: case FLE: case FUNO: case FCVT: case FTOSI: case FTOUI: case SITOF: case UITOF: r = mkfp(e->k, a, b, w); break;
	case ULT: case ULE: { uint64_t l1, h1, l2, h2; range(a, l1, h1); range(b, l2, h2); bool lt = e->k == ULT; if (!(isc(a) || isc(b)) || !((isc(a) ? b : a)->k == VAR)) { if (lt ? h1 < l2 : h1 <= l2) { r = mkc(1, 1); break; } if (lt ? l1 >= h2 : l1 > h2) { r = mkc(0, 1); break; } } r = mkbin(e->k, a, b); break; }
	case SLT: case SLE: { uint64_t l1, h1, l2, h2; range(a, l1, h1); range(b, l2, h2); uint64_t sm = maskw(a->w) >> 1; if (!(isc(a) || isc(b)) || !((isc(a) ? b : a)->k == VAR)) { if (h1 <= sm && h2 <= sm) { r = mkbin(e->k == SLT ? ULT : ULE, a, b); break; } if (h1 <= sm && l2 > sm) { r = mkc(0, 1); break; } if (l1 > sm && h2 <= sm) { r = mkc(1, 1); break; } } r = mkbin(e->k, a, b); break; }
	default: r = mkbin(e->k, a, b); break;
	}
	return memo[e->id] = r;
}

// ---------------------------------------------------------------- evaluation
static std::vector<uint64_t> memoV; static std::vector<uint32_t> memoS; static uint32_t stampNow = 0;
static uint64_t ev(E e, const Model& m) {
	if (e->k == CONST) return e->c;
	if (e->k == VAR) return (e->c < m.size() ? m[e->c] : 0) & maskw(e->w);
	if (e->vars == pool.emptyVars) {}
	if (memoS[e->id] == stampNow) return memoV[e->id];
	uint64_t r;
	switch (e->k) {
	case ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
	case CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
	case EXTRACT: r = (ev(e->a, m) >> e->c) & maskw(e->w); break;
	case ZEXT: r = ev(e->a, m); break;
	case SEXT: r = (uint64_t)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
	case AND: r = ev(e->a, m); if (r) r &= ev(e->b, m); break;
	case FCVT: case FTOSI: case FTOUI: case SITOF: case UITOF: r = evalUn(e->k, ev(e->a, m), e->a->w, e->w); break;
	default: r = evalBin(e->k, ev(e->a, m), ev(e->b, m), e->a->w); break;
	}
	memoS[e->id] = stampNow; memoV[e->id] = r;
	return r;
}
uint64_t evalE(E e, const Model& m) {
	if (memoS.size() < pool.all.size()) { memoS.resize(pool.all.size() * 2 + 1024, 0); memoV.resize(memoS.size()); }
	stampNow++;
	if (!stampNow) { std::fill(memoS.begin(), memoS.end(), 0); stampNow = 1; }
	return ev(e, m);
}

// ---------------------------------------------------------------- Z3
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "ENGINE: z3 error %s\n", Z3_get_error_msg(c, e)); _exit(98); }
Z3Trans::Z3Trans() {
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context(cfg);
	Z3_del_config(cfg);
	Z3_set_error_handler(ctx, z3err);
}
static Z3_sort fsort(Z3_context c, int w) { return w == 16 ? Z3_mk_fpa_sort_16(c) : w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
Z3_ast Z3Trans::B(E e) {
	if (bo.size() <= e->id) bo.resize(pool.all.size() + 256, nullptr);
	if (bo[e->id]) return bo[e->id];
	Z3_ast r;
	auto F = [&](E x) { Z3_ast t = V(x); return Z3_mk_fpa_to_fp_bv(ctx, t, fsort(ctx, x->w)); };
	switch (e->k) {
	case CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
	case EQ: if (e->a->w == 1) r = Z3_mk_eq(ctx, B(e->a), B(e->b)); else r = Z3_mk_eq(ctx, V(e->a), V(e->b)); break;
	case ULT: r = Z3_mk_bvult(ctx, V(e->a), V(e->b)); break;
	case ULE: r = Z3_mk_bvule(ctx, V(e->a), V(e->b)); break;
	case SLT: r = Z3_mk_bvslt(ctx, V(e->a), V(e->b)); break;
	case SLE: r = Z3_mk_bvsle(ctx, V(e->a), V(e->b)); break;
	case AND: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
	case OR: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
	case XOR: r = Z3_mk_xor(ctx, B(e->a), B(e->b)); break;
	case ITE: r = Z3_mk_ite(ctx, B(e->a), B(e->b), B(e->d)); break;
	case FEQ: r = Z3_mk_fpa_eq(ctx, F(e->a), F(e->b)); break;
	case FLT: r = Z3_mk_fpa_lt(ctx, F(e->a), F(e->b)); break;
	case FLE: r = Z3_mk_fpa_leq(ctx, F(e->a), F(e->b)); break;
	case FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, F(e->a)), Z3_mk_fpa_is_nan(ctx, F(e->b))}; r = Z3_mk_or(ctx, 2, x); break; }
	default: { Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)); r = Z3_mk_eq(ctx, V(e), one); }
	}

	if (bo.size() <= e->id) bo.resize(pool.all.size() + 256, nullptr);
	return bo[e->id] = r;
}
Z3_ast Z3Trans::V(E e) {
	if (bv.size() <= e->id) bv.resize(pool.all.size() + 256, nullptr);
	if (bv[e->id]) return bv[e->id];
	Z3_ast r;
	if (e->w > 1 && (e->k == AND || e->k == OR || e->k == XOR || e->k == ITE)) {
		r = e->k == AND ? Z3_mk_bvand(ctx, V(e->a), V(e->b)) : e->k == OR ? Z3_mk_bvor(ctx, V(e->a), V(e->b)) : e->k == XOR ? Z3_mk_bvxor(ctx, V(e->a), V(e->b)) : Z3_mk_ite(ctx, B(e->a), V(e->b), V(e->d));

		if (bv.size() <= e->id) bv.resize(pool.all.size() + 256, nullptr);
		return bv[e->id] = r;
	}
	auto F = [&](E x) { Z3_ast t = V(x); return Z3_mk_fpa_to_fp_bv(ctx, t, fsort(ctx, x->w)); };
	auto rne = [&] { return Z3_mk_fpa_rne(ctx); };
	switch (e->k) {
	case CONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
	case VAR: { char n[32]; snprintf(n, 32, "v%llu_%d", (unsigned long long)e->c, e->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bv_sort(ctx, e->w)); break; }
	case ADD: r = Z3_mk_bvadd(ctx, V(e->a), V(e->b)); break;
	case SUB: r = Z3_mk_bvsub(ctx, V(e->a), V(e->b)); break;
	case MUL: r = Z3_mk_bvmul(ctx, V(e->a), V(e->b)); break;
	case UDIV: r = Z3_mk_bvudiv(ctx, V(e->a), V(e->b)); break;
	case SDIV: r = Z3_mk_bvsdiv(ctx, V(e->a), V(e->b)); break;
	case UREM: r = Z3_mk_bvurem(ctx, V(e->a), V(e->b)); break;
	case SREM: r = Z3_mk_bvsrem(ctx, V(e->a), V(e->b)); break;
	case SHL: r = Z3_mk_bvshl(ctx, V(e->a), V(e->b)); break;
	case LSHR: r = Z3_mk_bvlshr(ctx, V(e->a), V(e->b)); break;
	case ASHR: r = Z3_mk_bvashr(ctx, V(e->a), V(e->b)); break;
	case CONCAT: r = Z3_mk_concat(ctx, V(e->a), V(e->b)); break;
	case EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, V(e->a)); break;
	case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, V(e->a)); break;
	case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, V(e->a)); break;
	case FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), F(e->a), F(e->b))); break;
	case FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), F(e->a), F(e->b))); break;
	case FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), F(e->a), F(e->b))); break;
	case FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), F(e->a), F(e->b))); break;
	case FCVT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), F(e->a), fsort(ctx, e->w))); break;
	case SITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), V(e->a), fsort(ctx, e->w))); break;
	case UITOF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), V(e->a), fsort(ctx, e->w))); break;
	case FTOSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), F(e->a), e->w); break;
	case FTOUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), F(e->a), e->w); break;




	default: { Z3_sort s = Z3_mk_bv_sort(ctx, 1); r = Z3_mk_ite(ctx, B(e), Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s)); }
	}

	if (bv.size() <= e->id) bv.resize(pool.all.size() + 256, nullptr);
	return bv[e->id] = r;
}
